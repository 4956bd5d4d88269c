"""Contract of the document level (C01, C03, C04, C14): StructuredData::Parse( const Array<char>& )."""
import z3
from engine import *
from jspec import *
from base import *
from c_parse import T32
from c_value import ParseFn, opaque_value, MAXTEXT, OPQ
from ir import Unsupported, INT, PTR


def position_candidates(loop, flags):
    """invariants of loops that count lines and columns, backwards or forwards"""
    eng = loop.eng
    out = []
    ints = [s for s in loop.slots.values() if s.kind == "int" and s.w in (32, 64)]
    for s in loop.slots.values():
        if s.kind != "ptr" or not isinstance(s.v0.blk, int) or s.v0.blk not in eng.texts:
            continue
        X = eng.texts[s.v0.blk]
        z = bv(s.v0.off, 64)
        c = lambda V, s=s: bv(V.raw(s.key).off, 64)
        out.append(("%s <= N" % s.name, lambda V, c=c, X=X: ULE(c(V), X.N)))
        out.append(("LINE(%s) <= LINE(start)" % s.name, lambda V, c=c, X=X, z=z: ULE(X.LINE(c(V)), X.LINE(z))))
        for a in ints:
            D = lambda V, a=a: SUB(V.raw(a.key), a.v0, a.w)
            W = lambda x, a=a: T32(bv(x, 64)) if a.w == 32 else bv(x, 64)
            back = lambda V, c=c, z=z: SUB(z, c(V))
            fwd = lambda V, c=c, z=z: SUB(c(V), z)
            for n, dist in (("back", back), ("fwd", fwd)):
                out.append(("%s grows no more than %s %s" % (a.name, s.name, n), lambda V, a=a, dist=dist: AND(
                    SLE(a.v0, V.raw(a.key), a.w), ULE(ZEXT(SUB(V.raw(a.key), a.v0, a.w), a.w, 64), dist(V)))))
            out.append(("%s counts lines back to %s" % (a.name, s.name), lambda V, a=a, c=c, X=X, z=z, D=D, W=W: EQ(D(V), W(X.LINE(z) - X.LINE(c(V))), a.w)))
            out.append(("%s counts lines up to %s" % (a.name, s.name), lambda V, a=a, c=c, X=X, z=z, D=D, W=W: EQ(D(V), W(X.LINE(c(V)) - X.LINE(z)), a.w)))
            out.append(("%s is the column of %s" % (a.name, s.name), lambda V, a=a, c=c, X=X, W=W: EQ(SUB(V.raw(a.key), 1, a.w), W(X.COL(c(V))), a.w)))
            out.append(("%s is the offset of column of %s" % (a.name, s.name), lambda V, a=a, c=c, X=X, W=W: EQ(V.raw(a.key), W(X.COL(c(V))), a.w)))
            out.append(("%s counts the column back to %s" % (a.name, s.name), lambda V, a=a, c=c, X=X, z=z, D=D, W=W: ITE(
                X.LINE(c(V)) == X.LINE(z), EQ(D(V), W(X.COL(z) - X.COL(c(V))), a.w), EQ(D(V), W(X.COL(z)), a.w), 1)))
            for b in ints:
                if a is not b and isc(b.v0):
                    for cond, cn in ((lambda V, b=b: EQ(V.raw(b.key), b.v0, b.w), "unchanged"),):
                        out.append(("%s %s iff no line before %s" % (b.name, cn, s.name), lambda V, b=b, c=c, X=X, z=z, cond=cond: EQ(cond(V), X.LINE(c(V)) == X.LINE(z))))
    return out


class ParseDocument(ParseFn):
    names = ("C4::Json::StructuredData::Parse(Terathon::Array<char, 0> const&)",)
    deep = ("LINE", "COL")
    opq = tuple(x for x in OPQ if x not in ("LINE", "COL")) + ("NE", "WS")

    def cases(self):
        return [a + b for a in ("short", "unterminated", "text") for b in ("", " (replaces a document)")]

    def setup(self, eng, st, case):
        from jspec import Text
        X = Text(eng.spec, "", MAXTEXT)
        n = z3.BitVec("n", 64)
        b = st.new(n, "text", "text", ro=True)
        eng.texts[b.id] = X
        self.X, self.b = X, b
        X.deep, X.opaque = set(self.deep), set(self.opq)
        last = z3.BitVec("last", 8)
        what = case.split(" ")[0]
        if what == "text":
            eng.textblocks[b.id] = lambda off: X.t(off)
            for c in X.base:
                st.assume(c)
            # the first NUL is the terminator or an earlier one
            st.assume(AND(ULE(2, n), ULE(n, MAXTEXT), ULE(X.N, n - 1), X.t(n - 1) == 0))
        elif what == "unterminated":
            eng.textblocks[b.id] = lambda off: ITE(EQ(off, n - 1), last, X.t(off), 8)
            st.assume(AND(ULE(2, n), ULE(n, MAXTEXT), last != 0))
        else:
            eng.textblocks[b.id] = lambda off: X.t(off)
            st.assume(ULE(n, 1))
        self.n = n
        self.env(eng)
        eng.candgen.append(position_candidates)
        a = st.new(16, "buffer")
        a.cells[0] = (4, simp(z3.Extract(31, 0, n)))
        a.cells[4] = (4, z3.BitVec("reserved", 32))
        a.cells[8] = (8, Ptr(b.id, 0))
        o = st.new(8, "document")
        o.cells[0] = (8, NULL)
        self.o = o.id
        self.old = None
        if "replaces" in case:
            s, v = opaque_value(eng, st, X, z3.BitVec("old", 64))
            if s is not st:
                raise Unsupported("constructor forks")
            self.old = v.blk
            st.w(o.id).cells[0] = (8, v)
        return [Ptr(o.id, 0), Ptr(a.id, 0)]

    def frame(self, case):
        return None

    def post(self, eng, case, st0, st, kind, v, args):
        X, K, n = self.X, self.W.K, self.n
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception leaves Parse")
            return
        lo, col = v.v
        status, line = simp(z3.Extract(31, 0, bv(lo, 64))), simp(z3.Extract(63, 32, bv(lo, 64)))
        root = st.blocks[self.o].cells[0][1]
        ok = EQ(status, K["kOk"], 32)
        what = case.split(" ")[0]
        keep = [self.o] + ([self.old] if self.old else [])
        if what != "text":
            code = "kTextBufferContentsInvalid" if what == "short" else "kUnterminatedTextBuffer"
            eng.oblige(st, EQ(status, K[code], 32), "post: %s" % code)
            eng.oblige(st, AND(EQ(line, 0, 32), EQ(col, 0, 32)), "post: no position without a text")
            eng.oblige(st, OR(ptreq(root, NULL), False if self.old is None else AND(ptreq(root, Ptr(self.old, 0)), st.blocks[self.old].alive)), "own: the document holds a live value or none")
            leak_check(eng, st0, st, [self.o])
            return
        if self.old is not None:
            eng.oblige(st, NOT(st.blocks[self.old].alive), "own: the previous document is released")
        leak_check(eng, st0, st, [root.blk] if isinstance(root.blk, int) and root.blk else [])
        w = X.WS(B(0))
        e = X.VE(w)
        acc = AND(e != ERR, X.WS(e) == n - 1)
        if st.ghost["oom"]:
            eng.oblige(st, EQ(status, K["kException"], 32), "post: a failed allocation is reported")
        else:
            eng.oblige(st, NOT(EQ(status, K["kException"], 32)), "post: kException only after a failed allocation")
            eng.oblige(st, EQ(ok, acc), "post: accepted exactly when the text is whitespace, one value, whitespace")
        eng.oblige(st, IMP(ok, AND(EQ(line, 0, 32), EQ(col, 0, 32))), "post: no error position on success")
        s2 = st.copy()
        s2.assume(ok)
        if eng.feasible(s2, True):
            b = s2.blocks.get(root.blk) if isinstance(root.blk, int) and root.blk else None
            good = b is not None and b.alive and "den" in b.meta
            eng.oblige(s2, good, "post: the document holds the value")
            if good:
                eng.oblige(s2, b.meta["den"] == w, "post: the document holds the value the text denotes")
        s3 = st.copy()
        s3.assume(NOT(ok))
        if eng.feasible(s3, True):
            b = s3.blocks.get(root.blk) if isinstance(root.blk, int) and root.blk else None
            eng.oblige(s3, OR(ptreq(root, NULL), b is not None and b.alive), "own: the document holds a live value or none")
            q = s3.ghost.get("stop")
            if q is None:
                eng.oblige(s3, False, "post: the value parser ran")
                return
            at = lambda f: AND(EQ(line, T32(X.LINE(f) + 1), 32), EQ(col, T32(X.COL(f) + 1), 32))
            # the error position is where the value parser stopped, or after the whitespace that follows
            eng.oblige(s3, OR(at(q), at(X.WS(q))), "post: line and column of the place where the parser stopped")


ALL = [ParseDocument]
