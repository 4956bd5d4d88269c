"""Contracts of the text scanners and the JSON parser (C01, C02, C03)."""
import z3
from engine import *
from jspec import *
from base import *
from world import add_text
from ir import Unsupported, INT, PTR

T32 = lambda x: simp(z3.Extract(31, 0, x)) if not isc(x) else x & mask(32)


def undefined(v):
    return z3.is_expr(v) and z3.is_const(v) and v.decl().name().startswith(("undef!", "uninit!"))


def text_at(eng, p):
    """(Text, offset) when p points into a text block"""
    if isinstance(p, Ptr) and isinstance(p.blk, int) and p.blk in eng.texts:
        return eng.texts[p.blk], p.off
    return None


def start_codes(K, v, but=()):
    """v is none of the codes by which ParseAnyValue tells the kinds apart"""
    return AND(*[NOT(EQ(v, K[c], 32)) for c in ("kExpectedOpeningSquareBrackets", "kExpectedOpeningCurlyBraces") if c not in but])


class TextFn(Contract):
    """int f(const char* text): a pure function of the text at a position"""
    need = ()             # spec functions whose definitions the proof unfolds
    opaque = ()

    def setup(self, eng, st, case):
        X, b = add_text(eng, st)
        X.opaque = set(self.opaque)
        self.X, self.b = X, b
        p = z3.BitVec("p", 64)
        self.p = p
        st.assume(ULE(p, X.N))
        eng.candgen.append(spec_candidates)
        eng.measure_required = True
        return [Ptr(b.id, p)]

    def frame(self, case):
        return {}

    def value(self, X, p):
        raise NotImplementedError

    def guard(self, X, p):
        return True

    def wide(self, X, p):
        return None

    def post(self, eng, case, st0, st, kind, v, args):
        X, p = self.X, self.p
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        eng.oblige(st, IMP(self.guard(X, p), EQ(v, self.value(X, p), 32)), "post: result equals the specification")

    def call(self, eng, st, args, pretty):
        r = text_at(eng, args[0])
        if r is None:
            return NotImplemented
        X, p = r
        eng.oblige(st, ULE(p, X.N), "pre of %s: position inside the text" % pretty.split("(")[0])
        g = self.guard(X, p)
        w = self.wide(X, p)
        if g is True and w is not None:
            return [(st, "ret", narrow(eng, st, w))]
        if g is True:
            return [(st, "ret", self.value(X, p))]
        v = fresh("r", 32)
        st.assume(IMP(g, EQ(v, self.value(X, p), 32)))
        return [(st, "ret", v)]


def spec_candidates(loop, flags):
    """F(p) == F(p at loop entry) for the spec functions of a position"""
    eng = loop.eng
    out = []
    for s in loop.slots.values():
        if s.kind != "ptr" or not isinstance(s.v0.blk, int) or s.v0.blk not in eng.texts:
            continue
        X = eng.texts[s.v0.blk]
        z = s.v0.off
        for F in ("WS", "DG", "SE"):
            if F in X.opaque and F != "SE":
                pass
            f = getattr(X, F)
            out.append(("%s(%s) const" % (F, s.name), lambda V, s=s, f=f, z=z: f(V.raw(s.key).off) == f(z)))
        out.append(("%s <= N" % s.name, lambda V, s=s, X=X: ULE(V.raw(s.key).off, X.N)))
        # additive: count + DL(p) == DL(p0), for 32-bit counters and output pointers
        for c in loop.slots.values():
            if c is s:
                continue
            if undefined(c.v0):
                continue
            if c.kind == "int" and c.w in (32, 64):
                out.append(("%s + DL(%s)" % (c.name, s.name), lambda V, s=s, c=c, X=X, z=z: IMP(
                    X.SE(z) != ERR,
                    EQ(SUB(V.raw(c.key), c.v0, c.w), TRUNC(X.DL(z) - X.DL(V.raw(s.key).off), 64, c.w), c.w))))
            elif c.kind == "ptr" and isinstance(c.v0.blk, int) and c.v0.blk != 0 and c.v0.blk not in eng.texts:
                out.append(("%s + DL(%s)" % (c.name, s.name), lambda V, s=s, c=c, X=X, z=z: IMP(
                    X.SE(z) != ERR,
                    EQ(SUB(V.raw(c.key).off, c.v0.off), X.DL(z) - X.DL(V.raw(s.key).off)))))
    return out


class ValidateUnicodeChar(TextFn):
    names = ("Terathon::Text::ValidateUnicodeChar(char const*)",)

    def value(self, X, p):
        return T32(X.U8(p))


class ComputeWhitespaceLength(TextFn):
    names = ("C4::Json::ComputeWhitespaceLength(char const*)",)
    optional = True

    def value(self, X, p):
        return T32(X.WS(p) - p)

    def wide(self, X, p):
        return simp(X.WS(p) - p)


class ReadStringEscapeChar(Contract):
    names = ("C4::Json::ReadStringEscapeChar(char const*, int*, char*)",)
    optional = True

    def cases(self):
        return ["measure", "write"]

    def setup(self, eng, st, case):
        X, b = add_text(eng, st)
        self.X, self.b = X, b
        p = z3.BitVec("p", 64)
        self.p = p
        st.assume(ULE(p, X.N))
        ln = st.new(4, "stringLength")
        ln.cells[0] = (4, z3.BitVec("len0", 32))
        self.ln = ln.id
        out = NULL
        if case == "write":
            sz = z3.BitVec("osz", 64)
            o = z3.BitVec("o", 64)
            ob = st.new(sz, "string", "elems")
            ob.bytes = Var("out", 8)
            st.assume(ULT(sz, 1 << 32))
            st.assume(ULE(o, sz))
            st.assume(IMP(X.EL(p) != 0, ULE(X.OL(p), SUB(sz, o))))
            out = Ptr(ob.id, o)
            self.ob, self.o = ob.id, o
        eng.candgen.append(spec_candidates)
        eng.measure_required = True
        return [Ptr(b.id, p), Ptr(ln.id, 0), out]

    def frame(self, case):
        f = {self.ln: (0,)}
        if case == "write":
            f[self.ob] = "*"
        return f

    def post(self, eng, case, st0, st, kind, v, args):
        X, p = self.X, self.p
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        eng.oblige(st, EQ(v, T32(X.EL(p)), 32), "post: text length of the escape")
        ok = X.EL(p) != 0
        eng.oblige(st, IMP(ok, EQ(st.blocks[self.ln].cells[0][1], T32(X.OL(p)), 32)), "post: decoded length of the escape")
        if case == "write":
            q = fresh("q", 64)
            a, b = st0.blocks[self.ob].bytes, st.blocks[self.ob].bytes
            k = q - self.o
            eng.oblige(st, IMP(AND(ok, ULT(k, X.OL(p))), EQ(b.rd(q), X.OB(p, k), 8)), "post: decoded bytes of the escape")
            eng.oblige(st, IMP(NOT(AND(ok, ULT(k, X.OL(p)))), EQ(b.rd(q), a.rd(q), 8)), "post: no other byte written")

    def call(self, eng, st, args, pretty):
        r = text_at(eng, args[0])
        if r is None:
            return NotImplemented
        X, p = r
        eng.oblige(st, ULE(p, X.N), "pre of ReadStringEscapeChar: position inside the text")
        ok = X.EL(p) != 0
        out = args[2]
        lenp = args[1]
        old = eng.load(st, INT(32), lenp, "ReadStringEscapeChar length")
        eng.store(st, INT(32), lenp, ITE(ok, T32(X.OL(p)), fresh("len", 32), 32), "ReadStringEscapeChar length")
        if not (isinstance(out.blk, int) and out.blk == 0):
            b = eng.access(st, out, 0, True, "ReadStringEscapeChar output")
            if b is None:
                return []
            eng.oblige(st, IMP(ok, AND(ULE(out.off, b.size), ULE(X.OL(p), SUB(b.size, out.off)))),
                       "mem: room for the decoded escape")
            nb = st.w(b.id)
            f = nb.getbytes()
            o = out.off
            nb.bytes = Lam(lambda q: ITE(AND(ok, ULT(SUB(q, o), X.OL(p))), X.OB(p, bv(SUB(q, o), 64)), f.rd(q), 8), 8)
        return [(st, "ret", T32(X.EL(p)))]


def db_form(loop, key, f0):
    """closed form: the decoded bytes so far, at the ghost index"""
    eng = loop.eng
    gi = eng.ghost_index
    if key[0] != "bytes":
        return []
    out = []
    for s in loop.slots.values():
        if s.kind != "ptr" or not isinstance(s.v0.blk, int) or s.v0.blk not in eng.texts:
            continue
        X = eng.texts[s.v0.blk]
        z = s.v0.off
        for c in loop.slots.values():
            if c.kind == "ptr" and isinstance(c.v0.blk, int) and c.v0.blk == key[1]:
                def form(V, s=s, c=c, X=X, z=z):
                    n = SUB(V.raw(c.key).off, c.v0.off)
                    base = Var("Lundec", 8)
                    v = ITE(ULT(SUB(gi, c.v0.off), n), X.DB(z, bv(SUB(gi, c.v0.off), 64)), f0.rd(gi), 8)
                    return Lam(lambda q: v if same_index(q, gi) is True else ITE(EQ(q, gi), v, base.rd(q), 8), 8)
                out.append(("decoded", form, gi))
            if c.kind == "int":
                for o in loop.slots.values():
                    pass
    return out


class ReadStringLiteral(Contract):
    names = ("C4::Json::ReadStringLiteral(char const*, int*, int*, char*)",)
    optional = True
    OPQ = ("U8", "EL", "OL", "OB", "CD", "HEX4", "CP")

    def cases(self):
        return ["measure", "write"]

    def setup(self, eng, st, case):
        X, b = add_text(eng, st)
        X.opaque = set(self.OPQ)
        self.X, self.b = X, b
        p = z3.BitVec("p", 64)
        self.p = p
        st.assume(ULE(p, X.N))
        self.cells = []
        for n in ("textLength", "stringLength"):
            c = st.new(4, n)
            c.cells[0] = (4, z3.BitVec(n + "0", 32))
            self.cells.append(c.id)
        out = NULL
        if case == "write":
            sz, o = z3.ZeroExt(32, z3.BitVec("osz", 32)), z3.ZeroExt(32, z3.BitVec("o", 32))
            ob = st.new(sz, "string", "elems")
            ob.bytes = Var("out", 8)
            st.assume(ULE(o, sz))
            st.assume(X.SE(p) != ERR)
            st.assume(ULE(X.DL(p), SUB(sz, o)))
            out = Ptr(ob.id, o)
            self.ob, self.o = ob.id, o
        eng.candgen.append(spec_candidates)
        eng.closedforms.append(db_form)
        eng.measure_required = True
        self.q = eng.ghost_index = fresh("q", 64)
        if case == "write":
            q = self.q
            eng.candgen.append(db_cands(self.q, self.ob))
        return [Ptr(b.id, p), Ptr(self.cells[0], 0), Ptr(self.cells[1], 0), out]

    def frame(self, case):
        f = {self.cells[0]: (0,), self.cells[1]: (0,)}
        if case == "write":
            f[self.ob] = "*"
        return f

    def post(self, eng, case, st0, st, kind, v, args):
        X, p = self.X, self.p
        K = self.W.K
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        ok = X.SE(p) != ERR
        eng.oblige(st, EQ(v, K["kOk"], 32) == ok if not isc(v) else ((v == K["kOk"]) == ok), "post: accepted exactly when the string is well-formed")
        eng.oblige(st, NOT(EQ(v, K["kExpectedBeginingDoubleQuotes"], 32)), "post: status distinguishes a missing quote")
        eng.oblige(st, AND(NOT(EQ(v, K["kException"], 32)), start_codes(K, v)), "post: no kException, no status that speaks of another kind")
        tl = st.blocks[self.cells[0]].cells[0][1]
        sl = st.blocks[self.cells[1]].cells[0][1]
        eng.oblige(st, IMP(ok, EQ(tl, T32(X.SE(p) - p), 32)), "post: text length")
        eng.oblige(st, IMP(ok, EQ(sl, T32(X.DL(p)), 32)), "post: decoded length")
        if case == "write":
            q = self.q
            a, b = st0.blocks[self.ob].bytes, st.blocks[self.ob].bytes
            k = q - self.o
            eng.oblige(st, IMP(ULT(k, X.DL(p)), EQ(b.rd(q), X.DB(p, k), 8)), "post: decoded bytes")
            eng.oblige(st, IMP(NOT(ULT(k, X.DL(p))), EQ(b.rd(q), a.rd(q), 8)), "post: no other byte written")

    def call(self, eng, st, args, pretty):
        r = text_at(eng, args[0])
        if r is None:
            return NotImplemented
        X, p = r
        K = self.W.K
        eng.oblige(st, ULE(p, X.N), "pre of ReadStringLiteral: position inside the text")
        ok = X.SE(p) != ERR
        out = args[3]
        write = not (isinstance(out.blk, int) and out.blk == 0)
        if write:
            eng.oblige(st, ok, "pre of ReadStringLiteral: writing only well-formed strings")
        res = []
        if not write and eng.feasible(st, NOT(ok)):
            s = st.copy()
            s.assume(NOT(ok))
            for a in args[1:3]:
                eng.store(s, INT(32), a, fresh("len", 32), "ReadStringLiteral result")
            v = fresh("status", 32)
            s.assume(AND(NOT(EQ(v, K["kOk"], 32)), NOT(EQ(v, K["kExpectedBeginingDoubleQuotes"], 32)), NOT(EQ(v, K["kException"], 32)), start_codes(K, v), ULT(v, 1 << 16, 32)))
            res.append((s, "ret", v))
        if eng.feasible(st, ok):
            s = st
            s.assume(ok)
            for a, val in ((args[1], simp(X.SE(p) - p)), (args[2], simp(X.DL(p)))):
                eng.store(s, INT(32), a, narrow(eng, s, val), "ReadStringLiteral result")
            if write:
                b = eng.access(s, out, 0, True, "ReadStringLiteral output")
                if b is None:
                    return res
                eng.oblige(s, AND(ULE(out.off, b.size), ULE(X.DL(p), SUB(b.size, out.off))), "mem: room for the decoded string")
                nb = s.w(b.id)
                f = nb.getbytes()
                o = out.off
                n = X.DL(p)
                nb.bytes = Lam(lambda q: ITE(ULT(SUB(q, o), n), X.DB(p, bv(SUB(q, o), 64)), f.rd(q), 8), 8)
            res.append((s, "ret", K["kOk"]))
        return res


def db_cands(q, blk):
    """continuation of the decoded bytes at the ghost index q: DB(p, k - written) == DB(p0, k)"""
    def gen(loop, flags):
        eng = loop.eng
        out = []
        for s in loop.slots.values():
            if s.kind != "ptr" or not isinstance(s.v0.blk, int) or s.v0.blk not in eng.texts:
                continue
            X = eng.texts[s.v0.blk]
            z = s.v0.off
            for c in loop.slots.values():
                if c.kind == "ptr" and isinstance(c.v0.blk, int) and c.v0.blk == blk:
                    def f(V, s=s, c=c, X=X, z=z):
                        n = SUB(V.raw(c.key).off, c.v0.off)
                        k = SUB(q, c.v0.off)
                        return IMP(AND(X.SE(z) != ERR, ULE(n, k)), X.DB(V.raw(s.key).off, bv(SUB(k, n), 64)) == X.DB(z, bv(k, 64)))
                    out.append(("DB cont", f))
        return out
    return gen


ALL = [ValidateUnicodeChar, ComputeWhitespaceLength, ReadStringEscapeChar, ReadStringLiteral]
