"""Contracts of the text primitives (C08)."""
import z3
from engine import *
from jspec import *
from base import *
from world import add_text
from c_parse import T32, text_at, undefined
from ir import Unsupported, INT, PTR

BV64 = z3.BitVecSort(64)


class Walk:
    """spec functions of a step index: first(name, stop, ok) is the first index k
    >= i with stop(k); count(name, end, hit) the number of hits before end."""

    def __init__(self, eng):
        self.eng = eng
        self.firsts = []
        self.counts = []
        self.folds = []
        self.bounds = []      # terms: index <= bound

    def lemma(self, st, f, ax, ok, goal, name):
        """goal(f, i) for all i with ok(i), by induction on the distance to the end"""
        eng = self.eng
        i = z3.BitVec("ind_" + name, 64)
        s = z3.Solver()
        s.set("timeout", 60000)
        seen = set()
        fs = [b2(simp(x)) for x in st.pc + [ok(i)]]
        fs += [b2(simp(x)) for x in ax(i)]
        fs += [b2(simp(IMP(ok(i + 1), goal(i + 1))))]
        fs += [b2(simp(NOT(goal(i))))]
        for x in list(fs):
            s.add(x)
            for a in eng.spec.instances(x):
                if a.get_id() not in seen:
                    seen.add(a.get_id())
                    s.add(a)
        t = time.time()
        r = str(s.check())
        eng.smt.time += time.time() - t
        eng.smt.nq += 1
        eng.obs.append(Oblig("lemma %s (induction)" % name, "ok" if r == "unsat" else "unknown", r, time.time() - t))
        return r == "unsat"

    def first(self, st, name, stop, ok, last):
        """ok(i): i in the domain; stop holds at the last index of the domain"""
        F = z3.Function(name, BV64, BV64)
        ax = lambda i: [IMP(ok(i), F(i) == z3.If(b2(stop(i)), i, F(i + 1)))]
        goal = lambda i: AND(ULE(i, F(i)), ULE(F(i), last))
        self.eng.spec.define(F, lambda i: ax(i))
        self.eng.spec.rec.add(name)
        self.eng.spec.lem[name] = lambda i: []
        if self.lemma(st, F, ax, ok, goal, name):
            self.eng.spec.define(F, lambda i: ax(i) + [IMP(ok(i), goal(i))])
            self.eng.spec.lem[name] = lambda i: [IMP(ok(i), goal(i))]
        self.eng.spec.cache.clear()
        g = lambda i: F(bv(i, 64))
        self.firsts.append((name, g))
        return g

    def count(self, st, name, end, hit, ok, step=1):
        """number (64-bit) of indices with hit before end"""
        F = z3.Function(name, BV64, BV64)
        stp = (lambda i: i + 1) if step == 1 else step
        self.eng.spec.define(F, lambda i: [IMP(ok(i), F(i) == z3.If(b2(end(i)), B(0), hit(i) + F(stp(i))))])
        self.eng.spec.rec.add(name)
        self.eng.spec.lem[name] = lambda i: []
        g = lambda i: F(bv(i, 64))
        self.counts.append((name, g))
        return g

    def fold(self, name, end, step, ok, w=32):
        F = z3.Function(name, BV64, z3.BitVecSort(w), z3.BitVecSort(w))
        self.eng.spec.define(F, lambda i, a: [IMP(ok(i), F(i, a) == z3.If(b2(end(i)), a, F(i + 1, step(i, a))))])
        self.eng.spec.rec.add(name)
        self.eng.spec.lem[name] = lambda i, a: []
        g = lambda i, a: F(bv(i, 64), bv(a, w))
        self.folds.append((name, g, w))
        return g

    def indices(self, loop):
        """(name, f(View)): loop slots read as a step index"""
        out = []
        for s in loop.slots.values():
            if undefined(s.v0):
                continue
            if s.kind == "ptr":
                if not isinstance(s.v0.blk, int) or s.v0.blk not in self.base:
                    continue
                if not (isc(s.v0.blk) and s.alts == [s.v0.blk]):
                    continue
                zs = self.base[s.v0.blk]
                for z in zs if isinstance(zs, list) else [zs]:
                    out.append((s.name, lambda V, s=s, z=z: SUB(V.raw(s.key).off, z)))
            elif s.kind == "int" and s.w in (32, 64):
                out.append((s.name, lambda V, s=s: SEXT(V.raw(s.key), s.w, 64)))
                if not (isc(s.v0) and s.v0 == 0):
                    out.append((s.name + "'", lambda V, s=s: SEXT(SUB(V.raw(s.key), s.v0, s.w), s.w, 64)))
                    out.append((s.name + "''", lambda V, s=s: SEXT(SUB(s.v0, V.raw(s.key), s.w), s.w, 64)))
        return out

    def gen(self, loop, flags):
        out = []
        ix = self.indices(loop)
        for nm, f in ix:
            for fn, F in self.firsts:
                out.append(("%s(%s) const" % (fn, nm), lambda V, f=f, F=F: F(f(V)) == F(0)))
            for k, b in enumerate(self.bounds):
                out.append(("%s <= bound%d" % (nm, k), lambda V, f=f, b=b: ULE(f(V), b)))
            for fn, F in self.counts:
                for s in loop.slots.values():
                    if s.kind == "int" and s.w in (32, 64) and not undefined(s.v0):
                        out.append(("%s + %s(%s)" % (s.name, fn, nm), lambda V, f=f, F=F, s=s: EQ(
                            ADD(SUB(V.raw(s.key), s.v0, s.w), TRUNC(F(f(V)), 64, s.w), s.w), TRUNC(F(0), 64, s.w), s.w)))
            for fn, F, w in self.folds:
                for s in loop.slots.values():
                    if s.kind == "int" and s.w == w and not undefined(s.v0):
                        out.append(("%s(%s, %s)" % (fn, nm, s.name), lambda V, f=f, F=F, s=s: F(f(V), V.raw(s.key)) == F(0, s.v0)))
        return out


def zx(b):
    return z3.ZeroExt(24, b)


def lower(b):
    return z3.If(z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), b + 32, b)


def upper(b):
    return z3.If(z3.And(z3.UGE(b, 97), z3.ULE(b, 122)), b - 32, b)


class TextBase(Contract):
    optional = False
    ntext = 1

    def texts(self, eng, st):
        self.X, self.p, self.tb = [], [], []
        W = self.Wk = Walk(eng)
        W.base = {}
        for k in range(self.ntext):
            X, b = add_text(eng, st, "" if k == 0 else "b", "text%d" % k)
            p = z3.BitVec("p%d" % k, 64)
            st.assume(ULE(p, X.N))
            X.lemma_on = False
            self.X.append(X)
            self.p.append(p)
            self.tb.append(b.id)
            W.base[b.id] = p
            W.bounds.append(X.N - p)
        eng.candgen.append(W.gen)
        eng.measure_required = True
        return [Ptr(b, p) for b, p in zip(self.tb, self.p)]

    def loop_measure(self, loop):
        for nm, f in self.Wk.indices(loop):
            for b in self.Wk.bounds:
                yield lambda V, U, f=f, b=b: AND(ULT(f(V), f(U)), ULE(f(U), b))

    def maxarg(self, eng, st):
        """a count argument; the most negative int has no predecessor"""
        self.max = z3.BitVec("max", 32)
        st.assume(self.max != 1 << 31)
        return self.max

    def ch(self, k, i):
        return self.X[k].t(self.p[k] + bv(i, 64))

    def frame(self, case):
        return {}

    def call(self, eng, st, args, pretty):
        return NotImplemented      # small functions: callers execute the body

    def ret(self, eng, st, kind, v, want, w=32, guard=True, what="post: result equals the specification"):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return False
        if w == 1:
            eng.oblige(st, IMP(guard, b2(v) == b2(want)), what)
        else:
            eng.oblige(st, IMP(guard, EQ(v, want, w)), what)
        return True


class GetTextLength(TextBase):
    names = ("Terathon::Text::GetTextLength(char const*)",)

    def setup(self, eng, st, case):
        return self.texts(eng, st)

    def post(self, eng, case, st0, st, kind, v, args):
        self.ret(eng, st, kind, v, T32(self.X[0].N - self.p[0]), what="post: number of bytes before the NUL")

    def call(self, eng, st, args, pretty):
        n = text_length(eng, st, args[0], None, "GetTextLength")
        if n is None:
            return NotImplemented
        return [(st, "ret", T32(bv(n, 64)))]


class FindChar(TextBase):
    names = ("Terathon::Text::FindChar(char const*, unsigned int)",)
    bounded = False

    def setup(self, eng, st, case):
        a = self.texts(eng, st)
        k = z3.BitVec("k", 32)
        R = self.X[0].N - self.p[0]
        self.F = self.Wk.first(st, "FC", lambda i: OR(self.ch(0, i) == 0, zx(self.ch(0, i)) == k), lambda i: ULE(i, R), R)
        a.append(k)
        if self.bounded:
            a.append(self.maxarg(eng, st))
            self.Wk.bounds.append(SEXT(self.max, 32, 64))
        return a

    def post(self, eng, case, st0, st, kind, v, args):
        f = self.F(0)
        miss = self.ch(0, f) == 0
        if self.bounded:
            miss = OR(miss, SLE(SEXT(self.max, 32, 64), f))
        self.ret(eng, st, kind, v, ITE(miss, 0xFFFFFFFF, T32(f), 32), what="post: index of the first match or -1")


class FindCharMax(FindChar):
    names = ("Terathon::Text::FindChar(char const*, unsigned int, int)",)
    bounded = True


class CountChars(TextBase):
    names = ("Terathon::Text::CountChars(char const*, unsigned int, int)",)

    def setup(self, eng, st, case):
        a = self.texts(eng, st)
        k, m = z3.BitVec("k", 32), self.maxarg(eng, st)
        R = self.X[0].N - self.p[0]
        M = SEXT(m, 32, 64)
        self.F = self.Wk.count(st, "CC", lambda i: OR(self.ch(0, i) == 0, SLE(M, i)), lambda i: z3.If(zx(self.ch(0, i)) == k, B(1), B(0)), lambda i: ULE(i, R))
        self.Wk.bounds.append(M)
        return a + [k, m]

    def post(self, eng, case, st0, st, kind, v, args):
        self.ret(eng, st, kind, v, T32(self.F(0)), what="post: number of matches in the first max bytes")


class Hash(TextBase):
    names = ("Terathon::Text::Hash(char const*)",)

    def setup(self, eng, st, case):
        a = self.texts(eng, st)
        R = self.X[0].N - self.p[0]
        self.F = self.Wk.fold("HSH", lambda i: self.ch(0, i) == 0, lambda i, h: (h ^ zx(self.ch(0, i))) * 0x6B84DF47 + 1, lambda i: ULE(i, R))
        return a

    def post(self, eng, case, st0, st, kind, v, args):
        self.ret(eng, st, kind, v, self.F(0, 0), what="post: hash of every byte in order")


class Compare(TextBase):
    """one of the twelve comparisons"""
    ntext = 2
    rel, fold, bounded = "eq", None, False

    def f(self, c):
        return self.fold.__func__(c) if isinstance(self.fold, staticmethod) else (self.fold(c) if self.fold else c)

    def setup(self, eng, st, case):
        a = self.texts(eng, st)
        self.R = R = ITE(ULE(self.X[0].N - self.p[0], self.X[1].N - self.p[1]), self.X[0].N - self.p[0], self.X[1].N - self.p[1])
        A = lambda i: self.f(self.ch(0, i))
        C = lambda i: self.f(self.ch(1, i))
        self.A, self.C = A, C
        self.F = self.Wk.first(st, "FD", lambda i: OR(A(i) != C(i), self.ch(0, i) == 0), lambda i: ULE(i, R), R)
        if self.bounded:
            a.append(self.maxarg(eng, st))
            self.Wk.bounds.append(SEXT(self.max, 32, 64))
        return a

    def post(self, eng, case, st0, st, kind, v, args):
        f = self.F(0)
        x, y = self.A(f), self.C(f)
        want = {"eq": x == y, "lt": z3.ULT(x, y), "le": z3.ULE(x, y)}[self.rel]
        if self.bounded:
            want = ITE(SLE(SEXT(self.max, 32, 64), f), self.rel != "lt", want, 1)
        self.ret(eng, st, kind, v, want, 1, what="post: byte-wise order at the first difference")


def mk(name, rel, fold, bounded):
    fn = "Terathon::Text::%s(char const*, char const*%s)" % (name, ", int" if bounded else "")
    return type(name + ("Max" if bounded else ""), (Compare,), dict(names=(fn,), rel=rel, fold=staticmethod(fold) if fold else None, bounded=bounded))


for _n, _r, _f in (("CompareText", "eq", None), ("CompareTextCaseless", "eq", lower), ("CompareTextLessThan", "lt", None), ("CompareTextLessThanCaseless", "lt", upper),
                   ("CompareTextLessEqual", "le", None), ("CompareTextLessEqualCaseless", "le", upper)):
    for _b in (False, True):
        _c = mk(_n, _r, _f, _b)
        globals()[_c.__name__] = _c


# ---- what callers know about the text at a pointer

def hint(b, start, n):
    """in block b there are n bytes that are not NUL from start on, then usually a NUL"""
    b.meta["hints"] = [(start, n)] + [h for h in b.meta.get("hints", []) if h[0] is not start]


def text_length(eng, st, p, m, what):
    """length (64-bit) of the text at p as far as the first m bytes (m None: all), with obligations that show it;
    None: unknown block"""
    if not isinstance(p, Ptr) or not isinstance(p.blk, int) or p.blk == 0:
        return None
    b = st.blocks[p.blk]
    hs = []
    if b.id in eng.texts:
        hs.append((B(0), eng.texts[b.id].N))
    hs += b.meta.get("hints", [])
    if not hs and isinstance(b.bytes, Const) and isc(p.off):
        d = b.bytes.data[p.off:]
        hs.append((p.off, d.index(0) if 0 in d else len(d)))
    lim = b.size if b.limit is None else b.limit
    q = fresh("tl", 64)
    pick = None
    ks = []
    for start, n in hs:
        k = n if start is p.off or same_index(start, p.off) is True else SUB(ADD(start, n), p.off)
        if m is not None:
            if z3.is_expr(k) and eng.valid(st.pc, ULE(k, m)):
                ks.append(k)
            k = ITE(SLT(m, k), m, k)
        ks.append(k)
    for k in ks:
        cond = [b.alive, ULE(k, (1 << 31) - 2), ULE(p.off, lim), ULE(k, SUB(lim, p.off)),
                IMP(ULT(q, k), NOT(EQ(eng.rdbyte(st, b, ADD(p.off, q)), 0, 8)))]
        end = AND(ULT(k, SUB(lim, p.off)), EQ(eng.rdbyte(st, st.blocks[p.blk], ADD(p.off, k)), 0, 8))
        if m is not None:
            end = OR(end, SLE(m, k))
        cond.append(end)
        if eng.valid(st.pc, AND(*cond)):
            pick = k
            break
        if pick is None:
            pick, pc = k, cond
    else:
        if pick is None:
            return None
        eng.oblige(st, AND(*pc), "pre of %s: a NUL-terminated text at the source" % what)
        return pick
    eng.oblige(st, True, "pre of %s: a NUL-terminated text at the source" % what)
    return pick


def write_text(eng, st, d, n, rd, what):
    """n bytes and a NUL are stored at d"""
    b = eng.access(st, d, 0, True, what)
    if b is None:
        return False
    lim = b.size if b.limit is None else b.limit
    eng.oblige(st, AND(ULE(d.off, lim), ULT(n, SUB(lim, d.off))), "mem: %s: room for the text in %s" % (what, b.name))
    if b.cells and b.kind != "elems":
        eng.oblige(st, ULE(max(o + s for o, (s, x) in b.cells.items()), d.off), "mem: %s stays out of the other members of %s" % (what, b.name))
    nb = st.w(b.id)
    f = nb.getbytes()
    o = d.off
    nb.bytes = Lam(lambda i: ITE(ULT(SUB(i, o), n), rd(SUB(i, o)), ITE(EQ(SUB(i, o), n), 0, f.rd(i), 8), 8), 8)
    hs = nb.meta.get("hints", [])
    new = [(o, n)]
    for s0, m0 in hs:
        new.append((s0, ADD(SUB(o, s0), n)))
        new.append((s0, m0))
    nb.meta["hints"] = new[:6]
    return True


class CopyText(TextBase):
    names = ("Terathon::Text::CopyText(char const*, char*)",)
    bounded = False

    def cases(self):
        return ["separate", "same block, source first", "same block, destination first"]

    def setup(self, eng, st, case):
        a = self.texts(eng, st)
        sz, o = z3.BitVec("osz", 64), z3.BitVec("o", 64)
        X, p = self.X[0], self.p[0]
        R = X.N - p
        self.n = R
        st.assume(ULT(sz, 1 << 33))
        st.assume(ULE(o, sz))
        if self.bounded:
            m = SEXT(self.maxarg(eng, st), 32, 64)
            if case != "separate":
                st.assume(SLE(0, self.max, 32))
                M = z3.BitVec("M", 64)
                st.assume(M == m)
                m = M
            self.Wk.bounds.append(m)
            m = ITE(SLT(m, 0), B(0), m)
            self.n = ITE(ULE(R, m), R, m)
            if case != "separate":
                n = z3.BitVec("n", 64)
                st.assume(AND(ULE(n, R), ULE(n, M), OR(n == R, n == M)))
                self.n = n
                self.Wk.bounds.append(n)
        # bytes of the source that may be read
        ext = ITE(ULE(R + 1, m), R + 1, m) if self.bounded else R + 1
        if self.bounded and case != "separate":
            ext = z3.BitVec("ext", 64)
            st.assume(AND(ULE(ext, R + 1), ULE(ext, M), OR(ext == R + 1, ext == M)))
        if case == "separate":
            if self.bounded:
                st.blocks[self.tb[0]].limit = p + ext
            ob = st.new(sz, "dest", "elems")
            ob.bytes = Var("out", 8)
        else:
            # the part of the block below both pointers is left out: it must not be touched
            if "source" in case:
                st.assume(p == 0)
                p = B(0)
            else:
                st.assume(o == 0)
                o = B(0)
            self.p[0] = p
            del st.blocks[self.tb[0]]
            ob = st.new(sz, "block", "elems")
            g = Var("out", 8)
            ob.bytes = Lam(lambda q: ITE(ULE(SUB(q, p), R), X.t(q), g.rd(q), 8), 8)
            st.assume(AND(ULE(p, sz), ULE(ext, SUB(sz, p))))
            st.assume(ULE(p + ext, o) if "source" in case else ULE(o, p))
            self.Wk.base = {ob.id: [p, o]}
            a = [Ptr(ob.id, p)]
            eng.spec.restrict = False
        st.assume(ULT(self.n, SUB(sz, o)))
        self.ob, self.o = ob.id, o
        a.append(Ptr(ob.id, o))
        if self.bounded:
            a.append(self.max)
        return a

    def frame(self, case):
        return {self.ob: "*"}

    def post(self, eng, case, st0, st, kind, v, args):
        if not self.ret(eng, st, kind, v, T32(self.n), what="post: number of bytes copied"):
            return
        q = fresh("q", 64)
        a, b = st0.blocks[self.ob].bytes, st.blocks[self.ob].bytes
        k = q - self.o
        eng.oblige(st, IMP(ULT(k, self.n), EQ(b.rd(q), self.ch(0, k), 8)), "post: bytes copied")
        eng.oblige(st, IMP(EQ(k, self.n), EQ(b.rd(q), 0, 8)), "post: terminator")
        eng.oblige(st, IMP(NOT(ULE(k, self.n)), EQ(b.rd(q), a.rd(q), 8)), "post: no other byte written")

    def call(self, eng, st, args, pretty):
        s, d = args[0], args[1]
        m = SEXT(args[2], 32, 64) if self.bounded else None
        if m is not None:
            eng.oblige(st, NOT(EQ(args[2], 1 << 31, 32)), "pre of CopyText: count")
            m = ITE(SLT(m, 0), B(0), m)
        n = text_length(eng, st, s, m, "CopyText")
        if n is None or not isinstance(d, Ptr) or not isinstance(d.blk, int) or d.blk == 0:
            return NotImplemented
        sb = st.blocks[s.blk]
        if s.blk == d.blk:
            ext = ADD(n, 1) if m is None else ITE(ULT(n, m), ADD(n, 1), n)
            if m is not None:
                eng.oblige(st, SLE(0, args[2], 32), "pre of CopyText: count within one block")
            eng.oblige(st, OR(ULE(ADD(s.off, ext), d.off), ULE(d.off, s.off)), "pre of CopyText: the destination does not overlap the rest of the source")
        sf = self.reader(eng, st, sb)
        so = s.off
        if not write_text(eng, st, d, n, lambda k: sf(ADD(so, k)), "CopyText"):
            return []
        return [(st, "ret", T32(bv(n, 64)))]

    @staticmethod
    def reader(eng, st, b):
        if b.id in eng.textblocks:
            return eng.textblocks[b.id]
        f = st.w(b.id).getbytes() if b.bytes is None else b.bytes
        return f.rd


class CopyTextMax(CopyText):
    names = ("Terathon::Text::CopyText(char const*, char*, int)",)
    bounded = True


# ------------------------------------------------------------- UTF-8

class ReadUnicodeChar(TextBase):
    names = ("Terathon::Text::ReadUnicodeChar(char const*, unsigned int*)",)

    def setup(self, eng, st, case):
        a = self.texts(eng, st)
        c = st.new(4, "code")
        c.cells[0] = (4, z3.BitVec("code0", 32))
        self.c = c.id
        return a + [Ptr(c.id, 0)]

    def frame(self, case):
        return {self.c: (0,)}

    def post(self, eng, case, st0, st, kind, v, args):
        X, p = self.X[0], self.p[0]
        u = X.U8(p)
        code = st.blocks[self.c].cells[0][1]
        if self.ret(eng, st, kind, v, T32(z3.If(u == 0, B(1), u)), what="post: byte count of the character (1 if ill-formed)"):
            eng.oblige(st, EQ(code, T32(z3.If(u == 0, B(0xFFFD), X.CP(p))), 32), "post: code point (U+FFFD if ill-formed)")


class GetUnicodeCharByteCount(Contract):
    names = ("Terathon::Text::GetUnicodeCharByteCount(unsigned int)",)

    def setup(self, eng, st, case):
        self.code = z3.BitVec("code", 32)
        return [self.code]

    def n(self):
        c = z3.ZeroExt(32, self.code)
        return z3.If(z3.ULE(c, 0x10FFFF), utf8len(c), B(0))

    def frame(self, case):
        return {}

    def post(self, eng, case, st0, st, kind, v, args):
        eng.oblige(st, kind == "ret" and EQ(v, T32(self.n()), 32), "post: length of the UTF-8 sequence")

    def call(self, eng, st, args, pretty):
        return NotImplemented


class WriteUnicodeChar(GetUnicodeCharByteCount):
    names = ("Terathon::Text::WriteUnicodeChar(char*, unsigned int)",)

    def setup(self, eng, st, case):
        self.code = z3.BitVec("code", 32)
        sz, o = z3.BitVec("osz", 64), z3.BitVec("o", 64)
        ob = st.new(sz, "dest", "elems")
        ob.bytes = Var("out", 8)
        st.assume(ULT(sz, 1 << 33))
        st.assume(ULE(o, sz))
        st.assume(ULE(self.n(), SUB(sz, o)))
        self.ob, self.o = ob.id, o
        return [Ptr(ob.id, o), self.code]

    def frame(self, case):
        return {self.ob: "*"}

    def post(self, eng, case, st0, st, kind, v, args):
        n = self.n()
        eng.oblige(st, kind == "ret" and EQ(v, T32(n), 32), "post: length of the UTF-8 sequence")
        q = fresh("q", 64)
        k = q - self.o
        a, b = st0.blocks[self.ob].bytes, st.blocks[self.ob].bytes
        eng.oblige(st, EQ(b.rd(q), ITE(ULT(k, n), utf8byte(z3.ZeroExt(32, self.code), k), a.rd(q), 8), 8), "post: exactly the bytes of the sequence are written")
        # decode inverts encode: the bytes at o form a well-formed sequence denoting the code
        c = z3.ZeroExt(32, self.code)
        X = Text(eng.spec, "w", 1 << 40)
        X.lemma_on = False
        st.assume(ULE(self.o + 4, X.N))
        for i in range(4):
            st.assume(IMP(ULT(i, n), X.t(self.o + i) == bv(b.rd(self.o + i), 8)))
        scalar = AND(ULE(c, 0x10FFFF), c != 0)
        eng.oblige(st, IMP(scalar, AND(X.U8(self.o) == n, X.CP(self.o) == c)), "post: the written bytes are well-formed and decode to the code point")


class GetUnicodeCharCount(TextBase):
    """of well-formed text: the number of characters"""
    names = ("Terathon::Text::GetUnicodeCharCount(char const*)",)
    bounded = False

    def setup(self, eng, st, case):
        a = self.texts(eng, st)
        X, p = self.X[0], self.p[0]
        R = X.N - p
        WF = z3.Function("WF", BV64, z3.BoolSort())
        end = lambda i: self.ch(0, i) == 0
        u = lambda i: X.U8(p + i)
        ok = lambda i: ULE(i, R)
        # from here on the text is a sequence of well-formed characters
        eng.spec.define(WF, lambda i: [IMP(AND(ok(i), WF(i)), OR(end(i), AND(u(i) != 0, ULE(u(i), R - i), WF(i + u(i)))))])
        self.bnd = R
        if self.bounded:
            m = self.maxarg(eng, st)
            self.m = SEXT(m, 32, 64)
            st.assume(ULE(self.m, R))
            e2 = end
            end = lambda i: OR(e2(i), SLE(self.m, i))
            a.append(m)
        self.F = self.Wk.count(st, "UC", end, lambda i: B(1), ok, lambda i: i + u(i))
        st.assume(WF(B(0)))
        gen = self.Wk.gen

        def g(loop, flags):
            return [("WF(%s)" % nm, lambda V, f=f: WF(f(V))) for nm, f in self.Wk.indices(loop)]
        eng.candgen.append(g)
        return a

    def post(self, eng, case, st0, st, kind, v, args):
        self.ret(eng, st, kind, v, T32(self.F(0)), what="post: number of characters")


class GetUnicodeCharCountMax(GetUnicodeCharCount):
    names = ("Terathon::Text::GetUnicodeCharCount(char const*, int)",)
    bounded = True


class GetNextUnicodeCharByteCount(TextBase):
    names = ("Terathon::Text::GetNextUnicodeCharByteCount(char const*, int)",)

    def setup(self, eng, st, case):
        a = self.texts(eng, st)
        self.m = z3.BitVec("max", 32)
        return a + [self.m]

    def post(self, eng, case, st0, st, kind, v, args):
        u = T32(self.X[0].U8(self.p[0]))
        self.ret(eng, st, kind, v, z3.If(self.m < u, self.m, u), guard=u != 0, what="post: length of the character, at most max")


class IntegerToString(Contract):
    names = ("Terathon::Text::IntegerToString(int, char*, int)",)
    w, signed = 32, True
    digits = 10

    def setup(self, eng, st, case):
        w = self.w
        self.eng = eng
        self.num = num = z3.BitVec("num", w)
        top = mask(w)
        self.digits = type(self).digits
        if case == "below 2^32":
            top = mask(32)
            self.digits = 10
            st.assume(ULE(num, top))
        self.max = z3.BitVec("max", 32)
        self.neg = AND(self.signed, SLT(num, 0, w))
        self.m = m = bv(ITE(self.neg, SUB(0, num, w), num, w), w)
        # Q(k) = floor(m / 10^k); digit k is Q(k) mod 10; n = number of digits
        Q = z3.Function("Q10", BV64, z3.BitVecSort(w))
        tbl = bv(0, w)
        for k in range(self.digits - 1, -1, -1):
            tbl = (lambda k, t: lambda i: z3.If(i == k, z3.BitVecVal(top // 10 ** k, w), t(i) if callable(t) else t))(k, tbl)
        ax = lambda k: [IMP(ULE(k, self.digits), Q(k) == z3.If(k == 0, m, udivc(eng.spec, Q(k - 1), 10, w)))]
        eng.spec.define(Q, ax)
        eng.spec.lem["Q10"] = lambda k: []
        self.Q = lambda k: Q(bv(k, 64))
        ok = True
        t = time.time()
        for k in range(1, self.digits + 1):
            s = z3.Solver()
            s.set("timeout", 30000)
            x = z3.BitVec("x", w)
            q = z3.BitVec("q", w)
            s.add(z3.ULE(x, top // 10 ** (k - 1)), z3.ULE(q, top // 10), z3.ULE(10 * q, x), z3.ULT(x - 10 * q, 10), z3.Not(z3.ULE(q, top // 10 ** k)))
            ok = ok and str(s.check()) == "unsat"
        eng.smt.nq += self.digits
        eng.smt.time += time.time() - t
        eng.obs.append(Oblig("lemma Q10 (induction): m / 10^k has at most %d digits" % self.digits, "ok" if ok else "unknown", "", time.time() - t))
        if ok:
            eng.spec.lem["Q10"] = lambda k: [IMP(ULE(k, self.digits), z3.ULE(Q(k), tbl(k)))]
            eng.spec.define(Q, lambda k: ax(k) + [IMP(ULE(k, self.digits), z3.ULE(Q(k), tbl(k)))])
        W = self.Wk = Walk(eng)
        W.base = {}
        D = self.digits
        F = W.first(st, "ND", lambda i: AND(i != 0, Q(i) == 0), lambda i: ULE(i, D), B(D))
        self.n = F(0)
        W.bounds.append(B(D))
        n = self.n
        st.assume(F(0) == F(1))
        total = n + ZEXT(ITE(self.neg, 1, 0, 1) if isc(self.neg) else z3.If(self.neg, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 1, 64) if not isc(self.neg) else n
        M = SEXT(self.max, 32, 64)
        M = ITE(SLT(M, 0), B(0), M)
        self.total = total
        self.len = ITE(ULE(total, M), total, M)
        sz, o = z3.BitVec("osz", 64), z3.BitVec("o", 64)
        ob = st.new(sz, "dest", "elems")
        ob.bytes = Var("out", 8)
        st.assume(ULT(sz, 1 << 33))
        st.assume(ULE(o, sz))
        st.assume(ULT(self.len, SUB(sz, o)))
        self.ob, self.o = ob.id, o

        def gen(loop, flags):
            out = W.gen(loop, flags)
            for nm, f in W.indices(loop):
                for s in loop.slots.values():
                    if s.kind == "int" and s.w == w and not undefined(s.v0):
                        out.append(("%s == Q(%s)" % (s.name, nm), lambda V, f=f, s=s: EQ(V.raw(s.key), Q(bv(f(V), 64)), w)))
                out.append(("ND(%s + 1) const" % nm, lambda V, f=f: F(bv(f(V), 64) + 1) == F(0)))
                out.append(("Q(%s) != 0 or start" % nm, lambda V, f=f: OR(EQ(f(V), 0), NOT(EQ(Q(bv(f(V), 64)), 0, w)))))
            return out
        eng.candgen.append(gen)

        def form(loop, key, f0):
            if key[0] != "bytes" or key[1] == self.ob:
                return []
            r = []
            for nm, f in W.indices(loop):
                r.append(("digits", lambda V, f=f: Lam(lambda k: ITE(ULT(k, f(V)), self.dig(k), f0.rd(k), 8), 8)))
            return r
        eng.closedforms.append(form)
        eng.measure_required = True
        a = [num, Ptr(ob.id, o), self.max]
        return a

    def loop_measure(self, loop):
        for nm, f in self.Wk.indices(loop):
            for b in self.Wk.bounds:
                yield lambda V, U, f=f, b=b: AND(ULT(f(V), f(U)), ULE(f(U), b))

    def dig(self, k):
        q = self.Q(k)
        return z3.Extract(7, 0, q - 10 * udivc(self.eng.spec, q, 10, self.w)) + 48

    def frame(self, case):
        return {self.ob: "*"}

    def call(self, eng, st, args, pretty):
        x, d, mx = args
        if not isinstance(d, Ptr) or not isinstance(d.blk, int) or d.blk == 0:
            return NotImplemented
        n, dig = self.decimal(eng, x)
        mx = SEXT(mx, 32, 64)
        mx = ITE(SLT(mx, 0), B(0), mx)
        if not eng.valid(st.pc, ULE(n, mx)):
            n = ITE(ULE(n, mx), n, mx)
        if not write_text(eng, st, d, n, dig, "IntegerToString"):
            return []
        return [(st, "ret", T32(bv(n, 64)))]

    def decimal(self, eng, x):
        """the decimal text of x as proved below: length (1 .. digits + sign), byte k"""
        w = self.w
        tag = "%s%d" % ("S" if self.signed else "U", w)
        L = z3.Function("DECL" + tag, z3.BitVecSort(w), BV64)
        D = z3.Function("DECB" + tag, z3.BitVecSort(w), BV64, z3.BitVecSort(8))
        if ("DECL" + tag) not in eng.spec.lem:
            top = self.digits + (1 if self.signed else 0)
            eng.spec.define(L, lambda v: [ULE(1, L(v)), ULE(L(v), top)] + ([IMP(ULT(v, 1 << 32), ULE(L(v), 10))] if tag == "U64" else []))
            eng.spec.define(D, lambda v, k: [IMP(ULT(k, L(v)), D(v, k) != 0)])
            eng.spec.lem["DECL" + tag] = lambda v: []
            eng.spec.lem["DECB" + tag] = lambda v, k: []
        x = bv(x, w)
        return L(x), lambda k: D(x, bv(k, 64))

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        eng.oblige(st, EQ(v, T32(self.len), 32), "post: number of characters written")
        eng.oblige(st, AND(ULE(1, self.total), ULE(self.total, self.digits + (1 if self.signed else 0))), "post: length of the decimal text")
        q = fresh("q", 64)
        k = q - self.o
        a, b = st0.blocks[self.ob].bytes, st.blocks[self.ob].bytes
        ch = ITE(AND(self.neg, k == 0), 45, self.dig(self.total - 1 - k), 8)
        eng.oblige(st, IMP(ULT(k, self.len), EQ(b.rd(q), ch, 8)), "post: sign and decimal digits, most significant first")
        eng.oblige(st, IMP(EQ(k, self.len), EQ(b.rd(q), 0, 8)), "post: terminator")
        eng.oblige(st, IMP(NOT(ULE(k, self.len)), EQ(b.rd(q), a.rd(q), 8)), "post: no other byte written")


class Integer64ToString(IntegerToString):
    names = ("Terathon::Text::Integer64ToString(long, char*, int)", "Terathon::Text::Integer64ToString(long long, char*, int)")
    w, digits = 64, 20


class UnsignedInteger64ToString(IntegerToString):
    names = ("Terathon::Text::UnsignedInteger64ToString(unsigned long, char*, int)", "Terathon::Text::UnsignedInteger64ToString(unsigned long long, char*, int)")
    w, digits, signed = 64, 20, False

    def cases(self):
        return ["any value", "below 2^32"]


ALL = [IntegerToString, Integer64ToString, UnsignedInteger64ToString, GetTextLength, FindChar, FindCharMax, CountChars, Hash, CompareText, CompareTextMax, CompareTextCaseless, CompareTextCaselessMax, CompareTextLessThan, CompareTextLessThanMax,
       CompareTextLessThanCaseless, CompareTextLessThanCaselessMax, CompareTextLessEqual, CompareTextLessEqualMax, CompareTextLessEqualCaseless, CompareTextLessEqualCaselessMax,
       CopyText, CopyTextMax, ReadUnicodeChar, GetUnicodeCharByteCount, WriteUnicodeChar, GetUnicodeCharCount, GetUnicodeCharCountMax, GetNextUnicodeCharByteCount]
