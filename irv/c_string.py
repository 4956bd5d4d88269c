"""Contracts of the growable string (C07): class String<0>.

A string object is 32 bytes: logicalSize (+0), physicalSize (+4), stringPointer
(+8) and the inline buffer (+16).  Invariant: 1 <= logicalSize <= physicalSize,
the pointer refers to the inline buffer (physicalSize 16) or to a heap block of
at least physicalSize bytes owned by the string, the first logicalSize - 1
bytes are not NUL and the next one is."""
import z3
from engine import *
from jspec import *
from base import *
from c_parse import T32
from c_text import Walk, hint, lower, upper, IntegerToString, Integer64ToString, UnsignedInteger64ToString
from ir import Unsupported, INT, PTR

CAP = 1 << 29


def small(name, bits=29, w=64):
    """a variable below 2^bits"""
    return z3.ZeroExt(w - bits, z3.BitVec(name, bits))

NS = "Terathon::String<0>::"


class Seg:
    """n bytes, byte k is rd(k)"""

    def __init__(self, n, rd):
        self.n, self.rd = bv(n, 64), rd
        self.parts = [(bv(0, 64), self)]      # (start, segment)


def cat(*segs):
    n = bv(0, 64)
    out = None
    for s in segs:
        if out is None:
            out = s
            continue
        a, b = out, s
        out = Seg(simp(a.n + b.n), lambda k, a=a, b=b: ITE(ULT(k, a.n), a.rd(k), b.rd(SUB(k, a.n)), 8))
        out.parts = a.parts + [(a.n, b)]
    return out or Seg(0, lambda k: 0)


class StrBase(Contract):
    """method of String<0>; kind of self: 'new' (constructor), 'inline', 'heap'"""
    ctor = False
    exc_ok = True

    def text(self, eng, st, tag, N=None):
        from jspec import Text
        X = Text(eng.spec, tag, CAP)
        X.lemma_on = False
        X.N = small("N" + tag)
        X.base = []
        for c in X.base:
            st.assume(c)
        return X

    def mkstring(self, eng, st, name, kind):
        """a valid string object"""
        X = self.text(eng, st, name)
        b = st.new(32, name)
        N = X.N
        g = Var(name + ".g", 8)
        b.cells[0] = (4, T32(N + 1))
        b.meta["bytes_from"] = 16
        if kind == "inline":
            st.assume(ULE(N, 15))
            b.cells[4] = (4, 16)
            b.cells[8] = (8, Ptr(b.id, 16))
            b.bytes = Lam(lambda q: ITE(ULE(SUB(q, 16), N), X.t(SUB(q, 16)), g.rd(q), 8), 8)
            b.meta["hints"] = [(16, N)]
            return b.id, X, b.id
        h = st.new(small(name + ".cap", 31), name + ".heap", "elems")
        h.meta["heap"] = "new[]"
        phys = small(name + ".phys", 31, 32)
        st.assume(AND(SLT(T32(N), phys, 32), SLE(phys, 1 << 30, 32), ULE(SEXT(phys, 32, 64), h.size), ULE(h.size, 1 << 31)))
        h.bytes = Lam(lambda q: ITE(ULE(q, N), X.t(q), g.rd(q), 8), 8)
        h.meta["hints"] = [(0, N)]
        b.cells[4] = (4, phys)
        b.cells[8] = (8, Ptr(h.id, 0))
        return b.id, X, h.id

    def selfobj(self, eng, st, kind):
        if kind == "new":
            b = st.new(32, "self")
            b.meta["bytes_from"] = 16
            self.S, self.X, self.H = b.id, None, None
        else:
            self.S, self.X, self.H = self.mkstring(eng, st, "self", kind)
        return Ptr(self.S, 0)

    @property
    def old(self):
        return Seg(self.X.N, lambda k: self.X.t(k))

    def ctext(self, eng, st, tag="src", limit=None):
        """const char *: a separate NUL-terminated text"""
        X = self.text(eng, st, tag)
        b = st.new(X.N + 1, tag, "text", ro=True)
        b.limit = X.N + 1 if limit is None else limit
        eng.textblocks[b.id] = lambda off: X.t(off)
        eng.texts[b.id] = X
        p = small(tag + ".p")
        st.assume(ULE(p, X.N))
        return Ptr(b.id, p), Seg(X.N - p, lambda k: X.t(p + bv(k, 64)))

    def tail(self, eng, st, tag="tail"):
        """const char *: a place inside this string's own storage"""
        t = small(tag + ".t")
        st.assume(ULE(t, self.X.N))
        p = st.blocks[self.S].cells[8][1]
        return Ptr(p.blk, ADD(p.off, t)), Seg(self.X.N - t, lambda k: self.X.t(t + bv(k, 64)))

    def source(self, eng, st, how, limit=None):
        return self.tail(eng, st) if how == "own tail" else self.ctext(eng, st, "src")

    def dec(self, eng, cls, x):
        c = cls(self.W)
        n, d = c.decimal(eng, x)
        return Seg(n, d)

    # ---- outcome
    def is_string(self, eng, st, S, want, what):
        b = st.blocks[S]
        try:
            size, phys, p = b.cells[0][1], b.cells[4][1], b.cells[8][1]
        except KeyError:
            eng.oblige(st, False, "post: %s is initialised" % what)
            return None
        if not isinstance(p, Ptr) or not isinstance(p.blk, int):
            raise Unsupported("string pointer")
        size64, phys64 = SEXT(size, 32, 64), SEXT(phys, 32, 64)
        sb = st.blocks.get(p.blk)
        if sb is None:
            eng.oblige(st, False, "post: %s points to its storage" % what)
            return None
        eng.oblige(st, sb.alive, "post: storage of %s is alive" % what)
        if p.blk == S:
            eng.oblige(st, EQ(p.off, 16), "post: %s uses its inline buffer from the start" % what)
            eng.oblige(st, EQ(phys, 16, 32), "post: inline capacity of %s" % what)
        else:
            eng.oblige(st, AND(EQ(p.off, 0), sb.meta.get("heap") == "new[]"), "post: %s owns its heap block" % what)
            eng.oblige(st, AND(SLE(0, phys, 32), ULE(phys64, sb.size)), "post: heap capacity of %s" % what)
        eng.oblige(st, AND(SLT(0, size, 32), SLE(size, phys, 32)), "post: length of %s within its capacity" % what)
        eng.oblige(st, EQ(size64, ADD(want.n, 1)), "post: length of %s" % what)
        q = fresh("q", 64)
        rd = lambda k: eng.rdbyte(st, st.blocks[p.blk], ADD(p.off, k))
        for start, part in want.parts:
            eng.oblige(st, IMP(ULT(q, part.n), EQ(rd(ADD(start, q)), part.rd(q), 8)), "post: bytes of %s" % what)
            eng.oblige(st, IMP(ULT(q, part.n), NOT(EQ(part.rd(q), 0, 8))), "post: no NUL inside %s" % what)
        eng.oblige(st, EQ(rd(want.n), 0, 8), "post: %s is NUL-terminated" % what)
        return p.blk

    def owned(self, eng, st0, st, strings):
        """every heap block is owned by exactly one of the strings, or released"""
        owner = {}
        for S in strings:
            c = st.blocks[S].cells.get(8)
            if c and isinstance(c[1], Ptr) and isinstance(c[1].blk, int) and c[1].blk != S:
                eng.oblige(st, c[1].blk not in owner, "own: storage belongs to one string only")
                owner[c[1].blk] = S
        for bid, b in st.blocks.items():
            if "heap" in b.meta:
                eng.oblige(st, b.alive == (bid in owner), "own: %s is released exactly when no string owns it" % b.name)

    def want(self):
        raise NotImplementedError

    others = ()     # (block, X): argument strings that keep their value

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, self.exc_ok, "exc: no exception")
            if self.ctor:
                self.owned(eng, st0, st, [o for o, _ in self.others])
            else:
                self.is_string(eng, st, self.S, self.old, "the string after an exception")
                self.owned(eng, st0, st, [self.S] + [o for o, _ in self.others])
        else:
            self.is_string(eng, st, self.S, self.want(), "the string")
            self.owned(eng, st0, st, [self.S] + [o for o, _ in self.others])
            if isinstance(v, Ptr):
                eng.oblige(st, ptreq(v, Ptr(self.S, 0)), "post: a reference to the string is returned")
        for o, X in self.others:
            self.is_string(eng, st, o, Seg(X.N, X.t), "the argument")

    def call(self, eng, st, args, pretty):
        return NotImplemented

    def config(self, eng, case):
        eng.measure_required = True

    def content(self, eng, st, args):
        """what the string holds after the call (Seg), for callers"""
        return None

    def acall(self, eng, st, args):
        """callers that treat strings abstractly (eng.abstract_strings): same effect as proved for the body"""
        if not getattr(eng, "abstract_strings", False):
            return NotImplemented
        if not self.ctor and astr(eng, st, args[0]) is None:
            return NotImplemented
        w = self.content(eng, st, args)
        if w is None:
            return NotImplemented
        res = []
        if self.exc_ok and eng.opts["alloc_fail"]:
            s2 = st.copy()
            s2.ghost["oom"] = True
            s2.trace.append("alloc-fails")
            res.append((s2, "exc", None))
        if not self.ctor:
            astr_kill(eng, st, args[0])
        eng.oblige(st, ULE(w.n, CAP), "pre of a string operation: length below 2^29")
        astr_set(eng, st, args[0], w)
        res.append((st, "ret", Ptr(args[0].blk, args[0].off)))
        return res


# ---- abstract strings, as callers see them: the storage is a block of its own
def astr(eng, st, p):
    """(Seg, storage block) of the abstract string at p"""
    if not (isinstance(p, Ptr) and isinstance(p.blk, int) and p.blk in st.blocks and isc(p.off)):
        return None
    b = st.blocks[p.blk]
    c, s = b.cells.get(p.off + 8), b.cells.get(p.off)
    if c is None or s is None or not isinstance(c[1], Ptr) or not isinstance(c[1].blk, int) or c[1].blk not in st.blocks:
        return None
    sb = st.blocks[c[1].blk]
    if not sb.meta.get("strstore"):
        return None
    n = SUB(SEXT(s[1], 32, 64), 1)
    f = sb.getbytes()
    return Seg(n, lambda k: f.rd(k)), sb


def astr_set(eng, st, p, seg):
    sb = st.new(fresh("cap", 64), "string%d" % st.next[0], "elems")
    sb.meta["heap"] = "string"
    sb.meta["strstore"] = True
    st.assume(AND(ULT(seg.n, sb.size), ULE(sb.size, 1 << 31)))
    g = Var("sg", 8)
    sb.bytes = Lam(lambda q: ITE(ULT(q, seg.n), seg.rd(q), ITE(EQ(q, seg.n), 0, g.rd(q), 8), 8), 8)
    sb.meta["hints"] = [(0, seg.n)]
    b = st.w(p.blk)
    size = T32(bv(ADD(seg.n, 1), 64))
    b.cells[p.off] = (4, size)
    b.cells[p.off + 4] = (4, fresh("phys", 32))
    b.cells[p.off + 8] = (8, Ptr(sb.id, 0))
    b.meta["strings"] = b.meta.get("strings", ()) + ((p.off,) if p.off not in b.meta.get("strings", ()) else ())
    return sb


def astr_kill(eng, st, p):
    r = astr(eng, st, p)
    if r is None:
        raise Unsupported("abstract string expected")
    eng.oblige(st, r[1].alive, "own: string storage is released only once")
    st.w(r[1].id).alive = False


def text_seg(eng, st, p):
    """the NUL-terminated text p points to"""
    from c_text import text_length
    if not isinstance(p, Ptr) or not isinstance(p.blk, int) or p.blk not in st.blocks:
        return None
    n = text_length(eng, st, p, None, "string operation")
    if n is None:
        return None
    b = st.blocks[p.blk]
    return Seg(n, lambda k: eng.rdbyte(st, b, ADD(p.off, k)))


class Ctor(StrBase):
    ctor = True

    def setup(self, eng, st, case):
        return [self.selfobj(eng, st, "new")] + self.more(eng, st, case)

    def more(self, eng, st, case):
        return []


class New(Ctor):
    names = (NS + "String()",)
    exc_ok = False

    def want(self):
        return cat()

    def call(self, eng, st, args, pretty):
        return self.acall(eng, st, args)

    def content(self, eng, st, args):
        return cat()


class NewCopy(Ctor):
    names = (NS + "String(Terathon::String<0> const&)",)

    def cases(self):
        return ["inline", "heap"]

    def more(self, eng, st, case):
        S, X, H = self.mkstring(eng, st, "other", case)
        self.w = Seg(X.N, X.t)
        self.others = [(S, X)]
        return [Ptr(S, 0)]

    def want(self):
        return self.w

    def call(self, eng, st, args, pretty):
        return self.acall(eng, st, args)

    def content(self, eng, st, args):
        r = astr(eng, st, args[1])
        return r and r[0]


class NewMove(NewCopy):
    names = (NS + "String(Terathon::String<0>&&)",)
    exc_ok = False

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        o, X = self.others[0]
        self.is_string(eng, st, self.S, self.w, "the string")
        moved_from(self, eng, st, o, X)
        self.owned(eng, st0, st, [self.S, o])

    def call(self, eng, st, args, pretty):
        return NotImplemented


def moved_from(c, eng, st, o, X):
    """the source of a move is a valid string (empty or as before)"""
    sz = st.blocks[o].cells[0][1]
    if isc(sz) and sz == 1:
        c.is_string(eng, st, o, cat(), "the moved-from string")
    else:
        c.is_string(eng, st, o, Seg(X.N, X.t), "the moved-from string")


class NewText(Ctor):
    names = (NS + "String(char const*)",)

    def more(self, eng, st, case):
        p, self.w = self.ctext(eng, st)
        return [p]

    def want(self):
        return self.w

    def call(self, eng, st, args, pretty):
        return self.acall(eng, st, args)

    def content(self, eng, st, args):
        return text_seg(eng, st, args[1])


class Counted:
    """(s, length): the bytes up to a NUL, at most length; no byte beyond is read"""

    def counted(self, eng, st, case="separate"):
        n = small("length", 30, 32)
        st.assume(AND(SLE(0, n, 32), SLE(n, CAP, 32)))
        m = SEXT(n, 32, 64)
        if case == "own tail":
            p, s = self.tail(eng, st)
        else:
            p, s = self.ctext(eng, st)
            b = st.w(p.blk)
            e = small("readable", 30)
            st.assume(AND(ULE(e, s.n + 1), ULE(e, m), OR(e == s.n + 1, e == m)))
            b.limit = p.off + e
        k = small("count")
        st.assume(AND(ULE(k, s.n), ULE(k, m), OR(k == s.n, k == m)))
        sb = st.w(p.blk)
        sb.meta["hints"] = [(p.off, k)] + sb.meta.get("hints", [])
        self.Wk = Wk = Walk(eng)
        Wk.base = {}
        Wk.bounds += [k, m]
        Wk.first(st, "FZ", lambda i: OR(i == m, s.rd(i) == 0), lambda i: ULE(i, k), k)
        eng.candgen.append(Wk.gen)
        return [p, n], Seg(k, s.rd)

    def loop_measure(self, loop):
        for nm, f in self.Wk.indices(loop):
            for b in self.Wk.bounds:
                yield lambda V, U, f=f, b=b: AND(ULT(f(V), f(U)), ULE(f(U), b))


class NewCounted(Counted, Ctor):
    names = (NS + "String(char const*, int)",)

    def more(self, eng, st, case):
        a, self.w = self.counted(eng, st)
        return a

    def want(self):
        return self.w


def mkint(name, ctype, cls, w, base):
    """the same operation for int, unsigned, long long"""
    return type(name, (base,), dict(names=(base.pat % ctype,), icls=cls, iw=w))


class NewIntBase(Ctor):
    pat = NS + "String(%s)"

    def more(self, eng, st, case):
        x = z3.BitVec("x", self.iw)
        self.w = self.dec(eng, self.icls, ZEXT(x, self.iw, self.icls.w))
        return [x]

    def want(self):
        return self.w


class NewIntTextBase(Ctor):
    pat = NS + "String(%s, char const*)"

    def more(self, eng, st, case):
        x = z3.BitVec("x", self.iw)
        p, s = self.ctext(eng, st)
        self.w = cat(s, self.dec(eng, self.icls, ZEXT(x, self.iw, self.icls.w)))
        return [x, p]

    def want(self):
        return self.w


class NewTwo(Ctor):
    names = (NS + "String(char const*, char const*)",)

    def more(self, eng, st, case):
        p, a = self.ctext(eng, st, "s1")
        q, b = self.ctext(eng, st, "s2")
        self.w = cat(a, b)
        return [p, q]

    def want(self):
        return self.w


class Dtor(StrBase):
    names = (NS + "~String()",)
    exc_ok = False

    def cases(self):
        return ["inline", "heap"]

    def setup(self, eng, st, case):
        return [self.selfobj(eng, st, case)]

    def post(self, eng, case, st0, st, kind, v, args):
        eng.oblige(st, kind == "ret", "exc: no exception")
        self.owned(eng, st0, st, [])

    def call(self, eng, st, args, pretty):
        if astr(eng, st, args[0]) is None:
            return NotImplemented
        astr_kill(eng, st, args[0])
        return [(st, "ret", None)]


class Method(StrBase):
    def cases(self):
        return ["inline", "heap"]

    def setup(self, eng, st, case):
        self.case = case
        k, _, how = case.partition(", ")
        return [self.selfobj(eng, st, k)] + self.more(eng, st, how)

    def more(self, eng, st, how):
        return []


class Purge(Method):
    names = (NS + "PurgeString()",)
    exc_ok = False

    def want(self):
        return cat()


class Resize(Method):
    """helper: storage for size bytes; the contents are the caller's to fill"""
    names = (NS + "Resize(int)",)
    optional = True

    def more(self, eng, st, how):
        self.n = small("n", 31, 32)
        st.assume(AND(SLT(0, self.n, 32), SLE(self.n, 1 << 30, 32)))
        return [self.n]

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            return StrBase.post(self, eng, case, st0, st, kind, v, args)
        b = st.blocks[self.S]
        size, phys, p = b.cells[0][1], b.cells[4][1], b.cells[8][1]
        eng.oblige(st, EQ(size, self.n, 32), "post: requested size")
        if p.blk == self.S:
            eng.oblige(st, AND(EQ(p.off, 16), EQ(phys, 16, 32)), "post: inline storage")
        else:
            sb = st.blocks[p.blk]
            eng.oblige(st, AND(sb.alive, sb.meta.get("heap") == "new[]", EQ(p.off, 0), ULE(SEXT(phys, 32, 64), sb.size)), "post: heap storage")
        eng.oblige(st, SLE(self.n, phys, 32), "post: large enough")
        self.owned(eng, st0, st, [self.S])


class SetCounted(Counted, Method):
    names = (NS + "Set(char const*, int)",)

    def cases(self):
        return ["inline, separate", "heap, separate", "inline, own tail", "heap, own tail"]

    def more(self, eng, st, how):
        a, self.w = self.counted(eng, st, how)
        return a

    def want(self):
        return self.w


class AssignText(Method):
    names = (NS + "operator=(char const*)",)

    def cases(self):
        return ["inline, separate", "heap, separate", "inline, own tail", "heap, own tail"]

    def more(self, eng, st, how):
        p, self.w = self.source(eng, st, how)
        return [p]

    def want(self):
        return self.w

    def call(self, eng, st, args, pretty):
        return self.acall(eng, st, args)

    def content(self, eng, st, args):
        return text_seg(eng, st, args[1])


class WithOther(Method):
    def cases(self):
        return ["inline, self", "heap, self"] + ["%s, %s" % (a, b) for a in ("inline", "heap") for b in ("inline", "heap")]

    def more(self, eng, st, how):
        if how == "self":
            self.others = []
            self.w = self.old
            return [Ptr(self.S, 0)]
        S, X, H = self.mkstring(eng, st, "other", how)
        self.others = [(S, X)]
        self.w = Seg(X.N, X.t)
        return [Ptr(S, 0)]

    def want(self):
        return self.w

    def call(self, eng, st, args, pretty):
        return self.acall(eng, st, args)

    def content(self, eng, st, args):
        r = astr(eng, st, args[1])
        return r and r[0]


class AssignCopy(WithOther):
    names = (NS + "operator=(Terathon::String<0> const&)",)


class AssignMove(WithOther):
    names = (NS + "operator=(Terathon::String<0>&&)",)
    exc_ok = False

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        self.is_string(eng, st, self.S, self.w, "the string")
        for o, X in self.others:
            moved_from(self, eng, st, o, X)
        self.owned(eng, st0, st, [self.S] + [o for o, _ in self.others])
        eng.oblige(st, ptreq(v, Ptr(self.S, 0)), "post: a reference to the string is returned")

    def call(self, eng, st, args, pretty):
        return NotImplemented


class AssignIntBase(Method):
    pat = NS + "operator=(%s)"

    def more(self, eng, st, how):
        x = z3.BitVec("x", self.iw)
        self.w = self.dec(eng, self.icls, ZEXT(x, self.iw, self.icls.w))
        return [x]

    def want(self):
        return self.w


class AppendString(WithOther):
    names = (NS + "operator+=(Terathon::String<0> const&)",)

    def want(self):
        return cat(self.old, self.w)

    def call(self, eng, st, args, pretty):
        return NotImplemented


class AppendText(AssignText):
    names = (NS + "operator+=(char const*)",)

    def want(self):
        return cat(self.old, self.w)

    def call(self, eng, st, args, pretty):
        return NotImplemented


class AppendCounted(SetCounted):
    names = (NS + "AppendString(char const*, int)",)

    def want(self):
        return cat(self.old, self.w)


class AppendChar(Method):
    names = (NS + "operator+=(char)",)

    def more(self, eng, st, how):
        self.k = z3.BitVec("k", 8)
        st.assume(self.k != 0)
        return [self.k]

    def want(self):
        return cat(self.old, Seg(1, lambda i: self.k))


class AppendIntBase(Method):
    pat = NS + "operator+=(%s)"

    def more(self, eng, st, how):
        x = z3.BitVec("x", self.iw)
        self.w = self.dec(eng, self.icls, ZEXT(x, self.iw, self.icls.w))
        return [x]

    def want(self):
        return cat(self.old, self.w)


class SetLength(Method):
    """the bytes up to the new length are kept, those gained are the caller's to fill"""
    names = (NS + "SetStringLength(int)",)

    def more(self, eng, st, how):
        self.n = small("n", 31, 32)
        st.assume(AND(SLE(0, self.n, 32), SLE(self.n, CAP, 32)))
        return [self.n]

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            return StrBase.post(self, eng, case, st0, st, kind, v, args)
        b = st.blocks[self.S]
        size, phys, p = b.cells[0][1], b.cells[4][1], b.cells[8][1]
        n = SEXT(self.n, 32, 64)
        sb = st.blocks[p.blk]
        if p.blk == self.S:
            eng.oblige(st, AND(EQ(p.off, 16), EQ(phys, 16, 32)), "post: inline storage")
        else:
            eng.oblige(st, AND(sb.alive, sb.meta.get("heap") == "new[]", EQ(p.off, 0), ULE(SEXT(phys, 32, 64), sb.size)), "post: heap storage")
        eng.oblige(st, AND(EQ(SEXT(size, 32, 64), ADD(n, 1)), SLE(size, phys, 32)), "post: length")
        q = fresh("q", 64)
        rd = lambda k: eng.rdbyte(st, st.blocks[p.blk], ADD(p.off, k))
        eng.oblige(st, IMP(AND(ULT(q, n), ULT(q, self.X.N)), EQ(rd(q), self.X.t(q), 8)), "post: bytes kept")
        eng.oblige(st, EQ(rd(n), 0, 8), "post: terminator")
        self.owned(eng, st0, st, [self.S])
        eng.oblige(st, ptreq(v, Ptr(self.S, 0)), "post: a reference to the string is returned")

    def call(self, eng, st, args, pretty):
        return self.acall(eng, st, args)

    def content(self, eng, st, args):
        old, _ = astr(eng, st, args[0])
        n = SEXT(args[1], 32, 64)
        eng.oblige(st, SLE(0, args[1], 32), "pre of SetStringLength: length is not negative")
        g = Var("unset", 8)
        return Seg(n, lambda k: ITE(ULT(k, old.n), old.rd(k), g.rd(k), 8))


class Lower(Method):
    names = (NS + "ConvertToLowerCase()",)
    exc_ok = False
    f = staticmethod(lower)

    def config(self, eng, case):
        eng.measure_required = True
        self.Wk = Wk = Walk(eng)
        Wk.base = {self.H: 16 if self.H == self.S else 0}
        Wk.bounds.append(self.X.N)
        eng.candgen.append(Wk.gen)

        def form(loop, key, f0):
            if key[0] != "bytes" or key[1] != self.H:
                return []
            base = Wk.base[self.H]
            r = []
            for nm, f in Wk.indices(loop):
                r.append(("mapped", lambda V, f=f: Lam(lambda k: ITE(ULT(SUB(k, base), f(V)), self.f(f0.rd(k)), f0.rd(k), 8), 8)))
            return r
        eng.closedforms.append(form)

    def loop_measure(self, loop):
        for nm, f in self.Wk.indices(loop):
            for b in self.Wk.bounds:
                yield lambda V, U, f=f, b=b: AND(ULT(f(V), f(U)), ULE(f(U), b))

    def want(self):
        return Seg(self.X.N, lambda k: self.f(self.X.t(k)))


class Upper(Lower):
    names = (NS + "ConvertToUpperCase()",)
    f = staticmethod(upper)


class ReplaceChar(Lower):
    names = (NS + "ReplaceChar(char, char)",)

    def more(self, eng, st, how):
        self.x, self.y = z3.BitVec("x", 8), z3.BitVec("y", 8)
        st.assume(self.y != 0)
        self.f = lambda c: ITE(EQ(c, self.x, 8), self.y, c, 8)
        return [self.x, self.y]


for _b, _n in ((NewIntBase, "New"), (NewIntTextBase, "NewText"), (AssignIntBase, "Assign"), (AppendIntBase, "Append")):
    for _t, _c, _w, _s in (("int", IntegerToString, 32, "Int"), ("unsigned int", UnsignedInteger64ToString, 32, "UInt"), ("long long", Integer64ToString, 64, "Int64"),
                           ("unsigned long long", UnsignedInteger64ToString, 64, "UInt64")):
        if _s == "UInt64" and _n != "Append":
            continue
        _k = mkint(_n + _s, _t, _c, _w, _b)
        globals()[_k.__name__] = _k


# ------------------------------------------------------------- bounded strings

class Bounded(Contract):
    """String<len>: len + 1 bytes that hold a NUL-terminated text of at most len bytes; operations cut off what does not fit"""
    ctor = False
    op = ""
    how = ()
    lens = (7, 31)
    optional = False

    def __init__(self, W):
        self.W = W
        self.names = tuple("Terathon::String<%d>::%s" % (n, self.op.replace("@", "%d" % n)) for n in self.lens)
        self.title = "Terathon::String<len>::" + self.op.replace("@", "len")

    def cases(self):
        return ["len %d%s" % (n, ", " + h if h else "") for n in self.lens for h in (self.how or ("",))]

    def fn(self):
        return self.W.mod.find(self.names[0])

    def verify(self, mk, cases=None):
        c = (cases or self.cases())[0]
        self.n = int(c.split(",")[0].split()[1])
        f = self.W.mod.find("Terathon::String<%d>::%s" % (self.n, self.op.replace("@", "%d" % self.n)))
        self.fn = lambda: f
        return Contract.verify(self, mk, cases)

    text = StrBase.text
    ctext = StrBase.ctext
    dec = StrBase.dec
    old = StrBase.old

    def mk(self, eng, st, name):
        X = self.text(eng, st, name)
        b = st.new(self.n + 1, name, "elems")
        st.assume(ULE(X.N, self.n))
        g = Var(name + ".g", 8)
        b.bytes = Lam(lambda q: ITE(ULE(q, X.N), X.t(q), g.rd(q), 8), 8)
        b.meta["hints"] = [(0, X.N)]
        return b.id, X

    def setup(self, eng, st, case):
        self.n = int(case.split(",")[0].split()[1])
        how = case.partition(", ")[2]
        if self.ctor:
            b = st.new(self.n + 1, "self", "elems")
            b.bytes = Var("uninit", 8)
            self.S, self.X = b.id, None
        else:
            self.S, self.X = self.mk(eng, st, "self")
        eng.measure_required = True
        return [Ptr(self.S, 0)] + self.more(eng, st, how)

    def more(self, eng, st, how):
        return []

    def tail(self, eng, st):
        t = small("tail.t")
        st.assume(ULE(t, self.X.N))
        return Ptr(self.S, t), Seg(self.X.N - t, lambda k: self.X.t(t + bv(k, 64)))

    def src(self, eng, st, how):
        return self.tail(eng, st) if how == "own tail" else self.ctext(eng, st)

    def frame(self, case):
        return {self.S: "*"}

    def call(self, eng, st, args, pretty):
        return NotImplemented

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        w = self.want()
        n = ITE(ULE(w.n, self.n), w.n, self.n)
        q = fresh("q", 64)
        rd = lambda k: eng.rdbyte(st, st.blocks[self.S], k)
        eng.oblige(st, IMP(ULT(q, n), EQ(rd(q), w.rd(q), 8)), "post: bytes of the string, cut off at its capacity")
        eng.oblige(st, EQ(rd(n), 0, 8), "post: NUL-terminated")
        if isinstance(v, Ptr) and not self.ctor:
            eng.oblige(st, ptreq(v, Ptr(self.S, 0)), "post: a reference to the string is returned")

    def want(self):
        return self.w


class BNewText(Bounded):
    ctor, op = True, "String(char const*)"

    def more(self, eng, st, how):
        p, self.w = self.src(eng, st, how)
        return [p]


class BNewCopy(Bounded):
    ctor, op = True, "String(Terathon::String<@> const&)"

    def more(self, eng, st, how):
        if how == "self":
            self.w = self.old
            return [Ptr(self.S, 0)]
        b, X = self.mk(eng, st, "other")
        self.w = Seg(X.N, X.t)
        return [Ptr(b, 0)]


class BNewCounted(Counted, Bounded):
    ctor, op = True, "String(char const*, int)"

    def more(self, eng, st, how):
        a, self.w = self.counted(eng, st, how)
        return a


class BNewInt(Bounded):
    ctor, op, icls, iw = True, "String(int)", IntegerToString, 32

    def more(self, eng, st, how):
        x = z3.BitVec("x", self.iw)
        self.w = self.dec(eng, self.icls, ZEXT(x, self.iw, self.icls.w))
        return [x]


class BAssignText(BNewText):
    ctor, op, how = False, "operator=(char const*)", ("separate", "own tail")


class BAssignCopy(BNewCopy):
    ctor, op, how = False, "operator=(Terathon::String<@> const&)", ("other", "self")


class BSet(BNewCounted):
    ctor, op, how = False, "Set(char const*, int)", ("separate", "own tail")


class BAssignInt(BNewInt):
    ctor, op = False, "operator=(int)"


class BAppendText(BAssignText):
    op = "operator+=(char const*)"

    def want(self):
        return cat(self.old, self.w)


class BAppendCounted(BSet):
    op = "AppendString(char const*, int)"

    def want(self):
        return cat(self.old, self.w)


class BAppendInt(BAssignInt):
    op = "operator+=(int)"

    def want(self):
        return cat(self.old, self.w)


class BAppendChar(Bounded):
    op = "operator+=(char)"

    def more(self, eng, st, how):
        self.k = z3.BitVec("k", 8)
        st.assume(self.k != 0)
        return [self.k]

    def want(self):
        return cat(self.old, Seg(1, lambda i: self.k))


class BSetLength(Bounded):
    op = "SetStringLength(int)"

    def more(self, eng, st, how):
        self.m = small("m", 31, 32)
        st.assume(ULE(ZEXT(self.m, 32, 64), self.X.N))
        return [self.m]

    def want(self):
        return Seg(ZEXT(self.m, 32, 64), self.X.t)


BALL = [BNewText, BNewCopy, BNewCounted, BAssignText, BAssignCopy, BSet, BAppendText, BAppendCounted, BAppendChar, BSetLength]
for _b, _n, _p in ((BNewInt, "BNew", "String(%s)"), (BAssignInt, "BAssign", "operator=(%s)"), (BAppendInt, "BAppend", "operator+=(%s)")):
    for _t, _c, _w, _s in (("int", IntegerToString, 32, "Int"), ("unsigned int", UnsignedInteger64ToString, 32, "UInt"), ("long long", Integer64ToString, 64, "Int64"),
                           ("unsigned long long", UnsignedInteger64ToString, 64, "UInt64")):
        if _s == "UInt64" and _n != "BAppend":
            continue
        _k = type(_n + _s, (_b,), dict(op=_p % _t, icls=_c, iw=_w))
        globals()[_k.__name__] = _k
        BALL.append(_k)

ALL = [New, NewCopy, NewMove, NewText, NewCounted, NewInt, NewUInt, NewInt64, NewTextInt, NewTextUInt, NewTextInt64, NewTwo, Dtor, Purge, Resize, SetCounted, AssignText,
       AssignCopy, AssignMove, AssignInt, AssignUInt, AssignInt64, AppendString, AppendText, AppendCounted, AppendChar, AppendInt, AppendUInt, AppendInt64, AppendUInt64,
       SetLength, Lower, Upper, ReplaceChar] + BALL
