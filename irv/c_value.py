"""Contracts of the JSON parser proper (C01, C02, C03, C04, C14): the Parse
functions of the value classes, ParseAnyValue and the document level.

Values that a contract of a callee produced are opaque to its callers: a block
that remembers the text position it denotes (meta 'den'); arrays and objects
remember, at one arbitrary ghost index K, which position their K-th element
(member) denotes.  Strings are abstract (length and bytes, see c_string)."""
import z3
from engine import *
from jspec import *
from base import *
from world import add_text
from c_parse import T32, text_at, spec_candidates, start_codes
from c_string import astr, astr_set, astr_kill, Seg
from ir import Unsupported, INT, PTR

J = "C4::Json::"
OPQ = ("U8", "EL", "OL", "OB", "CD", "HEX4", "CP", "SE", "DL", "DB", "SB", "DG", "LINE", "COL")
MAXTEXT = 1 << 29


class Virt:
    """virtual calls on opaque values: only the deleting destructor"""

    def call(self, eng, st, obj, slot, args, i):
        b = st.blocks.get(obj.blk) if isinstance(obj.blk, int) else None
        if b is None or slot != 1 or "den" not in b.meta:
            raise Unsupported("virtual call on an opaque value")
        eng.oblige(st, b.alive, "own: a value is released only once")
        eng.oblige(st, b.meta.get("owner") is None, "own: a released value belongs to no array or object")
        for o in b.meta.get("strings", ()):
            astr_kill(eng, st, Ptr(b.id, o))
        st.w(b.id).alive = False
        return [(st, "ret", None)]

    def free_symbolic(self, eng, st, p, what):
        raise Unsupported("free of symbolic pointer")


def one(outs, what):
    """the only outcome of a call made by the specification"""
    if outs is None or len(outs) != 1 or outs[0][1] != "ret":
        raise Unsupported("specification: %s has several outcomes" % what)
    return outs[0][0], outs[0][2]


def construct(eng, st, cls):
    """an object made by the real constructor"""
    f = eng.mod.find(J + cls + "::" + cls + "()")
    if f is None:
        raise Unsupported("no constructor of " + cls)
    b = st.new(eng.mod.size(eng.mod.named('%"class.C4::Json::' + cls + '"')), cls)
    s, _ = one(eng.invoke(st, f.name, [Ptr(b.id, 0)]), "constructor of " + cls)
    return s, Ptr(b.id, 0)


ACCESS = {"StringValue": "GetStringData", "NumberValue": "GetDoubleData", "BoolValue": "GetBoolData", "NullValue": "GetJsonNullData",
          "ArrayValue": "GetJsonValueArrayData", "ObjectValue": "AsJsonObjectValue"}


def payload(eng, st, cls, p):
    f = eng.mod.find(J + cls + "::" + ACCESS[cls] + "()")
    if f is None:
        raise Unsupported("no accessor of " + cls)
    s, v = one(eng.invoke(st, f.name, [p]), "accessor of " + cls)
    if not (isinstance(v, Ptr) and isinstance(v.blk, int) and isc(v.off)):
        raise Unsupported("accessor of " + cls)
    return v


def class_of(eng, st, p):
    """class of a concrete object, from its virtual table"""
    b = st.blocks[p.blk]
    c = b.cells.get(p.off)
    if c is None or not isinstance(c[1], Ptr) or not isinstance(c[1].blk, int):
        return None
    for n, k in eng.globs.items():
        if k == c[1].blk:
            for cls in ACCESS:
                if n == "@_ZTVN2C44Json%d%sE" % (len(cls), cls):
                    return cls
    return None


def opaque_value(eng, st, X, p):
    """a value that denotes the text at p"""
    s, o = construct(eng, st, "Value")
    b = s.w(o.blk)
    b.name = "value%d" % o.blk
    b.meta["heap"] = "new"
    b.meta["den"] = p
    b.cells[0] = (8, Ptr(("vt", Ptr(b.id, 0)), 0))
    return s, o


# ------------------------------------------------ what a kind of value is

class Kind:
    """acceptance, end and content of one kind of value at position p"""
    missing = None

    def __init__(self, X, K, GK=None, GQ=None):
        self.X, self.K, self.GK, self.GQ = X, K, GK, GQ


class KString(Kind):
    cls = "StringValue"
    missing = "kExpectedBeginingDoubleQuotes"
    allocates = True
    own = lambda self, p: self.X.t(p) == 0x22
    end = lambda self, p: z3.If(self.own(p), z3.If(self.X.SE(p + 1) == ERR, B(ERR), self.X.SE(p + 1) + 1), B(ERR))

    def get(self, eng, st, o, p):
        """obligations: [(name, formula)]"""
        X = self.X
        d = payload(eng, st, self.cls, o)
        r = astr(eng, st, d)
        if r is None:
            return [("the string is a string", False)]
        seg, sb = r
        q = fresh("q", 64)
        return [("the storage of the string is alive", sb.alive),
                ("length of the string", seg.n == X.DL(p + 1)),
                ("bytes of the string", IMP(ULT(q, X.DL(p + 1)), EQ(seg.rd(q), X.DB(p + 1, q), 8)))]

    def put(self, eng, st, o, p, ok):
        X = self.X
        d = payload(eng, st, self.cls, o)
        if astr(eng, st, d) is None:
            raise Unsupported("string value with a concrete string")
        astr_kill(eng, st, d)
        if ok:
            seg = Seg(X.DL(p + 1), lambda q: X.DB(p + 1, bv(q, 64)))
        else:
            g = Var("garbage", 8)
            n = fresh("n", 64)
            st.assume(ULE(n, MAXTEXT))
            seg = Seg(n, g.rd)
        astr_set(eng, st, d, seg)


class KNumber(Kind):
    cls = "NumberValue"
    allocates = True
    own = lambda self, p: z3.Or(self.X.t(p) == ord('-'), self.X.isdig(self.X.t(p)))
    start = lambda self, p: z3.If(self.X.t(p) == ord('-'), p + 1, p)
    end = lambda self, p: z3.If(self.X.t(p) == ord('-'), self.X.NE(p + 1), self.X.NE(p))

    def value(self, p):
        X = self.X
        return z3.If(X.t(p) == ord('-'), X.NUMV(p + 1) ^ B(1 << 63), X.NUMV(p))

    def get(self, eng, st, o, p):
        d = payload(eng, st, self.cls, o)
        v = eng.load(st, INT(64), d, "number")
        return [("the number read from the text", EQ(v, self.value(p)))]

    def put(self, eng, st, o, p, ok):
        d = payload(eng, st, self.cls, o)
        eng.store(st, INT(64), d, self.value(p) if ok else fresh("num", 64), "number")


class KBool(Kind):
    cls = "BoolValue"
    allocates = False
    own = lambda self, p: z3.Or(self.X.t(p) == ord('t'), self.X.t(p) == ord('f'))
    end = lambda self, p: z3.If(self.X.lit(p, "true"), p + 4, z3.If(self.X.lit(p, "false"), p + 5, B(ERR)))

    def get(self, eng, st, o, p):
        d = payload(eng, st, self.cls, o)
        v = eng.load(st, INT(8), d, "bool")
        return [("the truth value", EQ(v, z3.If(self.X.t(p) == ord('t'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 8))]

    def put(self, eng, st, o, p, ok):
        d = payload(eng, st, self.cls, o)
        v = z3.If(self.X.t(p) == ord('t'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if ok else ITE(fresh("b", 1), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8), 8)
        eng.store(st, INT(8), d, v, "bool")


class KNull(Kind):
    cls = "NullValue"
    allocates = False
    own = lambda self, p: self.X.t(p) == ord('n')
    end = lambda self, p: z3.If(self.X.lit(p, "null"), p + 4, B(ERR))

    def get(self, eng, st, o, p):
        payload(eng, st, self.cls, o)
        return []

    def put(self, eng, st, o, p, ok):
        pass


def array_log(st, blk):
    """ghost state of an array: number of elements, what element K denotes"""
    st.ghost.setdefault("an@%d" % blk, 0)
    if "den@%d" % blk not in st.ghost:
        st.ghost["den@%d" % blk] = fresh("den", 64)
    return st.ghost["an@%d" % blk], st.ghost["den@%d" % blk]


class KArray(Kind):
    cls = "ArrayValue"
    missing = "kExpectedOpeningSquareBrackets"
    allocates = True
    own = lambda self, p: self.X.t(p) == ord('[')
    end = lambda self, p: z3.If(self.own(p), self.X.AE(p), B(ERR))

    def count(self, p):
        X = self.X
        w = X.WS(p + 1)
        return z3.If(X.t(w) == ord(']'), B(0), X.CNT(w))

    def get(self, eng, st, o, p):
        X = self.X
        d = payload(eng, st, self.cls, o)
        n = eng.load(st, INT(32), d, "element count")
        n64, den = array_log(st, d.blk)
        return [("the element count is the number of elements added", EQ(n, T32(n64), 32)),
                ("number of elements", EQ(n64, self.count(p))),
                ("what the elements denote", IMP(ULT(self.GK, n64), den == X.EP(X.WS(p + 1), self.GK)))]

    def put(self, eng, st, o, p, ok):
        X = self.X
        d = payload(eng, st, self.cls, o)
        eng.oblige(st, EQ(eng.load(st, INT(32), d, "element count"), 0, 32), "pre: the array is empty")
        n = self.count(p) if ok else fresh("n", 64)
        b = st.w(d.blk)
        b.cells[d.off] = (4, simp(T32(n)))
        b.cells[d.off + 8] = (8, Ptr(("opaque", "elements"), 0))
        st.ghost["an@%d" % d.blk] = n
        st.ghost["den@%d" % d.blk] = X.EP(X.WS(p + 1), self.GK) if ok else fresh("den", 64)


class KObject(Kind):
    cls = "ObjectValue"
    missing = "kExpectedOpeningCurlyBraces"
    allocates = True
    own = lambda self, p: self.X.t(p) == ord('{')
    end = lambda self, p: z3.If(self.own(p), self.X.OE(p), B(ERR))
    FIELDS = ("mn", "mden", "mlen", "mbyte")

    def count(self, p):
        X = self.X
        w = X.WS(p + 1)
        return z3.If(X.t(w) == ord('}'), B(0), X.MCNT(w))

    def log(self, st, blk):
        r = []
        for f in self.FIELDS:
            k = "%s@%d" % (f, blk)
            if k not in st.ghost:
                st.ghost[k] = B(0) if f == "mn" else fresh(f, 8 if f == "mbyte" else 64)
            r.append(st.ghost[k])
        return r

    def get(self, eng, st, o, p):
        X, K, Q = self.X, self.GK, self.GQ
        payload(eng, st, self.cls, o)
        n, den, ln, by = self.log(st, o.blk)
        m = X.MP(X.WS(p + 1), K)
        return [("number of members", EQ(n, self.count(p))),
                ("what the members' values denote", IMP(ULT(K, n), den == X.VP(m))),
                ("length of the members' names", IMP(ULT(K, n), ln == X.DL(m + 1))),
                ("bytes of the members' names", IMP(AND(ULT(K, n), ULT(Q, ln)), by == X.DB(m + 1, Q)))]

    def put(self, eng, st, o, p, ok):
        X, K, Q = self.X, self.GK, self.GQ
        n, den, ln, by = self.log(st, o.blk)
        eng.oblige(st, EQ(n, 0), "pre: the object is empty")
        m = X.MP(X.WS(p + 1), K)
        vals = (self.count(p), X.VP(m), X.DL(m + 1), X.DB(m + 1, Q)) if ok else (fresh("mn", 64), fresh("mden", 64), fresh("mlen", 64), fresh("mbyte", 8))
        for f, v in zip(self.FIELDS, vals):
            st.ghost["%s@%d" % (f, o.blk)] = v


KINDS = (KString, KNumber, KBool, KNull, KArray, KObject)


# ------------------------------------------------ base of the contracts

class ParseFn(Contract):
    loop_ownership = True
    pair_candidates = False
    deep = Text.VALUES
    opq = OPQ + ("NE", "WS")

    def text(self, eng, st):
        X, b = add_text(eng, st, maxlen=MAXTEXT)
        X.deep = set(self.deep)
        X.opaque = set(self.opq)
        self.X, self.b = X, b
        self.p = z3.BitVec("p", 64)
        st.assume(ULE(self.p, X.N))
        self.env(eng)
        r = st.new(8, "textref")
        r.cells[0] = (8, Ptr(b.id, self.p))
        self.tref = r.id
        return Ptr(r.id, 0)

    def env(self, eng):
        eng.abstract_strings = True
        eng.virt = Virt()
        eng.measure_required = True
        eng.GK, eng.GQ = z3.BitVec("K!elem", 64), z3.BitVec("Q!byte", 64)
        eng.candgen.append(value_candidates)

    def here(self, st, ref=None):
        c = st.blocks[self.tref].cells[0][1]
        if not isinstance(c, Ptr) or not isinstance(c.blk, int) or c.blk != self.b.id:
            return None
        return bv(c.off, 64)

    def kinds(self, eng, X):
        return [k(X, self.W.K, eng.GK, eng.GQ) for k in KINDS]


def text_ref(eng, st, r):
    """(Text, position) behind a const char*& argument"""
    v = eng.load(st, PTR, r, "text reference")
    return text_at(eng, v)


class KindParse(ParseFn):
    """Status T::Parse( T* value, const char*& text )"""
    kind = None
    optional = True

    def setup(self, eng, st, case):
        ref = self.text(eng, st)
        s, o = construct(eng, st, self.kind.cls)
        if s is not st:
            raise Unsupported("constructor forks")
        self.o = o
        self.k = self.kind(self.X, self.W.K, eng.GK, eng.GQ)
        if self.kind is KObject:
            self.k.log(st, o.blk)
        if self.kind is KArray:
            array_log(st, o.blk)
        eng.owner_obj = o.blk
        return [o, ref]

    def post(self, eng, case, st0, st, kind, v, args):
        X, p, K, k = self.X, self.p, self.W.K, self.k
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception leaves Parse")
            return
        q = self.here(st)
        if q is None:
            eng.oblige(st, False, "post: the text reference stays in the text")
            return
        ok = EQ(v, K["kOk"], 32)
        acc = k.end(p) != ERR
        eng.oblige(st, AND(ULE(p, q), ULE(q, X.N)), "post: the position only moves forward inside the text")
        leak_check(eng, st0, st, [self.o.blk])
        if st.ghost["oom"]:
            eng.oblige(st, EQ(v, K["kException"], 32), "post: a failed allocation is reported")
            return
        eng.oblige(st, NOT(EQ(v, K["kException"], 32)), "post: kException only after a failed allocation")
        eng.oblige(st, start_codes(K, v, (k.missing,)), "post: no status that speaks of another kind")
        eng.oblige(st, EQ(ok, acc), "post: accepted exactly when the grammar has this kind of value here")
        eng.oblige(st, IMP(ok, AND(ULE(k.end(p), q), X.WS(q) == X.WS(k.end(p)))), "post: position after the value")
        if k.missing:
            eng.oblige(st, EQ(EQ(v, K[k.missing], 32), NOT(k.own(p))), "post: %s exactly when the value does not start so" % k.missing)
            if k.cls != "StringValue":
                eng.oblige(st, IMP(NOT(k.own(p)), q == p), "post: position unchanged when the value is of another kind")
            else:
                eng.oblige(st, IMP(NOT(k.own(p)), ULE(q, p)), "post: position unchanged when the value is of another kind")
            eng.oblige(st, IMP(AND(k.own(p), NOT(ok)), AND(ULE(X.ELO(p), q), ULE(q, X.EHI(p)))), "post: the error position is where the text goes wrong")
        elif k.cls == "NumberValue":
            eng.oblige(st, IMP(NOT(ok), ULE(q, k.start(p))), "post: the error position is where the number goes wrong")
            eng.oblige(st, IMP(EQ(v, K["kNumbersCannotHaveLeadingZeros"], 32), k.own(p)), "post: kNumbersCannotHaveLeadingZeros only for numbers")
        s2 = st.copy()
        s2.assume(ok)
        if eng.feasible(s2, True):
            for n, f in k.get(eng, s2, self.o, p):
                eng.oblige(s2, f, "post: " + n)

    def call(self, eng, st, args, pretty):
        r = text_ref(eng, st, args[1])
        if r is None or not getattr(eng, "abstract_strings", False):
            return NotImplemented
        X, p = r
        p = bv(p, 64)
        K = self.W.K
        k = self.kind(X, K, eng.GK, eng.GQ)
        o = args[0]
        if not isinstance(o.blk, int) or o.blk == 0 or not (isc(o.off) and o.off == 0):
            return NotImplemented
        eng.oblige(st, ULE(p, X.N), "pre of Parse: position inside the text")
        termination(eng, st, self, X, p)
        acc = k.end(p) != ERR
        res = []
        if eng.feasible(st, acc):
            s = st.copy()
            s.assume(acc)
            k.put(eng, s, o, p, True)
            q = fresh("q", 64)
            s.assume(AND(ULE(k.end(p), q), ULE(q, X.N), X.WS(q) == X.WS(k.end(p))))
            eng.store(s, PTR, args[1], Ptr(eng_text(eng, X), q), "text reference")
            res.append((s, "ret", K["kOk"]))
        if eng.feasible(st, NOT(acc)):
            s = st.copy()
            s.assume(NOT(acc))
            k.put(eng, s, o, p, False)
            q = fresh("q", 64)
            v = fresh("status", 32)
            s.assume(AND(ULE(p, q), ULE(q, X.N), NOT(EQ(v, K["kOk"], 32)), NOT(EQ(v, K["kException"], 32)), ULT(v, 1 << 16, 32)))
            s.assume(start_codes(K, v, (k.missing,)))
            if k.missing:
                s.assume(EQ(EQ(v, K[k.missing], 32), NOT(k.own(p))))
                s.assume(IMP(NOT(k.own(p)), q == p))
                s.assume(IMP(k.own(p), AND(ULE(X.ELO(p), q), ULE(q, X.EHI(p)))))
            elif k.cls == "NumberValue":
                s.assume(ULE(q, k.start(p)))
                s.assume(IMP(EQ(v, K["kNumbersCannotHaveLeadingZeros"], 32), k.own(p)))
            eng.store(s, PTR, args[1], Ptr(eng_text(eng, X), q), "text reference")
            res.append((s, "ret", v))
        if k.allocates and eng.opts["alloc_fail"]:
            s = st.copy()
            s.ghost["oom"] = True
            s.trace.append("alloc-fails")
            k.put(eng, s, o, p, False)
            q = fresh("q", 64)
            s.assume(AND(ULE(p, q), ULE(q, X.N)))
            eng.store(s, PTR, args[1], Ptr(eng_text(eng, X), q), "text reference")
            res.append((s, "ret", K["kException"]))
        return res


def eng_text(eng, X):
    return next(b for b, x in eng.texts.items() if x is X)


def termination(eng, st, callee, X, p):
    """calls into the recursive group happen at later positions (or from a lower layer of the same position)"""
    cur = eng.current
    rank = {"ParseAnyValue": 2, "ParseArray": 1, "ParseObject": 1}
    a, b = rank.get(type(cur).__name__), rank.get(type(callee).__name__)
    if a is None or b is None or getattr(cur, "X", None) is not X:
        return
    eng.oblige(st, ULT(cur.p, p) if b >= a else ULE(cur.p, p), "termination: nested values start later in the text")


def strtod(eng, st, args, i):
    """double strtod( const char* str, char** end ): when the characters at str up to the NUL are an unsigned
    JSON number of the text, the result is that number and the end is the NUL"""
    s = args[0]
    if not isinstance(s.blk, int) or s.blk == 0:
        return None
    b = eng.access(st, s, 1, False, "strtod")
    if b is None:
        return []
    v = fresh("strtod", 64)
    e = fresh("end", 64)
    rd = lambda k: eng.rdbyte(st, st.blocks[b.id], ADD(s.off, k))
    first = rd(0)
    apps = []
    for X in eng.texts.values():
        todo = [first] if z3.is_expr(first) else []
        seen = set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(X.T):
                apps.append((X, t.arg(0)))
            todo += t.children()
    for X, a in apps:
        n = X.NE(a) - a
        q = fresh("q", 64)
        if eng.valid(st.pc, AND(ULE(a, X.N), X.NE(a) != ERR, EQ(rd(n), 0, 8), IMP(ULT(q, n), EQ(rd(q), X.t(a + q), 8)))):
            st.assume(v == X.NUMV(a))
            st.assume(e == n)
            eng.obs.append(Oblig("strtod is given exactly the characters of the number", "ok"))
            break
    else:
        st.assume(ULE(e, 1 << 32))
    if not (isinstance(args[1].blk, int) and args[1].blk == 0):
        eng.store(st, PTR, args[1], Ptr(s.blk, ADD(s.off, e)), "strtod end")
    return [(st, "ret", v)]


EXTERN["strtod"] = strtod


def digit_candidates(loop, flags):
    out = []
    for s in loop.slots.values():
        if s.kind == "ptr" and isinstance(s.v0.blk, int) and s.v0.blk in loop.eng.texts:
            X = loop.eng.texts[s.v0.blk]
            z = bv(s.v0.off, 64)
            out.append(("DG(%s) const" % s.name, lambda V, s=s, X=X, z=z: X.DG(V.raw(s.key).off) == X.DG(z)))
            out.append(("%s <= N" % s.name, lambda V, s=s, X=X: ULE(V.raw(s.key).off, X.N)))
    return out


NUMOPQ = tuple(x for x in OPQ if x != "DG")


class FloatLiteralLength(Contract):
    names = (J + "ComputeFloatLiteralLength(char const*)",)
    optional = True

    def setup(self, eng, st, case):
        X, b = add_text(eng, st, maxlen=MAXTEXT)
        X.deep = {"DG"}
        X.opaque = set(NUMOPQ)
        self.X = X
        self.p = z3.BitVec("p", 64)
        st.assume(ULE(self.p, X.N))
        eng.candgen.append(digit_candidates)
        eng.measure_required = True
        return [Ptr(b.id, self.p)]

    def frame(self, case):
        return {}

    def rel(self, X, p, v):
        e = X.NE(p)
        v64 = SEXT(v, 32, 64)
        return [("the length of the number", IMP(e != ERR, EQ(v64, e - p))),
                ("zero when there is no number (leading zeros are left to the caller)",
                 IMP(e == ERR, OR(EQ(v, 0, 32), AND(X.t(p) == ord('0'), X.isdig(X.t(p + 1)))))),
                ("the length stays in the text", ULE(v64, X.N - p))]

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        for n, f in self.rel(self.X, self.p, v):
            eng.oblige(st, f, "post: " + n)

    def call(self, eng, st, args, pretty):
        r = text_at(eng, args[0])
        if r is None:
            return NotImplemented
        X, p = r
        eng.oblige(st, ULE(p, X.N), "pre of ComputeFloatLiteralLength: position inside the text")
        v = fresh("len", 32)
        for n, f in self.rel(X, bv(p, 64), v):
            st.assume(f)
        return [(st, "ret", v)]


class ReadDoubleLiteral(Contract):
    names = (J + "ReadDoubleLiteral(char const*, int*, double*)",)
    optional = True

    def setup(self, eng, st, case):
        X, b = add_text(eng, st, maxlen=MAXTEXT)
        X.deep = {"DG"}
        X.opaque = set(NUMOPQ)
        self.X = X
        self.p = z3.BitVec("p", 64)
        st.assume(ULE(self.p, X.N))
        eng.candgen.append(digit_candidates)
        eng.measure_required = True
        n = st.new(4, "textLength")
        n.cells[0] = (4, z3.BitVec("n0", 32))
        d = st.new(8, "value")
        d.cells[0] = (8, z3.BitVec("d0", 64))
        self.n, self.d = n.id, d.id
        return [Ptr(b.id, self.p), Ptr(n.id, 0), Ptr(d.id, 0)]

    def frame(self, case):
        return {self.n: "*", self.d: "*"}

    def post(self, eng, case, st0, st, kind, v, args):
        X, p, K = self.X, self.p, self.W.K
        leak_check(eng, st0, st, [])
        if kind != "ret":
            eng.oblige(st, st.ghost["oom"], "exc: only when an allocation fails")
            return
        ok = EQ(v, K["kOk"], 32)
        eng.oblige(st, EQ(ok, X.NE(p) != ERR), "post: accepted exactly when the grammar has a number here")
        eng.oblige(st, AND(NOT(EQ(v, K["kException"], 32)), start_codes(K, v)), "post: no kException, no status that speaks of another kind")
        eng.oblige(st, IMP(EQ(v, K["kNumbersCannotHaveLeadingZeros"], 32), X.isdig(X.t(p))), "post: kNumbersCannotHaveLeadingZeros only for numbers")
        eng.oblige(st, IMP(ok, EQ(st.blocks[self.n].cells[0][1], T32(X.NE(p) - p), 32)), "post: length of the number")
        eng.oblige(st, IMP(ok, EQ(st.blocks[self.d].cells[0][1], X.NUMV(p))), "post: the number")

    def call(self, eng, st, args, pretty):
        r = text_at(eng, args[0])
        if r is None:
            return NotImplemented
        X, p = r
        p = bv(p, 64)
        K = self.W.K
        eng.oblige(st, ULE(p, X.N), "pre of ReadDoubleLiteral: position inside the text")
        ok = X.NE(p) != ERR
        res = []
        if eng.opts["alloc_fail"]:
            s = st.copy()
            s.ghost["oom"] = True
            s.trace.append("alloc-fails")
            eng.store(s, INT(32), args[1], fresh("len", 32), "number length")
            eng.store(s, INT(64), args[2], fresh("num", 64), "number")
            res.append((s, "exc", None))
        if eng.feasible(st, NOT(ok)):
            s = st.copy()
            s.assume(NOT(ok))
            eng.store(s, INT(32), args[1], fresh("len", 32), "number length")
            eng.store(s, INT(64), args[2], fresh("num", 64), "number")
            v = fresh("status", 32)
            s.assume(AND(NOT(EQ(v, K["kOk"], 32)), NOT(EQ(v, K["kException"], 32)), start_codes(K, v), ULT(v, 1 << 16, 32)))
            s.assume(IMP(EQ(v, K["kNumbersCannotHaveLeadingZeros"], 32), X.isdig(X.t(p))))
            res.append((s, "ret", v))
        if eng.feasible(st, ok):
            st.assume(ok)
            eng.store(st, INT(32), args[1], narrow(eng, st, simp(X.NE(p) - p)), "number length")
            eng.store(st, INT(64), args[2], X.NUMV(p), "number")
            res.append((st, "ret", K["kOk"]))
        return res


class ParseString(KindParse):
    kind = KString
    names = (J + "StringValue::Parse(C4::Json::StringValue*, char const*&)",)


class ParseNumber(KindParse):
    kind = KNumber
    names = (J + "NumberValue::Parse(C4::Json::NumberValue*, char const*&)",)
    deep = ("WS",)
    opq = OPQ + ("NE",)


class ParseBool(KindParse):
    kind = KBool
    names = (J + "BoolValue::Parse(C4::Json::BoolValue*, char const*&)",)


class ParseNull(KindParse):
    kind = KNull
    names = (J + "NullValue::Parse(C4::Json::NullValue*, char const*&)",)


class ParseArray(KindParse):
    kind = KArray
    names = (J + "ArrayValue::Parse(C4::Json::ArrayValue*, char const*&)",)


class ParseObject(KindParse):
    kind = KObject
    names = (J + "ObjectValue::Parse(C4::Json::ObjectValue*, char const*&)",)


def value_candidates(loop, flags):
    """invariants of the loops over elements and members"""
    eng = loop.eng
    out = []
    cur = eng.current
    if not isinstance(cur, KindParse) or cur.kind not in (KArray, KObject):
        return out
    X, z, K, Q = cur.X, cur.p, eng.GK, eng.GQ
    w0 = X.WS(z + 1)
    blk = cur.o.blk
    arr = cur.kind is KArray
    if arr:
        d = payload(eng, loop.st, "ArrayValue", cur.o)
        nkey = ("ghost", "an@%d" % blk)
        nof = lambda V: bv(V.raw(nkey), 64)
        ckey = ("cell", d.blk, d.off)
        if ckey in loop.slots:
            out.append(("element count", lambda V: EQ(V.raw(ckey), T32(nof(V)), 32)))
        R, CNT, POS, LO, HI, close = X.ELS, X.CNT, X.EP, X.SLO, X.SHI, ord(']')
    else:
        nkey = ("ghost", "mn@%d" % blk)
        nof = lambda V: V.raw(nkey)
        R, CNT, POS, LO, HI, close = X.MEM, X.MCNT, X.MP, X.MLO, X.MHI, ord('}')
    if nkey not in loop.slots:
        return out
    for s in loop.slots.values():
        if s.kind != "ptr" or not isinstance(s.v0.blk, int) or s.v0.blk != cur.b.id:
            continue
        c = lambda V, s=s: bv(V.raw(s.key).off, 64)
        out.append(("%s < N" % s.name, lambda V, c=c: ULT(c(V), X.N)))
        out.append(("%s <= N" % s.name, lambda V, c=c: ULE(c(V), X.N)))
        out.append(("count <= %s" % s.name, lambda V, c=c: ULE(nof(V), c(V))))
        for gn, g in (("after separator", lambda x: X.WS(x + 1)), ("at element", lambda x: X.WS(x))):
            out.append(("%s %s: in the text" % (s.name, gn), lambda V, c=c, g=g: ULE(g(c(V)), X.N)))
            for fn, f in (("rest", R), ("lo", LO), ("hi", HI)):
                out.append(("%s %s: %s" % (s.name, gn, fn), lambda V, c=c, g=g, f=f: f(g(c(V))) == f(w0)))
            out.append(("%s %s: count" % (s.name, gn), lambda V, c=c, g=g: IMP(R(w0) != ERR, CNT(g(c(V))) + bv(nof(V), 64) == CNT(w0))))
            out.append(("%s %s: positions" % (s.name, gn), lambda V, c=c, g=g: IMP(
                AND(R(w0) != ERR, ULE(nof(V), K)), POS(g(c(V)), K - bv(nof(V), 64)) == POS(w0, K))))
    out.append(("not empty", lambda V: IMP(NOT(EQ(nof(V), 0)), X.t(w0) != close)))
    for fname, f in flags:
        out.append(("%s -> not empty" % fname, lambda V, f=f: IMP(f(V), X.t(w0) != close)))
    gk = lambda f: ("ghost", "%s@%d" % (f, blk))
    if arr and gk("den") in loop.slots:
        out.append(("denotes", lambda V: IMP(AND(R(w0) != ERR, ULT(K, nof(V))), V.raw(gk("den")) == X.EP(w0, K))))
    if not arr and all(gk(f) in loop.slots for f in ("mden", "mlen", "mbyte")):
        m = X.MP(w0, K)
        g = lambda V: AND(R(w0) != ERR, ULT(K, nof(V)))
        out.append(("denotes", lambda V: IMP(g(V), V.raw(gk("mden")) == X.VP(m))))
        out.append(("name length", lambda V: IMP(g(V), V.raw(gk("mlen")) == X.DL(m + 1))))
        out.append(("name bytes", lambda V: IMP(AND(g(V), ULT(Q, V.raw(gk("mlen")))), V.raw(gk("mbyte")) == X.DB(m + 1, Q))))
    return out


class ParseAnyValue(ParseFn):
    names = (J + "ParseAnyValue(C4::Json::Value*&, char const*&)",)
    recursive = True

    def setup(self, eng, st, case):
        ref = self.text(eng, st)
        b = st.new(8, "slot")
        b.cells[0] = (8, NULL)
        self.slot = b.id
        return [Ptr(b.id, 0), ref]

    def post(self, eng, case, st0, st, kind, v, args):
        X, p, K = self.X, self.p, self.W.K
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception leaves ParseAnyValue")
            return
        q = self.here(st)
        if q is None:
            eng.oblige(st, False, "post: the text reference stays in the text")
            return
        ok = EQ(v, K["kOk"], 32)
        acc = X.VE(p) != ERR
        eng.oblige(st, AND(ULE(p, q), ULE(q, X.N)), "post: the position only moves forward inside the text")
        if st.ghost["oom"]:
            eng.oblige(st, EQ(v, K["kException"], 32), "post: a failed allocation is reported")
        else:
            eng.oblige(st, NOT(EQ(v, K["kException"], 32)), "post: kException only after a failed allocation")
            eng.oblige(st, EQ(ok, acc), "post: accepted exactly when the grammar has a value here")
            eng.oblige(st, IMP(ok, AND(ULE(X.VE(p), q), X.WS(q) == X.WS(X.VE(p)))), "post: position after the value")
            eng.oblige(st, IMP(NOT(ok), AND(ULE(X.ELO(p), q), ULE(q, X.EHI(p)))), "post: the error position is where the text goes wrong")
        eng.oblige(st, start_codes(K, v), "post: no status that speaks of another kind")
        o = st.blocks[self.slot].cells[0][1]
        s2 = st.copy()
        s2.assume(ok)
        good = eng.feasible(s2, True)
        s3 = st.copy()
        s3.assume(NOT(ok))
        if eng.feasible(s3, True):
            eng.oblige(s3, ptreq(o, NULL), "post: no value is delivered on failure")
            leak_check(eng, st0, s3, [])
        if not good:
            return
        if not isinstance(o.blk, int) or o.blk == 0:
            eng.oblige(s2, False, "post: a value is delivered")
            return
        leak_check(eng, st0, s2, [o.blk])
        b = s2.blocks[o.blk]
        eng.oblige(s2, AND(b.alive, EQ(o.off, 0), b.meta.get("heap") == "new"), "post: the value is a live heap object")
        cls = class_of(eng, s2, o)
        for k in self.kinds(eng, X):
            if k.cls == cls:
                eng.oblige(s2, k.end(p) != ERR, "post: the value is of the kind the text has (%s)" % cls)
                for n, f in k.get(eng, s2, o, p):
                    eng.oblige(s2, f, "post: %s: %s" % (cls, n))
                break
        else:
            eng.oblige(s2, False, "post: the value is of a known class")

    def call(self, eng, st, args, pretty):
        r = text_ref(eng, st, args[1])
        if r is None or not getattr(eng, "abstract_strings", False):
            return NotImplemented
        X, p = r
        p = bv(p, 64)
        K = self.W.K
        eng.oblige(st, ULE(p, X.N), "pre of ParseAnyValue: position inside the text")
        termination(eng, st, self, X, p)
        old = eng.load(st, PTR, args[0], "value slot")
        eng.oblige(st, ptreq(old, NULL), "pre of ParseAnyValue: the slot is empty")
        acc = X.VE(p) != ERR
        tb = eng_text(eng, X)
        res = []
        if eng.feasible(st, acc):
            s = st.copy()
            s.assume(acc)
            s, o = opaque_value(eng, s, X, p)
            q = fresh("q", 64)
            s.assume(AND(ULE(X.VE(p), q), ULE(q, X.N), X.WS(q) == X.WS(X.VE(p))))
            eng.store(s, PTR, args[1], Ptr(tb, q), "text reference")
            s.ghost["stop"] = q
            eng.store(s, PTR, args[0], o, "value slot")
            res.append((s, "ret", K["kOk"]))
        if eng.feasible(st, NOT(acc)):
            s = st.copy()
            s.assume(NOT(acc))
            q = fresh("q", 64)
            v = fresh("status", 32)
            s.assume(AND(ULE(X.ELO(p), q), ULE(q, X.EHI(p)), ULE(p, q), ULE(q, X.N), NOT(EQ(v, K["kOk"], 32)), NOT(EQ(v, K["kException"], 32)), start_codes(K, v), ULT(v, 1 << 16, 32)))
            eng.store(s, PTR, args[1], Ptr(tb, q), "text reference")
            s.ghost["stop"] = q
            res.append((s, "ret", v))
        if eng.opts["alloc_fail"]:
            s = st.copy()
            s.ghost["oom"] = True
            s.trace.append("alloc-fails")
            q = fresh("q", 64)
            s.assume(AND(ULE(p, q), ULE(q, X.N)))
            eng.store(s, PTR, args[1], Ptr(tb, q), "text reference")
            s.ghost["stop"] = q
            res.append((s, "ret", K["kException"]))
        return res


# ------------------------------------------------ containers, as the parser sees them

class Callee(Contract):
    assumed = True
    """a contract the parser relies on; its body is verified in another module"""

    def oom(self, eng, st):
        s = st.copy()
        s.ghost["oom"] = True
        s.trace.append("alloc-fails")
        return s

    def value(self, eng, st, p):
        if not isinstance(p, Ptr) or not isinstance(p.blk, int) or p.blk not in st.blocks or "den" not in st.blocks[p.blk].meta:
            return None
        return st.blocks[p.blk]

    def own(self, eng, st, b, who):
        eng.oblige(st, b.alive, "own: only live values are added")
        eng.oblige(st, b.meta.get("owner") is None, "own: a value belongs to one array or object only")
        st.w(b.id).meta["owner"] = who


class AppendValue(Callee):
    names = ("C4::Json::Value** Terathon::Array<C4::Json::Value*, 0>::AppendArrayElement<C4::Json::Value*&>(C4::Json::Value*&)",
             "C4::Json::Value** Terathon::Array<C4::Json::Value*, 0>::AppendArrayElement<C4::Json::Value* const&>(C4::Json::Value* const&)",
             "C4::Json::Value** Terathon::Array<C4::Json::Value*, 0>::AppendArrayElement<C4::Json::Value*>(C4::Json::Value*&&)")

    def call(self, eng, st, args, pretty):
        a = args[0]
        if not getattr(eng, "abstract_strings", False) or not (isinstance(a.blk, int) and a.blk in st.blocks and isc(a.off)):
            return NotImplemented
        v = eng.load(st, PTR, args[1], "appended value")
        vb = self.value(eng, st, v)
        if vb is None:
            return NotImplemented
        res = [(self.oom(eng, st), "exc", None)] if eng.opts["alloc_fail"] else []
        n = eng.load(st, INT(32), a, "element count")
        an, old = array_log(st, a.blk)
        eng.oblige(st, AND(EQ(n, T32(bv(an, 64)), 32), ULT(an, 1 << 30)), "pre of AppendArrayElement: element count below 2^30")
        self.own(eng, st, vb, a.blk)
        st.ghost["den@%d" % a.blk] = simp(ITE(EQ(an, eng.GK), bv(vb.meta["den"], 64), old))
        st.ghost["an@%d" % a.blk] = ADD(an, 1)
        b = st.w(a.blk)
        b.cells[a.off] = (4, simp(T32(bv(ADD(an, 1), 64))))
        b.cells[a.off + 8] = (8, Ptr(("opaque", "elements"), 0))
        res.append((st, "ret", Ptr(("opaque", "elements"), 0)))
        return res


class InsertAccounted(Callee):
    names = (J + "ObjectValue::InsertAccountedMapElement(C4::Json::Value*)",)

    def call(self, eng, st, args, pretty):
        a = args[0]
        if not getattr(eng, "abstract_strings", False) or not (isinstance(a.blk, int) and a.blk in st.blocks):
            return NotImplemented
        vb = self.value(eng, st, args[1])
        if vb is None or len(vb.meta.get("strings", ())) != 1:
            return NotImplemented
        seg, sb = astr(eng, st, Ptr(vb.id, vb.meta["strings"][0]))
        eng.oblige(st, sb.alive, "own: the name's storage is alive")
        res = [(self.oom(eng, st), "exc", None)] if eng.opts["alloc_fail"] else []
        k = KObject(None, None, eng.GK, eng.GQ)
        n, den, ln, by = k.log(st, a.blk)
        here = EQ(n, eng.GK)
        new = (ADD(n, 1), ITE(here, bv(vb.meta["den"], 64), den), ITE(here, seg.n, ln), ITE(here, seg.rd(eng.GQ), by, 8))
        for f, v in zip(k.FIELDS, new):
            st.ghost["%s@%d" % (f, a.blk)] = simp(v)
        s2 = st.copy()
        res.append((s2, "ret", False))
        self.own(eng, st, vb, a.blk)
        res.append((st, "ret", True))
        return res


class DestroyArray(Callee):
    names = ("@_ZN2C44Json10ArrayValueD2Ev", "@_ZN2C44Json10ArrayValueD1Ev")

    def fn(self):
        return self.W.mod.funcs.get(self.names[0])

    def call(self, eng, st, args, pretty):
        o = args[0]
        if not getattr(eng, "abstract_strings", False) or not (isinstance(o.blk, int) and o.blk in st.blocks):
            return NotImplemented
        b = st.blocks[o.blk]
        for x in b.meta.get("strings", ()):
            astr_kill(eng, st, Ptr(o.blk, x))
        for bid, vb in list(st.blocks.items()):
            if vb.meta.get("owner") == o.blk and vb.alive:
                for x in vb.meta.get("strings", ()):
                    astr_kill(eng, st, Ptr(bid, x))
                st.w(bid).alive = False
        return [(st, "ret", None)]


class DestroyObject(DestroyArray):
    names = ("@_ZN2C44Json11ObjectValueD2Ev", "@_ZN2C44Json11ObjectValueD1Ev")


ALL = [AppendValue, InsertAccounted, DestroyArray, DestroyObject, FloatLiteralLength, ReadDoubleLiteral, ParseString, ParseNumber, ParseBool, ParseNull, ParseArray, ParseObject, ParseAnyValue]
