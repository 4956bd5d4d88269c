"""Mathematical specification: JSON (RFC 8259) over a NUL-terminated text, as
recursive functions of a position.  The equations are the specification; the
solver sees them as definitional axioms unfolded at the terms of a query.

Every recursive equation only refers to larger positions <= N, so the
functions exist and are unique.  Lemmas (bounds, idempotence) are proved by
induction on N - i in prove_lemmas() on every run before they are used."""
import z3
from engine import *

ERR = M64


def B(x):
    return z3.BitVecVal(x, 64)


def ch(c):
    return ord(c) if isinstance(c, str) else c


class Text:
    """a NUL-terminated byte sequence: T(k), first NUL at N"""

    def __init__(self, spec, tag="", maxlen=1 << 31):
        self.spec = spec
        self.tag = tag
        self.N = z3.BitVec("N" + tag, 64)
        F1 = lambda n: z3.Function(n + tag, z3.BitVecSort(64), z3.BitVecSort(64))
        self.T = z3.Function("T" + tag, z3.BitVecSort(64), z3.BitVecSort(8))
        self.lemma_on = True
        for n in ("WS", "DG", "NE", "U8", "CP", "EL", "OL", "CD", "SE", "DL", "VE", "AE", "ELS", "OE", "MEM", "CNT", "HEX4", "SB", "NUMV", "MCNT",
                  "ELO", "EHI", "SLO", "SHI", "MLO", "MHI", "LINE", "COL"):
            setattr(self, "f" + n, F1(n))
        F2 = lambda n, w: z3.Function(n + tag, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(w))
        self.fOB = F2("OB", 8)
        self.fDB = F2("DB", 8)
        self.fEP = F2("EP", 64)
        self.fMP = F2("MP", 64)
        self.maxlen = maxlen
        self.base = [z3.ULT(self.N, B(maxlen))]
        self.opaque = set()
        self.restrict = getattr(spec, "restrict", False)
        self.depth = {}
        s = spec
        s.define(self.T, lambda k: [IMP(ULE(k, self.N), (self.T(k) == 0) == (k == self.N))])
        D = self._def
        D(self.fWS, self.ax_WS)
        D(self.fDG, self.ax_DG)
        D(self.fNE, self.ax_NE)
        D(self.fU8, self.ax_U8)
        D(self.fCP, self.ax_CP)
        D(self.fHEX4, self.ax_HEX4)
        D(self.fEL, self.ax_EL)
        D(self.fCD, self.ax_CD)
        D(self.fOL, self.ax_OL)
        D(self.fOB, self.ax_OB)
        D(self.fSE, self.ax_SE)
        D(self.fDL, self.ax_DL)
        D(self.fDB, self.ax_DB)
        D(self.fVE, self.ax_VE)
        D(self.fAE, self.ax_AE)
        D(self.fELS, self.ax_ELS)
        D(self.fOE, self.ax_OE)
        D(self.fMEM, self.ax_MEM)
        D(self.fCNT, self.ax_CNT)
        D(self.fEP, self.ax_EP)
        for n in ("SB", "MCNT", "MP", "ELO", "EHI", "SLO", "SHI", "MLO", "MHI", "LINE", "COL"):
            D(getattr(self, "f" + n), getattr(self, "ax_" + n))

    def compound(self, t):
        return not (z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)

    REC = ("WS", "DG", "SE", "DL", "DB", "ELS", "MEM", "CNT", "EP", "VE", "AE", "OE", "SB", "MCNT", "MP", "ELO", "EHI", "SLO", "SHI", "MLO", "MHI",
           "LINE", "COL")
    VALUES = ("WS", "VE", "AE", "ELS", "OE", "MEM", "CNT", "EP", "MCNT", "MP", "ELO", "EHI", "SLO", "SHI", "MLO", "MHI")
    deep = ()             # unfolded at compound positions as well

    def _def(self, f, ax):
        name = f.name()
        short = ax.__name__[3:]
        lem = getattr(self, "lem_" + short, None)

        def inst(*a):
            r = []
            if short not in self.opaque and not (self.restrict and short in self.REC and short not in self.deep and self.compound(a[0])):
                r += ax(*a)
            if lem is not None and (self.lemma_on is True or self.lemma_on and self.lemma_on(short, a)):
                r += lem(*a)
            return r
        self.spec.define(f, inst)
        if short in self.REC:
            def linst(*a):
                return lem(*a) if lem is not None and self.lemma_on is True else []
            self.spec.lem[name] = linst
            self.spec.rec.add(name)

    # ---- character classes
    def t(self, k):
        return self.T(bv(k, 64))

    def isws(self, c):
        return z3.Or(c == 0x20, c == 9, c == 10, c == 13)

    def isdig(self, c):
        return z3.And(z3.UGE(c, 0x30), z3.ULE(c, 0x39))

    def ishex(self, c):
        return z3.Or(self.isdig(c), z3.And(z3.UGE(c, 0x41), z3.ULE(c, 0x46)), z3.And(z3.UGE(c, 0x61), z3.ULE(c, 0x66)))

    def hexv(self, c):
        z = z3.ZeroExt(56, c)
        return z3.If(self.isdig(c), z - 0x30, z3.If(z3.ULE(c, 0x46), z - 0x37, z - 0x57))

    # ---- functions
    def WS(self, i): return self.fWS(bv(i, 64))
    def DG(self, i): return self.fDG(bv(i, 64))
    def NE(self, i): return self.fNE(bv(i, 64))
    def U8(self, i): return self.fU8(bv(i, 64))
    def CP(self, i): return self.fCP(bv(i, 64))
    def EL(self, i): return self.fEL(bv(i, 64))
    def OL(self, i): return self.fOL(bv(i, 64))
    def CD(self, i): return self.fCD(bv(i, 64))
    def HEX4(self, i): return self.fHEX4(bv(i, 64))
    def OB(self, i, q): return self.fOB(bv(i, 64), bv(q, 64))
    def SE(self, i): return self.fSE(bv(i, 64))
    def DL(self, i): return self.fDL(bv(i, 64))
    def DB(self, i, q): return self.fDB(bv(i, 64), bv(q, 64))
    def VE(self, i): return self.fVE(bv(i, 64))
    def AE(self, i): return self.fAE(bv(i, 64))
    def ELS(self, i): return self.fELS(bv(i, 64))
    def OE(self, i): return self.fOE(bv(i, 64))
    def MEM(self, i): return self.fMEM(bv(i, 64))
    def CNT(self, i): return self.fCNT(bv(i, 64))
    def EP(self, i, k): return self.fEP(bv(i, 64), bv(k, 64))

    def SB(self, i): return self.fSB(bv(i, 64))
    def NUMV(self, i): return self.fNUMV(bv(i, 64))
    def MCNT(self, i): return self.fMCNT(bv(i, 64))
    def MP(self, i, k): return self.fMP(bv(i, 64), bv(k, 64))
    def ELO(self, i): return self.fELO(bv(i, 64))
    def EHI(self, i): return self.fEHI(bv(i, 64))
    def SLO(self, i): return self.fSLO(bv(i, 64))
    def SHI(self, i): return self.fSHI(bv(i, 64))
    def MLO(self, i): return self.fMLO(bv(i, 64))
    def MHI(self, i): return self.fMHI(bv(i, 64))
    def LINE(self, i): return self.fLINE(bv(i, 64))
    def COL(self, i): return self.fCOL(bv(i, 64))

    def inN(self, i):
        return z3.ULE(i, self.N)

    # whitespace
    def ax_WS(self, i):
        return [IMP(self.inN(i), self.WS(i) == z3.If(self.isws(self.t(i)), self.WS(i + 1), i))]

    def lem_WS(self, i):
        w = self.WS(i)
        return [IMP(self.inN(i), z3.And(z3.ULE(i, w), self.inN(w), z3.Not(self.isws(self.t(w)))))]

    # digit run
    def ax_DG(self, i):
        return [IMP(self.inN(i), self.DG(i) == z3.If(self.isdig(self.t(i)), self.DG(i + 1), i))]

    def lem_DG(self, i):
        w = self.DG(i)
        return [IMP(self.inN(i), z3.And(z3.ULE(i, w), self.inN(w), z3.Not(self.isdig(self.t(w)))))]

    # unsigned number: end position or ERR
    def number_parts(self, i):
        c = self.t(i)
        t = self.t
        x = z3.If(c == ord('0'), z3.If(self.isdig(t(i + 1)), B(ERR), i + 1), z3.If(self.isdig(c), self.DG(i + 1), B(ERR)))
        return x

    def frac(self, x):
        t = self.t
        return z3.If(t(x) == ord('.'), z3.If(self.isdig(t(x + 1)), self.DG(x + 2), B(ERR)), x)

    def expo(self, x):
        t = self.t
        sg = z3.Or(t(x + 1) == ord('+'), t(x + 1) == ord('-'))
        y = z3.If(sg, x + 2, x + 1)
        return z3.If(z3.Or(t(x) == ord('e'), t(x) == ord('E')), z3.If(self.isdig(t(y)), self.DG(y + 1), B(ERR)), x)

    def ax_NE(self, i):
        x = self.number_parts(i)
        f = self.frac(x)
        e = self.expo(f)
        return [IMP(self.inN(i), self.NE(i) == z3.If(x == ERR, B(ERR), z3.If(f == ERR, B(ERR), e)))]

    def lem_NE(self, i):
        n = self.NE(i)
        return [IMP(self.inN(i), z3.Or(n == ERR, z3.And(z3.ULT(i, n), self.inN(n), z3.Not(self.isdig(self.t(n))), self.isdig(self.t(i)))))]

    # UTF-8: length of the well-formed character at i, 0 if none (surrogates tolerated)
    def ax_U8(self, i):
        t = self.t
        c, d, e, f = t(i), t(i + 1), t(i + 2), t(i + 3)
        cont = lambda x: (x & 0xC0) == 0x80
        rng = lambda x, a, b: z3.And(z3.UGE(x, a), z3.ULE(x, b))
        two = z3.And(rng(c, 0xC2, 0xDF), cont(d))
        three = z3.And(rng(c, 0xE0, 0xEF), cont(d), cont(e), z3.Or(c != 0xE0, z3.UGE(d, 0xA0)))
        four = z3.And(rng(c, 0xF0, 0xF4), cont(d), cont(e), cont(f), z3.Or(c != 0xF0, z3.UGE(d, 0x90)), z3.Or(c != 0xF4, z3.ULE(d, 0x8F)))
        return [IMP(self.inN(i), self.U8(i) == z3.If(z3.ULT(c, 0x80), B(1), z3.If(two, B(2), z3.If(three, B(3), z3.If(four, B(4), B(0))))))]

    def lem_U8(self, i):
        n = self.U8(i)
        return [IMP(z3.ULT(i, self.N), z3.And(z3.ULE(n, 4), self.inN(i + n)))]

    # code point of the character at i
    def ax_CP(self, i):
        t = lambda k: z3.ZeroExt(56, self.t(i + k))
        n = self.U8(i)
        v = z3.If(n == 1, t(0), z3.If(n == 2, ((t(0) & 0x1F) << 6) | (t(1) & 0x3F),
                                      z3.If(n == 3, ((t(0) & 0x0F) << 12) | ((t(1) & 0x3F) << 6) | (t(2) & 0x3F),
                                            ((t(0) & 0x07) << 18) | ((t(1) & 0x3F) << 12) | ((t(2) & 0x3F) << 6) | (t(3) & 0x3F))))
        return [IMP(self.inN(i), self.CP(i) == v)]

    # four hex digits at i: value or ERR
    def ax_HEX4(self, i):
        t = self.t
        ok = z3.And(self.ishex(t(i)), self.ishex(t(i + 1)), self.ishex(t(i + 2)), self.ishex(t(i + 3)))
        v = (self.hexv(t(i)) << 12) | (self.hexv(t(i + 1)) << 8) | (self.hexv(t(i + 2)) << 4) | self.hexv(t(i + 3))
        return [IMP(self.inN(i), self.HEX4(i) == z3.If(ok, v, B(ERR)))]

    def lem_HEX4(self, i):
        h = self.HEX4(i)
        return [IMP(self.inN(i), z3.Or(h == ERR, z3.And(z3.ULE(h, 0xFFFF), self.inN(i + 4))))]

    # escape after the backslash: text length (0 = invalid), code, output length, output bytes
    def esc(self, i):
        t = self.t
        c = t(i)
        simple = {'"': 0x22, '\\': 0x5C, '/': 0x2F, 'b': 8, 'f': 0x0C, 'n': 0x0A, 'r': 0x0D, 't': 9}
        h = self.HEX4(i + 1)
        hi = z3.And(z3.UGE(h, 0xD800), z3.ULE(h, 0xDBFF))
        l = self.HEX4(i + 7)
        pair = z3.And(hi, t(i + 5) == ord('\\'), t(i + 6) == ord('u'), z3.UGE(l, 0xDC00), z3.ULE(l, 0xDFFF))
        issimple = z3.Or(*[c == ord(k) for k in simple])
        length = z3.If(issimple, B(1), z3.If(c != ord('u'), B(0), z3.If(z3.Or(h == ERR, h == 0), B(0), z3.If(pair, B(11), B(5)))))
        code = z3.If(pair, B(0x10000) + ((h - 0xD800) << 10) + (l - 0xDC00), h)
        for k, v in simple.items():
            code = z3.If(c == ord(k), B(v), code)
        return length, code

    def ax_EL(self, i):
        return [IMP(self.inN(i), self.EL(i) == self.esc(i)[0])]

    def lem_EL(self, i):
        n = self.EL(i)
        return [IMP(self.inN(i), z3.And(z3.ULE(n, 11), self.inN(i + n)))]

    def ax_CD(self, i):
        return [IMP(self.inN(i), self.CD(i) == self.esc(i)[1])]

    def ax_OL(self, i):
        c = self.CD(i)
        return [IMP(self.inN(i), self.OL(i) == utf8len(c))]

    def lem_OL(self, i):
        n = self.OL(i)
        return [IMP(z3.And(self.inN(i), self.EL(i) != 0), z3.And(z3.ULE(1, n), z3.ULE(n, self.EL(i))))]

    def ax_OB(self, i, q):
        return [IMP(self.inN(i), self.OB(i, q) == utf8byte(self.CD(i), q))]

    def lem_OB(self, i, q):
        return [IMP(z3.And(self.inN(i), self.EL(i) != 0, z3.ULT(q, self.OL(i))), self.OB(i, q) != 0)]

    # string body from i: position of the closing quote, or ERR
    def str_step(self, i, fin, bad, nxt):
        c = self.t(i)
        u, e = self.U8(i), self.EL(i + 1)
        return z3.If(z3.Or(c == 0), bad, z3.If(c == 0x22, fin, z3.If(z3.ULT(c, 0x20), bad, z3.If(
            c == 0x5C, z3.If(e == 0, bad, nxt(i + 1 + e, True)), z3.If(u == 0, bad, nxt(i + u, False))))))

    def ax_SE(self, i):
        return [IMP(self.inN(i), self.SE(i) == self.str_step(i, i, B(ERR), lambda j, esc: self.SE(j)))]

    def lem_SE(self, i):
        s = self.SE(i)
        return [IMP(self.inN(i), z3.Or(s == ERR, z3.And(z3.ULE(i, s), z3.ULT(s, self.N), self.t(s) == 0x22)))]

    def ax_DL(self, i):
        return [IMP(z3.And(self.inN(i), self.SE(i) != ERR), self.DL(i) == self.str_step(
            i, B(0), B(0), lambda j, esc: self.DL(j) + (self.OL(i + 1) if esc else self.U8(i))))]

    def lem_DL(self, i):
        return [IMP(z3.And(self.inN(i), self.SE(i) != ERR), z3.ULE(self.DL(i), self.SE(i) - i))]

    def ax_DB(self, i, q):
        def nxt(j, esc):
            if esc:
                n = self.OL(i + 1)
                return z3.If(z3.ULT(q, n), self.OB(i + 1, q), self.DB(j, q - n))
            n = self.U8(i)
            return z3.If(z3.ULT(q, n), self.t(i + q), self.DB(j, q - n))
        Z = z3.BitVecVal(0, 8)
        return [IMP(z3.And(self.inN(i), self.SE(i) != ERR), self.DB(i, q) == self.str_step(i, Z, Z, nxt))]

    def lem_DB(self, i, q):
        return [IMP(z3.And(self.inN(i), self.SE(i) != ERR, z3.ULT(q, self.DL(i))), self.DB(i, q) != 0)]

    # values
    def lit(self, i, s):
        return z3.And(*[self.t(i + k if k else i) == ord(c) for k, c in enumerate(s)])

    def ax_VE(self, i):
        c = self.t(i)
        se = self.SE(i + 1)
        r = z3.If(c == ord('"'), z3.If(se == ERR, B(ERR), se + 1),
                  z3.If(c == ord('-'), self.NE(i + 1),
                        z3.If(self.isdig(c), self.NE(i),
                              z3.If(self.lit(i, "true"), i + 4, z3.If(self.lit(i, "false"), i + 5, z3.If(self.lit(i, "null"), i + 4,
                                    z3.If(c == ord('['), self.AE(i), z3.If(c == ord('{'), self.OE(i), B(ERR)))))))))
        return [IMP(self.inN(i), self.VE(i) == r)]

    def lem_VE(self, i):
        v = self.VE(i)
        return [IMP(self.inN(i), z3.Or(v == ERR, z3.And(z3.ULT(i, v), self.inN(v)))),
                IMP(z3.And(self.inN(i), self.novalue(i)), v == ERR)]

    def novalue(self, i):
        """punctuation no value starts with"""
        c = self.t(i)
        return z3.Or(c == ord(']'), c == ord('}'), c == ord(','), c == ord(':'), c == 0)

    def lem_ELO(self, i): return [IMP(z3.And(self.inN(i), self.novalue(i)), self.ELO(i) == i)]
    def lem_EHI(self, i): return [IMP(z3.And(self.inN(i), self.novalue(i)), self.EHI(i) == i)]

    def ax_AE(self, i):
        w = self.WS(i + 1)
        return [IMP(z3.ULT(i, self.N), self.AE(i) == z3.If(self.t(w) == ord(']'), w + 1, self.ELS(w)))]

    def lem_AE(self, i):
        v = self.AE(i)
        return [IMP(z3.ULT(i, self.N), z3.Or(v == ERR, z3.And(z3.ULT(i, v), self.inN(v))))]

    def ax_ELS(self, w):
        v = self.VE(w)
        x = self.WS(v)
        c = self.t(x)
        return [IMP(self.inN(w), self.ELS(w) == z3.If(v == ERR, B(ERR), z3.If(
            c == ord(','), self.ELS(self.WS(x + 1)), z3.If(c == ord(']'), x + 1, B(ERR)))))]

    def lem_ELS(self, w):
        v = self.ELS(w)
        return [IMP(self.inN(w), z3.Or(v == ERR, z3.And(z3.ULT(w, v), self.inN(v))))]

    # number of elements from w on, position of the k-th element
    def ax_CNT(self, w):
        v = self.VE(w)
        x = self.WS(v)
        return [IMP(z3.And(self.inN(w), self.ELS(w) != ERR), self.CNT(w) == z3.If(
            self.t(x) == ord(','), self.CNT(self.WS(x + 1)) + 1, B(1)))]

    def lem_CNT(self, w):
        return [IMP(z3.And(self.inN(w), self.ELS(w) != ERR), z3.And(z3.ULE(1, self.CNT(w)), z3.ULE(self.CNT(w), self.ELS(w) - w)))]

    def ax_EP(self, w, k):
        v = self.VE(w)
        x = self.WS(v)
        return [IMP(z3.And(self.inN(w), self.ELS(w) != ERR), self.EP(w, k) == z3.If(
            k == 0, w, z3.If(self.t(x) == ord(','), self.EP(self.WS(x + 1), k - 1), B(ERR))))]

    def ax_OE(self, i):
        w = self.WS(i + 1)
        return [IMP(z3.ULT(i, self.N), self.OE(i) == z3.If(self.t(w) == ord('}'), w + 1, self.MEM(w)))]

    lem_OE = lambda self, i: [IMP(z3.ULT(i, self.N), z3.Or(self.OE(i) == ERR, z3.And(z3.ULT(i, self.OE(i)), self.inN(self.OE(i)))))]

    def mem_parts(self, w):
        s = self.SE(w + 1)
        c = self.WS(s + 1)
        u = self.WS(c + 1)
        v = self.VE(u)
        x = self.WS(v)
        return s, c, u, v, x

    def ax_MEM(self, w):
        s, c, u, v, x = self.mem_parts(w)
        t = self.t
        E = B(ERR)
        return [IMP(self.inN(w), self.MEM(w) == z3.If(t(w) != 0x22, E, z3.If(s == ERR, E, z3.If(t(c) != ord(':'), E, z3.If(
            v == ERR, E, z3.If(t(x) == ord(','), self.MEM(self.WS(x + 1)), z3.If(t(x) == ord('}'), x + 1, E)))))))]

    def lem_MEM(self, w):
        v = self.MEM(w)
        return [IMP(self.inN(w), z3.Or(v == ERR, z3.And(z3.ULT(w, v), self.inN(v))))]

    # number of members from w on, position of the k-th member's name
    def ax_MCNT(self, w):
        x = self.mem_parts(w)[4]
        return [IMP(z3.And(self.inN(w), self.MEM(w) != ERR), self.MCNT(w) == z3.If(
            self.t(x) == ord(','), self.MCNT(self.WS(x + 1)) + 1, B(1)))]

    def lem_MCNT(self, w):
        return [IMP(z3.And(self.inN(w), self.MEM(w) != ERR), z3.And(z3.ULE(1, self.MCNT(w)), z3.ULE(self.MCNT(w), self.MEM(w) - w)))]

    def ax_MP(self, w, k):
        x = self.mem_parts(w)[4]
        return [IMP(z3.And(self.inN(w), self.MEM(w) != ERR), self.MP(w, k) == z3.If(
            k == 0, w, z3.If(self.t(x) == ord(','), self.MP(self.WS(x + 1), k - 1), B(ERR))))]

    def VP(self, m):
        """position of the value of the member whose name starts at m"""
        return self.mem_parts(m)[2]

    # end of the longest prefix of a string body that can be continued
    def ax_SB(self, i):
        return [IMP(self.inN(i), self.SB(i) == self.str_step(i, i, i, lambda j, esc: self.SB(j)))]

    def lem_SB(self, i):
        return [IMP(self.inN(i), z3.And(z3.ULE(i, self.SB(i)), self.inN(self.SB(i))))]

    # where a value that cannot be accepted goes wrong: start of the token, first offending character
    def err_value(self, i, lo):
        c = self.t(i)
        S, M = (self.SLO, self.MLO) if lo else (self.SHI, self.MHI)
        tok = i if lo else z3.If(c == ord('"'), self.SB(i + 1), z3.If(c == ord('-'), i + 1, i))
        return z3.If(c == ord('['), S(self.WS(i + 1)), z3.If(c == ord('{'), M(self.WS(i + 1)), tok))

    def err_elements(self, w, lo):
        E, S = (self.ELO, self.SLO) if lo else (self.EHI, self.SHI)
        v = self.VE(w)
        x = self.WS(v)
        return z3.If(v == ERR, E(w), z3.If(self.t(x) == ord(','), S(self.WS(x + 1)), x))

    def err_members(self, w, lo):
        E, M = (self.ELO, self.MLO) if lo else (self.EHI, self.MHI)
        s, c, u, v, x = self.mem_parts(w)
        t = self.t
        return z3.If(t(w) != 0x22, w, z3.If(s == ERR, w if lo else self.SB(w + 1), z3.If(t(c) != ord(':'), c, z3.If(
            v == ERR, E(u), z3.If(t(x) == ord(','), M(self.WS(x + 1)), x)))))

    def ax_ELO(self, i): return [IMP(self.inN(i), self.ELO(i) == self.err_value(i, True))]
    def ax_EHI(self, i): return [IMP(self.inN(i), self.EHI(i) == self.err_value(i, False))]
    def ax_SLO(self, i): return [IMP(self.inN(i), self.SLO(i) == self.err_elements(i, True))]
    def ax_SHI(self, i): return [IMP(self.inN(i), self.SHI(i) == self.err_elements(i, False))]
    def ax_MLO(self, i): return [IMP(self.inN(i), self.MLO(i) == self.err_members(i, True))]
    def ax_MHI(self, i): return [IMP(self.inN(i), self.MHI(i) == self.err_members(i, False))]

    # newlines before i, characters between the last of them (or the start) and i
    def ax_LINE(self, i):
        return [IMP(self.inN(i), self.LINE(i) == z3.If(i == 0, B(0), self.LINE(i - 1) + z3.If(self.t(i - 1) == 10, B(1), B(0))))]

    def ax_COL(self, i):
        return [IMP(self.inN(i), self.COL(i) == z3.If(i == 0, B(0), z3.If(self.t(i - 1) == 10, B(0), self.COL(i - 1) + 1)))]

    # ------------------------------------------------ lemma proofs
    MUTUAL = ("VE", "AE", "ELS", "OE", "MEM", "CNT", "MCNT")
    LEMMAS = ("WS", "DG", "NE", "U8", "HEX4", "EL", "OL", "OB", "SE", "DL", "DB", "SB", "VE", "AE", "ELS", "OE", "MEM", "CNT", "MCNT", "ELO", "EHI")

    def prove_lemmas(self, timeout=60000, report=None):
        """each lemma at position i from the definitions, assuming all lemmas at
        positions > i (and, for non-recursive layers, lemmas proved earlier at i)"""
        res = []
        i = z3.BitVec("lem_i", 64)
        proved = []
        for L in self.LEMMAS:
            # lower layers of the same position may be used once proved
            def use(short, a, L=L):
                return None
            goal = self.lemma_goal(L, i)
            ok = self._prove_one(L, i, goal, proved, timeout)
            res.append((L, ok))
            if report:
                report(L, ok)
            proved.append(L)
        return res

    def lemma_goal(self, L, i):
        return getattr(self, "lem_" + L)(*([i, z3.BitVec("lem_q", 64)] if L in ("OB", "DB") else [i]))

    def _prove_one(self, L, i, goal, proved, timeout):
        s = z3.Solver()
        s.set("timeout", timeout)
        for b in self.base:
            s.add(b)
        g = z3.And(*goal)
        s.add(z3.Not(g))
        # unfold definitions; lemmas are added guarded by position > i, or when of an already proved layer
        save_on = self.lemma_on
        self.lemma_on = False
        self.spec.cache.clear()
        try:
            cur = self.spec.apps(g)
            done = set()
            for d in range(3):
                nxt = []
                for t in cur:
                    if t.get_id() in done:
                        continue
                    done.add(t.get_id())
                    nm = t.decl().name()
                    short = nm[:len(nm) - len(self.tag)] if self.tag else nm
                    fs = list(self.spec.ax[nm](*t.children()))
                    if short in self.LEMMAS:
                        lf = getattr(self, "lem_" + short)(*t.children())
                        if short in proved and short not in self.MUTUAL:
                            fs += lf
                        elif short in proved:
                            fs += [IMP(z3.UGE(t.arg(0), i), x) for x in lf]
                        else:
                            fs += [IMP(z3.UGT(t.arg(0), i), x) for x in lf]
                    for f in fs:
                        f = b2(simp(f))
                        s.add(f)
                        nxt += self.spec.apps(f)
                cur = nxt
        finally:
            self.lemma_on = save_on
            self.spec.cache.clear()
        return str(s.check()) == "unsat"


def utf8len(c):
    return z3.If(z3.ULT(c, 0x80), B(1), z3.If(z3.ULT(c, 0x800), B(2), z3.If(z3.ULT(c, 0x10000), B(3), B(4))))


def utf8byte(c, q):
    """byte q of the UTF-8 encoding of c (64-bit terms)"""
    b = lambda x: z3.Extract(7, 0, x)
    S = z3.LShR
    cont = lambda sh: b(0x80 | (S(c, sh) & 0x3F))
    n = utf8len(c)
    one = b(c)
    two = z3.If(q == 0, b(0xC0 | S(c, 6)), cont(0))
    three = z3.If(q == 0, b(0xE0 | S(c, 12)), z3.If(q == 1, cont(6), cont(0)))
    four = z3.If(q == 0, b(0xF0 | S(c, 18)), z3.If(q == 1, cont(12), z3.If(q == 2, cont(6), cont(0))))
    return z3.If(n == 1, one, z3.If(n == 2, two, z3.If(n == 3, three, four)))


if __name__ == "__main__":
    import time
    t = time.time()
    X = Text(Spec(2))
    X.prove_lemmas(report=lambda n, ok: print(n, ok, "%.1f" % (time.time() - t), flush=True))
