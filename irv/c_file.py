"""Contracts of the file layer (C10) and of the two document functions that use it.

The operating system is a contract: open / close / fstat / read / write may fail
or split a transfer in any way.  Ghost state: the open descriptors, how many bytes
of the file were delivered ('pos') or accepted ('outn'), and whether any transfer
failed ('io').  FILE is the content of the file; OUT are the bytes accepted."""
import z3
from engine import *
from base import *
from ir import Unsupported, INT, PTR
from c_value import ParseFn, opaque_value, MAXTEXT, Virt, one
from jspec import Text
from c_string import small

F = "C4::File::"
FILE = z3.Function("FILE", z3.BitVecSort(64), z3.BitVecSort(8))
FSIZE = z3.ZeroExt(1, z3.BitVec("FSIZE", 63))
# one transfer moves at most this many bytes (Linux: read(2), write(2)), so the count fits the int it is kept in
XFER = 0x7ffff000
OKAY, OPENFAILED, NOTOPEN, WRITEERROR, READERROR = range(5)


def osinit(eng, st):
    st.ghost.update(pos=B(0), outn=B(0), io=False, fds=())
    o = st.new(1 << 62, "written", "elems")
    o.bytes = Var("OUT0", 8)
    eng.outblk = o.id


def B(x):
    return z3.BitVecVal(x, 64)


def holds(eng, st, fd, mode, what):
    ok = OR(*[EQ(fd, f, 32) for f, m in st.ghost["fds"] if mode is None or m == mode] + [False])
    eng.oblige(st, ok, "%s: the descriptor is open%s" % (what, {"r": " for reading", "w": " for writing", None: ""}[mode]))


def active(eng):
    return hasattr(eng, "outblk")


def os_open(eng, st, args, i):
    if not active(eng):
        return None
    fl = args[1]
    if not isc(fl):
        raise Unsupported("open flags")
    acc = fl & 3
    s = st.copy()
    s.ghost["opened"] = "failed"
    s.trace.append("open-fails")
    res = [(s, "ret", mask(32))]
    fd = fresh("fd", 32)
    st.assume(SLE(0, fd, 32))
    for f, m in st.ghost["fds"]:
        st.assume(NOT(EQ(f, fd, 32)))
    st.ghost["opened"] = "ok"
    st.ghost["flags"] = fl
    st.ghost["fds"] = st.ghost["fds"] + ((fd, "r" if acc == 0 else "w"),)
    res.append((st, "ret", fd))
    if acc != 0:
        eng.oblige(st, AND(fl & 0o100 != 0, fl & 0o1000 != 0), "open: an output file is created or emptied")
    return res


def os_close(eng, st, args, i):
    if not active(eng):
        return None
    holds(eng, st, args[0], None, "close")
    st.ghost["fds"] = tuple((f, m) for f, m in st.ghost["fds"] if simp(EQ(f, args[0], 32)) is not True)
    st.ghost["closed"] = st.ghost.get("closed", 0) + 1
    s = st.copy()
    return [(st, "ret", 0), (s, "ret", mask(32))] if getattr(eng, "close_fails", False) else [(st, "ret", 0)]


def os_fstat(eng, st, args, i):
    if not active(eng):
        return None
    holds(eng, st, args[0], None, "fstat")
    s = st.copy()
    s.ghost["io"] = True
    s.trace.append("fstat-fails")
    eng.store(st, INT(64), Ptr(args[1].blk, ADD(args[1].off, 48)), FSIZE, "file size")
    return [(st, "ret", 0), (s, "ret", mask(32))]


def transfer_fails(eng, st):
    s = st.copy()
    s.ghost["io"] = True
    s.trace.append("transfer-fails")
    s2 = s.copy()
    return [(s, "ret", 0), (s2, "ret", mask(64))]


def os_read(eng, st, args, i):
    if not active(eng):
        return None
    fd, p, n = args
    holds(eng, st, fd, "r", "read")
    p = eng.resolve(st, p, "read")
    b = eng.access(st, p, 0, True, "read")
    if b is None:
        return []
    lim = b.size if b.limit is None else b.limit
    eng.oblige(st, AND(ULE(p.off, lim), ULE(n, SUB(lim, p.off))), "read: the bytes fit " + b.name)
    res = transfer_fails(eng, st)
    r = z3.ZeroExt(33, fresh("r", 31))
    st.assume(AND(ULT(0, r), ULE(r, n), ULE(r, XFER)))
    nb = st.w(b.id)
    old = nb.getbytes()
    pos, off = st.ghost["pos"], p.off
    nb.bytes = Lam(lambda k: ITE(ULT(SUB(k, off), r), FILE(bv(ADD(pos, SUB(k, off)), 64)), old.rd(k), 8), 8)
    st.ghost["pos"] = ADD(pos, r)
    return res + [(st, "ret", r)]


def os_write(eng, st, args, i):
    if not active(eng):
        return None
    fd, p, n = args
    holds(eng, st, fd, "w", "write")
    p = eng.resolve(st, p, "write")
    b = eng.access(st, p, 0, False, "write")
    if b is None:
        return []
    lim = b.size if b.limit is None else b.limit
    eng.oblige(st, AND(ULE(p.off, lim), ULE(n, SUB(lim, p.off))), "write: the bytes are in " + b.name)
    res = transfer_fails(eng, st)
    r = z3.ZeroExt(33, fresh("r", 31))
    st.assume(AND(ULT(0, r), ULE(r, n), ULE(r, XFER)))
    src = lambda k, b=st.blocks[b.id]: eng.rdbyte(st, b, k)
    nb = st.w(eng.outblk)
    old = nb.bytes
    on, off = st.ghost["outn"], p.off
    nb.bytes = Lam(lambda k: ITE(ULT(SUB(k, on), r), src(ADD(off, SUB(k, on))), old.rd(k), 8), 8)
    st.ghost["outn"] = ADD(on, r)
    return res + [(st, "ret", r)]


EXTERN.update(open=os_open, open64=os_open, close=os_close, fstat=os_fstat, fstat64=os_fstat, read=os_read, write=os_write)


# ------------------------------------------------ the File object, as its own functions make it

def mkfile(eng, st, mode):
    """a File made by the real constructor and, unless closed, the real OpenFile; returns (state, pointer, descriptor)"""
    b = st.new(64, "file")
    f = eng.mod.find(F + "File()")
    if f is None:
        raise Unsupported("no constructor of File")
    st, _ = one(eng.invoke(st, f.name, [Ptr(b.id, 0)]), "File()")
    if mode == "closed":
        return st, Ptr(b.id, 0), None
    f = eng.mod.find(F + "OpenFile(char const*, C4::FileOpenMode)")
    if f is None:
        raise Unsupported("no OpenFile")
    nm = st.new(1 << 20, "name", "elems", ro=True)
    outs = [o for o in eng.invoke(st, f.name, [Ptr(b.id, 0), Ptr(nm.id, 0), 0 if mode == "read" else 1]) if o[0].ghost["opened"] == "ok"]
    st, _ = one(outs, "OpenFile")
    st.trace.clear()
    return st, Ptr(b.id, 0), st.ghost["fds"][0][0]


def take(st, s):
    """make st the state s"""
    for k in type(s).__slots__ if hasattr(type(s), "__slots__") else vars(s):
        setattr(st, k, getattr(s, k))


def failed_flag(eng, st, f):
    g = eng.mod.find(F + "HasWriteFailed() const")
    if g is None:
        raise Unsupported("no HasWriteFailed")
    _, v = one(eng.invoke(st, g.name, [f]), "HasWriteFailed")
    return v


class FileFn(Contract):
    optional = False
    modes = ("closed", "read", "write")

    def cases(self):
        return list(self.modes)

    def config(self, eng, case):
        eng.opts["unroll"] = 0

    def mk(self, eng, st, case):
        osinit(eng, st)
        s, f, fd = mkfile(eng, st, case)
        take(st, s)
        self.f, self.fd = f, fd
        st.assume(True)
        eng.measure_required = True
        return f

    def fds(self, eng, st, want, what):
        got = st.ghost["fds"]
        eng.oblige(st, len(got) == len(want) and AND(*[EQ(a[0], b[0], 32) for a, b in zip(got, want)] + [True]), "own: " + what)


def deltas(loop):
    """terms that may say how far a transfer got: (name, V -> 64-bit progress)"""
    out = []
    for s in loop.slots.values():
        if s.kind == "ptr" and isinstance(s.v0.blk, int):
            out.append((s.name, lambda V, s=s: SUB(V.raw(s.key).off, s.v0.off)))
        elif s.kind == "int" and s.key[0] != "ghost" and s.w in (32, 64):
            out.append((s.name, lambda V, s=s: SUB(ZEXT(V.raw(s.key), s.w, 64), ZEXT(s.v0, s.w, 64))))
            out.append(("-" + s.name, lambda V, s=s: SUB(ZEXT(s.v0, s.w, 64), ZEXT(V.raw(s.key), s.w, 64))))
    return out


def transfer_candidates(ghost, size):
    def gen(loop, flags):
        key = ("ghost", ghost)
        if key not in loop.slots:
            return []
        z = loop.slots[key].v0
        prog = lambda V: SUB(V.raw(key), z)
        out = [("%s within the size" % ghost, lambda V: ULE(prog(V), size))]
        for n, d in deltas(loop):
            out.append(("%s is the progress of %s" % (n, ghost), lambda V, d=d: EQ(d(V), prog(V))))
        return out
    return gen


class ReadFile(FileFn):
    names = (F + "ReadFile(char*, unsigned long long)", F + "ReadFile(char*, unsigned long)")

    def setup(self, eng, st, case):
        f = self.mk(eng, st, case)
        self.size = small("size", 33)
        cap, o = small("cap", 34), small("o", 34)
        b = st.new(cap, "buffer", "elems")
        b.bytes = Var("buffer", 8)
        st.assume(AND(ULE(cap, 1 << 40), ULE(o, cap), ULE(self.size, SUB(cap, o))))
        self.b, self.o = b.id, o
        st.ghost["pos"] = self.pos0 = small("pos0", 40)
        st.assume(ULE(self.pos0, 1 << 40))
        eng.candgen.append(transfer_candidates("pos", self.size))

        def form(loop, key, f0):
            gk = ("ghost", "pos")
            if key != ("bytes", self.b) or gk not in loop.slots:
                return []
            z = loop.slots[gk].v0
            return [("file", lambda V: (lambda d: Lam(lambda k: ITE(ULT(SUB(k, o), d), FILE(bv(ADD(z, SUB(k, o)), 64)), f0.rd(k), 8), 8))(SUB(V.raw(gk), z)))]
        eng.closedforms.append(form)
        return [f, Ptr(b.id, o), self.size]

    def frame(self, case):
        return {self.b: ("bytes",), self.f.blk: "*"}

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        self.fds(eng, st, st0.ghost["fds"], "the descriptor stays open")
        if case == "closed":
            eng.oblige(st, EQ(v, NOTOPEN, 32), "post: kFileNotOpen without an open file")
            return
        k = fresh("k", 64)
        ok = EQ(v, OKAY, 32)
        n = self.size
        if case == "read":
            eng.oblige(st, IMP(ok, AND(EQ(st.ghost["pos"], ADD(self.pos0, n)), IMP(ULT(k, n), EQ(
                eng.rdbyte(st, st.blocks[self.b], ADD(self.o, k)), FILE(self.pos0 + k), 8)))), "post: success means every byte was delivered, in order")
            eng.oblige(st, OR(ok, st.ghost["io"], ULT(0xffff - 1, n)), "post: failure only after a failed or empty transfer, or for a file too large")
        q = fresh("q", 64)
        eng.oblige(st, IMP(NOT(ULT(SUB(q, self.o), n)), EQ(st.blocks[self.b].getbytes().rd(q), st0.blocks[self.b].getbytes().rd(q), 8)), "frame: only the requested bytes change")

    modes = ("closed", "read")

    def call(self, eng, st, args, pretty):
        if not active(eng):
            return NotImplemented
        f, p, n = args
        if not isinstance(f.blk, int) or not isinstance(p.blk, int) or p.blk == 0:
            return NotImplemented
        if not st.ghost["fds"]:
            return [(st, "ret", NOTOPEN)]
        eng.oblige(st, any(m == "r" for _, m in st.ghost["fds"]), "pre of ReadFile: opened for reading")
        b = eng.access(st, p, 0, True, "ReadFile")
        lim = b.size if b.limit is None else b.limit
        eng.oblige(st, AND(ULE(p.off, lim), ULE(n, SUB(lim, p.off))), "pre of ReadFile: the bytes fit " + b.name)
        old, off, pos = st.blocks[b.id].getbytes() if st.blocks[b.id].bytes is not None else st.w(b.id).getbytes(), p.off, st.ghost["pos"]
        s = st.copy()
        g = Var("partial", 8)
        s.w(b.id).bytes = Lam(lambda k: ITE(ULT(SUB(k, off), n), g.rd(k), old.rd(k), 8), 8)
        s.ghost["io"] = True
        s.ghost["pos"] = fresh("pos", 64)
        v = fresh("st", 32)
        s.assume(AND(NOT(EQ(v, OKAY, 32)), ULT(v, 5, 32)))
        s.trace.append("read-fails")
        st.w(b.id).bytes = Lam(lambda k: ITE(ULT(SUB(k, off), n), FILE(bv(ADD(pos, SUB(k, off)), 64)), old.rd(k), 8), 8)
        st.ghost["pos"] = ADD(pos, n)
        return [(s, "ret", v), (st, "ret", OKAY)]


class WriteFile(FileFn):
    names = (F + "WriteFile(char const*, unsigned long long)", F + "WriteFile(char const*, unsigned long)")

    def setup(self, eng, st, case):
        f = self.mk(eng, st, case)
        self.size = small("size", 33)
        cap, o = small("cap", 34), small("o", 34)
        b = st.new(cap, "buffer", "elems", ro=True)
        b.bytes = Var("buffer", 8)
        st.assume(AND(ULE(cap, 1 << 40), ULE(o, cap), ULE(self.size, SUB(cap, o))))
        self.b, self.o = b.id, o
        self.out = eng.outblk
        st.ghost["outn"] = self.on = small("outn0", 40)
        st.assume(ULE(self.on, 1 << 40))
        eng.candgen.append(transfer_candidates("outn", self.size))

        def form(loop, key, f0):
            gk = ("ghost", "outn")
            if key != ("bytes", eng.outblk) or gk not in loop.slots:
                return []
            z = loop.slots[gk].v0
            src = b.bytes
            return [("written", lambda V: (lambda d: Lam(lambda k: ITE(ULT(SUB(k, z), d), src.rd(ADD(o, SUB(k, z))), f0.rd(k), 8), 8))(SUB(V.raw(gk), z)))]
        eng.closedforms.append(form)
        return [f, Ptr(b.id, o), self.size]

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        self.fds(eng, st, st0.ghost["fds"], "the descriptor stays open")
        on1 = st.ghost["outn"]
        if case != "write":
            eng.oblige(st, NOT(EQ(v, OKAY, 32)), "post: nothing is written without a file open for writing")
            eng.oblige(st, EQ(on1, self.on), "post: no byte is written")
            return
        k = fresh("k", 64)
        ok = EQ(v, OKAY, 32)
        n = self.size
        out = st.blocks[eng.outblk].bytes
        wf = failed_flag(eng, st, self.f)
        eng.oblige(st, IMP(ok, AND(EQ(on1, ADD(self.on, n)), IMP(ULT(k, n), EQ(out.rd(ADD(self.on, k)), st.blocks[self.b].bytes.rd(ADD(self.o, k)), 8)))),
                   "post: success means every byte was written, in order")
        eng.oblige(st, IMP(ULT(k, self.on), EQ(out.rd(k), st0.blocks[eng.outblk].bytes.rd(k), 8)), "post: what was written before stays")
        eng.oblige(st, EQ(ok, NOT(st.ghost["io"])), "post: success exactly when no transfer failed")
        eng.oblige(st, EQ(wf, st.ghost["io"]), "post: HasWriteFailed reports every failed transfer")

    def frame(self, case):
        return {self.f.blk: "*", self.b: (), self.out: ("bytes",)}

    def call(self, eng, st, args, pretty):
        w = getattr(eng, "writer", None)
        return w.write(eng, st, args) if w else NotImplemented


class WriteAgain(WriteFile):
    title = F + "WriteFile (after a failed transfer)"
    modes = ("write",)

    def setup(self, eng, st, case):
        # the flag as the first failing transfer leaves it
        f = self.mk(eng, st, case)
        b = st.new(1, "first", "elems", ro=True)
        b.bytes = Var("first", 8)
        g = self.fn()
        outs = [o for o in eng.invoke(st, g.name, [f, Ptr(b.id, 0), 1]) if o[0].ghost["io"] is True]
        s, _ = one(outs[:1], "failing WriteFile")
        take(st, s)
        st.ghost["io"] = False
        return WriteFile.setup2(self, eng, st, f) if hasattr(WriteFile, "setup2") else self.rest(eng, st, f)

    def rest(self, eng, st, f):
        keep = self.mk
        self.mk = lambda *a: f
        try:
            return WriteFile.setup(self, eng, st, "write")
        finally:
            self.mk = keep

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        eng.oblige(st, EQ(failed_flag(eng, st, self.f), True), "post: a failed transfer stays reported")


class OpenFile(FileFn):
    names = (F + "OpenFile(char const*, C4::FileOpenMode)",)

    def cases(self):
        return ["%s, then %s" % (a, b) for a in ("closed", "read", "write") for b in ("read", "write")]

    def setup(self, eng, st, case):
        a, b = case.split(", then ")
        f = self.mk(eng, st, a)
        nm = st.new(1 << 20, "name", "elems", ro=True)
        st.ghost["closed"] = 0
        return [f, Ptr(nm.id, 0), 0 if b == "read" else 1]

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        a, b = case.split(", then ")
        ok = st.ghost.get("opened") == "ok"
        eng.oblige(st, EQ(v, OKAY if ok else OPENFAILED, 32), "post: the status says whether the file could be opened")
        eng.oblige(st, EQ(st.ghost["closed"], 0 if a == "closed" else 1), "own: a file that was open is closed once")
        n = len(st.ghost["fds"])
        eng.oblige(st, n == (1 if ok else 0), "own: exactly the new descriptor is open")
        if ok and n == 1:
            eng.oblige(st, st.ghost["fds"][0][1] == ("r" if b == "read" else "w"), "post: opened for the requested use")
            # what the object holds is that descriptor: closing it closes it
            s = st.copy()
            g = eng.mod.find(F + "CloseFile()")
            s, _ = one(eng.invoke(s, g.name, [self.f]), "CloseFile")
            eng.oblige(s, len(s.ghost["fds"]) == 0, "own: the object holds the new descriptor")
        else:
            s = st.copy()
            g = eng.mod.find(F + "CloseFile()")
            c = s.ghost["closed"]
            s, _ = one(eng.invoke(s, g.name, [self.f]), "CloseFile")
            eng.oblige(s, s.ghost["closed"] == c, "own: the object holds no descriptor")

    def call(self, eng, st, args, pretty):
        return NotImplemented


class CloseFile(FileFn):
    names = (F + "CloseFile()",)

    def setup(self, eng, st, case):
        f = self.mk(eng, st, case)
        st.ghost["closed"] = 0
        return [f]

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        eng.oblige(st, EQ(st.ghost["closed"], 0 if case == "closed" else 1), "own: an open descriptor is closed once, a closed one never")
        eng.oblige(st, len(st.ghost["fds"]) == 0, "own: no descriptor stays open")
        if self.again:
            s = st.copy()
            s, _ = one(eng.invoke(s, self.fn().name, [self.f]), "second CloseFile")
            eng.oblige(s, s.ghost["closed"] == st.ghost["closed"], "own: closing again closes nothing")

    again = True

    def call(self, eng, st, args, pretty):
        return NotImplemented


class FileDtor(CloseFile):
    names = (F + "~File()",)
    again = False


class GetFileSize(FileFn):
    names = (F + "GetFileSize()",)
    modes = ("closed", "read")

    def setup(self, eng, st, case):
        return [self.mk(eng, st, case)]

    def post(self, eng, case, st0, st, kind, v, args):
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception")
            return
        good = case != "closed" and st.ghost["io"] is False
        eng.oblige(st, EQ(v, FSIZE if good else 0), "post: the size of the file, zero when there is none to ask for")
        self.fds(eng, st, st0.ghost["fds"], "the descriptor stays open")

    def call(self, eng, st, args, pretty):
        return NotImplemented


# ------------------------------------------------ documents

class ParseFile(Contract):
    names = ("C4::Json::StructuredData::Parse(char const*)",)

    def setup(self, eng, st, case):
        osinit(eng, st)
        eng.parse_stub = self
        d = st.new(8, "document")
        d.cells[0] = (8, NULL)
        nm = st.new(1 << 20, "name", "elems", ro=True)
        self.q = z3.BitVec("Q!file", 64)
        self.d = d.id
        return [Ptr(d.id, 0), Ptr(nm.id, 0)]

    def parsed(self, eng, st, args):
        """the call of Parse( array ): what it is given"""
        a = args[1]
        eng.oblige(st, AND(ptreq(args[0], Ptr(self.d, 0))), "pre of Parse: the same document")
        n = eng.load(st, INT(32), a, "element count")
        p = None
        b = st.blocks[a.blk]
        for off, (sz, v) in b.cells.items():
            if isinstance(v, Ptr) and off >= a.off:
                p = v
                break
        if p is None or not isinstance(p.blk, int) or p.blk == 0:
            raise Unsupported("array argument")
        if "fstat-fails" in st.trace:
            # without a size there is no text: the parser refuses the empty buffer
            eng.oblige(st, EQ(n, 1, 32), "post: no text when the size of the file is not known")
            st.ghost["parsed"] = (fresh("res", 64), fresh("col", 32))
            return [(st, "ret", Agg(list(st.ghost["parsed"])))]
        eng.oblige(st, AND(EQ(SEXT(n, 32, 64), FSIZE + 1), ULE(FSIZE, 0xffff - 1)), "post: the text has the size of the file and a terminator")
        tb = eng.access(st, p, 1, False, "text")
        q = self.q
        eng.oblige(st, IMP(ULT(q, FSIZE), EQ(eng.rdbyte(st, tb, ADD(p.off, q)), FILE(q), 8)), "post: the text is exactly the content of the file")
        eng.oblige(st, EQ(eng.rdbyte(st, tb, ADD(p.off, FSIZE)), 0, 8), "post: the text is terminated")
        lo, hi = fresh("res", 64), fresh("col", 32)
        s = st
        s.ghost["parsed"] = (lo, hi)
        return [(s, "ret", Agg([lo, hi]))]

    def post(self, eng, case, st0, st, kind, v, args):
        K = self.W.K
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception leaves Parse")
            return
        eng.oblige(st, len(st.ghost["fds"]) == 0, "own: the descriptor is closed exactly once")
        leak_check(eng, st0, st, [self.d])
        lo, col = v.v
        pr = st.ghost.get("parsed")
        if pr is not None:
            eng.oblige(st, AND(EQ(lo, pr[0]), EQ(col, pr[1], 32)), "post: the result of parsing the content")
            eng.oblige(st, "read-fails" not in st.trace, "post: parsed only when every byte was delivered")
            return
        status, line = simp(z3.Extract(31, 0, bv(lo, 64))), simp(z3.Extract(63, 32, bv(lo, 64)))
        eng.oblige(st, AND(EQ(line, 0, 32), EQ(col, 0, 32)), "post: no position without a text")
        if st.ghost.get("opened") == "failed":
            want = EQ(status, K["KFileOpenError"], 32)
            name = "KFileOpenError when the file cannot be opened"
        elif st.ghost["oom"]:
            want = EQ(status, K["kException"], 32)
            name = "kException when an allocation fails"
        elif "read-fails" in st.trace:
            want = EQ(status, K["KFileReadError"], 32)
            name = "KFileReadError when the content is not delivered"
        else:
            want = AND(EQ(status, K["KFileTooLarge"], 32), ULT(0xffff - 1, FSIZE))
            name = "KFileTooLarge for an oversized file"
        eng.oblige(st, want, "post: " + name)


class ParseArrayStub(Contract):
    """Parse( Array<char> const& ) as Parse( fileName ) calls it; its body is c_doc.ParseDocument"""
    names = ("C4::Json::StructuredData::Parse(Terathon::Array<char, 0> const&)",)
    assumed = True

    def call(self, eng, st, args, pretty):
        s = getattr(eng, "parse_stub", None)
        return s.parsed(eng, st, args) if s else NotImplemented


class WriteVirt(Virt):
    def __init__(self, c):
        self.c = c

    def call(self, eng, st, obj, slot, args, i):
        if slot == self.c.slot:
            return self.c.written(eng, st, obj, args)
        return Virt.call(self, eng, st, obj, slot, args, i)


def write_slot(eng):
    """index of Value::Write in the virtual tables"""
    for n in ("@_ZTVN2C44Json9NullValueE", "@_ZTVN2C44Json9BoolValueE"):
        try:
            st = State()
            k = eng.gl(st, n)
            b = st.blocks[k.blk if isinstance(k, Ptr) else k]
            fns = sorted((off, v) for off, (sz, v) in b.cells.items())
            fns = [(off, v) for off, v in fns if isinstance(v, Ptr) and isinstance(v.blk, tuple) and v.blk[0] == "fn"]
            for j, (off, v) in enumerate(fns):
                if "::Write(" in eng.mod.pretty.get(v.blk[1], v.blk[1]):
                    return (off - 16) // 8
        except (KeyError, Unsupported):
            continue
    raise Unsupported("no virtual Write")


class WriteDocument(Contract):
    names = ("C4::Json::StructuredData::Write(char const*, unsigned int, char)",)

    def cases(self):
        return ["empty", "value"]

    def setup(self, eng, st, case):
        osinit(eng, st)
        self.slot = write_slot(eng)
        eng.virt = WriteVirt(self)
        eng.abstract_strings = True
        d = st.new(8, "document")
        d.cells[0] = (8, NULL)
        self.d = d.id
        self.v = None
        if case == "value":
            s, v = opaque_value(eng, st, None, z3.BitVec("old", 64))
            take(st, s)
            self.v = v.blk
            st.w(d.id).cells[0] = (8, v)
        nm = st.new(1 << 20, "name", "elems", ro=True)
        self.len, self.ch = z3.BitVec("indentation", 32), z3.BitVec("indentChar", 8)
        return [Ptr(d.id, 0), Ptr(nm.id, 0), self.len, self.ch]

    def written(self, eng, st, obj, args):
        f = args[1]
        eng.oblige(st, self.v is not None and obj.blk == self.v and st.blocks[obj.blk].alive, "post: the document's value is written")
        eng.oblige(st, st.ghost.get("wrote") is None, "post: the value is written once")
        eng.oblige(st, any(m == "w" for _, m in st.ghost["fds"]), "post: the file is open for writing")
        eng.oblige(st, AND(EQ(args[2], self.len, 32), EQ(args[3], self.ch, 8)), "post: the requested indentation")
        eng.oblige(st, EQ(eng.load(st, INT(32), args[4], "indentation"), 0, 32), "post: the indentation starts empty")
        res = []
        st.ghost["wrote"] = True
        if eng.opts["alloc_fail"]:
            s = st.copy()
            s.ghost["oom"] = True
            res.append((s, "exc", None))
        v = fresh("status", 32)
        st.assume(ULT(v, 1 << 16, 32))
        st.ghost["wstatus"] = v
        s = st.copy()
        # a transfer fails while the value is written
        g = eng.mod.find(F + "WriteFile(char const*, unsigned long long)") or eng.mod.find(F + "WriteFile(char const*, unsigned long)")
        if g is None:
            raise Unsupported("no WriteFile")
        b = s.new(1, "byte", "elems", ro=True)
        outs = [o for o in eng.invoke(s, g.name, [f, Ptr(b.id, 0), 1]) if o[0].ghost["io"] is True]
        for o in outs:
            res.append((o[0], "ret", v))
        res.append((st, "ret", v))
        return res

    def post(self, eng, case, st0, st, kind, v, args):
        K = self.W.K
        if kind != "ret":
            eng.oblige(st, False, "exc: no exception leaves Write")
            return
        eng.oblige(st, len(st.ghost["fds"]) == 0, "own: the descriptor is closed exactly once")
        leak_check(eng, st0, st, [self.d])
        if st.ghost.get("opened") == "failed":
            eng.oblige(st, EQ(v, K["KFileOpenError"], 32), "post: KFileOpenError when the file cannot be opened")
        elif case == "empty":
            eng.oblige(st, EQ(v, K["kInvalidStructuredData"], 32), "post: kInvalidStructuredData for an empty document")
        elif st.ghost["oom"]:
            eng.oblige(st, EQ(v, K["kException"], 32), "post: kException when an allocation fails")
        else:
            w = st.ghost.get("wstatus")
            if w is None:
                eng.oblige(st, False, "post: the value is written")
                return
            eng.oblige(st, EQ(v, ITE(EQ(w, K["kOk"], 32), K["KFileWriteError"] if st.ghost["io"] else K["kOk"], w, 32), 32),
                       "post: the status of writing the value, KFileWriteError when a transfer failed")
        if self.v is not None:
            eng.oblige(st, st.blocks[self.v].alive, "own: the document keeps its value")


ALL = [ReadFile, WriteFile, WriteAgain, OpenFile, CloseFile, FileDtor, GetFileSize, ParseArrayStub, ParseFile, WriteDocument]
