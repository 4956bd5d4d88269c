"""Deductive verification engine over the LLVM IR of the real code.

Forward symbolic execution generates the obligations function by function:
calls to functions under contract use the callee's contract (pre asserted,
post assumed), calls to functions without one are executed in place, loops are
cut at an inductive invariant (computed from candidates: those that are not
inductive are dropped, so a wrong candidate can cost a proof but never
soundness), and every obligation is discharged by an SMT solver for all
inputs.  Nothing here is bounded except loops whose exit is *proved* within a
few iterations (complete unrolling)."""
import z3, time, itertools, os, subprocess
from ir import Unsupported, PTR, INT


class Budget(Exception):
    """analysis budget exhausted: the obligation stays undecided"""


M64 = (1 << 64) - 1

# --------------------------------------------------------------- scalars


def mask(w):
    return (1 << w) - 1


def isc(x):
    return isinstance(x, (int, bool))


def bv(x, w):
    if isinstance(x, bool):
        return z3.BitVecVal(1 if x else 0, w)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x


def b2(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def simp(x):
    if isc(x):
        return x
    y = z3.simplify(x)
    if z3.is_bv_value(y):
        return y.as_long()
    if z3.is_true(y):
        return True
    if z3.is_false(y):
        return False
    return y


def AND(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def OR(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def NOT(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def IMP(a, b):
    return OR(NOT(a), b)


def EQ(a, b, w=64):
    if isc(a) and isc(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return b2(a) == b2(b)
    return bv(a, w) == bv(b, w)


def ITE(c, a, b, w=64):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
        return z3.If(c, b2(a), b2(b))
    if isc(a) and isc(b) and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def ADD(a, b, w=64):
    if isc(a) and isc(b):
        return (a + b) & mask(w)
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return simp(bv(a, w) + bv(b, w))


def SUB(a, b, w=64):
    if isc(a) and isc(b):
        return (a - b) & mask(w)
    if isc(b) and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))


def MUL(a, b, w=64):
    if isc(a) and isc(b):
        return (a * b) & mask(w)
    return simp(bv(a, w) * bv(b, w))


def ULT(a, b, w=64):
    if isc(a) and isc(b):
        return a < b
    return z3.ULT(bv(a, w), bv(b, w))


def ULE(a, b, w=64):
    if isc(a) and isc(b):
        return a <= b
    return z3.ULE(bv(a, w), bv(b, w))


def SLT(a, b, w=64):
    if isc(a) and isc(b):
        return sgn(a, w) < sgn(b, w)
    return bv(a, w) < bv(b, w)


def SLE(a, b, w=64):
    if isc(a) and isc(b):
        return sgn(a, w) <= sgn(b, w)
    return bv(a, w) <= bv(b, w)


def ub(x, depth=6):
    """an upper bound of the unsigned value of a term"""
    k = x.decl().kind()
    w = x.size()
    if k == z3.Z3_OP_BNUM:
        return x.as_long()
    if depth == 0:
        return mask(w)
    if k == z3.Z3_OP_CONCAT:
        a = x.arg(0)
        if z3.is_bv_value(a) and a.as_long() == 0:
            if x.num_args() == 2:
                return ub(x.arg(1), depth - 1)
            return mask(w - a.size())
        return mask(w)
    if k == z3.Z3_OP_ZERO_EXT:
        return ub(x.arg(0), depth - 1)
    if k == z3.Z3_OP_BADD:
        r = sum(ub(x.arg(i), depth - 1) for i in range(x.num_args()))
        return r if r <= mask(w) else mask(w)
    if k == z3.Z3_OP_ITE:
        return max(ub(x.arg(1), depth - 1), ub(x.arg(2), depth - 1))
    return mask(w)


def zpush(x, w2, depth=6):
    """zero extension pushed into sums that do not overflow"""
    w = x.size()
    k = x.decl().kind()
    if depth and k == z3.Z3_OP_BADD and sum(ub(x.arg(i)) for i in range(x.num_args())) <= mask(w):
        r = zpush(x.arg(0), w2, depth - 1)
        for i in range(1, x.num_args()):
            r = r + zpush(x.arg(i), w2, depth - 1)
        return r
    if depth and k == z3.Z3_OP_ITE:
        return z3.If(x.arg(0), zpush(x.arg(1), w2, depth - 1), zpush(x.arg(2), w2, depth - 1))
    return z3.ZeroExt(w2 - w, x)


WIDE = {}     # variable id -> (variable, 64-bit term it is the low half of, known to be below 2^31)


def narrow(eng, st, w, what="length"):
    """a 32-bit value equal to the 64-bit term w, proved to be below 2^31"""
    if isc(w):
        return w & mask(32)
    eng.oblige(st, ULT(w, 1 << 31), "%s fits 31 bits" % what)
    v = fresh("narrow", 32)
    st.assume(z3.ZeroExt(32, v) == w)
    WIDE[v.get_id()] = (v, w)
    return v


def SEXT(a, w, w2):
    if w == w2:
        return a
    if isc(a):
        return sgn(a, w) & mask(w2)
    if w2 == 64 and a.get_id() in WIDE:
        return WIDE[a.get_id()][1]
    if z3.is_bv(a) and w > 8 and ub(a) < 1 << (w - 1):
        return simp(zpush(a, w2))
    return z3.SignExt(w2 - w, a)


def ZEXT(a, w, w2):
    if w == w2:
        return a
    if isc(a):
        return a
    if w2 == 64 and a.get_id() in WIDE:
        return WIDE[a.get_id()][1]
    if z3.is_bv(a) and w > 8 and a.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_ITE):
        return simp(zpush(a, w2))
    return z3.ZeroExt(w2 - w, a)


def TRUNC(a, w, w2):
    if w == w2:
        return a
    if isc(a):
        return a & mask(w2)
    return simp(z3.Extract(w2 - 1, 0, a))


_fresh = itertools.count()


def fresh(name, w):
    n = "%s!%d" % (name, next(_fresh))
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)


# --------------------------------------------------------------- pointers
class Ptr:
    """blk: int (0 = null, otherwise a block of the state), z3 BV32 (an object
    of the symbolic heap) or a tuple ('fn', name) / ('vt', ptr) / ('vfn', ptr, slot)"""
    __slots__ = ("blk", "off")

    def __init__(self, blk, off=0):
        self.blk, self.off = blk, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.blk, self.off)


NULL = Ptr(0, 0)


class PInt:
    """result of ptrtoint"""
    __slots__ = ("p", "add")

    def __init__(self, p, add=0):
        self.p, self.add = p, add


class Undef:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def blkeq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b if isinstance(a, tuple) and isinstance(b, tuple) else False
    if isc(a) and isc(b):
        return a == b
    return bv(a, 32) == bv(b, 32)


def ptreq(p, q):
    e = blkeq(p.blk, q.blk)
    if e is False:
        return False
    return AND(e, simp(EQ(p.off, q.off)))


# --------------------------------------------------------------- array contents
def same_index(i, j, w=64):
    """True / False / None (unknown)"""
    if isc(i) and isc(j):
        return i == j
    d = simp(bv(i, w) - bv(j, w))
    if isc(d):
        return d == 0
    return None


class Fn:
    """immutable total function index -> value, used as memory contents"""
    iw = 64

    def rd(self, i):
        raise NotImplementedError

    def st(self, i, v):
        return Store(self, i, v)


class Var(Fn):
    def __init__(self, name, vw, iw=64, decl=None):
        self.vw, self.iw = vw, iw
        rs = z3.BoolSort() if vw == 1 else z3.BitVecSort(vw)
        self.f = decl if decl is not None else z3.Function("%s!%d" % (name, next(_fresh)), z3.BitVecSort(iw), rs)

    def rd(self, i):
        return self.f(bv(i, self.iw))


class Const(Fn):
    """constant table (bytes of a global)"""

    def __init__(self, data, vw=8):
        self.data, self.vw = data, vw

    def rd(self, i):
        if isc(i):
            return self.data[i] if i < len(self.data) else 0
        r = bv(0, self.vw)
        # group equal runs to keep the term small
        vals = {}
        for k, d in enumerate(self.data):
            vals.setdefault(d, []).append(k)
        for d, ks in vals.items():
            runs = []
            for k in ks:
                if runs and runs[-1][1] == k - 1:
                    runs[-1][1] = k
                else:
                    runs.append([k, k])
            c = OR(*[EQ(i, a) if a == b else AND(ULE(a, i), ULE(i, b)) for a, b in runs])
            r = z3.If(c, bv(d, self.vw), r)
        return r


class Store(Fn):
    def __init__(self, base, i, v):
        self.base, self.i, self.v = base, i, v
        self.vw = base.vw
        self.iw = base.iw

    def rd(self, j):
        s = same_index(self.i, j, self.iw)
        if s is True:
            return self.v
        r = self.base.rd(j)
        if s is False:
            return r
        return ITE(EQ(self.i, j, self.iw), self.v, r, self.vw)


class Lam(Fn):
    def __init__(self, f, vw, iw=64):
        self.f, self.vw, self.iw = f, vw, iw

    def rd(self, i):
        return self.f(i)


# --------------------------------------------------------------- memory
class Blk:
    __slots__ = ("id", "size", "name", "ro", "alive", "kind", "cells", "bytes", "elems", "meta", "limit")

    def __init__(self, id, size, name, kind="obj", ro=False):
        self.id, self.size, self.name, self.kind, self.ro = id, size, name, kind, ro
        self.alive = True
        self.cells = {}
        self.bytes = None
        self.elems = {}
        self.meta = {}
        self.limit = None

    def copy(self):
        b = Blk(self.id, self.size, self.name, self.kind, self.ro)
        b.alive = self.alive
        b.cells = dict(self.cells)
        b.bytes = self.bytes
        b.elems = dict(self.elems)
        b.meta = dict(self.meta)
        b.limit = self.limit
        return b

    def getbytes(self):
        if self.bytes is None:
            self.bytes = Var(self.name + ".b", 8)
        return self.bytes


class State:
    def __init__(self):
        self.pc = []
        self.blocks = {}
        self.heap = {}      # symbolic heap: key -> Fn over BV32 ids
        self.ghost = {"oom": False}
        self.next = [1]
        self.trace = []

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.blocks = dict(self.blocks)
        s.heap = dict(self.heap)
        s.ghost = dict(self.ghost)
        s.next = self.next
        s.trace = list(self.trace)
        return s

    def assume(self, f):
        f = simp(f)
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pc.append(f)

    def new(self, size, name, kind="obj", ro=False):
        i = self.next[0]
        self.next[0] += 1
        b = Blk(i, size, name, kind, ro)
        self.blocks[i] = b
        return b

    def w(self, id):
        """writable copy of a block"""
        b = self.blocks[id].copy()
        self.blocks[id] = b
        return b


# --------------------------------------------------------------- solver
class SMT:
    inc_timeout = 700
    slow = None

    def __init__(self, spec=None, timeout=15000, log=None):
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.timeout = timeout
        self.stack = []       # list of (ast, set of axiom ids asserted at this level)
        self.asserted = set()
        self.spec = spec
        self.time = 0.0
        self.nq = 0
        self.nunk = 0
        self.xcheck = None
        self.backends = {}

    def _push(self, c):
        self.s.push()
        ids = set()
        self.s.add(c)
        if self.spec:
            for a in self.spec.instances(c):
                k = a.get_id()
                if k not in self.asserted:
                    self.asserted.add(k)
                    ids.add(k)
                    self.s.add(a)
        self.stack.append((c, ids))

    def _pop(self):
        c, ids = self.stack.pop()
        self.asserted -= ids
        self.s.pop()

    def sync(self, pc):
        k = 0
        n = min(len(pc), len(self.stack))
        while k < n and self.stack[k][0].eq(pc[k]):
            k += 1
        while len(self.stack) > k:
            self._pop()
        for c in pc[k:]:
            self._push(c)

    def sat(self, pc, extra=None, timeout=None, inc_only=False):
        """'sat' | 'unsat' | 'unknown' for pc /\\ extra"""
        t = time.time()
        self.nq += 1
        self.sync(pc)
        if extra is not None:
            extra = simp(extra)
            if extra is False:
                return "unsat"
            if extra is not True:
                self._push(extra)
            else:
                extra = None
        lim = timeout or self.timeout
        self.s.set("timeout", min(lim, self.inc_timeout))
        r = str(self.s.check())
        self.model = None
        if r == "sat":
            self.model = self.s.model()
        if r == "unknown" and lim > self.inc_timeout and not inc_only:
            # the same query from scratch, by a small portfolio: run times vary a lot between strategies
            for how, share in (("z3", .3), ("z3-4.8", .8), ("cvc5", 1), ("QF_UFBV", 1)):
                r = self.scratch(how, max(1000, int(lim * share)))
                if r != "unknown":
                    self.backends[how] = self.backends.get(how, 0) + 1
                    break
        if r == "unknown":
            self.nunk += 1
        if self.slow is not None and time.time() - t > 2:
            self.slow(time.time() - t, r, extra, self.s)
        if extra is not None:
            self._pop()
        self.time += time.time() - t
        return r


    def scratch(self, how, ms):
        if how in ("z3", "QF_UFBV"):
            s = z3.Solver() if how == "z3" else z3.SolverFor(how)
            s.set("timeout", ms)
            s.add(self.s.assertions())
            r = str(s.check())
            if r == "sat":
                self.model = s.model()
            return r
        txt = "(set-logic QF_UFBV)\n" + self.s.to_smt2()
        cmd = ["/usr/bin/z3", "-in", "-T:%d" % (ms // 1000 + 1)] if how == "z3-4.8" else ["cvc5", "--lang=smt2", "--tlimit=%d" % ms]
        try:
            p = subprocess.run(cmd, input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=ms / 1000 + 5)
        except (OSError, subprocess.TimeoutExpired):
            return "unknown"
        r = p.stdout.decode(errors="replace").strip().split("\n")[0]
        if r == "sat":
            # the model comes from the in-process solver
            s = z3.SolverFor("QF_UFBV")
            s.set("timeout", 20000)
            s.add(self.s.assertions())
            if str(s.check()) == "sat":
                self.model = s.model()
        return r if r in ("sat", "unsat") else "unknown"


class Spec:
    """uninterpreted spec functions with definitional axioms, unfolded at the
    terms that occur in a query"""

    def __init__(self, depth=2):
        self.ax = {}     # decl name -> (fn(args)->list of formulas)
        self.lem = {}    # lemmas only
        self.restrict = False
        self.rec = set() # recursive: unfolded at the terms of the query only
        self.depth = depth
        self.cache = {}
        self.tcache = {}
        self.keep = []

    def define(self, decl, f):
        self.ax[decl.name()] = f

    def apps(self, e):
        """spec applications in e (cached)"""
        k = e.get_id()
        r = self.tcache.get(k)
        if r is not None:
            return r
        out = []
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.ax:
                    out.append(x)
                st.extend(x.children())
        self.tcache[k] = out
        self.keep.append(e)
        return out

    def instances(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        out = []
        done = set()
        cur = self.apps(e)
        for d in range(self.depth):
            nxt = []
            for t in cur:
                if t.get_id() in done:
                    continue
                done.add(t.get_id())
                for f in self.axiom(t, d > 0 and t.decl().name() in self.rec):
                    out.append(f)
                    nxt.extend(self.apps(f))
            cur = nxt
        self.cache[k] = out
        return out

    def axiom(self, t, lemonly=False):
        k = ("ax", t.get_id(), lemonly)
        r = self.cache.get(k)
        if r is None:
            r = []
            g = (self.lem if lemonly else self.ax)[t.decl().name()]
            for f in g(*t.children()):
                f = simp(f)
                if f is True:
                    continue
                r.append(b2(f))
            self.cache[k] = r
            self.keep.append(t)
        return r


def udivc(spec, x, c, w):
    """x / c for a constant c: the unique q with c*q <= x < c*q + c (no overflow)"""
    f = z3.Function("udiv%d_%d" % (c, w), z3.BitVecSort(w), z3.BitVecSort(w))
    if f.name() not in spec.ax:
        spec.define(f, lambda x: [z3.ULE(f(x), mask(w) // c), z3.ULE(f(x) * c, x), z3.ULT(x - f(x) * c, c)])
    return f(x)


# --------------------------------------------------------------- engine
class Oblig:
    __slots__ = ("name", "status", "detail", "t")

    def __init__(self, name, status, detail="", t=0):
        self.name, self.status, self.detail, self.t = name, status, detail, t


class Engine:
    def __init__(self, mod, spec=None, contracts=None, opts=None):
        self.mod = mod
        self.spec = spec
        self.smt = SMT(spec)
        self.contracts = contracts or {}
        self.opts = dict(alloc_fail=True, unroll=6, maxpaths=4000, unroll_paths=48, deadline=None, loopcap=30)
        self.opts.update(opts or {})
        self.obs = []          # discharged / failed obligations
        self.quiet = 0
        self.fname = "?"
        self.depth = 0
        self.npaths = 0
        self.inlined = set()
        self.used = set()
        self.candgen = []      # extra candidate generators
        self.closedforms = []  # closed forms for array contents in loops
        self.textblocks = {}
        self.globs = {}
        self.vcall = None
        self.current = None
        self.measure_required = False
        self.loops_cut = 0
        self.loops_unrolled = 0
        self.virt = None
        self.symload = None
        self.ghost_index = None

    # ---- obligations
    def oblige(self, st, f, name):
        """prove pc => f; then assume it"""
        f = simp(f)
        if f is True:
            if not self.quiet:
                self.obs.append(Oblig(name, "ok"))
            return
        if self.quiet:
            st.assume(f)
            return
        t = time.time()
        r = self.smt.sat(st.pc, NOT(f))
        if r == "unknown":
            r = self.retry(st.pc, NOT(f))
        dt = time.time() - t
        if r == "unsat":
            self.obs.append(Oblig(name, "ok", t=dt))
        elif r == "sat":
            self.obs.append(Oblig(name, "failed", self.explain(st, f), dt))
        else:
            self.obs.append(Oblig(name, "unknown", "solver gave no answer: %s" % str(f)[:300], dt))
        if f is False:
            st.pc.append(z3.BoolVal(False))
        else:
            st.assume(f)

    def retry(self, pc, f):
        if f is True:
            f = z3.BoolVal(True)
        # a fresh solver with another strategy
        s = z3.SolverFor("QF_UFBV")
        s.set("timeout", 30000)
        seen = set()
        for c in list(pc) + [b2(f)]:
            s.add(c)
            if self.spec:
                for a in self.spec.instances(c):
                    if a.get_id() not in seen:
                        seen.add(a.get_id())
                        s.add(a)
        t = time.time()
        r = str(s.check())
        self.smt.time += time.time() - t
        if r == "sat":
            self.smt.model = s.model()
        return r

    def explain(self, st, f):
        m = self.smt.model
        out = ["obligation: %s" % str(f)[:400]]
        if st.trace:
            out.append("path: " + " ".join(st.trace[-30:]))
        if m is not None:
            s = str(m)
            out.append("model: " + s[:1500])
        return "\n".join(out)

    def feasible(self, st, f):
        if self.opts["deadline"] and time.time() > self.opts["deadline"]:
            raise Budget("time")
        f = simp(f)
        if f is False:
            return False
        r = self.smt.sat(st.pc, f if f is not True else None, timeout=3000)
        return r != "unsat"

    def valid(self, pc, f):
        f = simp(f)
        if f is True:
            return True
        return self.smt.sat(pc, NOT(f)) == "unsat"

    # ---- values
    def gl(self, st, name):
        """pointer to global"""
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs:
            return Ptr(("fn", name), 0)
        key = self.globs.get(name)
        if key is None:
            key = st.next[0]
            st.next[0] += 1
            self.globs[name] = key
        if key not in st.blocks:
            ty, init, const = self.mod.glob(name)
            b = Blk(key, self.mod.size(ty), name, "glob", ro=const)
            st.blocks[key] = b
            if init is not None and (const or True):
                data = {}
                self.initglob(st, b, ty, init, 0, data)
                if data:
                    n = self.mod.size(ty)
                    b.bytes = Const([data.get(i, 0) for i in range(n)])
        return Ptr(key, 0)

    def initglob(self, st, b, ty, v, off, data):
        k = ty.k
        if v[0] == "zero":
            for o, t in self.mod.leaves(ty, off):
                if t.k == "ptr":
                    b.cells[o] = (8, NULL)
                elif self.mod.size(t) == 1:
                    data[o] = 0
                else:
                    b.cells[o] = (self.mod.size(t), 0)
            return
        if v[0] == "str":
            for i, c in enumerate(v[1]):
                data[off + i] = c
            return
        if v[0] == "agg":
            if k == "struct":
                offs, _ = self.mod.fields(ty)
                for (et, ev), o in zip(v[1], offs):
                    self.initglob(st, b, et, ev, off + o, data)
            else:
                s = self.mod.size(ty.elts[0])
                for i, (et, ev) in enumerate(v[1]):
                    self.initglob(st, b, et, ev, off + i * s, data)
            return
        if v[0] == "undef":
            return
        if k == "ptr":
            try:
                b.cells[off] = (8, self.val(st, {}, v, ty))
            except (Unsupported, KeyError):
                pass
        elif k == "int":
            x = int(v[1])
            if ty.n <= 8:
                data[off] = x
            else:
                b.cells[off] = (self.mod.size(ty), x)
                for i in range(self.mod.size(ty)):
                    pass
        elif k == "double":
            b.cells[off] = (8, self.val(st, {}, v, ty))

    def val(self, st, env, v, ty):
        k = v[0]
        if k == "r":
            return env[v[1]]
        if k == "c":
            return v[1]
        if k == "null":
            return NULL
        if k == "g":
            return self.gl(st, v[1])
        if k == "undef":
            return self.freshval(ty, "undef")
        if k == "zero":
            if ty.k == "ptr":
                return NULL
            if ty.k in ("int", "double", "float"):
                return 0
            return Agg([self.val(st, env, ("zero", e), e) for e in (ty.elts if ty.k == "struct" else ty.elts * ty.n)])
        if k == "fp":
            import struct
            if ty.k == "float":
                return struct.unpack("<I", struct.pack("<f", v[1]))[0]
            return struct.unpack("<Q", struct.pack("<d", v[1]))[0]
        if k == "fpbits":
            return v[1]
        if k == "gep":
            bt, ops = v[1], v[2]
            base = self.val(st, env, ops[0][1], PTR)
            return self.gep(st, env, bt, base, ops[1:])
        if k == "agg":
            return Agg([self.val(st, env, ev, et) for et, ev in v[1]])
        raise Unsupported("operand " + str(v)[:60])

    def freshval(self, ty, name):
        if ty.k == "int":
            return fresh(name, ty.n)
        if ty.k == "double":
            return fresh(name, 64)
        if ty.k == "float":
            return fresh(name, 32)
        if ty.k == "ptr":
            return Ptr(("undef", next(_fresh)), 0)
        if ty.k == "struct":
            return Agg([self.freshval(e, name) for e in ty.elts])
        raise Unsupported("undef " + ty.k)

    def gep(self, st, env, bt, base, idx):
        off = base.off
        ty = bt
        first = True
        for it, iv in idx:
            x = self.val(st, env, iv, it)
            if first:
                off = ADD(off, MUL(SEXT(x, it.n, 64), self.mod.size(ty)))
                first = False
                continue
            if ty.k == "struct":
                offs, _ = self.mod.fields(ty)
                off = ADD(off, offs[x])
                ty = ty.elts[x]
            else:
                ty = ty.elts[0]
                off = ADD(off, MUL(SEXT(x, it.n, 64), self.mod.size(ty)))
        return Ptr(base.blk, off)

    # ---- memory access
    def resolve(self, st, p, what):
        """returns Ptr with int or symbolic block after null / dangling obligations"""
        if isinstance(p.blk, tuple):
            return p
        if not isc(p.blk):
            x = simp(p.blk)
            if isc(x):
                p = Ptr(x, p.off)
            else:
                return p
        return p

    def access(self, st, p, size, write, what):
        p = self.resolve(st, p, what)
        if isinstance(p.blk, int):
            if p.blk == 0:
                self.oblige(st, False, what + ": pointer is not null")
                return None
            b = st.blocks[p.blk]
            if not b.alive:
                self.oblige(st, False, what + ": object %s is alive" % b.name)
                return None
            if write and b.ro:
                self.oblige(st, False, what + ": %s is writable" % b.name)
                return None
            lim = b.size if b.limit is None else b.limit
            off = p.off
            if isc(off) and isc(lim):
                ok = off + size <= lim
            else:
                ok = AND(ULE(off, SUB(lim, size)), ULE(size, lim))
            self.oblige(st, ok, what + ": access stays inside %s" % b.name)
            return b
        return None

    def load(self, st, ty, p, what="load"):
        if ty.k in ("struct", "arr"):
            return self.loadagg(st, ty, p, what)
        size = self.mod.size(ty)
        p = self.resolve(st, p, what)
        if isinstance(p.blk, tuple):
            if p.blk[0] == "vt":
                if not isc(p.off):
                    raise Unsupported("vtable index")
                return Ptr(("vfn", p.blk[1], p.off // 8), 0)
            if p.blk[0] == "opaque":
                raise Unsupported("access to abstract storage: " + what)
            self.oblige(st, False, what + ": pointer is valid (%s)" % str(p.blk[0]))
            return self.freshval(ty, "bad")
        if not isinstance(p.blk, int):
            return self.symheap_load(st, ty, p, what)
        b = self.access(st, p, size, False, what)
        if b is None:
            return self.freshval(ty, "bad")
        return self.rd(st, b, ty, size, p.off)

    def loadagg(self, st, ty, p, what):
        if ty.k == "struct":
            offs, _ = self.mod.fields(ty)
            return Agg([self.load(st, e, Ptr(p.blk, ADD(p.off, o)), what) for e, o in zip(ty.elts, offs)])
        s = self.mod.size(ty.elts[0])
        return Agg([self.load(st, ty.elts[0], Ptr(p.blk, ADD(p.off, i * s)), what) for i in range(ty.n)])

    def rd(self, st, b, ty, size, off):
        isptr = ty.k == "ptr"
        if size == 1:
            v = self.rdbyte(st, b, off)
            if ty.n == 1:
                return simp(EQ(v, 1, 8)) if not isc(v) else bool(v & 1)
            return v
        if b.kind != "elems" and isc(off):
            c = b.cells.get(off)
            if c is not None and c[0] == size:
                v = c[1]
                if isptr and not isinstance(v, Ptr):
                    if isc(v) and v == 0:
                        return NULL
                    if isinstance(v, PInt):
                        return v.p
                    raise Unsupported("pointer type pun in " + b.name)
                if not isptr and isinstance(v, Ptr):
                    if v.blk == 0 and isc(v.off):
                        return v.off
                    return PInt(v)
                return v
            if c is not None:
                # narrower read of a wider integer cell
                if not isinstance(c[1], Ptr) and c[0] > size:
                    return TRUNC(c[1], c[0] * 8, size * 8)
                # a wider read of adjacent integer cells
                parts, o = [], off
                while o < off + size:
                    d = b.cells.get(o)
                    if d is None or isinstance(d[1], (Ptr, PInt, Agg)) or isptr or o + d[0] > off + size:
                        break
                    parts.append(bv(d[1], d[0] * 8))
                    o += d[0]
                if o == off + size:
                    return simp(z3.Concat(*reversed(parts)))
                raise Unsupported("access width mismatch in %s+%d" % (b.name, off))
            for o, (s, v) in b.cells.items():
                if o < off + size and off < o + s:
                    if s > size and o <= off and not isinstance(v, Ptr):
                        sh = (off - o) * 8
                        return TRUNC(v >> sh if isc(v) else z3.LShR(v, sh), s * 8, size * 8)
                    raise Unsupported("overlapping access in %s+%d" % (b.name, off))
            if b.ro and isinstance(b.bytes, Const) and not isptr:
                r = 0
                for i in range(size):
                    r |= b.bytes.rd(off + i) << (8 * i)
                return r
            init = b.meta.get("lazy")
            if init:
                v = init(st, b, off, ty)
            elif b.bytes is not None and not isptr and b.kind != "obj":
                v = 0
                for i in range(size):
                    v = z3.Concat(bv(b.bytes.rd(off + i), 8), v) if i else bv(b.bytes.rd(off), 8)
                return simp(v)
            else:
                v = self.freshval(ty, b.name + "+%d" % off)
            b2_ = st.w(b.id)
            b2_.cells[off] = (size, v)
            return v
        # element array
        if b.cells and not isc(off):
            if b.kind == "glob" and b.ro and b.cells:
                # constant table of wide elements
                r = None
                for o, (s, v) in sorted(b.cells.items()):
                    if s == size:
                        if isinstance(v, Ptr):
                            raise Unsupported("symbolic index into pointer table")
                        r = bv(v, size * 8) if r is None else z3.If(EQ(off, o), bv(v, size * 8), r)
                return r
            raise Unsupported("symbolic offset in object " + b.name)
        key = "p" if isptr else size
        fn = b.elems.get(key)
        if fn is None:
            nb = st.w(b.id)
            fn = (Var(b.name + ".pi", 32), Var(b.name + ".po", 64)) if isptr else Var(b.name + ".e%d" % size, size * 8)
            nb.elems[key] = fn
        if isptr:
            i = simp(fn[0].rd(off))
            return Ptr(i, simp(fn[1].rd(off)))
        return simp(fn.rd(off))

    def rdbyte(self, st, b, off):
        if b.id in self.textblocks:
            return self.textblocks[b.id](off)
        if isc(off):
            for o, (s, v) in b.cells.items():
                if o <= off < o + s:
                    if isinstance(v, Ptr):
                        raise Unsupported("byte of pointer")
                    sh = (off - o) * 8
                    return TRUNC(v >> sh if isc(v) else z3.LShR(v, sh), s * 8, 8)
        if b.bytes is None:
            b = st.w(b.id)
        return simp(b.getbytes().rd(off))

    def store(self, st, ty, p, v, what="store"):
        if ty.k in ("struct", "arr"):
            if isinstance(v, Agg):
                if ty.k == "struct":
                    offs, _ = self.mod.fields(ty)
                    for e, o, x in zip(ty.elts, offs, v.v):
                        self.store(st, e, Ptr(p.blk, ADD(p.off, o)), x, what)
                else:
                    s = self.mod.size(ty.elts[0])
                    for i, x in enumerate(v.v):
                        self.store(st, ty.elts[0], Ptr(p.blk, ADD(p.off, i * s)), x, what)
                return
            raise Unsupported("aggregate store")
        size = self.mod.size(ty)
        p = self.resolve(st, p, what)
        if isinstance(p.blk, tuple):
            if p.blk[0] == "opaque":
                raise Unsupported("access to abstract storage: " + what)
            self.oblige(st, False, what + ": pointer is valid")
            return
        if not isinstance(p.blk, int):
            return self.symheap_store(st, ty, p, v, what)
        b = self.access(st, p, size, True, what)
        if b is None:
            return
        self.wr(st, b, ty, size, p.off, v)

    def wr(self, st, b, ty, size, off, v):
        b = st.w(b.id)
        isptr = ty.k == "ptr"
        if size == 1:
            if isinstance(v, bool):
                v = 1 if v else 0
            elif z3.is_expr(v) and z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            if isc(off):
                for o, (s, x) in list(b.cells.items()):
                    if o <= off < o + s:
                        raise Unsupported("byte store into wide cell of " + b.name)
            elif b.cells and b.kind != "elems":
                lo = b.meta.get("bytes_from")
                hi = max(o + s for o, (s, x) in b.cells.items())
                if lo is None:
                    lo = hi
                self.oblige(st, ULE(lo, off), "store stays out of the other members of " + b.name)
            b.bytes = b.getbytes().st(off, v)
            return
        if b.kind != "elems" and isc(off):
            for o, (s, x) in list(b.cells.items()):
                if o != off and o < off + size and off < o + s or (o == off and s != size):
                    if o == off or (o >= off and o + s <= off + size):
                        del b.cells[o]
                    elif not isinstance(x, (Ptr, PInt)):
                        # split the wider cell
                        del b.cells[o]
                        for k in range(0, s):
                            byte = TRUNC(x >> (8 * k) if isc(x) else z3.LShR(x, 8 * k), s * 8, 8)
                            if not (off <= o + k < off + size):
                                b.cells[o + k] = (1, byte)
                    else:
                        raise Unsupported("overlapping store in %s+%d" % (b.name, off))
            b.cells[off] = (size, v)
            return
        if b.cells and b.kind != "elems":
            raise Unsupported("symbolic store in object " + b.name)
        key = "p" if isptr else size
        fn = b.elems.get(key)
        if fn is None:
            fn = (Var(b.name + ".pi", 32), Var(b.name + ".po", 64)) if isptr else Var(b.name + ".e%d" % size, size * 8)
        if isptr:
            if isinstance(v.blk, tuple):
                raise Unsupported("function pointer in element array")
            b.elems[key] = (fn[0].st(off, v.blk), fn[1].st(off, v.off))
        else:
            b.elems[key] = fn.st(off, v)

    # ---- symbolic heap
    def hkey(self, off, ty):
        return (off, "p" if ty.k == "ptr" else self.mod.size(ty))

    def hfn(self, st, key, name="h"):
        f = st.heap.get(key)
        if f is None:
            nm = "H%s_%s" % key[:2]
            if key[1] == "p":
                f = (Var(nm + "i", 32, 32), Var(nm + "o", 64, 32))
            else:
                f = Var(nm, key[1] * 8, 32)
            st.heap[key] = f
        return f

    def symheap_load(self, st, ty, p, what):
        if self.symload is None:
            raise Unsupported("symbolic object access: " + what)
        return self.symload(self, st, ty, p, what, None)

    def symheap_store(self, st, ty, p, v, what):
        if self.symload is None:
            raise Unsupported("symbolic object access: " + what)
        return self.symload(self, st, ty, p, what, v)

    # ---- memory intrinsics
    def memcpy(self, st, d, s, n, what):
        if isc(n) and n == 0:
            return
        if not isc(n) or n > 4096:
            # byte-wise functional copy
            db = self.access(st, d, 0, True, what)
            sb = self.access(st, s, 0, False, what)
            if db is None or sb is None:
                return
            for pp, bb in ((d, db), (s, sb)):
                lim = bb.size if bb.limit is None else bb.limit
                self.oblige(st, AND(ULE(pp.off, lim), ULE(n, SUB(lim, pp.off))), what + ": stays inside " + bb.name)
            if db.cells and db.kind not in ("elems",):
                raise Unsupported("memcpy into object")
            sf = sb.bytes if sb.bytes is not None else st.w(sb.id).getbytes()
            if sb.id in self.textblocks:
                sf = Lam(self.textblocks[sb.id], 8)
            nb = st.w(db.id)
            old = nb.getbytes()
            do, so = d.off, s.off
            nb.bytes = Lam(lambda i: ITE(ULT(SUB(i, do), n), sf.rd(ADD(SUB(i, do), so)), old.rd(i), 8), 8)
            return
        db = self.access(st, d, n, True, what)
        sb = self.access(st, s, n, False, what)
        if db is None or sb is None:
            return
        if isc(d.off) and isc(s.off):
            nb = st.w(db.id)
            sb = st.blocks[sb.id]
            for o in list(nb.cells):
                if d.off <= o < d.off + n:
                    del nb.cells[o]
            covered = set()
            for o, (sz, v) in sb.cells.items():
                if s.off <= o and o + sz <= s.off + n:
                    nb.cells[o - s.off + d.off] = (sz, v)
                    covered |= set(range(o, o + sz))
            if sb.bytes is not None or sb.id in self.textblocks:
                for i in range(n):
                    if s.off + i not in covered:
                        nb.bytes = nb.getbytes().st(d.off + i, self.rdbyte(st, sb, s.off + i))
            return
        # symbolic offsets, constant length: bytes only
        vals = [self.rdbyte(st, sb, ADD(s.off, i)) for i in range(n)]
        for i, v in enumerate(vals):
            self.wr(st, st.blocks[db.id], INT(8), 1, ADD(d.off, i), v)

    def memset(self, st, d, c, n, what):
        if isc(n) and isc(d.off):
            b = self.access(st, d, n, True, what)
            if b is None:
                return
            nb = st.w(b.id)
            lv = nb.meta.get("leaves")
            for o in list(nb.cells):
                if d.off <= o < d.off + n:
                    del nb.cells[o]
            if isc(c) and c == 0 and n <= 512:
                if n % 8 == 0 and nb.kind == "obj" and n > 8:
                    nb.meta["zeroed"] = (d.off, d.off + n)
                    for i in range(n):
                        nb.bytes = nb.getbytes().st(d.off + i, 0)
                    old = nb.meta.get("lazy")
                    lo, hi = d.off, d.off + n

                    def lz(st, b, off, ty):
                        if lo <= off < hi:
                            return NULL if ty.k == "ptr" else 0
                        return old(st, b, off, ty) if old else self.freshval(ty, b.name)
                    nb.meta["lazy"] = lz
                    return
            for i in range(n):
                nb.bytes = nb.getbytes().st(d.off + i, c)
            return
        raise Unsupported("memset")

    # ---- allocation
    def alloc(self, st, size, how):
        kind = "obj" if isc(size) else "elems"
        b = st.new(size, "new%d" % st.next[0], kind)
        b.meta["heap"] = how
        return Ptr(b.id, 0)

    def free(self, st, p, how, what):
        p = self.resolve(st, p, what)
        if isinstance(p.blk, int) and p.blk == 0:
            return
        if not isinstance(p.blk, int):
            if self.virt is not None:
                return self.virt.free_symbolic(self, st, p, what)
            raise Unsupported("free of symbolic pointer")
        b = st.blocks[p.blk]
        self.oblige(st, b.alive, what + ": %s is released only once" % b.name)
        self.oblige(st, "heap" in b.meta, what + ": %s is heap storage" % b.name)
        if "heap" in b.meta:
            self.oblige(st, b.meta["heap"] == how, what + ": %s is released the way it was allocated" % b.name)
        self.oblige(st, EQ(p.off, 0), what + ": start of the allocation is released")
        nb = st.w(p.blk)
        nb.alive = False

    # ---- function execution
    def run(self, fn, args, st, top=False):
        """outcomes [(state, 'ret'|'exc', value)]"""
        if fn.decl:
            raise Unsupported("no body: " + self.mod.pretty[fn.name])
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("call depth (recursion without contract)")
        try:
            blocks = fn.blocks
            env = {}
            for (ty, nm), a in zip(fn.params, args):
                env[nm] = a
            fr = Frame(fn)
            outs = self.region(fr, fn.entry, None, env, st, frozenset(), None)
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            if o[0] in ("ret", "exc"):
                s = o[2]
                for bid in o[1].get("#allocas", ()):
                    if bid in s.blocks and s.blocks[bid].alive:
                        s.w(bid).alive = False
                res.append((s, o[0], o[3]))
            else:
                raise Unsupported("internal: stray " + o[0])
        return res

    def tick(self):
        if self.opts["deadline"] and time.time() > self.opts["deadline"]:
            raise Budget("time")

    def region(self, fr, blk, prev, env, st, active, body):
        """execute from the start of blk.  outcomes:
        ('ret'|'exc', env, st, val), ('back', header, prev, env, st), ('exit', blk, prev, env, st)"""
        outs = []
        work = [(blk, prev, 0, env, st, True)]
        while work:
            self.tick()
            blk, prev, idx, env, st, entering = work.pop()
            if entering:
                if blk in active:
                    outs.append(("back", blk, prev, env, st))
                    continue
                if body is not None and blk not in body:
                    outs.append(("exit", blk, prev, env, st))
                    continue
                if blk in fr.fn.loops:
                    key = (fr.fn.name, blk)
                    outs += self.do_loop(fr, blk, prev, env, st, active, body)
                    continue
                env = dict(env)
                self.phis(fr, blk, prev, env, st)
                idx = fr.nphi(blk)
            self.block(fr, blk, prev, idx, env, st, work, outs)
            if len(outs) + len(work) > self.opts["maxpaths"]:
                raise Budget("paths in " + self.mod.pretty[fr.fn.name])
        return outs

    def phis(self, fr, blk, prev, env, st):
        new = {}
        for i in fr.fn.blocks[blk].ins:
            if i.op != "phi":
                break
            for v, b in i.a:
                if b == prev:
                    new[i.dst] = self.val(st, env, v, i.ty)
                    break
            else:
                raise Unsupported("phi without incoming edge")
        env.update(new)

    def block(self, fr, blk, prev, idx, env, st, work, outs):
        ins = fr.fn.blocks[blk].ins
        n = len(ins)
        while idx < n:
            i = ins[idx]
            op = i.op
            if op == "br":
                work.append((i.a[0], blk, 0, env, st, True))
                return
            if op == "condbr":
                c = simp(self.val(st, env, i.a[0], INT(1)))
                if isinstance(c, bool):
                    work.append((i.a[1] if c else i.a[2], blk, 0, env, st, True))
                    return
                t = self.feasible(st, c)
                f = self.feasible(st, NOT(c)) if t else True
                if t and f:
                    s2 = st.copy()
                    s2.assume(NOT(c))
                    work.append((i.a[2], blk, 0, dict(env), s2, True))
                if t:
                    st.assume(c)
                    work.append((i.a[1], blk, 0, env, st, True))
                elif f:
                    st.assume(NOT(c))
                    work.append((i.a[2], blk, 0, env, st, True))
                return
            if op == "switch":
                v = self.val(st, env, i.a[0], i.ty)
                if isc(v):
                    tgt = i.a[1]
                    for c, l in i.a[2]:
                        if c[1] == v:
                            tgt = l
                            break
                    work.append((tgt, blk, 0, env, st, True))
                    return
                neg = []
                groups = {}
                for c, l in i.a[2]:
                    groups.setdefault(l, []).append(EQ(v, c[1], i.ty.n))
                    neg.append(NOT(EQ(v, c[1], i.ty.n)))
                cases = [(l, OR(*cs)) for l, cs in groups.items() if l != i.a[1]]
                cases.append((i.a[1], NOT(OR(*[c for _, c in cases])) if cases else True))
                for l, c in cases:
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        work.append((l, blk, 0, dict(env), s2, True))
                return
            if op == "ret":
                v = None if i.a is None else self.val(st, env, i.a, i.ty)
                outs.append(("ret", env, st, v))
                return
            if op == "resume":
                outs.append(("exc", env, st, None))
                return
            if op == "unreachable":
                # only after noreturn calls; nothing to do: reaching it is checked at the call
                if not env.get("#noreturn"):
                    self.oblige(st, False, "unreachable code is not reached")
                return
            if op in ("call", "invoke"):
                res = self.call(fr, i, env, st)
                if res is None:
                    return
                if op == "call" and len(res) == 1 and res[0][1] == "ret":
                    st, _, v = res[0]
                    if i.dst:
                        env[i.dst] = v
                    idx += 1
                    continue
                first = True
                for s2, kind, v in res:
                    e2 = dict(env)
                    if kind == "ret":
                        if i.dst:
                            e2[i.dst] = v
                        if op == "call":
                            work.append((blk, prev, idx + 1, e2, s2, False))
                        else:
                            work.append((i.a["normal"], blk, 0, e2, s2, True))
                    elif kind == "exc":
                        if op == "call":
                            if i.a["nounwind"]:
                                self.oblige(s2, False, "no exception leaves the noexcept call %s" % i.line.strip()[:80])
                                continue
                            outs.append(("exc", e2, s2, None))
                        else:
                            work.append((i.a["unwind"], blk, 0, e2, s2, True))
                return
            if op == "select":
                c = simp(self.val(st, env, i.a[0], INT(1)))
                a = self.val(st, env, i.a[1], i.ty)
                b = self.val(st, env, i.a[2], i.ty)
                if isinstance(c, bool):
                    env[i.dst] = a if c else b
                elif isinstance(a, Ptr):
                    e = blkeq(a.blk, b.blk)
                    if e is True:
                        env[i.dst] = Ptr(a.blk, ITE(c, a.off, b.off))
                    else:
                        done = False
                        t = self.feasible(st, c)
                        f = self.feasible(st, NOT(c)) if t else True
                        if t and f:
                            s2 = st.copy()
                            s2.assume(NOT(c))
                            e2 = dict(env)
                            e2[i.dst] = b
                            work.append((blk, prev, idx + 1, e2, s2, False))
                        if t:
                            st.assume(c)
                            env[i.dst] = a
                        else:
                            st.assume(NOT(c))
                            env[i.dst] = b
                elif isinstance(a, (PInt, Agg)) or isinstance(b, (PInt, Agg)):
                    raise Unsupported("select of aggregates")
                else:
                    w = i.ty.n if i.ty.k == "int" else 64
                    env[i.dst] = ITE(c, a, b, w)
                idx += 1
                continue
            self.simple(fr, i, env, st)
            idx += 1

    def simple(self, fr, i, env, st):
        op = i.op
        V = lambda v, ty: self.val(st, env, v, ty)
        if op == "load":
            env[i.dst] = self.load(st, i.ty, V(i.a[0], PTR), "load in " + fr.pname(self))
        elif op == "store":
            self.store(st, i.ty, V(i.a[1], PTR), V(i.a[0], i.ty), "store in " + fr.pname(self))
        elif op == "getelementptr":
            env[i.dst] = self.gep(st, env, i.ty, V(i.a[0], PTR), i.a[1])
        elif op == "alloca":
            if i.a[0] is not None:
                n = V(i.a[0], INT(32))
                if not isc(n):
                    raise Unsupported("variable alloca")
            else:
                n = 1
            b = st.new(self.mod.size(i.ty) * n, "local%s:%s" % (i.dst, fr.fn.name[-24:]), "obj")
            env[i.dst] = Ptr(b.id, 0)
            env["#allocas"] = env.get("#allocas", ()) + (b.id,)
        elif op == "icmp":
            env[i.dst] = self.icmp(st, i, V)
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            env[i.dst] = self.arith(st, i, V(i.a[0], i.ty), V(i.a[1], i.ty), fr)
        elif op in ("sext", "zext", "trunc"):
            fty, a = i.a
            x = V(a, fty)
            w, w2 = fty.n, i.ty.n
            if isinstance(x, PInt):
                raise Unsupported("cast of pointer bits")
            if w == 1:
                one = mask(w2) if op == "sext" else 1
                env[i.dst] = ITE(x, one, 0, w2) if not isinstance(x, bool) else (one if x else 0)
            elif w2 == 1:
                env[i.dst] = (bool(x & 1) if isc(x) else simp(z3.Extract(0, 0, x) == 1))
            elif op == "sext":
                env[i.dst] = SEXT(x, w, w2)
            elif op == "zext":
                env[i.dst] = ZEXT(x, w, w2)
            else:
                env[i.dst] = TRUNC(x, w, w2)
        elif op == "ptrtoint":
            p = V(i.a[1], PTR)
            env[i.dst] = p.off if (isinstance(p.blk, int) and p.blk == 0) else PInt(p)
        elif op == "inttoptr":
            x = V(i.a[1], i.a[0])
            if isinstance(x, PInt):
                env[i.dst] = Ptr(x.p.blk, ADD(x.p.off, x.add))
            elif isc(x) and x == 0:
                env[i.dst] = NULL
            else:
                raise Unsupported("inttoptr")
        elif op == "bitcast":
            env[i.dst] = V(i.a[1], i.a[0])
        elif op == "freeze":
            env[i.dst] = V(i.a[0], i.ty)
        elif op == "extractvalue":
            a = V(i.a[0], i.ty)
            for k in i.a[1]:
                a = a.v[k]
            env[i.dst] = a
        elif op == "insertvalue":
            a = V(i.a[0], i.ty)
            e = self.val(st, env, i.a[1], self.subty(i.ty, i.a[2]))
            env[i.dst] = self.insval(a, e, i.a[2])
        elif op == "landingpad":
            env[i.dst] = Agg([Ptr(("exc",), 0), 1])
        elif op == "fneg":
            a = V(i.a[0], i.ty)
            w = 64 if i.ty.k == "double" else 32
            env[i.dst] = (a ^ (1 << (w - 1))) if isc(a) else a ^ bv(1 << (w - 1), w)
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = V(i.a[0], i.ty), V(i.a[1], i.ty)
            w = 64 if i.ty.k == "double" else 32
            F = z3.Float64() if w == 64 else z3.Float32()
            x, y = z3.fpBVToFP(bv(a, w), F), z3.fpBVToFP(bv(b, w), F)
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
            r = f(z3.RNE(), x, y)
            v = fresh("fp", w)
            st.assume(z3.fpBVToFP(v, F) == r)
            env[i.dst] = v
        elif op == "fcmp":
            pred, a, b = i.a[0], V(i.a[1], i.ty), V(i.a[2], i.ty)
            w = 64 if i.ty.k == "double" else 32
            F = z3.Float64() if w == 64 else z3.Float32()
            x, y = z3.fpBVToFP(bv(a, w), F), z3.fpBVToFP(bv(b, w), F)
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {"eq": z3.fpEQ(x, y), "ne": z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y))), "lt": z3.fpLT(x, y), "gt": z3.fpGT(x, y),
                    "le": z3.fpLEQ(x, y), "ge": z3.fpGEQ(x, y)}
            if pred == "ord":
                r = z3.Not(un)
            elif pred == "uno":
                r = un
            elif pred[0] == "o":
                r = base[pred[1:]]
            elif pred[0] == "u":
                r = z3.Or(un, base[pred[1:]])
            else:
                raise Unsupported("fcmp " + pred)
            env[i.dst] = simp(r)
        elif op == "unsupported":
            raise Unsupported(i.a + " in " + self.mod.pretty[fr.fn.name])
        else:
            raise Unsupported("op " + op)

    def subty(self, ty, idx):
        for k in idx:
            ty = ty.elts[k] if ty.k == "struct" else ty.elts[0]
        return ty

    def insval(self, a, e, idx):
        v = list(a.v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insval(v[idx[0]], e, idx[1:])
        return Agg(v)

    def icmp(self, st, i, V):
        pred = i.a[0]
        a, b = V(i.a[1], i.ty), V(i.a[2], i.ty)
        if isinstance(a, PInt) and isinstance(b, PInt):
            a, b = Ptr(a.p.blk, ADD(a.p.off, a.add)), Ptr(b.p.blk, ADD(b.p.off, b.add))
        if isinstance(a, Ptr):
            if pred in ("eq", "ne"):
                e = ptreq(a, b)
                return e if pred == "eq" else NOT(e)
            e = blkeq(a.blk, b.blk)
            if e is not True:
                raise Unsupported("ordering of pointers into different objects")
            a, b = a.off, b.off
            w = 64
        elif isinstance(a, PInt) or isinstance(b, PInt):
            x, o = (a, b) if isinstance(a, PInt) else (b, a)
            if isc(o) and o == 0 and pred in ("eq", "ne"):
                e = ptreq(x.p, NULL)
                return e if pred == "eq" else NOT(e)
            raise Unsupported("pointer bits comparison")
        else:
            w = i.ty.n
        if w == 1:
            a, b = simp(a), simp(b)
            if pred in ("eq", "ne"):
                e = EQ(a, b)
                return simp(e if pred == "eq" else NOT(e))
            a, b = ITE(a, 1, 0, 8), ITE(b, 1, 0, 8)
            w = 8
        r = {"eq": lambda: EQ(a, b, w), "ne": lambda: NOT(EQ(a, b, w)), "ult": lambda: ULT(a, b, w), "ule": lambda: ULE(a, b, w),
             "ugt": lambda: ULT(b, a, w), "uge": lambda: ULE(b, a, w), "slt": lambda: SLT(a, b, w), "sle": lambda: SLE(a, b, w),
             "sgt": lambda: SLT(b, a, w), "sge": lambda: SLE(b, a, w)}[pred]()
        return simp(r)

    def arith(self, st, i, a, b, fr):
        op = i.op
        w = i.ty.n
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                e = blkeq(a.p.blk, b.p.blk)
                if e is not True:
                    self.oblige(st, e, "pointer difference inside one object")
                return ADD(SUB(a.p.off, b.p.off), SUB(a.add, b.add))
            if op in ("add", "sub") and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(a.p, ADD(a.add, b) if op == "add" else SUB(a.add, b))
            raise Unsupported("pointer arithmetic " + op)
        if w == 1:
            a, b = b2(a), b2(b)
            r = {"and": lambda: z3.And(a, b), "or": lambda: z3.Or(a, b), "xor": lambda: z3.Xor(a, b),
                 "add": lambda: z3.Xor(a, b), "sub": lambda: z3.Xor(a, b), "mul": lambda: z3.And(a, b)}[op]()
            return simp(r)
        if op == "add":
            return ADD(a, b, w)
        if op == "sub":
            return SUB(a, b, w)
        if op == "mul":
            return MUL(a, b, w)
        if isc(a) and isc(b):
            m = mask(w)
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sgn(a, w) >> min(b, w - 1)) & m
            if op == "udiv" and b:
                return a // b
            if op == "urem" and b:
                return a % b
        A, B = bv(a, w), bv(b, w)
        if op in ("udiv", "sdiv", "urem", "srem"):
            self.oblige(st, NOT(EQ(b, 0, w)), "divisor is not zero in " + fr.pname(self))
        if op in ("udiv", "urem") and isc(b) and b & (b - 1) and self.spec is not None:
            q = udivc(self.spec, A, b, w)
            return q if op == "udiv" else simp(A - q * b)
        r = {"and": lambda: A & B, "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B),
             "ashr": lambda: A >> B, "udiv": lambda: z3.UDiv(A, B), "sdiv": lambda: A / B, "urem": lambda: z3.URem(A, B),
             "srem": lambda: z3.SRem(A, B)}[op]()
        return simp(r)

    # ---- calls
    NORET = ("__clang_call_terminate", "_ZSt9terminatev", "__cxa_rethrow", "llvm.trap", "__cxa_pure_virtual")

    def call(self, fr, i, env, st):
        a = i.a
        cal = a["callee"]
        if cal[0] == "g":
            tgt = Ptr(("fn", self.mod.aliases.get(cal[1], cal[1])), 0)
        else:
            tgt = self.val(st, env, cal, PTR)
        if isinstance(tgt.blk, tuple) and tgt.blk[0] == "fn" and tgt.blk[1].startswith("@llvm.experimental.noalias"):
            return [(st, "ret", None)]
        args = []
        for t, v in a["args"]:
            args.append(None if v is None else self.val(st, env, v, t))
        if isinstance(tgt.blk, tuple) and tgt.blk[0] == "vfn":
            if self.virt is None:
                raise Unsupported("virtual call on opaque object")
            return self.virt.call(self, st, tgt.blk[1], tgt.blk[2], args, i)
        if not (isinstance(tgt.blk, tuple) and tgt.blk[0] == "fn"):
            self.oblige(st, False, "call through a valid function pointer")
            return None
        name = self.mod.aliases.get(tgt.blk[1], tgt.blk[1])
        return self.invoke(st, name, args, i, env)

    def invoke(self, st, name, args, i=None, env=None):
        base = name[1:]
        if base.startswith("llvm."):
            return self.intrinsic(st, base, args, i)
        fn = self.mod.funcs.get(name)
        pretty = self.mod.pretty.get(name, base)
        c = self.contracts.get(pretty) or self.contracts.get(name)
        if c is not None:
            r = c.call(self, st, args, pretty)
            if r is not NotImplemented:
                self.used.add(pretty)
                return r
        if base in ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t"):
            how = "new" if base == "_Znwm" else "new[]"
            res = []
            if self.opts["alloc_fail"]:
                s2 = st.copy()
                s2.trace.append("alloc-fails")
                s2.ghost["oom"] = True
                res.append((s2, "exc", None))
            p = self.alloc(st, args[0], how)
            if not isc(args[0]):
                # operator new never yields more than the address space: sizes above 2^62 throw
                st.assume(ULT(args[0], 1 << 62))
            res.append((st, "ret", p))
            return res
        if base in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"):
            self.free(st, args[0], "new" if base.startswith("_Zdl") else "new[]", "delete")
            return [(st, "ret", None)]
        if base == "__cxa_begin_catch":
            return [(st, "ret", Ptr(("exc",), 0))]
        if base == "__cxa_end_catch":
            return [(st, "ret", None)]
        if base in self.NORET:
            if base == "__cxa_rethrow":
                return [(st, "exc", None)]
            self.oblige(st, False, "the program is not terminated (%s)" % base)
            return None
        if base.startswith(("_ZSt20__throw", "_ZSt19__throw", "_ZSt17__throw", "_ZSt28__throw", "_ZSt24__throw")):
            return [(st, "exc", None)]
        if base in EXTERN:
            r = EXTERN[base](self, st, args, i)
            if r is not None:
                return r
        if fn is None or fn.decl:
            raise Unsupported("external function " + pretty)
        self.inlined.add(pretty)
        return self.run(fn, args, st)

    def current_top(self):
        return self.current

    def intrinsic(self, st, n, args, i):
        if n.startswith("llvm.lifetime"):
            # outside its lifetime a local has no contents
            p = args[1]
            b = st.blocks.get(p.blk) if isinstance(p, Ptr) and isinstance(p.blk, int) else None
            if b is not None and b.name.startswith("local") and (b.cells or b.meta) and b.bytes is None and not b.elems:
                st.w(b.id).cells.clear()
                st.blocks[b.id].meta.clear()
            return [(st, "ret", None)]
        if n.startswith(("llvm.dbg", "llvm.experimental", "llvm.invariant")):
            return [(st, "ret", None)]
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, args[0], args[1], args[2], "memcpy")
            return [(st, "ret", None)]
        if n.startswith("llvm.memset"):
            self.memset(st, args[0], args[1], args[2], "memset")
            return [(st, "ret", None)]
        if n.startswith("llvm.expect"):
            return [(st, "ret", args[0])]
        if n.startswith("llvm.assume"):
            self.oblige(st, args[0], "assumption of the compiler holds")
            return [(st, "ret", None)]
        if n.startswith("llvm.trap"):
            self.oblige(st, False, "trap is not reached")
            return None
        m = {"llvm.umax": lambda a, b, w: ITE(ULT(a, b, w), b, a, w), "llvm.umin": lambda a, b, w: ITE(ULT(a, b, w), a, b, w),
             "llvm.smax": lambda a, b, w: ITE(SLT(a, b, w), b, a, w), "llvm.smin": lambda a, b, w: ITE(SLT(a, b, w), a, b, w)}
        for k, f in m.items():
            if n.startswith(k):
                return [(st, "ret", f(args[0], args[1], i.ty.n))]
        if n.startswith("llvm.abs"):
            w = i.ty.n
            return [(st, "ret", ITE(SLT(args[0], 0, w), SUB(0, args[0], w), args[0], w))]
        if n.startswith("llvm.umul.with.overflow"):
            w = i.a["args"][0][0].n
            x, y = args
            hi = bv(ZEXT(x, w, 2 * w), 2 * w) * bv(ZEXT(y, w, 2 * w), 2 * w)
            return [(st, "ret", Agg([MUL(x, y, w), simp(z3.Extract(2 * w - 1, w, hi) != 0)]))]
        raise Unsupported("intrinsic " + n)

    # ---- loops (loops.py)
    def do_loop(self, fr, blk, prev, env, st, active, body):
        import loops
        return loops.do_loop(self, fr, blk, prev, env, st, active, body)


EXTERN = {}


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self._np = {}
        self.cut = {}

    def nphi(self, blk):
        n = self._np.get(blk)
        if n is None:
            n = 0
            for i in self.fn.blocks[blk].ins:
                if i.op != "phi":
                    break
                n += 1
            self._np[blk] = n
        return n

    def pname(self, eng):
        p = eng.mod.pretty[self.fn.name]
        k = p.find("(")
        return p[:k] if k > 0 else p
