"""Contracts: specification objects attached to functions of /repo by their
demangled name.  verify() checks the body against the contract, call() is what
a caller sees (pre asserted, frame havocked, post assumed)."""
import time, z3
from engine import *
from ir import Unsupported, INT, PTR


class Contract:
    names = ()
    optional = False      # a helper: when it does not verify, callers execute the body instead
    title = ""

    def __init__(self, W):
        self.W = W        # world: module, status codes, text spec, ...

    def cases(self):
        return [None]

    def setup(self, eng, st, case):
        raise NotImplementedError

    def post(self, eng, case, st0, st, kind, v, args):
        raise NotImplementedError

    def call(self, eng, st, args, pretty):
        return NotImplemented

    def config(self, eng, case):
        pass

    def frame(self, case):
        """block ids that may change; None = no frame check"""
        return None

    def fn(self):
        for n in self.names:
            f = self.W.mod.find(n)
            if f is not None and not f.decl:
                return f
        return None

    def label(self):
        return self.title or (self.names[0] if self.names else type(self).__name__)

    def verify(self, mk, cases=None):
        """returns dict(obs, inlined, used, time, vacuous cases)"""
        f = self.fn()
        t = time.time()
        rep = dict(name=self.title or (self.names[0] if self.names else "?"), obs=[], inlined=set(), used=set(), solver=0.0,
                   queries=0, status="ok", detail="", cut=0, unrolled=0)
        if f is None:
            rep["status"] = "missing"
            rep["detail"] = "function not found: " + str(self.names)
            return rep
        for case in (self.cases() if cases is None else cases):
            eng = mk()
            eng.current = self
            eng.fname = rep["name"]
            eng.case = case
            try:
                st = State()
                args = self.setup(eng, st, case)
                self.config(eng, case)
                st0 = st.copy()
                if eng.smt.sat(st.pc) != "sat":
                    raise Unsupported("precondition of case %s is not satisfiable" % case)
                eng.base_st = st0
                outs = eng.run(f, args, st)
                nfeas = 0
                for s, kind, v in outs:
                    if not eng.feasible(s, True):
                        continue
                    nfeas += 1
                    self.post(eng, case, st0, s, kind, v, args)
                    self.check_frame(eng, case, st0, s)
                if nfeas == 0:
                    raise Unsupported("no outcome reachable in case %s" % case)
            except Unsupported as e:
                rep["status"] = "unsupported"
                rep["detail"] += "[case %s] %s; " % (case, e)
            except Budget as e:
                rep["status"] = "budget"
                rep["detail"] += "[case %s] budget: %s; " % (case, e)
            except RecursionError as e:
                rep["status"] = "unsupported"
                rep["detail"] += "[case %s] recursion; " % (case,)
            for o in eng.obs:
                if case is not None:
                    o.name = "%s {%s}" % (o.name, case)
            rep["obs"] += eng.obs
            rep["inlined"] |= eng.inlined
            rep["used"] |= eng.used
            rep["solver"] += eng.smt.time
            rep["queries"] += eng.smt.nq
            rep["cut"] += eng.loops_cut
            rep["unrolled"] += eng.loops_unrolled
        rep["time"] = time.time() - t
        return rep

    def check_frame(self, eng, case, st0, st):
        fr = self.frame(case)
        if fr is None:
            return
        for bid, b0 in st0.blocks.items():
            b = st.blocks.get(bid)
            if b is b0 or b is None:
                continue
            if bid in fr:
                allowed = fr[bid]
            else:
                allowed = ()
            if allowed == "*":
                continue
            if b.alive != b0.alive:
                eng.oblige(st, False, "frame: %s is not released" % b.name)
            for off, (sz, v) in b.cells.items():
                if off in allowed:
                    continue
                v0 = b0.cells.get(off)
                if v0 is None:
                    continue
                v0 = v0[1]
                if isinstance(v, Ptr) and isinstance(v0, Ptr):
                    g = ptreq(v, v0)
                elif isinstance(v, Ptr) or isinstance(v0, Ptr):
                    g = False
                else:
                    g = EQ(v, v0, sz * 8)
                eng.oblige(st, g, "frame: %s+%d is not modified" % (b.name, off))
            if b.bytes is not b0.bytes and "bytes" not in allowed and b0.bytes is not None:
                j = fresh("frame", 64)
                eng.oblige(st, EQ(b.bytes.rd(j), b0.bytes.rd(j), 8), "frame: bytes of %s are not modified" % b.name)
            for w, f in b.elems.items():
                f0 = b0.elems.get(w)
                if f is f0 or f0 is None or "elems" in allowed:
                    continue
                j = fresh("frame", 64)
                for x, y in zip(f if isinstance(f, tuple) else (f,), f0 if isinstance(f0, tuple) else (f0,)):
                    eng.oblige(st, EQ(x.rd(j), y.rd(j), x.vw), "frame: elements of %s are not modified" % b.name)


def reach(st, roots):
    """blocks reachable from roots: pointers in cells, and objects owned by a reachable object"""
    seen = set()
    work = [r for r in roots if isinstance(r, int)]
    owned = {}
    for bid, b in st.blocks.items():
        o = b.meta.get("owner")
        if o is not None:
            owned.setdefault(o, []).append(bid)
    while work:
        b = work.pop()
        if b in seen or b not in st.blocks:
            continue
        seen.add(b)
        bl = st.blocks[b]
        work += owned.get(b, ())
        if not bl.alive:
            continue
        for off, (sz, v) in bl.cells.items():
            if isinstance(v, Ptr) and isinstance(v.blk, int):
                work.append(v.blk)
    return seen


def leak_check(eng, st0, st, roots, tag="own"):
    """every heap block allocated since st0 is released or reachable from roots"""
    seen = reach(st, roots)
    for bid, b in st.blocks.items():
        if bid in st0.blocks or not b.alive or "heap" not in b.meta:
            continue
        eng.oblige(st, bid in seen, "%s: %s is released or handed over" % (tag, b.name))
