"""Loops: complete unrolling when the exit is provable within a few
iterations, otherwise a cut at an inductive invariant (Houdini over generated
candidates; array contents as closed forms derived from one iteration)."""
import itertools
import z3
from engine import *
from engine import _fresh
from ir import Unsupported, INT, PTR


class UnrollFail(Exception):
    pass


def do_loop(eng, fr, hdr, prev, env, st, active, body):
    lbody = fr.fn.loops[hdr]
    key = (fr.fn.name, hdr)
    force_cut = key in eng.opts.setdefault("cutset", set())
    if not force_cut:
        r = try_unroll(eng, fr, hdr, prev, env, st, active, lbody)
        if r is not None:
            outs = []
            eng.loops_unrolled += 1
            for o in r:
                if o[0] == "exit":
                    _, b, p, e, s = o
                    if body is not None and b not in body and b not in active:
                        outs.append(o)
                    else:
                        outs += eng.region(fr, b, p, e, s, active, body)
                else:
                    outs.append(o)
            return outs
        eng.opts["cutset"].add(key)
    eng.loops_cut += 1
    return Loop(eng, fr, hdr, prev, env, st, active, body).go()


def try_unroll(eng, fr, hdr, prev, env, st, active, lbody):
    nobs = len(eng.obs)
    K = eng.opts["unroll"]
    if K <= 0:
        return None
    outs = []
    work = [(prev, env, st.copy(), 0, 0)]
    total = 0
    try:
        while work:
            p, e, s, n, ntot = work.pop()
            e = dict(e)
            eng.phis(fr, hdr, p, e, s)
            npc = len(s.pc)
            # run one iteration: execute header body with hdr active
            res = run_once(eng, fr, hdr, p, e, s, active | {hdr}, lbody)
            nb = 0
            for o in res:
                if o[0] == "back" and o[1] == hdr:
                    nb += 1
                    grew = len(o[4].pc) > npc
                    n2 = n + (1 if grew else 0)
                    if n2 > K or ntot > 600:
                        raise UnrollFail()
                    work.append((o[2], o[3], o[4], n2, ntot + 1))
                else:
                    outs.append(o)
            total += len(res)
            if nb > 3 or (total > eng.opts["unroll_paths"] and n > 0):
                raise UnrollFail()
    except UnrollFail:
        del eng.obs[nobs:]
        return None
    except Unsupported:
        del eng.obs[nobs:]
        return None
    return outs


def run_once(eng, fr, hdr, prev, env, st, active, lbody):
    """execute the header block (phis already done) and the body once"""
    outs = []
    work = []
    eng.block(fr, hdr, prev, fr.nphi(hdr), env, st, work, outs)
    res = list(outs)
    for (b, p, idx, e, s, entering) in work:
        if entering:
            res += eng.region(fr, b, p, e, s, active, lbody)
        else:
            # continue inside the header (after a forking call)
            res += cont(eng, fr, b, p, idx, e, s, active, lbody)
    return res


def cont(eng, fr, blk, prev, idx, env, st, active, lbody):
    outs = []
    work = []
    eng.block(fr, blk, prev, idx, env, st, work, outs)
    res = list(outs)
    for (b, p, i2, e, s, entering) in work:
        if entering:
            res += eng.region(fr, b, p, e, s, active, lbody)
        else:
            res += cont(eng, fr, b, p, i2, e, s, active, lbody)
    return res


class Slot:
    def __init__(self, key, kind, w, v0, name):
        self.key, self.kind, self.w, self.v0, self.name = key, kind, w, v0, name
        self.alts = []       # for pointers: allowed blocks


def kind_of(v):
    if isinstance(v, Ptr):
        return "ptr", 64
    if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
        return "bool", 1
    if isinstance(v, PInt):
        return "pint", 64
    if isinstance(v, int):
        return "int", None
    if z3.is_expr(v):
        return "int", v.size()
    return "other", 0


class Loop:
    def __init__(self, eng, fr, hdr, prev, env, st, active, body):
        self.eng, self.fr, self.hdr, self.prev = eng, fr, hdr, prev
        self.env, self.st, self.active, self.body = env, st, active, body
        self.lbody = fr.fn.loops[hdr]
        self.slots = {}
        self.arrays = {}      # key -> [index of closed form]
        self.cforms = {}
        self.ghostmods = set()
        self.heapmods = set()
        self.cmps = []
        env0 = dict(env)
        eng.phis(fr, hdr, prev, env0, st)
        self.env0 = env0
        for i in fr.fn.blocks[hdr].ins:
            if i.op != "phi":
                break
            self.addslot(("phi", i.dst), env0[i.dst], i.ty.n if i.ty.k == "int" else 64, i.dst)
        self.newblocks = set()

    def addslot(self, key, v0, w, name):
        k, w2 = kind_of(v0)
        if k == "other" or k == "pint":
            raise Unsupported("loop carries " + k)
        s = Slot(key, k, w2 or w, v0, name)
        if k == "ptr":
            s.alts = [self.blkclass(v0.blk)]
        self.slots[key] = s
        return s

    def blkclass(self, b, s=None):
        if isinstance(b, int):
            if b in self.st.blocks or b == 0 or b in self.eng.globs.values():
                return b
            if s is not None and b in s.blocks and not s.blocks[b].alive:
                return ("undef", 0)
            return "FRESH"
        if isinstance(b, tuple):
            return b
        return "SYM"

    # values of the slots in some state
    def read(self, key, env, st):
        if key[0] == "phi":
            return env[key[1]]
        if key[0] == "cell":
            b = st.blocks[key[1]]
            c = b.cells.get(key[2])
            return c[1] if c else None
        if key[0] == "ghost":
            return st.ghost[key[1]]
        raise KeyError(key)

    def view(self, env, st):
        return View(self, env, st)

    def heads(self):
        """havocked states at the loop head (one per choice of pointer targets)"""
        ptrs = [s for s in self.slots.values() if s.kind == "ptr" and len(s.alts) > 1]
        for choice in itertools.product(*[s.alts for s in ptrs]):
            ch = {s.key: c for s, c in zip(ptrs, choice)}
            yield self.head(ch)

    def head(self, ch):
        st = self.st.copy()
        env = dict(self.env)
        fresh_of = {}
        for s in self.slots.values():
            if s.kind == "ptr":
                c = ch.get(s.key, s.alts[0])
                if c == "SYM":
                    v = Ptr(fresh("L" + s.name, 32), fresh("Lo" + s.name, 64))
                elif c == "FRESH":
                    nb = st.new(fresh("Lsz", 64), "loop" + s.name, "elems")
                    nb.meta["heap"] = "new[]"
                    nb.meta["loopfresh"] = True
                    v = Ptr(nb.id, 0)
                elif c == 0:
                    v = NULL
                elif isinstance(c, tuple):
                    v = Ptr(c, 0)
                else:
                    if c not in st.blocks:
                        self.eng.gl(st, next(n for n, k in self.eng.globs.items() if k == c))
                    v = Ptr(c, fresh("L" + s.name, 64))
            else:
                v = fresh("L" + s.name, s.w)
            fresh_of[s.key] = v
            self.write(s.key, v, env, st)
        V = View(self, env, st)
        for key in self.arrays:
            self.setarray(key, st, self.closed(key, V, st))
        for k in self.ghostmods:
            if ("ghost", k) not in self.slots:
                st.ghost[k] = self.eng.current.havoc_ghost(self.eng, k, self.st.ghost[k]) if self.eng.current else None
        return env, st

    def write(self, key, v, env, st):
        if key[0] == "phi":
            env[key[1]] = v
        elif key[0] == "cell":
            b = st.w(key[1])
            sz = b.cells[key[2]][0] if key[2] in b.cells else (8 if isinstance(v, Ptr) else v.size() // 8)
            b.cells[key[2]] = (sz, v)
        elif key[0] == "ghost":
            st.ghost[key[1]] = v

    # arrays
    def getarray(self, key, st):
        if key[0] == "bytes":
            return st.blocks[key[1]].bytes
        if key[0] == "elems":
            return st.blocks[key[1]].elems.get(key[2])
        if key[0] == "heap":
            return st.heap.get(key[1])

    def setarray(self, key, st, f):
        if key[0] == "bytes":
            st.w(key[1]).bytes = f
        elif key[0] == "elems":
            st.w(key[1]).elems[key[2]] = f
        elif key[0] == "heap":
            st.heap[key[1]] = f

    def havoc_like(self, f, name):
        if isinstance(f, tuple):
            return tuple(self.havoc_like(x, name) for x in f)
        return Var(name, f.vw, f.iw)

    def closed(self, key, V, st):
        forms = self.cforms[key]
        k = self.arrays[key]
        if k >= len(forms):
            f0 = self.getarray(key, self.st)
            return self.havoc_like(f0, "Larr")
        return forms[k][1](V)

    # one pass over the body
    def iterate(self, cands):
        backs = []
        eng = self.eng
        eng.quiet += 1
        try:
            for env, st in self.heads():
                V = View(self, env, st)
                for c in cands:
                    f = c[1](V)
                    if f is not None:
                        st.assume(f)
                if not eng.feasible(st, True):
                    continue
                henv, hst = dict(env), st.copy()
                self.lasthead = (henv, hst)
                self.cmps = []
                for o in run_once(eng, self.fr, self.hdr, None, env, st, self.active | {self.hdr}, self.lbody):
                    if o[0] == "back" and o[1] == self.hdr:
                        _, _, p, e, s = o
                        e = dict(e)
                        eng.phis(self.fr, self.hdr, p, e, s)
                        backs.append((henv, hst, e, s))
                        self.backenvs = [x[2] for x in backs]
        finally:
            eng.quiet -= 1
        return backs

    def grow(self, backs):
        """extend the set of loop-modified locations; True if something was added"""
        added = False
        for henv, hst, e, s in backs:
            for key, sl in list(self.slots.items()):
                if sl.kind == "ptr":
                    v = self.read(key, e, s)
                    if not isinstance(v, Ptr):
                        raise Unsupported("loop slot changes type")
                    b = v.blk
                    if not isc(b) and not isinstance(b, tuple):
                        b = simp(b)
                    c = self.blkclass(b, s)
                    if isinstance(b, int) and b in hst.blocks and hst.blocks[b].meta.get("loopfresh"):
                        c = "FRESH"
                    if c not in sl.alts:
                        if "SYM" in sl.alts and (c == 0 or isinstance(c, int)):
                            continue
                        if c == "SYM":
                            sl.alts = ["SYM"]
                        else:
                            sl.alts.append(c)
                        added = True
            for bid, b in s.blocks.items():
                hb = hst.blocks.get(bid)
                if hb is None or hb is b:
                    continue
                if bid not in self.st.blocks:
                    continue
                eb = self.st.blocks[bid]
                if hb.alive != b.alive:
                    raise Unsupported("loop frees %s" % b.name)
                for off, (sz, v) in b.cells.items():
                    key = ("cell", bid, off)
                    if key in self.slots:
                        continue
                    hv = hb.cells.get(off)
                    if hv is not None and same_val(hv[1], v):
                        continue
                    ev = eb.cells.get(off)
                    if ev is None:
                        if hv is None and not b.name.startswith("local"):
                            # first touched inside the loop: materialise in the entry state
                            pass
                        if isinstance(v, Ptr):
                            if b.name.startswith("local"):
                                v0 = Ptr(("undef", 0), 0)
                            else:
                                raise Unsupported("loop initialises pointer " + b.name)
                        else:
                            v0 = fresh("uninit", sz * 8)
                        self.st.w(bid).cells[off] = (sz, v0)
                        ev = (sz, v0)
                    if not isinstance(v, Ptr) and isinstance(ev[1], Ptr):
                        raise Unsupported("loop changes cell type")
                    self.addslot(key, ev[1], sz * 8, "%s+%d" % (b.name, off))
                    sl = self.slots[key]
                    if sl.kind == "ptr" and isinstance(v, Ptr):
                        c = self.blkclass(v.blk if (isc(v.blk) or isinstance(v.blk, tuple)) else simp(v.blk), s)
                        if c not in sl.alts:
                            sl.alts.append(c)
                    added = True
                if b.bytes is not hb.bytes and b.bytes is not None:
                    key = ("bytes", bid)
                    if key not in self.arrays:
                        if eb.bytes is None:
                            self.st.w(bid).getbytes()
                        self.arrays[key] = 0
                        self.cforms[key] = []
                        added = True
                for w, f in b.elems.items():
                    if hb.elems.get(w) is not f:
                        key = ("elems", bid, w)
                        if key not in self.arrays:
                            if w not in eb.elems:
                                nb = self.st.w(bid)
                                nb.elems[w] = (Var("e.pi", 32), Var("e.po", 64)) if w == "p" else Var("e", w * 8)
                            self.arrays[key] = 0
                            self.cforms[key] = []
                            added = True
            for k, f in s.heap.items():
                if hst.heap.get(k) is not f:
                    key = ("heap", k)
                    if key not in self.arrays:
                        if k not in self.st.heap:
                            self.st.heap[k] = hst.heap.get(k) or self.eng.hfn(self.st, k)
                        self.arrays[key] = 0
                        self.cforms[key] = []
                        added = True
            for k, v in s.ghost.items():
                hv = hst.ghost.get(k)
                if hv is v or (z3.is_expr(hv) and z3.is_expr(v) and hv.eq(v)) or hv == v is True:
                    continue
                if isinstance(v, (int, bool)) and isinstance(hv, (int, bool)) and v == hv:
                    continue
                if z3.is_expr(v) or (isc(v) and not isinstance(v, str)):
                    key = ("ghost", k)
                    if key not in self.slots:
                        w = v.size() if z3.is_expr(v) and z3.is_bv(v) else (1 if (isinstance(v, bool) or z3.is_expr(v)) else 64)
                        if k not in self.st.ghost:
                            self.st.ghost[k] = fresh("ghost", w)
                        self.addslot(key, self.st.ghost[k], w, "ghost_" + str(k))
                        added = True
                else:
                    key = ("ghost", k)
                    if k not in self.ghostmods:
                        self.ghostmods.add(k)
                        added = True
        return added

    def derive_forms(self, backs):
        """closed forms of array contents from a single iteration"""
        eng = self.eng
        lin = self.strides(backs)
        self.lin = lin
        for key in self.arrays:
            forms = []
            f0 = self.getarray(key, self.st)
            fs0 = f0 if isinstance(f0, tuple) else (f0,)
            gens = []
            for henv, hst, e, s in backs:
                fb = self.getarray(key, s)
                fh = self.getarray(key, hst)
                fbs = fb if isinstance(fb, tuple) else (fb,)
                fhs = fh if isinstance(fh, tuple) else (fh,)
                g = []
                ok = True
                for a, h, z in zip(fbs, fhs, fs0):
                    if a is h:
                        g.append(None)
                        continue
                    if isinstance(a, Store) and a.base is h:
                        g.append((a.i, a.v, h, z))
                    else:
                        ok = False
                if ok and any(x is not None for x in g):
                    gens.append((henv, hst, g))
            if gens:
                form = self.gen_form(gens[0], fs0, lin, isinstance(f0, tuple))
                if form:
                    forms += form
            for cf in eng.closedforms:
                forms += cf(self, key, f0) or []
            self.cforms[key] = forms

    def strides(self, backs):
        lin = {}
        for key, sl in self.slots.items():
            if sl.kind not in ("int", "ptr"):
                continue
            cs = set()
            for henv, hst, e, s in backs:
                a, b = self.read(key, henv, hst), self.read(key, e, s)
                if sl.kind == "ptr":
                    if not (blkeq(a.blk, b.blk) is True):
                        cs.add(None)
                        continue
                    d = SUB(b.off, a.off)
                else:
                    d = SUB(b, a, sl.w)
                    d = SEXT(d, sl.w, 64) if isc(d) else d
                if not isc(d):
                    d = self.const_on(s.pc, d, 64 if sl.kind == "ptr" else sl.w)
                cs.add(d if isc(d) else None)
                if None in cs:
                    break
            if len(cs) == 1 and None not in cs:
                lin[key] = sgn(cs.pop(), 64)
        return lin

    def const_on(self, pc, d, w):
        """the value of d (sign-extended) when the path fixes it"""
        eng = self.eng
        d = simp(d)
        if not any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in subterms(d)):
            return None
        if eng.smt.sat(pc, None, inc_only=True) != "sat":
            return None
        try:
            c = eng.smt.model.eval(d, model_completion=True).as_long()
        except Exception:
            return None
        if c != 0 and abs(sgn(c, w)) > 4096:
            return None
        if eng.smt.sat(pc, NOT(EQ(d, c, w)), inc_only=True) != "unsat":
            return None
        return SEXT(c, w, 64)

    def gen_form(self, gen, fs0, lin, istuple):
        henv, hst, g = gen
        # head variable -> slot
        hv = {}
        for key, sl in self.slots.items():
            v = self.read(key, henv, hst)
            t = v.off if sl.kind == "ptr" else v
            if z3.is_expr(t) and z3.is_const(t):
                hv[t.get_id()] = (t, key, sl)
        first = next(x for x in g if x is not None)
        idx = first[0]
        if isc(idx):
            return []

        def subst(term, valof):
            if isc(term):
                return term
            pairs = []
            for t, key, sl in hv.values():
                pairs.append((t, bv(valof(key, sl), t.size()) if z3.is_bv(t) else b2(valof(key, sl))))
            return simp(z3.substitute(term, *pairs))

        def entry(key, sl):
            return sl.v0.off if sl.kind == "ptr" else sl.v0

        def stepped(key, sl):
            v = entry(key, sl)
            w = 64 if sl.kind == "ptr" else sl.w
            if key in lin:
                return ADD(v, lin[key] & mask(w), w)
            return bv(v, w)

        idx0 = subst(idx, entry)
        d = SUB(subst(idx, stepped), idx0)
        if not isc(d) or d == 0:
            return []
        c = sgn(d, 64)
        allvars = set()

        def occurs(term):
            if isc(term):
                return
            st_ = [term]
            seen = set()
            while st_:
                x = st_.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.get_id() in hv:
                    allvars.add(x.get_id())
                st_.extend(x.children())
        occurs(idx)
        vals = []
        for x in g:
            if x is None:
                vals.append(None)
                continue
            if not (isc(x[0]) is False and simp(EQ(x[0], idx)) is True):
                return []
            occurs(x[1])
            vals.append(x[1])
        for i in allvars:
            t, key, sl = hv[i]
            if key not in lin:
                return []

        def vfor(i, V):
            # iteration number as a function of the index
            rel = SUB(i, idx0)

            def at(key, sl):
                v = entry(key, sl)
                w = 64 if sl.kind == "ptr" else sl.w
                cy = lin.get(key, 0)
                if cy == 0:
                    return v
                if cy % c == 0:
                    q = cy // c
                    return ADD(v, TRUNC(MUL(rel, q & M64), 64, w), w)
                if c % cy == 0:
                    q = c // cy
                    r = rel if q > 0 else SUB(0, rel)
                    q = abs(q)
                    if q & (q - 1) == 0:
                        r = simp(z3.LShR(bv(r, 64), q.bit_length() - 1)) if q > 1 else r
                        return ADD(v, TRUNC(r, 64, w), w)
                raise Unsupported("stride ratio")
            out = []
            for x in g:
                if x is None:
                    out.append(None)
                    continue
                v = subst(x[1], at)
                out.append(self.unhavoc(v, x[2], x[3]))
            return out

        def form(V):
            now = subst(idx, lambda key, sl: (lambda q: q.off if sl.kind == "ptr" else q)(V.raw(key)))

            def mk(k, z):
                if g[k] is None:
                    return z

                def rd(i):
                    if c > 0:
                        inr = ULT(SUB(i, idx0), SUB(now, idx0))
                    else:
                        inr = ULT(SUB(idx0, i), SUB(idx0, now))
                    return ITE(inr, vfor(i, V)[k], z.rd(i), z.vw)
                return Lam(rd, z.vw, z.iw)
            r = tuple(mk(k, z) for k, z in enumerate(fs0))
            return r if istuple else r[0]

        def form_range(V):
            now = subst(idx, lambda key, sl: (lambda q: q.off if sl.kind == "ptr" else q)(V.raw(key)))
            hv_ = tuple(Var("Lrng", z.vw, z.iw) for z in fs0)

            def mk(k, z):
                def rd(i):
                    if c > 0:
                        inr = ULT(SUB(i, idx0), SUB(now, idx0))
                    else:
                        inr = ULT(SUB(idx0, i), SUB(idx0, now))
                    return ITE(inr, hv_[k].rd(i), z.rd(i), z.vw)
                return Lam(rd, z.vw, z.iw)
            r = tuple(mk(k, z) for k, z in enumerate(fs0))
            return r if istuple else r[0]
        try:
            vfor(fresh("probe", 64), None)
            return [("copy", form), ("range", form_range)]
        except Unsupported:
            return [("range", form_range)]

    def unhavoc(self, v, h, z):
        """replace reads of the havocked head contents by reads of the entry contents"""
        if isc(v) or not isinstance(h, Var):
            return v
        for _ in range(4):
            hits = []
            st_ = [v]
            seen = set()
            while st_:
                x = st_.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.num_args() == 1 and x.decl().eq(h.f):
                    hits.append(x)
                st_.extend(x.children())
            if not hits:
                return v
            v = simp(z3.substitute(v, *[(x, bv(z.rd(x.arg(0)), z.vw)) for x in hits]))
            if isc(v):
                return v
        return v

    def go(self):
        eng = self.eng
        # 1. modified locations
        for rnd in range(eng.opts["loopcap"]):
            backs = self.iterate([])
            if not self.grow(backs):
                break
        else:
            raise Budget("loop modified set")
        if not backs:
            return self.finish([])
        self.derive_forms(backs)
        # 2. candidates
        cands = self.candidates(backs)
        eview = View(self, self.env0, self.st)
        cands = self.houdini_filter(self.st.pc, cands, lambda c: c[1](eview))
        # closed forms must describe the entry contents
        for key in self.arrays:
            while self.arrays[key] < len(self.cforms[key]):
                if self.form_holds(key, eview, self.getarray(key, self.st), self.st.pc):
                    break
                self.arrays[key] += 1
        # 3. Houdini
        for rnd in range(eng.opts["loopcap"] * 4):
            backs = self.iterate(cands)
            if self.grow(backs):
                self.derive_forms(backs)
                cands = self.candidates(backs)
                cands = self.houdini_filter(self.st.pc, cands, lambda c: c[1](eview))
                continue
            n = len(cands)
            bad = False
            if eng.opts.get("verbose"):
                print("   houdini %s round %d: %d back edges, %d candidates, %.0fs" % (self.hdr, rnd, len(backs), n, eng.smt.time), flush=True)
            # refutations first: what the solver refutes quickly goes before anything costly is proved
            for henv, hst, e, s in backs:
                V = View(self, e, s)
                cands = self.houdini_filter(s.pc, cands, lambda c: c[1](V), quick=True)
            if len(cands) < n and not self.arrays:
                continue
            for henv, hst, e, s in backs:
                V = View(self, e, s)
                for key in list(self.arrays):
                    if self.arrays[key] < len(self.cforms[key]):
                        if not self.form_holds(key, V, self.getarray(key, s), s.pc):
                            self.arrays[key] += 1
                            bad = True
                if not bad:
                    cands = self.houdini_filter(s.pc, cands, lambda c: c[1](V))
            if not bad and len(cands) == n:
                self.check_measure(backs)
                return self.finish(cands)
            if bad:
                # a weaker array description: restart with all candidates
                cands = self.candidates(backs)
                cands = self.houdini_filter(self.st.pc, cands, lambda c: c[1](eview))
        raise Budget("loop invariants")

    def form_holds(self, key, V, actual, pc):
        cf = self.cforms[key][self.arrays[key]]
        f = cf[1](V)
        fs = f if isinstance(f, tuple) else (f,)
        as_ = actual if isinstance(actual, tuple) else (actual,)
        for a, b in zip(as_, fs):
            # a form known at one ghost index only is checked (and readable) there only
            j = cf[2] if len(cf) > 2 else fresh("j", a.iw)
            try:
                goal = EQ(a.rd(j), b.rd(j), a.vw)
            except Unsupported:
                return False
            goal = simp(goal)
            if goal is True:
                continue
            r = self.eng.smt.sat(pc, NOT(goal))
            if r == "unknown":
                r = self.eng.retry(pc, NOT(goal))
            if r != "unsat":
                return False
        return True

    def houdini_filter(self, pc, cands, ev, quick=False):
        eng = self.eng
        fs = []
        for c in cands:
            f = ev(c)
            if f is None:
                f = True
            f = simp(f)
            if f is False:
                continue
            fs.append((c, f))
        while True:
            rest = [f for _, f in fs if f is not True]
            if not rest:
                break
            r = eng.smt.sat(pc, NOT(AND(*rest)), inc_only=True)
            if r == "unsat":
                break
            if r == "sat":
                m = eng.smt.model
                keep = []
                for c, f in fs:
                    if f is True:
                        keep.append((c, f))
                        continue
                    v = m.eval(f, model_completion=True)
                    if z3.is_false(v):
                        continue
                    keep.append((c, f))
                if len(keep) == len(fs):
                    r = "unknown"
                else:
                    fs = keep
                    continue
            # unknown: check one by one
            if quick:
                fs = [(c, f) for c, f in fs if f is True or eng.smt.sat(pc, NOT(f), timeout=250, inc_only=True) != "sat"]
                break
            keep = []
            for c, f in fs:
                if f is True or eng.smt.sat(pc, NOT(f), timeout=12000) == "unsat":
                    keep.append((c, f))
            fs = keep
            break
        return [c for c, _ in fs]

    def check_measure(self, backs):
        eng = self.eng
        if eng.quiet or not eng.measure_required:
            return
        name = "loop in %s terminates" % self.fr.pname(eng)
        tried = []
        for key, sl in self.slots.items():
            if sl.kind == "bool":
                continue
            for mk in measures(self, key, sl):
                ok = True
                for henv, hst, e, s in backs:
                    a = self.read(key, henv, hst)
                    b = self.read(key, e, s)
                    g = mk(a, b)
                    if g is None or not eng.valid(s.pc, g):
                        ok = False
                        break
                if ok:
                    eng.obs.append(Oblig(name, "ok"))
                    return
        if eng.current is not None and hasattr(eng.current, "loop_measure"):
            for mk in eng.current.loop_measure(self):
                if all(eng.valid(s.pc, mk(View(self, he, hs), View(self, e, s))) for he, hs, e, s in backs):
                    eng.obs.append(Oblig(name, "ok"))
                    return
        eng.obs.append(Oblig(name, "failed", "no decreasing measure found"))

    def finish(self, cands):
        eng = self.eng
        outs = []
        for env, st in self.heads():
            V = View(self, env, st)
            for c in cands:
                f = c[1](V)
                if f is not None:
                    st.assume(f)
            if not eng.feasible(st, True):
                continue
            st.trace.append("[loop %s]" % self.hdr)
            self.final_inv = [c[0] for c in cands]
            known = set(st.blocks)
            for o in self.full(env, st):
                if o[0] == "back" and o[1] == self.hdr:
                    self.loop_leaks(known, o[4])
                    continue
                outs.append(o)
        if eng.opts.get("verbose"):
            print("   loop %s %s: %d slots %d arrays inv=%s forms=%s" % (
                self.fr.fn.name[-30:], self.hdr, len(self.slots), len(self.arrays), [c[0] for c in cands],
                {k: (self.cforms[k][v][0] if v < len(self.cforms[k]) else "havoc") for k, v in self.arrays.items()}))
        return outs

    def loop_leaks(self, known, s):
        """storage allocated in one iteration is released or owned by something that outlives it"""
        eng = self.eng
        if eng.quiet or not getattr(eng.current, "loop_ownership", False):
            return
        from base import reach
        held = reach(s, [b for b in known] + [bid for bid, b in s.blocks.items() if b.meta.get("owner") is not None])
        for bid, b in list(s.blocks.items()):
            if bid in known or not b.alive or "heap" not in b.meta or bid in held:
                continue
            eng.oblige(s, False, "own: %s is released or handed over in every iteration" % b.name)

    def full(self, env, st):
        eng = self.eng
        outs = []
        work = [(self.hdr, None, self.fr.nphi(self.hdr), env, st)]
        act = self.active | {self.hdr}
        res = []
        w2 = []
        eng.block(self.fr, self.hdr, None, self.fr.nphi(self.hdr), env, st, w2, outs)
        while w2:
            (b, p, idx, e, s, entering) = w2.pop()
            if entering:
                outs += eng.region(self.fr, b, p, e, s, act, self.lbody)
            else:
                eng.block(self.fr, b, p, idx, e, s, w2, outs)
        final = []
        for o in outs:
            if o[0] == "exit":
                _, b, p, e, s = o
                if self.body is not None and b not in self.body and b not in self.active:
                    final.append(o)
                else:
                    final += eng.region(self.fr, b, p, e, s, self.active, self.body)
            else:
                final.append(o)
        return final

    # ------------------------------------------------ candidates
    def candidates(self, backs):
        out = []
        eng = self.eng
        lin = self.lin
        nums = [s for s in self.slots.values() if s.kind in ("int", "ptr")]
        bools = [s for s in self.slots.values() if s.kind == "bool"]
        undef = lambda s: isinstance(s.v0, Ptr) and isinstance(s.v0.blk, tuple)

        def num(V, s):
            v = V.raw(s.key)
            if s.kind == "ptr":
                if isinstance(v.blk, tuple):
                    return None
                return v.off
            return SEXT(v, s.w, 64)

        def num0(s):
            return s.v0.off if s.kind == "ptr" else SEXT(s.v0, s.w, 64)

        def rel(f, *ss):
            def g(V):
                xs = []
                for s in ss:
                    x = num(V, s)
                    if x is None:
                        return None
                    xs.append(x)
                return f(*xs)
            return g
        for s in nums:
            if undef(s):
                continue
            z = num0(s)
            if s.kind == "ptr":
                def same(V, s=s):
                    return ptreq(V.raw(s.key), s.v0)
                out.append(("%s unchanged" % s.name, same))
            else:
                out.append(("%s unchanged" % s.name, rel(lambda x, z=z: EQ(x, z), s)))
            out.append(("%s >= start" % s.name, rel(lambda x, z=z: SLE(z, x), s)))
            out.append(("%s <= start" % s.name, rel(lambda x, z=z: SLE(x, z), s)))
            if s.kind == "int":
                out.append(("%s >= 0" % s.name, rel(lambda x: SLE(0, x), s)))
            if s.kind == "ptr":
                def inb(V, s=s):
                    v = V.raw(s.key)
                    if not isinstance(v.blk, int) or v.blk == 0:
                        return None
                    b = V.st.blocks.get(v.blk)
                    if b is None:
                        return None
                    lim = b.size if b.limit is None else b.limit
                    return ULE(v.off, lim)
                out.append(("%s in block" % s.name, inb))

                def sp(V, s=s):
                    return EQ(V.raw(s.key).off, 0)
                out.append(("%s at block start" % s.name, sp))
            c = lin.get(s.key)
            if c and abs(c) > 1 and abs(c) & (abs(c) - 1) == 0:
                out.append(("%s aligned" % s.name, rel(lambda x, z=z, c=c: EQ(simp((bv(SUB(x, z), 64)) & bv(abs(c) - 1, 64)), 0), s)))
        for a, b in itertools.combinations(nums, 2):
            if not getattr(eng.current, "pair_candidates", True):
                break
            if undef(a) or undef(b):
                continue
            za, zb = num0(a), num0(b)
            ca, cb = lin.get(a.key), lin.get(b.key)
            if ca and cb:
                out.append(("%s ~ %s" % (a.name, b.name), rel(
                    lambda x, y, za=za, zb=zb, ca=ca, cb=cb: EQ(MUL(SUB(x, za), cb & M64), MUL(SUB(y, zb), ca & M64)), a, b)))
            elif ca is None and cb is None:
                out.append(("%s - %s const" % (a.name, b.name), rel(
                    lambda x, y, za=za, zb=zb: EQ(SUB(x, za), SUB(y, zb)), a, b)))
                out.append(("%s + %s const" % (a.name, b.name), rel(
                    lambda x, y, za=za, zb=zb: EQ(SUB(x, za), SUB(zb, y)), a, b)))
        # bounds from comparisons in the body
        for (s, n, nm) in self.cmp_bounds():
            out.append(("%s <= %s" % (s.name, nm), rel(lambda x, n=n: SLE(x, n), s)))
            out.append(("%s >= %s" % (s.name, nm), rel(lambda x, n=n: SLE(n, x), s)))
            out.append(("%s <u %s" % (s.name, nm), rel(lambda x, n=n: ULE(x, n), s)))
            if not undef(s) and lin.get(s.key):
                z = num0(s)
                if not (isc(z) and isc(n)):
                    if lin[s.key] < 0:
                        out.append(("%s >= min(start, %s)" % (s.name, nm), rel(lambda x, n=n, z=z: OR(SLE(z, x), SLE(n, x)), s)))
                    else:
                        out.append(("%s <= max(start, %s)" % (s.name, nm), rel(lambda x, n=n, z=z: OR(SLE(x, z), SLE(x, n)), s)))
        for s in bools:
            for val in (True, False):
                out.append(("%s == %s" % (s.name, val), lambda V, s=s, val=val: EQ(V.raw(s.key), val)))
        # guards by flags: flag -> number unchanged
        flags = self.flagconds(bools, nums)
        for fname, fcond in flags:
            for s in nums:
                if undef(s) or s.kind != "ptr" and s.w == 1:
                    continue
                z = num0(s)
                out.append(("%s -> %s unchanged" % (fname, s.name),
                            lambda V, fcond=fcond, s=s, z=z: None if num(V, s) is None else IMP(fcond(V), EQ(num(V, s), z))))
        for g in eng.candgen:
            out += g(self, flags) or []
        return out

    def flagconds(self, bools, nums):
        fl = []
        for s in bools:
            fl.append(("%s" % s.name, lambda V, s=s: V.raw(s.key)))
            fl.append(("!%s" % s.name, lambda V, s=s: NOT(V.raw(s.key))))
        for s in nums:
            if s.kind == "int" and isc(s.v0) and s.v0 in (0, 1) and s.key not in self.lin:
                fl.append(("%s==%d" % (s.name, s.v0), lambda V, s=s: EQ(V.raw(s.key), s.v0, s.w)))
                fl.append(("%s!=%d" % (s.name, s.v0), lambda V, s=s: NOT(EQ(V.raw(s.key), s.v0, s.w))))
        # byte-sized flags in memory
        for key in self.arrays:
            if key[0] == "bytes" and isc(self.st.blocks[key[1]].size) and self.st.blocks[key[1]].size == 1:
                fl.append(("flag%d" % key[1], lambda V, key=key: EQ(V.st.blocks[key[1]].getbytes().rd(0), 0, 8)))
                fl.append(("!flag%d" % key[1], lambda V, key=key: NOT(EQ(V.st.blocks[key[1]].getbytes().rd(0), 0, 8))))
        return fl

    def cmp_bounds(self):
        """(slot, bound term, name): loop-invariant values a slot is compared with"""
        res = []
        seen = set()
        fn = self.fr.fn
        inloop = set()
        for b in self.lbody:
            for i in fn.blocks[b].ins:
                if i.dst:
                    inloop.add(i.dst)
        defs = {}
        for b in fn.blocks.values():
            for i in b.ins:
                if i.dst:
                    defs[i.dst] = i

        def root(v, d=0):
            """slots a value is derived from by casts / +const"""
            if v[0] != "r" or d > 4:
                return []
            r = v[1]
            out = []
            if ("phi", r) in self.slots:
                out.append(self.slots[("phi", r)])
                return out
            i = defs.get(r)
            if i is None or r not in inloop:
                return out
            if i.op in ("sext", "zext", "trunc"):
                return root(i.a[1], d + 1)
            if i.op in ("add", "sub") and i.a[1][0] == "c":
                return root(i.a[0], d + 1)
            if i.op == "getelementptr" and all(x[1][0] == "c" for x in i.a[1]):
                return root(i.a[0], d + 1)
            if i.op == "load":
                a = i.a[0]
                # load of a slot cell
                env, st = self.lasthead
                try:
                    p = self.eng.val(st, env, a, PTR) if (a[0] != "r" or a[1] in env) else None
                except Exception:
                    p = None
                if p is not None and isinstance(p.blk, int) and isc(p.off) and ("cell", p.blk, p.off) in self.slots:
                    return [self.slots[("cell", p.blk, p.off)]]
            return out

        def inv(v, ty):
            """loop-invariant value -> 64-bit term"""
            try:
                if v[0] == "r" and v[1] in inloop:
                    i = defs[v[1]]
                    if i.op in ("sext", "zext", "trunc", "add", "sub", "lshr", "ashr", "sdiv", "udiv", "load", "getelementptr", "mul", "and"):
                        pass
                    x = self.henv_val(v[1])
                    if x is None:
                        return None
                else:
                    env, st = self.lasthead
                    x = self.eng.val(st, env, v, ty)
            except Exception:
                return None
            if isinstance(x, Ptr):
                if not isinstance(x.blk, int):
                    return None
                x = x.off
            elif isinstance(x, (PInt, Agg)):
                return None
            else:
                if ty.k != "int" or ty.n == 1:
                    return None
                x = SEXT(x, ty.n, 64)
            if self.depends(x):
                return None
            return x
        for b in self.lbody:
            for i in fn.blocks[b].ins:
                if i.op != "icmp":
                    continue
                _, a, c = i.a
                for x, y in ((a, c), (c, a)):
                    for s in root(x):
                        n = inv(y, i.ty)
                        if n is None:
                            continue
                        for k, (m, nm) in enumerate(((n, "n"), (ADD(n, 1), "n+1"), (SUB(n, 1), "n-1"))):
                            kk = (s.key, m if isc(m) else m.get_id())
                            if kk not in seen:
                                seen.add(kk)
                                res.append((s, m, nm))
        return res

    def henv_val(self, reg):
        for e in getattr(self, "backenvs", []):
            if reg in e:
                return e[reg]
        return None

    def depends(self, x):
        if isc(x):
            return False
        st_ = [x]
        seen = set()
        env, st = self.lasthead
        hv = set()
        for key, sl in self.slots.items():
            v = self.read(key, env, st)
            t = v.off if sl.kind == "ptr" else v
            if z3.is_expr(t):
                hv.add(t.get_id())
        while st_:
            y = st_.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if y.get_id() in hv:
                return True
            if z3.is_app(y) and (y.decl().name().startswith("L") and "!" in y.decl().name()):
                return True
            st_.extend(y.children())
        return False


class View:
    """slot values at one program point"""

    def __init__(self, loop, env, st):
        self.loop, self.env, self.st = loop, env, st

    def raw(self, key):
        return self.loop.read(key, self.env, self.st)


def subterms(t, cap=200):
    seen = set()
    st_ = [t]
    while st_ and len(seen) < cap:
        x = st_.pop()
        if isc(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        st_.extend(x.children())


def same_val(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return ptreq(a, b) is True
    if isc(a) and isc(b):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def measures(loop, key, sl):
    """candidate ranking functions from (value at head, value at back edge)"""
    def num(v):
        return v.off if isinstance(v, Ptr) else SEXT(v, sl.w, 64)

    def down(a, b):
        return AND(ULT(num(b), num(a)))
    yield down
    bounds = []
    if sl.kind == "ptr":
        def upb(a, b):
            if not isinstance(b.blk, int) or b.blk == 0:
                return None
            blk = loop.st.blocks.get(b.blk)
            if blk is None or blkeq(a.blk, b.blk) is not True:
                return None
            lim = blk.size if blk.limit is None else blk.limit
            return AND(ULT(num(a), num(b)), ULE(num(b), lim))
        yield upb
    for s, n, nm in loop.cmp_bounds():
        if s is sl:
            yield lambda a, b, n=n: AND(SLT(num(a), num(b)), SLE(num(b), n))
            yield lambda a, b, n=n: AND(SLT(num(b), num(a)), SLE(n, num(b)))
            yield lambda a, b, n=n: AND(ULT(num(a), num(b)), ULE(num(b), n))
