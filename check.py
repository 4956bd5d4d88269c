#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: contract-based deductive verification of /repo for one property.

Every run compiles /repo's current sources to LLVM IR, generates the proof
obligations of the functions the property depends on from that code and their
contracts, and has the solvers discharge them.  Alongside, the property's
falsifier runs the real code: it supplies failing inputs and is the (bounded,
labelled) stand-in for the functions that are not under contract."""
import hashlib, importlib, json, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "irv"))
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
CORES = max(2, min(8, os.cpu_count() or 2))

import registry

W = None
CS = {}
BUDGET = {"quick": 420, "thorough": 780}.get(TIER, 420)
T0 = time.time()


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- falsifier

def build_harness(tmp, src, wrap, flags):
    exe = os.path.join(tmp, "h_" + src)
    base = ["bash", os.path.join(HERE, "harness", "build_h.sh"), os.path.join(HERE, "harness", src + ".cpp"), exe, REPO,
            "wrap" if wrap else "nowrap"]
    for extra in ([], ["-DPUBLIC_ONLY"]):
        p = subprocess.run(base + flags + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            return exe, ""
    return None, p.stdout.decode(errors="replace")[-3000:]


def run_harness(prop, tmp, exe, mode, seed, budget, args=()):
    d = tempfile.mkdtemp(dir=tmp)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")

    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    try:
        p = subprocess.run([exe, mode, str(seed), str(budget), d] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=env, preexec_fn=lim, timeout=budget * 4 + 150, cwd=d)
        rc, out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", (e.stdout or b"").decode(errors="replace")
    case = b""
    try:
        b = open(os.path.join(d, "current." + mode), "rb").read()
        n = int.from_bytes(b[:8], "little")
        case = b[8:8 + n]
    except OSError:
        pass
    ev = nt = 0
    m = re.search(r"^DONE\t(\d+)\t(\d+)", out, re.M)
    if m:
        ev, nt = int(m.group(1)), int(m.group(2))
    ok = rc == 0 and m is not None
    what = ""
    if not ok:
        m = re.search(r"^FAIL\t(.*)", out, re.M)
        what = m.group(1) if m else ("the code under test does not come back" if rc == "timeout" else
                                     (re.findall(r"^.*(?:runtime error|ERROR: AddressSanitizer|terminate called).*$", out, re.M) or ["exit status %s" % rc])[0])
    return dict(ok=ok, what=what, case=case, out=out[-6000:], ev=ev, nt=nt, rc=rc, mode=mode, seed=seed)


def harness_job(q, prop, tmp, P):
    try:
        res = []
        errs = []
        for src, wrap, flags, mode in P["harness"]:
            exe, err = build_harness(tmp, src, wrap, flags)
            if not exe:
                errs.append("%s does not build against the current sources: %s" % (src, err))
                continue
            n = P.get("hprocs", 2)
            bud = P.get("hbudget", 25) * (8 if TIER == "thorough" else 1)
            with mp.pool.ThreadPool(n) as tp:
                rs = tp.map(lambda i: run_harness(prop, tmp, exe, mode, SEED * 100 + i, bud), range(n))
            for r in rs:
                r["src"] = src
                if r["ok"] and r["case"]:
                    r["sample"] = repr(r["case"][:200])
            res += rs
            for r in rs:
                if not r["ok"]:
                    # does the recorded case reproduce it?
                    f = os.path.join(tmp, "rep")
                    open(f, "wb").write(b"\nCASE\n" + r["case"])
                    r2 = run_harness(prop, tmp, exe, mode, r["seed"], 5, [f])
                    r["reproduced"] = not r2["ok"]
        q.put((res, errs))
    except Exception:
        q.put(([], [traceback.format_exc()]))


# ---------------------------------------------------------------- prover

def contracts_for(P):
    mods = []
    for c in P["contracts"]:
        m = c.split(".")[0]
        if m not in mods:
            mods.append(m)
    return mods


def task(t):
    kind = t[0]
    try:
        if kind == "lemma":
            from engine import Spec
            from jspec import Text
            s = Spec(2)
            X = Text(s, "", 1 << 31)
            t0 = time.time()
            L = t[1]
            import z3
            i = z3.BitVec("lem_i", 64)
            k = X.LEMMAS.index(L)
            ok = X._prove_one(L, i, X.lemma_goal(L, i), list(X.LEMMAS[:k]), 240000)
            return dict(task=t, status="ok" if ok else "unknown", obs=[("lemma %s" % L, "ok" if ok else "unknown", "", time.time() - t0)],
                        detail="", solver=time.time() - t0, queries=1, inlined=[], used=[], cut=0, unrolled=0, time=time.time() - t0, hash="")
        _, name, case, dropped, opts = t
        c = CS[name]
        cs = {}
        for n2, c2 in CS.items():
            if n2 in dropped:
                continue
            if n2 == name and not getattr(c2, "recursive", False):
                continue
            for fn in c2.names:
                cs[fn] = c2

        def mk():
            return W.engine(cs, dict(deadline=time.time() + opts.get("deadline", 300), **{k: v for k, v in opts.items() if k != "deadline"}))
        r = c.verify(mk, [case])
        f = c.fn()
        h = ""
        return dict(task=t, status=r["status"], detail=r["detail"][:2000],
                    obs=[(o.name, o.status, (o.detail or "")[:1500], round(o.t, 3)) for o in r["obs"]],
                    solver=r["solver"], queries=r["queries"], inlined=sorted(r["inlined"]), used=sorted(r["used"]),
                    cut=r["cut"], unrolled=r["unrolled"], time=r.get("time", 0), hash=h)
    except Exception:
        return dict(task=t, status="unsupported", detail="internal: " + traceback.format_exc()[-1500:], obs=[], solver=0, queries=0,
                    inlined=[], used=[], cut=0, unrolled=0, time=0, hash="")


def body_text(f):
    return re.sub(r"(, ![\w.]+ !\d+|#\d+|!\d+)", "", "\n".join(f.raw))


def glob_text(mod, m):
    return re.sub(r"(, ![\w.]+ !\d+|#\d+|!\d+)", "", str(mod._gl[m]))


def code_hash(mod, roots):
    """the IR text of the functions reachable from these"""
    seen = set()
    work = [f for f in roots if f]
    h = hashlib.sha256()
    names = []
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        f = mod.funcs.get(n)
        if f is None or f.decl:
            continue
        names.append(n)
        for m in re.findall(r'@("[^"]+"|[\w.$]+)', body_text(f)):
            m = "@" + m.strip('"')
            if m in mod.funcs:
                work.append(m)
    gl = set()
    ty = set()
    todo = []
    for n in sorted(names):
        t = body_text(mod.funcs[n])
        h.update(n.encode() + b"\n" + t.encode())
        todo.append(t)
    while todo:
        t = todo.pop()
        for m in re.findall(r'@("[^"]+"|[\w.$]+)', t):
            m = "@" + m.strip('"')
            if m in mod._gl and m not in gl:
                gl.add(m)
                todo.append(glob_text(mod, m))
        for m in re.findall(r'%"[^"]+"', t):
            if m in mod._tl and m not in ty:
                ty.add(m)
                todo.append(str(mod._tl[m]))
    for m in sorted(gl):
        h.update(("%s %s\n" % (m, glob_text(mod, m))).encode())
    for m in sorted(ty):
        h.update(("%s %s\n" % (m, mod._tl[m])).encode())
    return h.hexdigest()[:16]


def baseline():
    try:
        return json.load(open(os.path.join(HERE, "baseline.json")))
    except OSError:
        return {}


def prove(P, tmp):
    global W, CS
    from world import World
    t0 = time.time()
    W = World(os.path.join(tmp, "ir"), REPO, registry.TUS)
    insts = {}
    for c in registry.ORDER:
        mod, cls = c.split(".")
        insts[c] = getattr(importlib.import_module(mod), cls)(W)
    CS = insts
    want = [n for n in P["contracts"] if not getattr(insts[n], "assumed", False)]
    base = baseline()
    same = {}

    def unchanged(n):
        """the code is, to the letter, the code this contract was discharged for"""
        if n not in same:
            f = CS[n].fn()
            same[n] = bool(f) and base.get(n) == code_hash(W.mod, [f.name])
        return same[n]
    results = {}
    dropped = set(n for n, c in CS.items() if c.fn() is None)
    ctx = mp.get_context("fork")
    deadline = T0 + BUDGET

    def run(tasks):
        # longest first
        tasks.sort(key=lambda t: -registry.COST.get(t[1], 5) if t[0] == "c" else -8)
        out = []
        with ctx.Pool(CORES, maxtasksperchild=1) as pool:
            rs = [(t, pool.apply_async(task, (t,))) for t in tasks]
            for t, r in rs:
                left = deadline - time.time()
                try:
                    out.append(r.get(max(1, left)))
                except mp.TimeoutError:
                    out.append(dict(task=t, status="budget", detail="time budget of the run used up", obs=[], solver=0, queries=0,
                                    inlined=[], used=[], cut=0, unrolled=0, time=0, hash=""))
            pool.terminate()
        return out

    def ctask(n, case, opts=None):
        return ("c", n, case, frozenset(dropped), dict(opts or {}, deadline=max(20, deadline - time.time() - 5)))
    tasks = []
    for n in want:
        if n in dropped:
            continue
        for case in CS[n].cases():
            tasks.append(ctask(n, case))
    for L in P.get("lemmas", ()):
        tasks.append(("lemma", L))
    first = run(tasks)
    # optional helper contracts that do not hold (any more): callers execute the body instead
    for rnd in range(2):
        failed = set()
        for r in first:
            if r["task"][0] == "c" and CS[r["task"][1]].optional and (r["status"] != "ok" or any(o[1] != "ok" for o in r["obs"])) \
                    and not unchanged(r["task"][1]):
                failed.add(r["task"][1])
        failed -= dropped
        gone = set(n for n in want if n in dropped and CS[n].optional and not CS[n].fn())
        if not failed and not (rnd == 0 and gone):
            break
        if time.time() > deadline - 30:
            break
        dropped |= failed
        redo = []
        keep = []
        for r in first:
            if r["task"][0] == "c" and r["task"][1] not in dropped and \
                    any(d in r["used_ids"] if "used_ids" in r else any(x in CS[d].names for x in r["used"]) for d in failed):
                redo.append(ctask(r["task"][1], r["task"][2]))
            elif r["task"][0] == "c" and r["task"][1] in failed:
                r["dropped"] = True
                keep.append(r)
            else:
                keep.append(r)
        if not redo:
            first = keep
            break
        first = keep + run(redo)
    return first, dropped, time.time() - t0


# ---------------------------------------------------------------- verdict

def main():
    prop = sys.argv[1]
    if prop == "--baseline":
        return write_baseline()
    P = registry.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 1
    try:
        rc = run_check(prop, P, tmp)
    finally:
        subprocess.run(["rm", "-rf", tmp])
    sys.exit(rc)


def write_baseline():
    """the code the contracts were last discharged for (run after all checks passed)"""
    from world import World
    tmp = tempfile.mkdtemp(prefix="vp_base_")
    try:
        w = World(os.path.join(tmp, "ir"), REPO, registry.TUS)
        out = {}
        for c in registry.ORDER:
            mod, cls = c.split(".")
            f = getattr(importlib.import_module(mod), cls)(w).fn()
            if f:
                out[c] = code_hash(w.mod, [f.name])
        json.dump(out, open(os.path.join(HERE, "baseline.json"), "w"), indent=1, sort_keys=True)
    finally:
        subprocess.run(["rm", "-rf", tmp])


def replay_path(prop):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, prop + ".txt")


def run_check(prop, P, tmp):
    import multiprocessing.pool
    hq = mp.get_context("fork").Queue()
    hp = None
    if P.get("harness"):
        hp = mp.get_context("fork").Process(target=harness_job, args=(hq, prop, tmp, P))
        hp.start()
    results, dropped, ptime = [], set(), 0
    perr = ""
    if P.get("contracts"):
        try:
            results, dropped, ptime = prove(P, tmp)
        except Exception:
            perr = traceback.format_exc()
    hres, herr = [], []
    if hp:
        try:
            hres, herr = hq.get(timeout=max(30, T0 + 860 - time.time()))
        except Exception:
            herr = ["the falsifier gave no answer in time"]
        hp.join(1)
        if hp.is_alive():
            hp.terminate()
    # ---- obligations
    base = baseline()
    obs = []
    bad = []
    undecided = []
    for r in results:
        t = r["task"]
        name = ("lemma %s" % t[1]) if t[0] == "lemma" else CS[t[1]].label() + ((" {%s}" % t[2]) if t[2] is not None else "")
        if r.get("dropped"):
            undecided.append("%s: helper contract not established, callers are verified through its body (%s; %s)" % (
                name, r["status"], "; ".join(sorted(set("%s [%s]" % (o[0], o[1]) for o in r["obs"] if o[1] != "ok")))[:300]))
            continue
        if r["status"] != "ok":
            undecided.append("%s: %s: %s" % (name, r["status"], r["detail"][:400]))
        for o in r["obs"]:
            obs.append((name, o))
            if o[1] != "ok":
                bad.append((name, o, t))
    for n in P.get("contracts", ()):
        if n in CS and getattr(CS[n], "assumed", False):
            continue
        if n in dropped and CS and CS[n].fn() is None:
            undecided.append("%s: function not found in the current sources%s" % (CS[n].label(), ", callers are verified through what replaced it" if CS[n].optional else ""))
    if perr:
        undecided.append("the prover did not run: " + perr[-800:])
    refuted = [b for b in bad if b[1][1] == "failed"]
    unknown = [b for b in bad if b[1][1] != "failed"]
    # an obligation left open by the solver is an alarm only if the code differs from the code it was discharged for
    alarms = list(refuted)
    if bad:
        hashes = {}
        alarms = []
        for b in bad:
            if b[2][0] == "lemma":
                undecided.append("%s: not discharged in time" % b[0])
                continue
            f = CS[b[2][1]].fn()
            k = b[2][1]
            if k not in hashes:
                hashes[k] = code_hash(W.mod, [f.name])
            if base.get(k) == hashes[k]:
                undecided.append("%s: %s: not discharged on this run (code as at the time it was discharged)" % (b[0], b[1][0]))
            else:
                alarms.append(b)
    disch = sum(1 for _, o in obs if o[1] == "ok")
    fails = [r for r in hres if not r["ok"]]
    ev = sum(r["ev"] for r in hres)
    nt = sum(r["nt"] for r in hres)
    lines = []
    viol = 0
    rp = replay_path(prop)
    known = registry.known(HERE, prop)
    kf = []
    for k in known:
        if k["check"](run_known, tmp, P):
            kf.append(k)
    if fails:
        viol = len(fails)
        r = fails[0]
        with open(rp, "wb") as f:
            f.write(("property %s\nfalsifier %s mode %s seed %s\nreproduced from the recorded case: %s\nfailure: %s\n" % (
                prop, r["src"], r["mode"], r["seed"], r.get("reproduced"), r["what"])).encode())
            if alarms:
                f.write(b"failed obligations:\n")
                for b in alarms[:20]:
                    f.write(("  %s: %s [%s]\n" % (b[0], b[1][0], b[1][1])).encode())
            f.write(("output:\n" + r["out"] + "\n").encode())
            f.write(b"\nCASE\n" + r["case"])
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
    elif alarms:
        viol = len(alarms)
        with open(rp, "w") as f:
            f.write("property %s\nfailed obligations (verifier output; no failing input found by replaying against the real code):\n" % prop)
            for b in alarms:
                f.write("\n%s: %s\n  solver: %s\n  %s\n" % (b[0], b[1][0], "refuted (counterexample below)" if b[1][1] == "failed" else "not provable within limits", b[1][2]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    # ---- evidence
    funcs = {}
    for r in results:
        if r["task"][0] != "c" or r.get("dropped"):
            continue
        n = r["task"][1]
        e = funcs.setdefault(n, dict(function=CS[n].label(), obligations=0, discharged=0, solver_s=0.0, queries=0, loops_by_invariant=0,
                                     executed_inline=set(), callees_by_contract=set(), status="ok"))
        e["obligations"] += len(r["obs"])
        e["discharged"] += sum(1 for o in r["obs"] if o[1] == "ok")
        e["solver_s"] = round(e["solver_s"] + r["solver"], 1)
        e["queries"] += r["queries"]
        e["loops_by_invariant"] += r["cut"]
        e["executed_inline"] |= set(r["inlined"])
        e["callees_by_contract"] |= set(r["used"])
        if r["status"] != "ok":
            e["status"] = r["status"]
    for e in funcs.values():
        e["executed_inline"] = sorted(e["executed_inline"])
        e["callees_by_contract"] = sorted(e["callees_by_contract"])
    kinds = {}
    for _, o in obs:
        k = o[0].split(":")[0].split(" ")[0]
        kinds[k] = kinds.get(k, 0) + 1
    level = registry.level(prop)
    cov = {}
    if P.get("contracts"):
        cov.update(obligations=len(obs), discharged=disch,
                   checker_cmd="python3-vt check.py %s (LLVM IR of /repo's sources by clang++-18, obligations by irv/, discharged by z3 %s)" % (prop, z3v()),
                   trusted_base=registry.TRUSTED,
                   functions_under_contract=list(funcs.values()), obligation_kinds=kinds,
                   solver_s=round(sum(r["solver"] for r in results), 1), queries=sum(r["queries"] for r in results),
                   undecided=undecided, assumed_contracts=assumed_used(results))
    if hp:
        b = dict(evaluations=ev, distinct_nontrivial=nt, rule=P.get("rule", ""), samples=[r.get("sample", "") for r in hres if r.get("sample")][:3] or ["(none)"],
                 label="bounded: runs of the real code, never counted as proved", functions=P.get("bounded", []), build_problems=herr)
        cov["bounded"] = b
        if not P.get("contracts") or level != "proof":
            cov.update(evaluations=ev, distinct_nontrivial=nt, rule=b["rule"], samples=b["samples"])
        if level == "other":
            cov["explanation"] = P.get("explanation", "")
    out = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=registry.assumptions(prop),
               wall_s=round(time.time() - T0, 1), violations=viol)
    json.dump(out, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in kf:
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for u in undecided:
        log("undecided: " + u[:600])
    for e in herr:
        log("falsifier: " + e[:600])
    for b in bad[:12]:
        log("open obligation: %s: %s [%s]" % (b[0], b[1][0], b[1][1]))
    for r in fails:
        log("failing run: %s" % r["what"][:500])
    log("%s: %d/%d obligations discharged in %d functions (%.0f s), bounded runs %d, wall %.0f s" % (
        prop, disch, len(obs), len(funcs), ptime, ev, time.time() - T0))
    for l in lines:
        log(l)
    return 1 if lines else 0


def assumed_used(results):
    """callee contracts that were relied on without being verified against their bodies here"""
    used = set()
    for r in results:
        used |= set(r["used"])
    out = set()
    for c in CS.values():
        if getattr(c, "assumed", False):
            for n in c.names:
                if n in used or n.startswith("@") and W.mod.pretty.get(n, n[1:]) in used:
                    out.add(n)
    return sorted(out)


def run_known(tmp, P, mode):
    for src, wrap, flags, _ in P["harness"]:
        exe = os.path.join(tmp, "h_" + src)
        if os.path.exists(exe):
            return run_harness("", tmp, exe, mode, 1, 1)
    return None


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    import multiprocessing.pool
    main()
