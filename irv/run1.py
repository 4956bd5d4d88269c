import sys, time
sys.setrecursionlimit(20000)
from world import *
import c_parse
W = World("/tmp/w/irvbuild", extra=["consts.cpp"])
print("build", W.build_time, W.K)
sel = sys.argv[1:]
cs = {}
objs = []
import importlib
for modname in ("c_parse",):
    m = importlib.import_module(modname)
    for C in m.ALL:
        c = C(W)
        objs.append(c)
        for n in c.names:
            cs[n] = c
for c in objs:
    if sel and type(c).__name__ not in sel:
        continue
    def mk():
        return W.engine({k: v for k, v in cs.items() if v is not c or getattr(c, 'recursive', False)}, dict(verbose=True, deadline=time.time() + 600))
    r = c.verify(mk)
    bad = [o for o in r["obs"] if o.status != "ok"]
    print("==", type(c).__name__, r["status"], r["detail"], "obs", len(r["obs"]), "bad", len(bad), "t=%.1f solver=%.1f q=%d" % (r.get("time", 0), r["solver"], r["queries"]))
    seen = set()
    for o in bad:
        if o.name in seen: continue
        seen.add(o.name)
        print("   ", o.status, o.name, o.detail[:700] if len(seen) < 4 else "")
