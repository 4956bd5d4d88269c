"""The module under verification and its constants, rebuilt from /repo on every run."""
import os, re, subprocess, sys, time, shutil
import z3
import ir
from engine import *
from jspec import Text

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class World:
    def __init__(self, out, repo=REPO, extra=()):
        t = time.time()
        extra = [os.path.join(HERE, "tu", x) for x in extra]
        self.text_ir = ir.build(repo, out, extra)
        self.mod = ir.Module(self.text_ir)
        self.build_time = time.time() - t
        self.K = {}
        for g in self.mod._gl:
            m = re.match(r"@VP_(\w+)$", g)
            if m:
                try:
                    ty, init, c = self.mod.glob(g)
                    self.K[m.group(1)] = init[1] if init[0] == "c" else 0
                except ir.Unsupported:
                    pass

    def engine(self, contracts, opts=None, depth=2):
        spec = Spec(depth)
        spec.restrict = (opts or {}).get("restrict", True)
        e = Engine(self.mod, spec, contracts, opts)
        e.world = self
        e.texts = {}
        return e


def add_text(eng, st, tag="", name="text", maxlen=1 << 31):
    """a read-only NUL-terminated text block; accesses beyond the NUL are out of bounds"""
    X = Text(eng.spec, tag, maxlen)
    b = st.new(X.N + 1, name, "text", ro=True)
    b.limit = X.N + 1
    eng.textblocks[b.id] = lambda off: X.t(off)
    eng.texts[b.id] = X
    for c in X.base:
        st.assume(c)
    return X, b
