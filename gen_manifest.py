#!/usr/bin/env python3
"""Rewrites MANIFEST.json from registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "irv"))
import registry
checks = []
for p in sorted(registry.PROPS):
    P = registry.PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3-vt check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % p,
                       technique=P.get("technique") or ("contracts on the C++ functions (LLVM IR of /repo's sources), obligations discharged by SMT"
                                                        + ("; bounded runs of the real code for the functions not under contract" if P["level"] != "proof" else "")),
                       level=P["level"], level_note=P.get("note") or registry.note(p)))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3' && clang++-18 --version >/dev/null || clang++ --version >/dev/null",
               checks=checks, not_applicable=registry.NOT_APPLICABLE,
               notes="Engine in irv/ (symbolic execution of LLVM IR against contracts), falsifiers in harness/, driver check.py, what decides what in registry.py; see DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
