#!/usr/bin/env python3
"""dev.py MIR GROUP ID...: run the rules of several checks in one analysis (development only)."""
import os, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "analysis"))
import registry
from lib import Analysis, Missing
from terms import show, short
mir, grp = sys.argv[1:3]
t = time.time()
rules = []
for i in sys.argv[3:]:
    for g, cl in registry.CHECKS[i]["groups"]:
        if g == grp:
            rules += [c() for c in cl]
a = Analysis(mir, "quick", True)
a.repo = os.environ.get("PZ_REPO", "/repo")
eng = getattr(a, grp)(rules)
for r in rules:
    print("--", r.prop, "; ".join("%d %s" % (len(v), k) for k, v in sorted(r.n.items()))[:600])
    for k, n in r.need.items():
        if len(r.n.get(k, ())) < n:
            print("   MISSING", k)
for v in eng.violations.values():
    print("!!", v["rule"], v["key"], "|", v["msg"][:400], v["loc"], [short(s) for s in v["stack"][-3:]])
    if os.environ.get("P"):
        for p in v["path"][-int(os.environ["P"]):]:
            print("      ", short(str(p[0]))[-40:], p[1][1], show(p[2], 5)[:200] if not isinstance(p[2], (str, tuple)) else p[2], p[3])
print("%.1fs %d steps" % (time.time() - t, eng.nsteps))
