#!/usr/bin/env python3
"""check.py ID [--mir FILE] [-v]: decide property ID on /repo's current tree."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))

import registry  # noqa: E402
from lib import Analysis, Missing  # noqa: E402
import engine as E  # noqa: E402
from terms import show, short  # noqa: E402


def known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                key, _, what = l.split(" ", 2)[2].partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def render(x):
    return show(x, 4)[:300] if not isinstance(x, (str, tuple)) else str(x)[:300]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--mir")
    ap.add_argument("--repo", default=os.environ.get("PZ_REPO", "/repo"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    work = os.environ.get("PZ_WORK", os.path.join(HERE, ".work"))
    mir = a.mir
    if not mir:
        os.makedirs(work, exist_ok=True)
        mir = os.path.join(work, "mir-%s-%d.json" % (a.id, os.getpid()))
        rc = subprocess.call([os.path.join(HERE, "bin", "extract.sh"), mir, a.repo])
        if rc != 0:
            print("extraction failed (%d)" % rc, file=sys.stderr)
            sys.exit(2)
    try:
        viol, cover, stats = decide(a.id, mir, tier, a.repo, a.v)
    finally:
        if not a.mir and os.path.exists(mir):
            os.remove(mir)
    kn = known(a.id)
    found, new = [], []
    for v in viol:
        m = [k for k in kn if k[0] == v["key"]]
        (found if m else new).append(v)
    for k, what in kn:
        if any(v["key"] == k for v in found):
            print("KNOWN-FINDING: property=%s %s" % (a.id, what))
    ev = {"property": a.id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "wall_s": round(time.time() - t0, 2),
          "coverage": {"explanation": registry.CHECKS[a.id]["explain"],
                       "rule": registry.CHECKS[a.id]["explain"],
                       "obligations": {k: len(v) for k, v in sorted(cover.items())},
                       "places": {k: sorted(str(x) for x in v)[:40] for k, v in sorted(cover.items())},
                       "functions_analysed": len(stats["functions"]), "functions": sorted(stats["functions"]),
                       "roots": sorted(set(stats["roots"])), "interpreter_steps": stats["steps"],
                       "events": stats["events"], "complete_paths": stats["paths"]},
          "known_findings": [v["key"] for v in found],
          "violations": [{"key": v["key"], "what": v["msg"], "function": v.get("fn"), "where": v.get("loc")} for v in new]}
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if a.v:
        for k, v in sorted(cover.items()):
            print("  %4d %s" % (len(v), k))
        print("  %d functions, %d steps, %.1f s" % (len(stats["functions"]), stats["steps"], time.time() - t0))
    if not new:
        print("ok property=%s (%d kinds of obligations)" % (a.id, len(cover)))
        sys.exit(0)
    rep = os.path.join(HERE, "evidence", a.id + ".violation.txt") if not a.no_evidence else "/dev/null"
    lines = []
    for v in new:
        lines.append("property %s: %s" % (a.id, v["msg"]))
        lines.append("  key: %s" % v["key"])
        if v.get("fn"):
            lines.append("  in %s at %s" % (v["fn"], v.get("loc")))
        if v.get("stack"):
            lines.append("  call stack: " + " > ".join(short(s) for s in v["stack"]))
        for p in v.get("path", [])[-40:]:
            lines.append("    %s %s: %s = %s" % (short(str(p[0])), p[1], render(p[2]), p[3]))
    with open(rep, "w") as f:
        f.write("\n".join(lines) + "\n")
    print("\n".join(l for l in lines if not l.startswith("    ")))
    print("VIOLATION property=%s replay=%s" % (a.id, rep))
    sys.exit(1)


def decide(pid, mir, tier, repo, verbose=False):
    """(violations, coverage, statistics)"""
    spec = registry.CHECKS[pid]
    an = Analysis(mir, tier, verbose)
    an.repo = repo
    viol, cover = [], {}
    for group, classes in spec["groups"]:
        rules = [c() for c in classes]
        try:
            eng = getattr(an, group)(rules)
            for r in rules:
                for k, v in r.n.items():
                    cover.setdefault(k, set()).update(v)
            got = list(eng.violations.values())
            viol += got
            if not got:
                for r in rules:
                    for k, n in r.need.items():
                        if len(r.n.get(k, ())) < n:
                            viol.append({"key": "missing: " + k, "msg": "cannot establish the property: expected at least %d of "
                                         "'%s', found %d" % (n, k, len(r.n.get(k, ())))})
        except (Missing, E.Budget) as e:
            viol.append({"key": "undecided " + group, "msg": "cannot establish the property: %s" % e})
        except Exception as e:
            if verbose:
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            viol.append({"key": "undecided " + group, "msg": "cannot establish the property: %s: %s (%s:%d)"
                         % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)})
    return viol, cover, an.stats


if __name__ == "__main__":
    main()
