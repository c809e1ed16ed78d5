#!/usr/bin/env python3
"""seed.py [-k PATTERN] [-f]: turn the definitions in tools/seeds/*.py into /verif/seeded/<id>/, once each has been confirmed in a scratch
copy: it builds, the tests pass, demo.sh exits 0 without and nonzero with it.  Then runs the property's check on the changed copy."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-k", default="")
ap.add_argument("-f", action="store_true", help="also those that exist already")
ap.add_argument("-n", action="store_true", help="only run the check on those that exist")
a = ap.parse_args()
S = []
for f in sorted(glob.glob(H + "/tools/seeds/*.py")):
    g = {}
    exec(open(f).read(), g)
    S += g["SEEDS"]
S = [s for s in S if re.search(a.k, s["id"] + " " + s["property"])]
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TERM_COLOR="never", PATH="/root/.cargo/bin:" + os.environ["PATH"])


def sh(cmd, cwd, t=600):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, errors="replace", text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(s):
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    r = d + "/repo"
    try:
        out = os.path.join(H, "seeded", s["id"])
        if os.path.exists(out) and not a.f and not a.n:
            return s["id"], "exists"
        shutil.copytree("/repo", r, symlinks=True)
        for f, old, new in s["edits"]:
            t = open(r + "/" + f).read()
            if t.count(old) != 1:
                return s["id"], "EDIT FAILS (%d matches): %s" % (t.count(old), old[:80])
            open(r + "/" + f, "w").write(t.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE).stdout
        demo = d + "/demo"
        os.makedirs(demo)
        shutil.copy(H + "/tools/demo/pz.py", demo)
        open(demo + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom pz import *\n\n" + s["demo"].lstrip("\n"))
        open(demo + "/demo.sh", "w").write('#!/bin/bash\n# %s\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n' % s["breaks"].replace("\n", " "))
        os.chmod(demo + "/demo.sh", 0o755)
        if not a.n:
            rc, o = sh(["cargo", "build", "--workspace", "--offline"], r)
            if rc:
                return s["id"], "DOES NOT BUILD: " + "\n".join([x for x in o.splitlines() if "error" in x or "-->" in x][:4])
            rc, o = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], r)
            if rc or "17 passed" not in o:
                return s["id"], "TESTS FAIL: " + " ".join(re.findall(r"test \S+ \.\.\. FAILED", o))
            rc0, o0 = sh(["bash", demo + "/demo.sh"], "/repo", 280)
            rc1, o1 = sh(["bash", demo + "/demo.sh"], r, 280)
            if rc0 != 0 or rc1 == 0:
                return s["id"], "DEMO: unchanged %d, changed %d\n   %s\n   %s" % (rc0, rc1, o0[-400:], o1[-300:])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(demo, out, ignore=shutil.ignore_patterns("__pycache__"))
            open(out + "/patch.diff", "wb").write(patch)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        sys.path.insert(0, H)
        shutil.rmtree(r + "/target", ignore_errors=True)
        rc, o = sh(["bash", H + "/bin/extract.sh", d + "/m.json", r], H)
        if rc:
            return s["id"], "EXTRACTION FAILS " + o[-300:]
        rc, o = sh(["python3", H + "/check.py", s["property"], "--mir", d + "/m.json", "--repo", r, "--no-evidence"], H)
        v = [x for x in o.splitlines() if x.startswith("VIOLATION")]
        msg = [x for x in o.splitlines() if x.startswith("property")]
        return s["id"], "%s %s" % ("caught" if rc == 1 and v else "MISSED rc=%d" % rc, (msg or [o[-200:]])[0][:230])
    finally:
        shutil.rmtree(d, ignore_errors=True)


for i, m in ThreadPoolExecutor(4).map(one, S):
    print(i, m)
