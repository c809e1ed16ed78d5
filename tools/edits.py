#!/usr/bin/env python3
"""edits.py [-k PATTERN] [-c ID,..] [-r]: apply trial edits (tools/edits/*.py) to scratch copies of /repo and run checks on them.

An edit is a dict: name, kind ("mut": some check named in ids must raise an alarm; "ref": behaviour is kept, so no check may), ids,
edits: list of (file, old, new).  Development only: none of the registered checks uses this."""
import argparse, glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "analysis"))
import registry
ap = argparse.ArgumentParser()
ap.add_argument("-k", default="")
ap.add_argument("-c", default="")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
E = []
for f in sorted(glob.glob(os.path.join(H, "tools/edits/*.py"))):
    g = {}
    exec(open(f).read(), g)
    E += [e for e in g["EDITS"]]
E = [e for e in E if re.search(a.k, e["name"] + " " + e["kind"] + " " + " ".join(e.get("ids", ())))]
ALL = sorted(registry.CHECKS)
bad = 0
pool = ThreadPoolExecutor(7)


def prep(e):
    d = tempfile.mkdtemp(prefix="try.", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("target", ".git"))
    for f, old, new in e["edits"]:
        p = d + "/repo/" + f
        s = open(p).read()
        if s.count(old) != 1:
            return d, "%s: %d matches of %r" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    r = subprocess.run(["bash", H + "/bin/extract.sh", d + "/m.json", d + "/repo"], capture_output=True, text=True)
    if r.returncode:
        return d, "does not compile: " + " | ".join(re.findall(r"error.*\n.*\n", r.stderr)[:3])[:400]
    return d, None


def check(d, i):
    try:
        r = subprocess.run(["python3", H + "/check.py", i, "--mir", d + "/m.json", "--repo", d + "/repo", "--no-evidence"], capture_output=True,
                           text=True, timeout=400, env=dict(os.environ, PZ_REPO=d + "/repo"))
        return i, r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return i, 99, "timeout"


def run(e):
    d, err = prep(e)
    try:
        if err:
            return e, err, []
        ids = a.c.split(",") if a.c else (ALL if e["kind"] == "ref" else e["ids"])
        ids = [i for i in ids if i in registry.CHECKS]
        return e, None, [f.result() for f in [pool.submit(check, d, i) for i in ids]]
    finally:
        shutil.rmtree(d)


def report(r):
    global bad
    e, err, res = r
    if err:
        print("??", e["name"], err)
        bad += 1
        return
    al = [x for x in res if x[1] != 0]
    hit = [x[0] for x in al if x[1] == 1]
    if e["kind"] == "mut":
        ok = bool(hit)
        print("ok " if ok else "MISSED", e["name"], "caught by", hit, [x[0] for x in al if x[1] not in (0, 1)] or "")
    else:
        ok = not al
        print("ok " if ok else "FALSE ALARM", e["name"], [(x[0], x[1]) for x in al] if al else "")
    if not ok or a.v:
        for x in al:
            ls = [l for l in x[2].split("\n") if l and not l.startswith(("checked", "VIOLATION"))]
            print("     ", x[0], (" | ".join(ls[:4]) or x[2][-300:])[:700])
    sys.stdout.flush()
    bad += not ok


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(run, E):
        report(r)
print(len(E), "edits,", bad, "unexpected")
