#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/analysis")
import registry
rd = lambda f: open(os.path.join(H, f)).read()
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
seeds = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
out = [rd("tools/design/head.md")]
for l in open(H + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("- %s (%s): %s\n" % m.groups())
out.append(rd("tools/design/mid.md"))
out.append("## Properties\n\nGroup: what is analysed (`server`: everything reachable from the server's entry and all its threads; `main`: the command\nline client; `config`: reading a configuration; `raw`: the bodies of the state table's own operations with nothing abstracted;\n`bodies`: every function on its own with unknown arguments; `derived`: impls and visibility of the state types).\n\n")
for p in P:
    i = p["id"]
    if i not in registry.CHECKS:
        continue
    c = registry.CHECKS[i]
    out.append("### %s %s\n\n" % (i, p["title"]))
    out.append("Rules: %s (%s). Over: %s.\n\n" % (", ".join("`%s.%s`" % (r.__module__.split(".")[-1], r.__name__) for _, rs in c["groups"] for r in rs),
                                                ", ".join(g for g, _ in c["groups"]), p["quantifier"]["text"]))
    out.append(registry.EXPLAIN[i] + "\n\n")
    if os.path.exists(H + "/tools/design/%s.md" % i):
        out.append(rd("tools/design/%s.md" % i) + "\n")
    out.append("Why tests do not settle it: %s\n" % p["why_tests_cant"])
    for s, n, b in seeds.get(i, ()):
        out.append("- planted bug `%s`, caught by this check: %s (needs %s)\n" % (s, b[0].lower() + b[1:], n))
    out.append("\n")
out.append("## Not applicable\n\n")
for p in P:
    if p["id"] in registry.NA:
        out.append("- **%s %s**: %s\n" % (p["id"], p["title"], registry.NA[p["id"]]))
open(H + "/DESIGN.md", "w").write("".join(out))
print(len("".join(out).split("\n")))
