#!/usr/bin/env python3
"""Writes DESIGN.md and the "fixed" entries of known_findings.json from the texts here, the property modules, and seeded/.
Run with python3-vt from anywhere after editing."""
import json, os, sys, re, importlib, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + "/lib", H + "/props"]
D = os.path.dirname(os.path.abspath(__file__))
from texts import HEAD, ORACLE, FIXES, LEFT, SEEDNOTES, TAIL

props = [json.loads(l) for l in open(H + "/properties.jsonl")]
out = [HEAD.strip(), ""]
out += ["## Properties", ""]
for p in props:
    i = p["id"]
    m = importlib.import_module(i)
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    out += ["* **Generated.** " + m.RULE]
    out += ["* **Oracle.** " + ORACLE[i][0]]
    out += ["* **Beyond the tests.** " + p["why_tests_cant"] + " " + ORACLE[i][1]]
    out += ["* **Bounds and cost.** Facets (cases at quick; thorough is 12 times that unless noted): " +
            ", ".join("%s %d%s" % (f.name, f.quick, "" if f.thorough == 12 * f.quick else " (thorough %d)" % f.thorough) for f in m.FACETS) + "."]
    out += ["* **Assumed.** " + "; ".join(m.ASSUMPTIONS) + "."]
    fx = [f for f in FIXES if i in f[1].split()]
    if fx:
        out += ["* **Defects this check found, repaired.** " + "; ".join("%s `%s`" % (f[2], f[0]) for f in fx) + "."]
    out += [""]
out += [LEFT.strip(), ""]
out += ["## Planted bugs", "",
        "Each lies in `seeded/`; the check named is the one run on it. \"At first missed\" says what was strengthened.", "",
        "| bug | property | needs | check |", "|---|---|---|---|"]
for n in sorted(os.listdir(H + "/seeded")):
    j = json.load(open(H + "/seeded/%s/meta.json" % n))
    note = SEEDNOTES.get(n, "caught")
    out += ["| %s | %s | %s | %s |" % (n, j["property"], j["needs"].replace("|", "/"), note)]
out += ["", TAIL.strip()]
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")

k = json.load(open(H + "/known_findings.json"))["findings"]
k = [x for x in k if x["status"] == "known"]
for c, ps, what in FIXES:
    for q in ps.split():
        k.append({"property": q, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (q, c, what)})
with open(H + "/known_findings.json", "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in k) + "\n]}\n")
have = subprocess.run("git -C /repo log --format='%h %s'", shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()
miss = [l for l in have if " fix:" in l and l.split()[0] not in [f[0] for f in FIXES]]
if miss: print("fix commits without an entry:", *miss, sep="\n  ")
