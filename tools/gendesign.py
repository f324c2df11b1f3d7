#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, plan.py, properties.jsonl, KNOWN_FINDINGS, seeded/ and tools/caught.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import plan

props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]


def units(pid, tier):
    n, kinds = 0, {}
    for u in plan.PROPS[pid]["units"](tier):
        n += 1
        k = "%s/%s" % (u["bin"], u["scenario"])
        kinds.setdefault(k, set()).add(u.get("flavor", "plain"))
    return n, "; ".join("`%s` (%s)" % (k, ", ".join(sorted(v))) for k, v in kinds.items())


out = ["## Properties and how each is decided\n",
       "Every property is decided by runtime monitoring; none is listed under `not_applicable`. Bounds: what was executed, see the "
       "evidence. Cost: quick checks take 10 to 120 s on the 8 cores, thorough ones up to 800 s (units are cut at the time budget).\n"]
for p in props:
    pid = p["id"]
    x = plan.PROPS[pid]
    n, ks = units(pid, "quick")
    nt, _ = units(pid, "thorough")
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("*Decided by* %s.\n" % plan.TECH[pid])
    out.append("*Explored, and the oracle:* %s\n" % x["rule"])
    out.append("*Units:* %s; %d processes in quick, %d longer ones in thorough.\n" % (ks, n, nt))
    out.append("*Assumptions:* %s.\n" % "; ".join(x["assumptions"]))
    out.append("*Why beyond the tests:* %s\n" % p["why_tests_cant"])
P = "\n".join(out)

F = []
for l in open(ROOT + "/KNOWN_FINDINGS"):
    l = l.strip()
    if l.startswith("fixed: "):
        pid, rest = l[len("fixed: property="):].split(" ", 1)
        sha, what = rest.split(" ", 1)
        F.append("| %s | %s | %s |" % (pid, sha, what.replace("|", "\\|")))
nfixed = len(F)
F = "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(F)

C = {}
if os.path.exists(ROOT + "/tools/caught.json"):
    C = json.load(open(ROOT + "/tools/caught.json"))
S = ["| change | property | needs | checks |\n|---|---|---|---|"]
for s in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(ROOT + "/seeded/%s/meta.json" % s))
    c = C.get(s, {})
    t = ", ".join("%s %s" % (k, v) for k, v in sorted(c.items())) or "not run"
    S.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "\\|"), t))
S = "\n".join(S)
t = open(ROOT + "/tools/DESIGN.in.md").read()
t = t.replace("@@PROPS@@", P).replace("@@FINDINGS@@", F).replace("@@SEEDS@@", S).replace("@@NFIXED@@", str(nfixed))
open(ROOT + "/DESIGN.md", "w").write(t)
