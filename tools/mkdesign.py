#!/usr/bin/env python3
"Writes /verif/DESIGN.md."
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
from sa import registry
T = HERE + "/tools/"
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks = registry.all_checks()
na = json.load(open(T + "na.json"))
out = [open(T + "design_head.md").read()]
for p in props:
    i = p["id"]
    if i not in checks:
        continue
    c = checks[i]
    q, t = [j.name for j in c.jobs("quick")], [j.name for j in c.jobs("thorough")]
    names = ", ".join(q[:14]) + (f", ... ({len(q)} in all)" if len(q) > 14 else "")
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Technique*: {c.technique}. *Rule*: {c.rule}.\n")
    out.append(f"*Analysed*: {c.explanation}\n")
    own = [a for a in c.assumptions if a not in registry.BASE]
    if own:
        out.append("*Assumes*: " + " ".join(a if a.endswith(".") else a + "." for a in own) + "\n")
    out.append(f"*Scenarios (quick)*: {names}." + (f" Thorough: {len(t)} scenarios, more interruptions, longer histories or both." if True else "") + "\n")
tail = open(T + "design_tail.md").read()
tail = tail.replace("@@NA@@", "\n".join(f"* **{p['id']} {p['title']}**: {na[p['id']]}." for p in props if p["id"] not in checks))
fx = [l.strip()[7:] for l in open(HERE + "/known_findings.txt") if l.startswith("fixed:")]
tail = tail.replace("@@FIXED@@", "\n".join("* " + x.strip().replace("property=", "", 1) for x in fx))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
if os.path.exists(T + "seed_results.json"):
    res = json.load(open(T + "seed_results.json"))
n = 0
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    n += 1
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '')} |")
tail = tail.replace("@@SEEDS@@", "\n".join(rows)).replace("@@SEEDCOUNT@@", f"{n} are kept.")
sw = T + "sweep.md"
tail = tail.replace("@@SWEEP@@", open(sw).read() if os.path.exists(sw) else "")
out.append(tail)
open(HERE + "/DESIGN.md", "w").write("\n".join(out))
