#!/usr/bin/env python3
"""check.py <property-id> : decide one property from /repo's current source.

VERIF_TIER=quick|thorough   SHELLOUS_REPO=<tree to analyse, default /repo>
Exit 0: held on everything analysed.  Exit 1: VIOLATION line(s).  Exit 2: no answer.
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

from sa import registry, run as runmod  # noqa: E402


def known(pid):
    "known_findings.txt: 'finding: property=<id> rule=<rule> construct=<construct> | what fails'"
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            head, _, text = line[9:].partition(" | ")
            kv = dict(p.split("=", 1) for p in head.split(" ; "))
            if kv.get("property") == pid:
                out.append((kv["rule"], kv["construct"], text))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    os.environ["VERIF_TIER"] = tier
    chk = registry.get(pid)
    res = chk.run(tier)
    kn = known(pid)
    viol = {}
    for v in res["violations"]:
        viol.setdefault((v["rule"], v["construct"]), []).append(v)
    new, old = [], []
    for k, vs in viol.items():
        hit = [x for x in kn if x[0] == k[0] and x[1] == k[1]]
        (old if hit else new).append((k, vs, hit))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    rp = os.path.join(rdir, pid + ".txt")
    for k, vs, hit in old:
        print(f"KNOWN-FINDING: property={pid} {hit[0][2]}")
    if new:
        os.makedirs(rdir, exist_ok=True)
        with open(rp, "w") as f:
            for k, vs, _ in new:
                v = vs[0]
                f.write(f"property {pid}: {chk.title}\nrule: {v['rule']}\nconstruct: {v['construct']}\nwhere: {v['where']}\n"
                        f"why: {v['msg']}\nscenarios: {', '.join(sorted(set(x.get('job', '?') for x in vs)))}\n")
                if v.get("stack"):
                    f.write("call path: " + " -> ".join(map(str, v["stack"])) + "\n")
                if v.get("trace"):
                    f.write("abstract path to the violation:\n" + "".join("  " + str(e) + "\n" for e in v["trace"]))
                f.write("\n")
        for k, vs, _ in new:
            v = vs[0]
            print(f"  {v['rule']} at {v['where']} in {v['construct']}: {v['msg']}")
        print(f"VIOLATION property={pid} replay={rp}")
    for e in res["errors"]:
        print("NOT ANALYSED:", e.splitlines()[0][:300])
        if os.environ.get("SA_DEBUG"):
            print(e)
    cov = dict(res["coverage"])
    cov["explanation"] = chk.explanation
    cov["rule"] = chk.rule
    cov["not_analysed"] = [e.splitlines()[0] for e in res["errors"]]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": list(chk.assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        return 1
    if not res["answered"]:
        print(f"property {pid}: no scenario could be analysed")
        return 2
    print(f"property {pid} ({tier}): held on everything analysed; {res['summary']}; {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
