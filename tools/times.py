#!/usr/bin/env python3
"times.py ID: seconds, states and outcomes of each scenario of a check"
import sys; sys.path.insert(0, "/verif")
from sa import registry, run
c = registry.get(sys.argv[1])
rs = run.run_jobs(list(c.jobs(sys.argv[2] if len(sys.argv) > 2 else "quick")), None)
for r in sorted(rs, key=lambda r: -r["stats"]["seconds"])[:25]:
    print(r["stats"]["seconds"], r["job"], r["stats"]["states"], r["outcomes"], r["error"] or "", len(r["violations"]))
