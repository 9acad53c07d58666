#!/usr/bin/env python3
"""mut.py FILE [filter]: apply each mutation of FILE to a copy of /repo/shellous and run the named checks on the copy.
FILE: python source defining M = [(name, "file.py", old, new, ["PROP", ...]), ...]  (old/new may be lists of equal length)."""
import os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
for name, f, old, new, props in ns["M"]:
    if flt not in name:
        continue
    d = tempfile.mkdtemp(prefix="mut")
    shutil.copytree("/repo/shellous", d + "/shellous", ignore=shutil.ignore_patterns("__pycache__"))
    p = d + "/shellous/" + f
    s = open(p).read()
    olds, news = (old, new) if isinstance(old, list) else ([old], [new])
    ok = True
    for o, n in zip(olds, news):
        if s.count(o) < 1:
            print("!!", name, "pattern not found:", o[:60]); ok = False; break
        s = s.replace(o, n, 1)
    if ok:
        open(p, "w").write(s)
        for pr in props:
            r = subprocess.run([sys.executable, "/verif/check.py", pr], env={**os.environ, "SHELLOUS_REPO": d}, capture_output=True, text=True)
            lines = [l.strip() for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "property"))]
            tag = {0: "MISSED ", 1: "caught "}.get(r.returncode, "??? ")
            if "KEEP" in name:
                tag = {0: "quiet  ", 1: "ALARM  "}.get(r.returncode, "??? ")
            print(tag, name, pr, "|", (lines[0][:170] if lines else ""), r.stderr[-300:] if r.returncode not in (0, 1) else "", flush=True)
    shutil.rmtree(d)
