#!/usr/bin/env python3
"""seed.py FILE [filter] [--notest]: make /verif/seeded/<id>/ from the definitions in FILE.

FILE defines S = [dict(id, property, file, old, new, needs, breaks, demo)], demo being Python source run with shellous importable.
Each one is kept only if the stable tests pass with it and its demonstration passes without and fails with it.
Everything happens in a copy of /repo under /tmp."""
import json, os, shutil, subprocess, sys, tempfile

HEAD = '#!/bin/bash\n# Run with cwd = the repository.\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$d/demo.py"\n'
OUT = "/verif/seeded"


def sh(cmd, cwd, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str), stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def stable(copy):
    base = json.load(open("/opt/vp/BASELINE.json"))
    t = open("/opt/vp/test.sh").read().replace("/repo", copy)
    s = copy + "/../test.sh"
    open(s, "w").write(t)
    out = copy + "/../out.json"
    rc, log = sh(["bash", s, out], copy)
    got = json.load(open(out))
    return sorted(set(base["stable"]) - set(got["passed"]))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    flt = args[0] if args else ""
    for s in ns["S"]:
        if flt not in s["id"] or (os.path.exists(f"{OUT}/{s['id']}/patch.diff") and not flt):
            continue
        top = tempfile.mkdtemp(prefix="seed")
        copy = top + "/repo"
        try:
            subprocess.run(["cp", "-a", "/repo", copy], check=True)
            d = top + "/demo"
            os.makedirs(d)
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(HEAD)
            os.chmod(d + "/demo.sh", 0o755)
            rc0, log0 = sh(["bash", d + "/demo.sh"], copy, 200)
            files = s["file"] if isinstance(s["file"], list) else [s["file"]]
            olds = s["old"] if isinstance(s["old"], list) else [s["old"]]
            news = s["new"] if isinstance(s["new"], list) else [s["new"]]
            if len(files) == 1:
                files = files * len(olds)
            bad = None
            for f, o, n in zip(files, olds, news):
                p = copy + "/shellous/" + f
                t = open(p).read()
                if t.count(o) != 1:
                    bad = f"pattern occurs {t.count(o)} times: {o[:50]!r}"
                    break
                open(p, "w").write(t.replace(o, n))
            if bad:
                print("!!", s["id"], bad)
                continue
            rc1, log1 = sh(["bash", d + "/demo.sh"], copy, 200)
            if rc0 != 0 or rc1 == 0:
                print("!!", s["id"], "demo: unchanged", rc0, "changed", rc1, log0[-600:] if rc0 else log1[-200:])
                continue
            if "--notest" not in sys.argv:
                miss = stable(copy)
                if miss:
                    print("!!", s["id"], "stable tests fail:", len(miss), miss[:5], flush=True)
                    continue
            dst = f"{OUT}/{s['id']}"
            os.makedirs(dst, exist_ok=True)
            diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
            open(dst + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            for f in ("demo.py", "demo.sh"):
                shutil.copy(d + "/" + f, dst + "/" + f)
            print("ok", s["id"], s["property"], "|", log1.strip().splitlines()[-1][:150] if log1.strip() else rc1, flush=True)
        finally:
            shutil.rmtree(top)


main()
