"""Running scenarios: a driver (source text interpreted abstractly together with
the repository's code), a set of property monitors, and an outcome check."""

import os
import sys
import time
import traceback

from .core import *
from .interp import Config, Interp

sys.setrecursionlimit(100000)

ROOT = os.environ.get("SHELLOUS_REPO", "/repo")


class Monitor:
    "Typestate automaton fed with the events of one abstract execution."
    name = "?"

    def event(self, I, st, kind, d):
        f = getattr(self, "on_" + kind, None)
        if f is not None:
            f(I, st, **d)

    def end(self, I, st, out):
        "One outcome of the driver: Val (returned) or Raise."

    def finish(self, I, outs):
        "All outcomes."

    # state helpers: everything lives in st.mon so that states stay comparable
    def get(self, st, key, default=None):
        return st.mon.get((self.name, key), default)

    def put(self, st, key, val):
        st.mon[(self.name, key)] = val

    def bad(self, I, st, rule, msg, construct=None, where=None):
        I.violate(st, self.name + "." + rule, msg, construct, where)


class TraceMon(Monitor):
    "Keeps the human-readable path of a state."
    KEEP = {"cancel", "fault", "exec", "exec_failed", "exec_interrupted", "launched", "signal", "closed", "opened", "caught",
            "timer", "timer_off", "timer_fired", "waited", "mark", "task_created", "task_end", "never_started",
            "io_done", "io_cancelled", "hang", "wait_begin"}

    def event(self, I, st, kind, d):
        if kind not in self.KEEP:
            return
        bits = []
        for k, v in d.items():
            if k in ("node", "frame", "kw", "cur"):
                continue
            if isinstance(v, Val):
                bits.append(f"{k}={show(v)}")
            elif isinstance(v, (list, tuple)):
                bits.append(f"{k}=[{', '.join(show(x) for x in v)}]"[:120])
            elif v is not None:
                bits.append(f"{k}={v}")
        st.event(f"{I.where()} {kind} {' '.join(bits)}")


class Job:
    "One scenario to analyse."

    def __init__(self, name, src, monitors, entry="main", expect=(), repo=True, **cfg):
        self.name = name
        self.src = src
        self.monitors = monitors
        self.entry = entry
        self.expect = expect        # event kinds / external names that must occur
        self.cfg = cfg
        self.repo = repo


def exc_type(I, st, r):
    ty, _ = I.type_of(r.exc, st)
    return ty


def exc_name(I, st, r):
    ty = exc_type(I, st, r)
    if ty is None:
        return "?"
    return ty.parts[0].name if ty.tag == "cls" else pyobj(ty).__name__


def exc_is(I, st, r, cls):
    ty = exc_type(I, st, r)
    return ty is not None and I.subclass(ty, cls if isinstance(cls, Val) else Py(cls))


def run_job(job, root=None):
    "-> dict with violations and statistics"
    t0 = time.time()
    root = root or ROOT
    cfgd = dict(job.cfg)
    limit = cfgd.pop("limit", None) or (400 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3000)
    cfgd["deadline"] = time.time() + limit
    I = Interp(root, Config(**cfgd))
    seen = {}
    mons = [m() if isinstance(m, type) else m for m in job.monitors]

    class Seen:
        def event(self, I, st, kind, d):
            seen[kind] = seen.get(kind, 0) + 1
            if kind == "ext":
                k = "ext:" + d["name"]
                seen[k] = seen.get(k, 0) + 1
            elif kind == "mark":
                k = "mark:" + d["name"]
                seen[k] = seen.get(k, 0) + 1
    res = {"job": job.name, "violations": [], "error": None, "outcomes": 0}
    try:
        I.load("shellous")
        m = I.load_source(job.src, "<" + job.name + ">")
        I.driver = m
        I.monitors = [Seen(), TraceMon()] + mons
        st = I.initial()
        for x in mons:
            if hasattr(x, "begin"):
                x.begin(I, st)
        fn = m.ns[job.entry]
        outs = I.call(fn, [], {}, st, None)
        res_outs = []
        for v, s in outs:
            if isinstance(v, Val) and v.tag == "ref" and s.has(v.parts[0]) and s.get(v.parts[0]).kind == "coro":
                res_outs.extend(I.await_(v, s, None))
            else:
                res_outs.append((v, s))
        if not res_outs:
            raise AnalysisBroken(f"scenario {job.name}: no outcome at all")
        for v, s in res_outs:
            for x in mons:
                x.end(I, s, v)
        for x in mons:
            x.finish(I, res_outs)
        kinds = {}
        for v, s in res_outs:
            k = "raise " + exc_name(I, s, v) if isinstance(v, Raise) else "return"
            kinds[k] = kinds.get(k, 0) + 1
        res["outcomes"] = kinds
        for e in job.expect:
            if e not in seen and not I.violations:
                raise AnalysisBroken(f"scenario {job.name}: no '{e}' event was reached (anchor missing)")
    except AnalysisBroken as ex:
        res["error"] = f"{job.name}: {ex}"
    except Exception as ex:
        res["error"] = f"{job.name}: analyser error {type(ex).__name__}: {ex} at {I.where()}\n{traceback.format_exc()[-1500:]}"
    res["violations"] = [
        dict(rule=v.rule, construct=v.construct, where=v.where, msg=v.msg, trace=v.trace, stack=v.stack, job=job.name)
        for v in I.violations.values()]
    s = I.stats
    res["stats"] = {
        "functions": sorted(s["functions"]), "calls": s["calls"], "states": s["states"],
        "suspensions": sorted(map(str, s["suspensions"])), "loops": s["loops"], "stmts": sorted(s["stmts"]),
        "ext": {k: sorted(map(str, v)) for k, v in s["ext"].items()}, "events": seen,
        "seconds": round(time.time() - t0, 2),
    }
    res["notes"] = sorted(I.notes)
    return res


def run_jobs(jobs, root=None, procs=None):
    procs = procs or min(len(jobs), os.cpu_count() or 4) or 1
    if procs == 1 or len(jobs) == 1:
        return [run_job(j, root) for j in jobs]
    pids = []
    # plain fork workers: job objects hold closures and need no pickling
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    nxt = ctx.Value("i", 0)

    def worker():
        while True:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(jobs):
                return
            q.put((i, run_job(jobs[i], root)))
    ps = [ctx.Process(target=worker) for _ in range(procs)]
    for p in ps:
        p.start()
    out = [None] * len(jobs)
    got = 0
    import queue
    while got < len(jobs):
        try:
            i, r = q.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            continue
        out[i] = r
        got += 1
    for p in ps:
        p.join()
    for i, r in enumerate(out):
        if r is None:
            out[i] = {"job": jobs[i].name, "violations": [], "error": f"{jobs[i].name}: worker died", "outcomes": {},
                      "stats": {"functions": [], "calls": 0, "states": 0, "suspensions": [], "loops": 0, "stmts": [],
                                "ext": {}, "events": {}, "seconds": 0}, "notes": []}
    return out
