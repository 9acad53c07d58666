"""Property id -> how it is decided."""

import importlib
import os

from . import run as R

MODULES = ["life", "fds", "pipes", "data", "api", "prompt", "harvest", "watch", "term", "cut", "trace", "block", "names"]

BASE = (
    "The scenario drivers call only the public API; data contents, process behaviour, timing and the event loop are abstract.",
    "asyncio, os, signal and the file objects behave as modelled in sa/models.py (a model written by hand from their documentation).",
    "Loops are followed to a fixed number of abstract iterations and merged on equal abstract states.",
)


class Check:
    def __init__(self, title, rule, jobs, explanation, assumptions=(), technique="abstract interpretation with typestate monitors"):
        self.title = title
        self.rule = rule
        self.jobs = jobs
        self.explanation = explanation
        self.assumptions = BASE + tuple(assumptions)
        self.technique = technique

    def run(self, tier):
        jobs = self.jobs(tier)
        rs = R.run_jobs(jobs)
        return collect(rs)


class Lint:
    "A property decided by queries over the syntax tree / call graph."

    def __init__(self, title, rule, fn, explanation, assumptions=(), technique="syntax-tree and call-graph queries"):
        self.title = title
        self.rule = rule
        self.fn = fn
        self.explanation = explanation
        self.assumptions = tuple(assumptions)
        self.technique = technique

    def run(self, tier):
        return self.fn(tier)


class Both:
    "Abstract interpretation jobs and lints together."

    def __init__(self, title, rule, jobs, fn, explanation, assumptions=(), technique="abstract interpretation and syntax-tree queries"):
        self.title = title
        self.rule = rule
        self.jobs = jobs
        self.fn = fn
        self.explanation = explanation
        self.assumptions = BASE + tuple(assumptions)
        self.technique = technique

    def run(self, tier):
        a = collect(R.run_jobs(self.jobs(tier)))
        b = self.fn(tier)
        return {"violations": a["violations"] + b["violations"], "errors": a["errors"] + b["errors"],
                "coverage": {**a["coverage"], **b["coverage"]}, "answered": a["answered"] or b["answered"],
                "summary": a["summary"] + "; " + b["summary"]}


def collect(rs):
    viol, errs, fns, stmts, ext, susp = [], [], set(), set(), set(), set()
    calls = states = 0
    scen = []
    ok = 0
    for r in rs:
        viol += r["violations"]
        s = r["stats"]
        if r["error"]:
            errs.append(r["error"])
        else:
            ok += 1
        fns |= set(s["functions"])
        stmts |= set(s["stmts"])
        susp |= set(s["suspensions"])
        ext |= {k for k in s["ext"]}
        calls += s["calls"]
        states += s["states"]
        scen.append({"scenario": r["job"], "outcomes": r["outcomes"], "abstract_states": s["states"], "seconds": s["seconds"],
                     "events": {k: v for k, v in s["events"].items() if not k.startswith(("ext:", "mark:"))}})
    mine = sorted(str(f) for f in fns if not str(f).startswith("<"))
    cov = {
        "scenarios": len(rs), "functions_analysed": len(mine), "functions": mine, "statements_reached": len(stmts),
        "suspension_points": len(susp), "external_operations": sorted(map(str, ext))[:200], "abstract_calls": calls,
        "abstract_states": states, "samples": scen,
    }
    return {"violations": viol, "errors": errs, "coverage": cov, "answered": ok > 0,
            "summary": f"{len(rs)} scenarios, {len(mine)} functions, {len(stmts)} statements, {states} abstract states"}


def all_checks():
    out = {}
    for m in MODULES:
        p = os.path.join(os.path.dirname(__file__), "props", m + ".py")
        if os.path.exists(p):
            out.update(importlib.import_module("sa.props." + m).CHECKS)
    return out


def get(pid):
    return all_checks()[pid]
