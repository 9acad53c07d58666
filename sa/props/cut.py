"""Iterations, prompt sessions and blocks that are cut short."""

import asyncio

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, exc_is, exc_name
from .life import AWITH, ITER, PRE, PROMPT, Track, src, tracked
from .pipes import Pipefail, FAULTS, ITER as PITER, PROMPT as PPROMPT, S, order, pipe, stage, PRE as PPRE


class Cut(Monitor):
    "What interrupted the session is what it ends with."
    name = "L08"
    E = dict(construct="outcome", where="end of session")

    def __init__(self, block=False, pipeline=False, quiet_codes=True):
        self.block = block              # `async with cmd`: a cancellation is told by run.result(), not by the block
        self.pipeline = pipeline
        self.quiet_codes = quiet_codes  # exit codes are not checked

    def on_cancel(self, I, st, by, **_):
        self.put(st, by, TRUE)

    def on_timer_fired(self, I, st, **_):
        self.put(st, "timer", TRUE)

    def on_fault(self, I, st, **d):
        nm = d.get("name") or d.get("what")
        self.put(st, "body" if nm == "body" else "io", TRUE)

    def on_task_end(self, I, st, task, state, **_):
        o = st.get(task.parts[0])
        c = o.f["coro"]
        if c.tag == "aw" and c.parts[0] == "stage" and state == "exc":
            ty, _t = I.type_of(o.f["value"], st)
            nm = ty.parts[0].name if ty is not None and ty.tag == "cls" else (pyobj(ty).__name__ if ty is not None else "?")
            if nm != "ResultError":
                self.put(st, ("stage", nm), TRUE)
                if self.get(st, "stage") is None:
                    self.put(st, "stage", K(nm))

    def end(self, I, st, out):
        g = lambda k: self.get(st, k)
        caller, timer, body, io, stg = g("caller"), g("timer"), g("body"), g("io"), g("stage")
        if not isinstance(out, Raise):
            if caller and not self.block:
                self.bad(I, st, "cancel-lost", "the caller was cancelled, but goes on as if the session had come to its end", **self.E)
            elif timer:
                self.bad(I, st, "timeout-lost", "the timeout expired, but the session ends normally", **self.E)
            elif body and not (caller and self.block):
                self.bad(I, st, "body-lost", "the error raised in the caller's block is suppressed", **self.E)
            elif stg is not None and not caller and not self.block:
                self.bad(I, st, "stage-lost", f"{kval(stg)} of a command of the pipeline is not raised: the session ends normally", **self.E)
            elif io and not self.block:
                self.bad(I, st, "io-lost", "reading the output failed, but the session ends normally", **self.E)
            return
        nm = exc_name(I, st, out)
        if any(("track", ("unkillable", p)) in st.mon for p in tracked(st)) or nm == "FileNotFoundError" and not tracked(st) and not self.pipeline:
            return                      # a process that cannot be killed, a program that does not exist
        if exc_is(I, st, out, asyncio.CancelledError):
            if not caller:
                self.bad(I, st, "spurious-cancel", "CancelledError although the caller was not cancelled", **self.E)
        elif exc_is(I, st, out, TimeoutError):
            if not timer:
                self.bad(I, st, "spurious-timeout", "TimeoutError although the timeout did not expire", **self.E)
        elif nm == "ResultError":
            if self.quiet_codes:
                self.bad(I, st, "result-error", "ResultError although exit codes are left to the caller here", **self.E)
        elif nm == "RuntimeError":
            if not (caller or timer or body or io or stg is not None or g("launch")):
                self.bad(I, st, "spurious-error", "RuntimeError although nothing failed", **self.E)
        elif not (body or io or stg is not None):
            self.bad(I, st, "spurious-error", f"{nm} although nothing failed", **self.E)
        elif body and not (caller or timer or io or stg is not None) and nm != "ValueError":
            self.bad(I, st, "body-replaced", f"the ValueError raised in the caller's block comes out as {nm}", **self.E)
        elif caller and not (body or io or stg is not None):
            self.bad(I, st, "cancel-replaced", f"the caller was cancelled, but {nm} is raised", **self.E)


WITH_RESULT = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").stdin(sh.CAPTURE).stdout(sh.CAPTURE).set(**options(OPTS))
    async with cmd as run:
        await __body__("body")
    return run.result()
'''

ITER_ONLY = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").set(**options(OPTS))
    async for line in cmd:
        pass
'''

ITER_PTY = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").set(pty=True, **options(OPTS))
    async for line in cmd:
        await __body__("body")
'''


def PWITH(n):
    return PPRE + stage("0, 7") + f'''
async def main():
    {order(n)}
    pipe = ({pipe(n)}).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with pipe as run:
        await __body__("body")
    return run.result()
'''


def l08_jobs(tier):
    C = dict(coarse=True, expect=("launched",))
    B, RD = {"body": [ValueError]}, {"body": [ValueError], "StreamReader.__anext__": [OSError], "StreamReader.readline": [OSError], "StreamReader.read": [OSError]}
    M, MB, MP, MPB = [Track, Cut()], [Track, Cut(quiet_codes=False)], [Track, Cut(pipeline=True)], [Track, Cut(pipeline=True, quiet_codes=False)]
    F = dict(FAULTS, body=[ValueError])
    F["stage.run"] = [KeyError]
    js = [
        Job("iter", src(ITER), M, cancels=1, **C),
        Job("iter-error", src(ITER), M, faults=1, raises=RD, **C),
        Job("iter-timeout", src(ITER_ONLY, True), M, **C),
        Job("iter-pty", src(ITER_PTY), M, cancels=1, faults=1, raises=B, **C),
        Job("prompt", src(PROMPT), M, cancels=1, faults=1, raises=B, **C),
        Job("prompt-timeout", src(PROMPT, True), M, **C),
        Job("with", src(WITH_RESULT), MB, cancels=1, faults=1, raises=B, **C),
        Job("with-timeout", src(WITH_RESULT, True), MB, **C),
        Job("pipe-iter", PITER(2), MP, cancels=1, **S),
        Job("pipe-iter-error", PITER(2), MP, faults=1, raises=dict(F, **{"StreamReader.__anext__": [OSError], "StreamReader.readline": [OSError], "StreamReader.read": [OSError]}), **S),
        Job("pipe-iter-3", PITER(3), MP, faults=1, raises=F, **S),
        Job("pipe-prompt", PPROMPT(2), MP, cancels=1, faults=1, raises=F, **S),
        Job("pipe-prompt-3", PPROMPT(3), MP, faults=1, raises=F, **S),
        Job("pipe-with", PWITH(2), MPB, cancels=1, faults=1, raises=F, **S),
        Job("pipe-with-3", PWITH(3), MPB, faults=1, raises=F, **S),
    ]
    if tier == "thorough":
        js += [
            Job("iter-2", src(ITER), M, cancels=2, faults=1, raises=B, **C),
            Job("iter-timeout-cancel", src(ITER_ONLY, True), M, cancels=1, **C),
            Job("prompt-2", src(PROMPT), M, cancels=2, **C),
            Job("prompt-timeout-cancel", src(PROMPT, True), M, cancels=1, faults=1, raises=B, **C),
            Job("with-timeout-cancel", src(WITH_RESULT, True), MB, cancels=1, faults=1, raises=B, **C),
            Job("pipe-iter-2", PITER(2), MP, cancels=2, faults=1, raises=F, **S),
            Job("pipe-prompt-3-cancel", PPROMPT(3), MP, cancels=1, faults=1, raises=F, **S),
        ]
    return js


CHECKS = {
    "L08": Check("A session cut short never looks complete", "outcome of each abstract path of an iteration, prompt session or block, compared with what interrupted it on that path", l08_jobs,
                 "Every path of `async for`, prompt() and `async with` over commands and pipelines under cancellation, timeout, failing reads, failing commands and errors of the caller's block.",
                 ("Up to two interruptions are injected per run, one at every suspension point.",
                  "In a pipeline each command is represented by its contract (see P01).")),
}


# R06: the Result of a prompt session

class Early(Monitor):
    "No result inside the block; the true Result after it."
    name = "R06"
    E = dict(construct="Prompt.result", where="after the block")

    def on_mark(self, I, st, name, args, **_):
        if name == "early":
            if args[0] is not NONE and kval(args[0]) != "RuntimeError":
                self.bad(I, st, "early", f"inside the block Prompt.result gives {show(args[0])}, not RuntimeError")
            self.put(st, "early", TRUE)
        elif name == "ends":
            self.put(st, "ends", args[0])
        elif name == "late":
            self.late(I, st, I.norm(args[0], st))
        elif name == "late_error":
            if not any(("track", ("unkillable", p)) in st.mon for p in tracked(st)):
                self.bad(I, st, "late", f"after the block Prompt.result raises {show(args[0])}", **self.E)

    def late(self, I, st, r):
        if r.tag != "ref" or st.get(r.parts[0]).kind != "inst" or "exit_code" not in st.get(r.parts[0]).f:
            self.bad(I, st, "result", f"after the block Prompt.result is {show(r)}", **self.E)
            return
        f = lambda n: I.norm(st.get(r.parts[0]).f[n], st)
        p = tracked(st)[-1]
        code = Sym("exitcode", p, ty=Py(int), exact=True)
        c = f("exit_code")
        if I.eq(c, code, st) is not TRUE and not (I.eq(code, K(255), st) is TRUE and self.get(st, ("sig", p))):
            self.bad(I, st, "exit-code", f"the Result's exit code is {show(c)}, not the process's", **self.E)
        caller = ("track", "cancel:caller") in st.mon or ("track", "cancel:timer") in st.mon
        end = self.get(st, "ends")
        if end is not None and kval(end) not in ("CancelledError", "TimeoutError"):
            return                      # another error, or cleaning up failed
        if truth_of(f("cancelled")) != caller:
            self.bad(I, st, "cancelled", f"the Result says cancelled={show(f('cancelled'))}, but the session was {'' if caller else 'not '}cancelled", **self.E)

    def on_signal(self, I, st, proc, **_):
        self.put(st, ("sig", proc), TRUE)


def truth_of(v):
    return bool(kval(v)) if v.tag == "k" else None


RESULT = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").set(**options(OPTS))
    cli = None
    try:
        async with cmd.prompt() as cli:
            try:
                cli.result
            except RuntimeError:
                __mark__("early", "RuntimeError")
            except BaseException as ex:
                __mark__("early", type(ex).__name__)
            else:
                __mark__("early", "a value")
            await __body__("body")
    except BaseException as ex:
        __mark__("ends", type(ex).__name__)
        raise
    finally:
        if cli is not None:
            try:
                r = cli.result
            except BaseException as ex:
                __mark__("late_error", type(ex).__name__)
            else:
                __mark__("late", r)
'''

PRESULT = """
from shellous import ResultError
async def main():
    %s
    pipe = %s
    async with pipe.prompt() as cli:
        try:
            cli.result
        except RuntimeError:
            __mark__("early", "RuntimeError")
        else:
            __mark__("early", "a value")
    __mark__("result", cli.result)
"""


class PEarly(Early):
    def late(self, I, st, r):
        pass

    def end(self, I, st, out):
        if isinstance(out, Raise):
            self.bad(I, st, "late", f"a pipeline's session that nothing disturbs raises {exc_name(I, st, out)}", **self.E)


class PromptPipefail(Pipefail):
    name = "R06"


def r06_jobs(tier):
    C = dict(coarse=True, expect=("launched", "mark:early", "mark:late"))
    B = {"body": [ValueError], "StreamReader.read": [OSError]}
    M = [Track, Early]
    P = lambda n, codes: PPRE + stage(codes) + PRESULT % (order(n), pipe(n))
    S2 = dict(S, expect=("mark:stage", "mark:result", "mark:early"))
    js = [
        Job("result", src(RESULT), M, cancels=1, faults=1, raises=B, **C),
        Job("result-timeout", src(RESULT, True), M, cancels=0, faults=1, raises=B, **C),
        Job("pipe-2", P(2, "0, 7"), [PEarly, PromptPipefail], **S2),
        Job("pipe-3", P(3, "0, 7, -9"), [PEarly, PromptPipefail], **S2),
    ]
    if tier == "thorough":
        js += [Job("result-2", src(RESULT), M, cancels=2, **C),
               Job("result-timeout-2", src(RESULT, True), M, cancels=1, faults=1, raises=B, **C)]
    return js


CHECKS["R06"] = Check("A prompt session has its command's Result after the block, and none before", "value of Prompt.result inside and after the block, traced to the process's exit status", r06_jobs,
                      "Every way of leaving the block of prompt() on a command (normally, error, cancellation, timeout, failing I/O) and every combination of outcomes of a pipeline's commands.",
                      ("In a pipeline each command is represented by its contract (see P01).",))
