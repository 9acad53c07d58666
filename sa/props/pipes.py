"""Pipelines: wiring, ends, pipefail, composition, entering."""

import asyncio

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, exc_is, exc_name
from .common import Expect
from .fds import Fds, PRE as PRE0, STAGE as STAGE0, OPENF, stages, walk

# The run of a command of a pipeline: a Result, a ResultError, or some other error.
STAGE = STAGE0.split("async def stage_run")[0].replace('''        __mark__("launch_failed", first.args[0], ex)
        __close_flagged(cmd)
''', '''        __mark__("launch_failed", first.args[0], ex)
        __close_flagged(cmd)
        if isinstance(ex, __asyncio.CancelledError) and last.options._catch_cancelled_error:
            r = __result(__name(cmd), last, -15, True)
            __mark__("outcome", __name(cmd), "cancelled", -15, r)
            ex = __ResultError(r)
            if fut is not None and not fut.done():
                fut.set_exception(ex)
            raise ex
''') + '''
from shellous import Result as __Result, ResultError as __ResultError
__PIDS = []
class __Run:
    def __init__(self, nm):
        self.stdin = __new__(__asyncio.StreamWriter, "stdin_" + nm)
        self.stdout = __new__(__asyncio.StreamReader, "stdout_" + nm)
        self.stderr = __new__(__asyncio.StreamReader, "stderr_" + nm)
        __PIDS.append(nm)
        self.pid = 100 + len(__PIDS)
        __mark__("streams_of", nm, self.stdin, self.stdout, self.stderr, self.pid)
def __name(cmd):
    first, last = __stage_ends(cmd)
    return first.args[0]
def __result(nm, last, code, cancelled):
    return __Result(exit_code=code, output_bytes=__sym__("out_" + nm, bytes), error_bytes=__sym__("err_" + nm, bytes),
                    cancelled=cancelled, encoding=__sym__("enc_" + nm, str))
async def stage_run(cmd, run):
    first, last = __stage_ends(cmd)
    nm = first.args[0]
    try:
        await __body__("stage.run")
    except __asyncio.CancelledError:
        if not last.options._catch_cancelled_error:
            raise
        r = __result(nm, last, -15, True)
        __mark__("outcome", nm, "cancelled", -15, r)
        raise __ResultError(r)
    finally:
        __mark__("stage_end", nm)
    code = __choose__(*CODES)
    r = __result(nm, last, code, False)
    __mark__("outcome", nm, "exit", code, r)
    if code not in (last.options.exit_codes or {0}):
        raise __ResultError(r)
    return r
'''
STAGE = STAGE.replace('__new__(__Run, "run")', "__Run(first.args[0])")


def stage(codes="0, 7"):
    return STAGE.replace("*CODES", codes)


class Pipe(Monitor):
    "Ends of a pipeline: nothing left running, others cancelled, errors re-raised."
    name = "P01"

    def __init__(self, name="P01"):
        self.name = name

    def running(self, I, st):
        out = []
        for t in I.models.all_tasks(st):
            o = st.get(t.parts[0])
            if o.f["coro"].tag == "aw" and o.f["coro"].parts[0] == "stage":
                out.append((t, o))
        return out

    def failed(self, st):
        return self.get(st, "failed")

    def on_task_end(self, I, st, task, state, **_):
        o = st.get(task.parts[0])
        c = o.f["coro"]
        if c.tag == "aw" and c.parts[0] == "stage" and state == "exc":
            ty, _t = I.type_of(o.f["value"], st)
            nm = ty.parts[0].name if ty is not None and ty.tag == "cls" else (pyobj(ty).__name__ if ty is not None else "?")
            if self.failed(st) is None:
                self.put(st, "failed", K(nm))
            if nm != "ResultError" and self.get(st, "error") is None:
                self.put(st, "error", K(nm))
            self.put(st, ("err", nm), TRUE)

    def on_wait_begin(self, I, st, items, when, **_):
        why = ("a command of the pipeline failed" if self.failed(st) is not None else "the caller's block raised an error" if self.get(st, "body_raised")
               else "the pipeline was cancelled" if self.get(st, "cancelled") else None)
        if why is None:
            return
        if when == "FIRST_EXCEPTION" and any(I.models.fut_state(t, st) == "exc" for t in items):
            return
        for t, o in self.running(I, st):
            if t in items and o.f.get("cancel_req") is not TRUE:
                self.bad(I, st, "not-cancelled", f"{why}, but a command that is still running is waited for without being cancelled")
                return

    def on_cancel(self, I, st, by, **_):
        self.put(st, "cancelled", TRUE)

    def on_mark(self, I, st, name, args, **_):
        if name == "left":
            self.left(I, st, "the block is left")
        elif name == "awaited":
            self.put(st, "awaited", TRUE)

    def left(self, I, st, how):
        r = self.running(I, st)
        if r:
            self.bad(I, st, "left-running", f"a command of the pipeline has not ended when {how}", construct="pipeline", where="end of pipeline")

    def end(self, I, st, out):
        how = f"the pipeline raises {exc_name(I, st, out)}" if isinstance(out, Raise) else "the pipeline returns"
        self.left(I, st, how)
        err = self.get(st, "error")
        if err is not None and self.get(st, "awaited") and not self.get(st, "cancelled") and not self.get(st, "body_raised"):
            if not isinstance(out, Raise):
                self.bad(I, st, "swallowed", f"{kval(err)} of a command is not re-raised: the pipeline returns normally", construct="outcome", where="end of pipeline")
            elif self.get(st, ("err", exc_name(I, st, out))) is None or exc_name(I, st, out) == "ResultError":
                self.bad(I, st, "wrong-error", f"a command raised {kval(err)} but the pipeline raises {exc_name(I, st, out)}", construct="outcome", where="end of pipeline")
        if self.get(st, "cancelled") and not isinstance(out, Raise) and self.get(st, "awaited"):
            self.bad(I, st, "cancel-lost", "the pipeline was cancelled but returns normally", construct="outcome", where="end of pipeline")

    def on_fault(self, I, st, **d):
        nm = d.get("name") or d.get("what")
        self.put(st, "fault", TRUE)
        if nm == "body":
            self.put(st, "body_raised", TRUE)


class Wiring(Monitor):
    name = "F03"

    def on_opened(self, I, st, fd, what, node, peer=None):
        if what in ("pipe_r", "pipe_w"):
            self.put(st, ("pipe", fd), Tup([fd, peer, K(what)]))

    def on_mark(self, I, st, name, args, **_):
        if name == "order":
            self.put(st, "order", Tup(args))
        elif name == "given":
            self.put(st, "given", Tup(args))
        elif name == "stage":
            nm, sin, sout = kval(args[0]), I.norm(args[1], st), I.norm(args[2], st)
            order = [kval(x) for x in self.get(st, "order").parts[0]]
            i = order.index(nm) if nm in order else -1
            if i < 0:
                return
            if self.get(st, ("st", i)) is not None:
                self.bad(I, st, "twice", f"command {i} of the pipeline is started twice")
            self.put(st, ("st", i), Tup([sin, sout]))
            g = self.get(st, "given")
            if i > 0:
                self.end_of(I, st, i, "stdin", sin, "pipe_r")
            elif g is not None and not self.same(I, st, sin, g.parts[0][0]):
                self.bad(I, st, "outer", f"stdin of the first command is {show(sin)} instead of {show(g.parts[0][0])}")
            if i < len(order) - 1:
                self.end_of(I, st, i, "stdout", sout, "pipe_w")
            elif g is not None and not self.same(I, st, sout, g.parts[0][1]):
                self.bad(I, st, "outer", f"stdout of the last command is {show(sout)} instead of {show(g.parts[0][1])}")
            left, right = self.get(st, ("st", i - 1)), self.get(st, ("st", i + 1))
            if left is not None:
                self.joined(I, st, i - 1, left.parts[0][1], sin)
            if right is not None:
                self.joined(I, st, i, sout, right.parts[0][0])
            for (n, k), q in list(st.mon.items()):
                if n == self.name and isinstance(k, tuple) and k[0] == "st" and k[1] != i:
                    if (q.parts[0][0] is sin and i > 0 and k[1] > 0) or (q.parts[0][1] is sout and i < len(order) - 1 and k[1] < len(order) - 1):
                        self.bad(I, st, "shared", f"commands {k[1]} and {i} share one end of a pipe")

    def same(self, I, st, a, b):
        b = I.norm(b, st)
        return a is b

    def end_of(self, I, st, i, what, v, want):
        p = self.get(st, ("pipe", v))
        if p is None or kval(p.parts[0][2]) != want:
            self.bad(I, st, "end", f"{what} of command {i} is {show(v)}, not the {'read' if want == 'pipe_r' else 'write'} end of a pipe")

    def joined(self, I, st, i, sout, sin):
        p = self.get(st, ("pipe", sout))
        if p is not None and p.parts[0][1] is not sin:
            self.bad(I, st, "join", f"commands {i} and {i + 1} are not joined by one pipe")

    def end(self, I, st, out):
        order = self.get(st, "order")
        if isinstance(out, Raise) or order is None:
            return
        for i in range(len(order.parts[0])):
            if self.get(st, ("st", i)) is None:
                self.bad(I, st, "missing", f"command {i} of the pipeline was never started", construct="pipeline", where="end of pipeline")


class WiringSame(Monitor):
    "The same Command object used several times in one pipeline."
    name = "F03"

    def on_opened(self, I, st, fd, what, node, peer=None):
        if what in ("pipe_r", "pipe_w"):
            self.put(st, ("pipe", fd), Tup([fd, peer, K(what)]))

    def on_mark(self, I, st, name, args, **_):
        if name == "length":
            self.put(st, "length", args[0])
        elif name == "stage":
            self.put(st, "stages", Tup(list(self.get(st, "stages", Tup(())).parts[0]) + [Tup([I.norm(args[1], st), I.norm(args[2], st)])]))

    def end(self, I, st, out):
        if isinstance(out, Raise):
            return
        n = kval(self.get(st, "length"))
        ss = [q.parts[0] for q in self.get(st, "stages", Tup(())).parts[0]]
        ends = dict(construct="pipeline", where="end of pipeline")
        if len(ss) != n:
            self.bad(I, st, "missing", f"{len(ss)} commands were started for a pipeline of {n}", **ends)
            return
        kind = lambda v: (lambda p: kval(p.parts[0][2]) if p is not None else None)(self.get(st, ("pipe", v)))
        seen, cur = 0, [s for s in ss if kind(s[0]) is None]
        while len(cur) == 1:
            seen += 1
            out_ = cur[0][1]
            if kind(out_) != "pipe_w":
                break
            peer = self.get(st, ("pipe", out_)).parts[0][1]
            cur = [s for s in ss if s[0] is peer]
            if seen > n:
                break
        if seen != n:
            self.bad(I, st, "join", f"the {n} commands (the same object used repeatedly) are not joined into one chain by pipes of their own", **ends)


class Pipefail(Monitor):
    "Which command the Result is taken from."
    name = "P02"

    def on_mark(self, I, st, name, args, **_):
        if name == "outcome":
            self.put(st, ("o", kval(args[0])), Tup([args[1], args[2], args[3]]))
        elif name == "order":
            self.put(st, "order", Tup(args))
        elif name == "result":
            self.check(I, st, args[0])

    def check(self, I, st, r):
        r = I.norm(r, st)
        order = [kval(x) for x in self.get(st, "order").parts[0]]
        outs = [self.get(st, ("o", n)) for n in order]
        if any(o is None for o in outs):
            return
        if r.tag != "ref" or st.get(r.parts[0]).kind != "inst":
            self.bad(I, st, "no-result", f"the pipeline's result is {show(r)}", construct="result", where="result")
            return
        own = [i for i, o in enumerate(outs) if kval(o.parts[0][0]) == "exit" and kval(o.parts[0][1]) != 0]
        okk = [i for i, o in enumerate(outs) if kval(o.parts[0][0]) == "exit" and kval(o.parts[0][1]) == 0]
        cand = own[:1] or okk or range(len(order))
        f = lambda v, n: I.norm(st.get(v.parts[0]).f[n], st)
        last = outs[-1].parts[0][2]
        key = [i for i in cand if f(r, "exit_code") is f(outs[i].parts[0][2], "exit_code") and f(r, "error_bytes") is f(outs[i].parts[0][2], "error_bytes")]
        desc = ", ".join(f"{n}: {kval(o.parts[0][0])} {kval(o.parts[0][1])}" for n, o in zip(order, outs))
        if not key:
            self.bad(I, st, "pipefail", f"with outcomes ({desc}) the result has exit code {show(f(r, 'exit_code'))} and error output {show(f(r, 'error_bytes'))}; "
                     f"they must be those of {order[cand[0]] if own else 'a command that succeeded' if okk else 'one of the commands'}", construct="result", where="result")
        for n in ("output_bytes", "encoding"):
            if f(r, n) is not f(last, n):
                self.bad(I, st, "last", f"with outcomes ({desc}) the result's {n} is {show(f(r, n))}, not that of the last command", construct=n, where="result")


class Entering(Monitor):
    "Entering a captured pipeline."
    name = "P04"

    def on_hang(self, I, st, **_):
        self.bad(I, st, "hang", "entering the pipeline waits forever: no command that is left can signal readiness")

    def on_mark(self, I, st, name, args, **_):
        if name == "order":
            self.put(st, "order", Tup(args))
        elif name == "real":
            self.put(st, "real", TRUE)
        elif name == "streams_of":
            self.put(st, ("of", kval(args[0])), Tup([I.norm(a, st) for a in args[1:]]))
        elif name == "streams":
            ends = self.get(st, "order").parts[0]
            first, last = (self.get(st, ("of", kval(e))) for e in (ends[0], ends[-1]))
            for what, got, of, i, which in zip(("stdin", "stdout", "stderr", "pid"), args, (first, last, last, first), (0, 1, 2, 3), ("first", "last", "last", "first")):
                if of is None or I.norm(got, st) is not of.parts[0][i]:
                    self.bad(I, st, "streams", f"the {what} of the entered pipeline is {show(I.norm(got, st))}, not that of its {which} command", construct=what, where="entered")
        elif name == "launch_failed":
            nm = args[0]
            ends = self.get(st, "order").parts[0]
            ty, _t = I.type_of(args[1], st)
            k = "CancelledError" if ty is None else pyobj(ty).__name__
            if nm in (ends[0], ends[-1]) and not self.get(st, "entered") and k != "CancelledError":
                self.put(st, ("failed", k), TRUE)
                self.put(st, "anyfail", K(k))
        elif name == "entered":
            self.put(st, "entered", TRUE)
            if self.get(st, "anyfail") is not None:
                self.bad(I, st, "entered", f"the block is entered although starting a command failed with {kval(self.get(st, 'anyfail'))}")
            if self.get(st, "real") and not self.get(st, "up"):
                self.bad(I, st, "entered", "the block is entered although a command could not be launched")

    def on_cancel(self, I, st, **_):
        self.put(st, "cancelled", TRUE)

    def on_launched(self, I, st, **_):
        self.put(st, "up", TRUE)

    def on_fault(self, I, st, **d):
        if d.get("name", d.get("what")) == "os.pipe":
            self.put(st, ("failed", "OSError"), TRUE)
            self.put(st, "anyfail", K("OSError"))

    def end(self, I, st, out):
        f = self.get(st, "anyfail")
        if self.get(st, "cancelled"):
            return
        if isinstance(out, Raise) and not self.get(st, "entered") and exc_name(I, st, out) in ("CancelledError", "ValueError", "AssertionError", "RuntimeError"):
            self.bad(I, st, "wrong-error", f"entering raises {exc_name(I, st, out)}, which is not an error of a command", construct="outcome", where="entering")
        if self.get(st, "real") and not self.get(st, "up") and not isinstance(out, Raise):
            self.bad(I, st, "swallowed", "a command could not be launched, but entering does not raise", construct="outcome", where="entering")
        if f is None:
            return
        if not isinstance(out, Raise):
            self.bad(I, st, "swallowed", f"{kval(f)} while starting the pipeline is not raised", construct="outcome", where="entering")
        elif self.get(st, ("failed", exc_name(I, st, out))) is None:
            self.bad(I, st, "wrong-error", f"starting a command raised {kval(f)} but entering raises {exc_name(I, st, out)}", construct="outcome", where="entering")


# ---------------------------------------------------------------- scenarios

PRE = PRE0


def names(n):
    return [f"s{i + 1}" for i in range(n)]


def order(n):
    return '__mark__("order", ' + ", ".join(f'"{x}"' for x in names(n)) + ")"


def pipe(n, extra=""):
    return " | ".join(f'sh("{x}", "a")' for x in names(n))


def AWAIT(n, codes="0, 7", suffix="", order_=True):
    return PRE + stage(codes) + f'''
async def main():
    {order(n)}
    pipe = {pipe(n)}
    __mark__("awaited")
    return await pipe{suffix}
'''


def GIVEN(n):
    return PRE + stage("0") + f'''
async def main():
    {order(n)}
    a, b = __sym__("fd_in", int), __sym__("fd_out", int)
    __mark__("given", a, b)
    pipe = ({pipe(n)}).stdin(a).stdout(b)
    return await pipe
'''


def AWITH(n, codes="0"):
    return PRE + stage(codes) + f'''
async def main():
    {order(n)}
    pipe = ({pipe(n)}).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with pipe as run:
        __mark__("entered")
        __mark__("streams", run.stdin, run.stdout, run.stderr, run.pid)
        await __body__("body")
    __mark__("left")
'''


def AWITH_RESULT(n, codes="0, 7"):
    return PRE + stage(codes) + f'''
async def main():
    {order(n)}
    pipe = ({pipe(n)}).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with pipe as run:
        __mark__("entered")
    __mark__("left")
    __mark__("awaited")
    return run.result()
'''


def ITER(n):
    return PRE + stage("0") + f'''
async def main():
    {order(n)}
    pipe = {pipe(n)}
    __mark__("awaited")
    async for line in pipe:
        __mark__("entered")
        await __body__("body")
    __mark__("left")
'''


def PROMPT(n):
    return PRE + stage("0") + f'''
async def main():
    {order(n)}
    pipe = {pipe(n)}
    async with pipe.prompt() as cli:
        __mark__("entered")
        await __body__("body")
    __mark__("left")
'''


def PIPEFAIL(n, codes="0, 7"):
    return PRE + stage(codes) + f'''
from shellous import ResultError
async def main():
    {order(n)}
    pipe = {pipe(n)}
    try:
        r = await pipe.result
    except ResultError as ex:
        r = ex.result
    __mark__("result", r)
'''


def PIPEFAIL_PLAIN(n, codes="0, 7"):
    return PRE + stage(codes) + f'''
from shellous import ResultError
async def main():
    {order(n)}
    pipe = {pipe(n)}
    try:
        await pipe
    except ResultError as ex:
        __mark__("result", ex.result)
'''


def PIPEFAIL_WITH(n, codes="0, 7"):
    return PRE + stage(codes) + f'''
async def main():
    {order(n)}
    pipe = ({pipe(n)}).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with pipe as run:
        pass
    __mark__("result", run.result(check=False))
'''


FAULTS = {"stage.launch": [PermissionError], "stage.run": [ValueError], "body": [KeyError], "os.pipe": [OSError]}
S = dict(coarse=True, summaries=stages(False), expect=("mark:stage",))


def p01_jobs(tier):
    M = [Pipe]
    js = [
        Job("await-2", AWAIT(2), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("await-3", AWAIT(3), M, cancels=0, faults=1, raises=FAULTS, **S),
        Job("await-3-cancel", AWAIT(3), M, cancels=1, faults=0, raises=FAULTS, **S),
        Job("with-2", AWITH(2), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("with-3", AWITH(3), M, cancels=0, faults=1, raises=FAULTS, **S),
        Job("with-result-2", AWITH_RESULT(2), M, cancels=0, faults=1, raises=FAULTS, **S),
        Job("iter-2", ITER(2), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("prompt-2", PROMPT(2), M, cancels=1, faults=1, raises=FAULTS, **S),
    ]
    return js


def SAME(how):
    return PRE + stage("0") + f'''
async def main():
    __mark__("length", 4)
    a = sh("s", "x")
    pipe = a | a | sh("s", "x") | a
    {how}
'''


def f03_jobs(tier):
    M = [Fds("F03", kinds=("pipe_r", "pipe_w")), Wiring]
    MS = [Fds("F03", kinds=("pipe_r", "pipe_w")), WiringSame]
    js = [
        Job("await-2", AWAIT(2, "0"), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("await-3", AWAIT(3, "0"), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("given-4", GIVEN(4), M, cancels=0, faults=1, raises=FAULTS, **S),
        Job("with-2", AWITH(2), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("with-3", AWITH(3), M, cancels=0, faults=1, raises=FAULTS, **S),
        Job("iter-2", ITER(2), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("prompt-2", PROMPT(2), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("same-4", SAME("return await pipe"), MS, **S),
        Job("same-4-with", SAME("async with pipe.stdin(sh.CAPTURE).stdout(sh.CAPTURE) as run:\n        pass"), MS, **S),
    ]
    return js



def REAL_FIRST(how):
    "The first (or last) command is a real one, analysed in full."
    return PRE + stage("0") + f"""
async def main():
    __mark__("real")
    __mark__("order", {'"prog", "s2"' if how == "first" else '"s1", "prog"'})
    pipe = {'sh("prog", "a") | sh("s2", "b")' if how == "first" else 'sh("s1", "a") | sh("prog", "b")'}
    pipe = pipe.stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with pipe as run:
        __mark__("entered")
    __mark__("left")
"""


def p02_jobs(tier):
    M = [Pipefail]
    S2 = dict(S, expect=("mark:stage", "mark:result"))
    js = [
        Job("result-2", PIPEFAIL(2), M, cancels=0, **S2),
        Job("result-3", PIPEFAIL(3), M, cancels=0, **S2),
        Job("plain-2", PIPEFAIL_PLAIN(2), M, cancels=0, **S2),
        Job("plain-3", PIPEFAIL_PLAIN(3, "0, 7, -9"), M, cancels=0, **S2),
        Job("with-3", PIPEFAIL_WITH(3), M, cancels=0, **S2),
        Job("with-2-cancel", PIPEFAIL_WITH(2), M, cancels=1, **S2),
    ]
    if tier == "thorough":
        js += [Job("result-4", PIPEFAIL(4), M, cancels=0, **S2), Job("plain-4", PIPEFAIL_PLAIN(4), M, cancels=0, **S2),
               Job("with-3-cancel", PIPEFAIL_WITH(3), M, cancels=1, **S2)]
    return js


REALF = {"asyncio.create_subprocess_exec": [PermissionError], "open": [OSError], "os.pipe": [OSError]}


def p04_jobs(tier):
    M = [Entering]
    js = [
        Job("with-2", AWITH(2), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("with-3", AWITH(3), M, cancels=0, faults=1, raises=FAULTS, **S),
        Job("with-3-cancel", AWITH(3), M, cancels=1, faults=0, **S),
        Job("iter-2", ITER(2), M, cancels=1, faults=1, raises={k: v for k, v in FAULTS.items() if k != "stage.run"}, **S),
        Job("prompt-2", PROMPT(2), M, cancels=1, faults=1, raises=FAULTS, **S),
        Job("real-first", REAL_FIRST("first"), M, cancels=0, faults=1, raises=REALF, coarse=True, summaries=stages(False), expect=("mark:stage", "exec")),
        Job("real-last", REAL_FIRST("last"), M, cancels=0, faults=1, raises=REALF, coarse=True, summaries=stages(False), expect=("mark:stage", "exec")),
    ]
    if tier == "thorough":
        js += [Job("with-3-2", AWITH(3), M, cancels=1, faults=2, raises=FAULTS, **S),
               Job("real-first-cancel", REAL_FIRST("first"), M, cancels=1, faults=1, raises=REALF, coarse=True, summaries=stages(False), expect=("mark:stage", "exec")),
               Job("real-last-cancel", REAL_FIRST("last"), M, cancels=1, faults=1, raises=REALF, coarse=True, summaries=stages(False), expect=("mark:stage", "exec"))]
    return js


# P03: composition

COMPOSE = PRE + """
def check(label, pipe, cmds):
    __mark__("same", label + ": number of commands", len(pipe), len(cmds))
    for i in range(len(cmds)):
        __mark__("same", label + ": command " + str(i), pipe[i], cmds[i])
def main():
    a, b, c, d, e = sh("a", "1"), sh("b").set(timeout=3.0), sh("c").stderr(sh.STDOUT), sh("d"), sh("e")
    check("a|b", a | b, (a, b))
    check("a|b|c", a | b | c, (a, b, c))
    check("a|(b|c)", a | (b | c), (a, b, c))
    check("(a|b)|(c|d)", (a | b) | (c | d), (a, b, c, d))
    check("a|((b|c)|d)", a | ((b | c) | d), (a, b, c, d))
    check("a|(b|(c|d))", a | (b | (c | d)), (a, b, c, d))
    check("(a|(b|c))|d", (a | (b | c)) | d, (a, b, c, d))
    check("((a|b)|c)|d", ((a | b) | c) | d, (a, b, c, d))
    check("(a|b)|(c|(d|e))", (a | b) | (c | (d | e)), (a, b, c, d, e))
    check("((a|b)|(c|d))|e", ((a | b) | (c | d)) | e, (a, b, c, d, e))
    check("a|a", a | a, (a, a))
    p = a | b
    check("p|p", p | p, (a, b, a, b))
    check("p unchanged", p, (a, b))
    check("p()", (p | c)(), (a, b, c))
"""

ENDS = PRE + """
async def main():
    a, b, c = sh("a", "1").set(timeout=3.0), sh("b", "2").stderr(sh.DEVNULL), sh("c", "3")
    p = a | b | c
    how = __choose__("in |", "stdin()", "| out", ">> out", "stdout()", "stdout(append)", "stderr()", "stderr(append)", "result", "writable")
    x = __choose__(Path("file"), bytearray(b"x"), sh.DEVNULL, __new__(io.StringIO, "sio"), __sym__("fd", int))
    if how == "in |":
        if isinstance(x, (int, bytearray)) :
            x = __choose__("text", b"bytes") if isinstance(x, bytearray) else sh.INHERIT
        p2 = x | p
    elif how == "stdin()": p2 = p.stdin(x, close=True)
    elif how == "| out":
        if isinstance(x, int): x = sh.CAPTURE
        p2 = p | x
    elif how == ">> out":
        if isinstance(x, int): x = sh.CAPTURE
        p2 = p >> x
    elif how == "stdout()": p2 = p.stdout(x, close=True)
    elif how == "stdout(append)": p2 = p.stdout(x, append=True)
    elif how == "stderr()": p2 = p.stderr(x, close=True)
    elif how == "stderr(append)": p2 = p.stderr(x, append=True)
    elif how == "result": p2 = p.result
    elif how == "writable": p2 = p.writable
    first = how in ("in |", "stdin()")
    __mark__("same", how + ": number of commands", len(p2), 3)
    __mark__("same", how + ": middle command unchanged", p2[1], b)
    if first:
        __mark__("same", how + ": last command unchanged", p2[2], c)
        o, old = p2[0].options, a.options
        __mark__("same", how + ": first command's arguments", p2[0].args, a.args)
        __mark__("same", how + ": first command's input", o.input, x)
        __mark__("same", how + ": first command's input_close", o.input_close, how == "stdin()")
        __mark__("same", how + ": first command's output", o.output, old.output)
        __mark__("same", how + ": first command's error", o.error, old.error)
        __mark__("same", how + ": first command's timeout", o.timeout, old.timeout)
    else:
        __mark__("same", how + ": first command unchanged", p2[0], a)
        o, old = p2[2].options, c.options
        __mark__("same", how + ": last command's arguments", p2[2].args, c.args)
        __mark__("same", how + ": last command's input", o.input, old.input)
        out, err = how in ("| out", ">> out", "stdout()", "stdout(append)"), how in ("stderr()", "stderr(append)")
        __mark__("same", how + ": last command's output", o.output, x if out else old.output)
        __mark__("same", how + ": last command's output_append", o.output_append, how in (">> out", "stdout(append)"))
        __mark__("same", how + ": last command's output_close", o.output_close, how == "stdout()")
        __mark__("same", how + ": last command's error", o.error, x if err else old.error)
        __mark__("same", how + ": last command's error_append", o.error_append, how == "stderr(append)")
        __mark__("same", how + ": last command's error_close", o.error_close, how == "stderr()")
        __mark__("same", how + ": last command's timeout", o.timeout, old.timeout)
    __mark__("same", "original pipeline: first", p[0], a)
    __mark__("same", "original pipeline: last", p[2], c)
    q = a | x if how == "| out" else a
    __mark__("same", "options of the pipeline are those of its last command", p2.options, p2[2].options)
"""


class Ends(Expect):
    "Expect, plus: the scenario must not raise."

    def end(self, I, st, out):
        if isinstance(out, Raise):
            self.bad(I, st, "raises", f"composing the pipeline raises {exc_name(I, st, out)}", construct="driver", where="driver")


def p03_jobs(tier):
    return [Job("grouping", COMPOSE, [Ends("P03")], coarse=False, expect=("mark:same",)),
            Job("ends", ENDS, [Ends("P03")], coarse=False, expect=("mark:same",)),
            Job("run", GIVEN(3), [Wiring("P03")] if False else [WiringP03()], cancels=0, **S)]


class WiringP03(Wiring):
    "Order and outer redirections of a pipeline that is run."
    name = "P03"


ASSUME = ("Each command of a pipeline is represented by its contract: it closes the descriptors it was told to close, reports readiness or the reason why not, "
          "and ends with a Result, a ResultError or another error (F02, L03 and the scenarios real-first/real-last decide that for a command).",
          "Pipelines of 2 to 4 commands; longer ones repeat the same loop body.",
          "At most one cancellation by the caller and one failure are injected per run, at every suspension point and launch.")

CHECKS = {
    "P01": Check("A pipeline ends with every one of its commands stopped", "no task of a command is pending when control returns; once one failed, the pending ones waited for are cancelled; "
                 "a foreign error is raised again", p01_jobs,
                 "All completion orders of the commands' tasks with launch failures, run failures, error exits, cancellation and errors of the caller's block.", ASSUME),
    "P02": Check("A pipeline reports the first failing command", "origin (which command's Result) of each field of the pipeline's Result, for every combination of outcomes", p02_jobs,
                 "Each command's Result has distinct abstract contents; the fields of the final Result are traced to the command they come from.", ASSUME),
    "P03": Check("Pipeline composition keeps order", "abstract value of every command and option of composed pipelines", p03_jobs,
                 "All groupings of up to five commands and each redirection operator and method on a pipeline with abstract operands.", ASSUME),
    "P04": Check("Entering a captured pipeline never hangs", "no state in which the enter waits for futures nobody can complete; the failure that was injected is the one raised", p04_jobs,
                 "Launch failures and cancellations of each command at each point of entering, with commands by contract and with a command analysed in full at either end.", ASSUME),
    "F03": Check("Pipeline stages are joined by their own pipe", "provenance of each command's stdin/stdout from os.pipe; typestate of both pipe ends", f03_jobs,
                 "Descriptors are traced from os.pipe to the commands' redirections and to the close, on success, failure and cancellation.", ASSUME),
}
