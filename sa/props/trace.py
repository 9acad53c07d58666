"""Tracing (SHELLOUS_TRACE) changes nothing."""

import asyncio

from ..core import *
from ..registry import Check
from ..run import Job, exc_name
from .common import Expect
from .cut import Cut
from .fds import Fds, PATHS, PTY_WITH, OPENF
from .life import AWAIT, AWITH, ITER, IO_FAULT, L01, L03, L05, PROMPT, PTY, Track, src
from .pipes import AWAIT as PAWAIT, AWITH as PAWITH, FAULTS, ITER as PITER, Pipe, S

DECO = '''
import asyncio
from shellous.log import log_method, log_thread, log_timer
RET = __sym__("returned", object)
ITEMS = [__sym__("item0", object), __sym__("item1", object)]
SEEN = []

class Boom(Exception):
    pass

class Stop(BaseException):
    pass

async def work(how):
    if how == "await":
        await __body__("inner")
    elif how == "error":
        raise Boom("x")
    elif how == "stop":
        raise Stop("x")

class Owner:
    def __init__(self, how):
        self.how = how
    @log_method(ON)
    async def method(self, a, b=None, *, k=None):
        SEEN.append((self, a, b, k))
        await work(self.how)
        return RET
    @log_method(ON)
    async def __aenter__(self):
        SEEN.append((self, None, None, None))
        await work(self.how)
        return RET
    @log_method(ON)
    async def __aexit__(self, a, b, k):
        SEEN.append((self, a, b, k))
        await work(self.how)
        return RET
    @log_method(ON)
    async def items(self, a, b=None, *, k=None):
        SEEN.append((self, a, b, k))
        for x in ITEMS:
            yield x
        await work(self.how)

@log_method(ON)
async def function(owner, a, b=None, *, k=None):
    SEEN.append((owner, a, b, k))
    await work(owner.how)
    return RET

@log_method(ON)
async def generator(owner, a, b=None, *, k=None):
    SEEN.append((owner, a, b, k))
    for x in ITEMS:
        yield x
    await work(owner.how)

@log_thread(ON)
def thread(owner, a, b=None, *, k=None):
    SEEN.append((owner, a, b, k))
    if owner.how == "error":
        raise Boom("x")
    if owner.how == "stop":
        raise Stop("x")
    return RET

def plain(how):
    with log_timer("x", __choose__(0.1, 0, -1), __choose__(True, False)):
        if how == "error":
            raise Boom("x")
        if how == "stop":
            raise Stop("x")
        return RET

async def main():
    how = __choose__("value", "error", "stop", "await")
    owner = Owner(how)
    a, b, k = __sym__("a", object), __sym__("b", object), __sym__("k", object)
    what = __choose__("method", "__aenter__", "__aexit__", "items", "function", "generator", "thread", "timer")
    got, end = [], "value"
    try:
        if what == "method":
            got.append(await owner.method(a, b, k=k))
        elif what == "__aenter__":
            a = b = k = None
            got.append(await owner.__aenter__())
        elif what == "__aexit__":
            got.append(await owner.__aexit__(a, b, k))
        elif what == "items":
            async for x in owner.items(a, b, k=k):
                got.append(x)
        elif what == "function":
            got.append(await function(owner, a, b, k=k))
        elif what == "generator":
            async for x in generator(owner, a, b, k=k):
                got.append(x)
        elif what == "thread":
            got.append(thread(owner, a, b, k=k))
        elif what == "timer":
            SEEN.append((owner, a, b, k))
            got.append(plain(how))
    except Boom:
        end = "error"
    except Stop:
        end = "stop"
    except asyncio.CancelledError:
        end = "cancelled"
    want = ITEMS if what in ("items", "generator") else [RET] if how in ("value", "await") else []
    if end != "cancelled":
        if how == "await" or what in ("thread", "timer") and how == "await":
            how = "value"
        __mark__("same", what + ": how it ends", end, how)
        __mark__("same", what + ": number of values", len(got), len(want))
        for i in range(min(len(got), len(want))):
            __mark__("same", what + ": value", got[i], want[i])
    __mark__("ended", end)
    __mark__("same", what + ": calls", len(SEEN), 1)
    for x, y in zip(SEEN[0], (owner, a, b, k)):
        __mark__("same", what + ": argument", x, y)
'''


class Deco(Expect):
    def on_cancel(self, I, st, **_):
        self.put(st, "cancel", TRUE)

    def on_mark(self, I, st, name, args, **kw):
        if name == "ended":
            c = kval(args[0]) == "cancelled"
            if c != (self.get(st, "cancel") is not None):
                self.bad(I, st, "cancel", "a cancellation is " + ("made up" if c else "lost") + " by the tracing wrapper", construct="log", where="traced call")
            return
        return super().on_mark(I, st, name=name, args=args, **kw)

    def end(self, I, st, out):
        if isinstance(out, Raise):
            self.bad(I, st, "raises", f"a traced call raises {exc_name(I, st, out)} instead of what the function raised", construct="log", where="traced call")


def o01_jobs(tier):
    C = dict(coarse=True, expect=("launched",), trace="all")
    P = dict(S, trace="all")
    js = [Job("decorators", DECO.replace("ON)", "True)"), [Deco("O01")], cancels=1, coarse=False, trace="all", expect=("mark:same",)),
          Job("decorators-off", DECO.replace("ON)", "False)"), [Deco("O01")], cancels=1, coarse=False, expect=("mark:same",)),
          Job("await", src(AWAIT), [Track, L01, L03, L05], cancels=1, faults=1, raises=IO_FAULT, **C),
          Job("await-timeout", src(AWAIT, True), [Track, L01, L03, L05], **C),
          Job("with", src(AWITH), [Track, L01, L05], cancels=1, faults=1, raises={"body": [ValueError]}, **C),
          Job("iter", src(ITER), [Track, L01, Cut()], cancels=1, **C),
          Job("prompt", src(PROMPT), [Track, L01, Cut()], cancels=1, faults=1, raises={"body": [ValueError]}, **C),
          Job("pty", src(PTY), [Track, L01, L03], cancels=1, **C),
          Job("files", PATHS, [Fds("O01")], faults=1, raises=OPENF, coarse=True, trace="all", expect=("launched", "closed")),
          Job("pipe", PAWAIT(2), [Pipe("O01")], cancels=1, faults=1, raises=FAULTS, **P),
          Job("pipe-with", PAWITH(2), [Pipe("O01")], cancels=1, faults=1, raises=FAULTS, **P)]
    if tier == "thorough":
        js += [Job("pipe-iter", PITER(2), [Pipe("O01")], cancels=1, faults=1, raises=FAULTS, **P),
               Job("pty-with", PTY_WITH, [Fds("O01")], cancels=1, faults=1, raises=OPENF, coarse=True, trace="all", expect=("launched", "closed")),
               Job("await-2", src(AWAIT, True), [Track, L01, L03, L05], cancels=2, **C)]
    return js


CHECKS = {
    "O01": Check("Tracing changes nothing", "value flow through the tracing wrappers; the rules of L01, L03, L05, L08, F01 and P01 with tracing switched on", o01_jobs,
                 "Every wrapper of log.py is followed with abstract arguments, results, exceptions and a cancellation; and commands, sessions, files and pipelines are analysed with SHELLOUS_TRACE=all.",
                 ("What the log records contain and where they go is left open.",)),
}
