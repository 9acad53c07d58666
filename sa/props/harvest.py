"""harvest and harvest_results: no task left running, no failure hidden."""

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, exc_is, exc_name


class Harvest(Monitor):
    name = "H01"

    def on_task_created(self, I, st, task, **_):
        n = len([k for k in st.mon if k[0] == self.name and isinstance(k[1], tuple) and k[1][0] == "task"])
        self.put(st, ("task", n), Tup([task]))

    def tasks(self, st):
        return [(k[1][1], q.parts[0][0]) for k, q in st.mon.items() if k[0] == self.name and isinstance(k[1], tuple) and k[1][0] == "task"]

    def state(self, I, st, t):
        return I.models.fut_state(t, st) if st.has(t.parts[0]) else "?"

    def on_cancel(self, I, st, by, **_):
        self.put(st, "cancelled", TRUE)
        if kval(self.get(st, "waits") or K(0)) >= 2:
            self.put(st, "again", K(min(2, kval(self.get(st, "again") or K(0)) + 1)))

    def on_mark(self, I, st, name, args, **_):
        if name == "finish":
            self.put(st, "finish", TRUE)
        elif name == "value":
            self.put(st, ("value", kval(args[0])), Tup([args[1]]))
        elif name == "order":
            self.put(st, "order", Tup(args))
        elif name == "returned":
            self.returned(I, st, args[0])
        elif name == "got_cancel":
            self.put(st, ("got_cancel", args[0]), TRUE)

    def on_wait_begin(self, I, st, items, timeout, when, **_):
        ts = [t for _i, t in self.tasks(st)]
        n = self.get(st, "waits")
        self.put(st, "waits", K(1 if n is None else 2))
        if n is None:
            return
        # a later wait is only for tasks being stopped
        for t in items:
            if t in ts and self.state(I, st, t) == "pending" and st.get(t.parts[0]).f.get("cancel_req") is not TRUE:
                if not (self.get(st, "finish") and self.get(st, "cancelled")):
                    self.bad(I, st, "not-cancelled", "a pending awaitable is waited for again without being cancelled")
            if t in ts and self.state(I, st, t) == "pending" and st.get(t.parts[0]).f.get("cancel_req") is TRUE:
                if self.get(st, "finish") and self.get(st, "cancelled") and not self.get(st, "expired") and not self.get(st, "failed"):
                    self.bad(I, st, "cancelled-finish", "an awaitable is cancelled although cancel_finish=True")

    def on_wait_done(self, I, st, done, pending, timeout, when, **_):
        if self.get(st, "first") is not None:
            if pending and when != "ALL_COMPLETED":
                self.put(st, "early", TRUE)
            return
        self.put(st, "first", TRUE)
        bad = [t for t in done if self.state(I, st, t) == "exc"]
        if pending and not bad:
            self.put(st, "expired", TRUE)
        if bad:
            self.put(st, "failed", TRUE)

    def on_task_end(self, I, st, task, state, **_):
        if state == "exc":
            ty, _t = I.type_of(st.get(task.parts[0]).f["value"], st)
            nm = pyobj(ty).__name__ if ty is not None and ty.tag == "py" else "?"
            self.put(st, ("exc", nm), TRUE)
            self.put(st, "anyexc", K(nm))

    def returned(self, I, st, v):
        "(cancelled, results) of harvest_results"
        v = I.norm(v, st)
        vs = v.parts[0] if v.tag == "tup" else ()
        if len(vs) != 2:
            self.bad(I, st, "shape", f"harvest_results returns {show(v)}", construct="result", where="return")
            return
        c, lst = I.norm(vs[0], st), I.norm(vs[1], st)
        want = B(bool(self.get(st, "cancelled")))
        if c is not want:
            self.bad(I, st, "cancelled-flag", f"harvest_results reports cancelled={show(c)} although the caller was {'' if want is TRUE else 'not '}cancelled", construct="result", where="return")
        items = I.models.known_items(lst, st)
        ts = sorted(self.tasks(st))
        if items is None or len(items) != len(ts):
            self.bad(I, st, "results", f"{len(items or ())} results for {len(ts)} awaitables", construct="result", where="return")
            return
        for (i, t), r in zip(ts, items):
            s, r = self.state(I, st, t), I.norm(r, st)
            f = st.get(t.parts[0]).f
            if s == "pending":
                continue        # judged at the end
            if s == "cancelled":
                ty, _t = I.type_of(r, st)
                ok = ty is not None and ty.tag == "py" and pyobj(ty).__name__ == "CancelledError"
            else:
                ok = r is I.norm(f["value"], st)
            if not ok:
                self.bad(I, st, "results", f"result {i} is {show(r)}, not the outcome of awaitable {i} ({s} {show(f.get('value', NONE))})", construct="result", where="return")

    def end(self, I, st, out):
        name = exc_name(I, st, out) if isinstance(out, Raise) else None
        left = [i for i, t in self.tasks(st) if self.state(I, st, t) == "pending"]
        if left and kval(self.get(st, "again") or K(0)) >= 2:
            return      # the clean-up is retried once, not more often
        if left and name != "RuntimeError":
            self.bad(I, st, "left-running", f"awaitable {left[0]} is still running when harvest {'raises ' + name if name else 'returns'}", construct="outcome", where="return")
            return
        if name == "RuntimeError" and not left and not self.get(st, ("exc", "RuntimeError")):
            self.bad(I, st, "spurious", "harvest raises RuntimeError although every awaitable is done", construct="outcome", where="return")
        if name == "RuntimeError" and self.get(st, "early"):
            self.bad(I, st, "gave-up", "harvest gives up on awaitables that have not had the full time to stop", construct="outcome", where="return")
        if name == "RuntimeError" or name == "AssertionError":
            if name == "AssertionError" and not self.get(st, ("exc", name)):
                self.bad(I, st, "assertion", "an internal assertion fails", construct="outcome", where="return")
            return
        results = self.get(st, "returns") is not None
        if self.get(st, "cancelled"):
            if name != "CancelledError" and not (name is None and self.results):
                self.bad(I, st, "cancel-lost", f"harvest was cancelled but {'raises ' + name if name else 'returns normally'}", construct="outcome", where="return")
            return
        if self.get(st, "expired"):
            if name != "TimeoutError":
                self.bad(I, st, "timeout-lost", f"the timeout expired but harvest {'raises ' + name if name else 'returns normally'}", construct="outcome", where="return")
            return
        if name == "TimeoutError" and not self.get(st, ("exc", "TimeoutError")):
            self.bad(I, st, "false-timeout", "harvest raises TimeoutError although the timeout did not expire", construct="outcome", where="return")
        elif self.get(st, "anyexc") is not None and not self.results:
            if name is None:
                self.bad(I, st, "hidden", f"an awaitable raised {kval(self.get(st, 'anyexc'))} but harvest returns normally", construct="outcome", where="return")
            elif not self.get(st, ("exc", name)):
                self.bad(I, st, "other-error", f"harvest raises {name}, which no awaitable raised", construct="outcome", where="return")
        elif name is not None and not self.get(st, ("exc", name)):
            self.bad(I, st, "other-error", f"harvest raises {name}, which no awaitable raised", construct="outcome", where="return")

    results = False


class Results(Harvest):
    results = True


PRE = '''
from shellous.harvest import harvest, harvest_results
import asyncio
async def work(name):
    v = __sym__("value_" + name, str)
    await __body__("work")
    return v
async def stubborn(name):
    try:
        await __body__("work")
    except asyncio.CancelledError:
        await __body__("clean")
        raise
async def swallow(name):
    try:
        await __body__("work")
    except asyncio.CancelledError:
        __mark__("got_cancel", name)
    return __sym__("value_" + name, str)
async def gone(name):
    await __body__("work")
    raise asyncio.CancelledError()
'''


def HARVEST(kw, fns=("work", "work", "work")):
    return PRE + f'''
async def main():
    {'__mark__("finish")' if "cancel_finish=True" in kw else 'pass'}
    await harvest({", ".join(f'{f}("{"abcd"[i]}")' for i, f in enumerate(fns))}{", " + kw if kw else ""})
'''


def RESULTS(kw, fns=("work", "work", "work")):
    return PRE + f'''
async def main():
    r = await harvest_results({", ".join(f'{f}("{"abcd"[i]}")' for i, f in enumerate(fns))}{", " + kw if kw else ""})
    __mark__("returned", r)
'''


def jobs(tier):
    TO = 'timeout=__sym__("timeout", float, opt=True)'
    R = {"work": [ValueError], "clean": [KeyError]}
    R2 = {"work": [ValueError, RuntimeError, AssertionError]}
    E = dict(coarse=True, raises=R, prompt_cancel=False)
    js = [
        Job("harvest", HARVEST(TO), [Harvest], cancels=2, faults=1, **E),
        Job("harvest-2-errors", HARVEST(TO), [Harvest], cancels=0, faults=2, **E),
        Job("harvest-one", HARVEST(TO, ("work",)), [Harvest], cancels=2, faults=1, **E),
        Job("harvest-finish", HARVEST(TO + ", cancel_finish=True", ("work", "work")), [Harvest], cancels=2, faults=1, **E),
        Job("harvest-stubborn", HARVEST(TO, ("stubborn", "swallow")), [Harvest], cancels=2, faults=1, **E),
        Job("results", RESULTS(TO), [Results], cancels=2, faults=1, **E),
        Job("results-stubborn", RESULTS(TO, ("stubborn", "swallow", "work")), [Results], cancels=1, faults=1, **E),
        Job("results-errors", RESULTS(TO, ("work", "work")), [Results], cancels=1, faults=2, coarse=True, raises=R2, prompt_cancel=False),
    ]
    js += [Job("harvest-gone", HARVEST(TO, ("gone", "work", "work")), [Harvest], cancels=1, faults=1, **E),
           Job("results-gone", RESULTS(TO, ("gone", "work")), [Results], cancels=1, faults=1, **E)]
    if tier == "thorough":
        js += [Job("harvest-deep", HARVEST(TO, ("work", "stubborn", "swallow", "work")), [Harvest], cancels=3, faults=2, **E),
               Job("results-deep", RESULTS(TO, ("work", "stubborn", "swallow", "work")), [Results], cancels=3, faults=2, **E)]
    return js


CHECKS = {
    "H01": Check("Harvesting leaves no task running and hides no failure", "state of every task at each return or raise; agreement of the outcome with the tasks' outcomes, the timeout and cancellation", jobs,
                 "All combinations of completion, failure, expiry and up to two caller cancellations for one to three awaitables, including ones that resist cancellation.",
                 ("Awaitables are coroutines with one suspension point each, plus ones that delay or swallow a cancellation.",)),
}
