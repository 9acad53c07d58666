"""The child watcher, and collecting exit statuses."""

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, exc_is, exc_name

PRE = '''
from shellous.watcher import DefaultChildWatcher
from shellous import watcher, util
import asyncio, os

def done(pid, status, *args):
    __mark__("called", pid, status, args)

def broken(pid, status, *args):
    __mark__("called", pid, status, args)
    raise RuntimeError("Event loop is closed")

def add(w, pid, cb, *args):
    __mark__("add", pid, cb, args)
    try:
        w.add_child_handler(pid, cb, *args)
    except Exception as ex:
        __mark__("add_failed", pid, type(ex).__name__)
    else:
        __mark__("added", pid)
'''


class Watch(Monitor):
    name = "W01"
    hands_over = True       # whether close() stops the watching

    def on_mark(self, I, st, name, args, **_):
        a = [I.norm(x, st) for x in args]
        if name == "add":
            self.put(st, ("args", a[0]), Tup([a[2]]))
        elif name == "added":
            self.put(st, ("watched", a[0]), TRUE)
        elif name == "add_failed":
            self.put(st, ("failed", a[0]), TRUE)
            if not self.get(st, "fault"):
                self.bad(I, st, "refused", f"a process cannot be registered ({show(a[1])}) although nothing failed", construct="add_child_handler")
        elif name == "called":
            self.called(I, st, *a)
        elif name == "closing":
            self.put(st, "closing", TRUE)
        elif name == "closed":
            self.put(st, "closed", TRUE)
            self.fds_gone(I, st)

    def called(self, I, st, pid, status, args):
        want = self.get(st, ("args", pid))
        if want is None:
            self.bad(I, st, "wrong-pid", f"the callback is told of {show(pid)}, which was never registered", construct="callback")
            return
        if self.get(st, ("called", pid)):
            self.bad(I, st, "twice", f"the callback for a process is called twice", construct="callback")
        self.put(st, ("called", pid), TRUE)
        got = I.models.known_items(args, st)
        exp = I.models.known_items(want.parts[0][0], st)
        if got is None or exp is None or [I.norm(x, st) for x in got] != [I.norm(x, st) for x in exp]:
            self.bad(I, st, "arguments", f"the callback gets {show(args)} instead of its arguments", construct="callback")
        r = self.get(st, ("reaped", pid))
        if r is None:
            self.bad(I, st, "not-exited", f"the callback is called although the process has not been found to have exited", construct="callback")
            return
        good = Sym("call", K("os.waitstatus_to_exitcode"), Sym("waitstatus", pid)) if r is K("status") else K(255)
        if status is not good:
            self.bad(I, st, "status", f"the callback gets the status {show(status)}, not {show(good)}", construct="callback")

    def on_fault(self, I, st, **_):
        self.put(st, "fault", TRUE)

    def on_reaped(self, I, st, pid, **_):
        if self.get(st, ("args", pid)) is None:
            self.bad(I, st, "reaps-other", f"waits for {show(pid)}, which it was not asked to watch", construct="os.waitpid")
        self.put(st, ("reaped", pid), K("status"))

    def on_wait_lost(self, I, st, pid, **_):
        if self.get(st, ("reaped", pid)) is not None:
            self.bad(I, st, "reaped-again", "waits again for a process that has been reaped (its id may belong to another process by now)", construct="os.waitpid")
        self.put(st, ("reaped", pid), K("lost"))

    def on_waitpid(self, I, st, pid, block, thread, **_):
        if block and thread in (None, NONE):
            self.bad(I, st, "blocks", "waits for a process in the event loop's thread", construct="os.waitpid")

    def on_ready(self, I, st, fds, pids, **_):
        for f, p in zip(fds, pids):
            if f.tag == "sym" and f.parts[0] == "fdend":
                break       # asked to stop
            if p is not None and self.get(st, ("args", p)) is not None and self.get(st, "closing") is None:
                self.put(st, ("ready", p), TRUE)

    def on_opened(self, I, st, fd, what, **_):
        if what in ("pidfd", "pipe_r", "pipe_w"):
            self.put(st, ("fd", fd), K(what))

    def on_closed(self, I, st, fd, **_):
        if self.get(st, ("fd", fd)) is not None:
            st.mon.pop((self.name, ("fd", fd)))
        elif fd.tag == "sym":
            self.bad(I, st, "double-close", f"{show(fd)} is closed although it is not open (any more)", construct="close")

    def on_thread_died(self, I, st, error, **_):
        nm = pyobj(error).__name__ if error is not None and error.tag == "py" else "an error"
        self.bad(I, st, "thread-died", f"the watching thread ends with {nm}: exits are not reported any more", construct="thread")

    def on_task_end(self, I, st, task, state, **_):
        if state == "exc":
            self.bad(I, st, "task-died", "the task that polls a process ends with an error", construct="task")

    def on_hang(self, I, st, **_):
        self.bad(I, st, "hang", "waits forever for the watching thread to end", construct="close")

    def fds_gone(self, I, st):
        for k, v in st.mon.items():
            if k[0] == self.name and isinstance(k[1], tuple) and k[1][0] == "fd":
                self.bad(I, st, "fd-left", f"{kval(v)} is still open after close()", construct=kval(v), where="close")
                return

    def end(self, I, st, out):
        if isinstance(out, Raise):
            self.bad(I, st, "raises", f"the scenario ends with {exc_name(I, st, out)}", construct=exc_name(I, st, out), where="end")
            return
        for k, v in list(st.mon.items()):
            if k[0] != self.name or not isinstance(k[1], tuple):
                continue
            kind, pid = k[1][0], k[1][1]
            if kind in ("reaped", "ready") and self.get(st, ("called", pid)) is None:
                self.bad(I, st, "not-reported", "a process was found to have exited but its callback is never called", construct="callback", where="end")
                return
            if kind == "failed" and self.get(st, ("begun", pid)) and self.get(st, ("called", pid)) is None and not self.get(st, ("polled", pid)):
                self.bad(I, st, "not-collected", "a process that could not be watched is not collected", construct="add_child_handler", where="end")
                return
            if kind == "watched" and self.get(st, "closing") is None and self.get(st, ("called", pid)) is None and not self.watched(I, st, pid):
                self.bad(I, st, "not-watched", "nothing watches a process that has been registered", construct="add_child_handler", where="end")
                return

    def watched(self, I, st, pid):
        "still registered with an epoll a living thread polls, waited for by a thread, or given up after polling"
        import select
        M = I.models
        fds = [e.parts[0][0] for e in (st.ctl["pidfds"].parts[0] if "pidfds" in st.ctl else ()) if e.parts[0][1] is pid]
        for oid, h in st.heap.items():
            if h.kind == "inst" and h.cls is not None and h.cls.tag == "py" and pyobj(h.cls) is select.epoll:
                if any(f in M.epoll_fds(Ref(oid), st) for f in fds) and M.threads(st):
                    return True
        return bool(self.get(st, ("polled", pid)))

    def on_still_running(self, I, st, pid, **_):
        if st.ctl.get("thread") in (None, NONE):
            self.put(st, ("polled", pid), TRUE)

    def on_ext(self, I, st, name, args, **_):
        if name == "os.pidfd_open":
            self.put(st, ("begun", I.norm(args[0], st)), TRUE)


class Again(Watch):
    "The first close() ends the watching of 101; 102 is watched by what is set up afterwards."

    def on_mark(self, I, st, name, args, **_):
        super().on_mark(I, st, name, args)
        if name == "added" and I.norm(args[0], st) is K(101):
            st.mon.pop((self.name, ("watched", K(101))), None)


ONE = PRE + '''
async def main():
    w = DefaultChildWatcher(%s)
    __threads__()
    add(w, 101, done, "A", "B")
    __threads__()
    __finish__()
'''

TWO = PRE + '''
async def main():
    w = DefaultChildWatcher(%s)
    add(w, 101, done, "A")
    add(w, 102, done, "B", "C")
    __threads__()
    __finish__()
'''

CLOSE = PRE + '''
async def main():
    w = DefaultChildWatcher(%s)
    add(w, 101, %s, "A")
    add(w, 102, done, "B")
    __mark__("closing")
    w.close()
    __mark__("closed")
    w.close()
    __mark__("closed")
    __finish__()
'''

TWICE = PRE + '''
async def main():
    w = DefaultChildWatcher()
    w.close()
    add(w, 101, done, "A")
    __threads__()
    __mark__("closing")
    w.close()
    __mark__("closed")
    __finish__()
    __mark__("closed")
'''

REUSE = PRE + '''
async def main():
    w = DefaultChildWatcher()
    add(w, 101, done, "A")
    w.close()
    add(w, 102, done, "B")
    __threads__()
    __finish__()
    __mark__("ends")
'''

RACE = PRE + '''
async def main():
    w = DefaultChildWatcher()
    __at_lock__(add, w, 101, done, "A")
    add(w, 102, done, "B")
    __mark__("closing")
    w.close()
    __mark__("closed")
    __finish__()
    __mark__("closed")
'''

FAULTS = {"os.pidfd_open": [OSError], "epoll.register": [OSError], "os.kill": [ProcessLookupError], "Thread.start": [RuntimeError], "os.pipe": [OSError]}


def w01(tier):
    deep = tier != "quick"
    jobs = []
    for nm, arg in (("epoll", ""), ("thread", "thread_strategy=True")):
        kw = dict(threads=True)
        jobs += [
            Job(f"watch one process ({nm})", ONE % arg, [Watch], expect=("mark:called", "reaped"), **kw),
            Job(f"watch two processes ({nm})", TWO % arg, [Watch], expect=("mark:called",), **kw),
            Job(f"callback fails ({nm})", (ONE % arg).replace("done, ", "broken, "), [Watch], expect=("mark:called",), **kw),
        ]
    jobs += [
        Job("close with processes left (epoll)", CLOSE % ("", "done"), [Watch], expect=("mark:closed", "mark:called"), threads=True),
        Job("close, callback fails (epoll)", CLOSE % ("", "broken"), [Watch], expect=("mark:closed", "mark:called"), threads=True),
        Job("use again after close (epoll)", TWICE, [Watch], expect=("mark:closed", "mark:called"), threads=True),
        Job("watch again after close (epoll)", REUSE, [Again], expect=("mark:ends", "mark:called"), threads=True),
        Job("two threads (epoll)", RACE, [Watch], expect=("mark:closed", "mark:called"), threads=True),
        Job("errors (epoll)", TWO % "", [Watch], expect=("mark:add_failed",), threads=True, raises=FAULTS, faults=3 if deep else 2),
        Job("errors, close (epoll)", CLOSE % ("", "done"), [Watch], expect=("mark:add_failed", "mark:closed"), threads=True, raises=FAULTS, faults=3 if deep else 2),
        Job("errors, use again (epoll)", TWICE, [Watch], expect=("mark:add_failed", "mark:closed"), threads=True, raises=FAULTS, faults=3 if deep else 2),
    ]
    return jobs


class Reap(Monitor):
    name = "W02"

    def on_waitpid(self, I, st, pid, block, thread, **_):
        if block and thread in (None, NONE) and not self.get(st, "may_block"):
            self.bad(I, st, "blocks", "waits for a process in the event loop's thread", construct="os.waitpid")
        self.put(st, "asked", pid)

    def on_still_running(self, I, st, pid, **_):
        self.put(st, "found", K("running"))

    def on_reaped(self, I, st, pid, **_):
        self.put(st, "found", K("exited"))

    def on_wait_lost(self, I, st, pid, **_):
        self.put(st, "found", K("lost"))

    def on_fault(self, I, st, name, **_):
        self.put(st, "odd", TRUE)

    def on_reap_noted(self, I, st, obj, name, value, **_):
        what = "popen" if "_proc" in show(obj) else "transport"
        if name in ("_returncode", "returncode"):
            self.put(st, ("noted", what), value)

    def want(self, st, pid):
        f = self.get(st, "found")
        if f is None:
            return None
        if f is K("running"):
            return NONE
        if f is K("lost"):
            return K(255)
        ws = Sym("waitstatus", pid)
        return ws if self.get(st, "odd") else Sym("call", K("os.waitstatus_to_exitcode"), ws)

    def on_mark(self, I, st, name, args, **_):
        a = [I.norm(x, st) for x in args]
        if name == "may_block":
            self.put(st, "may_block", TRUE)
        elif name == "collected":
            pid, got = a
            want = self.want(st, pid)
            if self.get(st, "asked") is not pid:
                self.bad(I, st, "not-asked", "the status of the process is reported without asking for it", construct="wait_pid")
            elif got is not want:
                self.bad(I, st, "status", f"the status of a process that {self.text(st)} is reported as {show(got)}, not {show(want)}", construct="wait_pid")
        elif name == "polled":
            pid, before, got = a
            asked = self.get(st, "asked")
            if before is TRUE:
                if asked is not None:
                    self.bad(I, st, "asked-again", "a process that has been reaped is waited for again (its id may belong to another process by now)", construct="poll_wait_pid")
                if got is not TRUE:
                    self.bad(I, st, "gone", f"a process known to have exited is reported as {show(got)}", construct="poll_wait_pid")
                return
            if asked is not pid:
                self.bad(I, st, "not-asked", "the state of the process is reported without asking for it", construct="poll_wait_pid")
                return
            want = self.want(st, pid)
            if (got is TRUE) != (want is not NONE) or got not in (TRUE, FALSE):
                self.bad(I, st, "gone", f"a process that {self.text(st)} is reported as {'gone' if got is TRUE else show(got)}", construct="poll_wait_pid")
            for what in ("transport", "popen"):
                n = self.get(st, ("noted", what))
                if want is NONE and n is not None:
                    self.bad(I, st, "noted", f"a status is recorded ({what}) for a process that is still running", construct="poll_wait_pid")
                elif want is not NONE and n is not want:
                    self.bad(I, st, "noted", f"the status recorded ({what}) for a process that {self.text(st)} is {show(n) if n is not None else 'missing'}, not {show(want)}", construct="poll_wait_pid")

    def text(self, st):
        f = self.get(st, "found")
        return {None: "was not asked about", K("running"): "is still running", K("exited"): "has exited", K("lost"): "cannot be found"}.get(f, "?")

    def end(self, I, st, out):
        if isinstance(out, Raise) and self.get(st, "unit"):
            self.bad(I, st, "raises", f"collecting the status ends with {exc_name(I, st, out)}", construct=exc_name(I, st, out), where="end")


class ReapUnit(Reap):
    def begin(self, I, st):
        self.put(st, "unit", TRUE)


class Watched(Reap):
    "A process somebody else waits for is left to them."

    def on_waitpid(self, I, st, pid, block, thread, **_):
        from . import life
        Reap.on_waitpid(self, I, st, pid, block, thread)
        if not any(life.killed(st, p) for p in life.tracked(st)):
            self.bad(I, st, "not-mine", "the exit status of a process the event loop waits for is collected behind its back (whoever comes second finds it gone)", construct="os.waitpid")


COLLECT = PRE + '''
async def main():
    __mark__("collected", 101, util.wait_pid(101))
'''

BLOCKING = PRE + '''
async def main():
    __mark__("may_block")
    r = util.wait_pid(101, block=True)
    __mark__("collected", 101, r)
    if r is None:
        __mark__("never")
'''

POLL = PRE + '''
async def main():
    status = __choose__("running", "exited")
    proc = __new__(asyncio.subprocess.Process, "proc", pid=101, status=status)
    before = status == "exited"
    __mark__("polled", 101, before, util.poll_wait_pid(proc))
'''


def w02(tier):
    from . import life
    U = dict(threads=True)
    odd = dict(raises={"os.waitstatus_to_exitcode": [ValueError]}, faults=1)
    jobs = [
        Job("collect", COLLECT, [ReapUnit], expect=("mark:collected", "reaped", "wait_lost", "still_running"), **U),
        Job("collect, unknown status", COLLECT, [ReapUnit], expect=("mark:collected", "reaped"), **U, **odd),
        Job("collect, waiting", BLOCKING, [ReapUnit], expect=("mark:collected", "reaped"), **U),
        Job("poll", POLL, [ReapUnit], expect=("mark:polled", "reap_noted"), **U),
        Job("poll, unknown status", POLL, [ReapUnit], expect=("mark:polled", "reap_noted"), **U, **odd),
    ]
    for nm, arg in (("epoll", ""), ("thread", "thread_strategy=True")):
        jobs += [Job(f"watching ({nm})", ONE % arg, [Reap], expect=("waitpid",), **U),
                 Job(f"watching, errors ({nm})", TWO % arg, [Reap], expect=("waitpid", "mark:added"), raises=FAULTS, faults=2, **U)]
    jobs += [Job("command on a pty (darwin)", life.src(life.PTY), [life.Track, Reap], cancels=2 if tier != "quick" else 1, platform="darwin", coarse=True, expect=("waitpid", "launched"))]
    for pl, text, nm in (("darwin", life.AWAIT, "command (darwin)"), ("darwin", life.AWITH, "block (darwin)"), ("linux", life.AWAIT, "command"), ("linux", life.PTY, "command on a pty")):
        jobs.append(Job(nm, life.src(text), [life.Track, Watched], cancels=1, platform=pl, coarse=True, expect=("waitpid", "launched")))
    return jobs


CHECKS = {
    "W02": Check("Reaping returns the true exit status, or says still running",
                 "every outcome of os.waitpid (still running, reaped with a status, no such child) is followed to what wait_pid and poll_wait_pid "
                 "return and record; every waitpid on the event loop's thread must be non-blocking",
                 w02, "the status word itself is opaque; os.waitstatus_to_exitcode is taken as the definition of the exit code"),
    "W01": Check("The child watcher reports each exit exactly once and frees its fds",
                 "typestate of each watched process (registered -> found exited -> reported once, with its own status and arguments) and of each "
                 "pidfd and pipe (opened -> closed once), over an abstract kernel: epoll readiness, waitpid results, thread switches",
                 w01, "threads.py models epoll, pidfds, waitpid and threads; thread switches are tried at thread start, epoll registration and between the driver's calls"),
}
