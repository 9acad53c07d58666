"""Life cycle of one command: launch, stop, outcome, timers, audit, signals."""

import asyncio
import signal

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, exc_is, exc_name, exc_type
from .fds import STAGE, stages

KILLS = ("KILL", signal.SIGKILL)


def is_kill(v):
    if v.tag == "k":
        return kval(v) in ("KILL", 9)
    if v.tag == "py":
        return pyobj(v) == signal.SIGKILL
    return False


def procs(st):
    return [(oid, h) for oid, h in st.heap.items()
            if h.kind == "inst" and h.cls is not None and h.cls.tag == "py" and pyobj(h.cls) is asyncio.subprocess.Process]


class Track(Monitor):
    """Shared facts about the run: launched processes, cancellations."""
    name = "track"

    def on_launched(self, I, st, proc, **_):
        self.put(st, "procs", Tup(list(self.get(st, "procs", Tup(())).parts[0]) + [proc]))
        self.put(st, ("site", proc), K(I.construct()))

    def on_cancel(self, I, st, by, **_):
        self.put(st, "cancel:" + by, TRUE)

    def on_signal(self, I, st, proc, sig, **_):
        if is_kill(sig):
            self.put(st, ("killed", proc), TRUE)

    def on_still_running(self, I, st, pid, **_):
        for p in tracked(st):
            if killed(st, p):
                self.put(st, ("unkillable", p), TRUE)


def tracked(st):
    return st.mon.get(("track", "procs"), Tup(())).parts[0]


def killed(st, p):
    return ("track", ("killed", p)) in st.mon


class L01(Monitor):
    "No child process outlives its command."
    name = "L01"

    def end(self, I, st, out):
        for p in tracked(st):
            o = st.get(p.parts[0])
            if kval(o.f["status"]) == "exited":
                continue
            if isinstance(out, Raise) and killed(st, p):
                if exc_is(I, st, out, RuntimeError):
                    continue
                if ("track", ("unkillable", p)) in st.mon and not exc_is(I, st, out, asyncio.CancelledError) \
                        and not exc_is(I, st, out, TimeoutError):
                    continue
            how = "raises " + exc_name(I, st, out) if isinstance(out, Raise) else "returns"
            self.bad(I, st, "outlives", f"the command {how} while the child process launched by "
                     f"{kval(st.mon[('track', ('site', p))])} has not been seen to exit",
                     construct=kval(st.mon[("track", ("site", p))]), where="end of command")

    def on_mark(self, I, st, name, args, **_):
        if name == "left":       # control is back in the caller, even if the scenario goes on
            self.end(I, st, NONE)


class L02(Monitor):
    "Escalation: cancel_signal, bounded wait, SIGKILL; no unbounded wait."
    name = "L02"

    def __init__(self, sig=None, timeout=None):
        self.sig = sig              # expected first signal: function(I, st) -> Val
        self.timeout = timeout

    def expected(self, I, st):
        s = st.mon.get(("L02", "sig"))
        return s

    def on_mark(self, I, st, name, args, **_):
        if name == "cancel_signal":
            self.put(st, "sig", args[0])
        elif name == "cancel_timeout":
            self.put(st, "timeout", args[0])

    def stopping(self, st):
        return self.get(st, "stop", NONE)

    def on_signal(self, I, st, proc, how, sig, **_):
        n = self.get(st, ("n", proc), 0)
        if n == 0:
            want = self.get(st, "sig")
            if want is not None:
                want = I.norm(want, st)
                fact_none = I.is_none(want, st)
                if want is NONE or fact_none is TRUE:
                    if not is_kill(sig):
                        self.bad(I, st, "first-signal", f"cancel_signal is None but {show(sig)} is sent")
                elif is_kill(sig):
                    self.bad(I, st, "first-signal", "SIGKILL is sent although cancel_signal is configured")
                elif I.eq(I.norm(sig, st), want, st) is not TRUE:
                    self.bad(I, st, "first-signal", f"first signal is {show(sig)}, not the configured cancel_signal")
        elif not is_kill(sig):
            self.bad(I, st, "escalation", f"signal {show(sig)} sent after the cancel signal instead of SIGKILL")
        self.put(st, ("n", proc), min(n + 1, 2))
        self.put(st, ("expired", proc), 0)
        self.put(st, "stop", proc)

    def running(self, st):
        p = self.stopping(st)
        if p is NONE or not st.has(p.parts[0]):
            return None
        return p if kval(st.get(p.parts[0]).f["status"]) != "exited" else None

    def on_wait_begin(self, I, st, items, timeout, cur, **_):
        if not self.responsible(st, cur):
            return
        p = self.running(st)
        if p is None:
            return
        if timeout is None:
            self.bad(I, st, "unbounded-wait", "waits without a time limit while the child is being stopped")
            return
        pend = [t for t in items if t.tag == "ref" and kval(st.get(t.parts[0]).f["state"]) == "pending"]
        if all(st.get(t.parts[0]).f.get("cancel_req") is TRUE for t in pend):
            return      # bounded clean-up of already cancelled helper tasks
        if self.get(st, ("n", p), 0) == 1 and not killed(st, p):
            if self.get(st, ("expired", p), 0) >= 1:
                self.bad(I, st, "escalation", "waits again after cancel_timeout expired without sending SIGKILL")
            want = self.get(st, "timeout")
            if want is not None and I.eq(I.norm(timeout, st), want, st) is not TRUE:
                self.bad(I, st, "wait-limit", f"waits {show(timeout)} after the cancel signal instead of cancel_timeout")

    def on_wait_done(self, I, st, done, pending, timeout, **_):
        p = self.running(st)
        if p is None or not pending:
            return
        if all(st.get(t.parts[0]).f.get("cancel_req") is TRUE for t in pending):
            return
        if I.norm(timeout, st) is not NONE:
            self.put(st, ("expired", p), 1)

    def responsible(self, st, cur):
        "Is this the stopping task itself, or one it is joined to without a limit?"
        return cur is NONE or (self.name, ("joined", cur)) in st.mon

    def on_await(self, I, st, v, cur, node):
        if not self.responsible(st, cur):
            return
        p = self.running(st)
        if p is None:
            return
        if v.tag == "aw":
            kind = v.parts[0]
            if kind in ("wait", "sleep", "wait_for"):
                return
            if kind == "shield":
                v = v.parts[1]
        if v.tag == "ref":
            o = st.get(v.parts[0])
            if o.kind == "coro":
                return
            kind = o.kind
            if o.kind == "task":
                if kval(o.f["state"]) != "pending":
                    return
                c = o.f["coro"]
                if c.tag == "ref" and st.get(c.parts[0]).kind == "coro":
                    # joined: whatever that task awaits is held to the same rule
                    self.put(st, ("joined", v), TRUE)
                    return
        elif v.tag != "aw":
            kind = show(v)
        self.bad(I, st, "unbounded-wait", f"awaits {kind} without a time limit while the child is being stopped")


class L03(Monitor):
    "Outcome matches exit code, timeout and cancellation."
    name = "L03"

    def __init__(self, allowed=(0,), mode="text", fields=None):
        self.allowed = allowed
        self.mode = mode        # text | result | run

    def status(self, I, st, code):
        """Is the exit code in the allowed set? TRUE/FALSE/None"""
        if self.allowed is None:
            return TRUE
        res = FALSE
        for a in self.allowed:
            e = I.eq(code, K(a), st)
            if e is TRUE:
                return TRUE
            if e is not FALSE:
                res = None
        return res

    def code(self, st, p):
        return Sym("exitcode", p, ty=Py(int), exact=True)

    def end(self, I, st, out):
        ps = tracked(st)
        caller = ("track", "cancel:caller") in st.mon
        timer = ("track", "cancel:timer") in st.mon
        if isinstance(out, Raise):
            if exc_is(I, st, out, asyncio.CancelledError):
                if not caller:
                    self.bad(I, st, "spurious-cancel", "CancelledError although the caller did not cancel"
                             + (" (the timeout expired: TimeoutError expected)" if timer else ""), construct="outcome", where="end of command")
                return
            if exc_is(I, st, out, TimeoutError):
                if not timer:
                    self.bad(I, st, "spurious-timeout", "TimeoutError although the timeout did not expire",
                             construct="outcome", where="end of command")
                return
            if exc_is(I, st, out, RuntimeError):
                if not any(killed(st, p) for p in ps) and not caller and not timer:
                    self.bad(I, st, "spurious-error", "RuntimeError although nothing was being stopped", construct="outcome", where="end of command")
                return
            if exc_name(I, st, out) == "ResultError":
                if caller or timer:
                    self.bad(I, st, "cancel-lost", "ResultError although the command was cancelled or timed out",
                             construct="outcome", where="end of command")
                    return
                if not ps:
                    self.bad(I, st, "spurious-error", "ResultError without a process", construct="outcome", where="end of command")
                    return
                if self.status(I, st, self.code(st, ps[-1])) is not FALSE:
                    self.bad(I, st, "allowed-code", "ResultError although the exit code may be an allowed one",
                             construct="outcome", where="end of command")
                args = st.get(out.exc.parts[0]).f.get("args")
                r = args.parts[0][0] if args is not None and args.parts[0] else NONE
                self.result(I, st, r, ps[-1])
                return
            if ("fault", "any") in st.mon or exc_is(I, st, out, FileNotFoundError) and not ps:
                return
            self.bad(I, st, "wrong-exception", f"the command ends with {exc_name(I, st, out)}", construct="outcome",
                     where="end of command")
            return
        # a value was returned
        if caller:
            self.bad(I, st, "cancel-lost", "a value is returned although the caller cancelled", construct="outcome", where="end of command")
        elif timer:
            self.bad(I, st, "timeout-lost", "a value is returned although the timeout expired", construct="outcome", where="end of command")
        elif not ps:
            self.bad(I, st, "no-process", "a value is returned although no process was launched", construct="outcome", where="end of command")
        elif self.status(I, st, self.code(st, ps[-1])) is not TRUE:
            self.bad(I, st, "disallowed-code", "a value is returned although the exit code may be a disallowed one",
                     construct="outcome", where="end of command")
        elif self.mode == "result":
            self.result(I, st, out, ps[-1])

    def on_fault(self, I, st, **_):
        st.mon[("fault", "any")] = TRUE

    def result(self, I, st, r, p):
        if r.tag != "ref" or st.get(r.parts[0]).kind != "inst" or "exit_code" not in st.get(r.parts[0]).f:
            self.bad(I, st, "result", f"the outcome carries {show(r)} instead of a Result", construct="outcome", where="end of command")
            return
        c = I.norm(st.get(r.parts[0]).f["exit_code"], st)
        code = self.code(st, p)
        if I.eq(c, code, st) is TRUE:
            return
        # lost status (255) is replaced by the last signal sent
        if I.eq(code, K(255), st) is TRUE and self.get(st, ("sig", p)):
            return
        self.bad(I, st, "result-code", f"the Result's exit code is {show(c)}, not the process's", construct="outcome", where="end of command")

    def on_signal(self, I, st, proc, **_):
        self.put(st, ("sig", proc), TRUE)


class L04(Monitor):
    "Timeout timer: armed once with the configured value after launch, always disarmed."
    name = "L04"

    def on_mark(self, I, st, name, args, **_):
        if name == "timeout":
            self.put(st, "want", args[0])
        elif name == "left":
            self.left(I, st)

    def on_signal(self, I, st, **_):
        if ("track", "cancel:caller") in st.mon and I.models.timers(st):
            self.bad(I, st, "armed-while-stopping", "the timer is still armed when a cancelled command is being stopped: it can turn the cancellation into a timeout")

    def on_timer(self, I, st, timer, delay, node):
        want = self.get(st, "want")
        if want is not None:
            want = I.norm(want, st)
            if want is NONE or I.is_none(want, st) is TRUE:
                self.bad(I, st, "no-timeout", "a timer is armed although no timeout is configured")
            elif I.eq(I.norm(delay, st), want, st) is not TRUE:
                self.bad(I, st, "delay", f"timer armed with {show(delay)} instead of the configured timeout")
        if not tracked(st):
            self.bad(I, st, "before-launch", "timer armed before the process was launched")
        if self.get(st, "armed", 0):
            self.bad(I, st, "twice", "a second timer is armed")
        self.put(st, "armed", 1)

    def left(self, I, st):
        for t in I.models.timers(st):
            self.bad(I, st, "not-disarmed", "the timer is still armed when the command has ended",
                     construct="timer armed at " + self.armsite(st), where="end of command")

    def armsite(self, st):
        return "call_later"

    def end(self, I, st, out):
        self.left(I, st)
        want = self.get(st, "want")
        if want is not None and tracked(st) and not self.get(st, "armed", 0):
            if not isinstance(out, Raise) and I.is_none(I.norm(want, st), st) is FALSE:
                self.bad(I, st, "not-armed", "a timeout is configured but no timer is armed", construct="outcome", where="end of command")


class L05(Monitor):
    "Audit: exactly one start before, exactly one stop after everything."
    name = "L05"

    def on_mark(self, I, st, name, args, **_):
        if name == "left":
            self.left(I, st, None)
        if name != "audit":
            return
        ph = kval(args[0]) if args[0].tag == "k" else "?"
        if self.get(st, "stopped"):
            self.bad(I, st, "after-stop", f"audit event {ph!r} after 'stop'")
        if ph == "start":
            if self.get(st, "started"):
                self.bad(I, st, "twice", "second 'start' event")
            if self.get(st, "exec"):
                self.bad(I, st, "late-start", "'start' event after the launch was attempted")
            self.put(st, "started", TRUE)
        elif ph == "stop":
            if not self.get(st, "started"):
                self.bad(I, st, "stop-first", "'stop' event without 'start'")
            self.put(st, "stopped", TRUE)
            if len(args) > 1:
                self.put(st, "failure", args[1])
        elif ph == "signal":
            if not self.get(st, "started"):
                self.bad(I, st, "signal-first", "'signal' event before 'start'")
        else:
            self.bad(I, st, "phase", f"unknown audit phase {show(args[0])}")

    def on_exec(self, I, st, **_):
        if not self.get(st, "started"):
            self.bad(I, st, "late-start", "the launch is attempted before the 'start' event")
        if self.get(st, "stopped"):
            self.bad(I, st, "early-stop", "the launch is attempted after the 'stop' event")
        self.put(st, "exec", TRUE)

    def on_signal(self, I, st, **_):
        if self.get(st, "stopped"):
            self.bad(I, st, "early-stop", "a signal is sent after the 'stop' event")

    def left(self, I, st, out):
        if self.get(st, "started") and not self.get(st, "stopped"):
            self.bad(I, st, "no-stop", "the command ends without a 'stop' event", construct="outcome", where="end of command")
        if self.get(st, "exec") and not self.get(st, "started"):
            self.bad(I, st, "no-start", "the command ran without a 'start' event", construct="outcome", where="end of command")

    def end(self, I, st, out):
        self.left(I, st, out)
        if isinstance(out, Raise) and not tracked(st) and self.get(st, "started"):
            f = self.get(st, "failure")
            want = exc_name(I, st, out)
            if f is not None and f.tag == "k" and kval(f) != want:
                self.bad(I, st, "failure-name", f"'stop' names failure {kval(f)!r} but {want} is raised", construct="outcome", where="end of command")


class L06(Monitor):
    "Signals only to a child not seen to have exited; each announced exactly once."
    name = "L06"

    def on_mark(self, I, st, name, args, **_):
        if name == "audit" and args[0] is K("signal"):
            if self.get(st, "ann") is not None:
                self.bad(I, st, "announced-twice", "a 'signal' audit event is not followed by its signal")
            self.put(st, "ann", args[2] if len(args) > 2 else NONE)

    def on_signal(self, I, st, proc, how, sig, status, node):
        if status == "exited":
            self.bad(I, st, "after-exit", f"{how} on a process whose exit was already observed")
        a = self.get(st, "ann")
        if a is None:
            self.bad(I, st, "unannounced", f"{how} without a preceding 'signal' audit event")
        elif is_kill(sig):
            if a.tag == "k" and kval(a) not in ("SIGKILL", "Signals.SIGKILL", "9"):
                self.bad(I, st, "wrong-name", f"audit names {show(a)} but SIGKILL is sent")
        else:
            want = self.get(st, "name:" + show(I.norm(sig, st)))
            s = I.norm(sig, st)
            if a.tag == "k" and s.tag == "py" and isinstance(pyobj(s), signal.Signals) and kval(a) != pyobj(s).name:
                self.bad(I, st, "wrong-name", f"audit names {show(a)} but {show(sig)} is sent")
        if a is not None:
            st.mon.pop((self.name, "ann"), None)

    def on_ext(self, I, st, name, args, node, **_):
        if name in ("os.kill", "os.killpg", "signal.pidfd_send_signal"):
            self.bad(I, st, "raw-signal", f"{name} bypasses the process object", construct=I.construct())

    def on_launched(self, I, st, **_):
        st.mon.pop((self.name, "ann"), None)

    def end(self, I, st, out):
        if self.get(st, "ann") is not None:
            self.bad(I, st, "announced-twice", "a 'signal' audit event is not followed by its signal", construct="outcome", where="end of command")


SHELLS = {"asyncio.create_subprocess_shell", "os.system", "os.popen", "subprocess.run", "subprocess.Popen", "subprocess.call",
          "subprocess.check_output", "subprocess.check_call", "os.execv", "os.execvp", "os.spawnv", "os.posix_spawn",
          "pty.spawn", "os.fork", "pty.fork", "loop.subprocess_shell", "loop.subprocess_exec"}


class L07(Monitor):
    "Direct exec of the unchanged argument vector, audited, shielded."
    name = "L07"

    def on_mark(self, I, st, name, args, **_):
        if name == "argv":
            self.put(st, "argv", Tup(args))

    def on_ext(self, I, st, name, args, kw, node, **_):
        if name in SHELLS or name.endswith("subprocess_shell"):
            self.bad(I, st, "not-direct", f"a program is started through {name}")
        if name == "sys.audit" and args and args[0] is K("shellous.exec"):
            self.put(st, "audit", args[1] if len(args) > 1 else NONE)

    def on_suspend(self, I, st, **_):
        pass

    def on_exec(self, I, st, args, kw, node):
        a = self.get(st, "audit")
        if a is None:
            self.bad(I, st, "no-audit", "the program is launched without the 'shellous.exec' audit event")
        elif not args or a is not args[0]:
            self.bad(I, st, "audit-name", f"the audit event names {show(a)} but {show(args[0]) if args else '?'} is launched")
        st.mon.pop((self.name, "audit"), None)
        if any(k in kw for k in ("shell", "executable")):
            self.bad(I, st, "not-direct", "the launch overrides the program (shell=/executable=)")
        want = self.get(st, "argv")
        if want is not None:
            w = want.parts[0]
            if len(args) != len(w):
                self.bad(I, st, "argv", f"launched with {len(args)} arguments instead of {len(w)}")
            else:
                for i, (x, y) in enumerate(zip(args, w)):
                    x = I.norm(x, st)
                    if i == 0 and x.tag == "sym" and x.parts[0] == "which" and I.eq(x.parts[1], y, st) is TRUE:
                        continue
                    if I.eq(x, I.norm(y, st), st) is not TRUE:
                        self.bad(I, st, "argv", f"argument {i} is {show(x)} instead of {show(y)}")

    def on_exec_interrupted(self, I, st, node):
        n = I.cfg.cancels
        if n == 1:
            self.bad(I, st, "interrupted", "a single cancellation interrupts the launch call itself")

    def end(self, I, st, out):
        if not isinstance(out, Raise) and not tracked(st):
            self.bad(I, st, "not-launched", "the command returns a value without launching anything", construct="outcome", where="end of command")


# ---------------------------------------------------------------- scenarios

PRE = '''
from shellous import sh
import asyncio, signal, io
from pathlib import Path
def audit(phase, info):
    __mark__("audit", phase, info["failure"], info["signal"])
def options(timeout=False, **kw):
    ct = __sym__("cancel_timeout", float)
    cs = __sym__("cancel_signal", signal.Signals, opt=True, nonempty=True)
    to = __sym__("timeout", float, opt=True) if timeout else None
    __mark__("cancel_timeout", ct)
    __mark__("cancel_signal", cs)
    __mark__("timeout", to)
    return dict(timeout=to, cancel_timeout=ct, cancel_signal=cs, audit_callback=audit, **kw)
'''

AWAIT = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").set(**options(OPTS))
    __mark__("argv", "prog", "a", "b")
    return await cmd
'''

AWAIT_RESULT = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").result.set(**options(OPTS))
    __mark__("argv", "prog", "a", "b")
    return await cmd
'''

AWAIT_CODES = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").set(exit_codes={0, 3}, **options(OPTS))
    return await cmd
'''

AWITH = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").stdin(sh.CAPTURE).stdout(sh.CAPTURE).set(**options(OPTS))
    __mark__("argv", "prog", "a", "b")
    async with cmd as run:
        await __body__("body")
    __mark__("left")
'''

ITER = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").set(**options(OPTS))
    __mark__("argv", "prog", "a", "b")
    async for line in cmd:
        await __body__("body")
    __mark__("left")
'''

PROMPT = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").set(**options(OPTS))
    __mark__("argv", "prog", "a", "b")
    async with cmd.prompt() as cli:
        await __body__("body")
    __mark__("left")
'''

PTY = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").set(pty=True, **options(OPTS))
    __mark__("argv", "prog", "a", "b")
    return await cmd
'''

SUBST = PRE + STAGE + '''
async def main():
    cmd = sh("prog", sh("s1", "x")).set(**options(OPTS))
    return await cmd.stdin(sh.INHERIT).stderr(sh.INHERIT)
'''

SIGNALS = PRE + '''
async def main():
    cmd = sh("prog", "a", "b").stdout(sh.CAPTURE).set(**options(OPTS))
    async with cmd as run:
        run.send_signal(signal.SIGINT)
        await __body__("body")
        run.send_signal(signal.SIGUSR1)
        await __body__("body")
        run.cancel()
        run.cancel()
    run.send_signal(signal.SIGINT)
    run.cancel()
'''


class BodyErr:
    pass


def src(s, timeout=False):
    return s.replace("OPTS", "True" if timeout else "False")


IO_FAULT = {"StreamReader.read": [OSError], "StreamWriter.drain": [OSError], "body": [ValueError],
            "asyncio.create_subprocess_exec": [PermissionError], "StreamReader.readline": [OSError]}


def jobs(mons, tier, prefix=""):
    "The standard family of single-command scenarios."
    M = [Track] + mons
    C = dict(coarse=True)
    big = tier == "thorough"
    exp = ("launched",)
    js = [
        Job(prefix + "await", src(AWAIT), M, cancels=2, expect=exp, **C),
        Job(prefix + "await-timeout", src(AWAIT, True), M, cancels=1, expect=exp, **C),
        Job(prefix + "await-fault", src(AWAIT), M, cancels=1, faults=1, raises=IO_FAULT, expect=exp, **C),
    ]
    BODY = {"body": [ValueError]}
    js += [
        Job(prefix + "with", src(AWITH), M, cancels=2, expect=exp, **C),
        Job(prefix + "with-error", src(AWITH), M, cancels=1, faults=1, raises=BODY, expect=exp, **C),
        Job(prefix + "with-timeout", src(AWITH, True), M, cancels=1, expect=exp, **C),
        Job(prefix + "iter", src(ITER), M, cancels=1, faults=1, raises=BODY, expect=exp, **C),
        Job(prefix + "pty", src(PTY), M, cancels=1, faults=1, raises=IO_FAULT, expect=exp, **C),
        Job(prefix + "prompt", src(PROMPT), M, cancels=1, faults=1, raises=BODY, expect=exp, **C),
    ]
    # the caller's block fails (or is cancelled), then background I/O fails while the child is being stopped
    js += [Job(prefix + "with-io-error", src(AWITH), M, faults=2, raises={"body": [ValueError], "StreamReader.read": [OSError]}, expect=exp, **C),
           Job(prefix + "with-io-cancel", src(AWITH), M, cancels=1, faults=1, raises={"StreamReader.read": [OSError]}, expect=exp, **C)]
    if big:
        js += [
            Job(prefix + "pty-darwin", src(PTY), M, cancels=2, platform="darwin", expect=exp, **C),
            Job(prefix + "with-fault", src(AWITH, True), M, cancels=1, faults=1, raises=dict(IO_FAULT), expect=exp, **C),
            Job(prefix + "with-timeout-2", src(AWITH, True), M, cancels=2, expect=exp, **C),
            Job(prefix + "await-timeout-2", src(AWAIT, True), M, cancels=2, expect=exp, **C),
            Job(prefix + "iter-2", src(ITER), M, cancels=2, expect=exp, **C),
        ]
    return js


def l03_jobs(tier):
    M = [Track, L03]
    R = [Track, L03(allowed=None, mode="result")]
    X = [Track, L03(allowed=(0, 3))]
    C = dict(coarse=True, expect=("launched",))
    js = [
        Job("await", src(AWAIT), M, cancels=2, **C),
        Job("await-timeout", src(AWAIT, True), M, cancels=1, **C),
        Job("await-fault", src(AWAIT), M, cancels=1, faults=1, raises=IO_FAULT, **C),
        Job("await-result", src(AWAIT_RESULT), R, cancels=1, **C),
        Job("await-result-timeout", src(AWAIT_RESULT, True), R, cancels=1, **C),
        Job("await-codes", src(AWAIT_CODES), X, cancels=1, **C),
        Job("pty", src(PTY), M, cancels=1, faults=1, raises=IO_FAULT, **C),
    ]
    if tier == "thorough":
        js += [
            Job("await-timeout-2", src(AWAIT, True), M, cancels=2, **C),
            Job("await-result-timeout-2", src(AWAIT_RESULT, True), R, cancels=2, **C),
            Job("await-codes-timeout", src(AWAIT_CODES, True), X, cancels=1, **C),
            Job("pty-darwin", src(PTY), M, cancels=1, platform="darwin", **C),
        ]
    return js


def l06_jobs(tier):
    M = [Track, L06]
    C = dict(coarse=True, expect=("signal",))
    js = [Job("signals", src(SIGNALS), M, cancels=1, **C),
          Job("signals-error", src(SIGNALS), M, faults=1, raises={"body": [ValueError]}, **C),
          Job("signals-timeout", src(SIGNALS, True), M, **C)]
    return js + [j for j in jobs([L06], tier) if tier == "thorough" or j.name in ("await", "with-error", "pty", "iter")]


def l07_jobs(tier):
    M = [Track, L07]
    C = dict(coarse=True, expect=("launched",))
    js = [Job("launch", src(AWAIT), M, cancels=1, faults=1, raises={"asyncio.create_subprocess_exec": [PermissionError]}, **C),
          Job("launch-with", src(AWITH), M, cancels=1, **C),
          Job("launch-iter", src(ITER), M, **C),
          Job("launch-prompt", src(PROMPT), M, **C),
          Job("launch-pty", src(PTY), M, cancels=1, **C),
          Job("launch-subst", src(SUBST), M, cancels=1, summaries=stages(), **C)]
    if tier == "thorough":
        js += [Job("launch-2", src(AWAIT), M, cancels=2, **C)]
    return js


def fam(*mons):
    return lambda tier: jobs(list(mons), tier)


CANCELS = ("Up to two interruptions (caller cancellations, timeout expiry, I/O or caller errors) are injected per run, one at every suspension point.",
           "A task that has been cancelled and awaits only I/O ends before the clean-up time limit of 15 s.")

CHECKS = {
    "L01": Check("No child process outlives its command", "typestate of every launched process: exited and waited for when control returns, "
                 "or an error is raised after SIGKILL failed", fam(L01),
                 "Interprocedural typestate analysis of the launch/run/stop/close code under every cancellation, timeout and fault point.", CANCELS),
    "L02": Check("Cancelling escalates", "order automaton over signals and waits of the stopping task", fam(L02),
                 "Every path of the stop sequence: first signal, time limit of every wait, SIGKILL after the limit, no unlimited wait.", CANCELS),
    "L03": Check("Outcome matches exit code, timeout and cancellation", "outcome of each abstract path compared with what happened on it", l03_jobs,
                 "Each abstract path of an awaited command ends in a value or exception, which is compared with the exit code facts, the timer and the cancellations of that path.", CANCELS),
    "L04": Check("A timeout timer never fires after its command", "typestate of timer handles", fam(L04),
                 "Timers armed through loop.call_later are tracked to the end of the command on every path.", CANCELS),
    "L05": Check("Audit callback: one start, one stop", "order automaton over audit callback calls", fam(L05),
                 "Order and number of audit callback events on every path, failing launches included.", CANCELS),
    "L06": Check("Signals go only to a live child, each announced once", "typestate: send_signal/kill only on a process not seen to exit, "
                 "directly preceded by one 'signal' audit event naming it", l06_jobs,
                 "Every signal sent on every path of the stop sequence and of Runner.send_signal/cancel.", CANCELS),
    "L07": Check("Programs run by direct exec, shielded", "argument vector of the exec call, preceding sys.audit call, cancellation of the exec call; "
                 "no other process-creating call is reachable", l07_jobs,
                 "Every launch on every path: what is executed with which argument vector, audited, and shielded from one cancellation.", CANCELS),
}
