"""The event loop is never blocked."""

import ast

from ..core import *
from ..registry import Check
from ..run import Job, Monitor
from . import fds, pipes, watch
from .cut import ITER_PTY
from .life import AWAIT, AWITH, ITER, IO_FAULT, PROMPT, PTY, src, SIGNALS
from .prompt import STUBS, session

# Calls that wait for somebody else: a process, a thread, a peer, the clock.
WAITS = {"time.sleep", "os.wait", "os.waitid", "os.wait3", "os.wait4", "os.system", "os.popen", "os.spawnl", "os.spawnv", "os.spawnlp", "os.spawnvp",
         "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.getoutput", "subprocess.getstatusoutput",
         "Popen.wait", "Popen.communicate", "select.select", "select.poll", "Thread.join", "Event.wait", "Condition.wait", "Condition.wait_for",
         "Barrier.wait", "Semaphore.acquire", "BoundedSemaphore.acquire", "Queue.get", "Queue.put", "Queue.join", "SimpleQueue.get", "input",
         "signal.pause", "signal.sigwait", "signal.sigwaitinfo", "signal.sigtimedwait", "asyncio.run", "threading.Thread.join", "concurrent.futures.wait",
         "Runner.run", "BaseEventLoop.run_until_complete", "os.read", "pty.spawn", "socket.recv", "fcntl.flock", "fcntl.lockf", "os.lockf"}
POLLS = {"epoll.poll", "select.epoll.poll", "poll.poll", "kqueue.control"}
TIMED = {"select.select": 3, "Thread.join": 0, "Event.wait": 0, "epoll.poll": 0, "Popen.wait": 0}


def zero(v):
    return v is not None and v.tag == "k" and kval(v) in (0, 0.0, False)


class Block(Monitor):
    "The thread of the event loop does not wait."
    name = "L09"

    def on_ext(self, I, st, name, args, kw, recv, **_):
        if st.ctl.get("thread") not in (None, NONE):
            return
        short = name.rsplit(".", 2)
        short = ".".join(short[-2:])
        if name in WAITS or short in WAITS or short in POLLS:
            i = TIMED.get(short, TIMED.get(name))
            t = kw.get("timeout") if kw else None
            if t is None and i is not None and len(args) > i:
                t = args[i]
            if zero(t) or zero((kw or {}).get("blocking")) or zero((kw or {}).get("block")):
                return
            self.bad(I, st, "blocking-call", f"{name} makes the thread of the event loop wait", construct=name)
        elif name == "callback" and recv is not None:
            s = show(recv)
            if s.endswith(("'_proc'>:'wait'>", "'_proc'>:'communicate'>")):
                self.bad(I, st, "blocking-call", "waiting for the process with Popen makes the thread of the event loop wait", construct="Popen")

    def on_waitpid(self, I, st, pid, block, thread, **_):
        if block and thread in (None, NONE):
            self.bad(I, st, "blocking-waitpid", "os.waitpid without WNOHANG: the thread of the event loop waits for the process to exit", construct="os.waitpid")

    def on_spin(self, I, st, node, **_):
        if st.ctl.get("thread") not in (None, NONE):
            return
        if carried(node):
            return
        self.bad(I, st, "busy-wait", f"the loop at line {node.lineno} goes round without ever giving way to the event loop", construct="while")


def carried(node):
    "Does a round of the loop build on what the round before computed?"
    stored, loaded = set(), set()
    for n in ast.walk(node):
        if isinstance(n, ast.AugAssign):
            return True
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            got = {m.id for t in ts for m in ast.walk(t) if isinstance(m, ast.Name)} | {m.attr for t in ts for m in ast.walk(t) if isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Store)}
            used = ({m.id for m in ast.walk(n.value) if isinstance(m, ast.Name)} | {m.attr for m in ast.walk(n.value) if isinstance(m, ast.Attribute)}) if n.value is not None else set()
            stored |= got
            loaded |= used
    return bool(stored & loaded)


def jobs(tier):
    C = dict(coarse=True, expect=("launched",))
    M = [Block]
    B = {"body": [ValueError]}
    P = dict(data="chunks", max_reads=2, merge_text=False, background=True, summaries=STUBS, prompt_cancel=True)
    ops = session(("expect", "read_all", "pending", "send", "command_eof", "default"), 1, timeout='__sym__("timeout", float)')
    deep = tier == "thorough"
    js = [
        Job("await", src(AWAIT), M, cancels=2 if deep else 1, faults=1, raises=IO_FAULT, **C),
        Job("await-timeout", src(AWAIT, True), M, cancels=1, **C),
        Job("with", src(AWITH), M, cancels=1, faults=1, raises=B, **C),
        Job("iter", src(ITER), M, cancels=1, faults=1, raises=B, **C),
        Job("iter-pty", src(ITER_PTY), M, cancels=1, **C),
        Job("prompt", src(PROMPT), M, cancels=1, faults=1, raises=B, **C),
        Job("signals", src(SIGNALS), M, cancels=1, **C),
        Job("pty", src(PTY), M, cancels=1, faults=1, raises=IO_FAULT, **C),
        Job("pty-darwin", src(PTY), M, cancels=1, platform="darwin", **C),
        Job("session", ops, M, cancels=1, expect=("mark:done",), **P),
        Job("files", fds.PATHS, M, faults=1, raises=fds.OPENF, coarse=True, expect=("launched", "closed")),
        Job("subst", fds.SUBST_R, M, cancels=1, coarse=True, expect=("launched",), summaries=fds.stages()),
        Job("pipe", pipes.AWAIT(2), M, cancels=1, faults=1, raises=pipes.FAULTS, **pipes.S),
        Job("pipe-with", pipes.AWITH(2), M, cancels=1, **pipes.S),
        Job("pipe-iter", pipes.ITER(2), M, cancels=1, **pipes.S),
        Job("pipe-prompt", pipes.PROMPT(2), M, cancels=1, **pipes.S),
    ]
    for nm, arg in (("epoll", ""), ("thread", "thread_strategy=True")):
        js += [Job(f"watch ({nm})", watch.ONE % arg, M, expect=("mark:called", "reaped"), threads=True),
               Job(f"watch, errors ({nm})", watch.TWO % arg, M, expect=("mark:called",), threads=True, raises=watch.FAULTS, faults=2 if deep else 1)]
    return js


CHECKS = {"L09": Check("The event loop is never blocked", "effect analysis: no call that waits is reached on the event loop's thread, and no loop turns without progress there", jobs,
                       "Every call to the operating system or to the threading, subprocess, select and time libraries on every path of a command, block, iteration, prompt session, pipeline and of the child watcher, in the thread it is made in.",
                       ("Opening files, writing to terminals and taking the library's own locks are not counted as waiting.",
                        "Calls of an unknown library are not known to wait."))}
