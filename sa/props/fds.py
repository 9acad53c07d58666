"""Descriptors: opened by shellous, or handed over by the caller."""

import asyncio
import io

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, exc_is, exc_name


class Fds(Monitor):
    """Typestate of every descriptor: open -> closed, exactly once.

    Integer descriptors must be closed exactly once; files, transports and
    writers have an idempotent close() which closes the descriptor they own."""
    name = "F01"
    kinds = None        # restrict leaks to these kinds of descriptor

    def __init__(self, name="F01", kinds=None, leaks=True, at_left=True):
        self.name = name
        self.kinds = kinds
        self.leaks = leaks
        self.at_left = at_left

    # value: Tup([fd, state, site, what])
    def on_opened(self, I, st, fd, what, node, peer=None):
        self.put(st, ("fd", fd), Tup([fd, K("open"), K(I.construct()), K(what), K(I.where())]))

    def on_fdopen(self, I, st, file, fd, owns, node):
        if owns:
            self.put(st, ("own", file), Tup([file, I.norm(fd, st)]))

    def on_transport(self, I, st, transport, pipe, node, **_):
        self.put(st, ("own", transport), Tup([transport, pipe]))
        self.put(st, ("tr", transport), Tup([transport, K(I.construct()), K(I.where())]))

    def set_closed(self, st, fd):
        q = list(self.get(st, ("fd", fd)).parts[0])
        q[1] = K("closed")
        self.put(st, ("fd", fd), Tup(q))

    def on_closed(self, I, st, fd, how, node):
        st.mon.pop((self.name, ("tr", fd)), None)
        own = self.get(st, ("own", fd))
        if own is not None:
            if self.get(st, ("done", fd)) is not None:
                return
            self.put(st, ("done", fd), Tup([fd]))
            self.on_closed(I, st, own.parts[0][1], how, node)
            return
        q = self.get(st, ("fd", fd))
        if q is None:
            self.foreign(I, st, fd, how)
            return
        if kval(q.parts[0][1]) == "closed":
            if how == "os.close" or fd.tag != "ref":
                self.bad(I, st, "double-close", f"{self.desc(q)} is closed a second time ({how})")
            return
        self.set_closed(st, fd)

    def foreign(self, I, st, fd, how):
        pass

    def desc(self, q):
        names = {"pipe_r": "read end of the pipe", "pipe_w": "write end of the pipe", "pty_parent": "pty parent descriptor",
                 "pty_child": "pty child descriptor", "open": "file", "pidfd": "pidfd", "epoll": "epoll object"}
        return f"the {names.get(kval(q.parts[0][3]), kval(q.parts[0][3]))} opened in {kval(q.parts[0][2])}"

    def check(self, I, st, out):
        if not self.leaks:
            return
        for (n, k), q in list(st.mon.items()):
            if n == self.name and isinstance(k, tuple) and k[0] == "tr" and self.kinds is None:
                self.bad(I, st, "transport", f"the transport connected in {kval(q.parts[0][1])} is never closed",
                         construct=kval(q.parts[0][1]), where=kval(q.parts[0][2]))
            if n != self.name or not isinstance(k, tuple) or k[0] != "fd":
                continue
            if kval(q.parts[0][1]) == "open" and (self.kinds is None or kval(q.parts[0][3]) in self.kinds):
                how = f"the command raises {exc_name(I, st, out)}" if isinstance(out, Raise) else "the command ends"
                self.bad(I, st, "leak", f"{self.desc(q)} is still open when {how}",
                         construct=kval(q.parts[0][2]), where=kval(q.parts[0][4]))

    def end(self, I, st, out):
        self.check(I, st, out)

    def on_mark(self, I, st, name, args, **_):
        if name == "left" and self.at_left:
            self.check(I, st, NONE)


class Caller(Monitor):
    "Descriptors of the caller: closed exactly once iff a close flag was given."
    name = "F02"

    def on_mark(self, I, st, name, args, **_):
        if name == "mine":          # __mark__("mine", fd, close, label)
            self.put(st, ("c", args[0]), Tup([args[0], B(args[1] is TRUE), args[2], K(0)]))
        elif name == "left":
            self.end(I, st, NONE)

    def on_closed(self, I, st, fd, how, node):
        q = self.get(st, ("c", fd))
        if q is None:
            return
        v, flag, label, n = q.parts[0]
        if flag is FALSE:
            self.bad(I, st, "not-asked", f"the caller's {kval(label)} is closed ({how}) although close was not requested")
        elif kval(n) >= 1:
            self.bad(I, st, "double-close", f"the caller's {kval(label)} is closed a second time ({how})")
        self.put(st, ("c", fd), Tup([v, flag, label, K(min(kval(n) + 1, 2))]))

    def on_fdopen(self, I, st, file, fd, owns, node):
        q = self.get(st, ("c", I.norm(fd, st)))
        if q is not None and owns:
            self.put(st, ("alias", file), Tup([file, fd]))

    def end(self, I, st, out):
        for (n, k), q in list(st.mon.items()):
            if n != self.name or not isinstance(k, tuple) or k[0] != "c":
                continue
            v, flag, label, c = q.parts[0]
            if flag is TRUE and kval(c) == 0:
                how = f"raises {exc_name(I, st, out)}" if isinstance(out, Raise) else "ends"
                self.bad(I, st, "not-closed", f"the caller's {kval(label)} was to be closed but is still open when the command {how}",
                         construct=kval(label), where="end of command")


class Subst(Monitor):
    "Process substitution: ends, /dev/fd paths, pass_fds, start order."
    name = "F04"

    def on_opened(self, I, st, fd, what, node, peer=None):
        if what in ("pipe_r", "pipe_w"):
            self.put(st, ("pipe", fd), Tup([fd, peer, K(what)]))

    def on_mark(self, I, st, name, args, **_):
        if name == "want":          # __mark__("want", index, "r"|"w", name)
            self.put(st, ("want", kval(args[0])), Tup([args[1], args[2]]))
        elif name == "argc":
            self.put(st, "argc", args[0])
        elif name == "stage":       # __mark__("stage", name, stdin, stdout)
            self.stage(I, st, args)

    def path_fd(self, v):
        "The descriptor N of a '/dev/fd/N' string."
        if v.tag != "sym":
            return None
        fds = [x for x in walk(v) if x.tag == "sym" and x.parts[0] == "fdend"]
        txt = "".join(kval(x) for x in walk(v) if is_k(x, str))
        if len(fds) == 1 and "/dev/fd/" in txt:
            return fds[0]
        return None

    def on_exec(self, I, st, args, kw, node):
        self.put(st, "launched", TRUE)
        pf = I.norm(kw.get("pass_fds", NONE), st)
        passed = I.models.known_items(pf, st) if pf is not NONE else []
        argc = self.get(st, "argc")
        if argc is not None and len(args) != kval(argc):
            self.bad(I, st, "argv", f"launched with {len(args)} arguments instead of {kval(argc)}")
        for (n, k), q in list(st.mon.items()):
            if n != self.name or not isinstance(k, tuple) or k[0] != "want":
                continue
            i = k[1]
            if i >= len(args):
                self.bad(I, st, "argv", f"argument {i} is missing")
                continue
            fd = self.path_fd(I.norm(args[i], st))
            if fd is None:
                self.bad(I, st, "path", f"argument {i} is {show(args[i])}, not the /dev/fd path of a pipe end")
                continue
            want = kval(q.parts[0][0])
            p = self.get(st, ("pipe", fd))
            if p is None or (want == "r") != (kval(p.parts[0][2]) == "pipe_r"):
                self.bad(I, st, "wrong-end", f"argument {i} names the {'write' if want == 'r' else 'read'} end of the pipe")
                continue
            if passed is None or not any(x is fd for x in passed):
                self.bad(I, st, "pass-fds", f"the descriptor of argument {i} is not in pass_fds")
            for (n2, k2), q2 in list(st.mon.items()):
                if n2 == self.name and isinstance(k2, tuple) and k2[0] == "argfd" and k2[1] != i and q2.parts[0][0] is fd:
                    self.bad(I, st, "shared-pipe", f"arguments {i} and {k2[1]} share one pipe")
            self.put(st, ("argfd", i), Tup([fd, p.parts[0][1], q.parts[0][1], K(want)]))

    def on_exec_failed(self, I, st, **_):
        self.put(st, "failed", TRUE)

    def on_launched(self, I, st, **_):
        self.put(st, "up", TRUE)

    def stage(self, I, st, args):
        nm, sin, sout = args[0], I.norm(args[1], st), I.norm(args[2], st)
        if not self.get(st, "up"):
            self.bad(I, st, "early-start", "a substituted command is started although the main program was not launched")
        n = self.get(st, ("started", nm), 0)
        if n >= max(1, self.wanted(st, nm)):
            self.bad(I, st, "twice", "a substituted command is started twice")
        self.put(st, ("started", nm), min(n + 1, 9))
        cands = sorted((k[1], q) for (n, k), q in st.mon.items()
                       if n == self.name and isinstance(k, tuple) and k[0] == "argfd" and q.parts[0][2] is nm)
        cands = [(i, q) for i, q in cands if self.get(st, ("used", i)) is None]
        for i, q in cands:
            fd, peer, _nm, want = q.parts[0]
            if (sout if kval(want) == "r" else sin) is peer:
                self.put(st, ("used", i), TRUE)
                return
        if cands:
            want = kval(cands[0][1].parts[0][3])
            self.bad(I, st, "other-end", f"the substituted command's {'stdout' if want == 'r' else 'stdin'} is {show(sout if want == 'r' else sin)}, "
                     "not the other end of its pipe")

    def wanted(self, st, nm):
        return sum(1 for (n, k), q in st.mon.items() if n == self.name and isinstance(k, tuple) and k[0] == "want" and q.parts[0][1] is nm)

    def end(self, I, st, out):
        if self.get(st, "up"):
            for (n, k), q in list(st.mon.items()):
                if n == self.name and isinstance(k, tuple) and k[0] == "want" \
                        and self.get(st, ("started", q.parts[0][1]), 0) < self.wanted(st, q.parts[0][1]):
                    if not isinstance(out, Raise):
                        self.bad(I, st, "not-started", f"the substituted command {show(q.parts[0][1])} is never started", construct="outcome", where="end of command")
        if not isinstance(out, Raise) and not self.get(st, "up"):
            self.bad(I, st, "not-launched", "nothing was launched", construct="outcome", where="end of command")


def walk(v):
    yield v
    if v.tag in ("sym", "tup"):
        ps = v.parts if v.tag == "sym" else v.parts[0]
        for x in ps:
            if isinstance(x, Val):
                yield from walk(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Val):
                        yield from walk(y)


# ------------------------------------------------------------------ stages

STAGE = '''
import os as __os, asyncio as __asyncio
def __close_flagged(cmd, done=None):
    done = [] if done is None else done
    for c in (cmd.commands if hasattr(cmd, "commands") else (cmd,)):
        o = c.options
        for n in ("input", "output", "error"):
            fd = getattr(o, n)
            if getattr(o, n + "_close") and isinstance(fd, int) and fd not in done:
                done.append(fd)
                __os.close(fd)
        for arg in c.args:
            if hasattr(arg, "options"):
                __close_flagged(arg, done)
def __stage_ends(cmd):
    if hasattr(cmd, "commands"):
        return cmd.commands[0], cmd.commands[-1]
    return cmd, cmd
async def stage_launch(cmd, fut):
    "Contract of a command: its descriptors to be closed are closed exactly once, launched or not."
    first, last = __stage_ends(cmd)
    __mark__("stage", first.args[0], first.options.input, last.options.output)
    try:
        await __body__("stage.launch")
    except BaseException as ex:
        __mark__("launch_failed", first.args[0], ex)
        __close_flagged(cmd)
        if fut is not None and not fut.done():
            if isinstance(ex, __asyncio.CancelledError):
                fut.cancel()
            else:
                fut.set_exception(ex)
        raise
    __close_flagged(cmd)
    if fut is not None:
        fut.set_result(__new__(__Run, "run"))
    __mark__("stage_up", first.args[0])
    return None
async def stage_run(cmd, run):
    first, last = __stage_ends(cmd)
    try:
        r = await __body__("stage.run")
    finally:
        __mark__("stage_end", first.args[0])
    return r
class __Run:
    stdin = None
    stdout = None
    stderr = None
    pid = 1
'''


def stage_if(pred):
    def f(I, fn, args, kw, st, node):
        cmd = args[0]
        if not pred(I, cmd, st):
            return None
        fut = NONE
        for x in list(args[1:]) + list(kw.values()):
            x = I.norm(x, st)
            if x.tag == "ref" and I.models.clsname(x, st) == "Future":
                fut = x
        return [(I.models.new_stage(cmd, fut, st, node), st)]
    return f


def first_arg(I, cmd, st):
    if cmd.tag != "ref":
        return None
    o = st.get(cmd.parts[0])
    a = o.f.get("args")
    if a is None:
        cs = o.f.get("commands")
        return "s-pipeline" if cs is not None else None
    if a.tag == "tup" and a.parts[0] and is_k(a.parts[0][0], str):
        return kval(a.parts[0][0])
    return None


def is_stage(I, cmd, st):
    a = first_arg(I, cmd, st)
    return a is not None and a.startswith("s")


def stages(pipelines=True):
    f = stage_if(is_stage)
    if not pipelines:
        return {"Command.coro": f, "Runner.run_command": f}
    return {"Command.coro": f, "Runner.run_command": f, "Pipeline.coro": f, "PipeRunner.run_pipeline": f}


# --------------------------------------------------------------- scenarios

PRE = '''
from shellous import sh
import asyncio, io, os, signal
from pathlib import Path
'''

PATHS = PRE + '''
async def main():
    cmd = sh("prog").stdin(Path("in")).stdout(Path("out")).stderr(Path("err"))
    return await cmd
'''

PATHS_APPEND = PRE + '''
async def main():
    cmd = sh("/bin/prog").stdin(Path("in")).stdout(Path("out"), append=True).stderr(Path("err"), append=True)
    async with cmd as run:
        await __body__("body")
    __mark__("left")
'''

PTY = PRE + '''
async def main():
    cmd = sh("prog").set(pty=True)
    return await cmd
'''

PTY_WITH = PRE + '''
async def main():
    cmd = sh("/bin/prog").set(pty=True).stdout(sh.CAPTURE).stdin(sh.CAPTURE)
    async with cmd as run:
        await __body__("body")
    __mark__("left")
'''

PTY_FUNC = PRE + '''
def adapt(fd):
    __maybe_raise__(ValueError)
async def main():
    cmd = sh("prog").set(pty=adapt).stdout(Path("out"))
    return await cmd
'''

UNSUPPORTED = PRE + '''
async def main():
    cmd = sh("prog").stdin(Path("in")).stdout(Path("out")).set(error=object()) if False else None
    cmd = sh("prog").stdin(Path("in")).stdout(Path("out")).stderr(__choose__(1.5, Path("err")))
    return await cmd
'''

SUBST = PRE + STAGE + '''
async def main():
    r, w = sh("s1", "x"), sh("s2", "y").writable
    cmd = sh("prog", __choose__(r, w), "lit", REST).stdout(Path("out"))
    return await cmd
'''

SUBST_R = PRE + STAGE + '''
async def main():
    __mark__("want", 1, "r", "s1")
    __mark__("want", 3, "w", "s2")
    __mark__("argc", 4)
    cmd = sh("prog", sh("s1", "x"), "lit", sh("s2", "y").writable).stdout(Path("out"))
    return await cmd.stdin(sh.INHERIT).stderr(sh.INHERIT)
'''

SUBST_PIPE = PRE + STAGE + '''
async def main():
    __mark__("want", 1, "r", "s1")
    __mark__("want", 2, "w", "s3")
    __mark__("argc", 3)
    cmd = sh("/bin/prog", sh("s1", "x") | sh("s2", "y"), (sh("s3") | sh("s4")).writable)
    return await cmd.stdin(sh.INHERIT).stdout(sh.INHERIT).stderr(sh.INHERIT)
'''

SUBST_THREE = PRE + STAGE + '''
async def main():
    __mark__("want", 1, "w", "s1")
    __mark__("want", 2, "r", "s2")
    __mark__("want", 3, "r", "s3")
    __mark__("argc", 4)
    cmd = sh("/bin/prog", sh("s1").writable, sh("s2"), sh("s3")).set(pass_fds=[__sym__("fd_extra", int)])
    return await cmd.stdin(sh.INHERIT).stdout(sh.INHERIT).stderr(sh.INHERIT)
'''

SUBST_SAME = PRE + STAGE + '''
async def main():
    __mark__("want", 1, "r", "s1")
    __mark__("want", 2, "r", "s1")
    __mark__("want", 3, "w", "s2")
    __mark__("want", 4, "w", "s2")
    __mark__("want", 5, "w", "s2")
    __mark__("argc", 6)
    r = sh("s1", "x")
    w = sh("s2", "x").writable
    cmd = sh("/bin/prog", r, r, w, w, sh("s2", "x").writable)
    return await cmd.stdin(sh.INHERIT).stdout(sh.INHERIT).stderr(sh.INHERIT)
'''

OPENF = {"open": [FileNotFoundError], "os.pipe": [OSError], "pty.openpty": [OSError],
         "asyncio.create_subprocess_exec": [PermissionError], "os.ttyname": [OSError], "termios.tcgetattr": [OSError],
         "body": [ValueError], "StreamReader.read": [OSError], "stage.launch": [PermissionError], "stage.run": [ValueError]}

C = dict(coarse=True, expect=("launched", "closed"))


def f01_jobs(tier):
    M = [Fds()]
    S = dict(summaries=stages(), **C)
    js = [
        Job("paths", PATHS, M, cancels=1, faults=1, raises=OPENF, **C),
        Job("paths-append", PATHS_APPEND, M, cancels=1, faults=1, raises=OPENF, **C),
        Job("unsupported", UNSUPPORTED, M, **C),
        Job("pty", PTY, M, cancels=1, faults=1, raises=OPENF, **C),
        Job("pty-with", PTY_WITH, M, cancels=1, faults=1, raises=OPENF, **C),
        Job("pty-func", PTY_FUNC, M, faults=1, raises=OPENF, **C),
        Job("subst", SUBST_R, M, cancels=0, faults=1, raises=OPENF, **S),
        Job("subst-cancel", SUBST_R, M, cancels=1, faults=0, **S),
        Job("subst-pipe", SUBST_PIPE, M, cancels=0, faults=1, raises=OPENF, **S),
        Job("pty-darwin", PTY_WITH, M, faults=1, raises=OPENF, platform="darwin", **C),
        Job("subst-pipe-cancel", SUBST_PIPE, M, cancels=1, faults=1, raises=OPENF, **S),
        Job("subst-three", SUBST_THREE, M, cancels=1, faults=1, raises=OPENF, **S),
        Job("pty-darwin-2", PTY, M, cancels=1, faults=1, raises=OPENF, platform="darwin", **C),
        Job("pty-freebsd", PTY, M, cancels=1, faults=1, raises=OPENF, platform="freebsd13", **C),
    ]
    if tier == "thorough":
        js += [
            Job("paths-2", PATHS, M, cancels=1, faults=2, raises=OPENF, **C),
            Job("pty-2", PTY, M, cancels=1, faults=2, raises=OPENF, **C),
            Job("subst-2", SUBST_R, M, cancels=1, faults=2, raises=OPENF, **S),
        ]
    return js


EXECF = {"asyncio.create_subprocess_exec": [PermissionError]}

LAUNCHF = dict(EXECF, **{"os.pipe": [OSError], "stage.launch": [PermissionError]})

CALLER = PRE + '''
async def main():
    a, b, c, d = __sym__("fd_in", int), __sym__("fd_out", int), __sym__("fd_err", int), __sym__("fd_pass", int)
    ca, cb, cc, cd = __choose__(True, False), __choose__(True, False), __choose__(True, False), __choose__(True, False)
    __mark__("mine", a, ca, "stdin descriptor")
    __mark__("mine", b, cb, "stdout descriptor")
    __mark__("mine", c, cc, "stderr descriptor")
    __mark__("mine", d, cd, "pass_fds descriptor")
    cmd = sh("prog").stdin(a, close=ca).stdout(b, close=cb).stderr(c, close=cc).set(pass_fds=[d], pass_fds_close=cd)
    return await cmd
'''

CALLER_WITH = PRE + '''
async def main():
    a, b, d = __sym__("fd_in", int), __sym__("fd_out", int), __sym__("fd_pass", int)
    ca, cb, cd = __choose__(True, False), __choose__(True, False), True
    __mark__("mine", a, ca, "stdin descriptor")
    __mark__("mine", b, cb, "stdout descriptor")
    __mark__("mine", d, cd, "pass_fds descriptor")
    cmd = sh("prog").stdin(a, close=ca).stdout(b, close=cb).set(pass_fds=(d,), pass_fds_close=cd)
    async with cmd as run:
        await __body__("body")
    __mark__("left")
'''

CALLER_PATH = PRE + '''
async def main():
    a, d = __sym__("fd_in", int), __sym__("fd_pass", int)
    __mark__("mine", a, True, "stdin descriptor")
    __mark__("mine", d, True, "pass_fds descriptor")
    cmd = sh("prog").stdin(a, close=True).stdout(Path("out")).stderr(__choose__(Path("err"), 1.5)).set(pass_fds=(d,), pass_fds_close=True)
    return await cmd
'''

CALLER_CAPTURE = PRE + '''
async def main():
    a, d = __sym__("fd_in", int), __sym__("fd_pass", int)
    __mark__("mine", a, True, "stdin descriptor")
    __mark__("mine", d, True, "pass_fds descriptor")
    cmd = sh("prog").stdin(a, close=True).stdout(sh.CAPTURE).stderr(sh.CAPTURE).set(pass_fds=(d,), pass_fds_close=True)
    return await cmd
'''

CALLER_FILES = PRE + '''
async def main():
    f, g = __new__(io.FileIO, "outfile"), __new__(io.FileIO, "errfile")
    __mark__("mine", f, False, "stdout file")
    __mark__("mine", g, False, "stderr file")
    b = __sym__("fd_in", int)
    __mark__("mine", b, False, "stdin descriptor")
    cmd = sh("prog").stdin(b).stdout(f).stderr(g, append=True)
    return await cmd
'''

CALLER_SUBST = PRE + STAGE + '''
async def main():
    a, b = __sym__("fd_in", int), __sym__("fd_sub", int)
    __mark__("mine", a, True, "stdin descriptor")
    __mark__("mine", b, True, "substituted command's stdin descriptor")
    cmd = sh("prog", sh("s1").stdin(b, close=True)).stdin(a, close=True)
    return await cmd
'''

CALLER_PTY = PRE + '''
async def main():
    a, b = __sym__("fd_in", int), __sym__("fd_out", int)
    __mark__("mine", a, True, "stdin descriptor")
    __mark__("mine", b, False, "stdout descriptor")
    cmd = sh("prog").stdin(a, close=True).stdout(b).set(pty=True)
    return await cmd
'''


def caller_line(make, stages=""):
    return PRE + stages + f'''
async def main():
    a, b, c = __sym__("fd_in", int), __sym__("fd_out", int), __sym__("fd_err", int)
    ca, cb, cc = __choose__((True, True, True), (True, False, False), (False, True, False), (False, False, True), (False, False, False))
    __mark__("mine", a, ca, "stdin descriptor")
    __mark__("mine", b, cb, "stdout descriptor")
    __mark__("mine", c, cc, "stderr descriptor")
    {make}
    return await cmd
'''


CALLER_CONTEXT = caller_line('''ctx = sh.stdin(a, close=ca).stdout(b, close=cb).stderr(c, close=cc)
    cmd = ctx("prog").set(exit_codes={0})''')

CALLER_ONE = caller_line('''from shellous import Pipeline
    cmd = Pipeline.create(sh("s1")).stdin(a, close=ca) | Pipeline.create(sh("s2")).stdout(b, close=cb).stderr(c, close=cc)''', STAGE)

CALLER_TWO = caller_line('''cmd = (sh("s1") | sh("s2")).stdin(a, close=ca).stdout(b, close=cb).stderr(c, close=cc)''', STAGE)

CALLER_SET = caller_line('''cmd = sh("prog").stdin(a, close=ca).set(timeout=1.0).stdout(b, close=cb).env(A=1).stderr(c, close=cc).set(exit_codes=[1])''')

CALLER_MIDDLE = PRE + STAGE + '''
async def main():
    a, b, c = __sym__("fd_in", int), __sym__("fd_err", int), __sym__("fd_sub", int)
    for fd, what in ((a, "stdin descriptor"), (b, "middle stderr descriptor"), (c, "substituted command's descriptor")):
        __mark__("mine", fd, True, what)
    cmd = (sh("s1").stdin(a, close=True) | sh("s2").stderr(b, close=True) | sh("s3", sh("s4").stdin(c, close=True))).stdout(sh.DEVNULL)
    return await cmd
'''

CALLER_NESTED = PRE + STAGE + '''
async def main():
    a, b, c = __sym__("fd_in", int), __sym__("fd_sub", int), __sym__("fd_nested", int)
    for fd, what in ((a, "stdin descriptor"), (b, "substituted command's descriptor"), (c, "nested substituted command's descriptor")):
        __mark__("mine", fd, True, what)
    cmd = sh("prog", sh("s1", sh("s2").stdin(c, close=True)), sh("s3").stdin(b, close=True)).stdin(a, close=True)
    return await cmd
'''

# redirected again: what was given before is no longer the command's
CALLER_AGAIN = PRE + '''
async def main():
    a, b = __sym__("fd_old", int), __sym__("fd_new", int)
    __mark__("mine", a, False, "descriptor given before")
    k = __choose__("stdin", "stdout", "stderr")
    how = __choose__("fd", "null", "close")
    v = sh.DEVNULL if how == "null" else b
    if how != "null":
        __mark__("mine", b, how == "close", "descriptor given last")
    if k == "stdin": cmd = sh("prog").stdin(a, close=True).stdin(v, close=how == "close")
    elif k == "stdout": cmd = sh("prog").stdout(a, close=True).stdout(v, close=how == "close")
    else: cmd = sh("prog").stderr(a, close=True).stderr(v, close=how == "close")
    return await cmd
'''


def f02_jobs(tier):
    M = [Caller]
    js = [
        Job("caller", CALLER, M, cancels=0, faults=1, raises=EXECF, **C),
        Job("caller-with", CALLER_WITH, M, cancels=1, faults=1, raises={"body": [ValueError], "asyncio.create_subprocess_exec": [PermissionError]}, **C),
        Job("caller-path", CALLER_PATH, M, cancels=1, faults=1, raises=OPENF, **C),
        Job("caller-capture", CALLER_CAPTURE, M, coarse=True, expect=("closed",)),
        Job("caller-files", CALLER_FILES, M, cancels=1, faults=1, raises=OPENF, coarse=True, expect=("launched",)),
        Job("caller-subst", CALLER_SUBST, M, faults=1, raises=OPENF, summaries=stages(), **C),
        Job("caller-pty", CALLER_PTY, M, cancels=0, faults=1, raises=OPENF, **C),
        Job("caller-context", CALLER_CONTEXT, M, faults=1, raises=EXECF, **C),
        Job("caller-one", CALLER_ONE, M, faults=1, raises=OPENF, summaries=stages(False), coarse=True, expect=("closed", "mark:stage")),
        Job("caller-two", CALLER_TWO, M, faults=1, raises=OPENF, summaries=stages(False), coarse=True, expect=("closed", "mark:stage")),
        Job("caller-middle", CALLER_MIDDLE, M, faults=1, raises=LAUNCHF, summaries=stages(False), coarse=True, expect=("closed", "mark:stage")),
        Job("caller-nested", CALLER_NESTED, M, faults=1, raises=LAUNCHF, summaries=stages(), **C),
        Job("caller-set", CALLER_SET, M, faults=1, raises=EXECF, **C),
        Job("caller-again", CALLER_AGAIN, M, faults=1, raises=EXECF, **C),
    ]
    if tier == "thorough":
        js += [Job("caller-cancel", CALLER, M, cancels=1, **C),
               Job("caller-pty-cancel", CALLER_PTY, M, cancels=1, faults=1, raises=OPENF, **C)]
    return js


def f04_jobs(tier):
    M = [Fds("F04", kinds=("pipe_r", "pipe_w")), Subst]
    S = dict(summaries=stages(), coarse=True, expect=("launched", "mark:stage"))
    js = [
        Job("subst", SUBST_R, M, faults=1, raises=OPENF, **S),
        Job("subst-cancel", SUBST_R, M, cancels=1, **S),
        Job("subst-pipe", SUBST_PIPE, M, faults=1, raises=OPENF, **S),
        Job("subst-three", SUBST_THREE, M, faults=1, raises=OPENF, **S),
        Job("subst-same", SUBST_SAME, M, **S),
    ]
    if tier == "thorough":
        js += [Job("subst-pipe-cancel", SUBST_PIPE, M, cancels=1, faults=1, raises=OPENF, **S),
               Job("subst-three-cancel", SUBST_THREE, M, cancels=1, faults=1, raises=OPENF, **S)]
    return js


ASSUME = ("One cancellation and one failure are injected per run, at every suspension point and set-up step.",
          "Pipes that asyncio itself creates for a child are outside this check.",
          "Commands substituted or piped are represented by their contract (descriptors marked for closing are closed once), which F02 decides for a command.")

CHECKS = {
    "F01": Check("Descriptors opened for a command are closed exactly once", "typestate open -> closed for every descriptor returned by open, os.pipe, openpty; "
                 "no second os.close; none open at the end", f01_jobs,
                 "Every descriptor-creating call is followed along every path, through ownership by file objects, transports and pipeline stages, to the end of the command.", ASSUME),
    "F02": Check("Caller descriptors: closed once if asked", "count of close calls per caller descriptor = 1 if its close flag is set, else 0", f02_jobs,
                 "Caller-supplied descriptors and files under all flag combinations, with success, failed set-up, failed launch and cancellation.", ASSUME),
    "F04": Check("Process substitution gives each side the right end", "argv path, pass_fds and the substituted command's redirect refer to the two ends of one fresh pipe; "
                 "start only after launch; pipe typestate", f04_jobs,
                 "The arguments given to exec and the redirections of the substituted commands are traced back to the os.pipe call they came from.", ASSUME),
}


# ------------------------------------------------------------------ T01: pty

class Pty(Monitor):
    "Session, controlling terminal, standard streams, adapter, hang-up, parent's copies."
    name = "T01"

    def on_opened(self, I, st, fd, what, node, peer=None):
        if what == "pty_parent":
            self.put(st, "pty", Tup([fd, peer]))

    def on_mark(self, I, st, name, args, **_):
        if name == "expect":
            self.put(st, ("exp", kval(args[0])), Tup([args[1]]))
        elif name == "adapt":
            p = self.get(st, "pty")
            if p is not None and args[0] is not p.parts[0][1] and args[0] is not p.parts[0][0]:
                self.bad(I, st, "adapter", f"the pty option is called with {show(args[0])}, not the terminal's descriptor")
            if self.get(st, "exec"):
                self.bad(I, st, "adapter", "the pty option is applied after the launch")
            self.put(st, "adapted", TRUE)
        elif name == "adapter":
            self.put(st, "adapter", TRUE)
        elif name in ("entered", "left"):
            self.released(I, st)

    def released(self, I, st):
        if not I.cfg.platform.startswith("linux") or not self.get(st, "exec"):
            return
        p = self.get(st, "pty")
        if p is not None and not self.get(st, ("closed", "child")):
            self.bad(I, st, "child-copy", "the parent still holds the child's side of the terminal after the launch, so end of file is never seen",
                     construct="child side of the pty", where="after launch")

    def on_closed(self, I, st, fd, how, node):
        p = self.get(st, "pty")
        if p is not None and fd is p.parts[0][1]:
            if not self.get(st, "exec"):
                self.put(st, "early", TRUE)
            self.put(st, ("closed", "child"), TRUE)

    def on_wait_begin(self, I, st, **_):
        if self.get(st, "up"):
            self.released(I, st)

    def on_launched(self, I, st, **_):
        self.put(st, "up", TRUE)

    def on_exec(self, I, st, args, kw, node):
        self.put(st, "exec", TRUE)
        p = self.get(st, "pty")
        if p is None:
            self.bad(I, st, "no-pty", "the command is launched without opening a pty")
            return
        child = p.parts[0][1]
        if self.get(st, "early"):
            self.bad(I, st, "closed-early", "the child's side of the terminal is closed before the launch")
        if self.get(st, "adapter") and not self.get(st, "adapted"):
            self.bad(I, st, "adapter", "the pty option is not applied before the launch")
        if I.norm(kw.get("start_new_session", FALSE), st) is not TRUE:
            self.bad(I, st, "session", f"launched with start_new_session={show(kw.get('start_new_session', FALSE))}")
        for s in ("stdin", "stdout", "stderr"):
            e = self.get(st, ("exp", s))
            if e is None:
                continue
            e = e.parts[0][0]
            got = I.norm(kw.get(s, NONE), st)
            want = child if e is K("pty") else e
            if e is K("pipe"):
                ok = got is K(-1) or got.tag in ("enum", "py") and I.enum_int(got) == -1
            elif e is K("file"):
                ok = got.tag == "ref"
            else:
                want = I.norm(want, st)
                ok = got is want or I.enum_int(got) is not None and I.enum_int(got) == I.enum_int(want)
            if not ok:
                self.bad(I, st, "stream", f"{s} is bound to {show(got)} instead of {'the terminal' if e is K('pty') else show(e)}",
                         construct=s + " " + show(e)[:30])
        fn = I.norm(kw.get("preexec_fn", NONE), st)
        if fn is NONE:
            self.bad(I, st, "ctty", "nothing makes the pty the child's controlling terminal")
            return
        s2 = st.fork()
        s2.mon[(self.name, "probe")] = TRUE
        ok = True
        try:
            outs = I.call(fn, [], {}, s2, node)
        except AnalysisBroken:
            return
        for v, x in outs:
            if isinstance(v, Raise):
                continue
            if not self.get(x, "ctty"):
                ok = False
        if not ok:
            self.bad(I, st, "ctty", "the function run in the child does not open the pty's slave as its controlling terminal")

    def on_ext(self, I, st, name, args, node, kw=None, **_):
        if self.get(st, "probe"):
            child = self.get(st, "pty").parts[0][1]
            if name == "os.open":
                a = I.norm(args[0], st)
                if a.tag == "sym" and any(x is child for x in walk(a)):
                    flags = I.norm(args[1], st) if len(args) > 1 else K(0)
                    iv = I.enum_int(flags) if flags.tag != "k" else kval(flags)
                    import os
                    if not (isinstance(iv, int) and iv & os.O_NOCTTY):
                        self.put(st, "ctty", TRUE)
            elif name in ("fcntl.ioctl",) and any(x is child for x in map(lambda q: I.norm(q, st), args)):
                self.put(st, "ctty", TRUE)
            elif name == "os.login_tty":
                self.put(st, "ctty", TRUE)
        if name.endswith(".connection_lost") and self.get(st, "lost"):
            self.put(st, "reported", Tup([args[0]]))

    def on_transport(self, I, st, transport, pipe, node, proto=NONE, which=None, **_):
        if which != "read" or proto.tag != "ref":
            return
        import errno
        cases = [("hang-up", "hang-up of the terminal (EIO) is reported as an error", OSError, errno.EIO, None),
                 ("error-lost", "an I/O error of the terminal other than its hang-up is not reported", OSError, errno.ENOSPC, True),
                 ("error-lost", "a failure of the terminal's stream is not reported", ValueError, None, True),
                 ("error-lost", "end of file is reported as an error", None, None, None)]
        for rule, msg, cls, num, same in cases:
            s2 = st.fork()
            if cls is None:
                e = NONE
            else:
                e = s2.alloc("in:ioerror", HObj("inst", Py(cls), {"errno": K(num) if num else K(0), "args": Tup([K(num), K("x")])}))
            s2.mon[(self.name, "lost")] = TRUE
            s2.pins += (e,)
            for f, x in I.getattr(proto, "connection_lost", s2, node):
                for v, y in I.call(f, [e], {}, x, node):
                    if isinstance(v, Raise):
                        self.bad(I, st, rule, "connection_lost raises", construct="connection_lost")
                        continue
                    r = self.get(y, "reported")
                    got = r.parts[0][0] if r is not None else None
                    if f.tag == "meth":
                        got = e       # not overridden: asyncio's own behaviour
                    want = e if same else NONE
                    if got is not want:
                        self.bad(I, st, rule, msg, construct="connection_lost", where=I.where())

    def end(self, I, st, out):
        pass


T_TABLE = PRE + '''
def adapt(fd):
    __mark__("adapt", fd)
async def main():
    ad = __choose__(True, False)
    cmd = sh("/bin/prog").set(pty=adapt if ad else True)
    if ad:
        __mark__("adapter")
    i = __choose__("default", "text", "bytes", "null", "fd", "path", "capture", "inherit", "reader")
    if i in ("default", "text", "bytes", "capture", "reader"):
        __mark__("expect", "stdin", "pty")
    if i == "text": cmd = cmd.stdin(__sym__("text", str))
    elif i == "bytes": cmd = cmd.stdin(__sym__("bytes", bytes))
    elif i == "null":
        cmd = cmd.stdin(sh.DEVNULL)
        __mark__("expect", "stdin", asyncio.subprocess.DEVNULL)
    elif i == "fd":
        fd = __sym__("fd_in", int)
        cmd = cmd.stdin(fd)
        __mark__("expect", "stdin", fd)
    elif i == "path":
        cmd = cmd.stdin(Path("in"))
        __mark__("expect", "stdin", "file")
    elif i == "capture": cmd = cmd.stdin(sh.CAPTURE)
    elif i == "inherit":
        import sys
        cmd = cmd.stdin(sh.INHERIT)
        __mark__("expect", "stdin", sys.stdin)
    elif i == "reader": cmd = cmd.stdin(__new__(asyncio.StreamReader, "reader"))
    async with cmd as run:
        __mark__("entered")
        await __body__("body")
    __mark__("left")
'''

T_OUT = PRE + '''
async def main():
    cmd = sh("/bin/prog").set(pty=True)
    o = __choose__("default", "buffer", "capture", "stringio", "bytearray", "null", "fd", "path", "inherit")
    if o in ("default", "buffer", "capture", "stringio", "bytearray"):
        __mark__("expect", "stdout", "pty")
    if o == "buffer": cmd = cmd.stdout(sh.BUFFER)
    elif o == "capture": cmd = cmd.stdout(sh.CAPTURE)
    elif o == "stringio": cmd = cmd.stdout(io.StringIO())
    elif o == "bytearray": cmd = cmd.stdout(bytearray())
    elif o == "null":
        cmd = cmd.stdout(sh.DEVNULL)
        __mark__("expect", "stdout", asyncio.subprocess.DEVNULL)
    elif o == "fd":
        fd = __sym__("fd_out", int)
        cmd = cmd.stdout(fd)
        __mark__("expect", "stdout", fd)
    elif o == "path":
        cmd = cmd.stdout(Path("out"))
        __mark__("expect", "stdout", "file")
    elif o == "inherit":
        import sys
        cmd = cmd.stdout(sh.INHERIT)
        __mark__("expect", "stdout", sys.stdout)
    async with cmd as run:
        __mark__("entered")
        await __body__("body")
    __mark__("left")
'''

T_ERR = PRE + '''
async def main():
    cmd = sh("/bin/prog").set(pty=True)
    e = __choose__("default", "stdout", "buffer", "capture", "stringio", "null", "fd", "path", "inherit")
    if e in ("default", "stdout"):
        __mark__("expect", "stderr", "pty")
    elif e in ("buffer", "capture", "stringio"):
        __mark__("expect", "stderr", "pipe")
    if e == "stdout": cmd = cmd.stderr(sh.STDOUT)
    elif e == "buffer": cmd = cmd.stderr(sh.BUFFER)
    elif e == "capture": cmd = cmd.stdout(sh.BUFFER).stderr(sh.CAPTURE)
    elif e == "stringio": cmd = cmd.stderr(io.StringIO())
    elif e == "null":
        cmd = cmd.stderr(sh.DEVNULL)
        __mark__("expect", "stderr", asyncio.subprocess.DEVNULL)
    elif e == "fd":
        fd = __sym__("fd_err", int)
        cmd = cmd.stderr(fd)
        __mark__("expect", "stderr", fd)
    elif e == "path":
        cmd = cmd.stderr(Path("err"))
        __mark__("expect", "stderr", "file")
    elif e == "inherit":
        import sys
        cmd = cmd.stderr(sh.INHERIT)
        __mark__("expect", "stderr", sys.stderr)
    async with cmd as run:
        __mark__("entered")
        await __body__("body")
    __mark__("left")
'''

T_COMBO = PRE + '''
def adapt(fd):
    __mark__("adapt", fd)
async def main():
    ad = __choose__(True, False)
    cmd = sh("/bin/prog").set(pty=adapt if ad else True)
    if ad:
        __mark__("adapter")
    i = __choose__("default", "null", "fd")
    o = __choose__("default", "capture", "null", "fd", "path")
    e = __choose__("default", "stdout", "buffer", "null", "fd")
    if i == "default":
        __mark__("expect", "stdin", "pty")
    elif i == "null":
        cmd = cmd.stdin(sh.DEVNULL)
        __mark__("expect", "stdin", asyncio.subprocess.DEVNULL)
    else:
        fd = __sym__("fd_in", int)
        cmd = cmd.stdin(fd)
        __mark__("expect", "stdin", fd)
    if e == "default":
        __mark__("expect", "stderr", "pty")
    elif e == "stdout":
        cmd = cmd.stderr(sh.STDOUT)
        if o == "default" or o == "capture":
            __mark__("expect", "stderr", "pty")
    elif e == "buffer":
        cmd = cmd.stderr(sh.BUFFER)
        __mark__("expect", "stderr", "pipe")
    elif e == "null":
        cmd = cmd.stderr(sh.DEVNULL)
        __mark__("expect", "stderr", asyncio.subprocess.DEVNULL)
    else:
        fd = __sym__("fd_err", int)
        cmd = cmd.stderr(fd)
        __mark__("expect", "stderr", fd)
    if o == "default":
        __mark__("expect", "stdout", "pty")
    elif o == "capture":
        cmd = cmd.stdout(sh.CAPTURE)
        __mark__("expect", "stdout", "pty")
    elif o == "null":
        cmd = cmd.stdout(sh.DEVNULL)
        __mark__("expect", "stdout", asyncio.subprocess.DEVNULL)
    elif o == "fd":
        fd = __sym__("fd_out", int)
        cmd = cmd.stdout(fd)
        __mark__("expect", "stdout", fd)
    else:
        cmd = cmd.stdout(Path("out"))
        __mark__("expect", "stdout", "file")
    async with cmd as run:
        __mark__("entered")
        await __body__("body")
    __mark__("left")
'''

T_AWAIT = PRE + '''
def adapt(fd):
    __mark__("adapt", fd)
async def main():
    __mark__("adapter")
    __mark__("expect", "stdin", "pty")
    __mark__("expect", "stdout", "pty")
    __mark__("expect", "stderr", "pty")
    cmd = sh("prog").set(pty=adapt)
    return await cmd
'''


def t01_jobs(tier):
    M = [Pty]
    L = [Fds("T01", kinds=("pty_parent", "pty_child"))]
    E = dict(coarse=True, expect=("launched", "opened", "transport"))
    js = [
        Job("stdin", T_TABLE, M, **E), Job("stdout", T_OUT, M, **E), Job("stderr", T_ERR, M, **E),
        Job("streams", T_COMBO, M, **E), Job("await", T_AWAIT, M, **E),
        Job("await-fault", T_AWAIT, M + L, cancels=1, faults=1, raises=OPENF, **E),
        Job("await-darwin", T_AWAIT, M + L, platform="darwin", faults=1, raises=OPENF, **E),
        Job("func", PTY_FUNC, L, faults=1, raises=OPENF, coarse=True),
    ]
    if tier == "thorough":
        js += [Job("stdin-fault", T_TABLE, M + L, cancels=1, faults=1, raises=OPENF, **E),
               Job("stdout-fault", T_OUT, M + L, cancels=1, faults=1, raises=OPENF, **E),
               Job("stderr-fault", T_ERR, M + L, cancels=1, faults=1, raises=OPENF, **E),
               Job("stderr-darwin", T_ERR, M + L, platform="darwin", **E)]
    return js


CHECKS["T01"] = Check("A pty command gets its terminal", "exec arguments of a pty command (session, preexec function, standard streams) against the redirection table; "
                      "connection_lost of the terminal's protocol; typestate of both pty descriptors", t01_jobs,
                      "Every redirection of each standard stream combined with pty; the child-side function and the reader protocol's connection_lost are analysed as well.", ASSUME)
