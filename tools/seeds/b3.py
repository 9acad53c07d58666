S = []


def seed(id, property, file, old, new, needs, breaks, demo):
    S.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo))


seed("L07-launch-not-shielded", "L07", "util.py",
     "    except asyncio.CancelledError:\n        if not task.cancelled():\n            await task\n        raise",
     "    except asyncio.CancelledError:\n        if not task.cancelled():\n            task.cancel()\n            await task\n        raise",
     "a cancellation arriving while the launch call is in progress", "the launch call itself is interrupted",
     '''
import asyncio, sys
import shellous.runner
from shellous import sh

async def main():
    orig = asyncio.create_subprocess_exec
    seen = []
    entered = asyncio.Event()
    async def slow(*a, **k):
        entered.set()
        try:
            await asyncio.sleep(0.5)
        except asyncio.CancelledError:
            seen.append("interrupted")
            raise
        return await orig(*a, **k)
    asyncio.create_subprocess_exec = slow
    t = asyncio.create_task(sh("sleep", "5").coro())
    await entered.wait()
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        pass
    assert not seen, seen

asyncio.run(main())
''')

seed("F02-pipeline-stdin-close-lost", "F02", "pipeline.py",
     "        new_first = self.commands[0].stdin(input_, close=close)",
     "        new_first = self.commands[0].stdin(input_, close=close and isinstance(input_, int) and len(self.commands) > 1)",
     "stdin(fd, close=True) on a pipeline of one command", "the descriptor is never closed",
     '''
import asyncio, os
from shellous import sh, Pipeline

async def main():
    r, w = os.pipe()
    os.close(w)
    p = Pipeline.create(sh("cat")).stdin(r, close=True) | sh("cat")
    await p
    try:
        os.fstat(r)
    except OSError:
        return
    raise AssertionError("left open")

asyncio.run(main())
''')

seed("D03-stringio-from-position", "D03", "runner.py",
     "            input_bytes = encode_bytes(source.getvalue(), opts.encoding)",
     "            input_bytes = encode_bytes(source.read(), opts.encoding)",
     "a StringIO whose position is not at its start, or used for a second run", "only the rest of the text is written to stdin",
     '''
import asyncio, io
from shellous import sh

async def main():
    s = io.StringIO()
    s.write("hello")
    out = await (s | sh("cat"))
    assert out == "hello", repr(out)

asyncio.run(main())
''')

seed("D04-pty-callable-defaults", "D04", "redirect.py",
     "        return _DEFAULT_REDIRECTION[(fdesc, bool(pty))]",
     "        return _DEFAULT_REDIRECTION[(fdesc, pty is True)]",
     "pty given as a callable, default stdin and stderr", "the defaults for a run without a pty are used",
     '''
import asyncio, sys
from shellous import sh, cooked

async def main():
    r = await sh(sys.executable, "-c", "import sys; print(sys.stderr.isatty())").set(pty=lambda fd: None).result
    assert "True" in r.output, r

asyncio.run(main())
''')

seed("D04-inherit-stderr", "D04", "runner.py",
     "            elif output == Redirect.INHERIT:\n                stdout = sys_stream\n",
     "            elif output == Redirect.INHERIT:\n                stdout = sys.stdout if self.is_stderr_only or append else sys_stream\n",
     "stderr(sh.INHERIT, append=True)", "stderr is bound to the parent's stdout",
     '''
import asyncio, sys, os, subprocess
if len(sys.argv) > 1:
    from shellous import sh
    async def main():
        await sh("sh", "-c", "echo e >&2").stderr(sh.INHERIT, append=True)
    asyncio.run(main())
else:
    r = subprocess.run([sys.executable, __file__, "x"], capture_output=True, text=True)
    assert (r.stdout, r.stderr.strip()) == ("", "e"), r
''')

seed("A01-pass-fds-mutated", "A01", "runner.py",
     "            self.kwd_args.setdefault(\"pass_fds\", []).extend(options.pass_fds)\n",
     "            pass_fds = options.pass_fds\n            pass_fds += type(pass_fds)(self.kwd_args.get(\"pass_fds\", ()))\n            self.kwd_args[\"pass_fds\"] = pass_fds\n",
     "pass_fds given as a list together with process substitution", "running the command adds descriptors to the list held by its options",
     '''
import asyncio, os
from shellous import sh

async def main():
    fd = os.open("/dev/null", os.O_RDONLY)
    cmd = sh("cat", sh("echo", "x")).set(pass_fds=[fd])
    await cmd
    assert cmd.options.pass_fds == [fd], cmd.options.pass_fds

asyncio.run(main())
''')

seed("A02-stringio-read", "A02", "command.py",
     "            result.append(arg.getvalue())",
     "            result.append(arg.read())",
     "a StringIO or BytesIO argument that was written to, or used twice", "the argument is the rest of the buffer instead of its contents",
     '''
import asyncio, io
from shellous import sh
s = io.StringIO()
s.write("abc")
assert sh("echo", s).args == ("echo", "abc"), sh("echo", s).args
''')

seed("A02-coerce-nested-cb", "A02", "command.py",
     "                coerce(arg, None)  # pyright",
     "                coerce(arg, coerce_arg)  # pyright",
     "coerce_arg with nested lists", "coerce_arg is applied to the elements of a list, too",
     '''
import asyncio
from shellous import sh
c = sh.set(coerce_arg=lambda a: ["-x", a] if a == "a" else a)
assert c("p", ["a", "b"]).args == ("p", "a", "b"), c("p", ["a", "b"]).args
''')

seed("A03-none-skipped", "A03", "util.py",
     "    return {str(key): str(value) for key, value in env.items()}",
     "    return {str(key): str(value) for key, value in env.items() if value != \"\"}",
     "an environment variable set to the empty string", "it is dropped, so an inherited value shows through",
     '''
import asyncio, os
from shellous import sh
os.environ["DEMO_X"] = "outer"
async def main():
    out = await sh("sh", "-c", "echo [$DEMO_X]").env(DEMO_X="")
    assert out == "[]\\n", out
asyncio.run(main())
''')

seed("A03-set-env-merges", "A03", "command.py",
     "                kwds[\"env\"] = EnvironmentDict(None, new_env)",
     "                kwds[\"env\"] = EnvironmentDict(self.env, new_env)",
     "set(env=...) on a command that already has variables", "earlier variables are kept",
     '''
from shellous import sh
c = sh("x").env(A="1").set(env={"B": "2"})
assert c.options.env == {"B": "2"}, c.options.env
''')

seed("A05-stack-per-owner", "A05", "util.py",
     ["    key = (id(owner), id(asyncio.current_task()))\n    stack = ctxt_stacks[key]\n    stack.append(ctxt_manager)\n",
      "        key = (id(owner), id(asyncio.current_task()))\n        stack = ctxt_stacks[key]\n        ctxt_manager = stack.pop()"],
     ["    key = (id(owner), 0)\n    stack = ctxt_stacks[key]\n    stack.append(ctxt_manager)\n",
      "        key = (id(owner), 0)\n        stack = ctxt_stacks[key]\n        ctxt_manager = stack.pop()"],
     "two tasks inside the same command object at once, after their common parent has entered it", "a task exits the run of the other task",
     '''
import asyncio
from shellous import sh

async def main():
    cmd = sh("cat").stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with cmd as run:
        run.stdin.close()
    codes = {}
    async def one(n, wait):
        async with cmd as run:
            await asyncio.sleep(wait)
            run.stdin.close()
        codes[n] = run.returncode
    await asyncio.gather(one(1, 0.2), one(2, 1.0))
    assert codes == {1: 0, 2: 0}, codes

asyncio.run(asyncio.wait_for(main(), 20))
''')

seed("A06-none-means-unset", "A06", "command.py",
     "        kwds = {key: value for key, value in kwds.items() if value is not _UNSET}",
     "        kwds = {\n            key: value\n            for key, value in kwds.items()\n            if value is not _UNSET and (value is not None or key != \"timeout\")\n        }",
     "set(timeout=None) on a command that has a timeout", "the timeout cannot be removed",
     '''
from shellous import sh
assert sh("x").set(timeout=3).set(timeout=None).options.timeout is None
''')

seed("A07-env-not-compared", "A07", "command.py",
     "    env: Optional[EnvironmentDict] = field(default=None, repr=False)",
     "    env: Optional[EnvironmentDict] = field(default=None, repr=False, compare=False)",
     "two commands that differ only in their environment variables", "they compare equal",
     '''
from shellous import sh
assert sh("x").env(A=1) != sh("x").env(A=2)
''')

seed("A08-relative-looked-up", "A08", "runner.py",
     "            if not os.path.dirname(executable):",
     "            if not os.path.isabs(executable):",
     "a program given by a relative path that is not executable (or not there)", "it is looked up: FileNotFoundError instead of PermissionError",
     '''
import asyncio, os, tempfile
from shellous import sh

async def main():
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        open("prog", "w").write("#!/bin/sh\\n")
        try:
            await sh("./prog")
        except PermissionError:
            return
        finally:
            os.chdir("/")
        raise AssertionError

asyncio.run(main())
''')

seed("R01-read-all-forgets-pending", "R01", "prompt.py",
     "            data = self._decoder.decode(chunk, final=self._at_eof)\n            self._pending += data\n\n    async def _wait_no_echo",
     "            data = self._decoder.decode(chunk)\n            self._pending += data\n\n    async def _wait_no_echo",
     "output that ends inside a multi-byte character (or with CR and normalize_newlines)", "the incomplete character at the end is lost instead of being reported or replaced",
     '''
import asyncio, sys
from shellous import sh

async def main():
    cmd = sh("printf", "ab\\\\r").set(encoding="utf-8 replace")
    async with cmd.prompt(normalize_newlines=True) as cli:
        out = await cli.read_all()
    assert out == "ab\\n", repr(out)

asyncio.run(main())
''')

seed("R02-long-password-logged", "R02", "prompt.py",
     ["        if no_echo:\n            LOGGER.info(\"Prompt[pid=%s] send: [[HIDDEN]]\", pid)\n        else:\n            data_len = len(data)\n            if data_len > _LOG_LIMIT:\n"],
     ["        data_len = len(data)\n        if no_echo and data_len <= _LOG_LIMIT:\n            LOGGER.info(\"Prompt[pid=%s] send: [[HIDDEN]]\", pid)\n        else:\n            if data_len > _LOG_LIMIT:\n"],
     "text longer than the log limit sent with no_echo while logging is enabled", "the beginning and end of the hidden text are logged",
     '''
import asyncio, logging, os, subprocess, sys
if len(sys.argv) < 2:
    r = subprocess.run([sys.executable, __file__, "x"], env=dict(os.environ, SHELLOUS_TRACE="all"), capture_output=True, text=True)
    assert r.returncode == 0, r.stderr[-500:]
    assert "sesame" not in r.stderr + r.stdout, "hidden text logged"
else:
    logging.basicConfig(level=logging.DEBUG)
    from shellous import sh
    async def main():
        async with sh("cat").prompt() as cli:
            await cli.send("sesame" + "x" * 5000, no_echo=True)
    asyncio.run(main())
''')

seed("R03-read-all-cancel-lost", "R03", "prompt.py",
     "                self._read_some(tag=\"@read_all\"),\n                timeout=self._get_timeout(timeout),\n            )\n            if cancelled:\n                raise asyncio.CancelledError()\n",
     "                self._read_some(tag=\"@read_all\"),\n                timeout=self._get_timeout(timeout),\n            )\n            if cancelled and not self._pending:\n                raise asyncio.CancelledError()\n",
     "read_all() cancelled after some output has been read", "it returns normally, or raises something else, although it was cancelled",
     '''
import asyncio, sys
from shellous import sh

async def main():
    res = []
    async with sh("sh", "-c", "echo abc; sleep 3").prompt() as cli:
        async def read():
            await cli.expect("a")
            try:
                res.append(await cli.read_all())
            except asyncio.CancelledError:
                res.append("cancelled")
        t = asyncio.create_task(read())
        await asyncio.sleep(1)
        t.cancel()
        await asyncio.wait([t])
    assert res == ["cancelled"], res

asyncio.run(main())
''')

seed("R04-drain-reads-bounded", "R04", "prompt.py",
     "            if concurrent_cancel:\n                await asyncio.sleep(0)\n",
     "            if concurrent_cancel:\n                await asyncio.sleep(0)\n                if len(self._pending) > 1_000_000:\n                    break\n",
     "a send() of more than the pipes hold to a co-process that echoes megabytes", "reading stops while send() is still draining: both sides block",
     '''
import asyncio
from shellous import sh

async def main():
    async with sh("cat").prompt() as cli:
        await asyncio.wait_for(cli.send("x" * 4_000_000), 20)
        cli.close()
        await cli.read_all()

asyncio.run(main())
''')

seed("R05-end-not-in-encoding", "R05", "prompt.py",
     "            data = encode_bytes(text + end, self._encoding)",
     "            data = encode_bytes(text, self._encoding) + end.encode()",
     "an encoding in which a line end is not one ASCII byte (utf-16)", "the line end is written as a raw byte",
     '''
import asyncio
from shellous import sh

async def main():
    cmd = sh("od", "-An", "-tx1").set(encoding="utf-16-le")
    async with cmd.prompt() as cli:
        await cli.send("a")
        cli.close()
        out = await cli._runner.stdout.read()
    assert out.split() == [b"61", b"00", b"0a", b"00"], out

asyncio.run(main())
''')

seed("R05-close-one-eof", "R05", "prompt.py",
     "            stdin.write(self._runner.pty_eof * 2)",
     "            stdin.write(self._runner.pty_eof)",
     "close() on a terminal after a partial line", "the single EOF character only flushes the line; the input does not end",
     '''
import asyncio
from shellous import sh

async def main():
    async with sh("cat").set(pty=True, timeout=4).prompt() as cli:
        await cli.send("abc", end=None)
    assert cli.result.exit_code == 0 and not cli.result.cancelled, cli.result

asyncio.run(main())
''')

seed("H01-cancel-finish-forgotten", "H01", "harvest.py",
     "        await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)\n",
     "        await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish and not isinstance(ex, asyncio.CancelledError))\n",
     "cancel_finish=True and a cancellation", "the awaitable that was to be finished is cancelled",
     '''
import asyncio
from shellous.harvest import harvest

async def main():
    got = []
    async def work():
        try:
            await asyncio.sleep(0.5)
            got.append("done")
        except asyncio.CancelledError:
            got.append("cancelled")
            raise
    t = asyncio.create_task(harvest(work(), cancel_finish=True))
    await asyncio.sleep(0.1)
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        pass
    assert got == ["done"], got

asyncio.run(main())
''')

seed("P02-error-of-last", "P02", "result.py",
     "        error_bytes=key_result.error_bytes,",
     "        error_bytes=key_result.error_bytes or last.error_bytes,",
     "a failing command without error output before a command that writes to stderr", "the error output of another command is reported for the one that failed",
     '''
import asyncio
from shellous import sh

async def main():
    r = await (sh("sh", "-c", "sleep 1; exit 3") | sh("sh", "-c", "echo warn >&2; cat")).result
    assert (r.exit_code, r.error) == (3, ""), r

asyncio.run(main())
''')

seed("W01-register-first", "W01", "watcher.py",
     "        self._pidfds[pidfd] = (pid, callback, args)  # ATOMIC: self._pidfds[]\n\n        self._epoll.register(pidfd, select.EPOLLIN)\n",
     "        self._epoll.register(pidfd, select.EPOLLIN)\n        self._pidfds[pidfd] = (pid, callback, args)  # ATOMIC: self._pidfds[]\n",
     "the child has exited before it is registered and the watcher's thread runs at once", "the thread finds no entry for the pidfd and dies; exits are no longer reported",
     '''
import select, subprocess, sys, threading, time
import warnings
warnings.simplefilter("ignore")
from shellous.watcher import DefaultChildWatcher

class Epoll:
    "Let the other thread run right after a registration."
    def __init__(self):
        self.real = real()
    def register(self, *a):
        self.real.register(*a)
        time.sleep(0.05)
    def __getattr__(self, n):
        return getattr(self.real, n)
real, select.epoll = select.epoll, Epoll
w = DefaultChildWatcher()
n = 0
def cb(pid, status):
    global n
    n += 1
threading.excepthook = lambda a: None
N = 5
for i in range(N):
    p = subprocess.Popen(["true"])
    time.sleep(0.002)
    w.add_child_handler(p.pid, cb)
    p.returncode = 0
t = time.time()
while n < N and time.time() - t < 5:
    time.sleep(0.05)
import os
sys.stderr.write(f"{n} of {N}")
sys.stderr.flush()
os._exit(0 if n == N else 1)
''')

seed("W02-poll-blocks", "W02", "watcher.py",
     "        await asyncio.sleep(timeout)\n        status = wait_pid(pid)\n",
     "        await asyncio.sleep(timeout)\n        status = wait_pid(pid, block=timeout >= 1.0)\n",
     "a process that takes more than a second to die", "the event loop is blocked in waitpid",
     '''
import asyncio, subprocess, time, warnings
warnings.simplefilter("ignore")
from shellous import watcher

async def main():
    p = subprocess.Popen(["sleep", "4"])
    got = []
    t = asyncio.create_task(watcher._poll_dead_pid(p.pid, lambda *a: got.append(a), ()))
    worst = 0
    end = time.time() + 3
    while time.time() < end:
        a = time.time()
        await asyncio.sleep(0.05)
        worst = max(worst, time.time() - a)
    p.kill()
    p.returncode = 0
    t.cancel()
    assert worst < 1, worst

asyncio.run(main())
''')

seed("W02-gone-is-running", "W02", "util.py",
     "        LOGGER.warning(\"wait_pid(%r) status not found (255) ex=%r\", pid, ex)\n        return 255\n",
     "        LOGGER.warning(\"wait_pid(%r) status not found (255) ex=%r\", pid, ex)\n        return 255 if block else None\n",
     "polling for a process whose status has been collected elsewhere", "it is reported as still running for ever",
     '''
import subprocess
from shellous.util import wait_pid
p = subprocess.Popen(["true"])
p.wait()
assert wait_pid(p.pid) == 255
''')

seed("T01-stderr-follows-stdout", "T01", "runner.py",
     "        if stderr == asyncio.subprocess.STDOUT:\n            stderr = child_fd\n",
     "        if stderr == asyncio.subprocess.STDOUT and stdout == child_fd:\n            stderr = child_fd\n",
     "pty=True with stdout redirected to a file", "stderr goes to the file instead of the terminal",
     '''
import asyncio, sys, tempfile
from pathlib import Path
from shellous import sh

async def main():
    with tempfile.TemporaryDirectory() as d:
        p = Path(d, "out")
        await (sh(sys.executable, "-c", "import sys; print(sys.stderr.isatty())").set(pty=True) | p)
        assert p.read_text() == "True\\n", p.read_text()

asyncio.run(main())
''')

seed("D02-limit-zero", "D02", "runner.py",
     "            if limit is not None:\n                self.add_task(redir.copy_bytearray_limit",
     "            if limit:\n                self.add_task(redir.copy_bytearray_limit",
     "error_limit=0", "everything is stored",
     '''
import asyncio
from shellous import sh

async def main():
    r = await sh("sh", "-c", "echo abc >&2").set(error_limit=0).result
    assert r.error_bytes == b"", r

asyncio.run(main())
''')

seed("L02-cancel-timeout-is-kill-timeout", "L02", "runner.py",
     "            if self._proc.returncode is None:\n                await harvest(self._waiter(), timeout=cancel_timeout, trustee=self)\n",
     "            if self._proc.returncode is None:\n                await harvest(\n                    self._waiter(), timeout=cancel_timeout or _KILL_TIMEOUT, trustee=self\n                )\n",
     "cancel_timeout=0", "waits 3 seconds instead of none before SIGKILL",
     '''
import asyncio, sys, time
from shellous import sh

CHILD = "import signal,time; signal.signal(15, signal.SIG_IGN); print('x', flush=True); time.sleep(15)"

async def main():
    t = asyncio.create_task(sh(sys.executable, "-c", CHILD).set(cancel_timeout=0).coro())
    await asyncio.sleep(1)
    t0 = time.time()
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        pass
    assert time.time() - t0 < 2, time.time() - t0

asyncio.run(main())
''')
