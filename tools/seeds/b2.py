S = []


def seed(id, property, file, old, new, needs, breaks, demo):
    S.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo))


seed("L01-io-error-while-stopping", "L01", "runner.py",
     "            LOGGER.warning(\"Runner.kill %r ex=%r\", self, ex)\n            await self._kill_wait()\n            raise",
     "            LOGGER.warning(\"Runner.kill %r ex=%r\", self, ex)\n            if self._last_signal is None:\n                await self._kill_wait()\n            raise",
     "a background output task that raises while the child, which ignores cancel_signal, is being stopped",
     "the child is left running after the command's error was raised",
     '''
import asyncio, io, os, sys, time
from shellous import sh

CHILD = """
import os, signal, sys, time
def h(*_):
    os.write(1, bytes([255]))
    os.close(1)
signal.signal(15, h)
os.write(2, str(os.getpid()).encode() + bytes([10]))
end = time.time() + 15
while time.time() < end:
    time.sleep(0.1)
"""

async def main():
    buf = io.StringIO()
    cmd = sh(sys.executable, "-c", CHILD).stdout(buf).stderr(sh.CAPTURE).set(cancel_timeout=1.0)
    pid = None
    try:
        async with cmd as run:
            pid = int(await run.stderr.readline())
            raise KeyError("body")
    except (KeyError, UnicodeDecodeError):
        pass
    try:
        os.kill(pid, 0)
    except ProcessLookupError:
        return
    os.kill(pid, 9)
    raise AssertionError("the child was left running")

asyncio.run(main())
''')

seed("L04-cancel-keeps-timer", "L04", "runner.py",
     "        self._cancelled = True\n        self._stop_timer()\n",
     "        self._cancelled = True\n",
     "a cancelled command whose child takes longer to stop than the rest of its timeout",
     "the timer stays armed while a cancelled command is being stopped; it fires and cancels the task a second time, turning the cancellation into a TimeoutError",
     '''
import asyncio, sys
from shellous import sh

CHILD = "import signal,time; signal.signal(15, signal.SIG_IGN); print('x', flush=True); time.sleep(15)"

async def main():
    async def run():
        async with sh(sys.executable, "-c", CHILD).set(timeout=1.5, cancel_timeout=1.5):
            await asyncio.sleep(60)
    t = asyncio.create_task(run())
    await asyncio.sleep(1.0)
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        return
    except asyncio.TimeoutError:
        raise AssertionError("cancellation reported as a timeout")

asyncio.run(main())
''')

seed("L06-signal-after-clean-exit", "L06", "runner.py",
     "        \"Send an arbitrary signal to the process if it is running.\"\n        if self.returncode is None:",
     "        \"Send an arbitrary signal to the process if it is running.\"\n        if not self.returncode:",
     "send_signal() after the child exited with status 0", "the exited process is signalled (a signal event is emitted for it)",
     '''
import asyncio
from shellous import sh

async def main():
    ev = []
    async with sh("true").set(audit_callback=lambda phase, info: ev.append(phase)) as run:
        pass
    run.send_signal(15)
    assert ev == ["start", "stop"], ev

asyncio.run(main())
''')

seed("F01-leak-on-other-error", "F01", "runner.py",
     "        except Exception as ex:\n            if LOG_DETAIL:\n                LOGGER.debug(\"_RunOptions.enter",
     "        except OSError as ex:\n            if LOG_DETAIL:\n                LOGGER.debug(\"_RunOptions.enter",
     "stdout redirected to a file and an unsupported type for stderr", "the opened file stays open when setting up a later redirection raises something other than OSError",
     '''
import asyncio, os, gc, tempfile, warnings
from pathlib import Path
from shellous import sh

async def main():
    with tempfile.TemporaryDirectory() as d:
        warnings.simplefilter("ignore")
        p = Path(d, "out")
        keep = None
        try:
            await sh("true").stdout(p).stderr(object())
        except TypeError as ex:
            keep = ex    # the traceback keeps the file object alive
        names = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                names.append(os.readlink("/proc/self/fd/" + fd))
            except OSError:
                pass
        assert str(p) not in names, "file left open"

asyncio.run(main())
''')

seed("F03-leak-on-second-pipe", "F03", "runner.py",
     "        for i in range(cmd_count - 1):\n            (read_fd, write_fd) = os.pipe()\n            open_fds.extend((read_fd, write_fd))\n\n",
     "        pipes = [os.pipe() for _ in range(cmd_count - 1)]\n        for i, (read_fd, write_fd) in enumerate(pipes):\n            open_fds.extend((read_fd, write_fd))\n\n",
     "a pipeline of three or more commands with only a few descriptors left", "the pipes already made are leaked when a later os.pipe() fails",
     '''
import asyncio, os, resource
from shellous import sh

def count():
    return len(os.listdir("/proc/self/fd"))

async def main():
    n = count()
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    top = max(int(x) for x in os.listdir("/proc/self/fd"))
    resource.setrlimit(resource.RLIMIT_NOFILE, (top + 4, hard))
    free = 0
    held = []
    try:
        while True:
            held.append(os.dup(0))
    except OSError:
        pass
    for fd in held[-3:]:
        os.close(fd)
    del held[-3:]
    try:
        await (sh("true") | sh("true") | sh("true") | sh("true"))
    except OSError:
        pass
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        for fd in held:
            os.close(fd)
    assert count() == n, (count(), n)

asyncio.run(main())
''')

seed("F04-same-command-twice", "F04", "runner.py",
     ["        new_fds: list[int] = []\n",
      "                new_args.append(arg)\n                continue\n\n            (read_fd, write_fd) = os.pipe()\n",
      "            self.subcmds.append(subcmd)\n\n        # We"],
     ["        new_fds: list[int] = []\n        paths: dict[int, Any] = {}\n",
      "                new_args.append(arg)\n                continue\n\n            if id(arg) in paths:\n                new_args.append(paths[id(arg)])\n                continue\n\n            (read_fd, write_fd) = os.pipe()\n",
      "            self.subcmds.append(subcmd)\n            paths[id(arg)] = new_args[-1]\n\n        # We"],
     "the same Command object given twice as an argument", "both arguments name the same pipe and the command is started only once",
     '''
import asyncio
from shellous import sh

async def main():
    e = sh("echo", "abc")
    out = await sh("cat", e, e)
    assert out == "abc\\nabc\\n", out

asyncio.run(main())
''')

seed("L03-timeout-ignored-if-code-allowed", "L03", "runner.py",
     "            self._cancelled\n            and self._timed_out\n",
     "            self._cancelled\n            and self._timed_out\n            and self.returncode != 0\n",
     "a child that catches the cancel signal and exits 0 when its timeout expires", "a timeout is reported as CancelledError",
     '''
import asyncio, sys
from shellous import sh

CHILD = "import signal,time,sys; signal.signal(15, lambda *_: sys.exit(0)); print('x', flush=True); time.sleep(15)"

async def main():
    try:
        await sh(sys.executable, "-c", CHILD).set(timeout=1.5)
    except asyncio.TimeoutError:
        return
    except asyncio.CancelledError:
        raise AssertionError("timeout reported as cancellation")
    raise AssertionError("no error")

asyncio.run(main())
''')

seed("P01-stop-only-pending-readers", "P01", "runner.py",
     "            for task in self._tasks:\n                task.cancel()\n\n        cancelled,",
     "            for task in self._tasks[:-1]:\n                task.cancel()\n\n        cancelled,",
     "an exception in the block of a captured pipeline whose last command does not stop by itself", "the last command is not cancelled and the exit waits for it",
     '''
import asyncio, sys, time
from shellous import sh

async def main():
    p = sh("echo", "x") | sh(sys.executable, "-c", "import time; time.sleep(12)")
    t = time.time()
    try:
        async with p.stdout(sh.CAPTURE) as run:
            await asyncio.sleep(1)   # the first command is done by now
            raise KeyError
    except KeyError:
        pass
    assert time.time() - t < 8

asyncio.run(main())
''')

seed("D01-logger-skips-partial-line", "D01", "redirect.py",
     "    async for line in source:\n        data = decode_bytes(line, encoding)\n        dest.error(data.rstrip())\n",
     "    async for line in source:\n        if not line.endswith(b\"\\n\"):\n            break\n        data = decode_bytes(line, encoding)\n        dest.error(data.rstrip())\n",
     "output redirected to a Logger that does not end with a newline", "the last, unterminated line is lost",
     '''
import asyncio, logging
from shellous import sh

async def main():
    got = []
    class H(logging.Handler):
        def emit(self, r):
            got.append(r.getMessage())
    log = logging.getLogger("demo")
    log.addHandler(H())
    log.propagate = False
    await sh("printf", "a\\\\nb").stdout(log)
    assert got == ["a", "b"], got

asyncio.run(main())
''')

seed("D01-short-read-is-last", "D01", "redirect.py",
     "    \"Copy bytes from source stream to dest bytearray.\"\n    # Collect partial reads into a bytearray.\n    while True:\n        data = await source.read(_CHUNK_SIZE)\n        if not data:\n            break\n        dest.extend(data)\n",
     "    \"Copy bytes from source stream to dest bytearray.\"\n    # Collect partial reads into a bytearray.\n    while True:\n        data = await source.read(_CHUNK_SIZE)\n        if not data:\n            break\n        if data != dest[-len(data):] or len(data) < _CHUNK_SIZE:\n            dest.extend(data)\n",
     "two identical full 8192-byte chunks in a row", "repeated data is dropped",
     '''
import asyncio, sys
from shellous import sh

async def main():
    r = await sh(sys.executable, "-c", "import sys; sys.stdout.write('A' * 500000)").result
    assert len(r.output_bytes) == 500000, len(r.output_bytes)

asyncio.run(main())
''')

seed("D05-append-after-seek", "D05", "runner.py",
     "            if append:\n                output.seek(0, io.SEEK_END)\n",
     "            if append:\n                output.seek(0, io.SEEK_CUR)\n",
     ">> to a StringIO/BytesIO/file whose position is not at its end", "existing content is overwritten instead of appended to",
     '''
import asyncio, io
from shellous import sh

async def main():
    b = io.BytesIO(b"0123456789")
    await (sh("echo", "x") >> b)
    assert b.getvalue() == b"0123456789x\\n", b.getvalue()

asyncio.run(main())
''')

seed("D05-truncate-keeps-position", "D05", "runner.py",
     "                output.truncate(0)\n                output.seek(0, io.SEEK_SET)\n",
     "                output.truncate(0)\n",
     "| to a BytesIO whose position is not zero", "the new content is preceded by zero bytes",
     '''
import asyncio, io
from shellous import sh

async def main():
    b = io.BytesIO()
    b.write(b"0123456789")
    await (sh("echo", "x") | b)
    assert b.getvalue() == b"x\\n", b.getvalue()

asyncio.run(main())
''')

seed("D06-stringio-strict", "D06", "redirect.py",
     "    async for line in source:\n        yield decode_bytes(line, encoding)\n",
     "    async for line in source:\n        yield line.decode(encoding.split(maxsplit=1)[0])\n",
     "iterating over output that is not valid in the configured encoding, with an error handler configured", "the error handler is ignored when iterating over lines",
     '''
import asyncio, sys
from shellous import sh

async def main():
    cmd = sh(sys.executable, "-c", "import os; os.write(1, bytes([97, 255, 10]))").set(encoding="utf-8 replace")
    got = [x async for x in cmd]
    assert got == ["a\\ufffd\\n"], got

asyncio.run(main())
''')

seed("D06-decode-per-chunk", "D06", "redirect.py",
     ["    # Collect partial reads into a BytesIO.\n    buf = io.BytesIO()\n    try:\n        while True:\n            data = await source.read(_CHUNK_SIZE)\n            if not data:\n                break\n            buf.write(data)\n    finally:\n        # Only convert to string once all output is collected.\n        # (What if utf-8 code point is split between reads?)\n        dest.write(decode_bytes(buf.getvalue(), encoding))\n"],
     ["    # Hold back an incomplete character at the end of a read.\n    rest = b\"\"\n    while True:\n        data = await source.read(_CHUNK_SIZE)\n        if not data:\n            break\n        data = rest + data\n        try:\n            dest.write(decode_bytes(data, encoding))\n            rest = b\"\"\n        except UnicodeDecodeError:\n            rest = data\n    if rest:\n        dest.write(decode_bytes(rest, encoding))\n"],
     "an error handler such as replace and a multi-byte character split across two reads", "the split character is corrupted",
     '''
import asyncio, io, sys
from shellous import sh

async def main():
    b = io.StringIO()
    s = "import os,time; os.write(1, bytes([0xc3])); time.sleep(0.4); os.write(1, bytes([0xa9]))"
    await sh(sys.executable, "-c", s).set(encoding="utf-8 replace").stdout(b)
    assert b.getvalue() == "\\xe9", ascii(b.getvalue())

asyncio.run(main())
''')
