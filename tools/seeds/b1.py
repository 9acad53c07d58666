S = []


def seed(id, property, file, old, new, needs, breaks, demo):
    S.append(dict(id=id, property=property, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo))


seed("L02-body-error-wait", "L02", "runner.py",
     "                await harvest(*self._tasks, timeout=cancel_timeout, trustee=self)",
     "                await harvest(*self._tasks, trustee=self)",
     "an exception in the body of `async with` while the child ignores cancel_signal",
     "the wait after cancel_signal has no limit when background tasks exist, so SIGKILL is never sent",
     '''
import asyncio, sys, time
from shellous import sh

async def main():
    cmd = sh(sys.executable, "-c", "import signal,time,sys; signal.signal(15, signal.SIG_IGN); print('x', flush=True); time.sleep(20)")
    cmd = cmd.set(cancel_timeout=0.3).stdout(sh.CAPTURE)
    t = time.time()
    try:
        async with cmd as run:
            await run.stdout.readline()
            raise KeyError("body")
    except KeyError:
        pass
    assert time.time() - t < 6, "stopping the child was not bounded"

asyncio.run(main())
''')

seed("L04-timeout-zero", "L04", "runner.py",
     "        if timeout is not None:\n            loop = asyncio.get_running_loop()",
     "        if timeout:\n            loop = asyncio.get_running_loop()",
     "timeout=0", "no timer is armed for a configured timeout of zero seconds",
     '''
import asyncio
from shellous import sh

async def main():
    try:
        await sh("sleep", "1").set(timeout=0)
    except asyncio.TimeoutError:
        return
    raise AssertionError("no TimeoutError")

asyncio.run(main())
''')

seed("L05-no-stop-on-cancel", "L05", "runner.py",
     "        except BaseException as ex:\n            self._stop_timer()  # failsafe just in case\n            self._audit_callback(\"stop\", failure=type(ex).__name__)",
     "        except Exception as ex:\n            self._stop_timer()  # failsafe just in case\n            self._audit_callback(\"stop\", failure=type(ex).__name__)",
     "cancellation arriving during the launch", "a cancelled launch emits no stop event",
     '''
import asyncio
from shellous import sh

async def main():
    ev = []
    cmd = sh("sleep", "5").set(audit_callback=lambda phase, info: ev.append(phase))
    t = asyncio.create_task(cmd.coro())
    await asyncio.sleep(0)
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        pass
    assert ev.count("start") == 1 and ev.count("stop") == 1 and ev[-1] == "stop", ev

asyncio.run(main())
''')

seed("H01-partial-timeout", "H01", "harvest.py",
     '''        elif pending:
            # No tasks in `done` finished with an exception.
            time_expired = not any(
                task.exception() for task in done if not task.cancelled()
            )
''',
     '''        elif pending:
            # No tasks in `done` finished with an exception.
            time_expired = not any(
                task.cancelled() or task.exception() for task in done
            )
''',
     "a timeout while one of the awaitables has already been cancelled on its own",
     "harvest returns normally although the timeout expired and other awaitables were cancelled",
     '''
import asyncio
from shellous.harvest import harvest

async def gone():
    raise asyncio.CancelledError()

async def main():
    try:
        await harvest(gone(), asyncio.sleep(5), timeout=0.1)
    except asyncio.TimeoutError:
        return
    raise AssertionError("timeout not reported")

asyncio.run(main())
''')

seed("D02-limit-per-chunk", "D02", "redirect.py",
     '''        dest.extend(data)
        if len(dest) > limit:
            del dest[limit:]
            break
''',
     '''        dest.extend(data[:limit])
        if len(dest) >= limit:
            break
''',
     "stderr arriving in several pieces whose sum passes the limit inside a later piece",
     "more than error_limit bytes are kept",
     '''
import asyncio, sys
from shellous import sh

async def main():
    code = "import sys,time; sys.stderr.write('a'*6); sys.stderr.flush(); time.sleep(0.5); sys.stderr.write('b'*8); sys.stderr.flush()"
    r = await sh(sys.executable, "-c", code).stdout(sh.DEVNULL).set(error_limit=10, _return_result=True)
    assert r.error_bytes == b"a" * 6 + b"b" * 4, r.error_bytes

asyncio.run(main())
''')

seed("D03-eof-newline-inside", "D03", "redirect.py",
     "            ends_with_newline = data.endswith(b\"\\n\")\n",
     "            ends_with_newline = b\"\\n\" in data\n",
     "a StreamReader as stdin of a canonical pty whose last chunk holds a newline but ends with a partial line",
     "only one EOF character is sent, so the child gets the partial line but never the end of its input",
     '''
import asyncio
from shellous import redirect

class W:
    def __init__(self): self.got = []
    def write(self, d): self.got.append(d)
    async def drain(self): pass
    def is_closing(self): return False

class R:
    def __init__(self): self.d = [b"line\\npartial", b""]
    async def read(self, n): return self.d.pop(0)

async def main():
    w = W()
    await redirect.write_reader(R(), w, b"\\x04")
    assert b"".join(w.got) == b"line\\npartial\\x04\\x04", w.got

asyncio.run(main())
''')

seed("T01-any-oserror-eof", "T01", "pty_util.py",
     "        if isinstance(exc, OSError) and exc.errno == errno.EIO:\n            exc = None",
     "        if isinstance(exc, OSError):\n            exc = None",
     "a read error other than EIO on the terminal", "the error is reported as end of file",
     '''
import asyncio, errno
from shellous import pty_util

async def main():
    loop = asyncio.get_running_loop()
    r = asyncio.StreamReader(loop=loop)
    p = pty_util.PtyStreamReaderProtocol(r, loop=loop)
    p.connection_lost(OSError(errno.EBADF, "bad"))
    try:
        await asyncio.wait_for(r.read(), 2)
    except OSError:
        return
    raise AssertionError("error hidden")

asyncio.run(main())
''')

seed("P02-signal-not-failure", "P02", "result.py",
     "        if (not acc.cancelled, acc.exit_code != 0) == (True, True):",
     "        if (not acc.cancelled, acc.exit_code > 0) == (True, True):",
     "a first command killed by a signal followed by another failing command",
     "the pipeline reports a later failure instead of the first",
     '''
import asyncio
from shellous.result import Result, ResultError, convert_result_list

def r(code, err):
    return Result(exit_code=code, output_bytes=b"", error_bytes=err, cancelled=False, encoding="utf-8")

res = convert_result_list([ResultError(r(-9, b"first")), ResultError(r(3, b"second"))], False)
assert (res.exit_code, res.error_bytes) == (-9, b"first"), res
''')

seed("P03-pipe-stderr-append", "P03", "pipeline.py",
     "        new_last = self.commands[-1].stderr(error, append=append, close=close)",
     "        new_last = self.commands[-1].stderr(error, append=append)",
     "a pipeline's stderr redirected to a descriptor with close=True", "the close request is dropped on the last command",
     '''
import os
from shellous import sh

p = sh("a") | sh("b")
q = p.stderr(7, append=True, close=True)
assert q.options.error_close is True and q.options.error_append is True
assert q[0] == p[0]
''')
