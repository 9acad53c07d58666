From d68e6350956c6258ebed16298d53042a5fb02320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 01/17] fix: finish waiting for a killed process when cancelled
 again

A second cancellation arriving after SIGKILL was sent interrupted the wait
for the process. The command then ended with the child process not waited
for, and `Runner.result()` raised TypeError.
---
 shellous/runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0d74355..9ed9563 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -613,7 +613,10 @@ class Runner:
 
         try:
             self._signal(None)
-            await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            # Finish waiting for the process, even if we are cancelled again.
+            await uninterrupted(
+                harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            )
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
-- 
2.43.0


From 48ae91661b6fb608b644a3105d8dd692c87e10e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 02/17] fix: do not lose a cancellation that arrives during
 harvest's clean-up

When harvest_wait was already cancelling tasks because of a timeout or an
exception, a cancellation of the caller was swallowed by _cancel_wait's
retry, and the caller continued as if it had never been cancelled.
---
 shellous/harvest.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 0e71288..c30ea1e 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -144,7 +144,11 @@ async def harvest_wait(
         raise
 
     if pending:
-        await _cancel_wait(pending, trustee, cancel_timeout)
+        try:
+            await _cancel_wait(pending, trustee, cancel_timeout)
+        except asyncio.CancelledError:
+            _consume_exceptions(task for task in tasks if task.done())
+            raise
 
     assert all(task.done() for task in tasks)
 
@@ -174,6 +178,8 @@ async def _cancel_wait(
         # Retry once if _cancel_wait is itself cancelled.
         LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
         await _cancel_waiter(tasks, trustee, cancel_timeout)
+        _consume_exceptions(tasks)
+        raise
 
 
 async def _cancel_waiter(
-- 
2.43.0


From ca4460a22b574ffc475538a6549a181c1cd56fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 03/17] fix: close every descriptor when setting up a command
 fails

When setting up redirections failed (program not found, a file that cannot be
opened, a failing os.pipe), the pipes made for process substitution and
files already opened were leaked. The stdin of a pipeline used for
process substitution was leaked as well when the main program failed to
launch, because only the options of its last command were looked at.
---
 shellous/runner.py | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 9ed9563..b49892d 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -121,7 +121,11 @@ class _RunOptions:
         except Exception as ex:
             if LOG_DETAIL:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
-            _cleanup(self.command)
+            # Close whatever has been opened so far, along with file descriptors
+            # that the command was supposed to close.
+            _cleanup(self.command, self.open_fds)
+            for subcmd in self.subcmds:
+                _cleanup(subcmd)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -165,19 +169,20 @@ class _RunOptions:
             if _is_writable(arg):
                 new_args.append(f"/dev/fd/{write_fd}")
                 new_fds.append(write_fd)
+                self.open_fds.append(write_fd)
                 subcmd = arg.stdin(read_fd, close=True)
             else:
                 new_args.append(f"/dev/fd/{read_fd}")
                 new_fds.append(read_fd)
+                self.open_fds.append(read_fd)
                 subcmd = arg.stdout(write_fd, close=True)
 
             self.subcmds.append(subcmd)
 
-        # We need to include `new_fds` in our `pass_fds` list. We also need
-        # to close them after process launch.
+        # We need to include `new_fds` in our `pass_fds` list. They are already
+        # in `open_fds`, because we need to close them after process launch.
         self.kwd_args["pass_fds"] = new_fds
         self.kwd_args["close_fds"] = True
-        self.open_fds.extend(new_fds)
 
         if BSD_DERIVED:
             verify_dev_fd(new_fds[0])
@@ -1258,22 +1263,34 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
     return output == Redirect.CAPTURE and error == Redirect.CAPTURE
 
 
-def _cleanup(command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
-    "Close remaining file descriptors that need to be closed."
+def _cleanup(
+    command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    open_fds: Optional[list[Any]] = None,
+):
+    """Close remaining file descriptors that need to be closed.
+
+    Also closes everything in `open_fds`, if specified.
+    """
+    if open_fds is None:
+        open_fds = []
 
     def _add_close(close: bool, fdesc: Any):
         if close:
-            if isinstance(fdesc, (int, io.IOBase)):
+            if isinstance(fdesc, (int, io.IOBase)) and fdesc not in open_fds:
                 open_fds.append(fdesc)
 
-    open_fds: list[Any] = []
+    if isinstance(command, shellous.Pipeline):
+        commands = command.commands
+    else:
+        commands = (command,)
 
-    _add_close(command.options.input_close, command.options.input)
-    _add_close(command.options.output_close, command.options.output)
-    _add_close(command.options.error_close, command.options.error)
+    for cmd in commands:
+        _add_close(cmd.options.input_close, cmd.options.input)
+        _add_close(cmd.options.output_close, cmd.options.output)
+        _add_close(cmd.options.error_close, cmd.options.error)
 
-    if command.options.pass_fds_close:
-        open_fds.extend(command.options.pass_fds)
+        for fdesc in cmd.options.pass_fds:
+            _add_close(cmd.options.pass_fds_close, fdesc)
 
     close_fds(open_fds)
 
-- 
2.43.0


From 7cb9b99634775def862d77ea90a2bb67212857cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 04/17] fix: release the pty descriptors when opening or
 starting a pty command fails

---
 shellous/pty_util.py | 25 +++++++++++++++----------
 shellous/runner.py   | 18 ++++++++++++++----
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index b3413d0..61b01fd 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -82,16 +82,21 @@ def open_pty(pty_func: PtyAdapterOrBool) -> PtyFds:
     "Open pseudo-terminal (pty) descriptors. Returns (PtyFds, child_fd)."
     parent_fd, child_fd = pty.openpty()
 
-    # If pty_func is a callable, call it here with `child_fd` as argument. This
-    # gives the client an opportunity to configure the tty.
-    if callable(pty_func):
-        pty_func(child_fd)
-
-    return PtyFds(
-        parent_fd,
-        ChildFd(child_fd),
-        _get_eof(child_fd),
-    )
+    try:
+        # If pty_func is a callable, call it here with `child_fd` as argument. This
+        # gives the client an opportunity to configure the tty.
+        if callable(pty_func):
+            pty_func(child_fd)
+
+        return PtyFds(
+            parent_fd,
+            ChildFd(child_fd),
+            _get_eof(child_fd),
+        )
+
+    except BaseException:
+        close_fds([parent_fd, child_fd])
+        raise
 
 
 def set_ctty(ttypath: str) -> None:
diff --git a/shellous/runner.py b/shellous/runner.py
index b49892d..f62d7b6 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -149,6 +149,11 @@ class _RunOptions:
             for subcmd in self.subcmds:
                 _cleanup(subcmd)
 
+    async def open_pty_streams(self):
+        "Open the pty streams and update `self.pty_fds`."
+        assert self.pty_fds is not None
+        self.pty_fds = await self.pty_fds.open_streams()
+
     def _setup_process_substitution(self) -> list[Union[str, bytes, os.PathLike[Any]]]:
         """Set up process substitution.
 
@@ -698,8 +703,13 @@ class Runner:
             LOGGER.debug("Runner._start %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._set_cancelled()
-            if self._proc:
-                await self._kill()
+            try:
+                if self._proc:
+                    await self._kill()
+            finally:
+                # There will be no `_close`, because we failed to start.
+                if self._options.pty_fds:
+                    self._options.pty_fds.close()
             raise
 
         # Make final streams available. These may be different from `self.proc`
@@ -722,9 +732,9 @@ class Runner:
         "Start the subprocess."
         assert self._proc is None
 
-        # Second half of pty setup.
+        # Second half of pty setup (always completes even if cancelled).
         if opts.pty_fds:
-            opts.pty_fds = await opts.pty_fds.open_streams()
+            await uninterrupted(opts.open_pty_streams())
 
         # Check for task cancellation and yield right before exec'ing. If the
         # current task is already cancelled, this will raise a CancelledError,
-- 
2.43.0


From fc7c40882cfbbabff9e5af3b74315110b976edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 05/17] fix: report a failed launch to a captured pipeline and
 leave its pipes to their owners

---
 shellous/runner.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index f62d7b6..75134af 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -995,10 +995,20 @@ class Runner:
             _cleanup(command)
             raise ValueError("multiple capture requires 'async with'")
 
-        async with Runner(command) as run:
-            if _run_future is not None:
-                # Return streams to caller in another task.
-                _run_future.set_result(run)
+        try:
+            async with Runner(command) as run:
+                if _run_future is not None:
+                    # Return streams to caller in another task.
+                    _run_future.set_result(run)
+
+        except BaseException as ex:
+            # Caller in another task is waiting; report that we never got ready.
+            if _run_future is not None and not _run_future.done():
+                if _is_cancelled(ex):
+                    _run_future.cancel()
+                else:
+                    _run_future.set_exception(ex)
+            raise
 
         result = run.result()
         if command.options._return_result:
@@ -1158,7 +1168,7 @@ class PipeRunner:
             cmds = self._setup_pipeline(open_fds)
 
             if self._capturing:
-                stdin, stdout, stderr = await self._setup_capturing(cmds)
+                stdin, stdout, stderr = await self._setup_capturing(cmds, open_fds)
             else:
                 for cmd in cmds:
                     self.add_task(cmd.coro())
@@ -1196,7 +1206,11 @@ class PipeRunner:
         return cmds
 
     @log_method(LOG_DETAIL)
-    async def _setup_capturing(self, cmds: "list[shellous.Command[Any]]"):
+    async def _setup_capturing(
+        self,
+        cmds: "list[shellous.Command[Any]]",
+        open_fds: list[int],
+    ):
         """Set up capturing and return (stdin, stdout, stderr) streams."""
         loop = asyncio.get_event_loop()
         first_fut = loop.create_future()
@@ -1212,6 +1226,9 @@ class PipeRunner:
             self.add_task(coro, str(i + 1))
         self.add_task(last_coro, str(len(cmds) - 1))
 
+        # The tasks now own the pipe fd's; closing them here would close them twice.
+        open_fds.clear()
+
         # When capturing, we need the first and last commands in the
         # pipe to signal when they are ready.
         first_ready, last_ready = await asyncio.gather(first_fut, last_fut)
-- 
2.43.0


From 687d4f8e6b3b500f4715575dd86fb008407be40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 06/17] fix: close the descriptors of process substitutions
 that were never set up

---
 shellous/runner.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 75134af..e5a2f8a 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -124,7 +124,8 @@ class _RunOptions:
             # Close whatever has been opened so far, along with file descriptors
             # that the command was supposed to close.
             _cleanup(self.command, self.open_fds)
-            for subcmd in self.subcmds:
+            pending = _process_substitutions(self.command)[len(self.subcmds) :]
+            for subcmd in self.subcmds + pending:
                 _cleanup(subcmd)
             raise
 
@@ -1276,11 +1277,20 @@ class PipeRunner:
         return result.output
 
 
+def _process_substitutions(
+    cmd: "shellous.Command[Any]",
+) -> "list[Union[shellous.Command[Any], shellous.Pipeline[Any]]]":
+    "Return list of command's arguments that use process substitution."
+    return [
+        arg
+        for arg in cmd.args
+        if isinstance(arg, (shellous.Command, shellous.Pipeline))
+    ]
+
+
 def _uses_process_substitution(cmd: "shellous.Command[Any]") -> bool:
     "Return True if command uses process substitution."
-    return any(
-        isinstance(arg, (shellous.Command, shellous.Pipeline)) for arg in cmd.args
-    )
+    return bool(_process_substitutions(cmd))
 
 
 def _is_multiple_capture(cmd: "shellous.Command[Any]"):
-- 
2.43.0


From 4ef83c43090afdf48877277d476f49e9ceb40f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 07/17] fix: raise the error of a pipeline that failed before
 starting any command

---
 shellous/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index e5a2f8a..4362a48 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1124,7 +1124,8 @@ class PipeRunner:
             LOGGER.warning("PipeRunner enter %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._cancelled = True
-            await self._wait(kill=True)
+            if self._tasks:  # no task was started, if opening a pipe failed
+                await self._wait(kill=True)
             raise
 
     @log_method(LOG_DETAIL)
-- 
2.43.0


From 7266fae3aab105a92c0d5f59d565a0335e25ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 08/17] fix: accept an open file as standard input

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 4362a48..c65379b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -296,6 +296,9 @@ class _RunOptions:
             # Shellous-supported input classes.
             assert stdin == asyncio.subprocess.PIPE
             assert input_bytes is None
+        elif isinstance(input_, io.IOBase):
+            # Client-managed File-like object.
+            stdin = input_
         else:
             raise TypeError(f"unsupported input type: {input_!r}")
 
-- 
2.43.0


From 2e888ffaadb00280e9d7bbe6a242bd0dff003f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 09/17] fix: close file descriptors when iteration rejects
 multiple capture

---
 shellous/redirect.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shellous/redirect.py b/shellous/redirect.py
index b41d6c7..2d85c53 100644
--- a/shellous/redirect.py
+++ b/shellous/redirect.py
@@ -305,6 +305,13 @@ def aiter_preflight(cmd: _CT) -> _CT:
         result.options.output == Redirect.CAPTURE
         and result.options.error == Redirect.CAPTURE
     ):
+        # Close file descriptors that the command was supposed to close.
+        # pylint: disable-next=import-outside-toplevel
+        from shellous.runner import (
+            _cleanup,  # pyright: ignore[reportPrivateUsage]
+        )
+
+        _cleanup(cmd)
         raise RuntimeError("multiple capture not supported in iterator")
 
     return result
-- 
2.43.0


From 46f0dce926995d182337a0991501be4f405b12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:02 +0000
Subject: [PATCH 10/17] fix: equal environments hash equally, whatever the
 order of their variables

---
 shellous/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index e3e23b3..8d1f766 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -208,7 +208,8 @@ class EnvironmentDict(abc.Mapping[str, str]):
         return iter(self._data)
 
     def __hash__(self) -> int:
-        return hash(tuple((key, value) for key, value in self._data.items()))
+        # Equal environments may hold their variables in a different order.
+        return hash(frozenset(self._data.items()))
 
     def __eq__(self, rhs: object) -> bool:
         if isinstance(rhs, dict):
-- 
2.43.0


From 21592ef0249249a4278402f896100b3a3bff9dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:46 +0000
Subject: [PATCH 11/17] fix: Prompt.expect() keeps the matched text pending
 when it is cancelled just after a match

---
 shellous/prompt.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 21e45af..d4435e1 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -327,7 +327,7 @@ class Prompt:
         if isinstance(result, Exception):
             raise result
 
-        return result
+        return self._take_match(result)
 
     async def read_all(
         self,
@@ -426,10 +426,11 @@ class Prompt:
     async def _read_to_pattern(
         self,
         pattern: re.Pattern[str],
-    ) -> tuple[str, re.Match[str]]:
-        """Read text up to part that matches the pattern.
+    ) -> re.Match[str]:
+        """Read text into `pending` buffer until it matches the pattern.
 
-        Returns 2-tuple with (text, match).
+        Returns the match. The matching text is left in the `pending` buffer,
+        so that nothing is lost if `expect()` is cancelled.
         """
         stdout = self._runner.stdout
         assert stdout is not None
@@ -461,9 +462,9 @@ class Prompt:
                 continue
             self._pending += data
 
-            result = self._search_pending(pattern)
-            if result is not None:
-                return result
+            found = pattern.search(self._pending)
+            if found:
+                return found
 
             assert self._at_eof or len(self._pending) > _prev_len  # debug check
 
@@ -481,19 +482,23 @@ class Prompt:
         """
         found = pattern.search(self._pending)
         if found:
-            result = self._pending[0 : found.start(0)]
-            self._pending = self._pending[found.end(0) :]
-            if LOG_PROMPT:
-                LOGGER.info(
-                    "Prompt[pid=%s] found: %r [%s CHARS PENDING]",
-                    self._runner.pid,
-                    found,
-                    len(self._pending),
-                )
-            return (result, found)
+            return self._take_match(found)
 
         return None
 
+    def _take_match(self, found: re.Match[str]) -> tuple[str, re.Match[str]]:
+        "Remove the text up to the end of the match from our `pending` buffer."
+        result = self._pending[0 : found.start(0)]
+        self._pending = self._pending[found.end(0) :]
+        if LOG_PROMPT:
+            LOGGER.info(
+                "Prompt[pid=%s] found: %r [%s CHARS PENDING]",
+                self._runner.pid,
+                found,
+                len(self._pending),
+            )
+        return (result, found)
+
     async def _drain(self, stream: asyncio.StreamWriter) -> None:
         "Drain stream while reading into buffer concurrently."
         read_task = asyncio.create_task(
-- 
2.43.0


From 05e77e0ad1929fa2a8e289a5dba3e55f2483ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:46 +0000
Subject: [PATCH 12/17] fix: an explicit Prompt timeout of 0 is not replaced by
 the default timeout

---
 shellous/prompt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index d4435e1..1516368 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -197,7 +197,7 @@ class Prompt:
         # Drain our write to stdin.
         cancelled, ex = await harvest_results(
             self._drain(stdin),
-            timeout=timeout or self._default_timeout,
+            timeout=self._get_timeout(timeout),
         )
         if cancelled:
             raise asyncio.CancelledError()
@@ -320,7 +320,7 @@ class Prompt:
 
         cancelled, (result,) = await harvest_results(
             self._read_to_pattern(prompt),
-            timeout=timeout or self._default_timeout,
+            timeout=self._get_timeout(timeout),
         )
         if cancelled:
             raise asyncio.CancelledError()
@@ -341,7 +341,7 @@ class Prompt:
         if not self._at_eof:
             cancelled, (result,) = await harvest_results(
                 self._read_some(tag="@read_all"),
-                timeout=timeout or self._default_timeout,
+                timeout=self._get_timeout(timeout),
             )
             if cancelled:
                 raise asyncio.CancelledError()
@@ -423,6 +423,10 @@ class Prompt:
                 self._result,
             )
 
+    def _get_timeout(self, timeout: Optional[float]) -> Optional[float]:
+        "Return the timeout to use; an explicit timeout of 0 is not the default."
+        return self._default_timeout if timeout is None else timeout
+
     async def _read_to_pattern(
         self,
         pattern: re.Pattern[str],
-- 
2.43.0


From 7b7f174fb85212ec13e6ea6756f5df7a24c5ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 13/17] fix: Prompt.send() reports an error in reading the
 output concurrently

---
 shellous/prompt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 1516368..a082b58 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -514,7 +514,8 @@ class Prompt:
         finally:
             if not read_task.done():
                 read_task.cancel()
-                await read_task
+            # Always await the task, so that a read error isn't lost.
+            await read_task
 
     async def _read_some(
         self,
-- 
2.43.0


From 59b89a2e96887efc6f9f65b653093f5b5f0b22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 14/17] fix: EPollStrategy closes its self-pipe if it cannot
 start

---
 shellous/watcher.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index 36f3cf6..49ba0f6 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -267,14 +267,20 @@ class EPollStrategy(ChildStrategy):
         self._pidfds = {}  # pidfd -> (pid, callback, args)
         self._epoll = select.epoll()
         self._selfpipe = os.pipe()
-        self._epoll.register(self._selfpipe[0], select.EPOLLIN)
         self._tasks = _TaskSet()
         self._thread = threading.Thread(
             target=self._run,
             name="EPollStrategy.run",
             daemon=True,
         )
-        self._thread.start()
+        try:
+            self._epoll.register(self._selfpipe[0], select.EPOLLIN)
+            self._thread.start()
+        except BaseException:
+            # There is no thread to close these.
+            self._epoll.close()
+            close_fds(self._selfpipe)
+            raise
 
     def close(self) -> None:
         "Tell the epoll thread to exit."
-- 
2.43.0


From ea8cfc08487ba7b803708045c305f60443005813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:44 +0000
Subject: [PATCH 15/17] fix: close the caller's descriptors when a pipeline or
 nested process substitution is never started

---
 shellous/runner.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index c65379b..4ee9be9 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -126,7 +126,7 @@ class _RunOptions:
             _cleanup(self.command, self.open_fds)
             pending = _process_substitutions(self.command)[len(self.subcmds) :]
             for subcmd in self.subcmds + pending:
-                _cleanup(subcmd)
+                _cleanup_unstarted(subcmd)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -148,7 +148,7 @@ class _RunOptions:
                     exc_value,
                 )
             for subcmd in self.subcmds:
-                _cleanup(subcmd)
+                _cleanup_unstarted(subcmd)
 
     async def open_pty_streams(self):
         "Open the pty streams and update `self.pty_fds`."
@@ -1187,6 +1187,8 @@ class PipeRunner:
         except BaseException:  # pylint: disable=broad-except
             # Clean up after any exception *including* CancelledError.
             close_fds(open_fds)
+            if not self._tasks:
+                _cleanup_unstarted(self._pipe)
             raise
 
     def _setup_pipeline(self, open_fds: list[int]):
@@ -1336,6 +1338,24 @@ def _cleanup(
     close_fds(open_fds)
 
 
+def _cleanup_unstarted(
+    command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+):
+    """Close the file descriptors that need to be closed for a command that was
+    never started, and for the process substitutions it uses.
+    """
+    _cleanup(command)
+
+    if isinstance(command, shellous.Pipeline):
+        commands = command.commands
+    else:
+        commands = (command,)
+
+    for cmd in commands:
+        for subcmd in _process_substitutions(cmd):
+            _cleanup_unstarted(subcmd)
+
+
 def _signame(signal: Any) -> str:
     "Return string name of signal."
     if signal is None:
-- 
2.43.0


From cc2459ba15dc341dd7d252c730350064e63dfe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:08 +0000
Subject: [PATCH 16/17] fix: do not end an iteration normally when it is
 cancelled or a command fails to run

---
 shellous/command.py  | 5 +++++
 shellous/pipeline.py | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 2b896a2..fe51be3 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -735,6 +735,11 @@ class Command(Generic[_RT]):
             async for line in run:
                 yield line
 
+        # Leaving the context suppresses a cancellation. Raise it here, or else
+        # the output read so far is taken for all of it.
+        if run.cancelled and not self.options._catch_cancelled_error:
+            raise asyncio.CancelledError()
+
     def __call__(self, *args: Any) -> "Command[_RT]":
         "Apply more arguments to the end of the command."
         if not args:
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 7f5b608..6ead835 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -1,5 +1,6 @@
 "Implements support for Pipelines."
 
+import asyncio
 import contextlib
 import dataclasses
 import re
@@ -240,3 +241,10 @@ class Pipeline(Generic[_RT]):
         async with PipeRunner(self, capturing=True) as run:
             async for line in run:
                 yield line
+
+        # Leaving the context suppresses a cancellation, and the failure of a
+        # command to run. Raise it here, or else the output read so far is taken
+        # for all of it.
+        result = run.result(check=False)
+        if result.cancelled and not self.options._catch_cancelled_error:
+            raise asyncio.CancelledError()
-- 
2.43.0


From 4ea5027d659b8f50b68575596a187db037111273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:46 +0000
Subject: [PATCH 17/17] fix: do not go on after a prompt's block when it is
 cancelled

---
 shellous/command.py  |  9 +++++++++
 shellous/pipeline.py | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/shellous/command.py b/shellous/command.py
index fe51be3..e804192 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -708,6 +708,15 @@ class Command(Generic[_RT]):
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
 
+        # Leaving the context suppresses a cancellation. Raise it here, or else
+        # the caller goes on as if the session was complete.
+        if (
+            cli is not None
+            and cli.result.cancelled
+            and not self.options._catch_cancelled_error
+        ):
+            raise asyncio.CancelledError()
+
     def __await__(self) -> "Generator[Any, None, _RT]":
         "Run process and return the standard output."
         return self.coro().__await__()
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 6ead835..006e3b5 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -142,6 +142,15 @@ class Pipeline(Generic[_RT]):
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
 
+        # Leaving the context suppresses a cancellation. Raise it here, or else
+        # the caller goes on as if the session was complete.
+        if (
+            cli is not None
+            and cli.result.cancelled
+            and not self.options._catch_cancelled_error  # pyright: ignore[reportPrivateUsage]
+        ):
+            raise asyncio.CancelledError()
+
     def _add(self, item: Union["shellous.Command[Any]", "Pipeline[Any]"]):
         if isinstance(item, shellous.Command):
             return dataclasses.replace(self, commands=(*self.commands, item))
@@ -246,5 +255,8 @@ class Pipeline(Generic[_RT]):
         # command to run. Raise it here, or else the output read so far is taken
         # for all of it.
         result = run.result(check=False)
-        if result.cancelled and not self.options._catch_cancelled_error:
+        if (
+            result.cancelled
+            and not self.options._catch_cancelled_error  # pyright: ignore[reportPrivateUsage]
+        ):
             raise asyncio.CancelledError()
-- 
2.43.0

