#!/usr/bin/env python3
"Writes /verif/properties.jsonl (one source for the property texts)."
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over.split(), "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": ["shellous/"+f for f in files.split()],
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("L01", "No child process outlives its command",
  """When a command ends in any way (result, error, timeout, cancellation, a second cancellation while it is
  already being stopped, or an exception in the caller's `async with` body), a child process that was launched
  for it has exited and been waited for before control returns to the caller. The only alternative is an
  error reporting that the process could not be killed.""",
  "schedules fault_sequences", "every point at which a cancellation, timeout, I/O error or caller error can be delivered, up to two such interruptions per command",
  "tests cancel at a handful of hand-picked moments; they cannot place a cancellation or an I/O failure at every await of launch, run, stop and close",
  "runner.py harvest.py util.py",
  [("Runner.__aenter__/_start kill on failed start","runner.py"),("Runner.__aexit__/_finish/_wait/_kill/_kill_wait","runner.py"),("harvest","harvest.py")],
  [("_proc","the launched child","runner.py Runner")], ["asyncio Process.wait / os.waitpid before __aenter__/__aexit__ exit"])

p("L02", "Cancelling escalates: cancel_signal, bounded wait, then SIGKILL",
  """Stopping a running command first sends the configured cancel_signal (SIGKILL if it is None), waits at most
  cancel_timeout seconds for it to exit, and if it is still running then sends SIGKILL. No step of stopping a
  command waits for the child without a time limit.""",
  "schedules fault_sequences configurations", "every way of entering the stop sequence, every cancel_signal/cancel_timeout setting, children that ignore signals",
  "a test fixes one child and one moment; a lost escalation only shows when the child ignores the signal at exactly that stage",
  "runner.py harvest.py", [("Runner._kill, _kill_wait, _signal","runner.py"),("harvest timeout","harvest.py")],
  [], ["Process.send_signal / Process.kill, asyncio.wait timeouts"])

p("L03", "Outcome of a command matches its exit code, timeout and cancellation",
  """Awaiting a command returns a value only if the process was neither cancelled nor timed out and its exit code is
  in the allowed set (default {0}); a disallowed exit code raises ResultError carrying the Result, an expired timeout
  raises TimeoutError, and any other cancellation raises CancelledError. The value is the Result (true exit code and captured bytes) under `.result`
  and the decoded standard output otherwise.""",
  "inputs schedules configurations", "all exit codes, exit_codes sets, cancellation and timeout moments",
  "the tests try a few exit codes and one cancel or timeout each; the combinations with exit_codes, .result and pipeline use are not enumerated",
  "runner.py result.py", [("check_result","result.py"),("Runner.result, Runner.__aexit__, run_command","runner.py")], [], ["return value / exception of await Command"])

p("L04", "A timeout timer never fires after its command has ended",
  """The timeout of a command is armed with exactly the configured number of seconds, only once the child process
  has been launched, and is disarmed on every path by the time the command ends, so that it can never cancel the calling task
  afterwards; once the caller has cancelled the command it is disarmed before the first signal is sent. No timer is armed when no timeout is configured.""",
  "schedules fault_sequences", "every exit path of a command: completion, error, cancellation, caller exception",
  "a timer left behind only shows when the caller is still running at the expiry and the path that forgot it was taken",
  "runner.py", [("_start_timer/_stop_timer/_set_cancelled/_waiter","runner.py")], [("_timer","pending timeout","runner.py Runner")], ["loop.call_later / TimerHandle.cancel"])

p("L05", "Audit callback: one start, one stop, in order, on every path",
  """For every run of a command the audit callback receives exactly one "start" before the launch is attempted and exactly one
  "stop" after it as the last event, whatever happens in between: failure to launch, error, timeout or cancellation. A "stop" caused by a
  failed launch names the exception type.""",
  "schedules fault_sequences", "every failure and cancellation point of a command's life",
  "tests check a few scenarios; a missing or doubled stop on a rare exception path is not sampled",
  "runner.py", [("_audit_callback calls in __aenter__/__aexit__","runner.py")], [], ["options.audit_callback calls"])

p("L06", "Signals go only to a live child, each announced once",
  """A signal is sent to the child only if its exit has not been observed, so a recycled process id is never
  signalled and send_signal()/cancel() after exit do nothing. Every signal sent is preceded by
  exactly one "signal" audit event naming it.""",
  "schedules", "all interleavings of process exit with send_signal, cancel, timeout and cleanup",
  "needs the process to exit between two specific steps",
  "runner.py", [("guards on returncode before _signal","runner.py Runner.send_signal/cancel/_kill/_kill_wait")], [], ["Process.send_signal/kill"])

p("L07", "Programs run by direct exec, shielded, after the exec audit event",
  """Every child is launched by executing the argument vector directly, never through a shell, with the
  command's arguments unchanged and in order, and each launch is immediately preceded by the `shellous.exec` audit event naming the
  program. A single cancellation arriving during the launch does not interrupt the launch call itself; the launched process is then stopped in the normal way.""",
  "inputs schedules programs", "all argument values; all cancellation moments during launch",
  "tests run some argument lists; quoting through a shell or a launch path without the audit event needs inputs they do not try",
  "runner.py util.py", [("_subprocess_exec","runner.py"),("uninterrupted","util.py")], [], ["asyncio.create_subprocess_exec","sys.audit"])

p("L08", "A session cut short never looks complete",
  """An `async for` over a command or pipeline ends normally only when the output was read to its end, nobody cancelled the caller, the timeout did not expire while waiting for output, and every command of
  the pipeline could be run: otherwise CancelledError, TimeoutError or the failure itself is raised. The same holds for leaving the block of prompt(). Exit codes are left to the caller in both. After
  `async with` on a command or pipeline, run.result() raises CancelledError if the block was cancelled. An error raised in the caller's block comes out unchanged.""",
  "schedules fault_sequences", "every point of launching, reading, leaving and stopping at which a cancellation, timeout, read error, failing command or error of the caller can arrive",
  "tests iterate to the end or break out; the moment at which partial output passes for all of it is never sampled",
  "command.py pipeline.py runner.py", [("_readlines, prompt","command.py pipeline.py"),("Runner.__aexit__/_finish","runner.py"),("PipeRunner.__aexit__/_finish/_wait","runner.py")], [("_cancelled","cancellation seen","runner.py Runner/PipeRunner")], ["exceptions raised by async for / async with"])

p("L09", "The event loop is never blocked",
  """Nothing shellous does on the thread of the event loop waits for a process, a peer, another thread or the clock: running, reading, writing, prompting, polling a pty's process, signalling and
  stopping a command or pipeline, and registering a child with the watcher, give way to the event loop until what they wait for has happened, and no loop goes round there without giving way.
  Closing a child watcher, which waits for its thread, is excepted.""",
  "schedules fault_sequences platforms", "every path of launch, run, stop and close, in the thread it runs in, with children that do not exit and peers that do not read",
  "a test passes as long as the wait is short; one blocking call on a rare path (a child ignoring SIGTERM, a failed start) stops every other task of the program",
  "runner.py util.py harvest.py prompt.py redirect.py watcher.py pty_util.py", [("Runner._wait_pid, _kill, _kill_wait","runner.py"),("wait_pid, poll_wait_pid","util.py"),("ThreadStrategy, EPollStrategy: waiting happens in a thread","watcher.py")], [],
  ["calls to os.waitpid, time.sleep, subprocess, threading and select on the event loop's thread"])

p("F01", "Descriptors opened for a command are closed exactly once",
  """Every file, pipe end and pty descriptor that shellous itself opens to run a command (asyncio's own subprocess pipes excepted) is closed in the parent process exactly once by
  the time the command ends, on every path, including failures while redirections are being set up, a program that cannot be found,
  a failed launch, and cancellation.""",
  "fault_sequences schedules configurations", "every redirection kind, process substitution and pty use, with a failure at any set-up step or a cancellation at any await",
  "the suite's descriptor check only sees the scenarios it runs; failures half way through set-up are not among them",
  "runner.py pty_util.py util.py", [("_RunOptions.__enter__/__exit__, open_fds, _cleanup","runner.py"),("PtyFds.close, ChildFd.close, open_pty","pty_util.py"),("close_fds","util.py")],
  [("open_fds","descriptors to close after launch","runner.py _RunOptions")], ["os.close / file.close / transport.close"])

p("F02", "Caller descriptors: closed once if asked, never otherwise",
  """A descriptor the caller passes for stdin, stdout or stderr with close=True, or in pass_fds with pass_fds_close=True, is closed in the parent exactly once
  whether or not the command could be launched. A descriptor or file object passed without that flag is
  never closed by shellous.""",
  "fault_sequences configurations", "every combination of close flags with success and every launch failure",
  "tests cover one or two combinations",
  "runner.py util.py", [("_setup_input/_setup_output/_setup_pass_fds close handling, _cleanup","runner.py")], [], ["os.close on the caller's descriptor"])

p("F03", "Pipeline stages are joined by their own pipe, released on failure",
  """In a pipeline of any length every adjacent pair of commands is joined by one pipe of its own: the left command's stdout is its write
  end, the right command's stdin its read end, and both are handed over to be closed at launch. If
  setting up or starting the pipeline fails or is cancelled, no end of these pipes is left open and none is closed twice.""",
  "fault_sequences inputs", "all pipeline lengths; failure at any pipe creation or start",
  "tests use two or three stages and no failing pipe()",
  "runner.py", [("PipeRunner._setup_pipeline/_start","runner.py")], [], ["os.pipe, Command.stdin/stdout(close=True)"])

p("F04", "Process substitution gives each side the right end of its pipe",
  """For every command or pipeline passed as an argument, the main program receives the path /dev/fd/N of one end of a fresh pipe (the
  read end, or the write end if marked writable), N is passed to it, and the substituted command gets
  the other end as its stdout (or stdin). Each substituted command is started exactly once after the main program launched; if the launch fails none is started and all ends are closed.""",
  "inputs fault_sequences", "any number and mix of readable and writable substitutions",
  "tests use a few fixed shapes",
  "runner.py", [("_setup_process_substitution, _subprocess_spawn, _is_writable","runner.py")], [], ["os.pipe, pass_fds, argv"])

p("P01", "A pipeline ends with every one of its commands stopped",
  """When a pipeline ends for any reason (completion, one command failing to start or exiting with an error, cancellation, or an exception in
  the caller's block), every command of it has ended before control returns; when one fails, or the pipeline is cancelled or the caller's
  block raises, the others are cancelled, not waited for indefinitely. An error that is not a command's exit status is re-raised when the pipeline's result is taken (by awaiting, or result()).""",
  "schedules fault_sequences", "every command failing or being cancelled at any point",
  "tests fail one chosen stage in one chosen way",
  "runner.py harvest.py result.py", [("PipeRunner._wait/_finish/__aenter__","runner.py"),("harvest_results","harvest.py")], [], ["tasks of PipeRunner"])

p("P02", "A pipeline reports the first failing command (pipefail)",
  """The Result of a pipeline has the exit code and error output of the first command that failed on its own (not because it was cancelled),
  or of a command that succeeded if none failed, and the output and encoding of the last command. An exit code counts as a failure exactly when it is not zero.""",
  "inputs histories", "all combinations of per-command outcomes",
  "tests try a few combinations of two or three commands",
  "result.py runner.py", [("convert_result_list, _find_key_result","result.py")], [], ["Result returned by await Pipeline"])

p("P03", "Pipeline composition keeps order; redirections attach to the ends",
  """Composing commands and pipelines with `|` keeps all commands, in order, however the expression is grouped. Input
  redirection applies to the first command only; output and error redirection and options apply to the last command only; every other command is unchanged.""",
  "inputs programs", "all pipeline lengths and groupings, all redirections",
  "tests build a few fixed expressions",
  "pipeline.py command.py", [("Pipeline._add/stdin/stdout/stderr/_set","pipeline.py")], [], ["Pipeline.commands"])

p("P04", "Entering a captured pipeline never hangs on a failed launch",
  """When a pipeline is used with `async with`, `async for` or prompt(), and the command whose stream is captured (the first or the last) fails or is cancelled before it is ready,
  entering the pipeline raises that error instead of waiting forever, and the remaining commands are cancelled. Once entered, its stdin and pid are those of the first command, its stdout and stderr those of the last. A pipe that cannot be created is reported as its OSError.""",
  "fault_sequences", "failure of any stage during launch",
  "needs a stage of a captured pipeline that cannot be launched, which no test has",
  "runner.py", [("PipeRunner._setup_capturing, Runner.run_command(_run_future)","runner.py")], [], ["ready futures"])

p("D01", "Captured output is complete, in order, without duplication",
  """Every chunk a command writes to a redirected stdout or stderr is delivered to its destination (result buffer, bytearray, BytesIO, StringIO, Logger,
  StreamWriter) exactly once and in order, and reading continues until end of file. Output arriving in pieces of any size is handled the same way (lines for a Logger or for iteration up to asyncio's line limit).""",
  "inputs schedules", "all chunkings and lengths of output",
  "tests see the chunk sizes the kernel happens to produce",
  "redirect.py runner.py", [("copy_* functions, read_lines","redirect.py"),("_setup_output_sink","runner.py")], [], ["StreamReader.read / destination writes"])

p("D02", "Buffered stderr holds exactly the first error_limit bytes",
  """With stderr buffered, the stored bytes are the first error_limit bytes the program wrote (all of them if it wrote fewer, or if the
  limit is None), never more; anything beyond is still read until end of file and discarded, so that the program never blocks.
  The limit applies to no other redirection.""",
  "inputs", "all output sizes and chunkings around the limit",
  "tests use a couple of sizes",
  "redirect.py runner.py", [("copy_bytearray_limit","redirect.py"),("_start error_limit selection","runner.py")], [], ["Result.error_bytes"])

p("D03", "All of stdin is written, then end-of-file is signalled",
  """Input given as text, bytes, StringIO, BytesIO or StreamReader is written to the child completely, once and in order, and end-of-file is then always
  signalled: the pipe is closed, or on a pseudo-terminal in canonical mode the EOF character is sent (twice after a partial line). If the
  child stops reading early the rest is dropped and its stdin is still closed.""",
  "inputs schedules fault_sequences", "all input sizes and chunkings, children that close stdin at any time",
  "tests use few sizes; a missing EOF on one branch hangs only that combination",
  "redirect.py runner.py", [("write_stream, write_reader","redirect.py"),("_setup_input_source","runner.py")], [], ["StreamWriter.write/close"])

p("D04", "Each redirection type binds the stream it names",
  """Every documented stdin, stdout and stderr redirection type is bound as documented: paths are opened in binary for read, write or append, descriptors, DEVNULL,
  STDOUT and open files are passed through, INHERIT uses the parent's same-named stream, and everything else goes through a pipe
  serviced by shellous; an unsupported type raises TypeError before launch. Defaults are: empty stdin, buffered stdout and stderr; on a pty captured stdin, buffered stdout, stderr to stdout.""",
  "inputs configurations", "all redirection types for each of the three streams, with and without pty",
  "the table of types by stream by pty is only sampled",
  "runner.py redirect.py command.py", [("_setup_input/_setup_output/_setup_redirects","runner.py"),("Redirect.from_default","redirect.py")], [], ["stdin/stdout/stderr given to create_subprocess_exec"])

p("D05", "Truncate or append is honoured for every output type",
  """Redirecting with `|` replaces the destination's previous content and `>>` (append=True) keeps it and adds at the end, for paths, bytearrays, StringIO,
  BytesIO and seekable files alike, for both stdout and stderr.""",
  "inputs configurations", "every destination type, both modes, both streams",
  "sampled for some types only",
  "runner.py command.py pipeline.py", [("_set_position, open mode","runner.py")], [], ["open mode / clear / truncate / seek"])

p("D06", "Text conversion uses the configured encoding at safe boundaries",
  """All conversion between str and bytes for a command's streams uses the command's configured encoding and error handler,
  and output read to its end is decoded either as a whole, by complete lines (ending in the byte 0x0A), or incrementally, so a multi-byte character split across reads is never corrupted.""",
  "inputs schedules", "all encodings and all chunk boundaries",
  "a split character needs a specific read boundary",
  "redirect.py runner.py prompt.py result.py util.py", [("encode_bytes/decode_bytes","util.py"),("_make_decoder","prompt.py"),("copy_stringio","redirect.py")], [], ["bytes.decode/str.encode calls"])

p("A01", "Commands, contexts, pipelines and options are immutable",
  """No operation on a Command, CmdContext, Pipeline, Options, environment mapping or Result changes an existing object; every modifier returns a new object that
  differs only in the settings it names and keeps every other setting. Running a command changes none of them either.""",
  "programs histories inputs", "all sequences of modifiers and runs on shared objects",
  "tests compare a few objects before and after a few modifiers",
  "command.py pipeline.py result.py util.py", [("frozen dataclasses, dataclasses.replace","command.py"),("EnvironmentDict","util.py")], [], ["attributes of shared objects"])

p("A02", "Arguments are coerced by type and keep their order",
  """Strings, bytes, path-like objects, commands and pipelines are kept as arguments unchanged; bytearray and memoryview become bytes; StringIO and BytesIO contribute
  their contents; lists and tuples (and reversed, enumerate, zip) are flattened recursively in place; dicts, sets, generators, ranges, None and Ellipsis raise TypeError; anything else becomes str(). Order is preserved, and
  coerce_arg is applied first to each top-level argument.""",
  "inputs", "all argument types and nestings",
  "tests sample types and shallow nestings",
  "command.py", [("coerce","command.py")], [], ["Command.args"])

p("A03", "The child's environment is exactly what was configured",
  """The child gets the parent's environment overridden by the configured variables, or only the configured variables when inherit_env is False (possibly none). env()
  adds to the earlier settings with later values winning, set(env=...) replaces them, names and values are converted to str, and the parent's own
  environment is never modified.""",
  "inputs configurations", "all env/inherit_env combinations and sequences of env() and set(env=)",
  "tests sample combinations",
  "command.py util.py runner.py", [("Options.runtime_env/add_env/set","command.py"),("EnvironmentDict","util.py")], [], ["env given to create_subprocess_exec"])

p("A04", "Ambiguous double capture is rejected before anything runs",
  """Awaiting a command with both stdout and stderr captured, or iterating over a command or pipeline with both captured, raises an error before any process is launched, and
  descriptors the command (or pipeline) was to close are closed. No other combination is rejected.""",
  "configurations", "all redirection settings of stdout and stderr",
  "only some settings are tried",
  "runner.py redirect.py", [("_is_multiple_capture, run_command","runner.py"),("aiter_preflight","redirect.py")], [], ["exception before launch"])

p("A05", "One command object can be entered many times, also concurrently",
  """A Command or Pipeline object may be entered with `async with` repeatedly, nested, and from several tasks; every exit
  finishes the run started by the matching enter of the same object in the same task, innermost first, and passes it the exception. An enter that fails leaves
  nothing behind.""",
  "schedules histories", "all nestings and interleavings of enter and exit",
  "tests use one or two nestings",
  "util.py command.py pipeline.py", [("context_aenter/context_aexit","util.py")], [("context_stacks","per-context stacks","util.py")], ["__aexit__ of the run"])

p("A06", "Every option given to set() takes effect, for commands and contexts",
  """Every option accepted by Command.set and CmdContext.set, including falsy values and None, is stored under its own name in the new
  object's options; options that are not given keep their value. Both accept the same options with the same meaning, and an empty encoding is rejected.""",
  "inputs", "every option and value",
  "each test sets a few options to truthy values",
  "command.py", [("Command.set, CmdContext.set, Options.set","command.py")], [], ["Command.options"])

p("A07", "Equality and hash of commands agree and reflect their settings",
  """Two commands, contexts or pipelines are equal exactly when all their settings (arguments, environment variables, options, order of commands) are equal, in whatever order the
  settings were made, and equal ones have the same hash, so that they can be used in sets and as dictionary keys.""",
  "inputs histories", "all ways to arrive at the same or different settings",
  "tests compare objects built in one order",
  "util.py command.py pipeline.py", [("EnvironmentDict.__eq__, __hash__","util.py"),("Options, Command dataclasses","command.py"),("Pipeline dataclass","pipeline.py")], [], ["== and hash()"])

p("A08", "Programs are launched with exactly the configured parameters",
  """A program named without a directory is looked up in the configured search path (`path`), and launched under the name found; one given with its directory is not looked up.
  find_command() gives what that lookup finds, or None.
  The program is given the descriptors in pass_fds and those of its process substitutions and no others, close_fds as configured (True if any are passed),
  a new session exactly if configured or run with pty, and the configured preexec function. Every command of a pipeline is launched with its own parameters.""",
  "configurations", "all combinations of launch options, for commands, pipelines and substitutions",
  "tests set one option at a time",
  "runner.py command.py", [("_RunOptions.__enter__, _setup_pass_fds, _setup_redirects","runner.py"),("Options.which","command.py")], [], ["arguments of create_subprocess_exec"])

p("A09", "Names and logs show the program, never its arguments",
  """The name of a command is alt_name, or else the program (its last 31 characters after "..." if it is longer); that of a pipeline is its commands' names joined by "|"; str() of a command is its program.
  The name, str() and repr() of a runner, the names of tasks and threads, the shellous.exec audit event, what an audit callback is told besides the runner, and every log record (whatever is traced, except what
  a prompt session sends and receives) contain none of a command's further arguments, environment values or input. The repr() of a command, context or pipeline contains no environment values.""",
  "inputs schedules fault_sequences configurations", "all arguments, environment variables and input data, every log call on every path, tracing on and off",
  "a test looks for one string in the log of one run; a password leaks through the warning of a rare path (a kill that fails, a launch that is cancelled)",
  "command.py pipeline.py runner.py log.py util.py harvest.py", [("Command.name, __str__; Options.env repr=False","command.py"),("Runner.__repr__, PipeRunner.__repr__, add_task","runner.py"),("LOGGER calls","runner.py harvest.py util.py")], [],
  ["log records, repr()/str(), task names, sys.audit arguments"])

p("R01", "Prompt loses, repeats and reorders no output",
  """Every character of a co-process's output is returned to the caller of the Prompt API exactly once and in order: as the text before a match, as the match itself,
  by read_all() or read_pending(), or left in `pending`. This holds across timeouts, cancellation, EOF and output read while send() was
  draining, and already buffered text is searched before anything is read.
  at_eof is true exactly when the output has ended and nothing of it is pending.""",
  "schedules inputs histories", "all chunkings, all moments of timeout and cancellation, all sequences of calls",
  "tests see few chunkings and no cancellation between read and match",
  "prompt.py", [("_read_to_pattern, _search_pending, _read_some, read_pending","prompt.py")], [("_pending","unread text","prompt.py Prompt")], ["Prompt.pending and return values"])

p("R02", "Text sent with no_echo is never logged and waits for echo off",
  """Text passed to Prompt.send or Prompt.command with no_echo=True never appears in any log record, whatever logging is enabled, and
  is not written to the co-process before terminal echo has been observed off.""",
  "inputs configurations", "all texts and logging settings",
  "an absence over all log statements and paths",
  "prompt.py", [("_wait_no_echo, _log_send","prompt.py")], [], ["LOGGER calls"])

p("R03", "Prompt operations report timeout, EOF and cancellation",
  """send, expect, read_all and command raise TimeoutError when the given (or default) timeout expires, CancelledError when cancelled and EOFError when expecting at end of
  output; they never return normally in these cases (except command with allow_eof whose output ends during the call, and read_all at EOF), and raise none of these
  without that cause. No background read is left running
  when they end.""",
  "schedules fault_sequences", "all moments of timeout, EOF, cancellation and I/O error",
  "tests try one moment each",
  "prompt.py harvest.py", [("expect/send/read_all/command","prompt.py"),("harvest_results","harvest.py")], [], ["return or exception of the calls"])

p("R04", "Prompt.send reads while it drains, so neither side blocks the other",
  """While send() waits for the co-process to accept its input, the co-process's output is concurrently read into the pending buffer, so two full pipes
  cannot deadlock. The reading is stopped when send() ends.""",
  "schedules inputs", "all amounts of input and output",
  "needs both pipes full at once",
  "prompt.py", [("_drain, _read_some","prompt.py")], [], ["task reading stdout during StreamWriter.drain"])

p("R05", "Prompt.send writes exactly what it was given, once",
  """Every Prompt.send (and command) writes the text followed by its line end to the co-process, encoded with the command's encoding, exactly once and unaltered,
  before anything is read for it; bytes are written as they are, and end=None adds nothing. close() ends the co-process's input: by closing it, or by the terminal's end-of-file character.""",
  "inputs configurations", "all texts, line ends and encodings",
  "tests use a few texts and the default encoding",
  "prompt.py util.py", [("send, command, close","prompt.py"),("encode_bytes","util.py")], [], ["StreamWriter.write"])

p("H01", "Harvesting leaves no task running and hides no failure",
  """harvest and harvest_results return only when every awaitable given is done (or raise RuntimeError if cancelled ones do not stop in time). If one raises, times out or
  the caller is cancelled, the pending ones are cancelled (unless told to let them finish) and awaited first;
  harvest raises the first exception, an expired timeout raises TimeoutError, cancellation is reported, and harvest_results returns results in argument order.""",
  "schedules fault_sequences", "all completion orders, failures, timeouts and cancellations, also one further cancellation during the clean-up",
  "tests sample a few orders",
  "harvest.py", [("harvest_wait, _cancel_wait, _cancel_waiter, _to_result","harvest.py")], [], ["asyncio.Task states at return"])

p("R06", "A prompt session has its command's Result after the block, and none before",
  """Inside the block of prompt(), Prompt.result raises RuntimeError. After the block, however it was left (normally, by an error, a timeout or a cancellation), it is the Result of the command whatever its
  exit code: the process's true exit code, its error output, and whether it was cancelled; reading it never raises ResultError. For a pipeline it is the first failing command's, as in P02.""",
  "schedules fault_sequences", "every way of leaving the block; all exit codes; all outcomes of a pipeline's commands",
  "tests read the result of sessions that end well",
  "prompt.py command.py pipeline.py runner.py", [("Prompt.result, _finish_","prompt.py"),("prompt","command.py pipeline.py"),("Runner.result, PipeRunner.result","runner.py")], [("_result","result cached","prompt.py Prompt")], ["Prompt.result"])

p("W01", "The child watcher reports each exit exactly once and frees its fds",
  """For each process id registered with DefaultChildWatcher the callback is called at most once, with that id, its true exit status and its
  arguments, and is called whenever the process is found to have exited; a process is reaped only by the watch it was registered
  with, and one that cannot be watched is killed, collected and still reported. Every pidfd and pipe it opens is closed exactly once, also after errors and on close().""",
  "schedules fault_sequences histories", "all orders of registration, exit and close",
  "tests run a few processes through one strategy",
  "watcher.py util.py", [("EPollStrategy, ThreadStrategy, _poll_dead_pid, _invoke_callback","watcher.py"),("wait_pid","util.py")], [], ["callback calls, os.close"])

p("W02", "Reaping returns the true exit status, or says still running",
  """Collecting a child's status returns None only if the child is still running, its exit code or negated signal number if it has
  exited, and 255 if the status is gone; a running child is never reported as exited. Non-blocking collection never blocks the event loop. The status
  of a command the event loop waits for is collected by nobody else, unless it does not end even when killed.""",
  "inputs schedules", "all wait statuses",
  "tests see a few statuses",
  "util.py watcher.py runner.py", [("wait_pid, poll_wait_pid","util.py")], [], ["os.waitpid"])

p("T01", "A pty command gets its terminal, and the parent's copies are released",
  """A command run with pty=True starts in a new session with the pty as its controlling terminal and as each standard stream not redirected elsewhere; a callable pty option is
  applied to the terminal before launch. Hang-up of the terminal is treated as end of file, not as an error, and any other error is reported.""",
  "configurations fault_sequences", "all redirections combined with pty",
  "sampled combinations",
  "runner.py pty_util.py", [("_setup_pty1","runner.py"),("PtyStreamReaderProtocol, open_pty, set_ctty","pty_util.py")], [], ["create_subprocess_exec arguments"])

p("T02", "Terminal options set the mode, size and echo they name",
  """cooked(), cbreak() and raw(), given as the pty option, put the command's terminal in the mode they name before the command starts, set its window size to the given rows and columns (leaving it
  alone when neither is given), and change no other terminal setting. cooked(echo=False) and setting Prompt.echo change whether the terminal echoes, change nothing else, and discard no
  input already typed. Reading Prompt.echo tells whether the terminal echoes; without a terminal it is False, and setting it raises RuntimeError. A size that cannot be set fails the launch.""",
  "inputs configurations histories", "every prior state of the terminal's flag words, every window size, every order of echo changes",
  "tests observe one terminal, in its initial state, on one kernel; a change to a flag they do not print goes unseen",
  "pty_util.py prompt.py runner.py", [("cooked, raw, cbreak","pty_util.py"),("set_term_echo, get_term_echo, set_term_size","pty_util.py"),("Prompt.echo","prompt.py")], ["terminal attribute words"], ["tcsetattr / ioctl arguments","Prompt.echo"])

p("O01", "Tracing changes nothing",
  """Setting SHELLOUS_TRACE (detail, prompt or all) changes what is logged and nothing else: every traced call gets the same arguments, returns or yields the same values, raises the same exceptions and
  passes on a cancellation, and the guarantees about processes, descriptors, outcomes and audit events hold as they do without tracing.""",
  "configurations inputs schedules fault_sequences", "every traced function, all arguments, results, exceptions and cancellation points",
  "the test suite runs with one setting of SHELLOUS_TRACE; a wrapper that drops a result, an argument or an exception only shows with the other",
  "log.py runner.py prompt.py watcher.py", [("log_method, log_thread, log_timer","log.py")], [], ["values and exceptions of traced calls"])

p("N01", "Timeouts are accurate in wall-clock time",
  """A timeout expires no earlier than and close to the configured number of seconds.""", "schedules", "all durations", "timing",
  "runner.py harvest.py", [("loop.call_later","runner.py")])
p("N02", "Regular-expression expect() is independent of chunking",
  """expect() with a regular expression matches the same text however the output is divided into chunks.""", "inputs schedules", "all patterns and chunkings", "value-dependent",
  "prompt.py", [("_search_pending","prompt.py")])
p("N03", "Descendants of a cancelled command are stopped too",
  """Processes started by the child exit when the command is cancelled.""", "schedules programs", "all programs", "depends on other programs",
  "runner.py", [("_kill","runner.py")])
p("N04", "Output bytes equal the bytes the program wrote",
  """The bytes of the Result equal the bytes the child wrote, through kernel, event loop and transports.""", "inputs", "all outputs", "end-to-end value equality",
  "redirect.py", [("copy_bytearray","redirect.py")])
p("N05", "Log messages are almost absent unless tracing is enabled",
  """Without SHELLOUS_TRACE a normal run logs nothing at INFO or above.""", "schedules configurations", "all runs", "durations and schedules decide the warnings",
  "log.py", [("log_timer","log.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
