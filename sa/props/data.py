"""Data flow of the standard streams: output delivery, limits, input, redirection types, truncation, encodings."""

import asyncio
import io
import logging
import os
import termios

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, exc_is, exc_name
from .fds import walk

PRE = '''
from shellous import sh
import asyncio, io, os, signal, sys, logging
from pathlib import Path
'''

READS = ("StreamReader.read", "StreamReader.readline", "StreamReader.__anext__", "StreamReader.readuntil")
LOGM = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}


class Flow(Monitor):
    """What was read from each stream against what its destination holds."""

    def __init__(self, name):
        self.name = name

    def label(self, I, recv, st):
        if recv.tag == "sym" and recv.parts[0] == "procstream":
            return kval(recv.parts[1])
        if recv.tag == "ref":
            oid = recv.parts[0]
            return "reader" if oid.startswith("in:") else "pty"
        return show(recv)

    def on_io_done(self, I, st, name, recv, value, args, node):
        if name not in READS or recv is None:
            return
        lab = self.label(I, recv, st)
        if value is K(b""):
            self.put(st, ("eof", lab), TRUE)
        else:
            got = self.get(st, ("got", lab), Tup(()))
            self.put(st, ("got", lab), Tup(got.parts[0] + (value,)))
            if value.parts[0] == "chunk" and value.parts[4] is K("rest"):
                self.put(st, ("eof", lab), TRUE)

    def on_exhausted(self, I, st, it, node):
        if self.is_reader(I, it, st):
            self.put(st, ("eof", self.label(I, it, st)), TRUE)

    def is_reader(self, I, v, st):
        return I.models.clsname(v, st) == "StreamReader"

    def on_ext(self, I, st, name, args, node, recv=None, **_):
        if recv is None or recv.tag != "ref":
            return
        if recv is self.first(st, "logger") and name.split(".")[-1] in LOGM:
            x = I.norm(args[-1], st)
            if name.endswith(".log"):
                x = I.norm(args[1], st) if len(args) == 2 else x
            self.push(st, "logged", x)
        if recv is self.first(st, "writer") and name == "StreamWriter.write":
            self.push(st, "written", I.norm(args[0], st))
        if recv is self.first(st, "writer") and name == "StreamWriter.writelines":
            for x in I.models.known_items(args[0], st) or ():
                self.push(st, "written", I.norm(x, st))

    def first(self, st, key):
        t = self.get(st, key)
        return t.parts[0][0] if t is not None else None

    def push(self, st, key, x):
        self.put(st, key, Tup(self.get(st, key, Tup(())).parts[0] + (x,)))

    def on_mark(self, I, st, name, args, **_):
        if name in ("logger", "writer"):
            self.put(st, name, Tup([args[0]]))
        elif name == "sink":
            self.check(I, st, kval(args[0]), [I.norm(args[1], st)])
        elif name == "logged":
            self.check(I, st, kval(args[0]), list(self.get(st, "logged", Tup(())).parts[0]), strip=True)
        elif name == "written":
            self.check(I, st, kval(args[0]), list(self.get(st, "written", Tup(())).parts[0]))
        elif name == "lines":
            items = I.models.known_items(args[1], st)
            self.check(I, st, kval(args[0]), items or [])

    def flatten(self, I, st, v, strip=False):
        "-> list of byte pieces, or None if the value cannot be decided"
        m = I.models
        if strip and v.tag == "sym" and v.parts[0] == "call" and v.parts[1] in (K("str.rstrip"), K("str.strip"), K("bytes.rstrip")) and len(v.parts) <= 4:
            v = v.parts[2]
        ps = m.pieces(v, st)
        if ps is None:
            return None if any(x.tag == "sym" and x.parts[0] == "fresh" for x in walk(v)) else [v]
        out = []
        for p in ps:
            if p.tag == "sym" and p.parts[0] == "text":
                q = self.flatten(I, st, p.parts[1], strip)
                if q is None:
                    return None
                out += q
            elif p.tag == "sym" and p.parts[0] == "fresh":
                return None
            else:
                out.append(p)
        return out

    def check(self, I, st, lab, values, strip=False):
        got = list(self.get(st, ("got", lab), Tup(())).parts[0])
        have = []
        for v in values:
            f = self.flatten(I, st, v, strip)
            if f is None:
                I.note(f"undecided: {show(v)}")
                return
            have += f
        if not self.get(st, ("eof", lab)):
            self.bad(I, st, "not-read", f"{lab} is not read until end of file", construct=lab, where="driver")
            return
        have = [x for x in have if not (x.tag == "k" and not kval(x))]
        if have != got:
            self.bad(I, st, "content", f"the destination of {lab} holds [{', '.join(show(x) for x in have)}], "
                     f"but the program wrote [{', '.join(show(x) for x in got)}]", construct=lab + " destination", where="driver")
        elif got:
            self.put(st, "seen", TRUE)


def sinks(decl, how, stream, extra=""):
    other = "stdout" if stream == "stderr" else "stderr"
    return PRE + f'''
async def main():
    {decl}
    cmd = sh("/bin/prog").set(_return_result=True).stdin(sh.DEVNULL).{other}(sh.DEVNULL){extra}.{stream}(dest)
    r = await cmd
    {how}
'''


SINKS = {
    "bytearray": ("dest = bytearray()", "bytes(dest)"),
    "bytesio": ("dest = io.BytesIO()", "dest.getvalue()"),
    "stringio": ("dest = io.StringIO()", "dest.getvalue()"),
}


def sink_jobs(M, **E):
    js = []
    for s in ("stdout", "stderr"):
        for k, (decl, val) in SINKS.items():
            js.append(Job(f"{s}-{k}", sinks(decl, f'__mark__("sink", "{s}", {val})', s), M, **E))
        js.append(Job(f"{s}-buffer", sinks("dest = sh.BUFFER", f'__mark__("sink", "{s}", r.{"output_bytes" if s == "stdout" else "error_bytes"})', s,
                                           ".set(error_limit=None)"), M, **E))
        js.append(Job(f"{s}-logger", sinks('dest = __new__(logging.Logger, "log")\n    __mark__("logger", dest)', f'__mark__("logged", "{s}")', s), M, **E))
        js.append(Job(f"{s}-writer", sinks('dest = __new__(asyncio.StreamWriter, "writer")\n    __mark__("writer", dest)', f'__mark__("written", "{s}")', s), M, **E))
    return js


# stdout of a plain await: the string itself
AWAIT = PRE + '''
async def main():
    r = await sh("/bin/prog").stdin(sh.DEVNULL).stderr(sh.DEVNULL)
    __mark__("sink", "stdout", r)
'''

BOTH = PRE + '''
async def main():
    r = await sh("/bin/prog").stdin(sh.DEVNULL).set(_return_result=True, error_limit=None)
    __mark__("sink", "stdout", r.output_bytes)
    __mark__("sink", "stderr", r.error_bytes)
'''

ERRONLY = PRE + '''
async def main():
    r = await sh("/bin/prog").stdin(sh.DEVNULL).stdout(sh.DEVNULL).stderr(sh.STDOUT).set(_return_result=True)
    __mark__("sink", "stderr", r.output_bytes)
'''

FAILED = PRE + '''
from shellous import ResultError
async def main():
    try:
        await sh("/bin/prog").stdin(sh.DEVNULL).stderr(sh.DEVNULL)
    except ResultError as ex:
        __mark__("sink", "stdout", ex.result.output_bytes)
        __mark__("sink", "stdout", ex.result.output)
'''

PTYOUT = PRE + '''
async def main():
    r = await sh("/bin/prog").set(_return_result=True, pty=True).stdin(sh.DEVNULL)
    __mark__("sink", "pty", r.output_bytes)
'''

ITER = PRE + '''
async def main():
    lines = []
    async for line in sh("/bin/prog").stdin(sh.DEVNULL).stderr(sh.DEVNULL):
        lines.append(line)
    __mark__("lines", "stdout", lines)
'''

ITERWITH = PRE + '''
async def main():
    lines = []
    async with sh("/bin/prog").stdin(sh.DEVNULL).stderr(sh.DEVNULL).stdout(sh.CAPTURE) as run:
        async for line in run:
            lines.append(line)
    __mark__("lines", "stdout", lines)
'''

ITERERR = PRE + '''
async def main():
    lines = []
    async with sh("/bin/prog").stdin(sh.DEVNULL).stdout(sh.DEVNULL).stderr(sh.CAPTURE) as run:
        async for line in run:
            lines.append(line)
    __mark__("lines", "stderr", lines)
'''

CONTEXT = PRE + '''
async def main():
    buf = bytearray()
    async with sh("/bin/prog").stdin(sh.DEVNULL).stderr(sh.DEVNULL).stdout(buf) as run:
        await __body__("body")
    __mark__("sink", "stdout", bytes(buf))
    r = run.result(check=False)
'''

DE = dict(data="chunks", expect=("launched",))


def d01_jobs(tier):
    n = 3 if tier == "quick" else 5
    M = [Flow("D01")]
    E = dict(DE, max_reads=n)
    js = sink_jobs(M, **E)
    js += [Job("await", AWAIT, M, **E), Job("error-only", ERRONLY, M, **E), Job("failed", FAILED, M, **E),
           Job("pty", PTYOUT, M, **E), Job("iter", ITER, M, **E), Job("iter-with", ITERWITH, M, **E), Job("iter-stderr", ITERERR, M, **E),
           Job("context", CONTEXT, M, **E), Job("both", BOTH, M, **dict(E, max_reads=2 if tier == "quick" else 3))]
    return js


ASSUME = ("Stream contents are opaque pieces; a stream delivers up to 3 (thorough: 5) chunks before end of file.",
          "asyncio's StreamReader returns every byte of the pipe once, in order (its 64 KiB line limit is out of scope).")

CHECKS = {}
CHECKS["D01"] = Check("Captured output is complete", "the provenance sequence held by the destination equals the sequence of chunks read, and the stream was read to its end", d01_jobs,
                      "Every destination type on stdout and stderr, the iteration APIs, and awaiting; destinations are followed as sequences of the chunks read.", ASSUME,
                      technique="abstract interpretation over provenance sequences")


# ------------------------------------------------------------------ D02

class Limit(Flow):
    def on_mark(self, I, st, name, args, **_):
        if name != "limited":
            return Flow.on_mark(self, I, st, name, args)
        lab, v, lim = kval(args[0]), I.norm(args[1], st), I.norm(args[2], st)
        m = I.models
        got = list(self.get(st, ("got", lab), Tup(())).parts[0])
        want = m.cut("b", got, 0, None if lim is NONE else kval(lim))
        ps = m.pieces(v, st)
        if ps is None or any(x.tag == "sym" and x.parts[0] == "fresh" for p in ps for x in walk(p) if x is p):
            I.note(f"undecided: {show(v)}")
            return
        have = m.seq("b", ps)
        if have is not want:
            self.bad(I, st, "limit", f"with limit {show(lim)} the buffer holds {show(have)} of {show(m.seq('b', got))}, expected {show(want)}",
                     construct=f"buffer of {lab}", where="driver")
        if not self.get(st, ("eof", lab)):
            self.bad(I, st, "not-drained", f"with limit {show(lim)} {lab} is not read until end of file, so the program may block", construct=lab, where="driver")


LIMIT = PRE + '''
async def main():
    lim = __choose__(LIMITS)
    r = await sh("/bin/prog").stdin(sh.DEVNULL).stdout(sh.DEVNULL).set(_return_result=True, error_limit=lim, exit_codes={0, 1})
    __mark__("limited", "stderr", r.error_bytes, lim)
'''

LIMIT_FAIL = PRE + '''
from shellous import ResultError
async def main():
    lim = __choose__(LIMITS)
    try:
        await sh("/bin/prog").stdin(sh.DEVNULL).stdout(sh.DEVNULL).stderr(sh.BUFFER).set(error_limit=lim)
    except ResultError as ex:
        __mark__("limited", "stderr", ex.result.error_bytes, lim)
'''

LIMIT_DEFAULT = PRE + '''
async def main():
    r = await sh("/bin/prog").stdin(sh.DEVNULL).stdout(sh.DEVNULL).set(_return_result=True)
    __mark__("limited", "stderr", r.error_bytes, 1024)
'''

LIMIT_PTY = PRE + '''
async def main():
    lim = __choose__(LIMITS)
    r = await sh("/bin/prog").stdin(sh.DEVNULL).stdout(sh.DEVNULL).stderr(sh.BUFFER).set(_return_result=True, error_limit=lim, pty=True)
    __mark__("limited", "stderr", r.error_bytes, lim)
'''

# the limit applies to nothing else
UNLIMITED = {
    "stdout": ("", "sh.BUFFER", "r.output_bytes", "stdout"),
    "bytearray": ("dest = bytearray()", "dest", "bytes(dest)", "stderr"),
    "bytesio": ("dest = io.BytesIO()", "dest", "dest.getvalue()", "stderr"),
    "stringio": ("dest = io.StringIO()", "dest", "dest.getvalue()", "stderr"),
    "merged": ("", "sh.STDOUT", "r.output_bytes", "stdout"),
    "error-only": ("", "sh.STDOUT", "r.output_bytes", "stderr"),
}


def unlimited(k):
    decl, dest, val, lab = UNLIMITED[k]
    out = "sh.BUFFER" if k in ("stdout", "merged") else "sh.DEVNULL"
    err = "sh.DEVNULL" if k == "stdout" else dest
    return PRE + f'''
async def main():
    {decl or "pass"}
    r = await sh("/bin/prog").stdin(sh.DEVNULL).stdout({out}).stderr({err}).set(_return_result=True, error_limit=1)
    __mark__("limited", "{lab}", {val}, None)
'''


def d02_jobs(tier):
    M = [Limit("D02")]
    n = 3 if tier == "quick" else 4
    lims = "0, 1, 2, 3, 4, 6, None" if tier == "quick" else "0, 1, 2, 3, 4, 5, 6, 7, 9, None"
    E = dict(DE, lens=(1, 2, 3), max_reads=n)
    js = [Job("limits", LIMIT.replace("LIMITS", lims), M, **E), Job("limits-failed", LIMIT_FAIL.replace("LIMITS", lims), M, **E),
          Job("limits-pty", LIMIT_PTY.replace("LIMITS", lims), M, **E),
          Job("default", LIMIT_DEFAULT, M, **dict(E, lens=(1, 1000, 1024, 1025)))]
    js += [Job("unlimited-" + k, unlimited(k), M, **dict(E, lens=(1, 2), max_reads=2)) for k in UNLIMITED if k != "stringio"]
    js.append(Job("unlimited-stringio", unlimited("stringio").replace("limited\", ", "sink\", ").replace(", None)", ")"), M, **dict(E, lens=(1, 2), max_reads=2)))
    return js


CHECKS["D02"] = Check("Buffered stderr holds exactly the first error_limit bytes", "the buffered sequence equals the first error_limit bytes of the sequence of chunks read, and the stream was read to its end", d02_jobs,
                      "Every division of up to 9 (thorough: 12) bytes into chunks of 1 to 3 bytes against every limit from 0 to 6 (9) and None.", ASSUME,
                      technique="abstract interpretation over provenance sequences with chunk lengths")


# ------------------------------------------------------------------ D03

class Input(Flow):
    """Everything written to the child's stdin, and how its end is signalled."""

    def stdin(self, I, v, st):
        if v is None:
            return False
        if v.tag == "sym" and v.parts[0] == "procstream":
            return v.parts[1] is K("stdin")
        return v.tag == "ref" and not v.parts[0].startswith("in:") and I.models.clsname(v, st) == "StreamWriter"

    def on_ext(self, I, st, name, args, node, recv=None, **_):
        if name in ("StreamWriter.write", "StreamWriter.writelines") and self.stdin(I, recv, st):
            if self.get(st, "eof-sent"):
                self.bad(I, st, "after-eof", "stdin is written to after it was closed", construct="stdin")
            xs = [args[0]] if name.endswith("write") else I.models.known_items(args[0], st) or [args[0]]
            for x in xs:
                self.push(st, "written", I.norm(x, st))
        elif name in ("StreamWriter.close", "StreamWriter.write_eof") and self.stdin(I, recv, st):
            if self.get(st, "eof-sent"):
                return
            late = self.get(st, "exited") and I.models.cur_task(st) is NONE
            self.put(st, "eof-sent", K("late") if late else TRUE)

    def on_waited(self, I, st, **_):
        self.put(st, "exited", TRUE)

    def on_tcattr(self, I, st, flags, **_):
        self.put(st, "flags", flags)        # keeps what is found out about them

    def on_launched(self, I, st, proc, **_):
        self.put(st, "up", TRUE)

    def on_fault(self, I, st, name, exc, **_):
        self.put(st, "fault", TRUE)

    def on_mark(self, I, st, name, args, **_):
        if name == "input":
            self.put(st, "input", Tup([args[0]]))
        elif name == "pty":
            self.put(st, "pty", TRUE)
        elif name == "getvalue":
            pass

    def raw(self, I, st, v):
        "Byte/text data as pieces, looking through encoding."
        if v.tag == "sym" and v.parts[0] == "bin" and v.parts[1] is K("Add"):
            a, b = self.raw(I, st, v.parts[2]), self.raw(I, st, v.parts[3])
            return a + b if a is not None and b is not None else None
        if v.tag == "sym" and v.parts[0] == "bin" and v.parts[1] is K("Mult"):
            a, n = v.parts[2:4] if v.parts[3].tag == "k" else (v.parts[3], v.parts[2])
            a = self.raw(I, st, a)
            return a * kval(n) if a is not None and n.tag == "k" else None
        if self.is_eof_char(v):
            return [v]
        ps = I.models.pieces(v, st)
        if ps is None:
            return None
        out = []
        for p in ps:
            if p.tag == "sym" and p.parts[0] == "enc":
                q = self.raw(I, st, p.parts[1])
                if q is None:
                    return None
                out += q
            else:
                out.append(p)
        return out

    def is_eof_char(self, p):
        "The terminal's own end-of-file character (an element of tcgetattr's answer)."
        return p.tag == "sym" and p.parts[0] == "cc" and p.parts[2] is K(termios.VEOF) or p is K(b"\x04")

    def end(self, I, st, out):
        if not self.get(st, "up"):
            return
        if isinstance(out, Raise):
            if exc_is(I, st, out, BrokenPipeError) or exc_is(I, st, out, ConnectionResetError):
                if self.get(st, "fault"):
                    self.bad(I, st, "early-close", "a child that stops reading its input makes the command fail", construct="stdin", where="end")
                return
            if exc_name(I, st, out) != "ResultError":
                return
        m = I.models
        inp = self.get(st, "input").parts[0][0]
        want = list(self.get(st, ("got", "reader"), Tup(())).parts[0]) if inp is K("reader") else self.raw(I, st, I.norm(inp, st))
        have = []
        for x in self.get(st, "written", Tup(())).parts[0]:
            r = self.raw(I, st, I.norm(x, st))
            if r is None or any(p.tag == "sym" and p.parts[0] == "fresh" for p in r):
                I.note(f"undecided: {show(x)}")
                return
            have += r
        n = 0
        if self.get(st, "pty"):
            while have and self.is_eof_char(have[-1]) and not (want and have[-1] is want[-1] and len(have) <= len(want)):
                have.pop()
                n += 1
        elif not self.get(st, "eof-sent"):
            self.bad(I, st, "no-eof", "stdin is never closed, so the program waits for more input for ever", construct="stdin", where="end")
        elif self.get(st, "eof-sent") is K("late"):
            self.bad(I, st, "late-eof", "stdin is closed only after the program has exited, so a program that reads to end of file never exits", construct="stdin", where="end")
        if self.get(st, "fault"):
            return
        have = self.merged(m, have)
        want = self.merged(m, want)
        if have != want:
            self.bad(I, st, "content", f"the program is sent [{', '.join(map(show, have))}] instead of [{', '.join(map(show, want))}]", construct="stdin", where="end")
        elif inp is K("reader") and not self.get(st, ("eof", "reader")):
            self.bad(I, st, "content", "the input stream is not copied to its end", construct="stdin", where="end")
        elif self.get(st, "pty"):
            self.eofs(I, st, want, n)

    def merged(self, m, ps):
        out = []
        for p in ps:
            if out and out[-1].tag == "k" and p.tag == "k" and type(kval(p)) is type(kval(out[-1])):
                out[-1] = K(kval(out[-1]) + kval(p))
            else:
                out.append(p)
        return out

    def eofs(self, I, st, want, n):
        canon = self.canonical(st)
        if canon is False:
            if n:
                self.bad(I, st, "eof-raw", "an end-of-file character is sent to a terminal that is not in canonical mode", construct="stdin", where="end")
            return
        if n == 0:
            if canon:
                self.bad(I, st, "no-eof", "no end-of-file character is sent to the terminal", construct="stdin", where="end")
            return
        if n > 2:
            self.bad(I, st, "eof-count", f"{n} end-of-file characters are sent", construct="stdin", where="end")
        if not want:
            return
        last = want[-1]
        if last.tag == "k":
            t = kval(last)
            nl = t.endswith("\n" if isinstance(t, str) else b"\n")
        else:
            nl = self.newline(I, st, last)
            if nl is None:
                return
            if nl == "unexamined":
                self.bad(I, st, "eof-count", f"{n} end-of-file characters are sent whether or not the last piece of input ends with a newline", construct="stdin", where="end")
                return
        if n != (1 if nl else 2):
            self.bad(I, st, "eof-count", f"after {'a whole' if nl else 'a partial'} line the end-of-file character is sent {n} times", construct="stdin", where="end")

    def newline(self, I, st, last):
        for v, f in st.facts.items():
            if v.tag == "sym" and v.parts[0] == "call" and v.parts[1] is K("data.endswith") and v.parts[3] is K(b"\n") and f.truth is not None:
                w = v.parts[2]
                if w is last or w.tag == "sym" and w.parts[0] == "enc" and w.parts[1] is last:
                    return f.truth
        for v in st.facts:
            ws = list(walk(v))
            if last in ws and any(w.tag == "k" and kval(w) in (b"\n", "\n") for w in ws):
                return None
        return "unexamined"

    def canonical(self, st):
        "Did the code find the terminal in canonical mode?"
        def masked(v):
            return (v.tag == "sym" and v.parts[0] == "bin" and v.parts[1] is K("BitAnd") and K(termios.ICANON) in v.parts[2:4]
                    and self.get(st, "flags") is not None and self.get(st, "flags") in v.parts[2:4])
        for v, f in st.facts.items():
            if f.truth is None or v.tag != "sym":
                continue
            if masked(v):
                return f.truth
            if v.parts[0] == "eq" and any(masked(w) for w in v.parts[1:3]):
                if K(0) in v.parts[1:3]:
                    return not f.truth
                if K(termios.ICANON) in v.parts[1:3]:
                    return f.truth
        return None


IN = {
    "str": ('text = __sym__("text", str)', 'cmd.stdin(text)', "text"),
    "bytes": ('data = __sym__("data", bytes)', 'cmd.stdin(data)', "data"),
    "bytes-pipe": ('data = __sym__("data", bytes)', '(data | cmd)', "data"),
    "bytearray": ('data = __sym__("data", bytes)', 'cmd.stdin(bytearray(data))', "data"),
    "stringio": ('text = __sym__("text", str)', 'cmd.stdin(io.StringIO(text))', "text"),
    "bytesio": ('data = __sym__("data", bytes)', 'cmd.stdin(io.BytesIO(data))', "data"),
    "reader": ('r = __new__(asyncio.StreamReader, "reader")', 'cmd.stdin(r)', '"reader"'),
    "empty": ("pass", 'cmd.stdin("")', 'b""'),
    "line": ("pass", 'cmd.stdin("a line\\n")', 'b"a line\\n"'),
    "partial": ("pass", 'cmd.stdin(b"no newline")', 'b"no newline"'),
    "default": ("pass", "cmd", 'b""'),
}


def inputs(k, pty=False):
    decl, cmd, val = IN[k]
    mark = '__mark__("pty")' if pty else ""
    return PRE + f'''
async def main():
    cmd = sh("/bin/prog").stdout(sh.DEVNULL).stderr(sh.DEVNULL){".set(pty=True)" if pty else ""}
    {decl}
    {mark}
    __mark__("input", {val})
    return await {cmd}
'''


def inputs_with(k):
    decl, cmd, val = IN[k]
    return PRE + f'''
async def main():
    cmd = sh("/bin/prog").stdout(sh.DEVNULL).stderr(sh.DEVNULL)
    {decl}
    __mark__("input", {val})
    async with {cmd} as run:
        await __body__("body")
'''


BROKEN = {"StreamWriter.drain": [BrokenPipeError, ConnectionResetError]}


def d03_jobs(tier):
    M = [Input("D03")]
    E = dict(DE, max_reads=3 if tier == "quick" else 5)
    js = [Job("in-" + k, inputs(k), M, faults=1, raises=BROKEN, **E) for k in IN]
    js += [Job("with-" + k, inputs_with(k), M, faults=1, raises=BROKEN, **E) for k in ("str", "reader", "default")]
    js += [Job("pty-" + k, inputs(k, True), M, **E) for k in IN if k != "default"]
    js.append(Job("pty-reader-text", inputs("reader", True), M, **dict(E, contents=(b"partial", b"line\n", b"line\npartial", b"\n", b"\npartial"))))
    return js


CHECKS["D03"] = Check("All of stdin is written, then end-of-file is signalled", "the sequence of pieces written to the child's stdin equals the input, the end is signalled afterwards and not only after the child's exit; on a terminal by its end-of-file character", d03_jobs,
                      "Every input type with opaque contents, with and without a terminal, also when the child stops reading (BrokenPipeError, ConnectionResetError while draining).", ASSUME,
                      technique="abstract interpretation over provenance sequences")


# ------------------------------------------------------------------ D04

class Binding(Monitor):
    """What each standard stream of the child is bound to.

    __mark__("bind", stream, "pipe" | "value" | "read" | "write" | "append" [, value or path])
    __mark__("captured", stream, obj)   the object offered to the caller is the process's stream
    __mark__("absent", stream, obj)     no stream is offered
    __mark__("unsupported")             TypeError before launch"""
    name = "D04"

    def on_mark(self, I, st, name, args, **_):
        if name == "bind":
            self.put(st, ("bind", kval(args[0])), Tup(args[1:]))
        elif name == "unsupported":
            self.put(st, "unsupported", TRUE)
        elif name == "offered":
            if I.norm(args[1], st) is NONE:
                self.bad(I, st, "capture", f"{kval(args[0])} of a command on a terminal is captured by default but not offered to the caller", construct=kval(args[0]), where="driver")
        elif name in ("captured", "absent"):
            s, v = kval(args[0]), I.norm(args[1], st)
            if name == "captured":
                ok = v.tag == "sym" and v.parts[0] == "procstream" and v.parts[1] is K(s)
                for other in args[2:]:
                    if I.norm(other, st) is not NONE:
                        self.bad(I, st, "capture", f"{show(other)} is offered to the caller although only {s} is captured", construct=s, where="driver")
                if not ok:
                    self.bad(I, st, "capture", f"the captured {s} is offered to the caller as {show(v)}", construct=s, where="driver")
            elif v is not NONE:
                self.bad(I, st, "capture", f"{s} is redirected but still offered to the caller as {show(v)}", construct=s, where="driver")

    def on_ext(self, I, st, name, args, node, kw=None, recv=None, **_):
        if name == "os.open":
            self.put(st, "osopen", Tup([I.norm(args[0], st), I.norm(args[1], st) if len(args) > 1 else K(0)]))

    def on_opened(self, I, st, fd, what, node, **_):
        if what == "os.open":
            self.put(st, ("osopen", fd), self.get(st, "osopen"))
        elif what == "pty_child":
            self.put(st, "terminal", fd)

    def bound(self, I, st, kind, e, got):
        if kind == "pipe":
            return got is K(-1) or I.enum_int(got) == -1
        if kind == "terminal":
            return got is self.get(st, "terminal")
        if kind == "value":
            want = I.norm(e[1], st)
            if got is want or I.enum_int(got) is not None and I.enum_int(got) == I.enum_int(want):
                return True
            return got.tag == "sym" and got.parts[0] == "call" and "fileno" in str(got.parts[1]) and want in got.parts
        want = {"read": "r", "write": "w", "append": "a"}[kind]
        if got.tag == "ref" and "mode" in st.get(got.parts[0]).f:
            f = st.get(got.parts[0]).f
            if not is_k(f["mode"], str):
                return None
            return set(kval(f["mode"])) - set("bt") == {want} and self.same_path(I, st, f.get("path"), e[1])
        o = self.get(st, ("osopen", got))
        if o is not None:
            path, flags = o.parts[0]
            n = I.enum_int(flags) if flags.tag != "k" else kval(flags)
            if not isinstance(n, int):
                return None
            if kind == "read":
                ok = n & os.O_ACCMODE == os.O_RDONLY
            else:
                ok = n & os.O_ACCMODE in (os.O_WRONLY, os.O_RDWR) and n & os.O_CREAT and bool(n & os.O_APPEND) == (kind == "append") and bool(n & os.O_TRUNC) == (kind == "write")
            return bool(ok) and self.same_path(I, st, path, e[1])
        return False

    def same_path(self, I, st, got, want):
        if got is None:
            return False
        got, want = I.norm(got, st), I.norm(want, st)
        return got is want or any(x is want for x in walk(got))

    def on_exec(self, I, st, args, kw, node):
        self.put(st, "exec", TRUE)
        if self.get(st, "unsupported"):
            self.bad(I, st, "unsupported", "a command with an unsupported redirection is launched", construct="launch")
            return
        for s in ("stdin", "stdout", "stderr"):
            e = self.get(st, ("bind", s))
            if e is None:
                continue
            e = e.parts[0]
            kind = kval(e[0])
            got = I.norm(kw.get(s, NONE), st)
            ok = self.bound(I, st, kind, e, got)
            if ok is None:
                I.note(f"undecided: {s} {show(got)}")
            elif not ok:
                want = {"pipe": "a pipe", "terminal": "the terminal", "value": show(e[1]) if len(e) > 1 else ""}.get(kind, f"the file opened to {kind}")
                text = show(got)
                if got.tag == "ref" and "mode" in st.get(got.parts[0]).f:
                    text = f"a file opened with mode {show(st.get(got.parts[0]).f['mode'])}"
                self.bad(I, st, "binding", f"{s} is bound to {text} instead of {want}", construct=f"{s} {kind}", where="exec")

    def end(self, I, st, out):
        if self.get(st, "unsupported"):
            if not (isinstance(out, Raise) and exc_name(I, st, out) == "TypeError"):
                self.bad(I, st, "unsupported", "an unsupported redirection does not raise TypeError but " +
                         (exc_name(I, st, out) if isinstance(out, Raise) else "returns"), construct="unsupported", where="end")
        elif not self.get(st, "exec") and isinstance(out, Raise) and exc_name(I, st, out) in ("TypeError", "ValueError", "AttributeError", "AssertionError"):
            self.bad(I, st, "rejected", f"a documented redirection raises {exc_name(I, st, out)}", construct="launch", where="end")


B_IN = PRE + '''
async def main():
    cmd = sh("/bin/prog").stdout(sh.DEVNULL).stderr(sh.DEVNULL)
    op = __choose__(True, False)
    k = __choose__("default", "str", "bytes", "bytearray", "stringio", "bytesio", "reader", "path", "fd", "null", "inherit", "file", "textfile", "rawfile", "capture", "fd-close")
    v = None
    if k in ("default", "str", "bytes", "bytearray", "stringio", "bytesio", "reader", "capture"):
        __mark__("bind", "stdin", "pipe")
    if k == "str": v = __sym__("text", str)
    elif k == "bytes": v = __sym__("data", bytes)
    elif k == "bytearray": v = bytearray(__sym__("data", bytes))
    elif k == "stringio": v = io.StringIO("text")
    elif k == "bytesio": v = io.BytesIO(b"data")
    elif k == "reader": v = __new__(asyncio.StreamReader, "reader")
    elif k == "capture": v = sh.CAPTURE
    elif k == "path":
        v = Path("in")
        __mark__("bind", "stdin", "read", v)
    elif k == "fd":
        v = __sym__("fd", int)
        __mark__("bind", "stdin", "value", v)
    elif k == "fd-close":
        v = __sym__("fd", int)
        __mark__("bind", "stdin", "value", v)
    elif k == "null":
        v = sh.DEVNULL
        __mark__("bind", "stdin", "value", asyncio.subprocess.DEVNULL)
    elif k == "inherit":
        v = sh.INHERIT
        __mark__("bind", "stdin", "value", sys.stdin)
    elif k in ("file", "textfile", "rawfile"):
        v = __new__(io.BufferedReader if k == "file" else io.TextIOWrapper if k == "textfile" else io.FileIO, "file")
        __mark__("bind", "stdin", "value", v)
    if k == "fd-close":
        cmd = cmd.stdin(v, close=True)
    elif k != "default":
        cmd = (v | cmd) if op else cmd.stdin(v)
    async with cmd as run:
        if k == "capture":
            __mark__("captured", "stdin", run.stdin, run.stdout, run.stderr)
        else:
            __mark__("absent", "stdin", run.stdin)
        await __body__("body")
'''


def b_out(s):
    other = "stderr" if s == "stdout" else "stdout"
    op = '''if op and s == "stdout":
        cmd = cmd | v
    ''' if s == "stdout" else '''if False:
        pass
    '''
    return PRE + f'''
async def main():
    s = "{s}"
    cmd = sh("/bin/prog").stdin(sh.DEVNULL).{other}(sh.DEVNULL)
    op = __choose__(0, 1, 2)
    k = __choose__("default", "buffer", "bytearray", "stringio", "bytesio", "logger", "writer", "path", "fd", "null", "inherit", "file", "textfile", "capture")
    v = None
    if k in ("default", "buffer", "bytearray", "stringio", "bytesio", "logger", "writer", "capture"):
        __mark__("bind", s, "pipe")
    if k == "buffer": v = sh.BUFFER
    elif k == "bytearray": v = bytearray()
    elif k == "stringio": v = io.StringIO()
    elif k == "bytesio": v = io.BytesIO()
    elif k == "logger": v = __new__(logging.Logger, "log")
    elif k == "writer": v = __new__(asyncio.StreamWriter, "writer")
    elif k == "capture": v = sh.CAPTURE
    elif k == "path":
        v = Path("out")
        __mark__("bind", s, "append" if op == 2 else "write", v)
    elif k == "fd":
        v = __sym__("fd", int)
        __mark__("bind", s, "value", v)
    elif k == "null":
        v = sh.DEVNULL
        __mark__("bind", s, "value", asyncio.subprocess.DEVNULL)
    elif k == "inherit":
        v = sh.INHERIT
        __mark__("bind", s, "value", sys.{s})
    elif k in ("file", "textfile"):
        v = __new__(io.BufferedWriter if k == "file" else io.TextIOWrapper, "file")
        __mark__("bind", s, "value", v)
    if k != "default":
        if op == 0:
            cmd = cmd.{s}(v)
        elif op == 1:
            {"cmd = cmd | v" if s == "stdout" else "cmd = cmd.stderr(v, append=False)"}
        else:
            {"cmd = cmd >> v" if s == "stdout" else "cmd = cmd.stderr(v, append=True)"}
    async with cmd as run:
        if k == "capture":
            __mark__("captured", s, run.{s}, run.stdin, run.{other})
        else:
            __mark__("absent", s, run.{s})
        await __body__("body")
'''


B_MERGE = PRE + '''
async def main():
    cmd = sh("/bin/prog").stdin(sh.DEVNULL).stderr(sh.STDOUT)
    k = __choose__("default", "null", "fd", "path", "capture")
    if k == "null":
        cmd = cmd.stdout(sh.DEVNULL)
        __mark__("bind", "stdout", "value", asyncio.subprocess.DEVNULL)
        __mark__("bind", "stderr", "pipe")
    else:
        __mark__("bind", "stderr", "value", asyncio.subprocess.STDOUT)
        if k == "default": __mark__("bind", "stdout", "pipe")
        elif k == "fd":
            fd = __sym__("fd", int)
            cmd = cmd.stdout(fd)
            __mark__("bind", "stdout", "value", fd)
        elif k == "path":
            p = Path("out")
            cmd = cmd.stdout(p)
            __mark__("bind", "stdout", "write", p)
        else:
            cmd = cmd.stdout(sh.CAPTURE)
            __mark__("bind", "stdout", "pipe")
    async with cmd as run:
        await __body__("body")
'''

B_PTY = PRE + '''
import shellous
def adapt(fd):
    pass
class Adapter:
    def __call__(self, fd):
        pass
async def main():
    k = __choose__("no", "yes", "callable", "cooked", "object")
    p = False
    if k == "yes": p = True
    elif k == "callable": p = adapt
    elif k == "cooked": p = shellous.cooked(24, 80, echo=False)
    elif k == "object": p = Adapter()
    cmd = sh("/bin/prog").set(pty=p)
    i, o, e = __choose__((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1))
    if i:
        cmd = cmd.stdin(sh.DEVNULL)
        __mark__("bind", "stdin", "value", asyncio.subprocess.DEVNULL)
    if o:
        cmd = cmd.stdout(sh.DEVNULL)
        __mark__("bind", "stdout", "value", asyncio.subprocess.DEVNULL)
    if e:
        cmd = cmd.stderr(sh.DEVNULL)
        __mark__("bind", "stderr", "value", asyncio.subprocess.DEVNULL)
    for s, given in (("stdin", i), ("stdout", o), ("stderr", e)):
        if not given:
            __mark__("bind", s, "terminal" if p else "pipe")
    async with cmd as run:
        if p and not i:
            __mark__("offered", "stdin", run.stdin)
        elif not p:
            __mark__("absent", "stdin", run.stdin)
            __mark__("absent", "stdout", run.stdout)
            __mark__("absent", "stderr", run.stderr)
        await __body__("body")
'''

B_BAD = PRE + '''
async def main():
    cmd = sh("/bin/prog")
    k = __choose__(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)
    __mark__("unsupported")
    if k == 0: cmd = cmd.stdin(1.5)
    elif k == 1: cmd = cmd.stdin({"a": 1})
    elif k == 2: cmd = cmd.stdin(("a", "b"))
    elif k == 3: cmd = cmd.stdin(sh.BUFFER)
    elif k == 4: cmd = cmd.stdin(None)
    elif k == 5: cmd = cmd.stdout(1.5)
    elif k == 6: cmd = cmd.stdout("file")
    elif k == 7: cmd = cmd.stdout(b"file")
    elif k == 8: cmd = cmd.stdout(None)
    elif k == 9: cmd = cmd.stderr(1.5)
    elif k == 10: cmd = cmd.stderr("file")
    elif k == 11: cmd = cmd.stderr(None)
    elif k == 12: cmd = cmd.stdout(("a", "b"))
    elif k == 13: cmd = cmd | "file"
    return await cmd
'''


def d04_jobs(tier):
    M = [Binding]
    E = dict(coarse=True, expect=("exec",))
    return [Job("stdin", B_IN, M, **E), Job("stdout", b_out("stdout"), M, **E), Job("stderr", b_out("stderr"), M, **E),
            Job("merged", B_MERGE, M, **E), Job("defaults", B_PTY, M, **E), Job("unsupported", B_BAD, M, coarse=True)]


CHECKS["D04"] = Check("Each redirection type binds the stream it names", "stdin, stdout and stderr given to create_subprocess_exec against the documented table", d04_jobs,
                      "Every documented type for every stream, by method and by operator; the pty rows of the table are decided by T01, the servicing of pipes by D01 to D03.", ASSUME[:0],
                      technique="abstract interpretation against a redirection table")


# ---------------------------------------------------------------- D05

class Mode(Binding):
    name = "D05"


class Kept(Flow):
    """Contents of a user's destination that held something before.

    __mark__("run", append)             a run starts
    __mark__("kept", stream, value, old)   the destination now: old (if appending) and everything delivered
    __mark__("file", obj, old)          a seekable file handed to the child: position and contents at exec"""
    name = "D05"

    def __init__(self):
        pass

    def on_mark(self, I, st, name, args, **_):
        if name == "run":
            app = I.norm(args[0], st) is TRUE
            self.put(st, "append", B(app))
            for k in ("stdout", "stderr"):
                self.put(st, ("eof", k), NONE)
                if not app:
                    self.put(st, ("got", k), Tup(()))
        elif name == "kept":
            self.old = I.norm(args[2], st) if self.get(st, "append") is TRUE else None
            self.check(I, st, kval(args[0]), [I.norm(args[1], st)])
        elif name == "file":
            self.put(st, "file", Tup(args))

    def check(self, I, st, lab, values, strip=False):
        got = list(self.get(st, ("got", lab), Tup(())).parts[0])
        old = self.flatten(I, st, self.old) if self.old is not None else []
        have = []
        for v in values:
            f = self.flatten(I, st, v)
            if f is None:
                I.note(f"undecided: {show(v)}")
                return
            have += f
        have = [x for x in have if not (x.tag == "k" and not kval(x))]
        if have != old + got:
            why = "appending to" if self.old is not None else "replacing"
            self.bad(I, st, "contents", f"after {why} it, the destination of {lab} holds [{', '.join(show(x) for x in have)}] instead of "
                     f"[{', '.join(show(x) for x in old + got)}]", construct=lab + " destination", where="driver")

    def end(self, I, st, out):
        if isinstance(out, Raise) and exc_name(I, st, out) != "ResultError":
            self.bad(I, st, "raises", f"redirecting raises {exc_name(I, st, out)}", construct="redirection", where="end")

    def on_exec(self, I, st, args, kw, node):
        f = self.get(st, "file")
        if f is None:
            return
        obj, old = f.parts[0]
        o = st.get(obj.parts[0])
        d, pos = o.f["data"], o.f.get("pos")
        want = (old, K("end")) if self.get(st, "append") is TRUE else (K(b""), K("start"))
        empty = lambda x: x.tag == "k" and not kval(x)
        if not (d is want[0] or empty(d) and empty(want[0])) or pos is not want[1] and not (pos is K("end") and empty(d)):
            self.bad(I, st, "file", f"the child writes to a file holding {show(d)} at position {show(pos)}; "
                     + ("appending needs the old contents and the end" if want[0] is old else "replacing needs it empty and at the start"), construct="seekable file", where="exec")


def keep_driver(stream, pipe=False):
    other = "stderr" if stream == "stdout" else "stdout"
    if stream == "stdout":
        ops = "cmd = (cmd | dest) if op else cmd.stdout(dest)", "cmd = (cmd >> dest) if op else cmd.stdout(dest, append=True)"
    else:
        ops = "cmd = cmd.stderr(dest)", "cmd = cmd.stderr(dest, append=True) if op else cmd.stderr(append=True, error=dest)"
    base = 'sh("/bin/prog").stdin(sh.DEVNULL)' if not pipe else 'sh("/bin/first") | sh("/bin/prog")'
    last = "pass" if not pipe else "cmd = cmd[-1].stdin(sh.DEVNULL)"
    return PRE + f'''
async def main():
    cmd = {base + f".{other}(sh.DEVNULL)"}
    append = __choose__(False, True)
    op = __choose__(False, True)
    k = __choose__("bytearray", "stringio", "bytesio", "file", "textfile", "nonseek", "path")
    pos = __choose__("start", "end", "?") if k not in ("bytearray", "nonseek", "path") else None
    old = __sym__("old", str if k == "stringio" else bytes)
    if k == "bytearray": dest = __new__(bytearray, "ba", data=old)
    elif k == "stringio": dest = __new__(io.StringIO, "sio", data=old, pos=pos)
    elif k == "bytesio": dest = __new__(io.BytesIO, "bio", data=old, pos=pos)
    elif k == "file": dest = __new__(io.BufferedWriter, "file", data=old, pos=pos)
    elif k == "textfile": dest = __new__(io.TextIOWrapper, "file", data=old, pos=pos)
    elif k == "nonseek": dest = __new__(io.BufferedWriter, "file", noseek=True)
    elif k == "path":
        dest = Path("out")
        __mark__("bind", "{stream}", "append" if append else "write", dest)
    if append:
        {ops[1]}
    else:
        {ops[0]}
    {last}
    if k in ("file", "textfile"):
        __mark__("file", dest, old)
    for i in range(2 if k in ("bytearray", "stringio", "bytesio") and pos in (None, "start") else 1):
        __mark__("run", append)
        await cmd.set(_return_result=True)
        if k == "bytearray":
            __mark__("kept", "{stream}", bytes(dest), old)
        elif k in ("stringio", "bytesio"):
            __mark__("kept", "{stream}", dest.getvalue(), old)
'''


def d05_jobs(tier):
    M = [Mode, Kept]
    E = dict(DE, max_reads=2 if tier == "thorough" else 1)
    out = [Job(s, keep_driver(s), M, **E) for s in ("stdout", "stderr")]
    out.append(Job("pipeline", keep_driver("stdout", pipe=True), M, **E))
    return out


CHECKS["D05"] = Check("Truncate or append is honoured for every output type", "contents of the destination before, and after one and two runs, against old + delivered or delivered alone; open modes and file positions at exec", d05_jobs,
                      "A file object is described by its contents and its position (start, end, elsewhere); a path by the mode it is opened with.", ASSUME[:1],
                      technique="abstract interpretation with a symbolic model of buffer contents and positions")


# ---------------------------------------------------------------- D06

class Codec(Flow):
    """Conversions between text and bytes.

    __mark__("codec", encoding, errors)      what the command is configured with
    __mark__("text", stream, value)          text offered for a stream"""
    name = "D06"

    def __init__(self):
        pass

    def on_mark(self, I, st, name, args, **_):
        if name == "codec":
            self.put(st, "codec", Tup([I.norm(a, st) for a in args]))
        elif name == "usertext":
            self.put(st, "usertext", args[0])
        elif name == "text":
            self.offered(I, st, kval(args[0]), I.norm(args[1], st))
        elif name == "texts":
            for v in I.models.known_items(args[1], st) or ():
                self.offered(I, st, kval(args[0]), I.norm(v, st))
        elif name == "logger":
            self.put(st, "logger", Tup([args[0]]))
        elif name == "logged":
            for v in self.get(st, "logged", Tup(())).parts[0]:
                self.offered(I, st, kval(args[0]), v)

    def offered(self, I, st, lab, v):
        if v.tag == "sym" and v.parts[0] == "call":
            return
        for p in I.models.pieces(v, st) or ():
            if p.tag == "sym" and p.parts[0] in ("chunk", "part", "seq"):
                self.bad(I, st, "bytes", f"text from {lab} contains undecoded bytes {show(p)}", construct=lab, where="driver")
            elif p.tag == "sym" and p.parts[0] == "text":
                self.put(st, "seen", TRUE)

    def right(self, I, st, enc, errors, node, what):
        want = self.get(st, "codec")
        if want is None:
            return
        enc, errors = I.norm(enc, st), I.norm(errors, st)
        for got, w, k in ((enc, want.parts[0][0], "encoding"), (errors, want.parts[0][1], "error handler")):
            if not is_k(got, str):
                I.note(f"undecided: {k} {show(got)}")
            elif kval(got).lower().replace("_", "-") != kval(w).lower():
                self.bad(I, st, k.split()[0], f"{what} uses {k} {show(got)} where the command is configured with {show(w)}")

    def on_encode(self, I, st, v, enc, errors, node, **_):
        if not any(x is self.get(st, "usertext") for x in walk(v)):
            return
        self.right(I, st, enc, errors, node, "encoding the input")

    def on_io_cancelled(self, I, st, name, recv, **_):
        # reading was interrupted: what was collected has no particular end
        if name in READS and recv is not None:
            self.put(st, ("cut", self.label(I, recv, st)), TRUE)

    def on_decode(self, I, st, v, enc, errors, how, dec, node, **_):
        ps = I.models.pieces(v, st)
        if ps is None or any(x.tag == "sym" and x.parts[0] == "fresh" for x in ps):
            I.note(f"undecided: {show(v)}")
            return
        chunks = [x for p in ps for x in walk(p) if x.tag == "sym" and x.parts[0] == "chunk"]
        if chunks or how != "whole":
            self.right(I, st, enc, errors, node, "decoding output")
        if how == "whole":
            if not chunks or all(p.tag == "sym" and p.parts[0] == "chunk" and p.parts[4] in (K("line"), K("rest")) for p in ps):
                return
            lab = self.label(I, chunks[0].parts[1], st)
            got = list(self.get(st, ("got", lab), Tup(())).parts[0])
            if self.get(st, ("cut", lab)):
                return
            if not self.get(st, ("eof", lab)) or [p for p in ps] != got:
                self.bad(I, st, "boundary", f"a piece of {lab} that need not end at a character boundary is decoded on its own")
            return
        for c in chunks:
            lab = self.label(I, c.parts[1], st)
            old = self.get(st, ("dec", lab))
            if old is not None and old is not dec:
                self.bad(I, st, "boundary", f"consecutive pieces of {lab} are decoded by different incremental decoders")
            self.put(st, ("dec", lab), dec)
            if how == "fin" and not self.get(st, ("eof", lab)):
                self.bad(I, st, "boundary", f"the incremental decoder of {lab} is finished before the end of file")


CODECS = '''
    enc = __choose__("latin-1 replace", "utf-16", None)
    if enc == "latin-1 replace": __mark__("codec", "latin-1", "replace")
    elif enc == "utf-16": __mark__("codec", "utf-16", "strict")
    else: __mark__("codec", "utf-8", "strict")
'''
SETENC = "cmd = cmd.set(encoding=enc) if enc else cmd"

C_OUT = PRE + '''
async def main():''' + CODECS + '''
    s = __choose__("out", "err", "stringio", "errio", "log", "errlog", "iter", "iterrun", "itererr", "pipeiter", "pipe", "str")
    cmd = sh("/bin/prog")
    ''' + SETENC + '''
    if s == "str":
        r = await cmd.stdin(sh.DEVNULL).stderr(sh.DEVNULL)
        __mark__("text", "stdout", r)
    elif s == "out":
        r = await cmd.stdin(sh.DEVNULL).stderr(sh.DEVNULL).set(_return_result=True)
        __mark__("text", "stdout", r.output)
    elif s == "err":
        r = await cmd.stdin(sh.DEVNULL).stdout(sh.DEVNULL).set(_return_result=True, error_limit=None)
        __mark__("text", "stderr", r.error)
    elif s == "stringio" or s == "errio":
        buf = io.StringIO()
        cmd = cmd.stdout(buf).stderr(sh.DEVNULL) if s == "stringio" else cmd.stdout(sh.DEVNULL).stderr(buf)
        await cmd.stdin(sh.DEVNULL).set(_return_result=True)
        __mark__("text", "stream", buf.getvalue())
    elif s == "log" or s == "errlog":
        log = __new__(logging.Logger, "log")
        __mark__("logger", log)
        cmd = cmd.stdout(log).stderr(sh.DEVNULL) if s == "log" else cmd.stdout(sh.DEVNULL).stderr(log)
        await cmd.stdin(sh.DEVNULL).set(_return_result=True)
        __mark__("logged", "stream")
    elif s == "iter":
        lines = []
        async for line in cmd.stdin(sh.DEVNULL).stderr(sh.DEVNULL):
            lines.append(line)
        __mark__("texts", "stdout", lines)
    elif s == "iterrun":
        lines = []
        async with cmd.stdin(sh.DEVNULL).stdout(sh.CAPTURE).stderr(sh.DEVNULL) as run:
            async for line in run:
                lines.append(line)
        __mark__("texts", "stdout", lines)
    elif s == "itererr":
        lines = []
        async with cmd.stdin(sh.DEVNULL).stdout(sh.DEVNULL).stderr(sh.CAPTURE) as run:
            async for line in run:
                lines.append(line)
        __mark__("texts", "stderr", lines)
    elif s == "pipeiter":
        lines = []
        async for line in sh("/bin/first").stdin(sh.DEVNULL).stderr(sh.DEVNULL) | cmd.stderr(sh.DEVNULL):
            lines.append(line)
        __mark__("texts", "stdout", lines)
    elif s == "pipe":
        r = await (sh("/bin/first").stdin(sh.DEVNULL).stderr(sh.DEVNULL) | cmd.stderr(sh.DEVNULL)).result
        __mark__("text", "stdout", r.output)
'''

C_IN = PRE + '''
async def main():''' + CODECS + '''
    s = __choose__("str", "stringio", "pipestr")
    text = __sym__("text", str)
    __mark__("usertext", text)
    cmd = sh("/bin/prog").stdout(sh.DEVNULL).stderr(sh.DEVNULL)
    ''' + SETENC + '''
    if s == "str":
        await cmd.stdin(text)
    elif s == "stringio":
        await cmd.stdin(__new__(io.StringIO, "sio", data=text, pos="start"))
    elif s == "pipestr":
        await (text | (cmd.stdout(sh.INHERIT) | sh("/bin/last").stdout(sh.DEVNULL).stderr(sh.DEVNULL)))
'''

C_PROMPT = PRE + '''
async def main():''' + CODECS + '''
    text = __sym__("text", str)
    __mark__("usertext", text)
    cmd = sh("/bin/prog").stderr(sh.DEVNULL)
    ''' + SETENC + '''
    nl = __choose__(False, True)
    async with cmd.prompt(normalize_newlines=nl) as cli:
        if __choose__(False, True):
            await cli.send(text)
        t = await cli.read_all()
        __mark__("text", "stdout", t)
'''

C_EXPECT = PRE + '''
async def main():''' + CODECS + '''
    cmd = sh("/bin/prog").stderr(sh.DEVNULL)
    ''' + SETENC + '''
    async with cmd.prompt("$ ") as cli:
        try:
            t, m = await cli.expect()
            __mark__("text", "stdout", t)
        except EOFError:
            pass
        __mark__("text", "stdout", cli.read_pending())
'''


def d06_jobs(tier):
    M = [Codec]
    n = 2 if tier == "quick" else 3
    E = dict(data="chunks", max_reads=n, expect=("launched",))
    return [Job("output", C_OUT, M, **E), Job("input", C_IN, M, **dict(E, max_reads=1)), Job("prompt", C_PROMPT, M, **E), Job("expect", C_EXPECT, M, **E)]


CHECKS["D06"] = Check("Text conversion uses the configured encoding at safe boundaries", "codec and error handler of every conversion of a command's data; what is decoded at once is a whole stream, whole lines, or passes one incremental decoder", d06_jobs,
                      "Three configurations of the encoding setting; the default, one with and one without an error handler.",
                      ASSUME[:1] + ("A line ends with the byte 0x0A, as in every ASCII-compatible encoding.",),
                      technique="provenance analysis of conversions by abstract interpretation")
