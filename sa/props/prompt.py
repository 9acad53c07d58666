"""The Prompt (send/expect) API."""

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, exc_is, exc_name
from .api import redirect

PRE = '''
from shellous import sh, Result
from shellous.prompt import Prompt
from shellous import pty_util
import asyncio, re, io, codecs
STREAMS = []
PTY = []

async def fake_aenter(run):
    run.stdin, run.stdout = STREAMS[0], STREAMS[1]
    if len(PTY) > 0:
        run._options.pty_fds = PTY[0]
    return run

async def fake_aexit(run, et, ev, tb):
    return None

def fake_result(run, check=True):
    return Result(exit_code=__sym__("code", int), output_bytes=b"", error_bytes=__sym__("stderr", bytes), cancelled=False, encoding="utf-8")

def setup(pty=False):
    STREAMS.append(__new__(asyncio.StreamWriter, "stdin"))
    STREAMS.append(__new__(asyncio.StreamReader, "stdout"))
    __mark__("streams", STREAMS[0], STREAMS[1])
    if pty:
        fd = __sym__("fd-pty", int)
        PTY.append(pty_util.PtyFds(fd, None, b"\\x04", STREAMS[1], STREAMS[0]))
        __mark__("pty", fd)

async def attempt(cli, what, timeout, text="x"):
    P = __sym__("pattern", re.Pattern)
    __mark__("op", what, timeout, cli)
    try:
        if what == "expect":
            r = await cli.expect(P, timeout=timeout)
            __mark__("got", r[0])
            __mark__("match", r[1])
            __mark__("got", r[1].group(0))
        elif what == "default":
            r = await cli.expect(timeout=timeout)
            __mark__("got", r[0])
            __mark__("match", r[1])
            __mark__("got", r[1][0])
        elif what == "read_all":
            __mark__("got", await cli.read_all(timeout=timeout))
        elif what == "pending":
            __mark__("got", cli.read_pending())
        elif what == "send":
            await cli.send(text, timeout=timeout)
        elif what == "command":
            __mark__("response", await cli.command(text, prompt=P, timeout=timeout))
        elif what == "quiet":
            await cli.send(text, no_echo=True, timeout=timeout)
        elif what == "quiet_command":
            await cli.command(text, no_echo=True, prompt=P, timeout=timeout)
        elif what == "command_default":
            __mark__("response", await cli.command(text, timeout=timeout))
        elif what == "command_eof":
            __mark__("response", await cli.command(text, prompt=P, timeout=timeout, allow_eof=True))
    except asyncio.TimeoutError:
        __mark__("done", what, "TimeoutError", cli)
    except EOFError:
        __mark__("done", what, "EOFError", cli)
    except asyncio.CancelledError:
        __mark__("done", what, "CancelledError", cli)
    except Exception as ex:
        __mark__("done", what, type(ex).__name__, cli)
    else:
        __mark__("done", what, None, cli)
'''

STUBS = {"Runner.__aenter__": redirect("fake_aenter"), "Runner.__aexit__": redirect("fake_aexit"), "Runner.result": redirect("fake_result")}


class Streams(Monitor):
    def on_mark(self, I, st, name, args, **_):
        if name == "streams":
            self.put(st, "stdin", args[0])
            self.put(st, "stdout", args[1])
        f = getattr(self, "mark_" + name, None)
        if f is not None:
            f(I, st, *args)

    def pending(self, I, st, cli):
        "The text in Prompt.pending, or None."
        outs = I.getattr(cli, "pending", st.fork(), None)
        if len(outs) != 1 or isinstance(outs[0][0], Raise):
            return None
        return I.norm(outs[0][0], st)

    def end(self, I, st, out):
        if isinstance(out, Raise):
            self.bad(I, st, "raises", f"the prompt session fails with {exc_name(I, st, out)}", construct=exc_name(I, st, out), where="end")


class Lossless(Streams):
    "What was read equals, in order, what was returned followed by what is pending."
    name = "R01"

    def items(self, st, key):
        v = self.get(st, key)
        return v.parts[0] if v is not None else ()

    def on_decoded(self, I, st, dec, inner, value, **_):
        xs = self.items(st, "in")
        if inner is not NONE:
            xs = xs[:-1]
        self.put(st, "in", Tup(xs + (value,)))

    def on_io_done(self, I, st, name, recv, value, **_):
        if recv is not self.get(st, "stdout") or not name.startswith("StreamReader."):
            return
        ps = I.models.pieces(value, st)
        if not ps:
            self.put(st, "eof", TRUE)
        self.put(st, "read", Tup(self.items(st, "read") + tuple(ps or ())))

    def on_decode(self, I, st, v, how, **_):
        ps = I.models.pieces(v, st)
        want = self.items(st, "read")
        if ps is None:
            return
        have = self.items(st, "decoded") + tuple(ps)
        self.put(st, "decoded", Tup(have))
        if self.merged(I, have) != self.merged(I, want)[:len(self.merged(I, have))]:
            self.bad(I, st, "decoding", f"what is decoded ({self.say(I, st, have)}) is not what was read ({self.say(I, st, want)})", construct="decoder")
        self.put(st, "final", B(how != "inc"))

    def merged(self, I, ps):
        s = I.models.seq("b", list(ps))
        return tuple(I.models.split(s))

    def say(self, I, st, ps):
        def one(p):
            if p.tag == "sym" and p.parts[0] == "mpart":
                return f"{kval(p.parts[2])}({say(I.models.flat1(I.models.match_text(p.parts[1]), st))})"
            if p.tag == "sym" and p.parts[0] == "text":
                return "+".join(f"read#{kval(q.parts[2])}" if q.tag == "sym" and q.parts[0] == "chunk" else show(q) for q in I.models.split(p.parts[1])) or "flush"
            if p.tag == "sym" and p.parts[0] == "chunk":
                return f"read#{kval(p.parts[2])}"
            return show(p)
        def say(qs):
            return " ".join(one(q) for q in qs) or "nothing"
        return say(list(ps))

    def mark_got(self, I, st, v):
        self.put(st, "out", Tup(self.items(st, "out") + (I.norm(v, st),)))

    def mark_response(self, I, st, v):
        "The response of command(): the prompt that ended it is consumed with it."
        v = I.norm(v, st)
        xs = (v,)
        m = self.get(st, "last")
        if m is not None and [b for b, _ in I.truth(m, st.fork())] == [True]:
            xs += (I.models.match_part(m, "match"),)
        self.put(st, "out", Tup(self.items(st, "out") + xs))

    def mark_op(self, I, st, what, timeout, cli):
        for k in ("last", "searched", "failed"):
            st.mon.pop((self.name, k), None)
        self.put(st, "op", what)
        p = self.pending(I, st, cli)
        if p is not None:
            self.put(st, "before", p)

    def on_search(self, I, st, pattern, text, **_):
        self.put(st, "searched", TRUE)
        self.put(st, "last", Sym("call", K("re.search"), pattern, text, ty=Py(I.models.RE_MATCH), exact=True, opt=True))

    def on_await(self, I, st, v, **_):
        if v.tag != "aw" or v.parts[0] != "io" or not str(kval(v.parts[1])).startswith("StreamReader."):
            return
        op = self.get(st, "op")
        if op is None or kval(op) not in ("expect", "default") or self.get(st, "searched") is not None:
            return
        before = self.get(st, "before")
        if before is not None and I.models.flat(before, st):
            # reading without having searched
            for b, s in I.truth(before, st.fork()):
                if b:
                    self.bad(I, st, "not-searched", "expect() reads from the co-process without having searched the text it already holds")
                    return

    def flat1(self, I, st, x):
        r = I.models.flat1(x, st)
        return r if r is not None else [Sym("bad", x, ty=Py(str), exact=True)]

    def on_fault(self, I, st, name, **_):
        if name == "bytes.decode":
            self.put(st, "failed", TRUE)

    def mark_done(self, I, st, what, how, cli):
        if how is NONE and self.get(st, "failed") is not None:
            self.bad(I, st, "error-lost", f"{kval(what)}() returns normally although output read meanwhile could not be decoded and is lost", construct=kval(what), where="after the call")
            return
        p = self.pending(I, st, cli)
        if p is None:
            I.note("Prompt.pending undecided")
            return
        self.at_eof(I, st, what, p, cli)
        have = I.models.seq("t", [q for x in self.items(st, "out") + (p,) for q in self.flat1(I, st, x)])
        have = I.models.flat(have, st)
        want = [q for x in self.items(st, "in") for q in self.flat1(I, st, x)]
        # what a match divides may be known to be empty on this path
        have = [q for q in have if not (q.tag == "sym" and st.fact(q).truth is False)]
        want = [q for q in want if not (q.tag == "sym" and st.fact(q).truth is False)]
        if have != want and self.get(st, "lost") is None:
            self.put(st, "lost", TRUE)
            w = kval(what)
            end = "raises " + kval(how) if how is not NONE else "returns"
            self.bad(I, st, "text", f"after {w}() {end}: of the output {self.say(I, st, want)}, what was returned and is pending is {self.say(I, st, have)}",
                     construct=f"{w} {end}", where="after the call")
        rd, dec = self.merged(I, self.items(st, "read")), self.merged(I, self.items(st, "decoded"))
        if self.get(st, "eof") is not None and self.get(st, "final") is not TRUE and (how is NONE or kval(how) == "EOFError"):
            self.bad(I, st, "not-flushed", f"after {kval(what)}(): the output has ended, but an incomplete character at its end was neither returned nor reported", construct=kval(what), where="after the call")
        if rd != dec and (how is NONE or kval(how) in ("TimeoutError", "EOFError", "CancelledError")):
            self.bad(I, st, "not-decoded", f"after {kval(what)}(): output was read that never became text ({self.say(I, st, rd)}; decoded: {self.say(I, st, dec)})", construct=kval(what), where="after the call")


    def at_eof(self, I, st, what, p, cli):
        "Prompt.at_eof: the output has ended and nothing of it is pending."
        for b, s in I.truth(p, st.fork()):
            want = self.get(s, "eof") is not None and not b
            for v, s2 in I.getattr(cli, "at_eof", s, None):
                if isinstance(v, Raise):
                    continue
                for got, s3 in I.truth(v, s2):
                    if got != want:
                        why = ("text is pending" if b else "nothing is pending") + (" and the output has ended" if self.get(s, "eof") is not None else " and the output has not ended")
                        self.bad(I, s3, "at-eof", f"after {kval(what)}(): at_eof is {got} although {why}", construct=f"at_eof {kval(what)}", where="after the call")
                        return


def session(ops, n, opts="", start="", cmd="", timeout="None"):
    return PRE + f'''
async def main():
    setup()
    {start}
    async with sh("prog"){cmd}.prompt({opts}) as cli:
        for i in range({n}):
            await attempt(cli, __choose__({", ".join(map(repr, ops))}), {timeout})
'''


OPS = ("expect", "read_all", "pending", "send", "command_eof")


def r01_jobs(tier):
    n, r = (2, 2) if tier == "quick" else (3, 3)
    kw = dict(data="chunks", max_reads=r, merge_text=False, background=True, summaries=STUBS, prompt_cancel=True)
    js = []
    for first in OPS:
        src = session(OPS, n - 1, timeout='__sym__("timeout", float)').replace("        for i in range", f'        await attempt(cli, "{first}", __sym__("timeout", float))\n        for i in range')
        js.append(Job("session-" + first, src, [Lossless()], cancels=1, expect=("mark:done", "decoded"), **kw))
    js.append(Job("undecodable", session(("send", "expect", "read_all", "command_eof"), 1), [Lossless()], cancels=0, raises={"bytes.decode": [UnicodeDecodeError]}, faults=1,
                  expect=("mark:done", "decoded", "fault"), **kw))
    js.append(Job("newlines", session(("default", "read_all"), n, opts="__sym__('default', re.Pattern), normalize_newlines=True"), [Lossless()], cancels=0, expect=("mark:done", "decoded"), **kw))
    js.append(Job("logged", session(("expect", "read_all", "send"), n), [Lossless()], cancels=1, trace="prompt", expect=("mark:done", "decoded"), **kw))
    return js


class Reports(Streams):
    "Each operation ends as the events during it require."
    name = "R03"
    ALLOWED = {"TimeoutError", "EOFError", "CancelledError"}

    def mark_op(self, I, st, what, timeout, cli):
        for k in ("expired", "cancelled", "last", "fault", "waited"):
            st.mon.pop((self.name, k), None)
        self.put(st, "op", what)
        self.put(st, "timeout", timeout)
        if self.get(st, "eof") is not None:
            self.put(st, "eof0", TRUE)

    def mark_default(self, I, st, v):
        self.put(st, "default", v)

    def on_wait_begin(self, I, st, items, timeout, cur, **_):
        op = self.get(st, "op")
        if op is None or op is NONE:
            return
        live = [t for t in items if t.tag == "ref" and I.models.fut_state(t, st) == "pending"]
        if all(st.get(t.parts[0]).f.get("cancel_req") is TRUE for t in live):
            return      # waiting for cancelled tasks to stop
        self.put(st, "waited", TRUE)
        T, D = self.get(st, "timeout"), self.get(st, "default")
        want = T if T is not None and T is not NONE else D if D is not None else NONE
        got = NONE if timeout is None else I.norm(timeout, st)
        if got is not I.norm(want, st):
            self.bad(I, st, "timeout", f"{kval(op)}() waits with a timeout of {show(got)}, not {show(want)}")

    def on_wait_done(self, I, st, done, pending, **_):
        if self.get(st, "op") in (None, NONE) or not pending:
            return
        if all(st.get(t.parts[0]).f.get("cancel_req") is TRUE for t in pending if t.tag == "ref"):
            return
        if any(I.models.fut_state(t, st) == "exc" for t in done):
            return
        self.put(st, "expired", TRUE)

    def on_cancel(self, I, st, by="", **_):
        if by == "caller":
            self.put(st, "cancelled", TRUE)

    def on_fault(self, I, st, name, exc=None, **_):
        self.put(st, "fault", K(name))
        n = exc_name(I, st, exc if isinstance(exc, Raise) else Raise(exc)) if exc is not None else None
        if n is not None:
            old = self.get(st, "errors")
            self.put(st, "errors", Tup((old.parts[0] if old is not None else ()) + (K(n),)))

    def on_io_done(self, I, st, name, recv, value, **_):
        if recv is self.get(st, "stdout") and name.startswith("StreamReader.") and not I.models.pieces(value, st):
            self.put(st, "eof", TRUE)

    def on_search(self, I, st, pattern, text, **_):
        self.put(st, "last", Sym("call", K("re.search"), pattern, text, ty=Py(I.models.RE_MATCH), exact=True, opt=True))

    def mark_done(self, I, st, what, how, cli):
        w = kval(what)
        h = None if how is NONE else kval(how)
        end = f"raises {h}" if h else "returns"
        self.put(st, "op", NONE)

        def bad(rule, msg):
            self.bad(I, st, rule, f"{w}() {end}: {msg}", construct=f"{w} {end}", where="after the call")
        fault, cancelled, expired = (self.get(st, k) is not None for k in ("fault", "cancelled", "expired"))
        eof, eof0 = (self.get(st, k) is not None for k in ("eof", "eof0"))
        if h is not None and h not in self.ALLOWED and not fault:
            bad("unexpected", "nothing but a timeout, the end of the output and cancellation may make it fail")
        elif h is not None and h not in self.ALLOWED and self.get(st, "errors") is not None and K(h) not in self.get(st, "errors").parts[0]:
            bad("replaced", f"what failed is {kval(self.get(st, 'errors').parts[0][-1])}")
        if cancelled and h != "CancelledError":
            bad("cancel-lost", "it was cancelled")
        elif w.startswith("command") and eof0 and h is None:
            bad("at-eof", "the output had ended before the call")
        elif expired and h not in ("TimeoutError", "CancelledError"):
            bad("timeout-lost", "its timeout had expired")
        elif h == "CancelledError" and not cancelled:
            bad("not-cancelled", "nobody cancelled it")
        elif h == "TimeoutError" and not expired and not fault:
            bad("not-expired", "no timeout had expired")
        elif fault and h is None and w != "send" and not w.startswith("command"):
            bad("error-lost", f"{kval(self.get(st, 'fault'))} had failed")
        elif h is None and w in ("expect", "default", "command", "command_default"):
            m = self.get(st, "last")
            if m is None or [b for b, _ in I.truth(m, st.fork())] != [True]:
                bad("no-match", "the pattern did not match")
        elif h is None and w == "command_eof" and not eof:
            m = self.get(st, "last")
            if m is None or [b for b, _ in I.truth(m, st.fork())] != [True]:
                bad("no-match", "the pattern did not match and the output has not ended")
        elif h is None and w == "read_all" and not eof:
            bad("early", "the output has not ended")
        elif h == "EOFError":
            if w in ("read_all", "pending", "send"):
                bad("eof", "the end of the output is no error here")
            elif not eof:
                bad("eof-early", "the output has not ended")
            elif w == "command_eof" and not eof0:
                bad("eof", "it was told to accept the end of the output")
            elif not (w.startswith("command") and eof0):
                self.searched(I, st, cli, bad)
        elif h == "TimeoutError" and w in ("expect", "default", "command", "command_default"):
            if self.get(st, "last") is not None:
                self.searched(I, st, cli, bad)
        left = [t for t in I.models.all_tasks(st) if I.models.fut_state(t, st) == "pending"]
        if left:
            bad("left-running", f"{show(left[0]).split('@')[0]} is still running")

    def searched(self, I, st, cli, bad):
        "The text that is pending was searched, without success."
        p = self.pending(I, st, cli)
        if p is None:
            return
        ps = I.models.flat(p, st)
        if ps is None or not ps or [b for b, _ in I.truth(p, st.fork())] == [False]:
            return
        m = self.get(st, "last")
        if m is None:
            bad("not-searched", "the text it holds was not searched for the pattern")
            return
        t = I.models.flat(I.models.match_text(m), st)
        if [b for b, _ in I.truth(m, st.fork())] != [False] or t is None or [q for q in t if not self.void(q, st)] != [q for q in ps if not self.void(q, st)]:
            bad("not-searched", "not all of the text it holds was searched for the pattern")

    def void(self, q, st):
        return q.tag == "sym" and st.fact(q).truth is False


R03_OPS = ("expect", "read_all", "send", "command", "command_eof")


def r03_jobs(tier):
    n, r = (2, 1) if tier == "quick" else (2, 2)
    kw = dict(data="chunks", max_reads=r, merge_text=False, background=True, summaries=STUBS, prompt_cancel=True)
    js = []
    D = '__sym__("limit", float)'
    for first in R03_OPS:
        src = session(R03_OPS, n - 1, timeout='__sym__("timeout", float)').replace("        for i in range", f'        await attempt(cli, "{first}", __sym__("timeout", float))\n        for i in range')
        js.append(Job("given-" + first, src, [Reports()], cancels=1, expect=("mark:done",), **kw))
    start = f"D = {D}; __mark__('default', D)"
    js.append(Job("default-timeout", session(R03_OPS, 1, opts="timeout=D", start=start), [Reports()], cancels=1, expect=("mark:done", "wait_begin"), **kw))
    js.append(Job("overridden-timeout", session(R03_OPS, 1, opts="timeout=D", start=start, timeout='__sym__("timeout", float)'), [Reports()], cancels=0, expect=("mark:done", "wait_begin"), **kw))
    js.append(Job("default-prompt", session(("default", "command_default"), 1, opts="__sym__('default', re.Pattern), timeout=D", start=start), [Reports()], cancels=0, expect=("mark:done",), **kw))
    js.append(Job("no-timeout", session(R03_OPS, 2), [Reports()], cancels=0, expect=("mark:done",), **kw))
    js.append(Job("read-error", session(R03_OPS, 1, timeout='__sym__("timeout", float)'), [Reports()], cancels=0, raises={"StreamReader.read": [OSError]}, faults=1,
                  expect=("mark:done", "fault"), **kw))
    js.append(Job("write-error", session(R03_OPS, 1, timeout='__sym__("timeout", float)'), [Reports()], cancels=0, raises={"StreamWriter.drain": [ConnectionResetError]}, faults=1,
                  expect=("mark:done", "fault"), **kw))
    js.append(Job("logged", session(R03_OPS, 1, timeout='__sym__("timeout", float)'), [Reports()], cancels=1, trace="all", expect=("mark:done",), **kw))
    return js


class Drains(Streams):
    "While send() waits for its input to be taken, the output is read."
    name = "R04"

    def mark_op(self, I, st, what, timeout, cli):
        self.put(st, "op", what)

    def on_io_done(self, I, st, name, recv, value, **_):
        if recv is self.get(st, "stdout") and name.startswith("StreamReader.") and not I.models.pieces(value, st):
            self.put(st, "eof", TRUE)
        if name == "StreamWriter.drain":
            self.put(st, "draining", NONE)

    def on_io_cancelled(self, I, st, name, **_):
        if name == "StreamWriter.drain":
            self.put(st, "draining", NONE)

    def on_await(self, I, st, v, cur=NONE, **_):
        if v.tag != "aw" or v.parts[0] != "io":
            return
        nm = kval(v.parts[1])
        if nm == "StreamReader.read" and cur is not NONE:
            self.put(st, ("reader", cur), TRUE)
        if nm != "StreamWriter.drain":
            return
        self.put(st, "draining", TRUE)
        if self.get(st, "eof") is not None:
            return
        others = [t for t in I.models.all_tasks(st) if I.models.fut_state(t, st) == "pending" and st.get(t.parts[0]).f.get("running") is not TRUE
                  and st.get(t.parts[0]).f.get("cancel_req") is not TRUE]
        if not others:
            self.bad(I, st, "blocked", "send() waits for the co-process to take its input while nothing reads the output")
            return
        self.put(st, "others", Tup(others))

    def on_task_end(self, I, st, task, state, **_):
        if self.get(st, "draining") is TRUE and self.get(st, "eof") is None and state == "done":
            o = self.get(st, "others")
            if o is not None and task in o.parts[0]:
                self.bad(I, st, "stops", "the output is no longer read although the co-process has not yet taken all input and the output has not ended", construct=show(task).split("@")[0], where="end of the reading task")
        elif self.get(st, "draining") is TRUE and self.get(st, "eof") is None and state == "exc":
            self.bad(I, st, "fails", "the reading of the output fails", construct=show(task).split("@")[0], where="end of the reading task")

    def mark_done(self, I, st, what, how, cli):
        left = [t for t in I.models.all_tasks(st) if I.models.fut_state(t, st) == "pending"]
        if left:
            self.bad(I, st, "left-running", f"{kval(what)}() is over, but {show(left[0]).split('@')[0]} is still running", construct=show(left[0]).split("@")[0], where="after the call")


def r04_jobs(tier):
    r = 2 if tier == "quick" else 4
    kw = dict(data="chunks", max_reads=r, merge_text=False, background=True, summaries=STUBS, prompt_cancel=True)
    js = []
    for c in (0, 1):
        js.append(Job(f"send-{c}", session(("send", "command"), 1 if c else 2, timeout='__sym__("timeout", float)'), [Drains()], cancels=c, expect=("mark:done", "decoded"), **kw))
    js.append(Job("logged", session(("send",), 1, timeout='__sym__("timeout", float)'), [Drains()], cancels=1, trace="prompt", expect=("mark:done", "decoded"), **kw))
    js.append(Job("drain-fails", session(("send",), 1), [Drains()], cancels=0, raises={"StreamWriter.drain": [ConnectionResetError]}, faults=1, expect=("mark:done", "fault"), **kw))
    js.append(Job("terminal", session(("send", "command"), 1, start="", timeout='__sym__("timeout", float)').replace("setup()", "setup(pty=True)"), [Drains()], cancels=0, expect=("mark:done", "decoded"), **kw))
    return js


def holds(I, st, v, x, depth=8):
    "Does a value contain another one (other than by its length or identity)?"
    v = I.norm(v, st)
    if v is x:
        return True
    if depth == 0:
        return False
    if v.tag == "sym":
        if v.parts[0] in ("len", "lt", "eq", "not", "isnone", "isinst") or v.parts[0] == "call" and v.parts[1] in (K("id"), K("type"), K("len")):
            return False
    if v.tag == "ref":
        o = st.get(v.parts[0])
        return any(holds(I, st, q, x, depth - 1) for q in list(o.f.values()) + [z for y in o.items for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, Val)])
    def parts(p):
        for q in p:
            if isinstance(q, Val):
                yield q
            elif isinstance(q, tuple):
                yield from parts(q)
    return any(holds(I, st, q, x, depth - 1) for q in parts(v.parts))


class Secret(Streams):
    "Text sent with no_echo reaches no log, and the co-process only when the terminal does not echo."
    name = "R02"

    def mark_secret(self, I, st, v):
        self.put(st, "secret", v)

    def mark_pty(self, I, st, fd):
        self.put(st, "pty", fd)

    def on_fault(self, I, st, name, **_):
        if name == "termios.tcgetattr":
            st.mon.pop((self.name, "attrs"), None)

    def on_ext(self, I, st, name, args=(), kw=None, recv=None, **_):
        x = self.get(st, "secret")
        if x is None:
            return
        vals = list(args) + list((kw or {}).values())
        if name.startswith("Logger.") or name in ("print", "logging.log", "sys.stderr.write"):
            for v in vals:
                if holds(I, st, v, x):
                    self.bad(I, st, "logged", "text sent with no_echo is passed to the log")
                    return
        if name == "termios.tcgetattr" and self.get(st, "pty") is not None and I.norm(args[0], st) is self.get(st, "pty"):
            self.put(st, "asked", TRUE)
        if name in ("StreamWriter.write", "StreamWriter.writelines", "os.write") and any(holds(I, st, v, x) for v in vals):
            self.put(st, "written", TRUE)
            if self.get(st, "pty") is not None and not self.echo_off(I, st):
                self.bad(I, st, "echo", "text sent with no_echo is written although the terminal was not seen to be without echo")

    def echo_off(self, I, st):
        a = self.get(st, "flags")
        if a is None:
            return False
        import termios
        for v, s in I.models.binop("BitAnd", a, I.wrap(termios.ECHO), st.fork(), None):
            if not isinstance(v, Raise) and (I.eq(v, K(0), s) is TRUE or [b for b, _ in I.truth(v, s)] == [False]):
                return True
        return False

    def on_tcattr(self, I, st, fd, flags, **_):
        if self.get(st, "pty") is not None and I.norm(fd, st) is self.get(st, "pty"):
            self.put(st, "flags", flags)

    def mark_done(self, I, st, what, how, cli):
        x = self.get(st, "secret")
        if how is NONE and self.get(st, "written") is None:
            self.bad(I, st, "not-sent", f"{kval(what)}() returns without having written the text", construct=kval(what), where="after the call")
        if holds(I, st, I.getattr(cli, "pending", st.fork(), None)[0][0], x):
            I.note("secret in pending")


def r02_jobs(tier):
    js = []
    for trace in ("", "prompt", "all"):
        for ty in ("str", "bytes"):
            for pty in (False, True):
                if ty == "bytes" and pty:
                    continue
                ops = ("quiet", "quiet_command") if ty == "str" else ("quiet",)
                src = PRE + f"""
async def main():
    setup(pty={pty})
    secret = __sym__("secret", {ty})
    __mark__("secret", secret)
    async with sh("prog"){".set(pty=True)" if pty else ""}.prompt() as cli:
        await attempt(cli, __choose__({", ".join(map(repr, ops))}), __sym__("timeout", float), secret)
"""
                js.append(Job(f"{ty}-{'terminal' if pty else 'pipe'}-{trace or 'nolog'}", src, [Secret()], cancels=2, trace=trace, background=True, merge_text=False, summaries=STUBS, prompt_cancel=False,
                              raises={"StreamWriter.drain": [ConnectionResetError]}, faults=1,
                              expect=("mark:secret",) + (("tcattr",) if pty else ()) + (("ext:Logger.info",) if trace else ()), data="chunks", max_reads=1))
    return js


class Sends(Streams):
    "What is written is what was given."
    name = "R05"

    def items(self, st, key):
        v = self.get(st, key)
        return v.parts[0] if v is not None else ()

    def mark_want(self, I, st, v):
        self.put(st, "want", v)
        self.put(st, "sent", Tup([]))

    def mark_close(self, I, st, eof):
        self.put(st, "close", eof)

    def on_ext(self, I, st, name, args=(), recv=None, **_):
        w = self.get(st, "stdin")
        if recv is None or w is None or I.norm(recv, st) is not w:
            return
        key = "eofs" if self.get(st, "close") is not None else "sent"
        if name == "StreamWriter.write":
            self.put(st, key, Tup(self.items(st, key) + (I.norm(args[0], st),)))
        elif name == "StreamWriter.writelines":
            self.put(st, key, Tup(self.items(st, key) + tuple(I.models.known_items(args[0], st) or (mk("bad", *args),))))
        elif name in ("StreamWriter.close", "StreamWriter.write_eof"):
            self.put(st, "closed", TRUE)

    def on_await(self, I, st, v, **_):
        if v.tag == "aw" and v.parts[0] == "io" and kval(v.parts[1]).startswith("StreamReader.") and self.get(st, "want") is not None:
            self.check(I, st, "when the output is first read")

    def check(self, I, st, when):
        want = self.flat(I, st, [self.get(st, "want")])
        sent = self.flat(I, st, self.items(st, "sent"))
        if sent is None or want is None:
            I.note("written data undecided")
        elif sent != want:
            def say(ps):
                return " ".join(show(p) for p in ps) or "nothing"
            self.bad(I, st, "altered", f"{when}, what was written, {say(sent)}, is not what was to be sent, {say(want)}", construct="Prompt.send", where="send")

    def flat(self, I, st, vs):
        "The pieces of encoded text, known to be not empty."
        M = I.models
        out = []
        for v in vs:
            ps = M.pieces(I.norm(v, st), st)
            if ps is None:
                return None
            for p in ps:
                if p.tag == "sym" and p.parts[0] == "enc":
                    inner = M.pieces(p.parts[1], st)
                    out += [K(kval(q).encode(*map(kval, p.parts[2:]))) if is_k(q, str) and all(is_k(x, str) for x in p.parts[2:]) else mk("encoded", q, *p.parts[2:]) for q in (inner if inner is not None else [p.parts[1]]) if not (q.tag == "sym" and st.fact(q).truth is False)]
                elif not (p.tag == "sym" and st.fact(p).truth is False):
                    out.append(p)
        return self.join(out)

    def join(self, ps):
        "Adjacent constants joined."
        out = []
        for p in ps:
            if p.tag == "k" and out and out[-1].tag == "k":
                out[-1] = K(kval(out[-1]) + kval(p))
            else:
                out.append(p)
        return out

    def mark_done(self, I, st, what, how, cli):
        if how is NONE:
            self.check(I, st, "after the call")
        elif kval(how) not in ("TimeoutError", "CancelledError", "EOFError"):
            self.bad(I, st, "fails", f"{kval(what)}() raises {kval(how)}", construct=kval(what), where="after the call")

    def mark_closed(self, I, st):
        if self.get(st, "closed") is not None:
            return
        eof = self.get(st, "close")
        if eof is NONE:
            self.bad(I, st, "close", "close() does not close the co-process's input", construct="Prompt.close", where="close")
            return
        ps = [q for x in self.items(st, "eofs") for q in (I.models.pieces(x, st) or [x])]
        data = b"".join(kval(q) if q.tag == "k" else b"?" for q in ps)
        if data != kval(eof) * 2:
            self.bad(I, st, "close", f"close() writes {data!r} to the terminal, which does not end its input on any line", construct="Prompt.close", where="close")


def r05_jobs(tier):
    js = []
    kw = dict(data="chunks", max_reads=1, merge_text=False, background=True, summaries=STUBS, prompt_cancel=True)
    T = '__sym__("text", str)'
    cases = {"plain": (T, "", "(text + '\\n').encode('utf-8', 'strict')", None),
             "encoding": (T, "", "(text + '\\n').encode('latin-1', 'ignore')", "latin-1 ignore"),
             "encoding2": (T, "", "(text + '\\n').encode('ascii', 'strict')", "ascii"),
             "end": (T, ', end=__sym__("end", str)', '(text + __sym__("end", str)).encode("utf-8", "strict")', None),
             "encoding3": (T, "", "(text + '\\n').encode('utf-16-le', 'strict')", "utf-16-le"),
             "end-encoding": (T, ', end=__sym__("end", str)', '(text + __sym__("end", str)).encode("latin-1", "ignore")', "latin-1 ignore"),
             "bytes-encoding": ('__sym__("data", bytes)', "", "text + '\\n'.encode('utf-16-le', 'strict')", "utf-16-le"),
             "bytes-end-encoding": ('__sym__("data", bytes)', ', end=__sym__("end", str)', 'text + __sym__("end", str).encode("latin-1", "ignore")', "latin-1 ignore"),
             "no-end": (T, ", end=None", "text.encode('utf-8', 'strict')", None),
             "bytes": ('__sym__("data", bytes)', "", "text + b'\\n'", None),
             "bytes-end": ('__sym__("data", bytes)', ', end=__sym__("end", str)', 'text + __sym__("end", str).encode("utf-8", "strict")', None),
             "bytes-no-end": ('__sym__("data", bytes)', ", end=None", "text", None)}
    for name, (t, end, want, enc) in cases.items():
        for op in ("send", "command"):
            if op == "command" and ("bytes" in name or name == "no-end"):
                continue
            for no_echo in (False, True):
                if no_echo and name != "plain":
                    continue
                extra = end + (", no_echo=True" if no_echo else "")
                call = f"cli.send(text, timeout=T{extra})" if op == "send" else f'cli.command(text, prompt=__sym__("pattern", re.Pattern), timeout=T, allow_eof=True{extra})'
                src = PRE + f"""
async def main():
    setup()
    async with sh("prog"){f'.set(encoding={enc!r})' if enc else ''}.prompt() as cli:
        text = {t}
        T = __sym__("timeout", float)
        __mark__("want", {want})
        try:
            await {call}
        except Exception as ex:
            __mark__("done", "{op}", type(ex).__name__, cli)
        else:
            __mark__("done", "{op}", None, cli)
"""
                for trace in ("", "prompt"):
                    if trace and name not in ("plain", "bytes"):
                        continue
                    js.append(Job(f"{op}-{name}{'-no-echo' if no_echo else ''}{'-logged' if trace else ''}", src, [Sends()], cancels=0, trace=trace, expect=("mark:done",), **kw))
    for pty in (False, True):
        src = PRE + f"""
async def main():
    setup({pty})
    async with sh("prog"){'.set(pty=True)' if pty else ''}.prompt() as cli:
        __mark__("close", {'b"\x04"' if pty else None})
        cli.close()
        __mark__("closed")
"""
        js.append(Job(f"close-{'terminal' if pty else 'pipe'}", src, [Sends()], cancels=0, expect=("mark:closed",), **kw))
    return js


CHECKS = {
    "R02": Check("Text sent with no_echo is never logged and waits for echo off", "no argument of a log call is derived from the text, and at the write the terminal's flags read last have ECHO off on the path", r02_jobs,
                 "send and command with no_echo, with and without a terminal, with every logging option, text and bytes of any length.",
                 ("what the co-process itself prints is outside this property",), technique="taint analysis by abstract interpretation"),
    "R05": Check("Prompt.send writes exactly what it was given, once", "what is passed to StreamWriter.write before the output is read equals the encoded text and line end; close() ends the input", r05_jobs,
                 "send and command with symbolic texts, bytes and line ends, several encodings, with and without logging and no_echo; close() on a pipe and on a terminal.",
                 ("encoding text piecewise equals encoding it whole (no byte-order marks)",), technique="abstract interpretation over symbolic text"),
    "R03": Check("Prompt operations report timeout, EOF and cancellation", "each call ends with the exception its events require, searches what it holds, waits with the given or default timeout, and leaves no task", r03_jobs,
                 "Sequences of two prompt calls with symbolic given and default timeouts, every moment of expiry, end of output, one cancellation and one I/O error.",
                 ("a task cancelled while it waits stops within the cancel timeout",), technique="abstract interpretation with interleaved tasks and event monitor"),
    "R04": Check("Prompt.send reads while it drains, so neither side blocks the other", "at every wait for StreamWriter.drain another task reads the output until it ends or send() is over", r04_jobs,
                 "send and command with output arriving before and while the input is taken; timeouts, one cancellation, drain failing.",
                 ("a pending task makes progress while another one waits",), technique="abstract interpretation with interleaved tasks and event monitor"),
    "R01": Check("Prompt loses, repeats and reorders no output", "for all short sequences of prompt calls, the text returned so far followed by the pending text equals the text decoded so far", r01_jobs,
                 "Sequences of expect, read_all, read_pending, send and command with output arriving in any number of chunks up to a bound, timeouts, end of output and one cancellation at any suspension point; a search may succeed or fail on any text.",
                 ("a match divides the searched text into the part before, the match and the part after", "StreamReader.read that is cancelled leaves its data in the reader", "undecodable output is not covered"),
                 technique="abstract interpretation with symbolic text divided by symbolic matches"),
}
