"""Arguments, environment and input stay out of names and logs."""

import re

from ..core import *
from ..registry import Check
from ..run import Job, Monitor
from .common import Expect
from .life import IO_FAULT
from .pipes import FAULTS, PRE as PPRE, S, stage

FORMAT = re.compile(r"%(?:\((\w+)\))?[#0\- +]*(?:\d+|\*)?(?:\.(?:\d+|\*))?([%a-zA-Z])")
HIDES = ("len", "lt", "eq", "not", "isnone", "isinst")


class Leak(Monitor):
    "What is shown contains no secret."
    name = "A09"

    def on_mark(self, I, st, name, args, **_):
        if name == "secrets":
            self.put(st, "secrets", Tup(args))
        elif name == "env_secret":
            self.put(st, "env", Tup(args))
        elif name == "shown":
            self.look(I, st, args[1], "r", "leak", f"{kval(args[0])} contains what was to stay hidden")
        elif name == "shown_env":
            if self.shown(I, st, args[1], "r", self.get(st, "env").parts[0]):
                self.bad(I, st, "env-leak", f"{kval(args[0])} contains the value of an environment variable", construct=kval(args[0]), where="driver")

    def look(self, I, st, v, conv, rule, msg, **kw):
        xs = self.get(st, "secrets")
        if xs is not None and self.shown(I, st, v, conv, xs.parts[0]):
            self.bad(I, st, rule, msg, **kw)

    def shown(self, I, st, v, conv, xs, depth=12):
        "Would the text of a value contain one of the secrets?"
        v = I.norm(v, st)
        if any(v is x or I.norm(x, st) is v for x in xs):
            return True
        if depth == 0 or v.tag in ("k", "enum", "py", "cls"):
            return False
        go = lambda x, c="r": self.shown(I, st, x, c, xs, depth - 1)
        if v.tag == "sym":
            p = v.parts
            if p[0] in HIDES or p[0] == "call" and p[1] in (K("id"), K("type"), K("len")):
                return False
            if p[0] == "str" and len(p) == 3:
                return go(p[1], "r" if p[2] in (K(114), K(97)) else "s")
            if p[0] == "call" and p[1] in (K("repr"), K("ascii")):
                return go(p[2], "r")
        if v.tag == "ref":
            if not st.has(v.parts[0]):
                return False
            o = st.get(v.parts[0])
            c = I.models.user_cls(v, st)
            if c is not None:
                for nm in (("__str__",) if conv == "s" else ()) + ("__repr__",):
                    m = c.lookup(nm)[0]
                    if m is not None and m.tag in ("func", "closure", "fn"):
                        return any(not isinstance(r, Raise) and self.shown(I, y, r, "s", xs, depth - 1) for r, y in I.call(mk("bound", v, m), [], {}, st.fork(), None))
                if c.kind in ("dataclass", "namedtuple"):
                    hide = getattr(c, "norepr", ())
                    return any(go(o.f[f[0]]) for f in c.fields or () if f[0] not in hide and f[0] in o.f)
                if "args" in o.f:
                    return go(o.f["args"])
                return False
            if o.kind in ("list", "dict", "set", "tuple", "deque"):
                return any(go(x) for x in list(o.f.values()) + [z for y in (o.items or ()) for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, Val)])
            if "args" in o.f:
                return go(o.f["args"])
            if o.cls is not None and o.cls.tag == "py" and pyobj(o.cls) in (bytearray,):
                return any(go(x) for x in o.f.values())
            return False

        def parts(p):
            for q in p:
                if isinstance(q, Val):
                    yield q
                elif isinstance(q, tuple):
                    yield from parts(q)
        return any(go(q, conv if v.tag == "sym" else "r") for q in parts(v.parts))

    def on_ext(self, I, st, name, args=(), kw=None, **_):
        if name.startswith("Logger.") or name in ("warnings.warn", "print", "sys.stderr.write", "logging.log"):
            args = list(args)
            if name in ("Logger.log", "logging.log"):
                args = args[1:]
            if not args:
                return
            convs = []
            if args[0].tag == "k" and isinstance(kval(args[0]), str):
                convs = ["r" if c in "ra" else "s" if c == "s" else "d" for _n, c in FORMAT.findall(kval(args[0])) if c != "%"]
            for i, v in enumerate(args):
                c = "s" if i == 0 else convs[i - 1] if i - 1 < len(convs) else "r"
                if c == "d":
                    continue
                self.look(I, st, v, c, "logged", "an argument, environment variable or input of the command reaches a log record", construct=name)
            if kw:
                for k, v in kw.items():
                    if k == "extra":
                        self.look(I, st, v, "r", "logged", "an argument, environment variable or input of the command reaches a log record", construct=name)
        elif name == "sys.audit":
            for v in args:
                self.look(I, st, v, "r", "audited", "an audit event carries more than the name of the program", construct=name)

    def on_task_name(self, I, st, name, **_):
        self.look(I, st, name, "s", "task-name", "the name of a task contains an argument, environment variable or input of the command", construct="create_task")

    def on_thread_started(self, I, st, thread, **_):
        o = st.get(thread.parts[0]) if thread.tag == "ref" and st.has(thread.parts[0]) else None
        if o is not None and "name" in o.f:
            self.look(I, st, o.f["name"], "s", "task-name", "the name of a thread contains an argument, environment variable or input of the command", construct="Thread")


PRE = '''
from shellous import sh
import asyncio, signal, io
from pathlib import Path
A1, A2, E1, IN = __sym__("argument", str), __sym__("argument2", bytes), __sym__("value", str), __sym__("input", str)
def secrets():
    __mark__("secrets", A1, A2, E1, IN)
    __mark__("env_secret", E1)
def audit(phase, info):
    __mark__("shown", "the failure given to the audit callback", info["failure"])
    __mark__("shown", "the signal given to the audit callback", info["signal"])
    show("run", info["runner"])
def show(label, run):
    __mark__("shown", label + ".name", run.name)
    __mark__("shown", "str(" + label + ")", str(run))
    __mark__("shown", "repr(" + label + ")", repr(run))
'''

# names of commands, pipelines and runners
NAMES = PRE + '''
def main():
    secrets()
    for prog, want in (("prog", "prog"), ("/usr/local/bin/prog", "/usr/local/bin/prog"), ("p" * 31, "p" * 31), ("p" * 32, "..." + "p" * 31),
                       ("/a/directory/with/a/long/name/and/program", "...ectory/with/a/long/name/and/program"[-34:]), (Path("/bin/prog"), str(Path("/bin/prog")))):
        cmd = sh(prog, A1, A2).env(TOKEN=E1).stdin(IN)
        if isinstance(prog, str):
            __mark__("same", "name", cmd.name, want if len(prog) <= 31 else "..." + prog[-31:])
            __mark__("same", "str", str(cmd), prog)
        __mark__("shown", "cmd.name", cmd.name)
        __mark__("shown", "str(cmd)", str(cmd))
        __mark__("shown", "format(cmd)", f"{cmd}")
        __mark__("shown_env", "repr(cmd)", repr(cmd))
        __mark__("shown_env", "repr(cmd.options)", repr(cmd.options))
    cmd = sh("prog", A1).env(TOKEN=E1).set(alt_name="another")
    __mark__("same", "alt_name", cmd.name, "another")
    __mark__("same", "str of a command with alt_name", str(cmd), "prog")
    ctx = sh.env(TOKEN=E1).stdin(IN)
    __mark__("shown_env", "repr(context)", repr(ctx))
    other = sh("other", A2).env(TOKEN=E1)
    pipe = cmd | other | sh("third", A1)
    __mark__("same", "name of a pipeline", pipe.name, "another|other|third")
    __mark__("shown", "pipe.name", pipe.name)
    __mark__("shown_env", "repr(pipe)", repr(pipe))
'''

AUDIT = PRE + '''
async def main():
    secrets()
    return await sh("prog", A1, A2).env(TOKEN=E1).set(audit_callback=audit)
'''

RUN = PRE + '''
async def main():
    secrets()
    cmd = sh("prog", A1, A2).env(TOKEN=E1).set(timeout=__sym__("timeout", float, opt=True))
    return await cmd
'''

INPUT = PRE + '''
async def main():
    secrets()
    return await sh("prog", A1).stdin(IN).stdout(sh.DEVNULL).stderr(sh.DEVNULL)
'''

INPUT_PTY = PRE + '''
async def main():
    secrets()
    return await sh("prog", A1).stdin(IN).set(pty=True)
'''

WITH = PRE + '''
async def main():
    secrets()
    cmd = sh("prog", A1, A2).env(TOKEN=E1).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with cmd as run:
        show("run", run)
        await __body__("body")
    show("run", run)
'''

PTY = PRE + '''
async def main():
    secrets()
    cmd = sh("prog", A1, A2).env(TOKEN=E1).set(pty=True)
    return await cmd
'''

ITER = PRE + '''
async def main():
    secrets()
    async for line in sh("prog", A1, A2).env(TOKEN=E1):
        await __body__("body")
'''

PROMPT = PRE + '''
async def main():
    secrets()
    async with sh("prog", A1, A2).env(TOKEN=E1).prompt() as cli:
        await __body__("body")
'''


def PIPE(codes="0, 7"):
    return PPRE + stage(codes) + PRE.replace("from shellous import sh\n", "") + '''
async def main():
    secrets()
    pipe = sh("s1", A1).env(TOKEN=E1) | sh("s2", A2)
    return await pipe
'''


def PWITH(codes="0, 7"):
    return PPRE + stage(codes) + PRE.replace("from shellous import sh\n", "") + '''
async def main():
    secrets()
    pipe = (sh("s1", A1).env(TOKEN=E1) | sh("s2", A2)).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with pipe as run:
        show("run", run)
        await __body__("body")
    show("run", run)
'''


def jobs(tier):
    C = dict(coarse=True, expect=("launched", "mark:secrets"))
    B = {"body": [ValueError]}
    L = dict(IO_FAULT, **{"asyncio.create_subprocess_exec": [PermissionError]})
    deep = tier == "thorough"
    js = [Job("names", NAMES, [Leak(), Expect("A09")], expect=("mark:same", "mark:shown", "mark:shown_env"))]
    js.append(Job("audit", AUDIT, [Leak()], cancels=1 if deep else 0, faults=1, raises={"asyncio.create_subprocess_exec": [PermissionError], "StreamReader.read": [OSError]}, **C))
    js.append(Job("with-io-error", WITH.replace(".stdin(sh.CAPTURE)", ""), [Leak()], faults=2, raises={"body": [ValueError], "StreamReader.read": [OSError]}, **C))
    for t in ("", "all"):
        n = "-traced" if t else ""
        js += [
            Job("await" + n, RUN if deep else RUN.replace('__sym__("timeout", float, opt=True)', "None"), [Leak()], cancels=1, faults=1, raises=L, trace=t, **C),
            Job("timeout" + n, RUN.replace(", opt=True", ""), [Leak()], cancels=1 if deep else 0, trace=t, **C),
            Job("input" + n, INPUT, [Leak()], cancels=1, faults=0, trace=t, **C),
            Job("input-error" + n, INPUT, [Leak()], faults=1, raises=L, trace=t, **C),
            Job("input-pty" + n, INPUT_PTY, [Leak()], cancels=0, faults=1, raises=L, trace=t, **C),
            Job("with" + n, WITH, [Leak()], cancels=1, faults=1, raises=B, trace=t, **C),
            Job("pty" + n, PTY, [Leak()], cancels=1, faults=1, raises=L, trace=t, **C),
            Job("iter" + n, ITER, [Leak()], cancels=1, faults=1 if deep else 0, raises=B, trace=t, **C),
            Job("prompt" + n, PROMPT, [Leak()], cancels=1, faults=1, raises=B, trace=t, **C),
            Job("pipe" + n, PIPE(), [Leak()], cancels=1 if deep else 0, faults=1, raises=FAULTS, trace=t, **S),
            Job("pipe-with" + n, PWITH(), [Leak()], cancels=1, faults=1 if deep else 0, raises=FAULTS, trace=t, **S),
        ]
    return js


CHECKS = {"A09": Check("Names and logs show the program, never its arguments", "taint analysis: arguments, environment values and input, followed into every log call, task name, audit event and string conversion, with the conversion used there", jobs,
                       "Every log call, task name, audit event and audit callback on every path of a command, block, iteration, prompt session, pty command and pipeline, with tracing off and on; str(), repr() and name of every public object.",
                       ("The text of an exception raised by the operating system or by Python counts as free of secrets.", "What a prompt session logs when prompt tracing is asked for is R02's subject."))}
