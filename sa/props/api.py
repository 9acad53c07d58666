"""Commands, contexts and options as values: immutability, options, arguments, environment, re-entry."""

import ast
import os

from ..core import *
from ..registry import Check
from ..run import Job, Monitor, ROOT, exc_is, exc_name
from .common import Expect
from .fds import walk

PRE = '''
from shellous import sh, Command, CmdContext, Pipeline, Result, ResultError
import asyncio, io, os, signal, sys, logging
from pathlib import Path
'''
CHECKS = {}

# Options.set and the fields of Options.
OPTIONS = ["path", "env", "inherit_env", "encoding", "_return_result", "_catch_cancelled_error", "exit_codes", "timeout", "cancel_timeout", "cancel_signal",
           "alt_name", "pass_fds", "pass_fds_close", "_writable", "_start_new_session", "_preexec_fn", "pty", "close_fds", "audit_callback", "coerce_arg", "error_limit"]
FIELDS = OPTIONS + ["input", "input_close", "output", "output_append", "output_close", "error", "error_append", "error_close"]


def accepted():
    "Keyword parameters of Command.set and CmdContext.set in the source, added to the documented ones."
    out = list(OPTIONS)
    try:
        t = ast.parse(open(os.path.join(ROOT, "shellous", "command.py")).read())
        for c in t.body:
            if isinstance(c, ast.ClassDef) and c.name in ("Command", "CmdContext"):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name == "set":
                        out += [a.arg for a in f.args.kwonlyargs if a.arg not in out]
    except (OSError, SyntaxError):
        pass
    return out


class Api(Expect):
    """Expect, plus

    __mark__("snap", key, obj)              remember everything an object holds
    __mark__("unchanged", key, label)       it still holds exactly that
    __mark__("diff", label, old, new, {names}) new differs from old in no setting but the named ones"""
    def __init__(self, name, quiet_end=False):
        super().__init__(name)

    OWN = {"Command", "CmdContext", "Pipeline", "Options", "EnvironmentDict", "Result"}

    def shot(self, I, st, v, depth=0):
        "Structure of a value: contents of shellous's own objects and of containers, identity of everything else."
        v = I.norm(v, st)
        if depth > 8:
            return v
        if v.tag == "tup":
            return Tup([self.shot(I, st, x, depth + 1) for x in v.parts[0]])
        if v.tag == "ref" and st.has(v.parts[0]):
            o = st.get(v.parts[0])
            own = o.kind == "inst" and o.cls is not None and o.cls.tag == "cls" and o.cls.parts[0].name in self.OWN
            if own or o.kind in ("dict", "list", "set"):
                f = Tup([Tup([K(k), self.shot(I, st, x, depth + 1)]) for k, x in sorted(o.f.items()) if isinstance(x, Val)])
                its = o.items or ()
                if o.kind == "dict":
                    its = Tup([Tup([self.shot(I, st, a, depth + 1), self.shot(I, st, b, depth + 1)]) for a, b in its])
                else:
                    its = Tup([self.shot(I, st, a, depth + 1) for a in its])
                return Tup([K(o.kind), v if own else NONE, f, its])
        return v

    def on_mark(self, I, st, name, args, **kw):
        if name == "snap":
            self.put(st, ("snap", kval(args[0])), self.shot(I, st, args[1]))
            self.put(st, ("obj", kval(args[0])), Tup([args[1]]))
        elif name == "unchanged":
            was = self.get(st, ("snap", kval(args[0])))
            now = self.shot(I, st, self.get(st, ("obj", kval(args[0]))).parts[0][0])
            if was is not now:
                a, b = self.first_diff(was, now)
                self.bad(I, st, "changed", f"{kval(args[1])} changes {kval(args[0])}: {show(a)} becomes {show(b)}", construct=f"{kval(args[1])}: {kval(args[0])}", where="driver")
        elif name == "diff":
            self.diff(I, st, kval(args[0]), args[1], args[2], {kval(x) for x in I.models.known_items(args[3], st)})
        else:
            super().on_mark(I, st, name, args, **kw)

    def first_diff(self, a, b):
        if a.tag == "tup" and b.tag == "tup" and len(a.parts[0]) == len(b.parts[0]):
            for x, y in zip(a.parts[0], b.parts[0]):
                if x is not y:
                    return self.first_diff(x, y)
        return a, b

    def fields(self, I, st, v):
        v = I.norm(v, st)
        o = st.get(v.parts[0])
        out = {}
        for k, x in o.f.items():
            if isinstance(x, Val):
                x = I.norm(x, st)
                if k == "options" and x.tag == "ref":
                    out.update({("options", a): b for a, b in st.get(x.parts[0]).f.items() if isinstance(b, Val)})
                else:
                    out[k] = x
        return out

    def diff(self, I, st, label, old, new, names):
        if I.norm(new, st).tag != "ref" or I.norm(old, st).tag != "ref":
            self.bad(I, st, "type", f"{label} returns {show(I.norm(new, st))}", construct=label, where="driver")
            return
        a, b = self.fields(I, st, old), self.fields(I, st, new)
        for k in sorted(set(a) | set(b), key=str):
            n = k[1] if isinstance(k, tuple) else k
            if n in names:
                continue
            if k not in a or k not in b or not self.like(I, st, a[k], b[k]):
                self.bad(I, st, "other-setting", f"{label} also changes {n}: {show(a.get(k, NONE))} becomes {show(b.get(k, NONE))}", construct=f"{label}: {n}", where="driver")

    def like(self, I, st, a, b):
        "The same value, or an object with the same contents."
        if self.equal(I, st, a, b):
            return True
        x, y = self.strip(self.shot(I, st, a)), self.strip(self.shot(I, st, b))
        return x is y

    def strip(self, v):
        if v.tag == "tup":
            p = v.parts[0]
            if len(p) == 4 and p[0].tag == "k" and p[0] in (K("inst"), K("dict"), K("list"), K("set")):
                return Tup([p[0], NONE, self.strip(p[2]), self.strip(p[3])])
            return Tup([self.strip(x) for x in p])
        return v

    def end(self, I, st, out):
        if isinstance(out, Raise) and exc_name(I, st, out) not in ("ResultError",):
            self.bad(I, st, "raises", f"the operations described raise {exc_name(I, st, out)}", construct="driver", where="end")


# ---------------------------------------------------------------- A06

VALUES = '''
    v = __choose__("sym", "none", "false", "zero", "empty", "true")
    if v == "none": val = None
    elif v == "false": val = False
    elif v == "zero": val = 0
    elif v == "empty": val = ()
    elif v == "true": val = True
    else: val = __sym__("value", float)
'''

START = '''
    kind = __choose__("command", "context")
    base = sh.set(**prior) if prior else sh
    if kind == "command":
        base = base("prog", "arg")
'''


def one_option(name, prior):
    pri = {"none": "{}", "all": "dict(" + ", ".join(f'{o}=__sym__("old_{o}", float)' for o in OPTIONS if o not in ("env", "encoding", "coerce_arg")) + ', encoding="latin-1", env={"A": "1"}, coerce_arg=str)'}[prior]
    if name == "encoding":
        vals, want = '    val = __choose__("ascii", "latin-1 replace")\n', "val"
    elif name == "env":
        return PRE + f'''
def main():
    prior = {pri}
{START}
    k = __choose__(0, 1, 2)
    if k == 0:
        x = base.set(env={{"B": 2}})
        __mark__("is", "set(env=): B", x.options.env["B"] == "2")
        __mark__("is", "set(env=) replaces", "A" not in x.options.env)
    elif k == 1:
        x = base.set(env={{}})
        __mark__("is", "set(env={{}})", not x.options.env)
    else:
        x = base.set(env=None)
        __mark__("is", "set(env=None)", not x.options.env)
    __mark__("diff", "set(env=)", base, x, ["env"])
'''
    else:
        vals, want = VALUES, "val"
    return PRE + f'''
def main():
    prior = {pri}
{START}
{vals}
    x = base.set({name}=val)
    __mark__("same", kind + ".set({name}=)", x.options.{name}, {want})
    __mark__("diff", kind + ".set({name}=)", base, x, ["{name}"])
'''


ALL_OPTS = PRE + f'''
def main():
    kind = __choose__("command", "context")
    base = sh("prog") if kind == "command" else sh
    {"; ".join(f'{o} = __sym__("{o}", float)' for o in OPTIONS if o not in ("env", "encoding", "coerce_arg"))}
    coerce_arg = str
    x = base.set({", ".join(f"{o}={o}" for o in OPTIONS if o not in ("env", "encoding"))}, encoding="ascii", env={{"N": "v"}})
    {"; ".join(f'__mark__("same", "set(all): {o}", x.options.{o}, {o})' for o in OPTIONS if o not in ("env", "encoding"))}
    __mark__("same", "set(all): encoding", x.options.encoding, "ascii")
    __mark__("is", "set(all): env", x.options.env["N"] == "v")
    y = x.set()
    __mark__("diff", "set()", x, y, [])
    z = x("more") if kind == "context" else x("more")
    __mark__("diff", "calling", z, x("other"), ["args"])
    __mark__("same", "calling keeps the options", z.options.timeout, timeout)
'''

NO_ENC = PRE + '''
def main():
    kind = __choose__("command", "context")
    base = sh("prog") if kind == "command" else sh
    try:
        base.set(encoding=__choose__("", None))
    except TypeError:
        return
    __mark__("never", "an empty encoding is accepted")
'''

READ = PRE + '''
async def main():
    x = sh("prog").set(timeout=1, exit_codes=(1,), error_limit=5)
    r = x.result
    __mark__("diff", ".result", x, r, ["_return_result", "exit_codes"])
    w = x.writable
    __mark__("diff", ".writable", x, w, ["_writable"])
    __mark__("same", ".writable", w.options._writable, True)
    __mark__("same", ".result", r.options._return_result, True)
    c = sh.set(timeout=1)
    __mark__("diff", "context .result", c, c.result, ["_return_result", "exit_codes"])
    __mark__("same", "context .result", c.result.options._return_result, True)
'''


def a06_jobs(tier):
    M = [Api("A06")]
    js = [Job(f"set-{o}-{p}", one_option(o, p), M, cancels=0) for o in accepted() for p in ("none", "all")]
    js += [Job("all", ALL_OPTS, M, cancels=0), Job("encoding-empty", NO_ENC, M, cancels=0), Job("properties", READ, M, cancels=0)]
    return js


CHECKS["A06"] = Check("Every option given to set() takes effect, for commands and contexts", "the options of the new object against those of the old one and the value given", a06_jobs,
                      "Every option, on a command and on a context, over default and over non-default earlier settings, with an arbitrary value and with each falsy one.", (),
                      technique="abstract interpretation with a symbolic comparison of option records")


# ---------------------------------------------------------------- A01

BASE = '''
def make(kind):
    return made(kind, sh if __choose__(True, False) else rich())

def rich():
    return sh.stdin(b"in").stdout(bytearray(b"out"), append=True).stderr(sh.STDOUT).env(A=1).set(
        path="p", inherit_env=False, encoding="ascii", exit_codes=(1, 2), timeout=5, cancel_timeout=6, cancel_signal=None, alt_name="n",
        pass_fds=(7,), pass_fds_close=True, _writable=True, close_fds=False, error_limit=9, _catch_cancelled_error=True, _start_new_session=True)

def made(kind, ctx):
    if kind == "context": return ctx
    cmd = ctx("prog", "arg", ["x", "y"])
    if kind == "command": return cmd
    if kind == "subst": return ctx("prog", sh("inner", "1"), sh("inner", "2").writable)
    return sh("first").env(F=1) | sh("mid") | cmd
'''

STREAM_VALUES = ('b"d"', '"text"', 'bytearray()', 'io.BytesIO()', 'io.StringIO()', 'Path("f")', '5', 'sh.DEVNULL', 'sh.INHERIT', 'sh.CAPTURE', 'sh.BUFFER', 'sh.STDOUT', 'logging.getLogger("l")')

MODS = {
    "stdin": (["input", "input_close"], "x.stdin(v, close=__choose__(True, False))", STREAM_VALUES[:10]),
    "stdout": (["output", "output_append", "output_close"], "x.stdout(v, append=__choose__(True, False), close=__choose__(True, False))", STREAM_VALUES[2:11] + STREAM_VALUES[12:]),
    "stderr": (["error", "error_append", "error_close"], "x.stderr(v, append=__choose__(True, False), close=__choose__(True, False))", STREAM_VALUES[2:]),
    "env": (["env"], "x.env(**v)", ("{}", '{"A": 2}', '{"B": 3}')),
    "set-env": (["env"], "x.set(env=v)", ("None", "{}", '{"B": 3}')),
    "set": (["timeout", "exit_codes", "encoding"], "x.set(timeout=v, exit_codes={1}, encoding='utf-8 strict')", ("1", "None")),
    "result": (["_return_result", "exit_codes"], "x.result", ("1",)),
    "writable": (["_writable"], "x.writable", ("1",)),
    "call": (["args"], "x(*v)", ('["more"]', '[["a", ("b",)], 3]')),
    "or-out": (["output", "output_append", "output_close"], "x | v", ('Path("f")', 'bytearray()', 'io.BytesIO()', 'io.StringIO()', 'sh.DEVNULL', 'logging.getLogger("l")', '5')),
    "append-out": (["output", "output_append", "output_close"], "x >> v", ('Path("f")', 'bytearray()', 'io.BytesIO()', 'io.StringIO()')),
    "or-in": (["input", "input_close"], "v | x", ('b"d"', '"text"', 'Path("f")', 'bytearray()', 'io.BytesIO()', '5')),
    "copy": (["args"], "x()", ("1",)),
}
NOT = {"context": ("writable", "or-out", "append-out", "or-in", "copy"), "pipeline": ("env", "set-env", "set", "call"), "command": (), "subst": ("set", "stdin", "stdout", "stderr", "env", "set-env")}


def modify(kind, name):
    names, expr, vals = MODS[name]
    if kind == "pipeline":
        check = '''
    __mark__("is", "%s: a pipeline of as many commands", type(y) is Pipeline and len(y.commands) == len(x.commands))
    for i, (a, b) in enumerate(zip(x.commands, y.commands)):
        __mark__("diff", "%s: command " + str(i), a, b, %r if i == %s else [])
''' % (name, name, names, 0 if name in ("stdin", "or-in") else "len(x.commands) - 1")
    elif kind == "context" and name == "call":
        check = '    __mark__("same", "options of a command", y.options, x.options)\n'
    else:
        check = f'    __mark__("diff", "{kind} {name}", x, y, {names!r})\n' + ('' if name == "call" else '    __mark__("is", "the same kind of object", type(x) is type(y))\n')
    return PRE + BASE + f'''
def main():
    x = make("{kind}")
    k = __choose__({", ".join(str(i) for i in range(len(vals)))})
    {"; ".join(f"v{i} = lambda: {v}" for i, v in enumerate(vals))}
    v = ({", ".join(f"v{i}" for i in range(len(vals)))},)[k]()
    __mark__("snap", "the {kind}", x)
    y = {expr}
    __mark__("snap", "the new object", y)
    __mark__("unchanged", "the {kind}", "{name}")
{check}
    z = {expr}
    __mark__("unchanged", "the {kind}", "a second {name}")
    __mark__("unchanged", "the new object", "a second {name}")
'''


COMPOSE = PRE + BASE + '''
def main():
    a = make(__choose__("command", "pipeline"))
    b = make(__choose__("command", "pipeline"))
    __mark__("snap", "the left side", a)
    __mark__("snap", "the right side", b)
    p = a | b
    __mark__("snap", "the pipeline", p)
    __mark__("unchanged", "the left side", "|")
    __mark__("unchanged", "the right side", "|")
    q = p | a
    r = b | p
    for x in ("the left side", "the right side", "the pipeline"):
        __mark__("unchanged", x, "a further |")
'''

ALIAS = PRE + '''
def main():
    d = {"A": 1}
    l = ["a", "b"]
    x = sh("prog", l).set(env=d)
    __mark__("snap", "the command", x)
    d["A"] = 2
    d["C"] = 3
    l.append("c")
    __mark__("unchanged", "the command", "changing the objects it was made from")
    x2 = x.set(inherit_env=__choose__(True, False))
    __mark__("snap", "the second command", x2)
    e = x2.options.runtime_env()
    e["A"] = "changed"
    e["Z"] = "new"
    del e["A"]
    __mark__("unchanged", "the command", "changing its runtime environment")
    __mark__("unchanged", "the second command", "changing its runtime environment")
    __mark__("is", "args is a tuple", type(x.args) is tuple)
    y = x2.env(B=1)
    e2 = y.options.runtime_env()
    e2["B"] = "9"
    __mark__("unchanged", "the second command", "changing the runtime environment of another command")
'''

FROZEN = PRE + BASE + '''
def attempt(x, name, label):
    try:
        setattr(x, name, 1)
    except Exception:
        return
    __mark__("never", label + ": assigning to " + name + " is not refused")

def attempt_del(x, name, label):
    try:
        delattr(x, name)
    except Exception:
        return
    __mark__("never", label + ": deleting " + name + " is not refused")

def main():
    c = made("command", rich())
    k = __choose__(0, 1, 2, 3, 4)
    if k == 0:
        for n in ("args", "options", "other"): attempt(c, n, "Command")
        attempt_del(c, "args", "Command")
    elif k == 1:
        for n in ("input", "timeout", "env", "exit_codes"): attempt(c.options, n, "Options")
        attempt_del(c.options, "timeout", "Options")
    elif k == 2:
        attempt(made("context", rich()), "options", "CmdContext")
        attempt(sh, "options", "sh")
    elif k == 3:
        attempt(made("pipeline", rich()), "commands", "Pipeline")
        try:
            c.options.env["A"] = 2
        except Exception:
            pass
        else:
            __mark__("never", "EnvironmentDict: assigning to an item is not refused")
        try:
            del c.options.env["A"]
        except Exception:
            pass
        else:
            __mark__("never", "EnvironmentDict: deleting an item is not refused")
    else:
        r = Result(exit_code=1, output_bytes=b"o", error_bytes=b"e", cancelled=False, encoding="utf-8")
        for n in ("exit_code", "output_bytes", "error_bytes", "cancelled", "encoding"): attempt(r, n, "Result")
'''

RESULTS = PRE + '''
def main():
    r = Result(exit_code=__choose__(0, 1, -15), output_bytes=b"o", error_bytes=b"e", cancelled=__choose__(True, False), encoding="utf-8")
    __mark__("snap", "the result", r)
    k = __choose__(0, 1, 2, 3)
    if k == 0: bool(r)
    elif k == 1: str(r)
    elif k == 2: (r.output, r.error)
    elif k == 3: r.exit_signal
    __mark__("unchanged", "the result", "reading it")
'''


def run_it(kind, how):
    make = {"command": 'sh("prog", "a", b"b").env(A=1).set(inherit_env=__choose__(True, False), timeout=5).stdin(sh.DEVNULL).stderr(sh.DEVNULL)',
            "result": 'sh("prog").result.stdin(sh.DEVNULL).stdout(sh.DEVNULL).stderr(sh.DEVNULL)',
            "subst": 'sh("prog", sh("inner").stdin(sh.DEVNULL)).stdin(sh.DEVNULL).stdout(sh.DEVNULL).set(pass_fds=[7, 8], exit_codes=[1])',
            "subst2": 'sh("prog", sh("inner").stdin(sh.DEVNULL), sh("sink").writable.stdout(sh.DEVNULL)).stdin(sh.DEVNULL).stdout(sh.DEVNULL)',
            "fds": 'sh("prog").stdin(5, close=True).stdout(6, close=True).stderr(sh.STDOUT).set(pass_fds=[7, 8], pass_fds_close=True, exit_codes=[1])',
            "pty": 'sh("prog").set(pty=True, pass_fds=[7]).stdin(sh.DEVNULL).stdout(sh.DEVNULL)',
            "pipeline": 'sh("first", "a").stdin(sh.DEVNULL).stderr(sh.DEVNULL) | sh("last").stdout(sh.DEVNULL).stderr(sh.DEVNULL).set(pass_fds=[7, 8], exit_codes=[1])'}[kind]
    body = {"await": '        await x\n', "with": '        async with x as run:\n            await __body__()\n',
            "iter": '        async for line in x:\n            pass\n', "prompt": '        async with x.prompt("$") as cli:\n            await __body__()\n'}[how]
    return PRE + f'''
async def main():
    x = {make}
    __mark__("snap", "the {kind}", x)
    try:
{body}    except BaseException:
        __mark__("unchanged", "the {kind}", "a failed run")
        raise
    __mark__("unchanged", "the {kind}", "a run")
'''


class Kept(Api):
    "Api without the requirement that the run itself succeeds."
    def end(self, I, st, out):
        pass


def a01_jobs(tier):
    M, KM = [Api("A01")], [Kept("A01")]
    js = [Job(f"{k}-{m}", modify(k, m), M, cancels=0) for k in ("command", "context", "pipeline", "subst") for m in MODS if m not in NOT[k]]
    js += [Job("compose", COMPOSE, M, cancels=0), Job("aliases", ALIAS, M, cancels=0), Job("frozen", FROZEN, M, cancels=0), Job("results", RESULTS, M, cancels=0)]
    deep = 1 if tier == "quick" else 2
    for k, hs in {"command": ("await", "with", "iter", "prompt"), "result": ("await",), "subst": ("await",), "fds": ("await",), "pty": ("await",), "pipeline": ("await", "with"), "subst2": ("await",) if tier != "quick" else ()}.items():
        for h in hs:
            js.append(Job(f"run-{k}-{h}", run_it(k, h), KM, cancels=deep if k in ("command", "result") and h != "prompt" else 0, faults=1, raises={"body": [ValueError]}, coarse=True))
    return js


CHECKS["A01"] = Check("Commands, contexts, pipelines and options are immutable", "contents of every shellous value object before and after each operation", a01_jobs,
                      "Every modifier on a command, context, pipeline and command with process substitution whose settings are all non-default, applied twice; composition; assignments to attributes and items; "
                      "changes to the objects passed in or handed out; runs of each kind with faults and cancellation.", ("modifiers are analysed from one base object per kind; sequences follow because each result is compared setting by setting",),
                      technique="abstract interpretation: deep snapshots of the abstract heap")


# ---------------------------------------------------------------- A02

# kind: (expression making the argument from a fresh name, the strings it contributes)
ARGS = {
    "str": ('__sym__("{n}", str)', ['__sym__("{n}", str)']),
    "bytes": ('__sym__("{n}", bytes)', ['__sym__("{n}", bytes)']),
    "path": ('__new__(Path, "{n}")', ["{v}"]),
    "command": ('sh("inner-{n}")', ["{v}"]),
    "pipeline": ('sh("inner-{n}") | sh("b")', ["{v}"]),
    "bytearray": ('bytearray(b"{n}")', ['b"{n}"']),
    "memoryview": ('memoryview(b"{n}")', ['b"{n}"']),
    "stringio": ('io.StringIO("{n}")', ['"{n}"']),
    "bytesio": ('io.BytesIO(b"{n}")', ['b"{n}"']),
    "int": ("12", ['"12"']),
    "zero": ("0", ['"0"']),
    "true": ("True", ['"True"']),
    "float": ("1.5", ['"1.5"']),
    "object": ('Printable("{n}")', ['"<{n}>"']),
    "iterable": ('Iterable("{n}")', ['"<{n}>"']),
    "list": ('["{n}1", ["{n}2", []], 3]', ['"{n}1"', '"{n}2"', '"3"']),
    "tuple": ('("{n}1", (("{n}2",),), b"x")', ['"{n}1"', '"{n}2"', 'b"x"']),
    "reversed": ('reversed(["{n}1", "{n}2"])', ['"{n}2"', '"{n}1"']),
    "enumerate": ('enumerate(["{n}1", "{n}2"])', ['"0"', '"{n}1"', '"1"', '"{n}2"']),
    "zip": ('zip(["{n}1", "{n}2"], ["{n}3", "{n}4"])', ['"{n}1"', '"{n}3"', '"{n}2"', '"{n}4"']),
    "empty-list": ("[]", []),
    "empty-str": ('""', ['""']),
}
BAD = {"dict": '{"a": 1}', "empty-dict": "{}", "set": '{"a"}', "frozenset": 'frozenset(["a"])', "generator": '(x for x in ["a"])', "range": "range(300)", "none": "None", "ellipsis": "...", "mapping": "os.environ",
       "environment": 'sh.env(A=1).options.env'}
HELP = '''
class Printable:
    def __init__(self, n): self.n = n
    def __str__(self): return "<" + self.n + ">"

class Iterable(Printable):
    def __iter__(self): return iter(["x", "y"])
    def __len__(self): return 2

def same(label, got, want):
    __mark__("is", label + ": " + str(len(want)) + " arguments", len(got) == len(want))
    for i in range(len(want)):
        __mark__("same", label + ": argument " + str(i), got[i], want[i])
'''


def flat(kind, n):
    e, outs = ARGS[kind]
    e = e.replace("{n}", n)
    return e, [o.replace("{n}", n).replace("{v}", "v" + n) for o in outs]


def coercion(a):
    ea, oa = flat(a, "x")
    bodies = []
    for b in ("str", "list", "int", "empty-list"):
        eb, ob = flat(b, "y")
        bodies.append(f'''
    if other == "{b}":
        vy = {eb}
        same("{a}, {b}", sh("p", vx, vy).args, [{", ".join(['"p"'] + oa + ob)}])
''')
        if a not in ("reversed", "enumerate", "zip"):
            bodies.append(f'''
        same("{b}, {a}", sh("p", vy, vx).args, [{", ".join(['"p"'] + ob + oa)}])
        same("nested {a}, {b}", sh("p", [vx, (vy, [vx])], "z").args, [{", ".join(['"p"'] + oa + ob + oa)}, "z"])
        c = sh("p", vy)
        same("call {b}, {a}", c(vx, vy).args, [{", ".join(['"p"'] + ob + oa + ob)}])
        same("repeated call", c(vx)("t").args, [{", ".join(['"p"'] + ob + oa + ['"t"'])}])
''')
    return PRE + HELP + f'''
def main():
    other = __choose__("str", "list", "int", "empty-list")
    vx = {ea}
{"".join(bodies)}
'''


def rejected(k):
    return PRE + f'''
def main():
    bad = {BAD[k]}
    how = __choose__("top", "first", "list", "deep", "call", "after")
    try:
        if how == "top": sh("p", bad)
        elif how == "first": sh(bad)
        elif how == "list": sh("p", ["a", bad])
        elif how == "deep": sh("p", [("a", [bad])])
        elif how == "call": sh("p")(bad)
        else: sh("p", "a")("b", bad, "c")
    except TypeError:
        return
    __mark__("never", "a {k} is accepted as an argument")
'''


COERCE_ARG = PRE + HELP + '''
def main():
    seen = []
    def conv(arg):
        seen.append(arg)
        if arg == "expand": return ["e1", ["e2"], 5]
        if arg == "drop": return []
        if isinstance(arg, dict): return [f"--{k}={v}" for k, v in arg.items()]
        return arg
    inner = ["expand", "in"]
    cmd = sh.set(coerce_arg=conv)("p", "expand", inner, {"k": 1}, "drop", 7)
    same("coerce_arg", cmd.args, ["p", "e1", "e2", "5", "expand", "in", "--k=1", "7"])
    same("coerce_arg is given", seen, ["p", "expand", inner, {"k": 1}, "drop", 7])
    more = cmd("expand", "y")
    same("coerce_arg on more arguments", more.args, ["p", "e1", "e2", "5", "expand", "in", "--k=1", "7", "e1", "e2", "5", "y"])
    __mark__("is", "coerce_arg is called once for each top-level argument", len(seen) == 8)
    other = sh("p").set(coerce_arg=conv)("drop", "z")
    same("coerce_arg set on a command", other.args, ["p", "z"])
    plain = cmd.set(coerce_arg=None)("expand")
    same("coerce_arg removed", plain.args[-1:], ["expand"])
    try:
        sh.set(coerce_arg=lambda a: None)("p")
    except TypeError:
        return
    __mark__("never", "a coerce_arg that returns None is accepted")
'''

NO_PROGRAM = PRE + '''
def main():
    how = __choose__("none", "empty", "nested")
    try:
        if how == "none": sh()
        elif how == "empty": sh([])
        else: sh(((), []))
    except ValueError:
        return
    __mark__("never", "a command without a program is accepted")
'''


def a02_jobs(tier):
    M = [Api("A02")]
    return [Job("coerce-" + a, coercion(a), M, cancels=0, list_cap=60) for a in ARGS] + [Job("reject-" + k, rejected(k), M, cancels=0, list_cap=60) for k in BAD] + \
        [Job("coerce_arg", COERCE_ARG, M, cancels=0, list_cap=60), Job("no-program", NO_PROGRAM, M, cancels=0, list_cap=60)]


CHECKS["A02"] = Check("Arguments are coerced by type and keep their order", "Command.args against the documented flattening of the values passed", a02_jobs,
                      "Every documented argument type with arbitrary contents, before, after and nested in other arguments, to a context and to a command; every rejected type at every position; "
                      "coerce_arg's calls and results.", ("argument types are those documented, each alone and next to text, numbers and lists",),
                      technique="abstract interpretation with symbolic arguments")


# ---------------------------------------------------------------- A03

class Env(Expect):
    """__mark__("env", label, inherit, [(name, value), ...]) before a run: the environment its programs must get.
    __mark__("env-of", label, mapping, inherit, [...]): the same for a mapping or None."""
    def __init__(self, name="A03"):
        super().__init__(name)

    strict = True

    def on_mark(self, I, st, name, args, **kw):
        if name == "env":
            self.put(st, "want", Tup(list(args)))
        elif name == "env-of":
            self.compare(I, st, kval(args[0]), args[1], args[2] is TRUE, args[3])
        else:
            super().on_mark(I, st, name, args, **kw)

    def on_exec(self, I, st, args, kw, **_):
        w = self.get(st, "want")
        if w is None:
            return
        w = w.parts[0]
        self.put(st, "ran", TRUE)
        prog = I.norm(args[0], st)
        want = w[2]
        self.compare(I, st, kval(w[0]), dict(kw).get("env", NONE), w[1] is TRUE, want)

    def compare(self, I, st, label, env, inherit, want):
        want = [tuple(I.models.known_items(p, st)) for p in I.models.known_items(want, st)]
        env = I.norm(env, st)
        if env is NONE:
            if not inherit or want:
                self.bad(I, st, "environment", f"{label}: the program inherits the parent's environment" + ("" if not inherit else ", without the configured variables"), construct=label, where="exec")
            return
        parts = [p for p, _s in I.models.map_parts(env, st, None)]
        if len(parts) != 1 or parts[0] is None or isinstance(parts[0], Raise):
            I.note(f"undecided environment at {label}")
            return
        rest, items = parts[0]
        if rest is not None and rest.tag == "sym" and rest.parts[0] == "merge" and len(rest.parts) == 4 and rest.parts[3] is ENVIRON_ALL and rest.parts[2].parts[0]:
            self.bad(I, st, "environment", f"{label}: the parent's variables override the configured ones", construct=label, where="exec")
            return
        if rest is not None and rest is not ENVIRON_ALL or any(k.tag != "k" for k, _v in items):
            I.note(f"undecided environment at {label}: {show(rest) if rest is not None else ''}")
            return
        if inherit != (rest is not None):
            self.bad(I, st, "environment", f"{label}: the program " + ("does not get" if inherit else "gets") + " the parent's variables", construct=label, where="exec")
        have = {kval(k): v for k, v in items}
        for k, v in want:
            if kval(k) not in have:
                self.bad(I, st, "environment", f"{label}: variable {kval(k)} is missing", construct=label, where="exec")
            elif not self.equal(I, st, have[kval(k)], v):
                self.bad(I, st, "environment", f"{label}: variable {kval(k)} is {show(I.norm(have[kval(k)], st))} instead of {show(I.norm(v, st))}", construct=label, where="exec")
        names = [kval(k) for k, _v in want]
        for k in have:
            if k not in names:
                self.bad(I, st, "environment", f"{label}: the program gets the variable {k}", construct=label, where="exec")

    def parent(self, I, st, how, at):
        self.bad(I, st, "parent-environment", f"the parent's environment is modified: {how}", construct=how)

    def on_setitem(self, I, st, obj, **_):
        if I.norm(obj, st) is Py(os.environ):
            self.parent(I, st, "os.environ[...] = ...", None)

    def on_delitem(self, I, st, obj, **_):
        if I.norm(obj, st) is Py(os.environ):
            self.parent(I, st, "del os.environ[...]", None)

    def on_ext(self, I, st, name, **_):
        if name in ("os.putenv", "os.unsetenv") or name.startswith("os.environ.") and name.split(".")[-1] in ("update", "setdefault", "pop", "popitem", "clear", "__setitem__", "__delitem__", "__ior__"):
            self.parent(I, st, name, None)

    def end(self, I, st, out):
        if self.strict and isinstance(out, Raise):
            self.bad(I, st, "raises", f"the operations described raise {exc_name(I, st, out)}", construct="driver", where="end")


class EnvRun(Env):
    strict = False


from ..pymodel import ENVIRON as ENVIRON_ALL

QUIETLY = ".stdin(sh.DEVNULL).stdout(sh.DEVNULL).stderr(sh.DEVNULL)"

# history of modifiers -> the variables it configures
HISTORIES = {
    "none": ("c", []),
    "env": ('c.env(A=1, B="two")', [("A", '"1"'), ("B", '"two"')]),
    "env-sym": ('c.env(A=value)', [("A", "value")]),
    "env-env": ('c.env(A=1, B=2).env(B=3, C=4)', [("A", '"1"'), ("B", '"3"'), ("C", '"4"')]),
    "env-empty": ('c.env(A=1).env()', [("A", '"1"')]),
    "empty": ('c.env()', []),
    "falsy": ('c.env(A="", B=0, C=None, D=False)', [("A", '""'), ("B", '"0"'), ("C", '"None"'), ("D", '"False"')]),
    "set": ('c.env(A=1).set(env={"B": 2})', [("B", '"2"')]),
    "set-env": ('c.set(env={"A": 1, "B": 2}).env(A=3)', [("A", '"3"'), ("B", '"2"')]),
    "set-none": ('c.env(A=1).set(env=None)', []),
    "set-empty": ('c.env(A=1).set(env={})', []),
    "set-empty-env": ('c.env(A=1).set(env={}).env(C=1)', [("C", '"1"')]),
    "set-keys": ('c.set(env={1: 2, "PATH": value})', [("1", '"2"'), ("PATH", "value")]),
    "set-copy": ('c.set(env=sh.env(A=1, B=2).options.env)', [("A", '"1"'), ("B", '"2"')]),
    "other-options": ('c.env(A=1).set(timeout=3, path="x").stdin(b"")', [("A", '"1"')]),
    "result": ('c.env(A=1).result', [("A", '"1"')]),
}


def history(h):
    expr, want = HISTORIES[h]
    return PRE + f'''
def main():
    value = __sym__("value", str)
    kind = __choose__("command", "context")
    inherit = __choose__(True, False)
    early = __choose__(True, False)
    c = sh if kind == "context" else sh("prog")
    if early: c = c.set(inherit_env=inherit)
    x = {expr}
    if not early: x = x.set(inherit_env=inherit)
    __mark__("env-of", "{h}", x.options.runtime_env(), inherit, [{", ".join(f'("{k}", {v})' for k, v in want)}])
    if kind == "context":
        __mark__("env-of", "{h}, a command of the context", x("prog").options.runtime_env(), inherit, [{", ".join(f'("{k}", {v})' for k, v in want)}])
        __mark__("env-of", "{h}, a changed command of the context", x("prog").env(Z=9).options.runtime_env(), inherit, [{", ".join([f'("{k}", {v})' for k, v in want] + ['("Z", "9")'])}])
'''


def env_run(kind):
    q = QUIETLY
    mk_ = {"command": f'sh("prog").env(A=1, B=2).set(inherit_env=inherit){q}',
           "bare": f'sh("prog").set(inherit_env=inherit){q}',
           "pty": f'sh("prog").env(A=1, B=2).set(inherit_env=inherit, pty=True){q}',
           "pipeline": f'(sh.set(inherit_env=inherit).env(A=1)("first").env(B=2).stdin(sh.DEVNULL).stderr(sh.DEVNULL) | sh("last").set(env={{"A": 1, "B": 2}}, inherit_env=inherit).stdout(sh.DEVNULL).stderr(sh.DEVNULL))',
           "subst": f'sh("prog", sh("inner").env(A=1, B=2).set(inherit_env=inherit).stdin(sh.DEVNULL).stderr(sh.DEVNULL)).env(A=1, B=2).set(inherit_env=inherit){q}'}[kind]
    want = "[]" if kind == "bare" else '[("A", "1"), ("B", "2")]'
    return PRE + f'''
async def main():
    inherit = __choose__(True, False)
    x = {mk_}
    __mark__("env", "a run of a {kind}", inherit, {want})
    how = __choose__("await", "with")
    if how == "await":
        await x
    else:
        async with x as run:
            pass
'''


def a03_jobs(tier):
    M = [Env()]
    js = [Job("history-" + h, history(h), M, cancels=0) for h in HISTORIES]
    js += [Job("run-" + k, env_run(k), [EnvRun()], cancels=0, coarse=True, expect=("exec",)) for k in ("command", "bare", "pty", "pipeline", "subst")]
    return js


CHECKS["A03"] = Check("The child's environment is exactly what was configured", "the env argument of every launch, and writes to os.environ", a03_jobs,
                      "Histories of env() and set(env=...) with inherit_env set before or after, on commands and contexts, and the environment given to exec by commands, pty commands, pipelines and process substitutions.",
                      ("os.environ | m, {**os.environ, ...}, dict(os.environ) and copies mean the parent's variables overridden by what follows",),
                      technique="abstract interpretation with symbolic mappings")


# ---------------------------------------------------------------- A04

class Double(Expect):
    """__mark__("ambiguous", bool): whether what follows must be rejected; __mark__("owned", fd): to be closed if it is."""
    def __init__(self, name="A04"):
        super().__init__(name)

    def on_mark(self, I, st, name, args, **kw):
        if name == "ambiguous":
            self.put(st, "ambiguous", args[0])
            self.put(st, "what", args[1])
        elif name == "owned":
            self.put(st, ("fd", len(self.owned(st))), Tup([I.norm(args[0], st)]))
        else:
            super().on_mark(I, st, name, args, **kw)

    def owned(self, st):
        out = []
        while self.get(st, ("fd", len(out))) is not None:
            out.append(self.get(st, ("fd", len(out))).parts[0][0])
        return out

    def on_closed(self, I, st, fd, **_):
        fd = I.norm(fd, st)
        for i, x in enumerate(self.owned(st)):
            if x is fd:
                n = self.get(st, ("closed", i))
                self.put(st, ("closed", i), K(1 + (kval(n) if n is not None else 0)))

    def on_exec(self, I, st, **_):
        self.put(st, "exec", TRUE)
        if self.get(st, "ambiguous") is TRUE:
            self.bad(I, st, "launched", f"{kval(self.get(st, 'what'))} captures stdout and stderr and still launches a program", construct=kval(self.get(st, "what")), where="exec")

    def end(self, I, st, out):
        if self.get(st, "ambiguous") is None:
            return
        what = kval(self.get(st, "what"))
        if self.get(st, "ambiguous") is not TRUE:
            if self.get(st, "exec") is None and not (isinstance(out, Raise) and exc_name(I, st, out) == "FileNotFoundError"):
                self.bad(I, st, "rejected", f"{what} is not ambiguous and still does not run" + (f" ({exc_name(I, st, out)})" if isinstance(out, Raise) else ""), construct=what, where="end")
            return
        if not isinstance(out, Raise):
            self.bad(I, st, "accepted", f"{what} captures stdout and stderr and is not rejected", construct=what, where="end")
        for i, fd in enumerate(self.owned(st)):
            n = self.get(st, ("closed", i))
            n = 0 if n is None else kval(n)
            if n != 1:
                self.bad(I, st, "not-closed", f"{what} is rejected and descriptor {show(fd)} which it was to close is closed {n} times", construct=what, where="end")


OUTS = {"default": None, "capture": "sh.CAPTURE", "buffer": "sh.BUFFER", "devnull": "sh.DEVNULL", "inherit": "sh.INHERIT", "path": 'Path("o")', "bytearray": "bytearray()", "fd": "fdo"}
ERRS = {"default": None, "capture": "sh.CAPTURE", "buffer": "sh.BUFFER", "devnull": "sh.DEVNULL", "inherit": "sh.INHERIT", "stdout": "sh.STDOUT", "path": 'Path("e")', "stringio": "io.StringIO()", "fd": "fde"}


def double(o, kind, how, tier):
    errs = [e for e in ERRS if tier != "quick" or e in ("default", "capture", "stdout", "devnull", "path")]
    out = "" if OUTS[o] is None else f".stdout({OUTS[o]})"
    if how == "await":
        amb = f'e == "capture"' if o == "capture" else "False"
    elif o in ("capture", "default"):
        amb = f'e == "capture"'
    else:
        amb = "False"
    opts = ".set(pass_fds=(fdp,), pass_fds_close=True)"
    pty = ", pty=__choose__(True, False)" if kind == "command" else ""
    mk_ = f'sh("prog").set(pass_fds=(fdp,), pass_fds_close=True{pty}).stdin(fdi, close=True)' if kind == "command" else f'(sh("first").stdin(fdi, close=True).stderr(sh.DEVNULL) | sh("prog").set(pass_fds=(fdp,), pass_fds_close=True))'
    return PRE + f'''
async def main():
    fdi = __sym__("fd-stdin", int)
    fdp = __sym__("fd-passed", int)
    fdo = __sym__("fd-out", int)
    fde = __sym__("fd-err", int)
    x = {mk_}{out}
    e = __choose__({", ".join(repr(e) for e in errs)})
    {"; ".join(f'e_{e} = lambda x: x.stderr({ERRS[e]})' for e in errs if ERRS[e])}
    {" ".join(f"""
    if e == "{e}": x = e_{e}(x)""" for e in errs if ERRS[e])}
    __mark__("owned", fdi)
    __mark__("owned", fdp)
    __mark__("ambiguous", {amb}, "{'awaiting' if how == 'await' else 'iterating over'} a {kind} with stdout={o}, stderr=" + e)
    {"await x" if how == "await" else "async for line in x: pass"}
'''


def a04_jobs(tier):
    js = []
    for kind in ("command", "pipeline"):
        for how in ("await", "iter"):
            if (kind, how) == ("pipeline", "await"):
                continue
            for o in OUTS:
                js.append(Job(f"{how}-{kind}-{o}", double(o, kind, how, tier), [Double()], cancels=0, coarse=True))
    return js


CHECKS["A04"] = Check("Ambiguous double capture is rejected before anything runs", "for each pair of settings of stdout and stderr, whether the command is rejected, whether anything was launched, and the descriptors it was to close", a04_jobs,
                      "Every kind of stdout setting with every kind of stderr setting, on commands (with and without pty) that are awaited or iterated over and on pipelines that are iterated over.", (),
                      technique="abstract interpretation over all combinations of redirections")


# ---------------------------------------------------------------- A05

def redirect(name):
    def summ(I, fn, args, kw, st, node):
        return I.call(I.driver.ns[name], args, kw, st, node)
    return summ


ENTRY = {f"{c}.__{a}__": redirect("fake_" + a) for c in ("Runner", "PipeRunner") for a in ("aenter", "aexit")}


class Entered(Expect):
    "Which run each exit finishes; what is left when all have exited."

    def on_mark(self, I, st, name, args, **_):
        super().on_mark(I, st, name, args)
        if name == "left":
            seen, todo = set(), [st.ctl.get("ctx", NONE)]
            todo += [st.get(v.parts[0]).f.get("ctx", NONE) for v in args]
            while todo:
                v = todo.pop()
                if v.tag == "tup":
                    todo.extend(v.parts[0])
                elif v.tag == "ref" and st.has(v.parts[0]) and v not in seen:
                    seen.add(v)
                    o = st.get(v.parts[0])
                    if o.kind == "inst" and o.cls is not None and o.cls.tag == "cls" and o.cls.parts[0].name in ("Runner", "PipeRunner"):
                        self.bad(I, st, "left", "a run whose block has ended, or was never entered, is still recorded as entered", construct="context", where="driver")
                        return
                    for x in list(o.items or ()) + list(o.f.values()):
                        if isinstance(x, Val):
                            todo.append(x)
                        elif isinstance(x, tuple):
                            todo.extend(y for y in x if isinstance(y, Val))

    def end(self, I, st, out):
        if isinstance(out, Raise):
            self.bad(I, st, "raises", f"entering and leaving commands fails with {exc_name(I, st, out)}", construct=exc_name(I, st, out), where="end")


def entries(xs, n, inner, late):
    return PRE + f'''
TASKS = []
STACKS = []
LAST = []
XS = []

async def other():
    "What the other task does while this one is suspended."
    if len(INNER) > 0 and __choose__(False, True):
        INNER.pop()
        step(1 if CUR[-1] == 0 else 0)

CUR = []
INNER = []
FAULTS = []

def fault():
    if len(FAULTS) > 0 and __choose__(False, True):
        FAULTS.pop()
        return True
    return False

async def fake_aenter(run):
    await other()
    if fault():
        raise ValueError("enter")
    return run

async def fake_aexit(run, et, ev, tb):
    await other()
    LAST.append((run, et, ev, tb))
    if fault():
        raise KeyError("exit")
    return __sym__("answer", bool)

async def enter(t, i):
    try:
        r = await XS[i].__aenter__()
    except ValueError:
        return
    for k in range(4):
        for old in STACKS[k]:
            __mark__("differ", "two blocks are given one run", r, old)
    STACKS[2 * t + i].append(r)

async def leave(t, i):
    want = STACKS[2 * t + i].pop()
    et, ev, tb = __sym__("exc-type", type), __sym__("exc", object), __sym__("tb", object)
    try:
        ret = await XS[i].__aexit__(et, ev, tb)
    except KeyError:
        pass
    else:
        __mark__("same", "the answer of the run's exit", ret, __sym__("answer", bool))
    if len(LAST) == 0:
        __mark__("never", "a block was left and no run was finished")
        return
    got = LAST.pop()
    __mark__("same", "the run finished by leaving a block", got[0], want)
    __mark__("same", "the exception given to the run", got[1:], (et, ev, tb))

def step(t):
    i = __choose__(0, 1)
    CUR.append(t)
    if __choose__(False, True) and len(STACKS[2 * t + i]) > 0:
        __run_in__(TASKS[t], leave, t, i)
    else:
        __run_in__(TASKS[t], enter, t, i)
    CUR.pop()

def main():
    XS.append({xs[0]})
    XS.append({xs[1]})
    for k in range(4):
        STACKS.append([])
    a = __task__("a")
    TASKS.append(a)
    b = a
    late = {late}
    if not late:
        b = __task__("b")
    TASKS.append(b)
    CUR.append(0)
    __run_in__(a, enter, 0, 0)
    CUR.pop()
    for k in range({inner}):
        INNER.append(1)
    FAULTS.append(1)
    if late:
        __run_in__(a, spawn)
    for k in range({n}):
        step(__choose__(0, 1))
    INNER.clear()
    FAULTS.clear()
    for t in range(2):
        for i in range(2):
            while len(STACKS[2 * t + i]) > 0:
                CUR.append(t)
                __run_in__(TASKS[t], leave, t, i)
                CUR.pop()
    __mark__("left", TASKS[0], TASKS[1])

async def spawn():
    TASKS[1] = __task__("b")
'''


def a05_jobs(tier):
    pipe = '(sh("a") | sh("b"))'
    js = []
    for name, xs in (("commands", ('sh("a")', 'sh("a")')), ("pipelines", (pipe, pipe)), ("both", ('sh("a")', pipe))):
        for late in (False, True):
            for n, inner in ((2, 1), (3, 0)) if tier == "quick" else ((3, 1), (4, 0)):
                js.append(Job(f"{name}{'-child' if late else ''}-{n + 1}{'-inner' if inner else ''}", entries(xs, n, inner, late), [Entered("A05")], cancels=0, coarse=True, summaries=ENTRY))
    return js


CHECKS["A05"] = Check("Each exit finishes the run of its own block", "for all short histories of entering and leaving two equal objects in two tasks, which run every exit finishes, with which exception, and what stays recorded", a05_jobs,
                      "Histories of enters and exits of two equal but distinct objects, nested and from two tasks (one possibly started by the other inside a block), where an enter may fail, an exit may raise, and the other task acts while one is suspended.", ("the run's own __aenter__ and __aexit__ are replaced by stand-ins that succeed or fail; they are decided by the L and F properties",),
                      technique="abstract interpretation over bounded histories of two tasks")


# ---------------------------------------------------------------- A08

class Launch(Monitor):
    """__mark__("launch", label, program, search_path, pass_fds, close_fds, session, preexec, extra)
    announces how that program must be launched; extra: number of further descriptors handed over,
    session/preexec None: not judged."""
    name = "A08"

    def on_mark(self, I, st, name, args, **_):
        if name == "launch":
            n = self.get(st, "n")
            n = 0 if n is None else kval(n)
            self.put(st, "n", K(n + 1))
            self.put(st, ("spec", n), Tup(list(args)))

    def on_ext(self, I, st, name, args, kw, **_):
        if name == "shutil.which":
            path = kw.get("path", args[2] if len(args) > 2 else NONE)
            self.put(st, ("searched", show(I.norm(args[0], st))), Tup([path]))

    def on_exec(self, I, st, args, kw, **_):
        prog = I.norm(args[0], st)
        name = prog.parts[1] if prog.tag == "sym" and prog.parts[0] == "which" else prog
        n = self.get(st, "n")
        for i in range(kval(n) if n is not None else 0):
            spec = self.get(st, ("spec", i)).parts[0]
            if I.norm(spec[1], st) is I.norm(name, st):
                return self.check(I, st, spec, prog, name, dict(kw))
        I.note(f"launch of {show(prog)} not described")

    def check(self, I, st, spec, prog, name, kw):
        label, _p, path, fds, close, session, pre, extra = spec[:8]
        what = kval(label)

        def bad(rule, msg):
            self.bad(I, st, rule, f"{what}: {msg}", construct=what, where="exec")
        self.put(st, "ran", TRUE)
        if "/" in kval(name):
            if prog is not name:
                bad("search", "a program given with its directory is searched for")
        elif prog is name:
            bad("search", "the program is launched without being looked up in the configured search path")
        else:
            p = self.get(st, ("searched", show(name)))
            if p is None:
                I.note("lookup of the program not seen")
            elif I.norm(p.parts[0][0], st) is not I.norm(path, st):
                bad("search", f"the program is looked up in {show(p.parts[0][0])} instead of {show(path)}")
        want = I.models.known_items(I.norm(fds, st), st)
        got = I.norm(kw.get("pass_fds", Tup(())), st)
        got = I.models.known_items(got, st)
        if got is None:
            I.note("pass_fds undecided")
        else:
            got = [I.norm(x, st) for x in got]
            missing = [x for x in want if I.norm(x, st) not in got]
            if missing:
                bad("pass-fds", f"descriptor {show(missing[0])} of pass_fds is not passed to the program")
            elif len(set(got)) < len(set(I.norm(x, st) for x in want)) + kval(extra):
                bad("pass-fds", "the descriptor of a process substitution is not passed to the program")
            elif len(set(got)) > len(want) + kval(extra):
                bad("pass-fds", f"descriptors are passed to the program that were not asked for ({', '.join(show(x) for x in got)})")
        c = I.norm(kw.get("close_fds", TRUE), st)
        wc = TRUE if len(want) + kval(extra) else I.norm(close, st)
        for b, _s in I.truth(c, st.fork()):
            if b != (wc is TRUE):
                bad("close-fds", f"close_fds is {show(c)} instead of {show(wc)}")
        s = I.norm(kw.get("start_new_session", FALSE), st)
        if I.norm(session, st) is not NONE:
            for b, _s in I.truth(s, st.fork()):
                if b != (I.norm(session, st) is TRUE):
                    bad("session", f"start_new_session is {show(s)} instead of {show(session)}")
        f = I.norm(kw.get("preexec_fn", NONE), st)
        if I.norm(pre, st) is not K("any") and f is not I.norm(pre, st):
            bad("preexec", f"preexec_fn is {show(f)} instead of {show(pre)}")
        for k in kw:
            if k not in ("pass_fds", "close_fds", "start_new_session", "preexec_fn", "stdin", "stdout", "stderr", "env"):
                bad("other", f"the program is launched with the further parameter {k}")

    def end(self, I, st, out):
        if self.get(st, "ran") is None and not (isinstance(out, Raise) and exc_name(I, st, out) == "FileNotFoundError"):
            self.bad(I, st, "not-run", "nothing is launched and the program was not reported missing", construct="end", where="end")


def launch(kind):
    q = QUIETLY
    o = "path=path, close_fds=close, pass_fds=fds, pass_fds_close=pc"
    pr = '"dir/prog"' if kind == "dir" else '"prog"'
    mk_ = {"command": f'sh({pr}).set({o}, _start_new_session=session, _preexec_fn=pre){q}',
           "dir": f'sh({pr}).set({o}, _start_new_session=session, _preexec_fn=pre){q}',
           "context": f'sh.set({o}, _start_new_session=session, _preexec_fn=pre)({pr}){q}',
           "pty": f'sh({pr}).set({o}, pty=True)',
           "pipeline": f'(sh("first").set({o}, _start_new_session=session, _preexec_fn=pre).stdin(sh.DEVNULL).stderr(sh.DEVNULL) | sh("last").set(path=path2).stdout(sh.DEVNULL).stderr(sh.DEVNULL))',
           "subst": f'sh({pr}, sh("inner").set(path=path2).stdin(sh.DEVNULL).stderr(sh.DEVNULL), "x").set({o}, _start_new_session=session, _preexec_fn=pre){q}'}[kind]
    first = '"first"' if kind == "pipeline" else pr
    marks = [f'__mark__("launch", "a {kind}", {first}, path, fds, close, {"True" if kind == "pty" else "session"}, {chr(34) + "any" + chr(34) if kind == "pty" else "pre"}, {1 if kind == "subst" else 0})']
    if kind == "pipeline":
        marks.append('__mark__("launch", "the last of a pipeline", "last", path2, (), True, False, None, 0)')
    if kind == "subst":
        marks.append('__mark__("launch", "a substituted command", "inner", path2, (), True, False, None, 0)')
    return PRE + f'''
def hook():
    pass
async def main():
    path = __sym__("path", str, opt=True)
    path2 = __sym__("path2", str, opt=True)
    fd1 = __sym__("fd-1", int)
    fd2 = __sym__("fd-2", int)
    fds = __choose__((), (fd1,), [fd1, fd2])
    close = {"False" if kind == "pipeline" else "__choose__(True, False)"}
    session = {"True" if kind == "pipeline" else "__choose__(True, False)"}
    pc = {"True" if kind == "pipeline" else "__choose__(True, False)"}
    pre = {"hook" if kind == "pipeline" else "__choose__(None, hook)"}
    x = {mk_}
    {"; ".join(marks)}
    await x
'''


FIND = PRE + '''
from pathlib import Path
from shellous import CmdContext
def main():
    path = __sym__("path", str, opt=True)
    name = __sym__("name", str)
    how = __choose__("none", "context", "command")
    __mark__("find", name, path if how != "none" else None)
    ctx = sh if how == "none" else sh.set(path=path)
    __mark__("found", ctx.find_command(name))
'''


class Find(Monitor):
    "find_command returns what looking the name up in the configured path finds."
    name = "A08"

    def on_mark(self, I, st, name, args, **_):
        if name == "find":
            self.put(st, "want", Tup([I.norm(a, st) for a in args]))
        elif name == "found":
            def bad(msg):
                self.bad(I, st, "search", f"find_command(): {msg}", construct="find_command", where="driver")
            name, path = self.get(st, "want").parts[0]
            p = self.get(st, "searched")
            if p is None:
                return bad("the name is not looked up")
            p = p.parts[0]
            if p[0] is not name or p[1] is not path:
                return bad(f"{show(p[0])} is looked up in {show(p[1])} instead of {show(path)}")
            got, hit = I.norm(args[0], st), self.get(st, "hit")
            if hit is NONE and got is not NONE:
                return bad(f"{show(got)} is returned although the program was not found")
            if hit is not None and hit is not NONE and not (got is hit or got.tag == "sym" and hit in got.parts):
                return bad(f"{show(got)} is returned although the program was found as {show(hit)}")

    def on_which(self, I, st, name, found, **_):
        self.put(st, "hit", I.norm(found, st))

    def on_ext(self, I, st, name, args, kw, **_):
        if name == "shutil.which":
            path = kw.get("path", args[2] if len(args) > 2 else NONE)
            self.put(st, "searched", Tup([I.norm(args[0], st), I.norm(path, st)]))


def a08_jobs(tier):
    return [Job("find", FIND, [Find()], cancels=0)] + [Job("launch-" + k, launch(k), [Launch()], cancels=0, coarse=True, which_found=(k == "pipeline"), expect=("exec",)) for k in ("command", "dir", "context", "pty", "pipeline", "subst")]


CHECKS["A08"] = Check("Programs are launched with exactly the configured parameters", "the lookup of the program and the pass_fds, close_fds, start_new_session and preexec_fn arguments of every launch", a08_jobs,
                      "Launches of single commands, pty commands, pipelines and process substitutions with every combination of search path, pass_fds, close_fds, new session and preexec function.", (),
                      technique="abstract interpretation over all combinations of launch options")


# ---------------------------------------------------------------- A07

SAME = {
    "env-order": ('sh("a").env(A=1).env(B=2)', 'sh("a").env(B=2).env(A=1)'),
    "env-at-once": ('sh("a").env(A=1, B=2)', 'sh("a").env(B=2).env(A=1)'),
    "env-replaced": ('sh("a").env(A=0, B=2).env(A=1)', 'sh("a").env(A=1).env(B=2)'),
    "env-set": ('sh("a").set(env={"B": 2, "A": 1})', 'sh("a").env(A=1).env(B=2)'),
    "env-context": ('sh.env(A=1)("a").env(B=2)', 'sh.env(B=2)("a").env(A=1)'),
    "options": ('sh("a", "b").set(timeout=t, encoding="latin-1").stdout(sh.DEVNULL)', 'sh("a")("b").stdout(sh.DEVNULL).set(encoding="latin-1").set(timeout=t)'),
    "context": ('sh.env(A=1).env(B=2)', 'sh.env(B=2).env(A=1)'),
    "pipeline": ('sh("a").env(A=1).env(B=2) | (sh("b") | sh("c"))', '(sh("a").env(B=2).env(A=1) | sh("b")) | sh("c")'),
    "nested": ('sh("x", sh("a").env(A=1).env(B=2))', 'sh("x", sh("a").env(B=2).env(A=1))'),
}
OTHER = {
    "env-value": ('sh("a").env(A=1)', 'sh("a").env(A=2)'),
    "env-name": ('sh("a").env(A=1)', 'sh("a").env(B=1)'),
    "env-more": ('sh("a").env(A=1)', 'sh("a").env(A=1, B=2)'),
    "args": ('sh("a", "b")', 'sh("a", "c")'),
    "order": ('sh("a", "b", "c")', 'sh("a", "c", "b")'),
    "timeout": ('sh("a").set(timeout=1)', 'sh("a").set(timeout=2)'),
    "input": ('sh("a").stdin("x")', 'sh("a").stdin("y")'),
    "output": ('sh("a").stdout(sh.DEVNULL)', 'sh("a").stdout(sh.INHERIT)'),
    "append": ('sh("a").stdout(sh.DEVNULL)', 'sh("a").stdout(sh.DEVNULL, append=True)'),
    "writable": ('sh("a").writable', 'sh("a")'),
    "pipeline": ('sh("a") | sh("b")', 'sh("b") | sh("a")'),
    "pipeline-env": ('sh("a").env(A=1) | sh("b")', 'sh("a") | sh("b").env(A=1)'),
}


def equality(same):
    body = ""
    for k, (x, y) in (SAME if same else OTHER).items():
        body += f"""
    x, y = {x}, {y}
    __mark__("is", "{k}: objects with {'the same' if same else 'different'} settings are {'equal' if same else 'not equal'}", {'' if same else 'not '}x == y)
"""
        if same:
            body += f"""    __mark__("same", "{k}: the hash of equal objects", hash(x), hash(y))
"""
    return PRE + f"""
def main():
    t = __sym__("timeout", float)
{body}
"""


def a07_jobs(tier):
    return [Job("same", equality(True), [Api("A07")], cancels=0, expect=("mark:same",)),
            Job("different", equality(False), [Api("A07")], cancels=0, expect=("mark:is",))]


CHECKS["A07"] = Check("Equality and hash agree and reflect the settings", "== and hash of pairs of commands, contexts and pipelines built in different ways", a07_jobs,
                      "Pairs of objects with the same settings reached in a different order, and pairs that differ in one setting.", ("hash() of a tuple or frozenset depends on its elements only, and for a tuple on their order",),
                      technique="abstract interpretation with symbolic hashes")
