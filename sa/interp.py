"""Abstract interpreter for Python source (see DESIGN.md, 'Engine')."""

import ast
import time
import builtins
import enum
import importlib
import os
import sys
import types

from .core import *
from .core import _collect

sys.setrecursionlimit(20000)

STATE_CAP = 60000


class Frame:
    "Python-side view of the scope being executed."
    __slots__ = ("kind", "info", "oid", "ns", "module", "parent", "qual", "exc")

    def __init__(self, kind, module, info=None, oid=None, ns=None, parent=None, qual=""):
        self.kind = kind
        self.module = module
        self.info = info
        self.oid = oid
        self.ns = ns
        self.parent = parent
        self.qual = qual
        self.exc = None


class Violation:
    def __init__(self, rule, construct, where, msg, trace, stack):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.msg = msg
        self.trace = trace
        self.stack = stack

    def key(self):
        return (self.rule, self.construct)


class Config:
    def __init__(self, **kw):
        self.platform = "linux"
        # a cancelled helper task ends before a bounded wait for it expires
        self.prompt_cancel = True
        self.trace = ""
        self.cancels = 0
        self.faults = 0
        self.raises = {}           # ext name -> list of exception classes (fault injection)
        self.opaque_raises = False  # awaiting an opaque awaitable may raise Exception
        self.max_depth = 60
        self.data_depth = 3        # exact chunks kept in buffers before widening
        self.data = False          # exact provenance of stream data (seq.py)
        self.merge_text = True     # data: join decoded pieces
        self.background = False    # other tasks may end while a stream operation waits
        self.max_reads = 3         # data: most chunks a stream delivers
        self.contents = ()        # data: concrete chunks instead of opaque ones
        self.lens = ()             # data: possible lengths of a chunk; () = unknown
        self.list_cap = 8          # items a list may hold before it is widened
        self.coarse = False        # abstract all stream data to one value, forget facts about it
        self.keep = ("in", "exitcode")  # coarse mode: facts on these symbols survive function returns
        self.summaries = {}        # qualname -> python model
        self.deadline = None       # time.time() at which the scenario is given up
        self.lost_wait_pid = True  # os.waitpid may raise ChildProcessError
        self.threads = False       # threads, epoll and process ids (threads.py)
        self.sigchld_ignored = False
        self.__dict__.update(kw)


class Interp:
    def __init__(self, root, cfg=None, package="shellous"):
        from . import models
        self.root = root
        self.package = package
        self.cfg = cfg or Config()
        self.modules = {}
        self.monitors = []
        self.violations = {}
        self.callstack = []
        self.cur = (None, 0)
        self.yield_handlers = {}
        self.base = St()
        self.base.ctl = {"task": NONE}
        self.stats = {"functions": set(), "calls": 0, "ext": {}, "states": 0, "suspensions": set(),
                      "modules": set(), "loops": 0, "stmts": set()}
        self.notes = set()
        self.models = models.Models(self)
        self.defer = []
        self.loading = False

    # ------------------------------------------------------------ reporting

    def where(self):
        mod, line = self.cur
        return f"{mod}:{line}" if mod else "?"

    def construct(self):
        for q, mod, _l in reversed(self.callstack):
            if mod and not mod.startswith("<"):
                return q
        return self.callstack[-1][0] if self.callstack else "?"

    def violate(self, st, rule, msg, construct=None, where=None):
        v = Violation(rule, construct or self.construct(), where or self.where(), msg, st.trace_list(),
                      [f"{q} ({m}:{l})" for q, m, l in self.callstack])
        self.violations.setdefault(v.key(), v)

    # Asking does not bring on what is asked about.
    QUERY = ("mark", "caught", "waitpid", "still_running", "wait_lost", "log", "spin", "task_name")
    QUERY_EXT = ("os.waitpid", "os.waitstatus_to_exitcode", "os.kill", "Task.done", "Future.done", "Thread.is_alive", "Event.is_set", "os.path.exists", "time.monotonic", "StreamWriter.is_closing", "StreamReader.at_eof", "Thread.is_alive", "Process.returncode")

    def emit(self, st, kind, **data):
        if kind not in self.QUERY and not (kind == "ext" and (data["name"] in self.QUERY_EXT or data["name"].startswith("Logger."))):
            st.effects += 1
        for m in self.monitors:
            m.event(self, st, kind, data)

    def note(self, msg):
        self.notes.add(msg)

    # ------------------------------------------------------------ modules

    def module_path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def is_repo(self, name):
        return name == self.package or name.startswith(self.package + ".")

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.module_path(name)
        if path is None:
            raise AnalysisBroken(f"module {name} not found in {self.root}")
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        m = ModuleInfo(name, os.path.relpath(path, self.root), tree)
        self.modules[name] = m
        self.stats["modules"].add(name)
        self.exec_module(m)
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            if parent in self.modules:
                self.modules[parent].ns[leaf] = mk("mod", m)
        return m

    def load_source(self, src, name="<scenario>"):
        tree = ast.parse(src, name)
        m = ModuleInfo(name, name, tree)
        self.modules[name] = m
        self.exec_module(m)
        return m

    def exec_module(self, m):
        m.ns["__name__"] = K(m.name)
        m.ns["__package__"] = K(self.package)
        m.ns["__file__"] = K(m.path)
        fr = Frame("module", m, ns=m.ns, qual=m.name)
        saved, self.loading = self.loading, True
        St.nogc = True
        saved_cur = self.cur
        self.callstack.append((m.name, m.path, 0))
        try:
            outs = self.exec_block(m.tree.body, self.base, fr, single=True)
        finally:
            self.callstack.pop()
            self.loading = saved
            St.nogc = saved
            self.cur = saved_cur
        flow, st = outs[0]
        if flow[0] == "raise":
            raise AnalysisBroken(f"module {m.name} raises {flow[1]} {st.get(flow[1].parts[0]) if flow[1].tag=='ref' else ''} at import")
        self.base = st

    def initial(self):
        "Fresh state for a scenario, with all module-level objects as base."
        st = St()
        st.base = dict(self.base.base)
        st.base.update(self.base.heap)
        st.facts = dict(self.base.facts)
        st.fresh = dict(self.base.fresh)
        st.ctl = {"task": NONE, "cancels": self.cfg.cancels, "faults": self.cfg.faults}
        st.facts = {}
        return st

    # ------------------------------------------------------------ frames / names

    def load_name(self, name, st, fr):
        if fr.kind == "func":
            o = st.get(fr.oid)
            if name in o.f:
                return o.f[name]
            if name in fr.info.locals:
                return None
            up = o.f.get("$up")
            while up is not None:
                o = st.get(up.parts[0])
                if name in o.f:
                    return o.f[name]
                up = o.f.get("$up")
        elif fr.kind == "class":
            if name in fr.ns:
                return fr.ns[name]
            p = fr.parent
            if p is not None and p.kind != "module":
                return self.load_name(name, st, p)
        ns = fr.module.ns
        if name in ns:
            return ns[name]
        if name in self.models.intrinsics:
            return mk("intr", name)
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            return K(o) if o is None or isinstance(o, bool) else Py(o)
        return None

    def store_name(self, name, val, st, fr):
        if fr.kind == "func":
            if name in fr.info.nonlocals:
                up = st.get(fr.oid).f.get("$up")
                while up is not None:
                    o = st.get(up.parts[0])
                    if name in o.f:
                        st.put(up.parts[0], o.with_f(name, val))
                        return
                    up = o.f.get("$up")
            if name in fr.info.globals:
                self.emit(st, "global_write", name=name, module=fr.module, value=val)
                fr.module.ns[name] = val
                return
            st.put(fr.oid, st.get(fr.oid).with_f(name, val))
        else:
            fr.ns[name] = val

    def wrap(self, o):
        "Wrap a real python object."
        if o is None or isinstance(o, (bool, int, float, str, bytes)) and not isinstance(o, enum.Enum):
            if type(o) in (bool, int, float, str, bytes, type(None)):
                return K(o)
        if isinstance(o, tuple) and all(isinstance(x, (int, str, bytes)) for x in o) and type(o) is tuple:
            return K(o)
        if o is Ellipsis or o is NotImplemented:
            return Py(o)
        return Py(o)

    def site(self, node, kind=""):
        return f"{self.callstack[-1][1] if self.callstack else '?'}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}{kind}"

    # ------------------------------------------------------------ exceptions

    def make_exc(self, st, cls, args=(), node=None):
        if not isinstance(cls, Val):
            cls = Py(cls)
        return st.alloc("exc:" + show(cls) + "@" + self.site(node), HObj("inst", cls, {"args": Tup(args)}))

    def raise_(self, st, cls, *args, node=None):
        return [(Raise(self.make_exc(st, cls, [K(a) if not isinstance(a, Val) else a for a in args], node)), st)]

    # ------------------------------------------------------------ types

    def subclass(self, a, b):
        "Is type value a a subclass of type value b?"
        if a is b:
            return True
        if a.tag == "py":
            if b.tag != "py":
                return False
            try:
                return issubclass(pyobj(a), pyobj(b))
            except TypeError:
                return False
        if a.tag == "cls":
            for c in a.parts[0].mro():
                if c is b:
                    return True
                if c.tag == "py" and b.tag == "py":
                    try:
                        if issubclass(pyobj(c), pyobj(b)):
                            return True
                    except TypeError:
                        pass
            if b.tag == "py" and pyobj(b) is object:
                return True
            if b.tag == "py" and pyobj(b) is __import__("collections").abc.Hashable:
                return True
        return False

    KINDS = {"list": list, "dict": dict, "set": set}

    def type_of(self, v, st):
        "Return (type value or None, exact)."
        t = v.tag
        if t == "k":
            return Py(type(v.parts[1])), True
        if t == "tup":
            return Py(tuple), True
        if t == "enum":
            return v.parts[0].val, True
        if t == "ref":
            o = st.get(v.parts[0])
            if o.cls is not None:
                return o.cls, True
            if o.kind in self.KINDS:
                return Py(self.KINDS[o.kind]), True
            if o.kind == "coro":
                return Py(types.CoroutineType), True
            if o.kind == "gen":
                return Py(types.AsyncGeneratorType if o.f.get("async") is TRUE else types.GeneratorType), True
            if o.kind == "task":
                import asyncio
                return Py(asyncio.Task), True
            return None, False
        if t in ("fn", "cmfn"):
            return Py(types.FunctionType), True
        if t in ("bound",):
            return Py(types.MethodType), True
        if t in ("meth", "kmeth", "intr"):
            return Py(types.BuiltinFunctionType), True
        if t in ("cls",):
            return Py(type), True
        if t == "mod":
            return Py(types.ModuleType), True
        if t == "py":
            return Py(type(pyobj(v))), True
        if t == "sym":
            ty, exact, opt, _ne = v.meta
            f = st.fact(v)
            if f.none is True:
                return Py(type(None)), True
            best = None
            for c in f.pos:
                if best is None or self.subclass(c, best):
                    best = c
            if ty is not None and (best is None or self.subclass(ty, best)):
                if opt and f.none is None and best is None:
                    return None, False
                return ty, exact
            if best is not None:
                return best, False
        return None, False

    def isinst(self, v, c, st):
        "isinstance -> TRUE/FALSE/boolean term."
        v = self.norm(v, st)
        if c.tag == "tup":
            unk = []
            for x in c.parts[0]:
                r = self.isinst(v, x, st)
                if r is TRUE:
                    return TRUE
                if r is not FALSE:
                    if r.parts[0] == "isinst":
                        unk.extend(r.parts[2].parts[0])
                    else:
                        unk.append(x)
            if not unk:
                return FALSE
            return Sym("isinst", v, Tup(unk), ty=Py(bool), exact=True)
        if c.tag not in ("py", "cls"):
            if c.tag == "py" and not isinstance(pyobj(c), type):
                pass
            return Sym("isinst", v, Tup([c]), ty=Py(bool), exact=True)
        if c.tag == "py" and not isinstance(pyobj(c), type):
            import typing
            args = typing.get_args(pyobj(c))
            if args:
                return self.isinst(v, Tup([Py(a) for a in args]), st)
        ty, exact = self.type_of(v, st)
        if v.tag == "sym":
            f = st.fact(v)
            if any(self.subclass(c, n) for n in f.neg):
                return FALSE
            if c.tag == "py" and pyobj(c) is type(None):
                return self.is_none(v, st)
        if ty is not None:
            if self.subclass(ty, c):
                return TRUE
            if exact:
                return FALSE
            if not self.subclass(c, ty):
                if not self.may_overlap(ty, c):
                    return FALSE
        elif v.tag == "sym" and v.meta[0] is not None:
            # optional typed symbol
            t0 = v.meta[0]
            if not self.subclass(t0, c) and (v.meta[1] or not self.subclass(c, t0)) and not (
                    not v.meta[1] and self.may_overlap(t0, c)):
                return FALSE
            if self.subclass(t0, c):
                r = self.is_none(v, st)
                return self.not_(r)
        return Sym("isinst", v, Tup([c]), ty=Py(bool), exact=True)

    def may_overlap(self, a, b):
        "Could an instance be of both (unrelated) types?"
        import abc
        for x in (a, b):
            if x.tag == "py" and isinstance(pyobj(x), abc.ABCMeta):
                import io
                o = pyobj(x)
                y = b if x is a else a
                if o in (os.PathLike,) and y.tag == "py" and pyobj(y) in (str, bytes, int, bytearray):
                    return False
                if y.tag == "py" and pyobj(y) in (str, bytes, int, bool, bytearray, type(None), float):
                    return False
                if issubclass(o, io.IOBase) or o is io.IOBase:
                    return False
                return True
        return False

    # ------------------------------------------------------------ logic

    def not_(self, v):
        if v is TRUE:
            return FALSE
        if v is FALSE:
            return TRUE
        if v.tag == "sym" and v.parts[0] == "not":
            return v.parts[1]
        return Sym("not", v, ty=Py(bool), exact=True)

    def norm(self, v, st):
        if v.tag == "sym":
            f = st.facts.get(v)
            if f is not None:
                if f.eq is not None:
                    return f.eq
                if f.none is True:
                    return NONE
        return v

    def is_none(self, v, st):
        v = self.norm(v, st)
        if v is NONE:
            return TRUE
        if v.tag != "sym":
            return FALSE
        f = st.fact(v)
        if f.none is not None:
            return B(f.none)
        if f.truth is True:
            return FALSE
        ty, exact, opt, _ = v.meta
        if f.pos or (ty is not None and not opt):
            return FALSE
        return Sym("isnone", v, ty=Py(bool), exact=True)

    ALWAYS_TRUE_EXCL = (int, float, complex, str, bytes, bytearray, list, tuple, dict, set, frozenset, range, bool, type(None), memoryview, object)

    def falsy_possible(self, v, st):
        "Can a (non-None) value of this symbol's type be falsy?"
        ty, exact = self.type_of(v, st)
        if ty is None:
            ty = v.meta[0]
        if ty is None:
            return True
        if ty.tag == "py":
            o = pyobj(ty)
            if o is object:
                return True
            return hasattr(o, "__bool__") or hasattr(o, "__len__")
        m, _ = ty.parts[0].lookup("__bool__")
        m2, _ = ty.parts[0].lookup("__len__")
        if m is not None or m2 is not None:
            return True
        return any(hasattr(b, "__bool__") or hasattr(b, "__len__") for b in ty.parts[0].pybases())

    def truth(self, v, st, node=None):
        "-> list[(bool | Raise, St)]"
        t = v.tag
        if t == "k":
            return [(bool(v.parts[1]), st)]
        if t == "tup":
            return [(len(v.parts[0]) > 0, st)]
        if t == "enum":
            c = v.parts[0]
            if any(issubclass(b, int) for b in c.pybases()):
                return [(bool(self.enum_value(v)), st)]
            return [(True, st)]
        if t == "py":
            return [(bool(pyobj(v)) if isinstance(pyobj(v), (int, float, str, enum.Enum)) else True, st)]
        if t == "ref":
            o = st.get(v.parts[0])
            if o.kind in ("list", "dict", "set"):
                if o.items:
                    return [(True, st)]
                if "rest" in o.f:
                    return self.truth(Sym("nonempty", v, ty=Py(bool)), st)
                return [(False, st)]
            if o.kind == "inst" and o.cls is not None:
                if o.cls.tag == "cls":
                    for nm in ("__bool__", "__len__"):
                        m, _c = o.cls.parts[0].lookup(nm)
                        if m is not None:
                            out = []
                            for r, s in self.call(mk("bound", v, m), [], {}, st, node):
                                if isinstance(r, Raise):
                                    out.append((r, s))
                                else:
                                    out.extend(self.truth(r, s, node))
                            return out
                    pyb = o.cls.parts[0].pybases()
                else:
                    pyb = [pyobj(o.cls)]
                h = self.models.obj_truth(v, o, st)
                if h is not None:
                    return h
                if any(hasattr(b, "__bool__") or hasattr(b, "__len__") for b in pyb):
                    return self.truth(Sym("truthof", v, ty=Py(bool)), st)
            return [(True, st)]
        if t != "sym":
            return [(True, st)]
        # symbols
        k = v.parts[0]
        f = st.fact(v)
        if f.eq is not None:
            return self.truth(f.eq, st)
        if f.truth is not None:
            return [(f.truth, st)]
        if f.none is True:
            return [(False, st)]
        if k == "not":
            return [(b if isinstance(b, Raise) else (not b), s) for b, s in self.truth(v.parts[1], st, node)]
        if k in ("enc", "bool"):
            return self.truth(v.parts[1], st, node)
        if k == "bits":
            base, keep, ones, flip = v.parts[1], *map(kval, v.parts[2:5])
            if ones:
                return [(True, st)]
            if flip:
                w = Sym("bits", base, K(keep), K(0), K(0), ty=Py(int), exact=True)
                if keep & (keep - 1) == 0:
                    return [(not b, s) for b, s in self.truth(w, st, node)]
        if k == "isnone":
            x = v.parts[1]
            r = self.is_none(x, st)
            if r is TRUE:
                return [(True, st)]
            if r is FALSE:
                return [(False, st)]
            s2 = st.fork()
            st.setfact(x, none=True, truth=False)
            s2.setfact(x, none=False)
            return [(True, st), (False, s2)]
        if k == "isinst":
            x, cs = v.parts[1], v.parts[2].parts[0]
            out = []
            rest = st
            for c in cs:
                r = self.isinst(x, c, rest)
                if r is TRUE:
                    out.append((True, rest))
                    rest = None
                    break
                if r is FALSE:
                    continue
                s2 = rest.fork()
                if c.tag in ("py", "cls"):
                    s2.setfact(x, pos=s2.fact(x).pos | {c}, none=False)
                    rest.setfact(x, neg=rest.fact(x).neg | {c})
                else:
                    s2.setfact(v, truth=True)
                    rest.setfact(v, truth=False)
                out.append((True, s2))
            if rest is not None:
                out.append((False, rest))
            return out
        if k == "eq":
            a, b = v.parts[1], v.parts[2]
            r = self.eq(a, b, st)
            if r is TRUE:
                return [(True, st)]
            if r is FALSE:
                return [(False, st)]
            s2 = st.fork()
            if a.tag == "sym" and b.tag in ("k", "enum", "py"):
                st.setfact(a, eq=b)
                s2.setfact(a, neq=s2.fact(a).neq | {b})
            st.setfact(v, truth=True)
            s2.setfact(v, truth=False)
            return [(True, st), (False, s2)]
        if k == "in":
            # membership term: generic, but equality facts on success for tuples of constants are skipped
            s2 = st.fork()
            st.setfact(v, truth=True)
            s2.setfact(v, truth=False)
            return [(True, st), (False, s2)]
        if v.meta[3] is True and f.none is not None:
            return [(True, st)]
        ty, exact, opt, nonempty = v.meta
        if f.none is False:
            opt = False
        if ty is not None and not opt and not self.falsy_possible(v, st):
            return [(True, st)]
        if nonempty and not opt:
            return [(True, st)]
        s2 = st.fork()
        st.setfact(v, truth=True, none=False)
        if ty is not None and opt and (nonempty or not self.falsy_possible(v, s2)):
            s2.setfact(v, truth=False, none=True)
        else:
            s2.setfact(v, truth=False)
            if k == "seq":
                for p in v.parts[2:]:
                    if p.tag == "sym":
                        s2.setfact(p, truth=False)
            if f.pos and not self.falsy_possible(v, s2):
                return [(True, st)]
            if ty is not None and not opt and pyobj_is(ty, bool):
                s2.setfact(v, eq=FALSE)
                st.setfact(v, eq=TRUE)
        return [(True, st), (False, s2)]

    def enum_value(self, v):
        x = v.parts[2]
        return kval(x) if x.tag == "k" else x

    def eq(self, a, b, st):
        a = self.norm(a, st)
        b = self.norm(b, st)
        if a is b:
            return TRUE
        if a.tag == "sym" and b.tag != "sym" or a.tag == "sym" and b.tag == "sym" and repr(a.parts) > repr(b.parts):
            pass
        elif b.tag == "sym":
            a, b = b, a
        if a.tag == "sym":
            f = st.fact(a)
            if b in f.neq:
                return FALSE
            if a.parts[0] == "bits" and is_k(b, int):
                keep, ones, flip = map(kval, a.parts[2:5])
                vals = {x: ones | (x ^ (flip & keep)) for x in (0, keep)} if keep & (keep - 1) == 0 else None
                if kval(b) & ~(keep | ones) or (kval(b) & ones) != ones:
                    return FALSE
                if vals is not None:
                    w = Sym("bits", a.parts[1], K(keep), K(0), K(0), ty=Py(int), exact=True)
                    set_ = Sym("bool", w, ty=Py(bool), exact=True)
                    return set_ if vals[keep] == kval(b) else self.not_(set_)
            if is_k(b, bool) and a.parts[0] in ("not", "bool"):
                return a if kval(b) else self.not_(a)
            if b is NONE:
                return self.is_none(a, st)
            if b.tag == "k" and kval(b) == 0 and a.meta[3] and isinstance(kval(b), int):
                return FALSE        # process ids, descriptors of our own: never 0
            if self.models.is_fd(a) and (b.tag == "sym" and self.models.is_fd(b) or b.tag in ("k", "enum", "tup", "ref")):
                return FALSE        # descriptors open at the same time differ
            if b.tag == "sym" and a.parts[0] == "call" and b.parts[0] == "call" and a.parts[1] is K("id") and b.parts[1] is K("id"):
                x, y = self.norm(a.parts[2], st), self.norm(b.parts[2], st)
                if x is y:
                    return TRUE
                if all(z.tag in ("ref", "cls", "fn") or z is self.models.main_task() for z in (x, y)):
                    return FALSE        # distinct live objects have distinct ids
            if a.parts[0] == "std" and b.tag == "sym" and b.parts[0] == "std":
                return FALSE        # sys.stdin/stdout/stderr are different objects
            if b.tag != "sym":
                ty, exact = self.type_of(a, st)
                tb, eb = self.type_of(b, st)
                if ty is None and a.meta[0] is not None:
                    ty = a.meta[0]      # optional value: None or that type, and b is not None
                if ty is not None and tb is not None and not self.eq_compatible(ty, exact, tb):
                    return FALSE
                if f.truth is not None and b.tag == "k" and bool(kval(b)) != f.truth:
                    return FALSE
                if b.tag in ("k", "enum") and f.neg and any(self.subclass(tb, n) for n in f.neg) and not self.numeric(tb):
                    return FALSE
                if b.tag in ("k", "enum") and f.neg and self.numeric(tb) and Py(int) in f.neg:
                    return FALSE
            t = Sym("eq", a, b, ty=Py(bool), exact=True)
            tr = st.fact(t).truth
            if tr is not None:
                return B(tr)
            x = self.is_empty(a, b, st)
            return t if x is None else x
        if a.tag == "k" and b.tag == "k":
            try:
                return B(a.parts[1] == b.parts[1])
            except Exception:
                return FALSE
        if a.tag == "enum" or b.tag == "enum":
            if a.tag == "enum" and b.tag == "enum" and a.parts[0] is b.parts[0]:
                return B(a.parts[1] == b.parts[1])
            av = self.enum_int(a)
            bv = self.enum_int(b)
            if av is not None and bv is not None:
                return B(av == bv)
            return FALSE
        if a.tag == "tup" and b.tag == "tup":
            if len(a.parts[0]) != len(b.parts[0]):
                return FALSE
            rs = [self.eq(x, y, st) for x, y in zip(a.parts[0], b.parts[0])]
            if any(r is FALSE for r in rs):
                return FALSE
            if all(r is TRUE for r in rs):
                return TRUE
            return Sym("eq", a, b, ty=Py(bool), exact=True)
        if a.tag == "py" and b.tag == "py":
            try:
                return B(pyobj(a) == pyobj(b))
            except Exception:
                return FALSE
        if a.tag == "py" and b.tag == "k" or a.tag == "k" and b.tag == "py":
            p, q = (a, b) if a.tag == "py" else (b, a)
            o = pyobj(p)
            return B(isinstance(o, (int, str)) and o == kval(q))
        if a.tag == "ref" and b.tag == "ref":
            oa, ob = st.get(a.parts[0]), st.get(b.parts[0])
            if oa.kind == ob.kind and oa.kind in ("list", "dict", "set"):
                if oa.items == ob.items and oa.f == ob.f and not oa.f:
                    return TRUE
                if oa.kind == "dict" and not oa.f and not ob.f and all(k.tag == "k" for k, _v in oa.items + ob.items):
                    x, y = dict(oa.items), dict(ob.items)
                    if x.keys() != y.keys():
                        return FALSE
                    rs = [self.eq(x[k], y[k], st) for k in x]
                    if any(r is FALSE for r in rs):
                        return FALSE
                    if all(r is TRUE for r in rs):
                        return TRUE
                if not oa.f and not ob.f and len(oa.items) != len(ob.items):
                    return FALSE
                return Sym("eq", a, b, ty=Py(bool), exact=True)
            if oa.kind == "inst" and oa.cls is ob.cls and oa.cls is not None and oa.cls.tag == "cls" and oa.cls.parts[0].kind in ("dataclass", "namedtuple"):
                c = oa.cls.parts[0]
                if not getattr(c, "eq", True):
                    return FALSE
                skip = getattr(c, "nocompare", ())
                rs = [self.eq(oa.f[n], ob.f[n], st) if n in oa.f and n in ob.f else FALSE for n in oa.f if n not in skip]
                if any(r is FALSE for r in rs):
                    return FALSE
                if all(r is TRUE for r in rs):
                    return TRUE
                return Sym("eq", a, b, ty=Py(bool), exact=True)
            if oa.kind == "inst" and ob.kind == "inst" and oa.cls is not None and ob.cls is not None and (
                    oa.cls.tag == "py" and ob.cls.tag == "py"):
                if any(pyobj(c) in (bytearray, bytes, str) for c in (oa.cls, ob.cls)):
                    return Sym("eq", a, b, ty=Py(bool), exact=True)
            return FALSE
        if a.tag == "ref" or b.tag == "ref":
            r, o = (a, b) if a.tag == "ref" else (b, a)
            ty, _ = self.type_of(r, st)
            if ty is not None and ty.tag == "py" and pyobj(ty) in (bytearray,) and o.tag == "k" and isinstance(kval(o), bytes):
                return Sym("eq", a, b, ty=Py(bool), exact=True)
        return FALSE

    def numeric(self, t):
        return self.subclass(t, Py(int)) or self.subclass(t, Py(float))

    def eq_compatible(self, ta, exact, tb):
        if self.subclass(ta, tb) or self.subclass(tb, ta):
            return True
        if self.numeric(ta) and self.numeric(tb):
            return True
        if ta.tag == "py" and tb.tag == "py":
            x, y = pyobj(ta), pyobj(tb)
            if {x, y} <= {bytes, bytearray, memoryview}:
                return True
            if x is object:
                return True
        return False

    def enum_int(self, v):
        if v.tag == "enum":
            if any(issubclass(b, (int, str)) for b in v.parts[0].pybases()):
                return self.enum_value(v)
            return None
        if v.tag == "k" and isinstance(kval(v), (int, float, str)):
            return kval(v)
        if v.tag == "py" and isinstance(pyobj(v), int):
            return int(pyobj(v))
        return None

    def is_empty(self, a, b, st):
        "A comparison of text with '', or of a length with 0: a question of truth -> Val or None."
        if b.tag != "k":
            return None
        if kval(b) in ("", b""):
            ty, exact = self.type_of(a, st)
            if ty is None or not exact or a.meta[2] or ty not in (Py(str), Py(bytes)):
                return None
        elif a.parts[0] == "len" and b is K(0) and a.parts[1].tag == "sym":
            a = self.norm(a.parts[1], st)
            if a.tag != "sym":
                return None
        else:
            return None
        f = st.fact(a)
        if f.truth is not None:
            return B(not f.truth)
        if a.meta[3] and not a.meta[2]:
            return FALSE
        if a.parts[0] == "seq" and self.cfg.data:
            r = self.models.seq_truth(a, st)
            if r is not None:
                return B(not r)
        return Sym("not", a, ty=Py(bool), exact=True)

    def is_(self, a, b, st):
        a = self.norm(a, st)
        b = self.norm(b, st)
        if a is b:
            return TRUE
        if b is NONE:
            return self.is_none(a, st)
        if a is NONE:
            return self.is_none(b, st)
        if a.tag == "sym" or b.tag == "sym":
            s, o = (a, b) if a.tag == "sym" else (b, a)
            if o.tag == "ref" and st.get(o.parts[0]).kind != "inst":
                return FALSE
            if o.tag in ("k", "enum", "py"):
                return self.eq(s, o, st)
            if o.tag == "ref":
                ty, exact = self.type_of(s, st)
                to, _ = self.type_of(o, st)
                if ty is not None and to is not None and not self.subclass(to, ty) and not self.subclass(ty, to):
                    return FALSE
                # an opaque value created independently of an allocation site is a different object
                return FALSE
            return Sym("eq", *sorted((a, b), key=repr), ty=Py(bool), exact=True)
        if a.tag == "k" and b.tag == "k":
            return B(a is b)
        return FALSE

    # ------------------------------------------------------------ dedupe

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        for flow, st in outs:
            ex = flow[1] if isinstance(flow, tuple) else (flow.exc if isinstance(flow, Raise) else flow)
            st.gc((ex,) if isinstance(ex, Val) else ())
            fk = flow if not isinstance(flow, Raise) else ("raise", flow.exc)
            k = (fk, st.key())
            if k not in seen:
                seen[k] = (flow, st)
        self.stats["states"] += len(seen)
        if self.cfg.deadline is not None and time.time() > self.cfg.deadline:
            raise AnalysisBroken("time limit of the scenario exceeded")
        if len(seen) > STATE_CAP:
            raise AnalysisBroken(f"too many states at {self.where()}")
        return list(seen.values())

    # ------------------------------------------------------------ statements

    def exec_block(self, body, st, fr, single=False):
        live = [st]
        done = []
        for s in body:
            new = []
            multi = False
            for x in live:
                r = self.exec(s, x, fr)
                if len(r) > 1:
                    multi = True
                for flow, y in r:
                    if flow is NEXT:
                        new.append((flow, y))
                    else:
                        done.append((flow, y))
            if single and len(new) > 1:
                new = new[:1]
            if multi or len(live) > 1:
                new = self.dedupe(new)
            live = [y for _f, y in new]
            if not live:
                break
        if len(done) > 1:
            done = self.dedupe(done)
        return done + [(NEXT, y) for y in live]

    def exec(self, s, st, fr):
        r = self._exec(s, st, fr)
        if len(r) > 1 and fr.kind == "module" and self.loading and not fr.module.path.startswith("<"):
            self.note(f"module-level statement forks: {fr.module.path}:{s.lineno}")
        return r

    def _exec(self, s, st, fr):
        self.cur = (fr.module.path, getattr(s, "lineno", 0))
        if self.callstack:
            q, m, _ = self.callstack[-1]
            self.callstack[-1] = (q, m, getattr(s, "lineno", 0))
        if fr.module.path and not fr.module.path.startswith("<"):
            self.stats["stmts"].add((fr.module.path, s.lineno))
        meth = getattr(self, "s_" + type(s).__name__, None)
        if meth is None:
            self.note(f"unsupported statement {type(s).__name__} at {self.where()}")
            return [(NEXT, st)]
        return meth(s, st, fr)

    def flowmap(self, outs, f):
        res = []
        for v, st in outs:
            if isinstance(v, Raise):
                res.append((("raise", v.exc), st))
            else:
                res.extend(f(v, st))
        return res

    def s_Expr(self, s, st, fr):
        return self.flowmap(self.eval(s.value, st, fr), lambda v, x: [(NEXT, x)])

    def s_Pass(self, s, st, fr):
        return [(NEXT, st)]

    s_Global = s_Nonlocal = s_Pass
    s_TypeAlias = s_Pass

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(("ret", NONE), st)]
        return self.flowmap(self.eval(s.value, st, fr), lambda v, x: [(("ret", v), x)])

    def s_Break(self, s, st, fr):
        return [(BREAK, st)]

    def s_Continue(self, s, st, fr):
        return [(CONT, st)]

    def s_Assign(self, s, st, fr):
        def f(v, x):
            outs = [(NEXT, x)]
            for t in s.targets:
                nxt = []
                for flow, y in outs:
                    if flow is not NEXT:
                        nxt.append((flow, y))
                    else:
                        y.pins += (v,)
                        r = self.assign(t, v, y, fr)
                        for _fl, z in r:
                            z.pins = z.pins[:-1]
                        nxt.extend(r)
                outs = nxt
            return outs
        return self.flowmap(self.eval(s.value, st, fr), f)

    def s_AnnAssign(self, s, st, fr):
        if fr.kind == "class" and isinstance(s.target, ast.Name):
            fr.ns.setdefault("$ann", []).append((s.target.id, s.annotation, s.value is not None))
        if s.value is None:
            return [(NEXT, st)]
        return self.flowmap(self.eval(s.value, st, fr), lambda v, x: self.assign(s.target, v, x, fr))

    def s_AugAssign(self, s, st, fr):
        load = _as_load(s.target)

        def f(vals, x):
            a, b = vals
            return self.flowmap(self.binop(type(s.op).__name__, a, b, x, s, inplace=True),
                                lambda v, y: self.assign(s.target, v, y, fr))
        return self.flowmap(self.eval_many([load, s.value], st, fr), f)

    def s_Delete(self, s, st, fr):
        outs = [(NEXT, st)]
        for t in s.targets:
            nxt = []
            for flow, x in outs:
                if flow is not NEXT:
                    nxt.append((flow, x))
                    continue
                nxt.extend(self.delete(t, x, fr))
            outs = nxt
        return outs

    def delete(self, t, st, fr):
        if isinstance(t, ast.Name):
            if fr.kind == "func":
                st.put(fr.oid, st.get(fr.oid).without_f(t.id))
            else:
                fr.ns.pop(t.id, None)
            return [(NEXT, st)]
        if isinstance(t, ast.Attribute):
            def f(v, x):
                self.emit(x, "delattr", obj=v, name=t.attr)
                if v.tag == "ref":
                    o = x.get(v.parts[0])
                    if self.frozen(o):
                        return self.flowmap(self.raise_(x, AttributeError, t.attr, node=t), lambda v, y: [])
                    x.put(v.parts[0], o.without_f(t.attr))
                return [(NEXT, x)]
            return self.flowmap(self.eval(t.value, st, fr), f)
        if isinstance(t, ast.Subscript):
            return self.flowmap(self.eval_many([t.value, _slice(t.slice)], st, fr),
                                lambda vs, x: self.flowmap(self.models.delitem(vs[0], vs[1], x, t), lambda v, y: [(NEXT, y)]))
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [(NEXT, st)]
            for e in t.elts:
                nxt = []
                for flow, x in outs:
                    nxt.extend(self.delete(e, x, fr) if flow is NEXT else [(flow, x)])
                outs = nxt
            return outs
        return [(NEXT, st)]

    def assign(self, t, v, st, fr):
        "-> list[(flow, st)]"
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
            return [(NEXT, st)]
        if isinstance(t, ast.Attribute):
            return self.flowmap(self.eval(t.value, st, fr),
                                lambda o, x: self.flowmap(self.setattr(o, t.attr, v, x, t), lambda _v, y: [(NEXT, y)]))
        if isinstance(t, ast.Subscript):
            return self.flowmap(self.eval_many([t.value, _slice(t.slice)], st, fr),
                                lambda vs, x: self.flowmap(self.models.setitem(vs[0], vs[1], v, x, t), lambda _v, y: [(NEXT, y)]))
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, fr, t)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        self.note(f"unsupported target {type(t).__name__}")
        return [(NEXT, st)]

    def unpack(self, elts, v, st, fr, node):
        n = len(elts)
        items = self.models.known_items(v, st)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        if items is None:
            vals = []
            for i in range(n):
                if i == star:
                    vals.append(Sym("slice", v, K(i), ty=Py(list)))
                else:
                    vals.append(self.models.sym_item(v, K(i), st))
        elif star is None:
            if len(items) != n:
                return self.flowmap(self.raise_(st, ValueError, "unpack", node=node), lambda v, y: [])
            vals = list(items)
        else:
            if len(items) < n - 1:
                return self.flowmap(self.raise_(st, ValueError, "unpack", node=node), lambda v, y: [])
            tail = n - star - 1
            mid = items[star:len(items) - tail]
            lst = st.alloc(self.site(node, ":star"), HObj("list", None, {}, tuple(mid)))
            vals = list(items[:star]) + [lst] + list(items[len(items) - tail:])
        outs = [(NEXT, st)]
        for i, (e, x) in enumerate(zip(elts, vals)):
            nxt = []
            for flow, y in outs:
                if flow is not NEXT:
                    nxt.append((flow, y))
                    continue
                y.pins += tuple(vals)
                r = self.assign(e, x, y, fr)
                for _f, z in r:
                    z.pins = z.pins[:len(z.pins) - len(vals)]
                nxt.extend(r)
            outs = nxt
        return outs

    def s_If(self, s, st, fr):
        def f(b, x):
            return self.exec_block(s.body if b else s.orelse, x, fr)
        return self.flowmap(self.cond(s.test, st, fr), f)

    def s_Assert(self, s, st, fr):
        outs = []
        res = self.cond(s.test, st, fr)
        ok = [r for r in res if r[0] is True]
        for b, x in res:
            if isinstance(b, Raise):
                outs.append((("raise", b.exc), x))
            elif b:
                outs.append((NEXT, x))
            elif not ok:
                # definitely false
                outs.extend(self.flowmap(self.raise_(x, AssertionError, node=s), lambda v, y: []))
        return outs

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            e = st.ctl.get("exc")
            if e is None or e is NONE:
                return self.flowmap(self.raise_(st, RuntimeError, "no active exception", node=s), lambda v, y: [])
            return [(("raise", e), st)]

        def f(v, x):
            if v.tag in ("py", "cls"):
                return self.flowmap(self.call(v, [], {}, x, s), lambda e, y: [(("raise", e), y)])
            return [(("raise", v), x)]
        outs = self.flowmap(self.eval(s.exc, st, fr), f)
        if s.cause is not None:
            pass
        return outs

    def handler_types(self, h, st, fr):
        if h.type is None:
            return [(Py(BaseException), st)]
        return self.eval(h.type, st, fr)

    def s_Try(self, s, st, fr):
        outs = []
        saved_exc = st.ctl.get("exc", NONE)
        for flow, x in self.exec_block(s.body, st, fr):
            if flow[0] == "raise":
                outs.extend(self.handle(s.handlers, flow[1], x, fr))
            elif flow is NEXT and s.orelse:
                outs.extend(self.exec_block(s.orelse, x, fr))
            else:
                outs.append((flow, x))
        outs = self.dedupe(outs)
        if s.finalbody:
            res = []
            for flow, x in outs:
                old = x.ctl.get("exc", NONE)
                pin = ()
                if isinstance(flow[1], Val):
                    pin = (flow[1],)
                if flow[0] == "raise":
                    x.ctl["exc"] = flow[1]
                x.pins += pin
                for fl2, y in self.exec_block(s.finalbody, x, fr):
                    if pin:
                        y.pins = y.pins[:-1]
                    y.ctl["exc"] = old
                    res.append((flow if fl2 is NEXT else fl2, y))
            outs = self.dedupe(res)
        return outs

    s_TryStar = s_Try

    def handle(self, handlers, exc, st, fr):
        outs = []
        live = [st]
        for h in handlers:
            nxt = []
            for x in live:
                x.pins += (exc,)
                tys = self.handler_types(h, x, fr)
                for _t, y in tys:
                    y.pins = y.pins[:-1]
                for t, y in tys:
                    if isinstance(t, Raise):
                        outs.append((("raise", t.exc), y))
                        continue
                    m = self.isinst(exc, t, y)
                    for b, z in self.truth(m, y):
                        if not b:
                            nxt.append(z)
                            continue
                        old = z.ctl.get("exc", NONE)
                        z.ctl["exc"] = exc
                        if h.name:
                            self.store_name(h.name, exc, z, fr)
                        self.emit(z, "caught", exc=exc, node=h, frame=fr)
                        z.pins += (old,)
                        for flow, w in self.exec_block(h.body, z, fr):
                            w.ctl["exc"] = old
                            w.pins = w.pins[:-1]
                            if h.name and fr.kind == "func":
                                w.put(fr.oid, w.get(fr.oid).without_f(h.name))
                            outs.append((flow, w))
            live = nxt
        outs.extend((("raise", exc), x) for x in live)
        return outs

    def s_While(self, s, st, fr):
        def test(x):
            return self.cond(s.test, x, fr)
        return self.loop(st, fr, test, lambda x: self.exec_block(s.body, x, fr),
                         lambda x: self.exec_block(s.orelse, x, fr), s)

    def loop(self, st, fr, test, body, orelse, node):
        self.stats["loops"] += 1
        frontier = [(st, 0)]
        seen = set()
        outs = []
        base = st.get(fr.oid) if fr.kind == "func" else None
        known = {}          # values the locals took in the first rounds: no growth
        while frontier:
            batch = frontier
            frontier = []
            for x, d in batch:
                if d >= 1:
                    if d > 4:
                        self.widen(x, fr, base, node, d, known)
                    elif fr.kind == "func":
                        for n, v in x.get(fr.oid).f.items():
                            known.setdefault(n, set()).add(v)
                    x.gc()
                    k = x.key()
                    if k in seen:
                        continue
                    seen.add(k)
                n = x.effects
                if d > 60 or len(seen) > 20000:
                    raise AnalysisBroken(f"loop at {self.where()} does not converge (line {node.lineno})")
                for b, y in test(x):
                    if isinstance(b, Raise):
                        outs.append((("raise", b.exc), y))
                    elif not b:
                        outs.extend(orelse(y))
                    else:
                        for flow, z in body(y):
                            if flow is NEXT or flow[0] == "cont":
                                frontier.append((z, d + 1))
                                if d >= 1 and z.effects == n and isinstance(node, ast.While):
                                    z.gc()
                                    if z.key() == k:
                                        self.emit(z, "spin", node=node)
                            elif flow[0] == "break":
                                outs.append((NEXT, z))
                            else:
                                outs.append((flow, z))
            if len(outs) > 50:
                outs = self.dedupe(outs)
        return self.dedupe(outs)

    def widen(self, st, fr, base, node, d, known):
        "Replace growing constants/terms in the frame's locals by opaque values."
        if fr.kind != "func":
            return
        o = st.get(fr.oid)
        ch = {}
        for n, v in o.f.items():
            bv = base.f.get(n)
            if v is bv or n.startswith("$") or v in known.get(n, ()):
                continue
            if v.tag == "k" and isinstance(kval(v), (int, float)) and not isinstance(kval(v), bool):
                ch[n] = Sym("widen", K(self.site(node)), K(n), ty=Py(type(kval(v))))
            elif v.tag == "k" and isinstance(kval(v), (str, bytes)):
                ch[n] = Sym("widen", K(self.site(node)), K(n), ty=Py(type(kval(v))))
            elif v.tag == "sym" and v.parts[0] in ("bin", "slice", "fmt", "un"):
                ch[n] = Sym("widen", K(self.site(node)), K(n), ty=v.meta[0])
        if ch:
            st.put(fr.oid, o.with_fs(ch))
        # instance fields holding growing terms
        for oid, h in list(st.heap.items()):
            if h.kind == "inst":
                fs = {}
                for n, v in h.f.items():
                    if v.tag == "sym" and v.parts[0] in ("bin", "slice", "fmt", "un") and depth_of(v) > 6:
                        fs[n] = Sym("widen", K(oid), K(n), ty=v.meta[0])
                if fs:
                    st.put(oid, h.with_fs(fs))

    def s_For(self, s, st, fr):
        return self.for_loop(s, st, fr, False)

    def s_AsyncFor(self, s, st, fr):
        return self.for_loop(s, st, fr, True)

    def for_loop(self, s, st, fr, is_async):
        def f(it, x):
            def body(v, y):
                outs = []
                for flow, z in self.assign(s.target, v, y, fr):
                    if flow is NEXT:
                        outs.extend(self.exec_block(s.body, z, fr))
                    else:
                        outs.append((flow, z))
                return outs
            return self.iterate(it, x, fr, body, lambda y: self.exec_block(s.orelse, y, fr), s, is_async)
        return self.flowmap(self.eval(s.iter, st, fr), f)

    def iterate(self, it, st, fr, body, orelse, node, is_async=False):
        """Run `body(value, st) -> [(flow, st)]` for each element of `it`; flows
        NEXT/cont go on, break leaves, others propagate."""
        st.pins += (it,)
        n = len(st.pins)
        outs = self._iterate(it, st, fr, body, orelse, node, is_async)
        for _f, x in outs:
            x.pins = x.pins[:n - 1]
        return outs

    def _iterate(self, it, st, fr, body, orelse, node, is_async):
        res = []
        for kind, data, x in self.models.iter_protocol(it, st, node, is_async):
            if kind == "raise":
                res.append((("raise", data), x))
            elif kind == "items":
                live = [x]
                x.pins += (Tup(data),)
                for v in data:
                    nxt = []
                    for y in live:
                        for flow, z in body(v, y):
                            if flow is NEXT or flow[0] == "cont":
                                nxt.append((NEXT, z))
                            elif flow[0] == "break":
                                z.pins = z.pins[:-1]
                                res.append((NEXT, z))
                            else:
                                z.pins = z.pins[:-1]
                                res.append((flow, z))
                    live = [z for _f, z in self.dedupe(nxt)]
                for y in live:
                    y.pins = y.pins[:-1]
                    res.extend(orelse(y))
            elif kind == "gen":
                res.extend(self.iterate_gen(data, x, fr, body, orelse, node))
            elif kind == "abstract":
                # data: next(st) -> list[(value | None (exhausted) | Raise, st)]
                cell = {}

                def test(y, data=data):
                    out = []
                    for v, z in data(y):
                        if isinstance(v, Raise):
                            out.append((v, z))
                        elif v is None:
                            out.append((False, z))
                        else:
                            z.ctl["$elem"] = v
                            out.append((True, z))
                    return out

                def run(y):
                    v = y.ctl.pop("$elem")
                    return body(v, y)
                res.extend(self.loop(x, fr, test, run, orelse, node))
        return res

    # -- generators (inlined at the point of iteration)

    def iterate_gen(self, gen, st, fr, body, orelse, node):
        "gen: Ref to heap 'gen'."
        o = st.get(gen.parts[0])
        foid = o.f["frame"].parts[0]
        info = o.f["fn"].parts[0]

        def handler(v, x):
            outs = []
            for flow, y in body(v, x):
                if flow is NEXT or flow[0] == "cont":
                    outs.append((NONE, y))
                else:
                    y.ctl["$defer"] = Tup([Tup([K(flow[0]), flow[1] if isinstance(flow[1], Val) else NONE]),
                                           y.ctl.get("$defer", NONE)])
                    e = self.make_exc(y, GeneratorExit, (), node)
                    outs.append((Raise(e), y))
            return outs
        res = []
        for v, x in self.run_gen(info, foid, st, handler, node):
            d = x.ctl.get("$defer", NONE)
            if isinstance(v, Raise):
                if d is not NONE:
                    ty, _ = self.type_of(v.exc, x)
                    if ty is Py(GeneratorExit):
                        flow = self.pop_defer(x)
                        res.append((NEXT, x) if flow[0] == "break" else (flow, x))
                        continue
                    self.pop_defer(x)
                res.append((("raise", v.exc), x))
            elif d is not NONE and x.ctl.get("$defer") is not st.ctl.get("$defer", NONE) and self.defer_depth(d) > self.defer_depth(st.ctl.get("$defer", NONE)):
                flow = self.pop_defer(x)
                res.append((NEXT, x) if flow[0] == "break" else (flow, x))
            else:
                res.extend(orelse(x))
        return res

    def defer_depth(self, d):
        n = 0
        while d is not NONE:
            n += 1
            d = d.parts[0][1]
        return n

    def pop_defer(self, st):
        d = st.ctl["$defer"]
        st.ctl["$defer"] = d.parts[0][1]
        a, b = d.parts[0][0].parts[0]
        k = kval(a)
        if k in ("break",):
            return BREAK
        if k == "cont":
            return CONT
        return (k, b)

    def run_gen(self, info, foid, st, handler, node):
        saved = self.yield_handlers.get(foid)
        stack = list(self.callstack)
        raw = handler

        def handler(v, x):
            self.callstack[:] = stack
            return raw(v, x)
        self.yield_handlers[foid] = handler
        try:
            return self.run_body(info, foid, st, node)
        finally:
            if saved is None:
                self.yield_handlers.pop(foid, None)
            else:
                self.yield_handlers[foid] = saved

    # -- with

    def s_With(self, s, st, fr):
        return self.with_items(s.items, s.body, st, fr, s, False)

    def s_AsyncWith(self, s, st, fr):
        return self.with_items(s.items, s.body, st, fr, s, True)

    def with_items(self, items, body, st, fr, node, is_async):
        if not items:
            return self.exec_block(body, st, fr)
        item = items[0]

        def rest(v, x):
            outs = []
            fl = [(NEXT, x)]
            if item.optional_vars is not None:
                fl = self.assign(item.optional_vars, v, x, fr)
            for flow, y in fl:
                if flow is NEXT:
                    outs.extend(self.with_items(items[1:], body, y, fr, node, is_async))
                else:
                    outs.append((flow, y))
            return outs
        return self.flowmap(self.eval(item.context_expr, st, fr),
                            lambda m, x: self.run_with(m, x, rest, node, is_async, fr))

    def run_with(self, m, st, body, node, is_async, fr):
        "body(value, st) -> flows"
        st.pins += (m,)
        n = len(st.pins)
        outs = self._run_with(m, st, body, node, is_async, fr)
        for _f, x in outs:
            x.pins = x.pins[:n - 1]
        return self.dedupe(outs)

    def _run_with(self, m, st, body, node, is_async, fr):
        if m.tag == "ref" and st.get(m.parts[0]).kind == "cm":
            return self.with_cm(m, st, body, node)
        if m.tag == "ref" and st.get(m.parts[0]).kind == "inst" and st.get(m.parts[0]).cls.tag == "cls":
            a, b = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
            enter, _ = st.get(m.parts[0]).cls.parts[0].lookup(a)
            exit_, _ = st.get(m.parts[0]).cls.parts[0].lookup(b)
            if enter is None or exit_ is None:
                self.note(f"with on object without {a} at {self.where()}")
                return body(Sym("entered", m), st)
            res = []
            ent = self.call(mk("bound", m, enter), [], {}, st, node)
            if is_async:
                ent = self.bind(ent, lambda v, x: self.await_(v, x, node, fr))
            for v, x in ent:
                if isinstance(v, Raise):
                    res.append((("raise", v.exc), x))
                    continue
                for flow, y in self.dedupe(body(v, x)):
                    res.extend(self.with_exit(m, exit_, flow, y, node, is_async, fr))
            return res
        return self.models.ext_with(m, st, body, node, is_async, fr)

    def with_exit(self, m, exit_, flow, st, node, is_async, fr):
        pin = (flow[1],) if isinstance(flow[1], Val) else ()
        st.pins += pin
        old = st.ctl.get("exc", NONE)
        if flow[0] == "raise":
            exc = flow[1]
            ty, exact = self.type_of(exc, st)
            args = [ty if ty is not None else Sym("type", exc, ty=Py(type)), exc, Sym("tb", exc)]
            st.ctl["exc"] = exc
        else:
            args = [NONE, NONE, NONE]
        outs = self.call(mk("bound", m, exit_), args, {}, st, node)
        if is_async:
            outs = self.bind(outs, lambda v, x: self.await_(v, x, node, fr))
        res = []
        for v, x in outs:
            if pin:
                x.pins = x.pins[:-1]
            x.ctl["exc"] = old
            if isinstance(v, Raise):
                res.append((("raise", v.exc), x))
            elif flow[0] == "raise":
                for b, y in self.truth(v, x, node):
                    if isinstance(b, Raise):
                        res.append((("raise", b.exc), y))
                    elif b:
                        self.emit(y, "suppressed", exc=flow[1])
                        res.append((NEXT, y))
                    else:
                        res.append((flow, y))
            else:
                res.append((flow, x))
        return res

    def with_cm(self, m, st, body, node):
        "Context manager made from a generator function: inline it."
        o = st.get(m.parts[0])
        gen = o.f["gen"]
        g = st.get(gen.parts[0])
        foid = g.f["frame"].parts[0]
        info = g.f["fn"].parts[0]

        def handler(v, x):
            outs = []
            for flow, y in self.dedupe(body(v, x)):
                if flow[0] == "raise":
                    outs.append((Raise(flow[1]), y))
                else:
                    y.ctl["$defer"] = Tup([Tup([K(flow[0]), flow[1] if isinstance(flow[1], Val) else NONE]),
                                           y.ctl.get("$defer", NONE)])
                    outs.append((NONE, y))
            return outs
        d0 = self.defer_depth(st.ctl.get("$defer", NONE))
        res = []
        for v, x in self.run_gen(info, foid, st, handler, node):
            deferred = self.defer_depth(x.ctl.get("$defer", NONE)) > d0
            flow = NEXT
            if deferred:
                k, b = self.pop_defer_raw(x)
                flow = NEXT if k == "next" else BREAK if k == "break" else CONT if k == "cont" else (k, b)
            if isinstance(v, Raise):
                res.append((("raise", v.exc), x))
            else:
                # generator swallowed an exception, or finished normally
                res.append((flow, x))
        return res

    def pop_defer_raw(self, st):
        d = st.ctl["$defer"]
        st.ctl["$defer"] = d.parts[0][1]
        a, b = d.parts[0][0].parts[0]
        return kval(a), b

    # -- definitions

    def s_FunctionDef(self, s, st, fr):
        qual = (fr.qual + "." if fr.kind in ("class", "func") and fr.qual else "") + s.name
        info = self.func_info(s, fr, qual)

        def f(vals, x):
            d, kd = vals
            fn = mk("fn", info, fr.oid if fr.kind == "func" else None, d, kd)
            if fr.kind == "class" and fr.parent is not None and fr.parent.kind == "func":
                fn = mk("fn", info, fr.parent.oid, d, kd)
            outs = [(fn, x)]
            for dec in reversed(s.decorator_list):
                nxt = []
                for v, y in outs:
                    if isinstance(v, Raise):
                        nxt.append((v, y))
                        continue
                    nxt.extend(self.bind(self.eval(dec, y, fr), lambda dv, z, v=v: self.decorate(dv, v, z, s, fr)))
                outs = nxt
            res = []
            for v, y in outs:
                if isinstance(v, Raise):
                    res.append((("raise", v.exc), y))
                else:
                    self.store_name(s.name, v, y, fr)
                    res.append((NEXT, y))
            return res
        return self.flowmap(self.defaults(s.args, st, fr), f)

    s_AsyncFunctionDef = s_FunctionDef

    def func_info(self, node, fr, qual):
        key = id(node)
        cache = self.__dict__.setdefault("_finfo", {})
        if key not in cache:
            cache[key] = FuncInfo(node, fr.module, qual, None)
        return cache[key]

    def defaults(self, a, st, fr):
        exprs = list(a.defaults) + [d for d in a.kw_defaults if d is not None]

        def f(vals, x):
            d = tuple(vals[:len(a.defaults)])
            kd = []
            i = len(a.defaults)
            for arg, dd in zip(a.kwonlyargs, a.kw_defaults):
                if dd is not None:
                    kd.append((arg.arg, vals[i]))
                    i += 1
            return [((d, tuple(kd)), x)]
        return self.bind(self.eval_many(exprs, st, fr), f)

    def decorate(self, dec, fn, st, node, fr):
        import contextlib
        import abc
        import typing
        import functools
        if dec.tag == "py":
            o = pyobj(dec)
            if o is property:
                return [(mk("prop", fn, NONE), st)]
            if o is staticmethod:
                return [(mk("static", fn), st)]
            if o is classmethod:
                return [(mk("clsm", fn), st)]
            if o is contextlib.contextmanager:
                return [(mk("cmfn", fn, False), st)]
            if o is contextlib.asynccontextmanager:
                return [(mk("cmfn", fn, True), st)]
            if o in (abc.abstractmethod, typing.overload, typing.no_type_check, typing.final, functools.lru_cache, functools.cache):
                return [(fn, st)]
            if o is functools.cached_property:
                return [(mk("prop", fn, NONE), st)]
        if dec.tag == "propset":
            return [(mk("prop", dec.parts[0].parts[0], fn), st)]
        if dec.tag == "wrapsdec":
            return [(fn, st)]
        return self.call(dec, [fn], {}, st, node)

    def s_ClassDef(self, s, st, fr):
        def f(bases, x):
            bs = [b for b in bases if b.tag in ("cls", "py")]
            qual = (fr.qual + "." if fr.kind in ("class", "func") and fr.qual else "") + s.name
            ci = ClassInfo(s.name, qual, fr.module, bs)
            ci.node = s
            for b in bs:
                if b.tag == "cls":
                    if b.parts[0].kind == "enum":
                        ci.kind = "enum"
                elif isinstance(pyobj(b), type) and issubclass(pyobj(b), enum.Enum):
                    ci.kind = "enum"
                elif pyobj(b) is __import__("typing").NamedTuple:
                    ci.kind = "namedtuple"
            ns = {}
            cfr = Frame("class", fr.module, ns=ns, parent=fr, qual=qual)
            outs = self.exec_block(s.body, x, cfr, single=True)
            flow, y = outs[0]
            if flow[0] == "raise":
                return [(flow, y)]
            ci.ann = ns.pop("$ann", [])
            for k, v in ns.items():
                if ci.kind == "enum" and not k.startswith("_") and v.tag in ("k", "py", "sym", "tup", "enum") and not (
                        v.tag == "py" and callable(pyobj(v)) and not isinstance(pyobj(v), int)):
                    if v.tag == "sym" and v.parts[0] == "enumauto":
                        v = K(len(ci.ns) + 1)
                    if v.tag == "py" and isinstance(pyobj(v), int):
                        v = K(int(pyobj(v)))
                    v = mk("enum", ci, k, v)
                if v.tag == "fn" and v.parts[0].cls is None:
                    v.parts[0].cls = ci
                if v.tag in ("prop", "static", "clsm", "cmfn"):
                    for q in v.parts:
                        if isinstance(q, Val) and q.tag == "fn" and q.parts[0].cls is None:
                            q.parts[0].cls = ci
                ci.ns[k] = v
            if ci.kind == "namedtuple":
                ci.fields = [(n, ci.ns.get(n), None, True) for n, _a, _h in ci.ann]
                ci.frozen = True
            outs = [(ci.val, y)]
            for dec in reversed(s.decorator_list):
                nxt = []
                for v, z in outs:
                    nxt.extend(self.bind(self.eval(dec, z, fr), lambda dv, w: self.decorate_class(dv, v, w, s)))
                outs = nxt
            v, y = outs[0]
            if isinstance(v, Raise):
                return [(("raise", v.exc), y)]
            self.store_name(s.name, v, y, fr)
            return [(NEXT, y)]
        return self.flowmap(self.eval_many(s.bases, st, fr), f)

    def decorate_class(self, dec, cv, st, node):
        import dataclasses
        if dec.tag == "py" and pyobj(dec) is dataclasses.dataclass:
            self.make_dataclass(cv.parts[0], {})
            return [(cv, st)]
        if dec.tag == "dcdec":
            self.make_dataclass(cv.parts[0], dict(dec.parts[0]))
            return [(cv, st)]
        if dec.tag == "py":
            return [(cv, st)]
        return self.call(dec, [cv], {}, st, node)

    def make_dataclass(self, ci, opts):
        import typing
        ci.kind = "dataclass"
        ci.frozen = opts.get("frozen") is TRUE
        ci.kw_only = opts.get("kw_only") is TRUE
        ci.eq = opts.get("eq") is not FALSE
        ci.nocompare, ci.norepr = set(), set()
        for b in ci.mro()[1:]:
            if b.tag == "cls":
                ci.norepr |= getattr(b.parts[0], "norepr", set())
                ci.nocompare |= getattr(b.parts[0], "nocompare", set())
        fields = []
        for b in reversed(ci.mro()[1:]):
            if b.tag == "cls" and b.parts[0].fields:
                fields.extend(b.parts[0].fields)
        names = [f[0] for f in fields]
        for n, ann, has in ci.ann:
            src = ast.unparse(ann)
            if "ClassVar" in src:
                continue
            d = ci.ns.get(n)
            fac = None
            init = True
            if d is not None and d.tag == "dcfield":
                kw = dict(d.parts[0])
                fac = kw.get("default_factory")
                init = kw.get("init") is not FALSE
                if kw.get("compare") is FALSE:
                    ci.nocompare.add(n)
                if kw.get("repr") is FALSE:
                    ci.norepr.add(n)
                d = kw.get("default")
                if d is None:
                    ci.ns.pop(n, None)
                else:
                    ci.ns[n] = d
            ent = (n, d, fac, init)
            if n in names:
                fields[names.index(n)] = ent
            else:
                fields.append(ent)
                names.append(n)
        ci.fields = fields

    def s_Import(self, s, st, fr):
        for a in s.names:
            if self.is_repo(a.name):
                m = self.load_for(a.name, st)
                st = self.resync(st, fr)
                if a.asname:
                    self.store_name(a.asname, mk("mod", m), st, fr)
                else:
                    self.store_name(a.name.split(".")[0], mk("mod", self.modules[a.name.split(".")[0]]), st, fr)
            else:
                try:
                    m = importlib.import_module(a.name)
                except ImportError:
                    return self.flowmap(self.raise_(st, ImportError, a.name, node=s), lambda v, y: [])
                if a.asname:
                    self.store_name(a.asname, Py(m), st, fr)
                else:
                    self.store_name(a.name.split(".")[0], Py(importlib.import_module(a.name.split(".")[0])), st, fr)
        return [(NEXT, st)]

    def load_for(self, name, st):
        if name not in self.modules:
            if not self.loading:
                raise AnalysisBroken(f"late import of {name}")
            # module-level code shares the single base state
            self.base = st
            m = self.load(name)
            return m
        return self.modules[name]

    def resync(self, st, fr):
        if self.loading:
            return self.base
        return st

    def s_ImportFrom(self, s, st, fr):
        name = s.module or ""
        if s.level:
            pkg = fr.module.name if fr.module.path and fr.module.path.endswith("__init__.py") else fr.module.name.rpartition(".")[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + s.module if s.module else "")
        if self.is_repo(name):
            m = self.load_for(name, st)
            st = self.resync(st, fr)
            for a in s.names:
                if a.name == "*":
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            self.store_name(k, v, st, fr)
                    continue
                if a.name not in m.ns:
                    sub = name + "." + a.name
                    if self.module_path(sub):
                        mm = self.load_for(sub, st)
                        st = self.resync(st, fr)
                        self.store_name(a.asname or a.name, mk("mod", mm), st, fr)
                        continue
                    raise AnalysisBroken(f"cannot import name {a.name} from {name} ({fr.module.path}:{s.lineno})")
                self.store_name(a.asname or a.name, m.ns[a.name], st, fr)
            return [(NEXT, st)]
        try:
            m = importlib.import_module(name)
        except ImportError:
            return self.flowmap(self.raise_(st, ImportError, name, node=s), lambda v, y: [])
        for a in s.names:
            if hasattr(m, a.name):
                o = getattr(m, a.name)
            else:
                try:
                    o = importlib.import_module(name + "." + a.name)
                except ImportError:
                    return self.flowmap(self.raise_(st, ImportError, a.name, node=s), lambda v, y: [])
            ov = self.models.py_override(m, a.name)
            self.store_name(a.asname or a.name, ov if ov is not None else self.wrap(o), st, fr)
        return [(NEXT, st)]

    # -- match

    def s_Match(self, s, st, fr):
        def f(v, x):
            outs = []
            live = [x]
            for c in s.cases:
                nxt = []
                for y in live:
                    y.pins += (v,)
                    for b, z in self.match(c.pattern, v, y, fr):
                        z.pins = z.pins[:-1]
                        if isinstance(b, Raise):
                            outs.append((("raise", b.exc), z))
                        elif not b:
                            nxt.append(z)
                        elif c.guard is not None:
                            for g, w in self.cond(c.guard, z, fr):
                                if isinstance(g, Raise):
                                    outs.append((("raise", g.exc), w))
                                elif g:
                                    outs.extend(self.exec_block(c.body, w, fr))
                                else:
                                    nxt.append(w)
                        else:
                            outs.extend(self.exec_block(c.body, z, fr))
                live = nxt
            outs.extend((NEXT, y) for y in live)
            return self.dedupe(outs)
        return self.flowmap(self.eval(s.subject, st, fr), f)

    def match(self, p, v, st, fr):
        "-> list[(bool|Raise, st)]"
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(p.name, v, st, fr)
                return [(True, st)]
            out = []
            for b, x in self.match(p.pattern, v, st, fr):
                if b is True and p.name:
                    self.store_name(p.name, v, x, fr)
                out.append((b, x))
            return out
        if isinstance(p, ast.MatchValue):
            return self.bindb(self.eval(p.value, st, fr), lambda w, x: self.truth(self.eq(v, w, x), x))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, K(p.value), st), st)
        if isinstance(p, ast.MatchOr):
            out = []
            live = [st]
            for q in p.patterns:
                nxt = []
                for x in live:
                    for b, y in self.match(q, v, x, fr):
                        if b is False:
                            nxt.append(y)
                        else:
                            out.append((b, y))
                live = nxt
            return out + [(False, x) for x in live]
        if isinstance(p, ast.MatchClass):
            def f(c, x):
                out = []
                for b, y in self.truth(self.isinst(v, c, x), x):
                    if not b:
                        out.append((False, y))
                        continue
                    subs = [(K(None), q) for q in p.patterns]
                    if p.patterns:
                        # builtin single positional: matches the subject itself
                        cur = [(True, y)]
                        for q in p.patterns:
                            nx = []
                            for bb, z in cur:
                                nx.extend(self.match(q, v, z, fr) if bb is True else [(bb, z)])
                            cur = nx
                    else:
                        cur = [(True, y)]
                    for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                        nx = []
                        for bb, z in cur:
                            if bb is not True:
                                nx.append((bb, z))
                                continue
                            nx.extend(self.bindb(self.getattr(v, nm, z, p), lambda a, w, q=q: self.match(q, a, w, fr)))
                        cur = nx
                    out.extend(cur)
                return out
            return self.bindb(self.eval(p.cls, st, fr), f)
        if isinstance(p, ast.MatchSequence):
            items = self.models.known_items(v, st) if v.tag in ("tup", "ref") else None
            if items is None and v.tag in ("k", "enum", "cls", "py", "fn"):
                return [(False, st)]
            star = any(isinstance(q, ast.MatchStar) for q in p.patterns)
            if items is not None and not star:
                if len(items) != len(p.patterns):
                    return [(False, st)]
                cur = [(True, st)]
                for q, it in zip(p.patterns, items):
                    nx = []
                    for b, x in cur:
                        nx.extend(self.match(q, it, x, fr) if b is True else [(b, x)])
                    cur = nx
                return cur
        self.note(f"unsupported pattern {type(p).__name__} at {self.where()}")
        return self.truth(Sym("match", K(self.site(p)), v, ty=Py(bool)), st)

    def bindb(self, outs, f):
        res = []
        for v, st in outs:
            if isinstance(v, Raise):
                res.append((v, st))
            else:
                res.extend(f(v, st))
        return res

    bind = bindb

    # ------------------------------------------------------------ expressions

    def eval_many(self, exprs, st, fr):
        "-> list[(tuple of values | Raise, st)]"
        outs = [((), st)]
        n0 = len(st.pins)
        for e in exprs:
            nxt = []
            for vals, x in outs:
                if isinstance(vals, Raise):
                    nxt.append((vals, x))
                    continue
                x.pins = x.pins[:n0] + tuple(vals)
                for v, y in self.eval(e, x, fr):
                    y.pins = y.pins[:n0]
                    nxt.append((v, y) if isinstance(v, Raise) else (vals + (v,), y))
            outs = nxt
        for _v, x in outs:
            x.pins = x.pins[:n0]
        return outs

    def cond(self, e, st, fr):
        "-> list[(bool|Raise, st)]"
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            outs = []
            live = [st]
            for i, v in enumerate(e.values):
                nxt = []
                for x in live:
                    for b, y in self.cond(v, x, fr):
                        if isinstance(b, Raise):
                            outs.append((b, y))
                        elif b == is_and:
                            nxt.append(y)
                        else:
                            outs.append((b, y))
                live = nxt
            return outs + [(is_and, x) for x in live]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(b if isinstance(b, Raise) else not b, x) for b, x in self.cond(e.operand, st, fr)]
        return self.bindb(self.eval(e, st, fr), lambda v, x: self.truth(v, x, e))

    def eval(self, e, st, fr):
        meth = getattr(self, "e_" + type(e).__name__, None)
        if meth is None:
            self.note(f"unsupported expression {type(e).__name__} at {self.where()}")
            return [(st.newsym(self.site(e)), st)]
        return meth(e, st, fr)

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return [(Py(Ellipsis), st)]
        return [(K(e.value), st)]

    def e_Name(self, e, st, fr):
        v = self.load_name(e.id, st, fr)
        if v is None:
            if fr.kind == "func" and e.id in fr.info.locals:
                return self.raise_(st, UnboundLocalError, e.id, node=e)
            return self.raise_(st, NameError, e.id, node=e)
        return [(v, st)]

    def e_NamedExpr(self, e, st, fr):
        def f(v, x):
            self.store_name(e.target.id, v, x, fr)
            return [(v, x)]
        return self.bind(self.eval(e.value, st, fr), f)

    def e_Tuple(self, e, st, fr):
        return self.seq(e.elts, st, fr, lambda items, x: [(Tup(items), x)])

    def e_List(self, e, st, fr):
        return self.seq(e.elts, st, fr,
                        lambda items, x: [(x.alloc(self.site(e, ":list"), HObj("list", None, {}, tuple(items))), x)])

    def e_Set(self, e, st, fr):
        return self.seq(e.elts, st, fr,
                        lambda items, x: [(x.alloc(self.site(e, ":set"), HObj("set", None, {}, uniq(items))), x)])

    def seq(self, elts, st, fr, f):
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in elts]

        def g(vals, x):
            items = []
            for el, v in zip(elts, vals):
                if isinstance(el, ast.Starred):
                    it = self.models.known_items(v, x)
                    if it is None:
                        items.append(mk("star", v))
                    else:
                        items.extend(it)
                else:
                    items.append(v)
            return f(items, x)
        return self.bind(self.eval_many(exprs, st, fr), g)

    def e_Dict(self, e, st, fr):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)

        def f(vals, x):
            live = [((None, ()), x)]
            out = []
            i = 0
            for k in e.keys:
                nxt = []
                for acc, y in live:
                    if k is not None:
                        nxt.append(((acc[0], tuple(dict_set(list(acc[1]), vals[i], vals[i + 1]))), y))
                        continue
                    for p, z in self.models.map_parts(vals[i], y, e):
                        if isinstance(p, Raise):
                            out.append((p, z))
                        elif p is None:
                            nxt.append(((Sym("merge", acc[0] or NONE, Tup([Tup(list(q)) for q in acc[1]]), vals[i]), ()), z))
                        else:
                            nxt.append((self.models.map_over(acc, p, z), z))
                live = nxt
                i += 1 if k is None else 2
            return out + [(self.models.new_map(y, e, acc), y) for acc, y in live]
        return self.bind(self.eval_many(exprs, st, fr), f)

    def e_JoinedStr(self, e, st, fr):
        exprs = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                exprs.append(v.value)

        def f(vals, x):
            parts = []
            i = 0
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(K(v.value))
                else:
                    w = vals[i]
                    i += 1
                    if v.conversion == -1 and v.format_spec is None and w.tag == "k":
                        parts.append(K(format(kval(w))))
                    elif v.conversion == 114 and v.format_spec is None and w.tag == "k":
                        parts.append(K(repr(kval(w))))
                    elif v.conversion in (-1, 115) and v.format_spec is None and self.cfg.data and self.models.seqkind(self.norm(w, x), x) == "t" \
                            and not self.norm(w, x).tag == "ref" and not (self.norm(w, x).tag == "sym" and self.norm(w, x).meta[2]):
                        parts.append(self.norm(w, x))
                    else:
                        parts.append(Sym("str", self.norm(w, x), K(v.conversion), ty=Py(str), exact=True))
            merged = []
            for p in parts:
                if merged and p.tag == "k" and merged[-1].tag == "k":
                    merged[-1] = K(kval(merged[-1]) + kval(p))
                else:
                    merged.append(p)
            if not merged:
                return [(K(""), x)]
            if len(merged) == 1 and merged[0].tag == "k":
                return [(merged[0], x)]
            if self.cfg.data and all(self.models.seqkind(p, x) == "t" for p in merged):
                qs = [self.models.pieces(p, x) for p in merged]
                if all(q is not None for q in qs):
                    return [(self.models.seq("t", [r for q in qs for r in q]), x)]
            return [(Sym("fmt", tuple(merged), ty=Py(str), exact=True), x)]
        return self.bind(self.eval_many(exprs, st, fr), f)

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_IfExp(self, e, st, fr):
        return self.bind(self.cond(e.test, st, fr), lambda b, x: self.eval(e.body if b else e.orelse, x, fr))

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        outs = []
        live = [st]
        n = len(e.values)
        for i, v in enumerate(e.values):
            nxt = []
            for x in live:
                for r, y in self.eval(v, x, fr):
                    if isinstance(r, Raise) or i == n - 1:
                        outs.append((r, y))
                        continue
                    if (self.cfg.coarse and not is_and and i == n - 2 and isinstance(e.values[-1], ast.Constant)
                            and r.tag == "ref" and y.get(r.parts[0]).f.get("data") is self.models.MANY):
                        outs.append((r, y))     # `buffer or b""`
                        continue
                    for b, z in self.truth(r, y, e):
                        if isinstance(b, Raise):
                            outs.append((b, z))
                        elif b == is_and:
                            nxt.append(z)
                        else:
                            outs.append((self.norm(r, z), z))
            live = nxt
        return outs

    def e_UnaryOp(self, e, st, fr):
        op = type(e.op).__name__
        if op == "Not":
            def g(v, x):
                if v.tag == "sym" and v.meta[0] is not None and pyobj_is(v.meta[0], bool) and not v.meta[2]:
                    v2 = self.norm(v, x)
                    if v2.tag == "k":
                        return [(B(not kval(v2)), x)]
                    return [(self.not_(v), x)]
                return [(b if isinstance(b, Raise) else B(not b), y) for b, y in self.truth(v, x, e)]
            return self.bind(self.eval(e.operand, st, fr), g)

        def f(v, x):
            v = self.norm(v, x)
            iv = self.enum_int(v)
            if iv is not None and not isinstance(iv, str):
                return [(K({"USub": lambda a: -a, "UAdd": lambda a: +a, "Invert": lambda a: ~a}[op](iv)), x)]
            return [(Sym("un", K(op), v, ty=Py(int)), x)]
        return self.bind(self.eval(e.operand, st, fr), f)

    def e_BinOp(self, e, st, fr):
        return self.bind(self.eval_many([e.left, e.right], st, fr),
                         lambda vs, x: self.binop(type(e.op).__name__, vs[0], vs[1], x, e))

    def binop(self, op, a, b, st, node, inplace=False):
        return self.models.binop(op, a, b, st, node, inplace)

    def e_Compare(self, e, st, fr):
        if len(e.ops) == 1:
            return self.bind(self.eval_many([e.left, e.comparators[0]], st, fr),
                             lambda vs, x: self.compare(type(e.ops[0]).__name__, vs[0], vs[1], x, e))
        # chained: evaluate all operands, then conjunction
        def f(vs, x):
            outs = []
            live = [x]
            for i, op in enumerate(e.ops):
                nxt = []
                for y in live:
                    for r, z in self.compare(type(op).__name__, vs[i], vs[i + 1], y, e):
                        if isinstance(r, Raise):
                            outs.append((r, z))
                            continue
                        for b, w in self.truth(r, z):
                            if isinstance(b, Raise):
                                outs.append((b, w))
                            elif b:
                                nxt.append(w)
                            else:
                                outs.append((FALSE, w))
                live = nxt
            return outs + [(TRUE, y) for y in live]
        return self.bind(self.eval_many([e.left] + e.comparators, st, fr), f)

    def compare(self, op, a, b, st, node):
        if op == "Is":
            return [(self.is_(a, b, st), st)]
        if op == "IsNot":
            return [(self.not_(self.is_(a, b, st)), st)]
        if op in ("Eq", "NotEq"):
            r = self.models.rich_eq(a, b, st, node)
            if op == "NotEq":
                return [(v if isinstance(v, Raise) else self.not_(v), x) for v, x in r]
            return r
        if op in ("In", "NotIn"):
            r = self.models.contains(b, a, st, node)
            if op == "NotIn":
                return [(v if isinstance(v, Raise) else self.not_(v), x) for v, x in r]
            return r
        a = self.norm(a, st)
        b = self.norm(b, st)
        ai, bi = self.enum_int(a), self.enum_int(b)
        if ai is None and a.tag == "k":
            ai = kval(a)
        if bi is None and b.tag == "k":
            bi = kval(b)
        if a.tag in ("k", "enum") and b.tag in ("k", "enum"):
            try:
                return [(B({"Lt": lambda: ai < bi, "LtE": lambda: ai <= bi, "Gt": lambda: ai > bi, "GtE": lambda: ai >= bi}[op]()), st)]
            except TypeError:
                return self.raise_(st, TypeError, "unorderable", node=node)
        if a.tag == "tup" and b.tag == "tup" and all(x.tag == "k" for x in a.parts[0] + b.parts[0]):
            ta = tuple(kval(x) for x in a.parts[0])
            tb = tuple(kval(x) for x in b.parts[0])
            return [(B({"Lt": ta < tb, "LtE": ta <= tb, "Gt": ta > tb, "GtE": ta >= tb}[op]), st)]
        if a.tag == "tup" and b.tag == "tup":
            return self.tuple_cmp(op, a.parts[0], b.parts[0], st, node)
        # canonical: only 'lt' terms
        h = self.models.order_hook(op, a, b, st)
        if h is not None:
            return h
        if op == "Lt":
            return [(self.ltterm(a, b, st), st)]
        if op == "Gt":
            return [(self.ltterm(b, a, st), st)]
        if op == "GtE":
            return [(self.not_(self.ltterm(a, b, st)), st)]
        return [(self.not_(self.ltterm(b, a, st)), st)]

    def tuple_cmp(self, op, xs, ys, st, node):
        "Lexicographic comparison, forking on unknown equalities."
        if not xs or not ys:
            return [(B({"Lt": len(xs) < len(ys), "LtE": len(xs) <= len(ys), "Gt": len(xs) > len(ys), "GtE": len(xs) >= len(ys)}[op]), st)]
        outs = []
        bx = []
        # booleans are concretised so that tuple keys compare precisely
        for xv, s1 in self.concrete_bool(xs[0], st):
            for yv, s2 in self.concrete_bool(ys[0], s1):
                bx.append((xv, yv, s2))
        for xv, yv, s in bx:
            for b, s3 in self.truth(self.eq(xv, yv, s), s):
                if b:
                    outs.extend(self.tuple_cmp(op, xs[1:], ys[1:], s3, node))
                else:
                    strict = {"Lt": "Lt", "LtE": "Lt", "Gt": "Gt", "GtE": "Gt"}[op]
                    outs.extend(self.compare(strict, xv, yv, s3, node))
        return outs

    def concrete_bool(self, v, st):
        if v.tag == "sym" and v.meta[0] is not None and pyobj_is(v.meta[0], bool):
            return [(B(b), s) for b, s in self.truth(v, st)]
        return [(v, st)]

    def ltterm(self, a, b, st):
        if a is b:
            return FALSE
        t = Sym("lt", a, b, ty=Py(bool), exact=True)
        tr = st.fact(t).truth
        if tr is not None:
            return B(tr)
        rev = st.fact(Sym("lt", b, a, ty=Py(bool), exact=True)).truth
        if rev is True:
            return FALSE
        return t

    def e_Attribute(self, e, st, fr):
        return self.bind(self.eval(e.value, st, fr), lambda v, x: self.getattr(v, e.attr, x, e))

    def frozen(self, o):
        return o.kind == "inst" and o.cls is not None and o.cls.tag == "cls" and o.cls.parts[0].frozen

    def getattr(self, v, name, st, node):
        return self.models.getattr(v, name, st, node)

    def setattr(self, v, name, val, st, node, force=False):
        if v.tag == "ref":
            oid = v.parts[0]
            o = st.get(oid)
            if o.cls is not None and o.cls.tag == "cls":
                p, _c = o.cls.parts[0].lookup(name)
                if p is not None and p.tag == "prop":
                    if p.parts[1] is NONE:
                        return self.raise_(st, AttributeError, name, node=node)
                    return self.call(mk("bound", v, p.parts[1]), [val], {}, st, node)
                sa, _c = o.cls.parts[0].lookup("__setattr__")
                if sa is not None and not force:
                    return self.call(mk("bound", v, sa), [K(name), val], {}, st, node)
                if o.cls.parts[0].frozen and not force:
                    self.emit(st, "frozen_write", obj=v, name=name)
                    import dataclasses
                    return self.raise_(st, dataclasses.FrozenInstanceError, name, node=node)
            self.emit(st, "setattr", obj=v, name=name, value=val)
            r = self.models.setattr_hook(v, o, name, val, st, node)
            if r is not None:
                return r
            st.put(oid, o.with_f(name, val))
            return [(NONE, st)]
        self.emit(st, "setattr", obj=v, name=name, value=val)
        if v.tag == "cls":
            self.emit(st, "class_write", cls=v.parts[0], name=name)
        elif v.tag == "mod":
            self.emit(st, "global_write", module=v.parts[0], name=name, value=val)
        r = self.models.setattr_hook(v, None, name, val, st, node)
        if r is not None:
            return r
        return [(NONE, st)]

    def e_Subscript(self, e, st, fr):
        return self.bind(self.eval_many([e.value, _slice(e.slice)], st, fr),
                         lambda vs, x: self.models.getitem(vs[0], vs[1], x, e))

    def e_Slice(self, e, st, fr):
        none = ast.Constant(value=None)
        return self.bind(self.eval_many([e.lower or none, e.upper or none, e.step or none], st, fr),
                         lambda vs, x: [(mk("slice", *vs), x)])

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        info = self.func_info(e, fr, (fr.qual + "." if fr.qual else "") + "<lambda>")

        def f(vals, x):
            d, kd = vals
            return [(mk("fn", info, fr.oid if fr.kind == "func" else None, d, kd), x)]
        return self.bind(self.defaults(e.args, st, fr), f)

    # comprehensions

    def comp(self, gens, st, fr, leaf):
        """Run nested comprehension loops; leaf(st) -> [(flow, st)]."""
        if not gens:
            return leaf(st)
        g = gens[0]

        def f(it, x):
            def body(v, y):
                outs = []
                for flow, z in self.assign(g.target, v, y, fr):
                    if flow is not NEXT:
                        outs.append((flow, z))
                        continue
                    live = [z]
                    for c in g.ifs:
                        nl = []
                        for w in live:
                            for b, u in self.cond(c, w, fr):
                                if isinstance(b, Raise):
                                    outs.append((("raise", b.exc), u))
                                elif b:
                                    nl.append(u)
                                else:
                                    outs.append((NEXT, u))
                        live = nl
                    for w in live:
                        outs.extend(self.comp(gens[1:], w, fr, leaf))
                return outs
            return self.iterate(it, x, fr, body, lambda y: [(NEXT, y)], g.iter, bool(g.is_async))
        return self.flowmap(self.eval(g.iter, st, fr), f)

    def comp_names(self, gens):
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        return names

    def comprehension(self, e, st, fr, kind):
        names = self.comp_names(e.generators)
        saved = {}
        if fr.kind == "func":
            o = st.get(fr.oid)
            saved = {n: o.f[n] for n in names if n in o.f}
        else:
            saved = {n: fr.ns[n] for n in names if n in fr.ns}
        acc = st.alloc(self.site(e, ":comp"), HObj("list" if kind == "gen" else kind, None, {}, ()))
        st.pins += (acc,) + tuple(saved.values())
        n = len(saved) + 1

        def leaf(x):
            if kind == "dict":
                def f(vs, y):
                    h = y.get(acc.parts[0])
                    y.put(acc.parts[0], h.with_items(dict_set(list(h.items), vs[0], vs[1])))
                    return [(NEXT, y)]
                return self.flowmap(self.eval_many([e.key, e.value], x, fr), f)

            def g(v, y):
                self.models.append_item(acc, v, y)
                return [(NEXT, y)]
            return self.flowmap(self.eval(e.elt, x, fr), g)
        res = []
        for flow, x in self.comp(e.generators, st, fr, leaf):
            x.pins = x.pins[:len(x.pins) - n]
            if fr.kind == "func":
                h = x.get(fr.oid)
                for nm in names:
                    if nm in h.f:
                        h = h.without_f(nm)
                h = h.with_fs(saved)
                x.put(fr.oid, h)
            else:
                for nm in names:
                    fr.ns.pop(nm, None)
                fr.ns.update(saved)
            if flow[0] == "raise":
                res.append((Raise(flow[1]), x))
            else:
                if kind == "gen":
                    h = x.get(acc.parts[0])
                    x.put(acc.parts[0], HObj("list", Py(types.GeneratorType), dict(h.f), h.items))
                res.append((acc, x))
        return res

    def e_ListComp(self, e, st, fr):
        return self.comprehension(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comprehension(e, st, fr, "set")

    def e_GeneratorExp(self, e, st, fr):
        return self.comprehension(e, st, fr, "gen")

    def e_DictComp(self, e, st, fr):
        return self.comprehension(e, st, fr, "dict")

    # calls

    def e_Call(self, e, st, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            o = st.get(fr.oid)
            first = fr.info.node.args.args[0].arg
            return [(mk("super", fr.info.cls.val if fr.info.cls else NONE, o.f[first]), st)]
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "vars") and not e.args and fr.kind == "func":
            if self.load_name(e.func.id, st, fr) in (Py(locals), Py(vars)):
                o = st.get(fr.oid)
                items = tuple((K(k), v) for k, v in o.f.items() if not k.startswith("$"))
                return [(st.alloc(self.site(e, ":locals"), HObj("dict", None, {}, items)), st)]
        # lazily consumed generator expressions: any/all
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            if self.load_name(e.func.id, st, fr) in (Py(any), Py(all)):
                return self.any_all(e, st, fr, e.func.id == "any")

        def f(fn, x):
            exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            exprs += [k.value for k in e.keywords]
            x.pins += (fn,)

            def g(vals, y):
                args = []
                for a, v in zip(e.args, vals):
                    if isinstance(a, ast.Starred):
                        items = self.models.known_items(v, y)
                        if items is None:
                            args.append(mk("star", v))
                        else:
                            args.extend(items)
                    else:
                        args.append(v)
                live = [({}, y)]
                res = []
                for k, v in zip(e.keywords, vals[len(e.args):]):
                    if k.arg is not None:
                        for kw, _z in live:
                            kw[k.arg] = v
                        continue
                    nxt = []
                    for kw, z in live:
                        for p, z2 in self.models.map_parts(v, z, e):
                            if isinstance(p, Raise):
                                res.append((p, z2))
                                continue
                            kw2 = dict(kw)
                            if p is None or p[0] is not None:
                                kw2["**"] = v
                            for kk, vv in p[1] if p is not None else ():
                                kw2[kval(kk) if kk.tag == "k" else show(kk)] = vv
                            nxt.append((kw2, z2))
                    live = nxt
                for kw, z in live:
                    res.extend(self.call(fn, args, kw, z, e))
                return res
            n = len(x.pins)
            outs = self.bind(self.eval_many(exprs, x, fr), g)
            for _v, y in outs:
                y.pins = y.pins[:n - 1]
            return outs
        return self.bind(self.eval(e.func, st, fr), f)

    def any_all(self, e, st, fr, is_any):
        g = e.args[0]
        names = self.comp_names(g.generators)
        o = st.get(fr.oid) if fr.kind == "func" else None
        saved = {n: o.f[n] for n in names if o and n in o.f}

        def leaf(x):
            out = []
            for b, y in self.cond(g.elt, x, fr):
                if isinstance(b, Raise):
                    out.append((("raise", b.exc), y))
                elif b == is_any:
                    out.append((("ret", B(is_any)), y))
                else:
                    out.append((NEXT, y))
            return out
        st.pins += tuple(saved.values())
        res = []
        for flow, x in self.comp(g.generators, st, fr, leaf):
            x.pins = x.pins[:len(x.pins) - len(saved)]
            if fr.kind == "func":
                h = x.get(fr.oid)
                for nm in names:
                    h = h.without_f(nm)
                x.put(fr.oid, h.with_fs(saved))
            if flow[0] == "raise":
                res.append((Raise(flow[1]), x))
            elif flow[0] == "ret":
                res.append((flow[1], x))
            else:
                res.append((B(not is_any), x))
        return self.dedupe_vals(res)

    def dedupe_vals(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        for v, st in outs:
            if self.cfg.coarse and not self.loading:
                self.forget(st)
            st.gc((v.exc,) if isinstance(v, Raise) else (v,) if isinstance(v, Val) else ())
            k = (("raise", v.exc) if isinstance(v, Raise) else v, st.key())
            seen.setdefault(k, (v, st))
        return list(seen.values())

    FORGET = {"eq", "lt", "nonempty", "len", "call", "awaited", "fresh", "isatty", "seekable", "is", "contains", "many"}

    def forget(self, st):
        "Coarse mode: drop facts that only correlate data-dependent branches."
        keep = self.cfg.keep
        drop = [k for k in st.facts if k.tag == "sym" and k.parts[0] in self.FORGET and not mentions(k, keep)]
        for k in drop:
            del st.facts[k]

    def call(self, fn, args, kw, st, node):
        self.stats["calls"] += 1
        n = len(st.pins)
        st.pins += (fn,) + tuple(args) + tuple(kw.values())
        outs = self._call(fn, args, kw, st, node)
        for _v, x in outs:
            x.pins = x.pins[:n]
        return outs

    def _call(self, fn, args, kw, st, node):
        t = fn.tag
        if t == "fn":
            return self.call_fn(fn, args, kw, st, node)
        if t == "bound":
            return self._call(fn.parts[1], [fn.parts[0]] + args, kw, st, node)
        if t == "cmfn":
            outs = self.call_fn(fn.parts[0], args, kw, st, node)
            res = []
            for v, x in outs:
                if isinstance(v, Raise):
                    res.append((v, x))
                else:
                    res.append((x.alloc(self.site(node, ":cm"), HObj("cm", None, {"gen": v})), x))
            return res
        if t == "static":
            return self._call(fn.parts[0], args, kw, st, node)
        if t == "cls":
            return self.instantiate(fn, args, kw, st, node)
        return self.models.call(fn, args, kw, st, node)

    def bind_args(self, info, fn, args, kw, st, node):
        "-> dict of locals, or an error string"
        a = info.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        defaults = fn.parts[2]
        kwd = dict(fn.parts[3])
        out = {}
        args = list(args)
        kw = dict(kw)
        if any(x.tag == "star" for x in args):
            # unknown number of positionals
            i = next(i for i, x in enumerate(args) if x.tag == "star")
            base = args[i].parts[0]
            head = args[:i]
            need = len(params) - len(head)
            tail = []
            if a.vararg:
                for j in range(max(need, 0)):
                    tail.append(self.models.sym_item(base, K(j), st))
                out[a.vararg.arg] = base
            else:
                for j in range(max(need, 0)):
                    tail.append(self.models.sym_item(base, K(j), st))
            args = head + tail
        rest_kw = kw.pop("**", None)
        for i, p in enumerate(params):
            if i < len(args):
                if p in kw:
                    return f"multiple values for {p}"
                out[p] = args[i]
            elif p in kw:
                out[p] = kw.pop(p)
            else:
                j = i - (len(params) - len(defaults))
                if j >= 0:
                    out[p] = defaults[j]
                elif rest_kw is not None:
                    out[p] = Sym("item", rest_kw, K(p))
                else:
                    return f"missing argument {p}"
        if a.vararg:
            if a.vararg.arg not in out:
                out[a.vararg.arg] = Tup(args[len(params):])
        elif len(args) > len(params):
            return "too many arguments"
        for x in a.kwonlyargs:
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif x.arg in kwd:
                out[x.arg] = kwd[x.arg]
            else:
                return f"missing keyword {x.arg}"
        if a.kwarg:
            items = tuple((K(k), v) for k, v in kw.items())
            f = {"rest": rest_kw} if rest_kw is not None else {}
            out[a.kwarg.arg] = st.alloc(self.site(node, ":kwargs"), HObj("dict", None, f, items))
        elif kw:
            return f"unexpected keyword {sorted(kw)}"
        return out

    def call_fn(self, fn, args, kw, st, node):
        info = fn.parts[0]
        summ = self.cfg.summaries.get((info.module.name, info.qualname)) or self.cfg.summaries.get(info.qualname)
        if summ is not None:
            r = summ(self, fn, args, kw, st, node)
            if r is not None:
                return r
        loc = self.bind_args(info, fn, args, kw, st, node)
        if isinstance(loc, str):
            return self.raise_(st, TypeError, f"{info.qualname}: {loc}", node=node)
        if fn.parts[1] is not None:
            loc["$up"] = Ref(fn.parts[1])
        foid = st.alloc("frame:" + info.module.name + "." + info.qualname, HObj("frame", None, loc)).parts[0]
        if info.is_gen:
            return [(st.alloc("gen:" + info.qualname, HObj("gen", None, {"frame": Ref(foid), "fn": fn, "async": B(info.is_async)})), st)]
        if info.is_async:
            return [(st.alloc("coro:" + info.qualname, HObj("coro", None, {"frame": Ref(foid), "fn": fn})), st)]
        return self.run_body(info, foid, st, node)

    def run_body(self, info, foid, st, node):
        "-> list[(Val|Raise, st)]"
        depth = sum(1 for c in self.callstack if c[0] == info.qualname and c[1] == info.module.path)
        if depth > 7 or len(self.callstack) > self.cfg.max_depth:
            self.note(f"recursion cut in {info.qualname}")
            return [(st.newsym("rec:" + info.qualname), st)]
        if not info.module.path.startswith("<"):
            self.stats["functions"].add(info.module.name + "." + info.qualname)
        fr = Frame("func", info.module, info=info, oid=foid, qual=info.qualname)
        st.stack = st.stack + (foid,)
        saved_cur = self.cur
        self.callstack.append((info.qualname, info.module.path, info.node.lineno))
        old_exc = st.ctl.get("exc", NONE)
        try:
            if isinstance(info.node, ast.Lambda):
                outs = [(("raise", v.exc) if isinstance(v, Raise) else ("ret", v), x)
                        for v, x in self.eval(info.node.body, st, fr)]
            else:
                outs = self.exec_block(info.node.body, st, fr)
        finally:
            self.callstack.pop()
            self.cur = saved_cur
        res = []
        for flow, x in outs:
            x.stack = x.stack[:-1]
            x.ctl["exc"] = old_exc
            if flow[0] == "ret":
                res.append((flow[1], x))
            elif flow[0] == "raise":
                res.append((Raise(flow[1]), x))
            else:
                res.append((NONE, x))
        return self.dedupe_vals(res)

    def instantiate(self, cv, args, kw, st, node):
        ci = cv.parts[0]
        if ci.kind == "enum":
            return self.models.enum_call(ci, args, st, node)
        r = self.models.instantiate_hook(cv, args, kw, st, node)
        if r is not None:
            return r
        oid = f"obj:{ci.module.name}.{ci.name}"
        if ci.kind in ("dataclass", "namedtuple") and ci.lookup("__init__")[0] is None:
            vals = self.dc_bind(ci, args, kw, st, node)
            if isinstance(vals, str):
                return self.raise_(st, TypeError, f"{ci.name}: {vals}", node=node)
            outs = [({}, st)]
            for n, v in vals:
                nxt = []
                for d, x in outs:
                    if isinstance(d, Raise):
                        nxt.append((d, x))
                    elif isinstance(v, tuple):  # factory
                        x.pins += tuple(d.values())
                        for w, y in self.call(v[0], [], {}, x, node):
                            y.pins = y.pins[:len(y.pins) - len(d)]
                            nxt.append((w, y) if isinstance(w, Raise) else ({**d, n: w}, y))
                    else:
                        nxt.append(({**d, n: v}, x))
                outs = nxt
            res = []
            for d, x in outs:
                if isinstance(d, Raise):
                    res.append((d, x))
                    continue
                ref = x.alloc(oid, HObj("inst", cv, d))
                post, _ = ci.lookup("__post_init__")
                if post is not None:
                    x.pins += (ref,)
                    for v, y in self.call(mk("bound", ref, post), [], {}, x, node):
                        y.pins = y.pins[:-1]
                        res.append((v, y) if isinstance(v, Raise) else (ref, y))
                else:
                    res.append((ref, x))
            return res
        ref = st.alloc(oid, HObj("inst", cv, {}))
        init, _ = ci.lookup("__init__")
        if init is None:
            for b in ci.pybases():
                if issubclass(b, BaseException):
                    st.put(ref.parts[0], st.get(ref.parts[0]).with_f("args", Tup(args)))
                    return [(ref, st)]
            if args or kw:
                st.put(ref.parts[0], st.get(ref.parts[0]).with_f("$args", Tup(args)))
            return [(ref, st)]
        st.pins += (ref,)
        if any(issubclass(b, BaseException) for b in ci.pybases()):
            st.put(ref.parts[0], st.get(ref.parts[0]).with_f("args", Tup(args)))
        res = []
        for v, x in self.call(mk("bound", ref, init), args, kw, st, node):
            x.pins = x.pins[:-1]
            res.append((v, x) if isinstance(v, Raise) else (ref, x))
        return res

    def dc_bind(self, ci, args, kw, st, node):
        kw = dict(kw)
        out = []
        fields = [f for f in ci.fields if f[3]]
        if ci.kw_only and args:
            return "positional arguments"
        if len(args) > len(fields):
            return "too many arguments"
        for i, (n, d, fac, _i) in enumerate(fields):
            if i < len(args):
                if n in kw:
                    return f"multiple values for {n}"
                out.append((n, args[i]))
            elif n in kw:
                out.append((n, kw.pop(n)))
            elif d is not None:
                out.append((n, d))
            elif fac is not None:
                out.append((n, (fac,)))
            else:
                return f"missing {n}"
        kw.pop("**", None)
        if kw:
            return f"unexpected {sorted(kw)}"
        return out

    # async

    def e_Await(self, e, st, fr):
        return self.bind(self.eval(e.value, st, fr), lambda v, x: self.await_(v, x, e, fr))

    def await_(self, v, st, node, fr=None):
        st.pins += (v,)
        n = len(st.pins)
        outs = self._await(v, st, node, fr)
        for _v, x in outs:
            x.pins = x.pins[:n - 1]
        return self.dedupe_vals(outs)

    def _await(self, v, st, node, fr):
        if v.tag == "ref":
            o = st.get(v.parts[0])
            if o.kind == "coro":
                st.put(v.parts[0], o.with_f("done", TRUE))
                return self.run_body(o.f["fn"].parts[0], o.f["frame"].parts[0], st, node)
            if o.kind == "inst" and o.cls is not None and o.cls.tag == "cls":
                m, _ = o.cls.parts[0].lookup("__await__")
                if m is not None:
                    def g(w, x):
                        return self.await_(w, x, node, fr)
                    return self.bind(self.call(mk("bound", v, m), [], {}, st, node), g)
        return self.models.await_ext(v, st, node, fr)

    def suspend(self, st, node, what=""):
        """A point where the current task gives up control.
        -> list[(NONE | Raise, st)]"""
        self.stats["suspensions"].add(self.where())
        return self.models.suspend(st, node, what)

    def yielded(self, v, x, fr):
        "Hand one value to the consumer of the generator running in this frame."
        h = self.yield_handlers.get(fr.oid)
        if h is None:
            self.note(f"yield without consumer at {self.where()}")
            return [(NONE, x)]
        self.yield_handlers.pop(fr.oid)
        saved = (self.cur, list(self.callstack))
        try:
            return h(v, x)
        finally:
            self.yield_handlers[fr.oid] = h
            self.cur, self.callstack[:] = saved[0], saved[1]

    def e_Yield(self, e, st, fr):
        if e.value is None:
            return self.yielded(NONE, st, fr)
        return self.bind(self.eval(e.value, st, fr), lambda v, x: self.yielded(v, x, fr))

    def e_YieldFrom(self, e, st, fr):
        def f(it, x):
            def body(v, y):
                outs = []
                for r, z in self.yielded(v, y, fr):
                    outs.append((("raise", r.exc), z) if isinstance(r, Raise) else (NEXT, z))
                return outs
            res = []
            for flow, y in self.iterate(it, x, fr, body, lambda y: [(NEXT, y)], e):
                res.append((Raise(flow[1]), y) if flow[0] == "raise" else (NONE, y))
            return res
        return self.bind(self.eval(e.value, st, fr), f)


# ---------------------------------------------------------------- helpers

def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _slice(s):
    return s


def pyobj_is(v, o):
    return v is not None and v.tag == "py" and pyobj(v) is o


def uniq(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return tuple(out)


def dict_set(items, k, v):
    items = list(items)
    for i, (a, _b) in enumerate(items):
        if a is k or (a.tag == "k" and k.tag == "k" and kval(a) == kval(k)):
            items[i] = (a, v)
            return items
    items.append((k, v))
    return items


_MENT = {}


def mentions(v, kinds):
    "Does the value mention a symbol of one of the kinds?"
    r = _MENT.get((v, kinds))
    if r is None:
        r = v.tag == "sym" and v.parts[0] in kinds or any(
            mentions(p, kinds) if isinstance(p, Val) else isinstance(p, tuple) and any(
                isinstance(q, Val) and mentions(q, kinds) for q in p) for p in v.parts)
        _MENT[(v, kinds)] = r
    return r


def depth_of(v, d=0):
    if not isinstance(v, Val) or d > 12:
        return 0
    m = 0
    for p in v.parts:
        if isinstance(p, Val):
            m = max(m, depth_of(p, d + 1))
        elif isinstance(p, tuple):
            for q in p:
                m = max(m, depth_of(q, d + 1))
    return m + 1
