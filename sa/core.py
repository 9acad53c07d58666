"""Abstract domain: hash-consed values, heap objects and states."""

import builtins


class AnalysisBroken(Exception):
    "The analyser cannot give an answer (missing anchor, no convergence, ...)."


# ---------------------------------------------------------------- values

class Val:
    __slots__ = ("tag", "parts", "h", "refs", "fresh", "meta")

    def __repr__(self):
        return show(self)


_TABLE = {}
EMPTY = frozenset()


def mk(tag, *parts):
    key = (tag, parts)
    v = _TABLE.get(key)
    if v is None:
        v = Val()
        v.tag = tag
        v.parts = parts
        refs = EMPTY
        fresh = EMPTY
        for p in parts:
            r, f = _collect(p)
            refs |= r
            fresh |= f
        if tag == "ref":
            refs |= {parts[0]}
        elif tag == "sym" and parts[0] == "fresh":
            fresh |= {v}
        elif tag == "fn" and parts[1] is not None:
            refs |= {parts[1]}
        v.refs = refs
        v.fresh = fresh
        v.meta = None
        _TABLE[key] = v
    return v


def _collect(p):
    if isinstance(p, Val):
        return p.refs, p.fresh
    if isinstance(p, (tuple, frozenset)):
        refs = EMPTY
        fresh = EMPTY
        for q in p:
            r, f = _collect(q)
            refs |= r
            fresh |= f
        return refs, fresh
    return EMPTY, EMPTY


def K(v):
    "Known constant."
    if isinstance(v, tuple):
        return mk("tup", tuple(K(x) for x in v))
    return mk("k", type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def B(v):
    return TRUE if v else FALSE


class PyBox:
    "Wraps an unhashable or surprising-equality python object by identity."
    __slots__ = ("obj",)
    _all = {}

    def __init__(self, obj):
        self.obj = obj


def Py(obj):
    "A real python object of the standard library (class, function, module)."
    box = PyBox._all.get(id(obj))
    if box is None:
        box = PyBox(obj)
        PyBox._all[id(obj)] = box
    return mk("py", box)


def pyobj(v):
    return v.parts[0].obj


def is_k(v, *types):
    return v.tag == "k" and (not types or type(v.parts[1]) in types)


def kval(v):
    return v.parts[1]


def Tup(items):
    return mk("tup", tuple(items))


def Ref(oid):
    return mk("ref", oid)


def Sym(kind, *parts, ty=None, exact=False, opt=False, nonempty=None):
    """Opaque value number. `ty` is a type value ('py' or 'cls'); `opt` means it
    may also be None."""
    v = mk("sym", kind, *parts)
    if v.meta is None:
        v.meta = (ty, exact, opt, nonempty)
    return v


def show(v, depth=0):
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in v) + ")"
    if not isinstance(v, Val):
        return str(v)
    if depth > 5:
        return "..."
    t, p = v.tag, v.parts
    if t == "k":
        return repr(p[1])
    if t == "py":
        o = p[0].obj
        return getattr(o, "__qualname__", None) or getattr(o, "__name__", None) or repr(o)
    if t == "ref":
        return "&" + str(p[0])
    if t == "tup":
        return "(" + ", ".join(show(x, depth + 1) for x in p[0]) + ")"
    if t == "cls":
        return p[0].name
    if t == "fn":
        return p[0].qualname
    if t == "enum":
        return f"{p[0].name}.{p[1]}"
    if t == "sym":
        return "<" + ":".join(show(x, depth + 1) for x in p) + ">"
    return t + "(" + ", ".join(show(x, depth + 1) for x in p) + ")"


# ---------------------------------------------------------------- program entities

class ModuleInfo:
    def __init__(self, name, path=None, tree=None):
        self.name = name
        self.path = path
        self.tree = tree
        self.ns = {}

    def __repr__(self):
        return f"<module {self.name}>"


class ClassInfo:
    def __init__(self, name, qualname, module, bases):
        self.name = name
        self.qualname = qualname
        self.module = module
        self.bases = bases          # list of Val ('cls' | 'py')
        self.ns = {}                # class attributes
        self.ann = []               # annotated names in order
        self.kind = "plain"         # plain | dataclass | namedtuple | enum
        self.frozen = False
        self.kw_only = False
        self.fields = None          # for dataclass: list of (name, default Val|None, factory Val|None, init)
        self.val = mk("cls", self)
        self.node = None

    def mro(self):
        out = [self.val]
        for b in self.bases:
            if b.tag == "cls":
                out.extend(x for x in b.parts[0].mro() if x not in out)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if c.tag == "cls" and name in c.parts[0].ns:
                return c.parts[0].ns[name], c
        return None, None

    def pybases(self):
        return [pyobj(c) for c in self.mro() if c.tag == "py" and isinstance(pyobj(c), type)]


class FuncInfo:
    def __init__(self, node, module, qualname, cls=None):
        import ast
        self.node = node
        self.module = module
        self.qualname = qualname
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = False
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self._scan()

    def _scan(self):
        import ast
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]

        def targets(t):
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.locals.add(n.id)

        def visit(n, comp=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
                for d in n.decorator_list:
                    visit(d)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for c in ast.iter_child_nodes(n):
                    visit(c, True)
                return
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, ast.NamedExpr):
                self.locals.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp:
                self.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
            for c in ast.iter_child_nodes(n):
                visit(c, comp)
        for s in body:
            visit(s)
        self.locals -= self.globals
        self.locals -= self.nonlocals

    def __repr__(self):
        return f"<fn {self.qualname}>"


# ---------------------------------------------------------------- heap

class HObj:
    """Immutable heap object: kind, cls (type Val), fields (dict), items.

    kinds: inst, list, dict, set, frame, coro, task, gen
    """
    __slots__ = ("kind", "cls", "f", "items", "_h", "_r")

    def __init__(self, kind, cls, f=None, items=()):
        self.kind = kind
        self.cls = cls
        self.f = f or {}
        self.items = items
        self._h = None
        self._r = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.cls, frozenset(self.f.items()), self.items))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, HObj) and hash(self) == hash(o) and self.kind == o.kind
            and self.cls is o.cls and self.items == o.items and self.f == o.f)

    def reach(self):
        if self._r is None:
            r, f = _collect(tuple(self.f.values()))
            r2, f2 = _collect(self.items)
            self._r = (r | r2, f | f2)
        return self._r

    def with_f(self, name, val):
        d = dict(self.f)
        d[name] = val
        return HObj(self.kind, self.cls, d, self.items)

    def without_f(self, name):
        d = dict(self.f)
        d.pop(name, None)
        return HObj(self.kind, self.cls, d, self.items)

    def with_fs(self, kv):
        d = dict(self.f)
        d.update(kv)
        return HObj(self.kind, self.cls, d, self.items)

    def with_items(self, items):
        return HObj(self.kind, self.cls, self.f, tuple(items))

    def __repr__(self):
        return f"{self.kind}:{show(self.cls) if self.cls else ''}{self.f if self.f else ''}{list(self.items) if self.items else ''}"


class Fact:
    __slots__ = ("truth", "none", "pos", "neg", "eq", "neq", "_h")

    def __init__(self, truth=None, none=None, pos=EMPTY, neg=EMPTY, eq=None, neq=EMPTY):
        self.truth = truth
        self.none = none
        self.pos = pos
        self.neg = neg
        self.eq = eq
        self.neq = neq
        self._h = hash((truth, none, pos, neg, eq, neq))

    def rep(self, **kw):
        d = dict(truth=self.truth, none=self.none, pos=self.pos, neg=self.neg, eq=self.eq, neq=self.neq)
        d.update(kw)
        return Fact(**d)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (self.truth, self.none, self.pos, self.neg, self.eq, self.neq) == (
            o.truth, o.none, o.pos, o.neg, o.eq, o.neq)

    def __repr__(self):
        return f"Fact(t={self.truth} none={self.none} pos={set(self.pos)} neg={set(self.neg)} eq={self.eq} neq={set(self.neq)})"


NOFACT = Fact()


class St:
    "Abstract state. Forked explicitly; mutated in place by its owner."
    __slots__ = ("base", "heap", "facts", "mon", "ctl", "stack", "pins", "fresh", "trace", "root_syms", "effects")
    nogc = False        # module-level code: namespaces are roots too

    def __init__(self):
        self.base = {}
        self.heap = {}
        self.facts = {}
        self.mon = {}
        self.ctl = {}
        self.stack = ()
        self.pins = ()
        self.fresh = {}
        self.trace = None
        self.effects = 0        # how much has happened; no part of the state

    def fork(self):
        s = St.__new__(St)
        s.base = self.base
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.mon = dict(self.mon)
        s.ctl = dict(self.ctl)
        s.stack = self.stack
        s.pins = self.pins
        s.fresh = dict(self.fresh)
        s.trace = self.trace
        s.effects = self.effects
        return s

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.base.get(oid)
            if o is None:
                raise KeyError(oid)
        return o

    def has(self, oid):
        return oid in self.heap or oid in self.base

    def put(self, oid, hobj):
        self.heap[oid] = hobj

    def alloc(self, site, hobj):
        k = 0
        oid = site
        while oid in self.heap or oid in self.base:
            k += 1
            oid = f"{site}#{k}"
        self.heap[oid] = hobj
        return Ref(oid)

    def newsym(self, site, ty=None, exact=False, opt=False, nonempty=None):
        used = self.fresh.get(site, EMPTY)
        k = 0
        while k in used:
            k += 1
        self.fresh[site] = used | {k}
        return Sym("fresh", site, k, ty=ty, exact=exact, opt=opt, nonempty=nonempty)

    def fact(self, v):
        return self.facts.get(v, NOFACT)

    def setfact(self, v, **kw):
        self.facts[v] = self.fact(v).rep(**kw)

    def event(self, text):
        self.trace = (text, self.trace)

    def trace_list(self, n=60):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    def gc(self, extra=()):
        "Drop unreachable heap objects and facts; renormalise fresh counters."
        if St.nogc:
            return
        live = set()
        fresh = set()
        work = list(self.stack)
        r, f = _collect(tuple(extra))
        work.extend(r)
        fresh |= f
        r, f = _collect(self.pins)
        work.extend(r)
        fresh |= f
        r, f = _collect(tuple(self.mon.values()))
        work.extend(r)
        fresh |= f
        r, f = _collect(tuple(self.ctl.values()))
        work.extend(r)
        fresh |= f
        # Written-to base objects are always live.
        for oid in self.heap:
            if oid in self.base:
                work.append(oid)
        while work:
            oid = work.pop()
            if oid in live:
                continue
            live.add(oid)
            o = self.heap.get(oid)
            if o is None:
                continue  # base object, unchanged: its referents are base objects
            r, f = o.reach()
            fresh |= f
            work.extend(x for x in r if x not in live)
        if len(live) != len(self.heap):
            self.heap = {k: v for k, v in self.heap.items() if k in live}
        if self.facts:
            self.facts = {k: v for k, v in self.facts.items()
                          if k.fresh <= fresh and all(r in live or r in self.base for r in k.refs)}
        cnt = {}
        for v in fresh:
            cnt[v.parts[1]] = cnt.get(v.parts[1], EMPTY) | {v.parts[2]}
        # Facts may mention fresh symbols only through live terms.
        self.fresh = cnt

    def key(self):
        return (self.stack, self.pins, frozenset(self.heap.items()),
                frozenset(self.facts.items()), frozenset(self.mon.items()),
                frozenset(self.ctl.items()))


class Raise:
    "Outcome of an evaluation that raised."
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raise({self.exc})"


NEXT = ("next", None)
BREAK = ("break", None)
CONT = ("cont", None)


def py_builtin(name):
    return getattr(builtins, name, None)
