"""Models of Python built-ins and of the standard library (abstract semantics).

Every model is an over-approximation of the documented behaviour: opaque
results are fresh value numbers, and operations that can fail do so when the
scenario grants a fault budget."""

import abc
import asyncio
import builtins
import collections
import contextlib
import contextvars
import copy as copy_mod
import dataclasses
import enum
import functools
import io
import itertools
import logging
import os
import re
import signal
import sys
import threading
import typing

from .core import *
from .interp import dict_set, uniq, pyobj_is



def H(kind, cls=None, f=None, items=()):
    return HObj(kind, cls, f, items)


PURE_STR = {"split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "encode", "decode", "startswith",
            "endswith", "join", "replace", "find", "rfind", "index", "partition", "rpartition", "splitlines", "format",
            "title", "count", "isdigit", "casefold", "removeprefix", "removesuffix", "hex", "tobytes", "isspace",
            "ljust", "rjust", "zfill", "expandtabs", "isidentifier", "isalpha", "isalnum", "translate"}
BOOL_M = {"startswith", "endswith", "isdigit", "isspace", "isidentifier", "isalpha", "isalnum"}
INT_M = {"find", "rfind", "index", "count"}


def pycls(v):
    return pyobj(v) if v is not None and v.tag == "py" and isinstance(pyobj(v), type) else None


ENVIRON = Sym("environ_all", K(0))
MANY = Sym("many", K("data"), ty=Py(bytes), exact=True)


class Base:
    def __init__(self, I):
        self.I = I
        self.intrinsics = {n[5:]: getattr(self, n) for n in dir(self) if n.startswith("intr_")}
        self.pyf = {}
        self.register()

    # ------------------------------------------------------------ helpers

    def reg(self, *objs):
        def deco(f):
            for o in objs:
                if o is not None:
                    self.pyf[id(o)] = f
            return f
        return deco

    def exc(self, st, cls, *args, node=None):
        return self.I.raise_(st, cls, *args, node=node)

    def site(self, node, k=""):
        return self.I.site(node, k)

    def qual(self):
        cs = self.I.callstack
        return cs[-1][0] if cs else "?"

    def mklist(self, st, items, node, kind="list", rest=None):
        f = {} if rest is None else {"rest": rest}
        return st.alloc(self.site(node, ":" + kind), H(kind, None, f, tuple(items)))

    def is_fd(self, v):
        return v.tag == "sym" and (v.parts[0] == "fdend" or v.parts[0] == "fresh" and str(v.parts[1]).startswith("fd:")
                                   or v.parts[0] == "in" and show(v.parts[1]).strip("'").startswith("fd"))

    def kindof(self, v, st):
        return st.get(v.parts[0]).kind if v.tag == "ref" else None

    def clsname(self, v, st):
        ty, _e = self.I.type_of(v, st)
        if ty is None and v.tag == "sym" and v.meta[0] is not None:
            ty = v.meta[0]
        if ty is None:
            return None
        return ty.parts[0].name if ty.tag == "cls" else getattr(pyobj(ty), "__name__", None)

    def pyfault(self, name, st, node):
        "Possible injected failures of an external call -> list of (Raise, st)."
        I = self.I
        out = []
        excs = I.cfg.raises.get(name)
        if excs and st.ctl.get("faults", 0):
            for e in excs:
                s = st.fork()
                s.ctl["faults"] = s.ctl["faults"] - 1
                r = I.make_exc(s, e, (), node)
                s.event(f"{I.where()}: {name} raises {e.__name__}")
                I.emit(s, "fault", name=name, exc=r)
                out.append((Raise(r), s))
        return out

    def ext(self, name, st, node, args=(), kw=None, recv=None, value=None):
        "Emit an external call event and count it."
        I = self.I
        d = I.stats["ext"]
        d.setdefault(name, set()).add(I.where())
        I.emit(st, "ext", name=name, args=list(args), kw=kw or {}, recv=recv, node=node, value=value)

    # ------------------------------------------------------------ truth / items

    def obj_truth(self, v, o, st):
        if o.cls.tag == "py" and pyobj(o.cls) is bytearray and self.I.cfg.data:
            return self.I.truth(self.seq("b", self.pieces(v, st)), st)
        if o.cls.tag == "py" and pyobj(o.cls) is bytearray:
            return self.I.truth(Sym("nonempty", v, o.f.get("data", NONE), ty=Py(bool), exact=True), st)
        if o.cls is Py(range):
            a = o.f["$args"].parts[0]
            if all(is_k(x, int) for x in a):
                return [(len(range(*[kval(x) for x in a])) > 0, st)]
        return None

    def known_items(self, v, st):
        v = self.I.norm(v, st)
        if v.tag == "tup":
            return None if any(x.tag == "star" for x in v.parts[0]) else list(v.parts[0])
        if v.tag == "k" and isinstance(kval(v), (str, bytes)):
            return [K(kval(v)[i:i + 1]) if isinstance(kval(v), str) else K(kval(v)[i]) for i in range(len(kval(v)))]
        if v.tag == "ref":
            o = st.get(v.parts[0])
            if o.kind in ("list", "set") and "rest" not in o.f and not any(x.tag == "star" for x in o.items):
                return list(o.items)
            if o.kind == "dict" and "rest" not in o.f:
                return [k for k, _v in o.items]
            if o.kind == "inst" and o.cls.tag == "cls" and o.cls.parts[0].kind == "namedtuple":
                return [o.f[f[0]] for f in o.cls.parts[0].fields]
            if o.kind == "inst" and o.cls.tag == "py" and "items" in o.f:
                return self.known_items(o.f["items"], st)
        if v.tag == "cls" and v.parts[0].kind == "enum":
            return [x for x in v.parts[0].ns.values() if x.tag == "enum"]
        return None

    def dict_items(self, v, st):
        v = self.I.norm(v, st)
        if v.tag == "ref":
            o = st.get(v.parts[0])
            if o.kind == "dict" and "rest" not in o.f:
                return list(o.items)
        return None

    def map_parts(self, v, st, node):
        """Contents of a mapping -> [((rest, items) | None | Raise, st)]; rest is the value standing for further unknown
        items the listed ones override, or None."""
        I = self.I
        v = I.norm(v, st)
        if v is Py(os.environ):
            return [((ENVIRON, ()), st)]
        if v.tag == "ref":
            o = st.get(v.parts[0])
            if o.kind == "dict":
                return [((o.f.get("rest"), tuple(o.items)), st)]
            if o.kind == "inst" and o.cls is not None and o.cls.tag == "cls" and o.cls.parts[0].lookup("__getitem__")[0] is not None and (
                    o.cls.parts[0].lookup("__iter__")[0] is not None or o.cls.parts[0].lookup("keys")[0] is not None):
                c = o.cls.parts[0]
                km = c.lookup("keys")[0]
                m = km if km is not None and km.tag in ("fn", "cmfn") else c.lookup("__iter__")[0]
                if m is None:
                    return [(None, st)]
                out = []
                gi = c.lookup("__getitem__")[0]
                for ks, x in I.call(mk("bound", v, m), [], {}, st, node):
                    if isinstance(ks, Raise):
                        out.append((ks, x))
                        continue
                    for items, y in self.collect(ks, x, node):
                        if isinstance(items, Raise):
                            out.append((items, y))
                            continue
                        if not isinstance(items, list):
                            out.append((None, y))
                            continue
                        live = [((), y)]
                        for k in items:
                            nxt = []
                            for acc, z in live:
                                for w, z2 in I.call(mk("bound", v, gi), [k], {}, z, node):
                                    if isinstance(w, Raise):
                                        out.append((w, z2))
                                    else:
                                        nxt.append((acc + ((k, w),), z2))
                            live = nxt
                        out.extend(((None, acc), z) for acc, z in live)
                return out
        return [(None, st)]

    def map_over(self, base, top, st):
        "Parts of {**base, **top}."
        rest, items = base
        r2, i2 = top
        if r2 is not None:
            # everything unknown in top overrides what base lists
            rest, items = (r2, ()) if rest is None and not items or rest is r2 and not items else (Sym("merge", rest or NONE, Tup([Tup(list(p)) for p in items]), r2), ())
        for k, x in i2:
            items = tuple(self.dset(items, k, x, st))
        return rest, tuple(items)

    def new_map(self, st, node, parts):
        return st.alloc(self.site(node, ":dict"), H("dict", None, {} if parts[0] is None else {"rest": parts[0]}, tuple(parts[1])))

    def sym_item(self, v, idx, st):
        return Sym("item", v, idx)

    def delitem(self, c, k, st, node):
        I = self.I
        I.emit(st, "delitem", obj=c, key=k)
        if c.tag == "ref":
            o = st.get(c.parts[0])
            if o.kind == "dict":
                for i, (a, _b) in enumerate(o.items):
                    if I.eq(a, k, st) is TRUE:
                        st.put(c.parts[0], o.with_items(o.items[:i] + o.items[i + 1:]))
                        return [(NONE, st)]
                if "rest" not in o.f:
                    return self.exc(st, KeyError, node=node)
                return [(NONE, st)]
            if o.kind == "list":
                i = self.index_of(k, len(o.items))
                if i is not None and "rest" not in o.f:
                    st.put(c.parts[0], o.with_items(o.items[:i] + o.items[i + 1:]))
                    return [(NONE, st)]
                if k.tag == "slice" and "rest" not in o.f:
                    sl = self.kslice(k)
                    if sl is not None:
                        L = list(o.items)
                        del L[sl]
                        st.put(c.parts[0], o.with_items(L))
                        return [(NONE, st)]
                st.put(c.parts[0], H("list", None, {"rest": st.newsym(self.site(node))}, ()))
                return [(NONE, st)]
            if o.kind == "inst" and pycls(o.cls) is bytearray:
                self.ext("bytearray.__delitem__", st, node, [k], recv=c)
                I.emit(st, "mutate", obj=c, name="__delitem__", args=[k])
                if I.cfg.data and k.tag == "slice":
                    d = o.f.get("data", K(b""))
                    keep = self.seq_without(d, k, st)
                    st.put(c.parts[0], o.with_f("data", keep if keep is not None else Sym("del", d, k, ty=Py(bytes), exact=True)))
                    return [(NONE, st)]
                if not I.cfg.coarse:
                    st.put(c.parts[0], o.with_f("data", Sym("del", o.f.get("data", NONE), k)))
                return [(NONE, st)]
            m = self.method_of(o, "__delitem__")
            if m is not None:
                return I.call(mk("bound", c, m), [k], {}, st, node)
            if o.kind == "inst" and o.cls is not None and o.cls.tag == "cls" and not self.py_has(o.cls, "__delitem__"):
                return self.exc(st, TypeError, "delitem", node=node)
        self.ext("__delitem__", st, node, [k], recv=c)
        return [(NONE, st)]

    def method_of(self, o, name):
        if o.kind == "inst" and o.cls is not None and o.cls.tag == "cls":
            return o.cls.parts[0].lookup(name)[0]
        return None

    def setitem(self, c, k, v, st, node):
        I = self.I
        I.emit(st, "setitem", obj=c, key=k, value=v)
        if c.tag == "ref":
            o = st.get(c.parts[0])
            if o.kind == "dict":
                st.put(c.parts[0], o.with_items(self.dset(o.items, k, v, st)))
                return [(NONE, st)]
            if o.kind == "list":
                i = self.index_of(k, len(o.items))
                if i is not None:
                    L = list(o.items)
                    L[i] = v
                    st.put(c.parts[0], o.with_items(L))
                elif is_k(k, int) and "rest" not in o.f:
                    return self.exc(st, IndexError, node=node)
                elif k.tag == "slice" and self.kslice(k) is not None and self.known_items(v, st) is not None and "rest" not in o.f:
                    L = list(o.items)
                    L[self.kslice(k)] = self.known_items(v, st)
                    st.put(c.parts[0], o.with_items(L))
                else:
                    st.put(c.parts[0], H("list", None, {"rest": st.newsym(self.site(node))}, o.items))
                return [(NONE, st)]
            m = self.method_of(o, "__setitem__")
            if m is not None:
                return I.call(mk("bound", c, m), [k, v], {}, st, node)
            if o.kind == "inst" and pycls(o.cls) is bytearray:
                self.ext("bytearray.__setitem__", st, node, [k, v], recv=c)
                I.emit(st, "mutate", obj=c, name="__setitem__", args=[k, v])
                if I.cfg.data and k.tag == "slice":
                    d = self.seq_replaced(o.f.get("data", K(b"")), k, v, st)
                    if d is not None:
                        st.put(c.parts[0], o.with_f("data", d))
                        return [(NONE, st)]
                st.put(c.parts[0], o.with_f("data", Sym("set", o.f.get("data", NONE), k, v)))
                return [(NONE, st)]
            if o.kind == "inst" and o.cls.tag == "cls" and not self.py_has(o.cls, "__setitem__"):
                return self.exc(st, TypeError, "setitem", node=node)
        if c.tag in ("tup", "k", "enum"):
            return self.exc(st, TypeError, "setitem", node=node)
        self.ext("__setitem__", st, node, [k, v], recv=c)
        return [(NONE, st)]

    def py_has(self, cv, name):
        return any(hasattr(b, name) for b in cv.parts[0].pybases() if b is not object)

    def dset(self, items, k, v, st):
        items = list(items)
        for i, (a, _b) in enumerate(items):
            if self.I.eq(a, k, st) is TRUE:
                items[i] = (a, v)
                return items
        items.append((k, v))
        return items

    def index_of(self, k, n):
        if is_k(k, int, bool):
            i = int(kval(k))
            if -n <= i < n:
                return i % n if n else None
        return None

    def kslice(self, k):
        if all(is_k(p) for p in k.parts):
            return slice(*[kval(p) for p in k.parts])
        return None

    def getitem(self, c, k, st, node):
        I = self.I
        c = I.norm(c, st)
        k = I.norm(k, st)
        if c.tag in ("py", "cls"):
            if c.tag == "cls" and c.parts[0].kind == "enum":
                m = c.parts[0].ns.get(kval(k)) if is_k(k, str) else None
                return [(m, st)] if m is not None else self.exc(st, KeyError, node=node)
            o = pyobj(c) if c.tag == "py" else None
            if o is os.environ:
                return [(Sym("environ", k, ty=Py(str), exact=True), st)]
            if isinstance(o, type) or c.tag == "cls":
                if isinstance(o, enum.EnumMeta) and is_k(k, str):
                    return [(Py(o[kval(k)]), st)]
                return [(c, st)]
            real = self.to_real(k)
            if real is not None:
                try:
                    return [(Py(o[real[0]]), st)]
                except Exception:
                    pass
            if isinstance(o, (dict, list, tuple)):
                return [(Sym("item", c, k), st)]
            return [(Sym("generic", c, k, ty=Py(object)), st)]
        items = None
        if I.cfg.data and self.is_match(c):
            r = self.match_method(c, "__getitem__", [k], st)
            if r is not None:
                return [(r, st)]
        if I.cfg.data and k.tag == "slice" and self.seqkind(c, st):
            v = self.seq_slice(c, k, st)
            if v is not None:
                if c.tag == "ref" and pycls(st.get(c.parts[0]).cls) is bytearray:
                    return [(st.alloc(self.site(node, ":bytearray"), H("inst", Py(bytearray), {"data": v})), st)]
                return [(v, st)]
        if c.tag == "tup":
            items = list(c.parts[0])
        if c.tag == "k" and isinstance(kval(c), (str, bytes)):
            if is_k(k, int):
                try:
                    return [(K(kval(c)[kval(k)]), st)]
                except IndexError:
                    return self.exc(st, IndexError, node=node)
            if k.tag == "slice" and self.kslice(k) is not None:
                return [(K(kval(c)[self.kslice(k)]), st)]
        if c.tag == "ref":
            o = st.get(c.parts[0])
            if o.kind == "dict":
                res = []
                live = [st]
                for a, b in o.items:
                    nxt = []
                    for s in live:
                        for t, s2 in I.truth(I.eq(a, k, s), s):
                            if t:
                                res.append((b, s2))
                            else:
                                nxt.append(s2)
                    live = nxt
                for s in live:
                    if "default" in o.f:
                        for v, s2 in I.call(o.f["default"], [], {}, s, node):
                            if not isinstance(v, Raise):
                                oo = s2.get(c.parts[0])
                                s2.put(c.parts[0], oo.with_items(self.dset(oo.items, k, v, s2)))
                            res.append((v, s2))
                    elif "rest" in o.f:
                        res.append((Sym("item", o.f["rest"], k), s))
                    else:
                        res.extend(self.exc(s, KeyError, k, node=node))
                return res
            if o.kind == "list":
                items = list(o.items) if "rest" not in o.f and not any(x.tag == "star" for x in o.items) else None
                if items is None:
                    if is_k(k, int) and 0 <= kval(k) < len(o.items) and not any(x.tag == "star" for x in o.items[:kval(k) + 1]):
                        return [(o.items[kval(k)], st)]
                    return [(Sym("item", o.f.get("rest", c), k), st)]
            m = self.method_of(o, "__getitem__")
            if m is not None:
                return I.call(mk("bound", c, m), [k], {}, st, node)
            if o.kind == "inst" and o.cls.tag == "cls" and o.cls.parts[0].kind == "namedtuple":
                items = [o.f[f[0]] for f in o.cls.parts[0].fields]
            if o.kind == "inst" and pycls(o.cls) is bytearray:
                return [(Sym("slice" if k.tag == "slice" else "item", c, o.f.get("data", NONE), k,
                             ty=Py(bytearray if k.tag == "slice" else int)), st)]
        if items is not None:
            if is_k(k, int, bool):
                i = self.index_of(k, len(items))
                if i is None:
                    return self.exc(st, IndexError, node=node)
                return [(items[i], st)]
            if k.tag == "slice":
                sl = self.kslice(k)
                if sl is not None:
                    if c.tag == "tup":
                        return [(Tup(items[sl]), st)]
                    return [(self.mklist(st, items[sl], node), st)]
                return [(Sym("slice", c, k, ty=I.type_of(c, st)[0]), st)]
            # unknown index into a known sequence: any element
            if items and len(items) <= 6 and not self.sliceish(k):
                iv = I.enum_int(k)
                if iv is not None and isinstance(iv, int):
                    return self.getitem(c, K(iv), st, node)
                out = []
                for i, x in enumerate(items):
                    s = st.fork()
                    s.setfact(k, eq=K(i))
                    out.append((x, s))
                return out
            if not items:
                return self.exc(st, IndexError, node=node)
        ty, _ = I.type_of(c, st)
        if k.tag == "slice":
            return [(Sym("slice", c, k, ty=ty), st)]
        ity = None
        if pycls(ty) is str:
            ity = Py(str)
        elif pycls(ty) in (bytes, bytearray):
            ity = Py(int)
        f = self.pyfault("getitem", st, node)
        return f + [(Sym("item", c, k, ty=ity), st)]

    def sliceish(self, k):
        return k.tag == "slice"

    # ------------------------------------------------------------ iteration

    def iter_protocol(self, it, st, node, is_async):
        I = self.I
        it = I.norm(it, st)
        if not is_async:
            items = self.known_items(it, st)
            if items is not None:
                return [("items", items, st)]
        if it.tag == "ref":
            o = st.get(it.parts[0])
            if o.kind == "gen":
                return [("gen", it, st)]
            if o.kind == "inst" and o.cls.tag == "cls":
                name = "__aiter__" if is_async else "__iter__"
                m = o.cls.parts[0].lookup(name)[0]
                if m is not None:
                    res = []
                    for v, x in I.call(mk("bound", it, m), [], {}, st, node):
                        if isinstance(v, Raise):
                            res.append(("raise", v.exc, x))
                        elif v is it:
                            nm = o.cls.parts[0].lookup("__anext__" if is_async else "__next__")[0]
                            res.append(("abstract", self.nexter(it, nm, node, is_async), x))
                        else:
                            res.extend(self.iter_protocol(v, x, node, is_async))
                    return res
            if o.kind == "inst" and o.cls is Py(range) and all(is_k(a, int) for a in o.f["$args"].parts[0]):
                # a long range: its first element, then any number of others
                st.put(it.parts[0], o.with_f("begun", FALSE))

                def rnext(x):
                    q = x.get(it.parts[0])
                    if q.f["begun"] is FALSE:
                        x.put(it.parts[0], q.with_f("begun", TRUE))
                        return [(K(range(*[kval(a) for a in q.f["$args"].parts[0]])[0]), x)]
                    return [(None, x.fork()), (x.newsym(self.site(node, ":i"), ty=Py(int), exact=True), x)]
                return [("abstract", rnext, st)]
            if o.kind == "inst" and o.cls.tag == "py" and "iter" in o.f:
                return self.iter_protocol(o.f["iter"], st, node, is_async)
            if o.kind in ("list", "set", "dict"):
                # known prefix, then unknown elements
                rest = o.f.get("rest", it)
                pre = [x for x in o.items if not (isinstance(x, Val) and x.tag == "star")]
                return [("abstract", self.prefix_next(it, rest, o.kind, node), st)]
        if it.tag in ("k", "enum", "fn", "bound") or it.tag == "ref" and self.kindof(it, st) in ("coro", "task"):
            return [("raise", I.make_exc(st, TypeError, (), node), st)]
        if it.tag == "sym" and not is_async:
            ty, exact = I.type_of(it, st)
            if pycls(ty) in (int, float, bool) and exact:
                return [("raise", I.make_exc(st, TypeError, (), node), st)]

        def nxt(x):
            outs = []
            name = (self.clsname(it, x) or "iter") + (".__anext__" if is_async else ".__next__")
            if is_async:
                self.ext(name, x, node, [], recv=it)
                pre = I.suspend(x, node, "anext")
            else:
                pre = [(NONE, x)]
            for v, y in pre:
                if isinstance(v, Raise):
                    outs.append((v, y))
                    continue
                outs.extend(self.pyfault(name, y, node))
                z = y.fork()
                if not (I.cfg.data and self.clsname(it, y) == "StreamReader"):
                    I.emit(z, "exhausted", it=it, node=node)
                outs.append((None, z))
                ety = None
                tn = self.clsname(it, y)
                if tn == "StreamReader" and I.cfg.data:
                    outs.pop()
                    for e, w in self.stream_next(it, "StreamReader.__anext__", [], y, node):
                        if e is not None:
                            I.emit(w, "io_done", name="StreamReader.__anext__", recv=it, value=e, args=(), node=node)
                        outs.append((e, w))
                    continue
                if tn == "StreamReader":
                    ety = Py(bytes)
                elif tn == "str":
                    ety = Py(str)
                elif tn in ("bytes", "bytearray"):
                    ety = Py(int)
                e = y.newsym(self.site(node, ":elem"), ty=ety, nonempty=True if tn == "StreamReader" else None)
                I.emit(y, "elem", it=it, value=e, node=node)
                outs.append((e, y))
            return outs
        return [("abstract", nxt, st)]

    def prefix_next(self, it, rest, kind, node):
        I = self.I

        def nxt(x):
            o = x.get(it.parts[0])
            outs = [(None, x.fork())]
            for v in o.items:
                if kind == "dict":
                    v = v[0]
                y = x.fork()
                outs.append((v if v.tag != "star" else Sym("item", v.parts[0], y.newsym(self.site(node))), y))
            outs.append((Sym("item", rest, x.newsym(self.site(node, ":i"))), x))
            return outs
        return nxt

    def nexter(self, it, m, node, is_async):
        I = self.I

        def nxt(x):
            outs = []
            r = I.call(mk("bound", it, m), [], {}, x, node)
            if is_async:
                r = I.bind(r, lambda v, y: I.await_(v, y, node))
            for v, y in r:
                if isinstance(v, Raise):
                    ty, _ = I.type_of(v.exc, y)
                    if pycls(ty) in (StopIteration, StopAsyncIteration):
                        outs.append((None, y))
                    else:
                        outs.append((v, y))
                else:
                    outs.append((v, y))
            return outs
        return nxt

    def collect(self, it, st, node):
        "Materialise a synchronous iterable -> list[(list of items | Sym rest | Raise, st)]"
        I = self.I
        items = self.known_items(it, st)
        if items is not None:
            return [(items, st)]
        if it.tag == "ref" and self.kindof(it, st) == "gen":
            acc = st.alloc(self.site(node, ":acc"), H("list"))
            st.pins += (acc,)
            res = []

            class Fr:
                kind = "module"
            fr = Fr()

            def body(v, x):
                self.append_item(acc, v, x)
                return [(NEXT, x)]
            for flow, x in I.iterate(it, st, fr, body, lambda y: [(NEXT, y)], node):
                x.pins = tuple(p for p in x.pins if p is not acc)
                if flow[0] == "raise":
                    res.append((Raise(flow[1]), x))
                else:
                    k = self.known_items(acc, x)
                    res.append((k if k is not None else acc, x))
            return res
        if it.tag == "ref":
            o = st.get(it.parts[0])
            if o.kind == "inst" and o.cls.tag == "cls" and o.cls.parts[0].lookup("__iter__")[0] is not None:
                res = []
                for v, x in I.call(mk("bound", it, o.cls.parts[0].lookup("__iter__")[0]), [], {}, st, node):
                    if isinstance(v, Raise) or v is it:
                        res.append((v, x))
                    else:
                        res.extend(self.collect(v, x, node))
                return res
        if it.tag in ("k", "enum", "fn", "bound"):
            return self.exc(st, TypeError, "not iterable", node=node)
        return [(it, st)]

    def append_item(self, ref, v, st):
        I = self.I
        o = st.get(ref.parts[0])
        if o.kind == "set":
            st.put(ref.parts[0], o.with_items(uniq(o.items + (v,))))
            return
        if "rest" in o.f:
            return
        if len(o.items) >= I.cfg.list_cap and not self.I.loading:
            st.put(ref.parts[0], H("list", None, {"rest": Sym("many", ref)}, o.items))
            return
        st.put(ref.parts[0], o.with_items(o.items + (v,)))

    # ------------------------------------------------------------ operators

    def binop(self, op, a, b, st, node, inplace=False):
        I = self.I
        a = I.norm(a, st)
        b = I.norm(b, st)
        # user-defined operators
        names = {"Add": "add", "Sub": "sub", "Mult": "mul", "BitOr": "or", "BitAnd": "and", "BitXor": "xor",
                 "RShift": "rshift", "LShift": "lshift", "Mod": "mod", "Div": "truediv", "FloorDiv": "floordiv",
                 "MatMult": "matmul", "Pow": "pow"}
        n = names.get(op, op.lower())
        cand = []
        ca, cb = self.user_cls(a, st), self.user_cls(b, st)
        if ca is not None:
            if inplace:
                m = ca.lookup(f"__i{n}__")[0]
                if m is not None:
                    cand.append((a, m, b))
            m = ca.lookup(f"__{n}__")[0]
            if m is not None:
                cand.append((a, m, b))
        if cb is not None and cb is not ca:
            m = cb.lookup(f"__r{n}__")[0]
            if m is not None:
                cand.append((b, m, a))
        elif cb is not None and ca is cb:
            pass
        if cand:
            live = [st]
            res = []
            for recv, m, other in cand:
                nxt = []
                for s in live:
                    for v, x in I.call(mk("bound", recv, m), [other], {}, s, node):
                        if not isinstance(v, Raise) and v is Py(NotImplemented):
                            nxt.append(x)
                        else:
                            res.append((v, x))
                live = nxt
            for s in live:
                res.extend(self.exc(s, TypeError, "unsupported operand", node=node))
            return res
        if (ca is not None or cb is not None) and op in ("BitOr",) and (ca or cb).kind not in ("enum", "namedtuple"):
            if not (a.tag in ("cls", "py") or b.tag in ("cls", "py")):
                return self.exc(st, TypeError, "unsupported operand", node=node)
        ka = I.enum_int(a) if a.tag in ("enum", "py") else kval(a) if a.tag == "k" else None
        kb = I.enum_int(b) if b.tag in ("enum", "py") else kval(b) if b.tag == "k" else None
        if a.tag in ("k", "enum", "py") and b.tag in ("k", "enum", "py") and ka is not None and kb is not None:
            try:
                import operator
                f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "BitOr": operator.or_,
                     "BitAnd": operator.and_, "BitXor": operator.xor, "RShift": operator.rshift,
                     "LShift": operator.lshift, "Mod": operator.mod, "Div": operator.truediv,
                     "FloorDiv": operator.floordiv, "Pow": operator.pow}[op]
                return [(I.wrap(f(ka, kb)), st)]
            except Exception as ex:
                return self.exc(st, type(ex), node=node)
        if op in ("BitAnd", "BitOr", "BitXor"):
            for x, y in ((a, b), (b, a)):
                if x.tag == "sym" and x.parts[0] in ("ttyattr", "bits"):
                    c = I.enum_int(y) if y.tag in ("enum", "py") else kval(y) if is_k(y, int) else None
                    if c is not None:
                        return [(self.bits(op, x, c), st)]
        if I.cfg.data and op == "Add" and not (inplace and a.tag == "ref"):
            v = self.seq_cat(a, b, st)
            if v is not None:
                if a.tag == "ref" and pycls(st.get(a.parts[0]).cls) is bytearray:
                    v = st.alloc(self.site(node, ":bytearray"), H("inst", Py(bytearray), {"data": v}))
                return [(v, st)]
        # sequences
        if a.tag == "ref" and self.kindof(a, st) == "list" and op == "Add":
            oa = st.get(a.parts[0])
            ib = self.known_items(b, st)
            if inplace:
                return self.list_extend(a, b, st, node)
            if "rest" not in oa.f and ib is not None and b.tag == "ref":
                return [(self.mklist(st, oa.items + tuple(ib), node), st)]
            return [(self.mklist(st, oa.items, node, rest=Sym("cat", a, b)), st)]
        if a.tag == "tup" and op == "Add":
            if b.tag == "tup":
                return [(Tup(a.parts[0] + b.parts[0]), st)]
            ib = self.known_items(b, st)
            if b.tag == "ref" and self.kindof(b, st) == "list":
                return self.exc(st, TypeError, "tuple+list", node=node)
            if ib is None:
                return [(Tup(a.parts[0] + (mk("star", b),)), st)]
        if b.tag == "tup" and op == "Add" and a.tag == "sym":
            return [(Tup((mk("star", a),) + b.parts[0]), st)]
        if a.tag in ("tup",) and op == "Mult" and is_k(b, int):
            return [(Tup(a.parts[0] * kval(b)), st)]
        if a.tag == "ref" and self.kindof(a, st) == "list" and op == "Mult" and is_k(b, int):
            return [(self.mklist(st, st.get(a.parts[0]).items * kval(b), node), st)]
        if op == "BitOr" and (a is Py(os.environ) or self.kindof(a, st) == "dict" and (b is Py(os.environ) or self.dict_items(a, st) is None or self.dict_items(b, st) is None)):
            # dict | dict, os.environ | any mapping
            if a is not Py(os.environ) and b is not Py(os.environ) and self.kindof(b, st) not in ("dict", None):
                return self.exc(st, TypeError, "unsupported operand", node=node)
            res = []
            for (pb, s2) in self.map_parts(b, st, node):
                for (pa, s3) in self.map_parts(a, s2, node):
                    if isinstance(pa, Raise) or isinstance(pb, Raise):
                        res.append((pb if isinstance(pb, Raise) else pa, s3))
                        continue
                    if inplace and a is Py(os.environ):
                        self.ext("os.environ.update", s3, node, [b], {}, recv=a)
                        res.append((a, s3))
                        continue
                    p = self.map_over(pa, pb, s3) if pa is not None and pb is not None else (Sym("merge", a, b), ())
                    if inplace:
                        I.emit(s3, "mutate", obj=a, name="update", args=[b])
                        h = s3.get(a.parts[0])
                        s3.put(a.parts[0], H("dict", None, {**h.f, **({} if p[0] is None else {"rest": p[0]})}, p[1]))
                        res.append((a, s3))
                    else:
                        res.append((self.new_map(s3, node, p), s3))
            return res
        if self.kindof(a, st) == "dict" and op == "BitOr":
            da, db = self.dict_items(a, st), self.dict_items(b, st)
            oa = st.get(a.parts[0])
            if db is not None:
                items = oa.items
                for k, v in db:
                    items = tuple(self.dset(items, k, v, st))
                if inplace:
                    I.emit(st, "mutate", obj=a, name="update", args=[b])
                    st.put(a.parts[0], oa.with_items(items))
                    return [(a, st)]
                return [(st.alloc(self.site(node, ":dict"), H("dict", None, dict(oa.f), tuple(items))), st)]
            return [(st.alloc(self.site(node, ":dict"), H("dict", None, {"rest": Sym("merge", a, b)}, oa.items)), st)]
        if self.kindof(a, st) == "set" and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            ia, ib = self.known_items(a, st), self.known_items(b, st)
            if ia is not None and ib is not None:
                import operator
                r = {"BitOr": lambda: uniq(ia + ib), "BitAnd": lambda: [x for x in ia if x in ib],
                     "Sub": lambda: [x for x in ia if x not in ib],
                     "BitXor": lambda: [x for x in ia if x not in ib] + [x for x in ib if x not in ia]}[op]()
                return [(st.alloc(self.site(node, ":set"), H("set", None, {}, tuple(r))), st)]
        if self.kindof(a, st) == "inst" and pycls(st.get(a.parts[0]).cls) is bytearray and op == "Add" and inplace:
            return self.bytearray_extend(a, b, st, node)
        if op == "Mod" and a.tag == "k" and isinstance(kval(a), (str, bytes)):
            return [(Sym("fmt", (a, b), ty=Py(type(kval(a))), exact=True), st)]
        ta, ea = I.type_of(a, st)
        tb, eb = I.type_of(b, st)
        ty = None
        if pycls(ta) in (int, float, str, bytes, bool, bytearray) or pycls(tb) in (int, float, str, bytes):
            ty = ta if ta is not None and pycls(ta) is not bool else tb
            if pycls(ta) is int and pycls(tb) is float:
                ty = tb
            if ty is not None and ty.tag == "py" and issubclass(pyobj(ty), int) and pyobj(ty) is not int:
                ty = Py(int)
        if a.tag in ("cls", "py") and b.tag in ("cls", "py") and op == "BitOr":
            return [(Sym("generic", a, b, ty=Py(object)), st)]
        if op in ("Add",) and a.tag == "k" and kval(a) in ("", b"") and type(kval(a)) in (str, bytes):
            return [(b, st)]
        if op in ("Add",) and b.tag == "k" and type(kval(b)) in (str, bytes) and kval(b) in ("", b""):
            return [(a, st)]
        if op in ("Add", "Sub") and is_k(b, int) and kval(b) == 0:
            return [(a, st)]
        I.emit(st, "binop", op=op, a=a, b=b, node=node)
        return [(Sym("bin", K(op), a, b, ty=ty, exact=ty is not None), st)]

    def tty_attrs(self, st):
        "Current attributes of the terminal (there is one) as a tuple of 7."
        t = st.mon.get(("$tty",))
        if t is None:
            cc = Tup([Sym("cc", K("tty"), K(i), ty=Py(bytes), exact=True, nonempty=True) for i in range(32)])
            t = Tup([Sym("ttyattr", K(i), ty=Py(int), exact=True) for i in range(6)] + [cc])
        return t

    def tty_list(self, st, node):
        its = list(self.tty_attrs(st).parts[0])
        its[6] = st.alloc(self.site(node, ":cc"), H("list", None, {}, its[6].parts[0]))
        return st.alloc(self.site(node, ":tc"), H("list", None, {}, tuple(its)))

    def tty_set(self, st, its):
        I = self.I
        its = [I.norm(x, st) for x in its]
        cc = self.known_items(its[6], st)
        its[6] = Tup(cc) if cc is not None else its[6]
        st.mon[("$tty",)] = Tup(its)

    @staticmethod
    def bits(op, x, c):
        """A word of flags combined with a constant: which bits are the original ones (`keep`, negated in `flip`), which are set (`ones`);
        the others are clear."""
        W = 0xFFFFFFFF
        c &= W
        if x.parts[0] == "bits":
            base, keep, ones, flip = x.parts[1], *map(kval, x.parts[2:5])
        else:
            base, keep, ones, flip = x, W, 0, 0
        if op == "BitAnd":
            keep, ones, flip = keep & c, ones & c, flip & c
        elif op == "BitOr":
            keep, ones, flip = keep & ~c, ones | c, flip & ~c
        else:
            ones, flip = (ones ^ c) & ~keep & W, (flip ^ c) & keep
        if not keep:
            return K(ones)
        if keep == W and not flip:
            return base
        return Sym("bits", base, K(keep), K(ones), K(flip), ty=Py(int), exact=True)

    @staticmethod
    def bit(v, mask):
        "State of one flag in a word: True, False or ('same'|'not', base)."
        if v.tag == "k":
            return bool(kval(v) & mask)
        if v.tag == "sym" and v.parts[0] == "ttyattr":
            return ("same", v)
        if v.tag == "sym" and v.parts[0] == "bits":
            base, keep, ones, flip = v.parts[1], *map(kval, v.parts[2:5])
            if ones & mask:
                return True
            if not keep & mask:
                return False
            return ("not" if flip & mask else "same", base)
        return None

    def user_cls(self, v, st):
        if v.tag == "ref":
            o = st.get(v.parts[0])
            if o.kind == "inst" and o.cls is not None and o.cls.tag == "cls":
                return o.cls.parts[0]
        if v.tag == "enum":
            return v.parts[0]
        if v.tag == "sym":
            ty, _ = self.I.type_of(v, st)
            if ty is not None and ty.tag == "cls":
                return ty.parts[0]
        return None

    def rich_eq(self, a, b, st, node):
        I = self.I
        a = I.norm(a, st)
        b = I.norm(b, st)
        for x, y in ((a, b), (b, a)):
            c = self.user_cls(x, st)
            if c is not None and x.tag != "enum":
                m = c.lookup("__eq__")[0]
                if m is not None:
                    res = []
                    for v, s in I.call(mk("bound", x, m), [y], {}, st, node):
                        if not isinstance(v, Raise) and v is Py(NotImplemented):
                            res.append((I.eq(x, y, s), s))
                        else:
                            res.append((v, s))
                    return res
            if self.is_fd(x) and not self.is_fd(y):
                iv = I.enum_int(y)
                if iv is not None:
                    return [(FALSE, st)]
        ps = self.eq_pairs(a, b, st)
        if ps is not None:
            # field by field, so that the classes' own __eq__ are used
            outs, todo = [], [(st, False)]
            for x, y in ps:
                nxt = []
                for s, unk in todo:
                    for v, z in self.rich_eq(x, y, s, node):
                        if isinstance(v, Raise) or v is FALSE:
                            outs.append((v, z))
                        else:
                            nxt.append((z, unk or v is not TRUE))
                todo = nxt
            return outs + [(I.eq(a, b, s) if unk else TRUE, s) for s, unk in todo]
        return [(I.eq(a, b, st), st)]

    def eq_pairs(self, a, b, st, depth=0):
        """Pairs whose equality decides that of dataclass instances (or tuples) of
        one shape containing instances with an __eq__ of their own; else None."""
        I = self.I
        if a is b:
            return None
        if a.tag == "tup" and b.tag == "tup" and len(a.parts[0]) == len(b.parts[0]):
            ps = list(zip(a.parts[0], b.parts[0]))
        else:
            c, d = self.user_cls(a, st), self.user_cls(b, st)
            if c is None or c is not d or c.kind not in ("dataclass", "namedtuple") or a.tag != "ref" or b.tag != "ref":
                return None
            p, q = st.get(a.parts[0]), st.get(b.parts[0])
            if p.f.keys() != q.f.keys() or not getattr(c, "eq", True):
                return None
            ps = [(p.f[n], q.f[n]) for n in p.f if n not in getattr(c, "nocompare", ())]
        ps = [(I.norm(x, st), I.norm(y, st)) for x, y in ps]
        for x, y in ps:
            c = self.user_cls(x, st) if x.tag != "enum" else None
            if c is not None and c is self.user_cls(y, st) and x is not y and (
                    c.lookup("__eq__")[0] is not None or depth < 4 and self.eq_pairs(x, y, st, depth + 1) is not None):
                return ps
            if x.tag == "tup" and depth < 4 and self.eq_pairs(x, y, st, depth + 1) is not None:
                return ps
        return None

    def hash_key(self, v, st, node, depth=0):
        "-> outcomes: a value that is the same for values that hash equally"
        I = self.I
        v = I.norm(v, st)
        if v.tag == "tup" and depth < 8:
            outs = [((), st)]
            for x in v.parts[0]:
                nxt = []
                for done, s in outs:
                    if isinstance(done, Raise):
                        nxt.append((done, s))
                        continue
                    for k, z in self.hash_key(x, s, node, depth + 1):
                        nxt.append((k if isinstance(k, Raise) else done + (k,), z))
                outs = nxt
            return [(x if isinstance(x, Raise) else Tup(x), s) for x, s in outs]
        if v.tag == "ref" and depth < 8:
            o = st.get(v.parts[0])
            if o.kind == "set" and o.cls is not None and pycls(o.cls) is frozenset:
                it = self.known_items(v, st)
                if it is not None:
                    return [(k if isinstance(k, Raise) else Sym("unordered", *sorted(set(k.parts[0]), key=repr)), s)
                            for k, s in self.hash_key(Tup(it), st, node, depth + 1)]
            elif o.kind in ("list", "dict", "set"):
                return self.exc(st, TypeError, "unhashable", node=node)
            c = self.user_cls(v, st)
            if c is not None:
                m = c.lookup("__hash__")[0]
                if m is not None:
                    return I.call(mk("bound", v, m), [], {}, st, node)
                if c.kind in ("dataclass", "namedtuple") and getattr(c, "eq", True):
                    return self.hash_key(Tup([o.f[n] for n in sorted(o.f) if n not in getattr(c, "nocompare", ())]), st, node, depth + 1)
        return [(v, st)]

    def order_hook(self, op, a, b, st):
        I = self.I
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[op])):
            if self.is_fd(x) and is_k(y, int) and kval(y) <= 0:
                return [(B(o in ("Gt", "GtE")), st)]
            if I.cfg.data and x.tag == "sym" and y.tag == "sym" and x.parts[0] == "len" and y.parts[0] == "len":
                r = self.len_order(o, x.parts[1], y.parts[1], st)
                if r is not None:
                    return [(B(r), st)]
            if x.tag == "sym" and x.parts[0] == "len" and is_k(y, int):
                # lengths are >= 0
                n = kval(y)
                if o == "GtE" and n <= 0 or o == "Gt" and n < 0:
                    return [(TRUE, st)]
                if o == "Lt" and n <= 0 or o == "LtE" and n < 0:
                    return [(FALSE, st)]
                if o == "Gt" and n == 0 or o == "GtE" and n == 1:
                    return [(b2, s) if isinstance(b2, Raise) else (B(b2), s) for b2, s in I.truth(x.parts[1], st)] if x.parts[1].tag == "sym" else None
                if o == "LtE" and n == 0 or o == "Lt" and n == 1:
                    return [(b2, s) if isinstance(b2, Raise) else (B(not b2), s) for b2, s in I.truth(x.parts[1], st)] if x.parts[1].tag == "sym" else None
        c = self.user_cls(a, st)
        if c is not None and a.tag != "enum":
            nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            m = c.lookup(nm)[0]
            if m is not None:
                return I.call(mk("bound", a, m), [b], {}, st, None)
        return None

    def contains(self, c, x, st, node):
        I = self.I
        c = I.norm(c, st)
        x = I.norm(x, st)
        if c.tag == "ref":
            o = st.get(c.parts[0])
            m = self.method_of(o, "__contains__")
            if m is not None:
                return I.call(mk("bound", c, m), [x], {}, st, node)
            # collections.abc.Mapping.__contains__: by __getitem__
            gi = self.method_of(o, "__getitem__") if o.kind == "inst" and o.cls is not None and o.cls.tag == "cls" else None
            if gi is not None:
                out = []
                for v, s in I.call(mk("bound", c, gi), [x], {}, st, node):
                    if isinstance(v, Raise) and self.clsname(v.exc, s) == "KeyError":
                        out.append((FALSE, s))
                    else:
                        out.append((v, s) if isinstance(v, Raise) else (TRUE, s))
                return out
        if c.tag == "ref" and st.get(c.parts[0]).cls is Py(range):
            a = st.get(c.parts[0]).f["$args"].parts[0]
            if all(is_k(v, int) for v in a):
                r = range(*[kval(v) for v in a])
                if is_k(x, int):
                    return [(B(kval(x) in r), st)]
                # exit codes are 0..255 or a negated signal number
                if x.tag == "sym" and (x.parts[0] == "exitcode" or x.parts[0] == "un" and x.parts[1] is K("USub")) \
                        and all(i in r for i in range(-64, 256)):
                    return [(TRUE, st)]
        if c.tag == "k" and isinstance(kval(c), (str, bytes)):
            if is_k(x) and type(kval(x)) is type(kval(c)):
                return [(B(kval(x) in kval(c)), st)]
            return [(Sym("in", x, c, ty=Py(bool), exact=True), st)]
        items = self.known_items(c, st)
        if items is not None:
            unk = []
            for i in items:
                r = I.eq(x, i, st)
                if r is TRUE:
                    return [(TRUE, st)]
                if r is not FALSE:
                    unk.append(i)
            if not unk:
                return [(FALSE, st)]
            # decide by cases so that equality facts are learnt
            res = []
            live = [st]
            for i in unk:
                nxt = []
                for s in live:
                    for b, s2 in I.truth(I.eq(x, i, s), s):
                        (res if b else nxt).append((TRUE, s2) if b else s2)
                live = nxt
            return res + [(FALSE, s) for s in live]
        return [(Sym("in", x, c, ty=Py(bool), exact=True), st)]

    # ------------------------------------------------------------ conversions to real objects

    def to_real(self, v):
        "-> (obj,) or None"
        if v.tag == "k":
            return (kval(v),)
        if v.tag == "py":
            return (pyobj(v),)
        if v.tag == "tup":
            xs = [self.to_real(x) for x in v.parts[0]]
            if all(xs):
                return (tuple(x[0] for x in xs),)
        if v.tag == "slice":
            s = self.kslice(v)
            return None if s is None else (s,)
        return None

    def py_override(self, module, name):
        return None

    # ------------------------------------------------------------ attributes

    def getattr(self, v, name, st, node):
        I = self.I
        v = I.norm(v, st)
        t = v.tag
        if t == "ref":
            return self.ref_attr(v, name, st, node)
        if t == "sym":
            return self.sym_attr(v, name, st, node)
        if t == "k":
            if hasattr(kval(v), name):
                a = getattr(kval(v), name)
                if callable(a):
                    return [(mk("kmeth", v, name), st)]
                return [(I.wrap(a), st)]
            return self.exc(st, AttributeError, name, node=node)
        if t == "tup":
            if hasattr((), name):
                return [(mk("meth", v, name), st)]
            return self.exc(st, AttributeError, name, node=node)
        if t == "mod":
            m = v.parts[0]
            if name in m.ns:
                return [(m.ns[name], st)]
            if I.module_path(m.name + "." + name):
                if m.name + "." + name in I.modules:
                    return [(mk("mod", I.modules[m.name + "." + name]), st)]
            raise_ = self.exc(st, AttributeError, f"{m.name}.{name}", node=node)
            return raise_
        if t == "py":
            return self.py_attr(v, name, st, node)
        if t == "cls":
            return self.cls_attr(v, name, st, node)
        if t == "enum":
            c = v.parts[0]
            if name in ("name", "_name_"):
                return [(K(v.parts[1]), st)]
            if name in ("value", "_value_"):
                return [(v.parts[2], st)]
            m = c.lookup(name)[0]
            if m is not None:
                return self.bind_attr(v, m, c.val, st, node)
            return [(mk("meth", v, name), st)]
        if t in ("fn", "cmfn"):
            return self.fn_attr(v, name, st, node)
        if t == "bound":
            if name == "__self__":
                return [(v.parts[0], st)]
            if name == "__func__":
                return [(v.parts[1], st)]
            return self.fn_attr(v.parts[1], name, st, node)
        if t == "prop":
            if name == "setter":
                return [(mk("propset", v), st)]
            if name == "getter":
                return [(Py(property), st)]
        if t == "super":
            return self.super_attr(v, name, st, node)
        if t in ("meth", "kmeth") and name in ("__name__", "__qualname__"):
            return [(K(v.parts[1]), st)]
        if t in ("meth", "kmeth") and name == "__self__":
            return [(v.parts[0], st)]
        return [(Sym("attr", v, K(name)), st)]

    def fn_attr(self, v, name, st, node):
        f = v
        while f.tag in ("cmfn", "static", "clsm"):
            f = f.parts[0]
        if f.tag == "fn":
            if name == "__name__":
                return [(K(f.parts[0].name), st)]
            if name == "__qualname__":
                q = f.parts[0].qualname
                return [(K((f.parts[0].cls.qualname + "." + f.parts[0].name) if f.parts[0].cls and "." not in q else q), st)]
            if name == "__module__":
                return [(K(f.parts[0].module.name), st)]
        if name in ("__name__", "__qualname__", "__doc__", "__module__"):
            return [(Sym("attr", v, K(name), ty=Py(str)), st)]
        return [(Sym("attr", v, K(name)), st)]

    def bind_attr(self, v, m, owner, st, node):
        I = self.I
        if m.tag in ("fn", "cmfn"):
            return [(mk("bound", v, m), st)]
        if m.tag == "prop":
            return I.call(mk("bound", v, m.parts[0]), [], {}, st, node)
        if m.tag == "static":
            return [(m.parts[0], st)]
        if m.tag == "clsm":
            ty, _ = I.type_of(v, st) if v.tag != "cls" else (v, True)
            return [(mk("bound", ty, m.parts[0]), st)]
        return [(m, st)]

    def cls_attr(self, v, name, st, node):
        c = v.parts[0]
        m, owner = c.lookup(name)
        if m is not None:
            if m.tag in ("fn", "cmfn"):
                return [(m, st)]
            if m.tag == "static":
                return [(m.parts[0], st)]
            if m.tag == "clsm":
                return [(mk("bound", v, m.parts[0]), st)]
            return [(m, st)]
        if name in ("__name__",):
            return [(K(c.name), st)]
        if name == "__qualname__":
            return [(K(c.qualname), st)]
        if name == "__module__":
            return [(K(c.module.name), st)]
        if name == "__members__" and c.kind == "enum":
            items = tuple((K(k), x) for k, x in c.ns.items() if x.tag == "enum")
            return [(st.alloc(self.site(node, ":members"), H("dict", None, {}, items)), st)]
        if name == "__dataclass_fields__" and c.fields is not None:
            items = tuple((K(f[0]), Sym("dcfieldobj", K(f[0]))) for f in c.fields)
            return [(st.alloc(self.site(node, ":dcf"), H("dict", None, {}, items)), st)]
        if name == "__class__":
            return [(Py(type), st)]
        for b in c.mro():
            if b.tag == "py" and isinstance(pyobj(b), type) and hasattr(pyobj(b), name):
                a = getattr(pyobj(b), name)
                if callable(a):
                    return [(mk("meth", v, name), st)]
                return [(self.I.wrap(a), st)]
        return self.exc(st, AttributeError, name, node=node)

    def super_attr(self, v, name, st, node):
        I = self.I
        cls, obj = v.parts
        ty, _ = I.type_of(obj, st) if obj.tag != "cls" else (obj, True)
        mro = ty.parts[0].mro() if ty is not None and ty.tag == "cls" else []
        i = mro.index(cls) if cls in mro else -1
        for c in mro[i + 1:]:
            if c.tag == "cls":
                if name in c.parts[0].ns:
                    return self.bind_attr(obj, c.parts[0].ns[name], c, st, node)
            elif isinstance(pyobj(c), type) and hasattr(pyobj(c), name):
                return [(mk("meth", mk("superof", obj, c), name), st)]
        if hasattr(object, name):
            return [(mk("meth", mk("superof", obj, Py(object)), name), st)]
        return [(mk("meth", mk("superof", obj, Py(object)), name), st)]

    def ref_attr(self, v, name, st, node):
        I = self.I
        o = st.get(v.parts[0])
        if o.kind == "inst" and o.cls is not None:
            if o.cls.tag == "cls":
                c = o.cls.parts[0]
                m, owner = c.lookup(name)
                if m is not None and m.tag == "prop":
                    return self.bind_attr(v, m, owner, st, node)
                if name in o.f:
                    return [(o.f[name], st)]
                if m is not None:
                    return self.bind_attr(v, m, owner, st, node)
                if name == "__class__":
                    return [(o.cls, st)]
                if name == "__dict__":
                    items = tuple((K(k), x) for k, x in o.f.items() if not k.startswith("$"))
                    return [(st.alloc(self.site(node, ":dict"), H("dict", None, {}, items)), st)]
                if c.kind == "namedtuple" and name in ("_replace", "_asdict", "_fields", "index", "count"):
                    if name == "_fields":
                        return [(Tup([K(f[0]) for f in c.fields]), st)]
                    return [(mk("meth", v, name), st)]
                ga = c.lookup("__getattr__")[0]
                if ga is not None:
                    return I.call(mk("bound", v, ga), [K(name)], {}, st, node)
                for b in c.pybases():
                    if b is not object and hasattr(b, name):
                        a = getattr(b, name)
                        if callable(a) or isinstance(a, property):
                            return [(mk("meth", v, name), st)]
                        return [(Sym("attr", v, K(name)), st)]
                if name in ("__eq__", "__hash__", "__repr__", "__str__", "__init__", "__setattr__", "__reduce__"):
                    return [(mk("meth", v, name), st)]
                if any(b not in (object,) and not issubclass(b, (typing.Generic,)) and b.__module__ not in ("abc", "collections.abc", "typing")
                       for b in c.pybases()):
                    return [(Sym("attr", v, K(name)), st)]
                return self.exc(st, AttributeError, name, node=node)
            h = self.ext_attr(v, o, name, st, node)
            if h is not None:
                return h
            if name in o.f:
                return [(o.f[name], st)]
            pc = pycls(o.cls)
            if name == "__class__":
                return [(o.cls, st)]
            if pc is not None and hasattr(pc, name):
                a = getattr(pc, name)
                if callable(a) and not isinstance(a, property):
                    return [(mk("meth", v, name), st)]
                return [(Sym("attr", v, K(name)), st)]
            if pc is not None and issubclass(pc, BaseException):
                if name == "__traceback__" or name == "__cause__":
                    return [(Sym("attr", v, K(name)), st)]
                if issubclass(pc, OSError):
                    return [(Sym("attr", v, K(name)), st)]
                return self.exc(st, AttributeError, name, node=node)
            return [(mk("meth", v, name) if pc is None else Sym("attr", v, K(name)), st)]
        if o.kind in ("list", "dict", "set"):
            if not hasattr({"list": [], "dict": {}, "set": set()}[o.kind], name):
                return self.exc(st, AttributeError, name, node=node)
            if name == "__class__":
                return [(Py({"list": list, "dict": dict, "set": set}[o.kind]), st)]
        return [(mk("meth", v, name), st)]

    def ext_attr(self, v, o, name, st, node):
        return None

    def sym_attr(self, v, name, st, node):
        I = self.I
        h = self.sym_attr_hook(v, name, st, node)
        if h is not None:
            return h
        ty, exact = I.type_of(v, st)
        if ty is None and v.meta[0] is not None:
            ty = v.meta[0]
            # may be None: attribute access on None raises, which a caller guards by a test
        if name == "__class__":
            return [(ty if ty is not None and exact else Sym("type", v, ty=Py(type)), st)]
        if ty is not None and ty.tag == "cls":
            c = ty.parts[0]
            m, owner = c.lookup(name)
            if m is not None and m.tag in ("fn", "cmfn", "prop", "static", "clsm"):
                return self.bind_attr(v, m, owner, st, node)
            if c.fields and any(f[0] == name for f in c.fields) or name in [a[0] for a in c.ann]:
                return [(Sym("attr", v, K(name)), st)]
            if m is not None:
                return [(m, st)]
            return [(Sym("attr", v, K(name)), st)]
        pc = pycls(ty)
        if pc is not None:
            if hasattr(pc, name):
                a = getattr(pc, name)
                if callable(a) and not isinstance(a, (property, type)):
                    return [(mk("meth", v, name), st)]
                return [(Sym("attr", v, K(name)), st)]
            if pc in (str, bytes, int, float, bool, bytearray, list, tuple, dict, set):
                return self.exc(st, AttributeError, name, node=node)
        return [(Sym("attr", v, K(name)), st)]

    def sym_attr_hook(self, v, name, st, node):
        return None

    def py_attr(self, v, name, st, node):
        I = self.I
        o = pyobj(v)
        if o is sys:
            if name == "platform":
                return [(K(I.cfg.platform), st)]
            if name == "version_info":
                return [(K((3, 12, 3, "final", 0)), st)]
            if name in ("stdin", "stdout", "stderr"):
                return [(Sym("std", K(name), ty=Py(io.TextIOWrapper), exact=True), st)]
        if o is os and name == "environ":
            return [(Py(os.environ), st)]
        if o is os and not hasattr(o, name) and name in ("pidfd_open",):
            return [(mk("extfn", "os." + name), st)]
        import select
        if o is select and name in ("kqueue", "kevent") or o is select and name.startswith("KQ_"):
            return [(mk("extfn", "select." + name), st)]
        try:
            a = getattr(o, name)
        except AttributeError:
            if isinstance(o, type(sys)):
                return [(Sym("missing", v, K(name)), st)]
            return self.exc(st, AttributeError, name, node=node)
        except Exception:
            return [(Sym("attr", v, K(name)), st)]
        if a is o and not isinstance(o, type):
            return [(v, st)]
        if isinstance(o, (type(sys), type)):
            if isinstance(a, (bool, int, float, str, bytes)) and type(a) in (bool, int, float, str, bytes):
                return [(K(a), st)]
            if a is None:
                return [(NONE, st)]
            return [(Py(a), st)]
        # attribute of some real object (enum member, flag, logger, ...)
        if isinstance(a, (bool, int, float, str, bytes)) and type(a) in (bool, int, float, str, bytes):
            return [(K(a), st)]
        if a is None:
            return [(NONE, st)]
        if callable(a) and not isinstance(a, type):
            return [(mk("meth", v, name), st)]
        return [(Py(a), st)]

    def setattr_hook(self, v, o, name, val, st, node):
        return None

    # ------------------------------------------------------------ calls

    def call(self, fn, args, kw, st, node):
        I = self.I
        t = fn.tag
        if t == "py":
            return self.call_py(fn, args, kw, st, node)
        if t == "intr":
            return self.intrinsics[fn.parts[0]](args, kw, st, node)
        if t == "meth":
            return self.call_meth(fn.parts[0], fn.parts[1], args, kw, st, node)
        if t == "kmeth":
            return self.call_kmeth(fn.parts[0], fn.parts[1], args, kw, st, node)
        if t == "partial":
            return I._call(fn.parts[0], list(fn.parts[1]) + args, {**dict(fn.parts[2]), **kw}, st, node)
        if t == "extfn":
            return self.call_ext(fn.parts[0], None, args, kw, st, node)
        if t == "clsm":
            return I._call(fn.parts[0], args, kw, st, node)
        if t == "wrapsdec":
            return [(args[0], st)]
        if t == "dcdec":
            return [(args[0], st)]
        if t == "pyproc":
            return fn.parts[0](args, kw, st, node)
        if t == "ref":
            o = st.get(fn.parts[0])
            m = self.method_of(o, "__call__")
            if m is not None:
                return I._call(mk("bound", fn, m), args, kw, st, node)
            if o.kind == "inst" and o.cls.tag == "py" and "func" in o.f:
                return I._call(o.f["func"], args, kw, st, node)
            return self.exc(st, TypeError, "not callable", node=node)
        if t == "sym":
            return self.call_sym(fn, args, kw, st, node)
        if t in ("k", "tup", "enum", "mod"):
            return self.exc(st, TypeError, "not callable", node=node)
        I.note(f"call of {t} at {I.where()}")
        return [(st.newsym(self.site(node)), st)]

    def call_sym(self, fn, args, kw, st, node):
        I = self.I
        self.ext("callback", st, node, args, kw, recv=fn)
        outs = self.pyfault("callback", st, node)
        nm = show(fn)
        outs += self.pyfault(nm, st, node) if nm != "callback" else []
        return outs + [(st.newsym(self.site(node, ":cb")), st)]

    def call_kmeth(self, v, name, args, kw, st, node):
        I = self.I
        reals = [self.to_real(I.norm(a, st)) for a in args]
        kreals = {k: self.to_real(I.norm(a, st)) for k, a in kw.items()}
        if I.cfg.data and not (all(r is not None for r in reals) and all(r is not None for r in kreals.values())):
            r = self.seq_method(v, name, args, kw, st, node)
            if r is not None:
                return r
        if name == "join" and len(args) == 1 and not all(reals):
            items = self.known_items(args[0], st)
            if items is not None:
                rs = [self.to_real(x) for x in items]
                if all(rs):
                    reals = [([r[0] for r in rs],)]
                else:
                    parts = []
                    for i, x in enumerate(items):
                        if i and kval(v):
                            parts.append(v)
                        parts.append(x)
                    if not parts:
                        return [(K(type(kval(v))()), st)]
                    if len(parts) == 1:
                        return [(parts[0], st)]
                    return [(Sym("fmt", tuple(parts), ty=Py(type(kval(v))), exact=True), st)]
        if all(r is not None for r in reals) and all(r is not None for r in kreals.values()):
            try:
                r = getattr(kval(v), name)(*[x[0] for x in reals], **{k: x[0] for k, x in kreals.items()})
            except Exception as ex:
                return self.exc(st, type(ex), node=node)
            if isinstance(r, list):
                return [(self.mklist(st, [I.wrap(x) for x in r], node), st)]
            if isinstance(r, tuple):
                return [(Tup([I.wrap(x) for x in r]), st)]
            return [(I.wrap(r), st)]
        return self.pure_method(v, name, args, kw, st, node, type(kval(v)))

    def pure_method(self, v, name, args, kw, st, node, pc):
        ty = Py(pc)
        if name in BOOL_M or name.startswith("__") and name in ("__contains__", "__eq__"):
            ty = Py(bool)
        elif name in INT_M or name == "__len__":
            ty = Py(int)
        elif name == "encode":
            ty = Py(bytes)
        elif name in ("decode", "hex"):
            ty = Py(str)
        elif name in ("split", "rsplit", "splitlines"):
            ty = Py(list)
        elif name in ("partition", "rpartition"):
            ty = Py(tuple)
        parts = [K(pc.__name__ + "." + name), v] + list(args) + [Tup([K(k), x]) for k, x in sorted(kw.items())]
        self.ext(pc.__name__ + "." + name, st, node, args, kw, recv=v)
        return self.pyfault(pc.__name__ + "." + name, st, node) + [(Sym("call", *parts, ty=ty, exact=True), st)]

    def call_meth(self, v, name, args, kw, st, node):
        I = self.I
        t = v.tag
        if I.cfg.data and t in ("sym", "ref"):
            r = self.seq_method(v, name, args, kw, st, node)
            if r is not None:
                return r
            if t == "sym":
                ty, _ = I.type_of(v, st)
                if name == "search" and ty is Py(re.Pattern):
                    return self.x_Pattern_search(v, args, kw, st, node)
                if self.is_match(v):
                    r = self.match_method(v, name, args, st)
                    if r is not None:
                        return [(r, st)]
        if t == "superof":
            return self.super_call(v.parts[0], v.parts[1], name, args, kw, st, node)
        if t == "tup":
            if name in ("count", "index"):
                for i, x in enumerate(v.parts[0]):
                    if I.eq(x, args[0], st) is TRUE and name == "index":
                        return [(K(i), st)]
                return [(Sym("call", K("tuple." + name), v, *args, ty=Py(int)), st)]
            if name == "__iter__":
                return [(v, st)]
            return [(Sym("call", K("tuple." + name), v, *args), st)]
        if t == "ref":
            o = st.get(v.parts[0])
            f = getattr(self, f"k_{o.kind}_{name}", None)
            if f is not None:
                return f(v, o, args, kw, st, node)
            if o.kind in ("list", "dict", "set"):
                self.ext(f"{o.kind}.{name}", st, node, args, kw, recv=v)
                I.note(f"unmodelled {o.kind}.{name} at {I.where()}")
                return [(st.newsym(self.site(node)), st)]
            if o.kind == "inst" and o.cls.tag == "cls":
                return self.inst_meth(v, o, name, args, kw, st, node)
            if o.kind == "inst":
                return self.ext_meth(v, pycls(o.cls), name, args, kw, st, node)
            self.ext(f"{o.kind}.{name}", st, node, args, kw, recv=v)
            return [(st.newsym(self.site(node)), st)]
        if t == "sym":
            ty, _ = I.type_of(v, st)
            pc = pycls(ty) or pycls(v.meta[0])
            if pc is None and v.meta[0] is not None and v.meta[0].tag == "cls":
                for b in v.meta[0].parts[0].pybases():
                    if hasattr(b, name):
                        pc = b
                        break
            return self.ext_meth(v, pc, name, args, kw, st, node)
        if t == "py":
            return self.pyobj_meth(v, name, args, kw, st, node)
        if t == "enum":
            r = I.enum_int(v)
            if r is not None and hasattr(r, name):
                return self.call_kmeth(K(r), name, args, kw, st, node)
            return [(Sym("call", K("enum." + name), v, *args), st)]
        if t == "cls":
            return self.cls_meth(v, name, args, kw, st, node)
        self.ext(name, st, node, args, kw, recv=v)
        return [(st.newsym(self.site(node)), st)]

    def cls_meth(self, v, name, args, kw, st, node):
        c = v.parts[0]
        if c.kind == "namedtuple" and name == "_make":
            items = self.known_items(args[0], st)
            if items is not None:
                return self.I.call(v, items, {}, st, node)
        if name in ("__new__",):
            return [(st.alloc(f"obj:{c.module.name}.{c.name}", H("inst", v)), st)]
        return [(Sym("call", K(name), v, *args), st)]

    def inst_meth(self, v, o, name, args, kw, st, node):
        "Method of a python base class called on a repository instance."
        I = self.I
        c = o.cls.parts[0]
        if c.kind == "namedtuple":
            if name == "_replace":
                return [(st.alloc(f"obj:{c.module.name}.{c.name}", o.with_fs(kw)), st)]
            if name == "_asdict":
                return [(st.alloc(self.site(node), H("dict", None, {}, tuple((K(f[0]), o.f[f[0]]) for f in c.fields))), st)]
        if name == "__eq__":
            return [(I.eq(v, args[0], st), st)]
        if name in ("__hash__",):
            return [(Sym("hash", v, ty=Py(int)), st)]
        if name == "__setattr__":
            return I.setattr(v, kval(args[0]), args[1], st, node, force=True)
        for b in c.mro():
            if b.tag == "py" and isinstance(pyobj(b), type) and hasattr(pyobj(b), name):
                return self.super_call(v, b, name, args, kw, st, node)
        self.ext(name, st, node, args, kw, recv=v)
        return [(st.newsym(self.site(node)), st)]

    def super_call(self, obj, base, name, args, kw, st, node):
        I = self.I
        b = pyobj(base)
        if b is object or b in (typing.Generic,):
            if name == "__setattr__":
                return I.setattr(obj, kval(args[0]), args[1], st, node, force=True)
            if name in ("__init__", "__init_subclass__", "__post_init__"):
                return [(NONE, st)]
            if name == "__new__":
                return [(st.alloc("obj:new", H("inst", obj if obj.tag == "cls" else args[0])), st)]
        if issubclass(b, BaseException) and name == "__init__":
            if obj.tag == "ref":
                st.put(obj.parts[0], st.get(obj.parts[0]).with_f("args", Tup(args)))
            return [(NONE, st)]
        # mixin methods of collections.abc.Mapping & co
        if b.__module__ in ("collections.abc", "typing", "abc") and obj.tag == "ref":
            r = self.abc_mixin(obj, name, args, kw, st, node)
            if r is not None:
                return r
        self.ext(f"{b.__name__}.{name}", st, node, args, kw, recv=obj)
        return self.pyfault(f"{b.__name__}.{name}", st, node) + [(st.newsym(self.site(node)), st)]

    def abc_mixin(self, obj, name, args, kw, st, node):
        I = self.I
        o = st.get(obj.parts[0])
        c = o.cls.parts[0]
        if name == "get":
            m = c.lookup("__getitem__")[0]
            out = []
            for v, x in I.call(mk("bound", obj, m), [args[0]], {}, st, node):
                if isinstance(v, Raise) and self.clsname(v.exc, x) == "KeyError":
                    out.append((args[1] if len(args) > 1 else NONE, x))
                else:
                    out.append((v, x))
            return out
        if name in ("keys", "items", "values", "__iter__"):
            m = c.lookup("__iter__")[0]
            out = []
            for v, x in I.call(mk("bound", obj, m), [], {}, st, node):
                if isinstance(v, Raise):
                    out.append((v, x))
                    continue
                items = self.known_items(v, x)
                if items is None:
                    out.append((Sym("call", K("Mapping." + name), obj), x))
                    continue
                if name in ("keys", "__iter__"):
                    out.append((Tup(items), x))
                    continue
                live = [((), x)]
                gi = c.lookup("__getitem__")[0]
                for k in items:
                    nxt = []
                    for acc, y in live:
                        for w, z in I.call(mk("bound", obj, gi), [k], {}, y, node):
                            nxt.append((acc + (Tup([k, w]) if name == "items" else w,), z) if not isinstance(w, Raise) else (acc, z))
                    live = nxt
                out.extend((Tup(acc), y) for acc, y in live)
            return out
        if name == "__contains__":
            m = c.lookup("__getitem__")[0]
            out = []
            for v, x in I.call(mk("bound", obj, m), [args[0]], {}, st, node):
                out.append((FALSE if isinstance(v, Raise) else TRUE, x))
            return out
        return None

    # ------------------------------------------------------------ list / dict / set methods

    def mut(self, v, name, args, st):
        self.I.emit(st, "mutate", obj=v, name=name, args=args)

    def k_list_append(self, v, o, args, kw, st, node):
        self.mut(v, "append", args, st)
        self.append_item(v, args[0], st)
        return [(NONE, st)]

    def list_extend(self, v, other, st, node):
        self.mut(v, "extend", [other], st)
        out = []
        for items, x in self.collect(other, st, node):
            if isinstance(items, Raise):
                out.append((items, x))
                continue
            o = x.get(v.parts[0])
            if isinstance(items, list):
                if "rest" not in o.f:
                    x.put(v.parts[0], o.with_items(o.items + tuple(items)))
            else:
                x.put(v.parts[0], H("list", None, {"rest": Sym("cat", o.f.get("rest", NONE), items)}, o.items))
            out.append((v, x))
        return out

    def k_list_extend(self, v, o, args, kw, st, node):
        return [(r if isinstance(r, Raise) else NONE, x) for r, x in self.list_extend(v, args[0], st, node)]

    def k_list_pop(self, v, o, args, kw, st, node):
        self.mut(v, "pop", args, st)
        idx = args[0] if args else K(-1)
        if "rest" not in o.f:
            if not o.items:
                return self.exc(st, IndexError, node=node)
            i = self.index_of(idx, len(o.items))
            if i is not None:
                st.put(v.parts[0], o.with_items(o.items[:i] + o.items[i + 1:]))
                return [(o.items[i], st)]
        return [(Sym("item", o.f.get("rest", v), st.newsym(self.site(node))), st)]

    def k_list_insert(self, v, o, args, kw, st, node):
        self.mut(v, "insert", args, st)
        L = list(o.items)
        if is_k(args[0], int):
            L.insert(kval(args[0]), args[1])
        else:
            L.append(args[1])
        st.put(v.parts[0], o.with_items(L))
        return [(NONE, st)]

    def k_list_remove(self, v, o, args, kw, st, node):
        self.mut(v, "remove", args, st)
        for i, x in enumerate(o.items):
            if self.I.eq(x, args[0], st) is TRUE:
                st.put(v.parts[0], o.with_items(o.items[:i] + o.items[i + 1:]))
                return [(NONE, st)]
        if "rest" in o.f:
            return [(NONE, st)]
        return self.exc(st, ValueError, node=node)

    def k_list_clear(self, v, o, args, kw, st, node):
        self.mut(v, "clear", args, st)
        st.put(v.parts[0], H(o.kind, None, {k: x for k, x in o.f.items() if k == "default"}))
        return [(NONE, st)]

    k_set_clear = k_dict_clear = k_list_clear

    def k_list_copy(self, v, o, args, kw, st, node):
        return [(st.alloc(self.site(node, ":copy"), H(o.kind, None, dict(o.f), o.items)), st)]

    k_set_copy = k_dict_copy = k_list_copy

    def k_list_reverse(self, v, o, args, kw, st, node):
        self.mut(v, "reverse", args, st)
        st.put(v.parts[0], o.with_items(o.items[::-1]))
        return [(NONE, st)]

    def k_list_sort(self, v, o, args, kw, st, node):
        self.mut(v, "sort", args, st)
        out = []
        for items, x in self.sort_items(list(o.items), kw, st, node):
            if isinstance(items, Raise):
                out.append((items, x))
                continue
            x.put(v.parts[0], x.get(v.parts[0]).with_items(items))
            out.append((NONE, x))
        return out

    def k_list_index(self, v, o, args, kw, st, node):
        for i, x in enumerate(o.items):
            if self.I.eq(x, args[0], st) is TRUE:
                return [(K(i), st)]
        return [(Sym("call", K("list.index"), v, *args, ty=Py(int)), st)]

    def k_list_count(self, v, o, args, kw, st, node):
        return [(Sym("call", K("list.count"), v, *args, ty=Py(int)), st)]

    def k_list___iter__(self, v, o, args, kw, st, node):
        k = self.known_items(v, st)
        return [(Tup(k) if k is not None else v, st)]

    k_dict___iter__ = k_set___iter__ = k_list___iter__

    def k_list___len__(self, v, o, args, kw, st, node):
        return self.len_(v, st)

    k_dict___len__ = k_set___len__ = k_list___len__

    def k_list___getitem__(self, v, o, args, kw, st, node):
        return self.getitem(v, args[0], st, node)

    k_dict___getitem__ = k_list___getitem__

    def k_set_add(self, v, o, args, kw, st, node):
        self.mut(v, "add", args, st)
        self.append_item(v, args[0], st)
        return [(NONE, st)]

    def k_set_discard(self, v, o, args, kw, st, node):
        self.mut(v, "discard", args, st)
        st.put(v.parts[0], o.with_items([x for x in o.items if self.I.eq(x, args[0], st) is not TRUE]))
        return [(NONE, st)]

    def k_set_remove(self, v, o, args, kw, st, node):
        if "rest" not in o.f and not any(self.I.eq(x, args[0], st) is not FALSE for x in o.items):
            return self.exc(st, KeyError, node=node)
        return self.k_set_discard(v, o, args, kw, st, node)

    def k_set_pop(self, v, o, args, kw, st, node):
        self.mut(v, "pop", args, st)
        if not o.items and "rest" not in o.f:
            return self.exc(st, KeyError, node=node)
        out = []
        for i, x in enumerate(o.items):
            s = st.fork()
            s.put(v.parts[0], o.with_items(o.items[:i] + o.items[i + 1:]))
            out.append((x, s))
        return out or [(st.newsym(self.site(node)), st)]

    def k_set_update(self, v, o, args, kw, st, node):
        self.mut(v, "update", args, st)
        for a in args:
            it = self.known_items(a, st)
            oo = st.get(v.parts[0])
            if it is not None:
                st.put(v.parts[0], oo.with_items(uniq(oo.items + tuple(it))))
            else:
                st.put(v.parts[0], H("set", None, {"rest": a}, oo.items))
        return [(NONE, st)]

    def k_dict_get(self, v, o, args, kw, st, node):
        I = self.I
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        res = []
        live = [st]
        for a, b in o.items:
            nxt = []
            for s in live:
                for t, s2 in I.truth(I.eq(a, args[0], s), s):
                    if t:
                        res.append((b, s2))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            if "rest" in o.f:
                s2 = s.fork()
                res.append((Sym("item", o.f["rest"], args[0]), s2))
            res.append((d, s))
        return res

    def k_dict_setdefault(self, v, o, args, kw, st, node):
        d = args[1] if len(args) > 1 else NONE
        out = []
        missing = mk("missing",)
        for r, x in self.k_dict_get(v, o, [args[0], missing], {}, st, node):
            if r is missing:
                self.mut(v, "setdefault", args, x)
                oo = x.get(v.parts[0])
                x.put(v.parts[0], oo.with_items(self.dset(oo.items, args[0], d, x)))
                out.append((d, x))
            else:
                out.append((r, x))
        return out

    def k_dict_pop(self, v, o, args, kw, st, node):
        self.mut(v, "pop", args, st)
        missing = mk("missing",)
        out = []
        for r, x in self.k_dict_get(v, o, [args[0], missing], {}, st, node):
            if r is missing:
                if len(args) > 1:
                    out.append((args[1], x))
                else:
                    out.extend(self.exc(x, KeyError, args[0], node=node))
            else:
                oo = x.get(v.parts[0])
                x.put(v.parts[0], oo.with_items([(a, b) for a, b in oo.items if b is not r or self.I.eq(a, args[0], x) is not TRUE]))
                out.append((r, x))
        return out

    def k_dict_popitem(self, v, o, args, kw, st, node):
        self.mut(v, "popitem", args, st)
        if not o.items:
            return self.exc(st, KeyError, node=node)
        st.put(v.parts[0], o.with_items(o.items[:-1]))
        return [(Tup(o.items[-1]), st)]

    def k_dict_update(self, v, o, args, kw, st, node):
        self.mut(v, "update", args, st)
        outs = []
        live = [st]
        for a in args:
            nxt = []
            for s in live:
                oo = s.get(v.parts[0])
                lst = self.known_items(a, s) if self.kindof(a, s) != "dict" else None
                if lst is not None and all(self.known_items(p, s) is not None and len(self.known_items(p, s)) == 2 for p in lst):
                    parts = [((None, tuple(tuple(self.known_items(p, s)) for p in lst)), s)]
                else:
                    parts = self.map_parts(a, s, node)
                for p, x in parts:
                    if isinstance(p, Raise):
                        outs.append((p, x))
                        continue
                    oo = x.get(v.parts[0])
                    if p is None:
                        x.put(v.parts[0], oo.with_f("rest", Sym("merge", oo.f.get("rest", NONE), a)))
                    else:
                        rest, items = self.map_over((oo.f.get("rest"), oo.items), p, x)
                        h = oo.with_items(items)
                        x.put(v.parts[0], h if rest is None else h.with_f("rest", rest))
                    nxt.append(x)
            live = nxt
        for s in live:
            oo = s.get(v.parts[0])
            items = oo.items
            for k, x in kw.items():
                if k == "**":
                    if x is Py(os.environ) and oo.f.get("rest") in (None, ENVIRON) and not items:
                        oo = oo.with_f("rest", ENVIRON)
                        continue
                    oo = oo.with_f("rest", Sym("merge", oo.f.get("rest", NONE), x))
                else:
                    items = self.dset(items, K(k), x, s)
            s.put(v.parts[0], oo.with_items(items))
            outs.append((NONE, s))
        return outs

    def k_dict_keys(self, v, o, args, kw, st, node):
        if "rest" in o.f:
            return [(Sym("keys", v, o.f["rest"]), st)]
        return [(Tup([k for k, _x in o.items]), st)]

    def k_dict_values(self, v, o, args, kw, st, node):
        if "rest" in o.f:
            return [(Sym("values", v, o.f["rest"]), st)]
        return [(Tup([x for _k, x in o.items]), st)]

    def k_dict_items(self, v, o, args, kw, st, node):
        if "rest" in o.f:
            return [(Sym("items", v, o.f["rest"]), st)]
        return [(Tup([Tup([k, x]) for k, x in o.items]), st)]

    def k_dict___contains__(self, v, o, args, kw, st, node):
        return self.contains(v, args[0], st, node)

    # generators as objects
    def k_gen_close(self, v, o, args, kw, st, node):
        return [(NONE, st)]

    def k_gen_aclose(self, v, o, args, kw, st, node):
        return [(Sym("ready", NONE), st)]

    def k_coro_close(self, v, o, args, kw, st, node):
        self.I.emit(st, "coro_close", coro=v)
        st.put(v.parts[0], o.with_f("done", TRUE))
        return [(NONE, st)]

    def k_coro___await__(self, v, o, args, kw, st, node):
        return [(v, st)]

    def k_coro_send(self, v, o, args, kw, st, node):
        return self.I.await_(v, st, node)

    # ------------------------------------------------------------ python functions

    def call_py(self, fn, args, kw, st, node):
        I = self.I
        o = pyobj(fn)
        h = self.pyf.get(id(o))
        if h is not None:
            return h(args, kw, st, node)
        if isinstance(o, type):
            return self.construct(fn, o, args, kw, st, node)
        name = self.pyname(o)
        if I.loading:
            reals = [self.to_real(a) for a in args]
            if all(r is not None for r in reals) and all(self.to_real(v) is not None for v in kw.values()):
                try:
                    return [(I.wrap(o(*[r[0] for r in reals], **{k: self.to_real(v)[0] for k, v in kw.items()})), st)]
                except Exception:
                    pass
        return self.call_ext(name, o, args, kw, st, node)

    ALIAS = {"posix": "os", "nt": "os", "_io": "io", "builtins": "", "asyncio.tasks": "asyncio", "asyncio.events": "asyncio",
             "asyncio.subprocess": "asyncio", "asyncio.runners": "asyncio", "_asyncio": "asyncio", "posixpath": "os.path",
             "genericpath": "os.path", "asyncio.futures": "asyncio", "asyncio.locks": "asyncio", "asyncio.queues": "asyncio",
             "asyncio.timeouts": "asyncio", "_signal": "signal", "_contextvars": "contextvars", "_thread": "threading"}

    def pyname(self, o):
        m = getattr(o, "__module__", None) or ""
        q = getattr(o, "__qualname__", None) or getattr(o, "__name__", None) or repr(o)
        slf = getattr(o, "__self__", None)
        if slf is not None and isinstance(slf, type(sys)):
            m = slf.__name__
        m = self.ALIAS.get(m, m)
        return f"{m}.{q}" if m else q

    FOLDED = {"abs", "round", "divmod", "ord", "chr", "hex", "oct", "bin", "ascii", "re.escape"}

    PURE_FUNCS = {"os.path.dirname", "os.path.basename", "os.path.join", "os.path.split", "os.path.splitext", "re.escape",
                  "os.path.isabs", "os.path.abspath", "os.path.normpath", "os.fspath", "os.fsencode", "os.fsdecode", "abs", "round", "divmod",
                  "os.waitstatus_to_exitcode", "os.WIFEXITED", "os.WEXITSTATUS", "os.WIFSIGNALED", "os.WTERMSIG", "hash", "id", "ord", "chr",
                  "struct.pack", "_struct.pack", "re.compile", "hex", "format", "signal.Signals", "shlex.quote", "shlex.join", "ascii", "bin", "oct", "pow"}

    def call_ext(self, name, o, args, kw, st, node):
        "Unmodelled external function."
        I = self.I
        self.ext(name, st, node, args, kw)
        outs = self.pyfault(name, st, node)
        if name.startswith("os.path.") and name in self.PURE_FUNCS and not kw and name != "os.path.abspath" and args and all(
                is_k(a, str, bytes) for a in args):
            return outs + [(I.wrap(o(*[kval(a) for a in args])), st)]
        if name in self.FOLDED and args and not kw and all(is_k(a, str, bytes, int, float) for a in args):
            try:
                return outs + [(I.wrap(o(*[kval(a) for a in args])), st)]
            except Exception as ex:
                return outs + I.exc(st, type(ex), node=node)
        if name in self.PURE_FUNCS:
            ty = {"os.path.dirname": str, "os.path.basename": str, "re.escape": str, "hash": int, "id": int,
                  "os.waitstatus_to_exitcode": int, "os.WEXITSTATUS": int, "os.WTERMSIG": int, "os.path.join": str, "re.compile": re.Pattern}.get(name)
            v = Sym("call", K(name), *args, *[Tup([K(k), x]) for k, x in sorted(kw.items()) if isinstance(x, Val)],
                    ty=Py(ty) if ty else None, exact=bool(ty))
        else:
            v = st.newsym(self.site(node, ":" + name))
        return outs + [(v, st)]

    def construct(self, fn, o, args, kw, st, node):
        I = self.I
        if o in (str, bytes, int, float, bool, list, tuple, dict, set, frozenset, bytearray, object, type):
            return self.builtin_type(o, args, kw, st, node)
        if issubclass(o, BaseException):
            return [(I.make_exc(st, fn, args, node), st)]
        if issubclass(o, enum.Enum):
            if is_k(args[0]) if args else False:
                try:
                    return [(Py(o(kval(args[0]))), st)]
                except ValueError:
                    return self.exc(st, ValueError, node=node)
            s2 = st.fork()
            return [(Sym("call", K(o.__name__), *args, ty=fn), st)] + self.exc(s2, ValueError, node=node)
        if o is super:
            return [(mk("super", args[0], args[1]), st)]
        if o in (reversed, enumerate, zip, range, map, filter):
            return self.iter_type(o, args, kw, st, node)
        if o in (property, staticmethod, classmethod):
            return [(mk({property: "prop", staticmethod: "static", classmethod: "clsm"}[o], *(args[:1] + ([NONE] if o is property else []))), st)]
        h = self.ext_new(fn, o, args, kw, st, node)
        if h is not None:
            return h
        name = o.__name__
        self.ext(name, st, node, args, kw)
        f = {k: v for k, v in kw.items() if isinstance(v, Val)}
        f["$args"] = Tup([a for a in args])
        return self.pyfault(name, st, node) + [(st.alloc(self.site(node, ":" + name), H("inst", fn, f)), st)]

    def ext_new(self, fn, o, args, kw, st, node):
        return None

    def iter_type(self, o, args, kw, st, node):
        I = self.I
        if o is range:
            if all(is_k(a, int) for a in args):
                r = range(*[kval(a) for a in args])
                if len(r) <= 32:
                    return [(Tup([K(i) for i in r]), st)]
            return [(st.alloc(self.site(node, ":range"), H("inst", Py(range), {"$args": Tup(args), "iter": Sym("range", *args)})), st)]
        if o in (map, filter):
            live = [((), st)]
            items = self.known_items(args[1], st)
            if items is None or len(args) > 2:
                return [(Sym("call", K(o.__name__), *args), st)]
            out = []
            for x in items:
                nxt = []
                for acc, s in live:
                    fnv = args[0]
                    r = [(x, s)] if fnv is NONE else I.call(fnv, [x], {}, s, node)
                    for v, s2 in r:
                        if isinstance(v, Raise):
                            out.append((v, s2))
                        elif o is map:
                            nxt.append((acc + (v,), s2))
                        else:
                            for b, s3 in I.truth(v, s2):
                                if isinstance(b, Raise):
                                    out.append((b, s3))
                                else:
                                    nxt.append((acc + ((x,) if b else ()), s3))
                live = nxt
            return out + [(Tup(a), s) for a, s in live]
        its = [self.known_items(a, st) for a in args]
        if o is reversed:
            if its[0] is not None:
                return [(self.itobj(st, reversed, its[0][::-1], node), st)]
            return [(Sym("call", K("reversed"), *args), st)]
        if o is enumerate:
            start = kval(args[1]) if len(args) > 1 and is_k(args[1], int) else kval(kw["start"]) if "start" in kw and is_k(kw["start"], int) else 0
            if its[0] is not None:
                return [(self.itobj(st, enumerate, [Tup([K(i + start), x]) for i, x in enumerate(its[0])], node), st)]
            return [(Sym("call", K("enumerate"), *args), st)]
        if o is zip:
            if all(i is not None for i in its):
                return [(self.itobj(st, zip, [Tup(x) for x in zip(*its)], node), st)]
            return [(Sym("call", K("zip"), *args), st)]
        return [(st.newsym(self.site(node)), st)]

    def itobj(self, st, cls, items, node):
        return st.alloc(self.site(node, ":" + cls.__name__), H("inst", Py(cls), {"items": Tup(items)}))

    def builtin_type(self, o, args, kw, st, node):
        I = self.I
        if o is type:
            if len(args) == 1:
                ty, exact = I.type_of(args[0], st)
                if ty is not None and exact:
                    return [(ty, st)]
                return [(Sym("type", args[0], ty=Py(type)), st)]
            return [(st.newsym(self.site(node)), st)]
        if o is object:
            return [(st.alloc(self.site(node, ":object"), H("inst", Py(object))), st)]
        if not args and o in (str, bytes, int, float, bool):
            return [(K(o()), st)]
        a = I.norm(args[0], st) if args else None
        if o is bool:
            return [(b if isinstance(b, Raise) else B(b), s) for b, s in I.truth(a, st)]
        if o in (list, tuple, set, frozenset):
            if a is None:
                return [(Tup(()) if o is tuple else self.mklist(st, (), node, "set" if o in (set, frozenset) else "list"), st)]
            out = []
            for items, x in self.collect(a, st, node):
                if isinstance(items, Raise):
                    out.append((items, x))
                elif isinstance(items, list):
                    if o is tuple:
                        out.append((Tup(items), x))
                    else:
                        r = self.mklist(x, items if o is list else uniq(items), node, "list" if o is list else "set")
                        if o is frozenset:
                            h = x.get(r.parts[0])
                            x.put(r.parts[0], H("set", Py(frozenset), h.f, h.items))
                        out.append((r, x))
                elif o is tuple:
                    if items.tag == "ref":
                        oo = x.get(items.parts[0])
                        pre = tuple(oo.items) if oo.kind == "list" else ()
                        out.append((Tup(pre + (mk("star", oo.f.get("rest", items)),)), x))
                    else:
                        out.append((Tup((mk("star", items),)), x))
                else:
                    pre = ()
                    rest = items
                    if items.tag == "ref" and x.get(items.parts[0]).kind == "list":
                        pre, rest = x.get(items.parts[0]).items, x.get(items.parts[0]).f.get("rest", items)
                    elif items.tag == "tup":
                        pre, rest = (), items
                    out.append((self.mklist(x, pre, node, "list" if o is list else "set", rest=rest), x))
            return out
        if o is dict:
            ref = st.alloc(self.site(node, ":dict"), H("dict"))
            return [(r if isinstance(r, Raise) else ref, x) for r, x in self.k_dict_update(ref, st.get(ref.parts[0]), args, kw, st, node)]
        if o is bytearray:
            self.ext("bytearray", st, node, args, kw)
            d = MANY if I.cfg.coarse else a if a is not None else K(b"")
            if I.cfg.data and self.seqkind(d, st) == "b":
                d = self.seq("b", self.pieces(d, st))
            return [(st.alloc(self.site(node, ":bytearray"), H("inst", Py(bytearray), {"data": d})), st)]
        # scalar conversions
        if I.cfg.data and self.seqkind(a, st) == "b":
            if o is bytes and len(args) == 1:
                return [(self.seq("b", self.pieces(a, st)), st)]
            if o is str and (len(args) > 1 or kw):
                r = self.seq_decode(a, *self.codec_args(args[1:], kw), st, node)
                if r is not None:
                    return r
        if I.cfg.data and self.seqkind(a, st) == "t" and o is str and len(args) == 1:
            return [(a, st)]
        if I.cfg.data and self.seqkind(a, st) == "t" and o is bytes and (len(args) > 1 or kw):
            r = self.seq_encode(a, *self.codec_args(args[1:], kw), st, node)
            if r is not None:
                return r
        if a.tag == "ref" or a.tag == "sym":
            c = self.user_cls(a, st)
            if c is not None:
                for nm in {str: ("__str__", "__repr__"), bytes: ("__bytes__",), int: ("__int__", "__index__"), float: ("__float__",)}[o]:
                    m = c.lookup(nm)[0]
                    if m is not None:
                        return I.call(mk("bound", a, m), [], {}, st, node)
        if a.tag == "k" and len(args) == 1:
            try:
                return [(I.wrap(o(kval(a))), st)]
            except Exception as ex:
                return self.exc(st, type(ex), node=node)
        if a.tag in ("enum",):
            iv = I.enum_int(a)
            if o is int and iv is not None:
                return [(K(int(iv)), st)]
        if a.tag == "py" and o is int and isinstance(pyobj(a), int):
            return [(K(int(pyobj(a))), st)]
        if o in (str, bytes, int, float) and a.tag == "sym" and len(args) == 1:
            ty, exact = I.type_of(a, st)
            if pycls(ty) is o and exact or pycls(ty) is o and o in (bytes,):
                return [(a, st)]
            if o is int and pycls(ty) is int:
                return [(a, st)]
        if o is bytes and a.tag == "ref":
            oo = st.get(a.parts[0])
            if oo.kind == "inst" and pycls(oo.cls) in (bytearray, memoryview):
                d = oo.f.get("data", NONE)
                if d is MANY:
                    return [(MANY, st)]
                if d.tag == "k":
                    return [(K(bytes(kval(d))), st)]
                return [(Sym("call", K("bytes"), a, d, ty=Py(bytes), exact=True), st)]
        self.ext(o.__name__, st, node, args, kw)
        rest = [x for x in args[1:]] + [Tup([K(k), x]) for k, x in sorted(kw.items())]
        f = self.pyfault(o.__name__, st, node)
        return f + [(Sym("call", K(o.__name__), a, *rest, ty=Py(o), exact=True), st)]

    def len_(self, v, st):
        I = self.I
        v = I.norm(v, st)
        items = self.known_items(v, st)
        if items is not None:
            return [(K(len(items)), st)]
        if I.cfg.data and self.seqkind(v, st):
            n = self.seq_len(v, st)
            if n is not None:
                return [(K(n), st)]
        if v.tag == "ref":
            o = st.get(v.parts[0])
            m = self.method_of(o, "__len__")
            if m is not None:
                return I.call(mk("bound", v, m), [], {}, st, None)
            if o.kind == "inst" and pycls(o.cls) is bytearray:
                return [(Sym("len", v, o.f.get("data", NONE), ty=Py(int), exact=True), st)]
        c = self.user_cls(v, st)
        if c is not None:
            m = c.lookup("__len__")[0]
            if m is not None:
                return I.call(mk("bound", v, m), [], {}, st, None)
        return [(Sym("len", v, ty=Py(int), exact=True), st)]

    def sort_items(self, items, kw, st, node, args=()):
        "Insertion sort with forks on unknown comparisons."
        I = self.I
        key = kw.get("key", NONE)
        rev = kw.get("reverse", FALSE)
        live = [((), st)]
        res = []
        for x in items:
            nxt = []
            for acc, s in live:
                r = [(x, s)] if key is NONE else I.call(key, [x], {}, s, node)
                for kx, s2 in r:
                    if isinstance(kx, Raise):
                        res.append((kx, s2))
                        continue
                    nxt.extend(self._insert(acc, (kx, x), s2, node, res))
            live = nxt
        out = [([x for _k, x in acc], s) for acc, s in live]
        if rev is TRUE:
            out = [(l[::-1], s) for l, s in out]
        return res + out

    def _insert(self, acc, ent, st, node, res):
        I = self.I
        # stable: place after all elements that are not greater
        if not acc:
            return [((ent,), st)]
        out = []
        for v, s in I.compare("Lt", ent[0], acc[-1][0], st, node):
            if isinstance(v, Raise):
                res.append((v, s))
                continue
            for b, s2 in I.truth(v, s):
                if isinstance(b, Raise):
                    res.append((b, s2))
                elif b:
                    out.extend((a + (acc[-1],), s3) for a, s3 in self._insert(acc[:-1], ent, s2, node, res))
                else:
                    out.append((acc + (ent,), s2))
        return out

    def min_max(self, is_min, args, kw, st, node):
        I = self.I
        if len(args) == 1:
            items = self.known_items(args[0], st)
            if items is None:
                got = self.collect(args[0], st, node)
                if len(got) == 1 and isinstance(got[0][0], list):
                    items, st = got[0]
                else:
                    return [(Sym("call", K("min" if is_min else "max"), *args), st)]
        else:
            items = list(args)
        if not items:
            if "default" in kw:
                return [(kw["default"], st)]
            return self.exc(st, ValueError, node=node)
        key = kw.get("key", NONE)
        res = []
        live = []

        def keyed(x, s):
            return [(x, s)] if key is NONE else I.call(key, [x], {}, s, node)
        for kx, s in keyed(items[0], st):
            if isinstance(kx, Raise):
                res.append((kx, s))
            else:
                live.append(((kx, items[0]), s))
        for x in items[1:]:
            nxt = []
            for best, s in live:
                for kx, s2 in keyed(x, s):
                    if isinstance(kx, Raise):
                        res.append((kx, s2))
                        continue
                    for v, s3 in I.compare("Lt" if is_min else "Gt", kx, best[0], s2, node):
                        if isinstance(v, Raise):
                            res.append((v, s3))
                            continue
                        for b, s4 in I.truth(v, s3):
                            if isinstance(b, Raise):
                                res.append((b, s4))
                            else:
                                nxt.append(((kx, x) if b else best, s4))
            live = nxt
        return res + [(best[1], s) for best, s in live]
