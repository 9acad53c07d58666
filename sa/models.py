"""Models of asyncio, the operating system interface and the logging library."""

import ast
import asyncio
import asyncio.subprocess
import builtins
import codecs
import collections
import contextlib
import contextvars
import copy as copy_mod
import dataclasses
import enum
import functools
import inspect
import io
import itertools
import logging
import operator
import os
import signal
import sys
import threading
import time
import typing
import warnings

from .core import *
from .interp import dict_set, uniq, pyobj_is
from .pymodel import Base, ENVIRON, MANY, H, pycls, PURE_STR, BOOL_M, INT_M
from .seq import SeqModels
from .threads import ThreadModels

try:
    import pty
    import termios
    import select
except ImportError:
    pty = termios = select = None

CANCEL = asyncio.CancelledError


def I_cfg_depth(m):
    return m.I.cfg.data_depth


class Models(ThreadModels, SeqModels, Base):
    MANY = MANY

    # ------------------------------------------------------------ registration of python functions

    def register(self):
        I = self.I
        reg = self.reg
        self.register_threads()

        @reg(isinstance)
        def _(a, kw, st, node):
            return [(I.isinst(a[0], a[1], st), st)]

        @reg(issubclass)
        def _(a, kw, st, node):
            if a[0].tag in ("py", "cls"):
                cs = a[1].parts[0] if a[1].tag == "tup" else [a[1]]
                return [(B(any(I.subclass(a[0], c) for c in cs)), st)]
            return [(Sym("issubclass", *a, ty=Py(bool), exact=True), st)]

        @reg(len)
        def _(a, kw, st, node):
            return self.len_(a[0], st)

        @reg(callable)
        def _(a, kw, st, node):
            v = I.norm(a[0], st)
            if v.tag in ("fn", "cmfn", "bound", "meth", "kmeth", "cls", "intr", "partial", "pyproc"):
                return [(TRUE, st)]
            if v.tag == "py":
                return [(B(callable(pyobj(v))), st)]
            if v.tag in ("k", "tup", "enum"):
                return [(FALSE, st)]
            if v.tag == "ref":
                o = st.get(v.parts[0])
                return [(B(self.method_of(o, "__call__") is not None or (o.kind == "inst" and o.cls.tag == "py" and hasattr(pyobj(o.cls), "__call__"))), st)]
            ty, ex = I.type_of(v, st)
            if ty is not None and ty.tag == "py":
                if hasattr(pyobj(ty), "__call__") and not isinstance(pyobj(ty).__call__, type(type.__call__)):
                    return [(TRUE, st)]
                if "__call__" in dir(pyobj(ty)) and pyobj(ty) is not object and any("__call__" in k.__dict__ for k in pyobj(ty).__mro__):
                    return [(TRUE, st)]
                if ex:
                    return [(FALSE, st)]
            return [(Sym("callable", v, ty=Py(bool), exact=True), st)]

        @reg(getattr)
        def _(a, kw, st, node):
            if not is_k(a[1], str):
                return [(Sym("getattr", *a), st)]
            out = []
            for v, x in I.getattr(a[0], kval(a[1]), st, node):
                if isinstance(v, Raise) and len(a) > 2 and self.clsname(v.exc, x) == "AttributeError":
                    out.append((a[2], x))
                elif len(a) > 2 and v.tag == "sym" and v.parts[0] in ("missing",):
                    out.append((a[2], x))
                else:
                    out.append((v, x))
            return out

        @reg(hasattr)
        def _(a, kw, st, node):
            nm = kval(a[1])
            v = I.norm(a[0], st)
            if v.tag == "ref":
                o = st.get(v.parts[0])
                if o.kind == "inst" and (nm in o.f or self.method_of(o, nm) is not None):
                    return [(TRUE, st)]
                if o.kind == "inst" and o.cls.tag == "py":
                    if hasattr(pyobj(o.cls), nm):
                        return [(TRUE, st)]
                    return [(Sym("hasattr", v, a[1], ty=Py(bool), exact=True), st)]
                if o.kind == "inst":
                    return [(B(any(hasattr(b, nm) for b in o.cls.parts[0].pybases())), st)]
            if v.tag == "py":
                if pyobj(v) is select and nm in ("kqueue", "epoll"):
                    plat = I.cfg.platform
                    return [(B((nm == "epoll") == plat.startswith("linux")), st)]
                if pyobj(v) is os and nm == "pidfd_open":
                    return [(B(I.cfg.platform.startswith("linux")), st)]
                return [(B(hasattr(pyobj(v), nm)), st)]
            if v.tag == "cls":
                return [(B(v.parts[0].lookup(nm)[0] is not None or any(hasattr(b, nm) for b in v.parts[0].pybases())), st)]
            if v.tag == "k":
                return [(B(hasattr(kval(v), nm)), st)]
            ty, _ = I.type_of(v, st)
            if ty is not None and ty.tag == "py" and hasattr(pyobj(ty), nm):
                return [(TRUE, st)]
            return [(Sym("hasattr", v, a[1], ty=Py(bool), exact=True), st)]

        @reg(setattr)
        def _(a, kw, st, node):
            if is_k(a[1], str):
                return I.setattr(a[0], kval(a[1]), a[2], st, node)
            I.emit(st, "setattr", obj=a[0], name="?", value=a[2])
            if a[0].tag == "ref" and I.frozen(st.get(a[0].parts[0])):
                return self.exc(st, dataclasses.FrozenInstanceError, node=node)
            return [(NONE, st)]

        @reg(delattr)
        def _(a, kw, st, node):
            I.emit(st, "delattr", obj=a[0], name=kval(a[1]))
            if a[0].tag == "ref":
                o = st.get(a[0].parts[0])
                if I.frozen(o):
                    return self.exc(st, dataclasses.FrozenInstanceError, node=node)
                if is_k(a[1], str) and kval(a[1]) in o.f:
                    st.put(a[0].parts[0], o.without_f(kval(a[1])))
            return [(NONE, st)]

        @reg(object.__setattr__)
        def _(a, kw, st, node):
            I.emit(st, "force_setattr", obj=a[0], name=kval(a[1]), value=a[2])
            return I.setattr(a[0], kval(a[1]), a[2], st, node, force=True)

        @reg(typing.cast)
        def _(a, kw, st, node):
            return [(a[1], st)]

        @reg(repr, ascii)
        def _(a, kw, st, node):
            if a[0].tag == "k":
                return [(K(repr(kval(a[0]))), st)]
            return [(Sym("call", K("repr"), a[0], ty=Py(str), exact=True), st)]

        @reg(iter, aiter)
        def _(a, kw, st, node):
            v = a[0]
            if v.tag == "ref":
                o = st.get(v.parts[0])
                m = self.method_of(o, "__iter__") or self.method_of(o, "__aiter__")
                if m is not None:
                    return I.call(mk("bound", v, m), [], {}, st, node)
                items = self.known_items(v, st)
                if items is not None:
                    return [(Tup(items), st)]
            return [(v, st)]

        @reg(next, anext)
        def _(a, kw, st, node):
            items = self.known_items(a[0], st)
            if items is not None:
                if items:
                    return [(items[0], st)]
                return [(a[1], st)] if len(a) > 1 else self.exc(st, StopIteration, node=node)
            if a[0].tag == "ref" and self.kindof(a[0], st) == "gen":
                out = []
                for kind, items, x in [("items", None, st)]:
                    pass
                for r, x in self.collect(a[0], st, node):
                    if isinstance(r, Raise):
                        out.append((r, x))
                    elif isinstance(r, list):
                        if r:
                            out.append((r[0], x))
                        elif len(a) > 1:
                            out.append((a[1], x))
                        else:
                            out.extend(self.exc(x, StopIteration, node=node))
                    else:
                        out.append((Sym("item", r, K(0)), x))
                return out
            outs = [(st.newsym(self.site(node)), st.fork())]
            if len(a) > 1:
                outs.append((a[1], st))
            return outs

        @reg(any, all)
        def _(a, kw, st, node):
            return [(Sym("call", K("anyall"), *a, ty=Py(bool), exact=True), st)]

        def anyall(is_any):
            def f(a, kw, st, node):
                items = self.known_items(a[0], st)
                if items is None:
                    return [(Sym("call", K("any" if is_any else "all"), *a, ty=Py(bool), exact=True), st)]
                live, out = [st], []
                for v in items:
                    nxt = []
                    for s in live:
                        for b, s2 in I.truth(v, s):
                            if isinstance(b, Raise):
                                out.append((b, s2))
                            elif b == is_any:
                                out.append((B(is_any), s2))
                            else:
                                nxt.append(s2)
                    live = nxt
                return out + [(B(not is_any), s) for s in live]
            return f
        self.pyf[id(any)] = anyall(True)
        self.pyf[id(all)] = anyall(False)

        @reg(sorted)
        def _(a, kw, st, node):
            out = []
            for items, x in self.collect(a[0], st, node):
                if isinstance(items, Raise):
                    out.append((items, x))
                elif isinstance(items, list):
                    for l, y in self.sort_items(items, kw, x, node):
                        out.append((l, y) if isinstance(l, Raise) else (self.mklist(y, l, node), y))
                else:
                    out.append((Sym("call", K("sorted"), items, ty=Py(list)), x))
            return out

        self.pyf[id(min)] = lambda a, kw, st, node: self.min_max(True, a, kw, st, node)
        self.pyf[id(max)] = lambda a, kw, st, node: self.min_max(False, a, kw, st, node)

        @reg(sum)
        def _(a, kw, st, node):
            items = self.known_items(a[0], st)
            if items is not None:
                live = [(a[1] if len(a) > 1 else kw.get("start", K(0)), st)]
                for x in items:
                    nxt = []
                    for acc, s in live:
                        nxt.extend(self.binop("Add", acc, x, s, node))
                    live = nxt
                return live
            return [(Sym("call", K("sum"), *a), st)]

        @reg(print)
        def _(a, kw, st, node):
            self.ext("print", st, node, a, kw)
            return [(NONE, st)]

        @reg(codecs.getincrementaldecoder)
        def incdec(args, kw, st, node):
            return [(mk("partial", Py(codecs.IncrementalDecoder), (args[0],), ()), st)]

        @reg(codecs.decode)
        def cdecode(args, kw, st, node):
            r = self.seq_decode(args[0], *self.codec_args(args[1:], kw), st, node) if I.cfg.data else None
            return r or [(Sym("call", K("codecs.decode"), *args, ty=Py(str), exact=True), st)]

        @reg(builtins.open, io.open)
        def _(a, kw, st, node):
            mode = kw.get("mode", a[1] if len(a) > 1 else K("r"))
            if a and self.is_fd(I.norm(a[0], st)):
                return self.pyf[id(os.fdopen)](a, kw, st, node)
            self.ext("open", st, node, a, {**kw, "mode": mode})
            out = self.pyfault("open", st, node)
            v = st.alloc(self.site(node, ":file"), H("inst", Py(io.BufferedWriter if is_k(mode, str) and kval(mode)[:1] in "wa" else io.BufferedReader),
                                                     {"path": a[0] if a else kw.get("file", NONE), "mode": mode}))
            I.emit(st, "opened", fd=v, what="open", node=node)
            return out + [(v, st)]

        @reg(copy_mod.copy)
        def _(a, kw, st, node):
            v = a[0]
            if v.tag == "ref":
                return [(st.alloc(self.site(node, ":copy"), st.get(v.parts[0])), st)]
            return [(v, st)]

        # -- dataclasses / typing / functools / contextlib

        @reg(dataclasses.replace)
        def _(a, kw, st, node):
            v = a[0]
            ty, _ = I.type_of(v, st)
            if v.tag != "ref" or ty is None or ty.tag != "cls":
                if ty is not None and ty.tag == "cls":
                    c = ty.parts[0]
                    f = {}
                    outs = [({}, st)]
                    for n, d, fac, init in c.fields:
                        if init:
                            nxt = []
                            for dd, s in outs:
                                if n in kw:
                                    nxt.append(({**dd, n: kw[n]}, s))
                                else:
                                    for w, s2 in self.getattr(v, n, s, node):
                                        nxt.append(({**dd, n: w}, s2))
                            outs = nxt
                    res = []
                    for dd, s in outs:
                        res.extend(I.call(ty, [], dd, s, node))
                    return res
                self.ext("dataclasses.replace", st, node, a, kw)
                return [(st.newsym(self.site(node)), st)]
            c = ty.parts[0]
            o = st.get(v.parts[0])
            if c.fields is None:
                return self.exc(st, TypeError, "replace", node=node)
            names = [f[0] for f in c.fields if f[3]]
            bad = [k for k in kw if k not in names and k != "**"]
            if bad:
                return self.exc(st, TypeError, f"unexpected {bad}", node=node)
            f = {n: kw[n] if n in kw else o.f.get(n, Sym("attr", v, K(n))) for n in names}
            return I.call(ty, [], f, st, node)

        @reg(dataclasses.dataclass)
        def _(a, kw, st, node):
            if a and a[0].tag == "cls":
                I.make_dataclass(a[0].parts[0], kw)
                return [(a[0], st)]
            return [(mk("dcdec", tuple(sorted(kw.items()))), st)]

        @reg(dataclasses.field)
        def _(a, kw, st, node):
            return [(mk("dcfield", tuple(sorted(kw.items()))), st)]

        @reg(dataclasses.fields)
        def _(a, kw, st, node):
            ty = a[0] if a[0].tag == "cls" else I.type_of(a[0], st)[0]
            if ty is not None and ty.tag == "cls" and ty.parts[0].fields:
                out = []
                for n, d, fac, init in ty.parts[0].fields:
                    out.append(st.alloc(self.site(node, ":field:" + n), H("inst", Py(dataclasses.Field), {"name": K(n), "init": B(init), "default": d or Py(dataclasses.MISSING)})))
                return [(Tup(out), st)]
            return [(Sym("call", K("fields"), *a), st)]

        @reg(enum.auto)
        def _(a, kw, st, node):
            return [(Sym("enumauto", K(0)), st)]

        @reg(functools.wraps)
        def _(a, kw, st, node):
            return [(mk("wrapsdec", a[0]), st)]

        @reg(functools.partial)
        def _(a, kw, st, node):
            return [(mk("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items()))), st)]

        @reg(inspect.iscoroutinefunction, asyncio.iscoroutinefunction)
        def _(a, kw, st, node):
            f = a[0]
            while f.tag in ("bound",):
                f = f.parts[1]
            if f.tag == "fn":
                return [(B(f.parts[0].is_async and not f.parts[0].is_gen), st)]
            return [(Sym("iscorofn", *a, ty=Py(bool), exact=True), st)]

        @reg(inspect.isasyncgenfunction)
        def _(a, kw, st, node):
            f = a[0]
            while f.tag in ("bound",):
                f = f.parts[1]
            if f.tag == "fn":
                return [(B(f.parts[0].is_async and f.parts[0].is_gen), st)]
            return [(Sym("isagenfn", *a, ty=Py(bool), exact=True), st)]

        @reg(inspect.iscoroutine, asyncio.iscoroutine, inspect.isawaitable)
        def _(a, kw, st, node):
            if a[0].tag == "ref":
                return [(B(self.kindof(a[0], st) in ("coro", "task")), st)]
            if a[0].tag == "sym":
                return [(Sym("iscoro", *a, ty=Py(bool), exact=True), st)]
            return [(FALSE, st)]

        @reg(sys.exc_info)
        def _(a, kw, st, node):
            e = st.ctl.get("exc", NONE)
            return [(Tup([NONE, e, NONE]), st)]

        @reg(warnings.warn, warnings.simplefilter, warnings.filterwarnings)
        def _(a, kw, st, node):
            self.ext("warnings.warn", st, node, a, kw)
            return [(NONE, st)]

        @reg(sys.audit)
        def _(a, kw, st, node):
            self.ext("sys.audit", st, node, a, kw)
            return self.pyfault("sys.audit", st, node) + [(NONE, st)]

        @reg(logging.getLogger)
        def _(a, kw, st, node):
            return [(Sym("logger", *a, ty=Py(logging.Logger)), st)]

        @reg(time.perf_counter, time.monotonic, time.time)
        def _(a, kw, st, node):
            return [(st.newsym(self.site(node, ":time"), ty=Py(float)), st)]

        @reg(time.sleep)
        def _(a, kw, st, node):
            self.ext("time.sleep", st, node, a, kw)
            return [(NONE, st)]

        @reg(signal.Signals)
        def _(a, kw, st, node):
            v = I.norm(a[0], st)
            iv = I.enum_int(v)
            if iv is not None:
                try:
                    return [(Py(signal.Signals(iv)), st)]
                except ValueError:
                    return self.exc(st, ValueError, node=node)
            s2 = st.fork()
            return [(Sym("call", K("signal.Signals"), v, ty=Py(signal.Signals), exact=True), st)] + self.exc(s2, ValueError, node=node)

        # -- os

        @reg(os.pipe)
        def _(a, kw, st, node):
            self.ext("os.pipe", st, node)
            out = self.pyfault("os.pipe", st, node)
            p = st.newsym("fd:pipe@" + self.site(node), ty=Py(int), exact=True, nonempty=True)
            r = Sym("fdend", K("r"), p, ty=Py(int), exact=True, nonempty=True)
            w = Sym("fdend", K("w"), p, ty=Py(int), exact=True, nonempty=True)
            self.pipe_pair(r, w)
            I.emit(st, "opened", fd=r, what="pipe_r", node=node, peer=w)
            I.emit(st, "opened", fd=w, what="pipe_w", node=node, peer=r)
            return out + [(Tup([r, w]), st)]

        if pty is not None:
            @reg(pty.openpty, os.openpty)
            def _(a, kw, st, node):
                self.ext("pty.openpty", st, node)
                out = self.pyfault("pty.openpty", st, node)
                r = st.newsym("fd:ptm@" + self.site(node), ty=Py(int), exact=True, nonempty=True)
                w = st.newsym("fd:pts@" + self.site(node), ty=Py(int), exact=True, nonempty=True)
                I.emit(st, "opened", fd=r, what="pty_parent", node=node, peer=w)
                I.emit(st, "opened", fd=w, what="pty_child", node=node, peer=r)
                return out + [(Tup([r, w]), st)]

        @reg(os.open)
        def _(a, kw, st, node):
            self.ext("os.open", st, node, a, kw)
            out = self.pyfault("os.open", st, node)
            r = st.newsym("fd:open@" + self.site(node), ty=Py(int), exact=True, nonempty=True)
            I.emit(st, "opened", fd=r, what="os.open", node=node)
            return out + [(r, st)]

        @reg(os.dup)
        def _(a, kw, st, node):
            self.ext("os.dup", st, node, a, kw)
            r = st.newsym("fd:dup@" + self.site(node), ty=Py(int), exact=True, nonempty=True)
            I.emit(st, "opened", fd=r, what="os.dup", node=node)
            return [(r, st)]

        @reg(os.close)
        def _(a, kw, st, node):
            self.ext("os.close", st, node, a, kw)
            I.emit(st, "closed", fd=I.norm(a[0], st), how="os.close", node=node)
            if I.cfg.threads:
                self.fd_closed(I.norm(a[0], st), st)
            return self.pyfault("os.close", st, node) + [(NONE, st)]

        @reg(codecs.getincrementaldecoder)
        def incdec(args, kw, st, node):
            return [(mk("partial", Py(codecs.IncrementalDecoder), (args[0],), ()), st)]

        @reg(codecs.decode)
        def cdecode(args, kw, st, node):
            r = self.seq_decode(args[0], *self.codec_args(args[1:], kw), st, node) if I.cfg.data else None
            return r or [(Sym("call", K("codecs.decode"), *args, ty=Py(str), exact=True), st)]

        @reg(os.fdopen)
        def _(a, kw, st, node):
            self.ext("os.fdopen", st, node, a, kw)
            out = self.pyfault("os.fdopen", st, node)
            cf = kw.get("closefd", TRUE)
            f = st.alloc(self.site(node, ":fdopen"), H("inst", Py(io.FileIO), {"fd": a[0], "closefd": cf, "mode": a[1] if len(a) > 1 else K("r")}))
            I.emit(st, "fdopen", file=f, fd=a[0], owns=cf is not FALSE, node=node)
            return out + [(f, st)]

        @reg(os.waitpid)
        def _(a, kw, st, node):
            self.ext("os.waitpid", st, node, a, kw)
            if I.cfg.threads:
                return self.thread_waitpid(a, kw, st, node)
            pid = a[0]
            out = []
            flags = I.norm(a[1], st) if len(a) > 1 else kw.get("options", K(0))
            I.emit(st, "waitpid", pid=pid, block=is_k(flags, int) and kval(flags) == 0, thread=None, node=node)
            if I.cfg.lost_wait_pid:
                s = st.fork()
                self.set_exited(pid, s, lost=True)
                I.emit(s, "wait_lost", pid=pid, node=node)
                out.extend(self.exc(s, ChildProcessError, node=node))
            if not (is_k(flags, int) and kval(flags) == 0):
                s = st.fork()
                s.event(f"{I.where()}: waitpid: still running")
                I.emit(s, "still_running", pid=pid, node=node)
                out.append((Tup([K(0), K(0)]), s))
            self.set_exited(pid, st)
            I.emit(st, "reaped", pid=pid, node=node)
            out.append((Tup([pid, Sym("waitstatus", pid, ty=Py(int), exact=True)]), st))
            return out

        @reg(os.waitstatus_to_exitcode)
        def _(a, kw, st, node):
            self.ext("os.waitstatus_to_exitcode", st, node, a, kw)
            out = self.pyfault("os.waitstatus_to_exitcode", st, node)
            return out + [(Sym("call", K("os.waitstatus_to_exitcode"), *a, ty=Py(int), exact=True), st)]

        @reg(os.kill)
        def _(a, kw, st, node):
            self.ext("os.kill", st, node, a, kw)
            return self.pyfault("os.kill", st, node) + [(NONE, st)]

        @reg(os.path.exists)
        def _(a, kw, st, node):
            self.ext("os.path.exists", st, node, a, kw)
            return [(st.newsym(self.site(node), ty=Py(bool), exact=True), st)]

        @reg(os.ttyname)
        def _(a, kw, st, node):
            self.ext("os.ttyname", st, node, a, kw)
            return self.pyfault("os.ttyname", st, node) + [(Sym("call", K("os.ttyname"), *a, ty=Py(str), exact=True, nonempty=True), st)]

        if termios is not None:
            @reg(termios.tcgetattr)
            def _(a, kw, st, node):
                self.ext("termios.tcgetattr", st, node, a, kw)
                out = self.pyfault("termios.tcgetattr", st, node)
                if I.cfg.__dict__.get("terminal"):
                    return out + [(self.tty_list(st, node), st)]
                if I.cfg.data == "chunks":
                    s = st.newsym(self.site(node, ":attrs"))
                    cc = st.alloc(self.site(node, ":cc"), H("list", None, {}, tuple(Sym("cc", s, K(i), ty=Py(bytes), exact=True, nonempty=True) for i in range(32))))
                    l = st.alloc(self.site(node, ":tc"), H("list", None, {"fd": a[0]}, tuple(Sym("item", s, K(i), ty=Py(int)) for i in range(6)) + (cc,)))
                    I.emit(st, "tcattr", fd=a[0], flags=Sym("item", s, K(3), ty=Py(int)))
                    return out + [(l, st)]
                s = st.newsym(self.site(node, ":attrs"))
                l = st.alloc(self.site(node, ":tc"), H("list", None, {"fd": a[0]}, tuple(Sym("item", s, K(i), ty=Py(int) if i < 6 else None) for i in range(7))))
                I.emit(st, "tcattr", fd=a[0], flags=Sym("item", s, K(3), ty=Py(int)))
                return out + [(l, st)]

            @reg(termios.tcsetattr)
            def _(a, kw, st, node):
                self.ext("termios.tcsetattr", st, node, a, kw)
                out = self.pyfault("termios.tcsetattr", st, node)
                its = self.known_items(I.norm(a[2], st), st)
                if I.cfg.__dict__.get("terminal") and its is not None and len(its) == 7:
                    self.tty_set(st, its)
                return out + [(NONE, st)]

            import tty as tty_
            for fn, off in ((tty_.setraw, {0: 0x5F0, 1: termios.OPOST, 3: termios.ECHO | termios.ICANON | termios.IEXTEN | termios.ISIG | termios.ECHONL}),
                            (tty_.setcbreak, {0: termios.ICRNL, 3: termios.ECHO | termios.ICANON})):
                def setmode(a, kw, st, node, fn=fn, off=off):
                    self.ext("tty." + fn.__name__, st, node, a, kw)
                    out = self.pyfault("tty." + fn.__name__, st, node)
                    if not I.cfg.__dict__.get("terminal"):
                        s = st.newsym(self.site(node, ":attrs"))
                        return out + [(s, st)]
                    old = self.tty_list(st, node)
                    its = list(st.get(old.parts[0]).items)
                    for i, c in off.items():
                        its[i] = self.bits("BitAnd", its[i], ~c) if its[i].tag == "sym" else K(kval(its[i]) & ~c)
                    its[2] = Sym("ttyattr", K(2), K(fn.__name__), ty=Py(int), exact=True)
                    self.tty_set(st, its)
                    return out + [(old, st)]
                reg(fn)(setmode)

        # -- shutil.which
        import shutil

        @reg(shutil.which)
        def _(a, kw, st, node):
            self.ext("shutil.which", st, node, a, kw)
            s = st.fork()
            s.event(f"{I.where()}: program not found")
            path = Sym("which", *a, ty=Py(str), exact=True, nonempty=True)
            if I.cfg.__dict__.get("which_found"):
                return [(path, st)]
            I.emit(st, "which", name=a[0], found=path)
            I.emit(s, "which", name=a[0], found=NONE)
            return [(path, st), (NONE, s)]

        @reg(hash)
        def _(a, kw, st, node):
            return I.bind(self.hash_key(a[0], st, node), lambda v, s: [(Sym("call", K("hash"), v, ty=Py(int), exact=True), s)])

        # -- asyncio

        @reg(asyncio.current_task)
        def _(a, kw, st, node):
            t = st.ctl.get("task", NONE)
            return [(t if t is not NONE else self.main_task(), st)]

        @reg(asyncio.get_running_loop, asyncio.get_event_loop, asyncio.new_event_loop)
        def _(a, kw, st, node):
            return [(self.loop_obj(), st)]

        @reg(asyncio.create_task, asyncio.ensure_future)
        def _(a, kw, st, node):
            if st.ctl.get("thread") not in (None, NONE):
                return self.exc(st, RuntimeError, node=node)    # no running event loop
            if "name" in kw:
                I.emit(st, "task_name", name=kw["name"], node=node)
            return self.create_task(a[0] if a else kw["coro"], st, node)

        @reg(asyncio.wait)
        def _(a, kw, st, node):
            self.ext("asyncio.wait", st, node, a, kw)
            fs = a[0] if a else kw["fs"]
            return [(mk("aw", "wait", fs, kw.get("timeout", NONE), kw.get("return_when", K("ALL_COMPLETED"))), st)]

        @reg(asyncio.wait_for)
        def _(a, kw, st, node):
            self.ext("asyncio.wait_for", st, node, a, kw)
            fut = a[0] if a else kw["fut"]
            return self.as_future(fut, st, node, lambda t, x: [(mk("aw", "wait_for", t, a[1] if len(a) > 1 else kw.get("timeout", NONE)), x)])

        @reg(asyncio.shield)
        def _(a, kw, st, node):
            self.ext("asyncio.shield", st, node, a, kw)
            return self.as_future(a[0], st, node, lambda t, x: [(mk("aw", "shield", t), x)])

        @reg(asyncio.gather)
        def _(a, kw, st, node):
            self.ext("asyncio.gather", st, node, a, kw)
            live = [((), st)]
            for x in a:
                nxt = []
                for acc, s in live:
                    nxt.extend(self.as_future(x, s, node, lambda t, y, acc=acc: [(acc + (t,), y)]))
                live = nxt
            return [(mk("aw", "gather", Tup(acc), kw.get("return_exceptions", FALSE)), s) for acc, s in live]

        @reg(asyncio.sleep)
        def _(a, kw, st, node):
            self.ext("asyncio.sleep", st, node, a, kw)
            return [(mk("aw", "sleep", a[0] if a else kw.get("delay", K(0))), st)]

        @reg(asyncio.create_subprocess_exec)
        def _(a, kw, st, node):
            return [(mk("aw", "exec", Tup(a), tuple(sorted(kw.items()))), st)]

        @reg(asyncio.create_subprocess_shell)
        def _(a, kw, st, node):
            self.ext("asyncio.create_subprocess_shell", st, node, a, kw)
            return [(mk("aw", "exec", Tup(a), tuple(sorted(kw.items()))), st)]

        @reg(asyncio.timeout, asyncio.timeout_at)
        def _(a, kw, st, node):
            self.ext("asyncio.timeout", st, node, a, kw)
            return [(st.alloc(self.site(node, ":timeout"), H("inst", Py(asyncio.Timeout), {"when": a[0] if a else kw.get("delay", NONE)})), st)]

        @reg(asyncio.get_child_watcher)
        def _(a, kw, st, node):
            self.ext("asyncio.get_child_watcher", st, node)
            return [(Sym("child_watcher", K(0)), st)]

        @reg(asyncio.to_thread)
        def _(a, kw, st, node):
            self.ext("asyncio.to_thread", st, node, a, kw)
            return [(mk("aw", "opaque", K("to_thread")), st)]

        @reg(asyncio.Future)
        def _(a, kw, st, node):
            return [(self.new_future(st, node), st)]

        # -- operator
        @reg(operator.or_)
        def _(a, kw, st, node):
            return self.binop("BitOr", a[0], a[1], st, node)

        @reg(functools.reduce)
        def _(a, kw, st, node):
            items = self.known_items(a[1], st)
            if items is None:
                return [(st.newsym(self.site(node)), st)]
            if len(a) > 2:
                items = [a[2]] + items
            live = [(items[0], st)]
            for x in items[1:]:
                nxt = []
                for acc, s in live:
                    nxt.append((acc, s)) if isinstance(acc, Raise) else nxt.extend(I.call(a[0], [acc, x], {}, s, node))
                live = nxt
            return live

        @reg(itertools.chain)
        def _(a, kw, st, node):
            its = [self.known_items(x, st) for x in a]
            if all(i is not None for i in its):
                return [(Tup([y for i in its for y in i]), st)]
            return [(Sym("call", K("chain"), *a), st)]

        @reg(itertools.chain.from_iterable)
        def _(a, kw, st, node):
            o = self.known_items(a[0], st)
            if o is not None:
                its = [self.known_items(x, st) for x in o]
                if all(i is not None for i in its):
                    return [(Tup([y for i in its for y in i]), st)]
            return [(Sym("call", K("chain"), *a), st)]

        if hasattr(itertools, "pairwise"):
            @reg(itertools.pairwise)
            def _(a, kw, st, node):
                i = self.known_items(a[0], st)
                if i is not None:
                    return [(Tup([Tup(p) for p in zip(i, i[1:])]), st)]
                return [(Sym("call", K("pairwise"), *a), st)]

        if hasattr(select, "epoll"):
            @reg(select.epoll)
            def _(a, kw, st, node):
                self.ext("select.epoll", st, node)
                r = st.alloc(self.site(node, ":epoll"), H("inst", Py(select.epoll)))
                I.emit(st, "opened", fd=r, what="epoll", node=node)
                return self.pyfault("select.epoll", st, node) + [(r, st)]

        if hasattr(os, "pidfd_open"):
            @reg(os.pidfd_open)
            def _(a, kw, st, node):
                self.ext("os.pidfd_open", st, node, a, kw)
                out = self.pyfault("os.pidfd_open", st, node)
                r = st.newsym("fd:pidfd@" + self.site(node), ty=Py(int), exact=True, nonempty=True)
                I.emit(st, "opened", fd=r, what="pidfd", node=node)
                if I.cfg.threads:
                    self.tset(st, "pidfds", r, I.norm(a[0], st))
                return out + [(r, st)]

        for cls in (contextlib.suppress, contextlib.ExitStack, contextlib.AsyncExitStack, contextlib.closing, contextlib.nullcontext):
            pass

    _pairs = {}

    def pipe_pair(self, r, w):
        self._pairs[r] = w
        self._pairs[w] = r

    # ------------------------------------------------------------ constructors of external classes

    def ext_new(self, fn, o, args, kw, st, node):
        I = self.I
        if o is contextvars.ContextVar:
            f = {"name": args[0] if args else NONE}
            if "default" in kw:
                f["default"] = kw["default"]
            return [(st.alloc("ctxvar:" + self.site(node), H("inst", fn, f)), st)]
        if o is collections.defaultdict:
            return [(st.alloc(self.site(node, ":defaultdict"), H("dict", None, {"default": args[0]} if args and args[0] is not NONE else {})), st)]
        if o is collections.OrderedDict:
            return self.builtin_type(dict, args, kw, st, node)
        if o is collections.deque:
            return self.builtin_type(list, args, kw, st, node)
        if o is typing.TypeVar or o.__module__ == "typing":
            return [(Sym("typing", K(o.__name__), *args, ty=Py(object)), st)]
        if o in (io.BytesIO, io.StringIO):
            d = args[0] if args else K(b"" if o is io.BytesIO else "")
            self.ext(o.__name__, st, node, args, kw)
            f = {"data": d}
            if self.I.cfg.data:
                d = self.I.norm(d, st)
                f = {"data": self.seq("b", self.pieces(d, st)) if self.seqkind(d, st) == "b" else d, "pos": K("start")}
            return [(st.alloc(self.site(node, ":" + o.__name__), H("inst", fn, f)), st)]
        if o is codecs.IncrementalDecoder:
            return self.new_decoder(args[0] if args else K("utf-8"), args[1] if len(args) > 1 else kw.get("errors", K("strict")), st, node)
        if o is io.IncrementalNewlineDecoder and args:
            return [(st.alloc(self.site(node, ":nldecoder"), H("inst", fn, {"inner": args[0]})), st)]
        if o is memoryview and self.I.cfg.data and self.seqkind(args[0], st) == "b":
            return [(self.seq("b", self.pieces(args[0], st)), st)]
        if o is memoryview and args and is_k(args[0], bytes):
            return [(st.alloc(self.site(node, ":memoryview"), H("inst", fn, {"data": args[0]})), st)]
        if o is functools.partial:
            return [(mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items()))), st)]
        if o is asyncio.Timeout or o.__name__ == "Timeout":
            return None
        if o is asyncio.StreamWriter:
            self.ext("StreamWriter", st, node, args, kw)
            return [(st.alloc(self.site(node, ":StreamWriter"), H("inst", fn, {"transport": args[0] if args else kw.get("transport", NONE)})), st)]
        if o in (io.FileIO, io.BufferedReader, io.BufferedWriter) and args and self.is_fd(self.I.norm(args[0], st)):
            return self.pyf[id(os.fdopen)](args, kw, st, node)
        if o is asyncio.Future:
            return [(self.new_future(st, node), st)]
        if o is asyncio.Task:
            return self.create_task(args[0] if args else kw["coro"], st, node)
        if o is contextlib.suppress:
            return [(mk("ctx", "suppress", Tup(args)), st)]
        if o in (contextlib.closing,):
            return [(mk("ctx", "closing", args[0]), st)]
        if o is contextlib.nullcontext:
            return [(mk("ctx", "null", args[0] if args else NONE), st)]
        if o in (contextlib.ExitStack, contextlib.AsyncExitStack):
            return [(st.alloc(self.site(node, ":ExitStack"), H("inst", fn, {"cbs": Tup(())})), st)]
        if o is itertools.chain:
            return self.pyf[id(itertools.chain)](args, kw, st, node)
        if o is threading.Thread:
            return self.new_thread(args, kw, st, node)
        if o is threading.Lock or o.__name__ in ("lock", "RLock"):
            return [(st.alloc(self.site(node, ":lock"), H("inst", fn, {})), st)]
        if o is warnings.catch_warnings:
            return [(mk("ctx", "null", NONE), st)]
        from pathlib import PurePath
        if issubclass(o, PurePath):
            return [(Sym("call", K(o.__name__), *args, ty=fn), st)]
        return None

    def enum_call(self, ci, args, st, node):
        I = self.I
        v = I.norm(args[0], st)
        if v.tag == "enum" and v.parts[0] is ci:
            return [(v, st)]
        out, live = [], [st]
        for m in [x for x in ci.ns.values() if x.tag == "enum"]:
            nxt = []
            for s in live:
                for b, s2 in I.truth(I.eq(v, m.parts[2], s), s):
                    if b:
                        out.append((m, s2))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            out.extend(self.exc(s, ValueError, node=node))
        return out

    def instantiate_hook(self, cv, args, kw, st, node):
        return None

    # ------------------------------------------------------------ real python objects' methods

    def pyobj_meth(self, v, name, args, kw, st, node):
        I = self.I
        o = pyobj(v)
        if o is os.environ:
            if I.loading and name == "get":
                if args and kval(args[0]) == "SHELLOUS_TRACE" and I.cfg.trace:
                    return [(K(I.cfg.trace), st)]
                return [(args[1] if len(args) > 1 else NONE, st)]
            if name == "get":
                return [(Sym("environ", args[0], ty=Py(str), exact=True, opt=True), st)]
            if name in ("copy",):
                return [(st.alloc(self.site(node, ":environ"), H("dict", None, {"rest": ENVIRON})), st)]
            if name in ("items", "keys", "values"):
                return [(Sym("environ_all", K(name)), st)]
            if name in ("__getitem__", "__contains__", "__len__", "__iter__"):
                return [(Sym("environ_all", K(name), *args), st)]
            self.ext("os.environ." + name, st, node, args, kw, recv=v)
            return [(NONE, st)]
        reals = [self.to_real(a) for a in args]
        if all(r is not None for r in reals) and not kw and isinstance(o, (enum.Enum, int, str)):
            try:
                return [(I.wrap(getattr(o, name)(*[r[0] for r in reals])), st)]
            except Exception as ex:
                return self.exc(st, type(ex), node=node)
        nm = type(o).__name__ + "." + name
        self.ext(nm, st, node, args, kw, recv=v)
        return self.pyfault(nm, st, node) + [(st.newsym(self.site(node)), st)]

    # ------------------------------------------------------------ external objects

    def main_task(self):
        return Sym("main_task", K(0), ty=Py(asyncio.Task), exact=True, nonempty=True)

    def loop_obj(self):
        return Sym("loop", K(0), ty=Py(asyncio.AbstractEventLoop), nonempty=True)

    def new_future(self, st, node):
        r = st.alloc("future@" + self.site(node), H("inst", Py(asyncio.Future), {"state": K("pending")}))
        return r

    def set_exited(self, pid, st, lost=False):
        for oid, h in list(st.heap.items()):
            if h.kind == "inst" and h.cls is not None and pycls(h.cls) is asyncio.subprocess.Process and h.f.get("pid") is pid:
                if h.f["status"] is not K("exited"):
                    st.put(oid, h.with_f("status", K("exited")))

    def ext_attr(self, v, o, name, st, node):
        pc = pycls(o.cls)
        I = self.I
        if pc is asyncio.subprocess.Process:
            if name == "returncode":
                s = o.f["status"]
                oid = v.parts[0]
                if s is K("exited"):
                    return [(self.exit_code(v), st)]
                if s is K("running"):
                    return [(NONE, st)]
                s2 = st.fork()
                st.put(oid, o.with_f("status", K("exited")))
                s2.put(oid, o.with_f("status", K("running")))
                return [(self.exit_code(v), st), (NONE, s2)]
            if name in ("stdin", "stdout", "stderr", "pid"):
                return [(o.f[name], st)]
            if name == "_transport":
                return [(Sym("transport", v, ty=Py(asyncio.SubprocessTransport), nonempty=True), st)]
        if pc is asyncio.Timeout and name == "when":
            return [(mk("meth", v, name), st)]
        if isinstance(pc, type) and issubclass(pc, OSError) and name == "errno":
            return [(o.f["errno"] if "errno" in o.f else Sym("errno", v, ty=Py(int), exact=True), st)]
        if isinstance(pc, type) and issubclass(pc, BaseException) and name == "args" and "args" in o.f:
            return [(o.f["args"], st)]
        return None

    def exit_code(self, proc):
        return Sym("exitcode", proc, ty=Py(int), exact=True)

    def sym_attr_hook(self, v, name, st, node):
        return None

    def setattr_hook(self, v, o, name, val, st, node):
        # proc._transport._returncode = status (manual reaping)
        if v.tag == "sym" and "transport" in show(v):
            self.I.emit(st, "reap_noted", obj=v, name=name, value=self.I.norm(val, st), node=node)
            return [(NONE, st)]
        return None

    def ext_meth(self, v, pc, name, args, kw, st, node):
        "Method of an object of an external class."
        I = self.I
        if pc is not None:
            for c in pc.__mro__:
                f = getattr(self, f"x_{c.__name__}_{name}", None)
                if f is not None:
                    return f(v, args, kw, st, node)
        if pc in (str, bytes) or pc is int or pc is float:
            return self.pure_method(v, name, args, kw, st, node, pc)
        if pc is bytearray and name in PURE_STR:
            return self.pure_method(v, name, args, kw, st, node, pc)
        if pc is list and v.tag == "sym":
            self.ext("list." + name, st, node, args, kw, recv=v)
            return [(st.newsym(self.site(node)), st)]
        nm = (pc.__name__ if pc else "?") + "." + name
        if pc is not None and issubclass(pc, logging.Logger):
            return self.log_call(v, name, args, kw, st, node)
        self.ext(nm, st, node, args, kw, recv=v)
        outs = self.pyfault(nm, st, node)
        import inspect as insp
        a = getattr(pc, name, None) if pc else None
        if a is not None and insp.iscoroutinefunction(a):
            return outs + [(mk("aw", "opaque", K(nm), v, Tup(args)), st)]
        return outs + [(st.newsym(self.site(node, ":" + nm)), st)]

    # -- logging

    def log_call(self, v, name, args, kw, st, node):
        I = self.I
        nm = "Logger." + name
        self.ext(nm, st, node, args, kw, recv=v)
        if name in ("isEnabledFor",):
            return [(Sym("call", K(nm), *args, ty=Py(bool), exact=True), st)]
        return self.pyfault(nm, st, node) + [(NONE, st)]

    # -- context variables

    # a context is a tuple of (variable, value) pairs; each task has its own copy
    def ctx_find(self, v, st):
        c = st.ctl.get("ctx", NONE)
        for p in (c.parts[0] if c is not NONE else ()):
            if p.parts[0][0] is v:
                return p.parts[0][1]
        return None

    def ctx_put(self, v, val, st):
        c = st.ctl.get("ctx", NONE)
        ps = [p for p in (c.parts[0] if c is not NONE else ()) if p.parts[0][0] is not v]
        if val is not None:
            ps.append(Tup([v, val]))
        if ps:
            st.ctl["ctx"] = Tup(ps)
        else:
            st.ctl.pop("ctx", None)

    def x_ContextVar_get(self, v, args, kw, st, node):
        o = st.get(v.parts[0])
        x = self.ctx_find(v, st)
        if x is not None:
            return [(x, st)]
        if args:
            return [(args[0], st)]
        if "default" in kw:
            return [(kw["default"], st)]
        if "default" in o.f:
            return [(o.f["default"], st)]
        return self.exc(st, LookupError, node=node)

    def x_ContextVar_set(self, v, args, kw, st, node):
        old = self.ctx_find(v, st)
        self.ctx_put(v, args[0], st)
        return [(Sym("token", v, old if old is not None else Py(contextvars.Token.MISSING)), st)]

    def x_ContextVar_reset(self, v, args, kw, st, node):
        old = args[0].parts[2] if args and args[0].tag == "sym" and args[0].parts[0] == "token" else None
        self.ctx_put(v, None if old is None or old is Py(contextvars.Token.MISSING) else old, st)
        return [(NONE, st)]

    # -- processes

    def x_Process_wait(self, v, args, kw, st, node):
        return [(mk("aw", "procwait", v), st)]

    def x_Process_communicate(self, v, args, kw, st, node):
        return [(mk("aw", "procwait", v), st)]

    def proc_signal(self, v, name, args, st, node):
        self.ext("Process." + name, st, node, args, recv=v)
        o = st.get(v.parts[0])
        self.I.emit(st, "signal", proc=v, how=name, sig=args[0] if args else K("KILL" if name == "kill" else "TERM"), status=kval(o.f["status"]), node=node)
        return self.pyfault("Process." + name, st, node) + [(NONE, st)]

    def x_Process_send_signal(self, v, args, kw, st, node):
        return self.proc_signal(v, "send_signal", args, st, node)

    def x_Process_kill(self, v, args, kw, st, node):
        return self.proc_signal(v, "kill", args, st, node)

    def x_Process_terminate(self, v, args, kw, st, node):
        return self.proc_signal(v, "terminate", args, st, node)

    # -- streams

    def x_StreamWriter_write(self, v, args, kw, st, node):
        self.ext("StreamWriter.write", st, node, args, kw, recv=v)
        return self.pyfault("StreamWriter.write", st, node) + [(NONE, st)]

    x_WriteTransport_write = x_StreamWriter_write

    def x_StreamWriter_writelines(self, v, args, kw, st, node):
        self.ext("StreamWriter.writelines", st, node, args, kw, recv=v)
        return [(NONE, st)]

    def x_StreamWriter_close(self, v, args, kw, st, node):
        self.ext("StreamWriter.close", st, node, args, kw, recv=v)
        self.I.emit(st, "closed", fd=v, how="StreamWriter.close", node=node)
        # a patched transport.close is called through the writer
        if v.tag == "ref":
            o = st.get(v.parts[0])
            t = o.f.get("transport")
            if t is not None and t.tag == "ref":
                return self.I.bind(self.I.getattr(t, "close", st, node), lambda f, x: self.I.call(f, [], {}, x, node))
        return self.pyfault("StreamWriter.close", st, node) + [(NONE, st)]

    def x_StreamWriter_write_eof(self, v, args, kw, st, node):
        self.ext("StreamWriter.write_eof", st, node, args, kw, recv=v)
        return [(NONE, st)]

    def x_StreamWriter_is_closing(self, v, args, kw, st, node):
        self.ext("StreamWriter.is_closing", st, node, args, kw, recv=v)
        return [(st.newsym(self.site(node), ty=Py(bool), exact=True), st)]

    def x_StreamWriter_drain(self, v, args, kw, st, node):
        return [(mk("aw", "io", K("StreamWriter.drain"), v, Tup(args)), st)]

    def x_StreamWriter_wait_closed(self, v, args, kw, st, node):
        return [(mk("aw", "io", K("StreamWriter.wait_closed"), v, Tup(args)), st)]

    def x_StreamReader_read(self, v, args, kw, st, node):
        return [(mk("aw", "io", K("StreamReader.read"), v, Tup(args)), st)]

    def x_StreamReader_readline(self, v, args, kw, st, node):
        return [(mk("aw", "io", K("StreamReader.readline"), v, Tup(args)), st)]

    def x_StreamReader_readexactly(self, v, args, kw, st, node):
        return [(mk("aw", "io", K("StreamReader.readexactly"), v, Tup(args)), st)]

    def x_StreamReader_readuntil(self, v, args, kw, st, node):
        return [(mk("aw", "io", K("StreamReader.readuntil"), v, Tup(args)), st)]

    def x_StreamReader_at_eof(self, v, args, kw, st, node):
        return [(st.newsym(self.site(node), ty=Py(bool), exact=True), st)]

    # -- files

    def file_close(self, v, args, kw, st, node):
        self.ext("file.close", st, node, args, kw, recv=v)
        self.I.emit(st, "closed", fd=v, how="close()", node=node)
        return self.pyfault("file.close", st, node) + [(NONE, st)]

    x_IOBase_close = x__IOBase_close = file_close

    def buf(self, v, st):
        return st.get(v.parts[0]) if v.tag == "ref" else None

    def x_BytesIO_getvalue(self, v, args, kw, st, node):
        o = self.buf(v, st)
        self.ext("BytesIO.getvalue", st, node, args, kw, recv=v)
        if o is not None and "data" in o.f:
            return [(o.f["data"], st)]
        return [(Sym("getvalue", v, ty=Py(bytes), exact=True), st)]

    def x_StringIO_getvalue(self, v, args, kw, st, node):
        o = self.buf(v, st)
        self.ext("StringIO.getvalue", st, node, args, kw, recv=v)
        if o is not None and "data" in o.f:
            return [(o.f["data"], st)]
        return [(Sym("getvalue", v, ty=Py(str), exact=True), st)]

    x_BytesIO_getbuffer = x_BytesIO_getvalue

    def cat(self, d, x, st=None):
        if self.I.cfg.data and st is not None:
            v = self.seq_cat(d, x, st)
            if v is not None:
                return v
        ty = None
        if d.tag == "k" and kval(d) in ("", b""):
            return x
        if d.tag == "sym" and d.parts[0] == "many":
            return d
        # accumulated data: provenance sequence
        return Sym("cat", d, x, ty=Py(type(kval(d))) if d.tag == "k" else d.meta[0] if d.tag == "sym" else None, exact=True)

    def bufwrite(self, cls, name, v, args, kw, st, node):
        self.ext(cls + "." + name, st, node, args, kw, recv=v)
        out = self.pyfault(cls + "." + name, st, node)
        o = self.buf(v, st)
        if o is not None and "data" in o.f and self.I.cfg.coarse:
            st.put(v.parts[0], o.with_f("data", MANY))
        elif o is not None and "data" in o.f and self.I.cfg.data:
            self.buf_write(v, self.I.norm(args[0], st), st)
        elif o is not None and "data" in o.f:
            d = self.cat(o.f["data"], args[0])
            from .interp import depth_of
            if not self.I.cfg.data and I_cfg_depth(self) < depth_of(d):
                d = Sym("many", v, ty=Py(bytes if cls == "BytesIO" else str), exact=True)
            st.put(v.parts[0], o.with_f("data", d))
        return out + [(Sym("len", args[0], ty=Py(int), exact=True), st)]

    def x_BytesIO_write(self, v, args, kw, st, node):
        return self.bufwrite("BytesIO", "write", v, args, kw, st, node)

    def x_StringIO_write(self, v, args, kw, st, node):
        return self.bufwrite("StringIO", "write", v, args, kw, st, node)

    def x_BytesIO_truncate(self, v, args, kw, st, node):
        self.ext("file.truncate", st, node, args, kw, recv=v)
        if v.tag == "ref" and "noseek" in st.get(v.parts[0]).f:
            return self.exc(st, io.UnsupportedOperation, node=node)
        if self.I.cfg.data and v.tag == "ref" and "data" in st.get(v.parts[0]).f:
            self.buf_truncate(v, args, st)
        return [(K(0), st)]

    def x_BytesIO_seek(self, v, args, kw, st, node):
        self.ext("file.seek", st, node, args, kw, recv=v)
        if v.tag == "ref" and "noseek" in st.get(v.parts[0]).f:
            return self.exc(st, io.UnsupportedOperation, node=node)
        if self.I.cfg.data and v.tag == "ref" and "data" in st.get(v.parts[0]).f:
            self.buf_seek(v, args, st)
        return [(K(0), st)]

    x_StringIO_truncate = x__IOBase_truncate = x_IOBase_truncate = x_BytesIO_truncate
    x_StringIO_seek = x__IOBase_seek = x_IOBase_seek = x_BytesIO_seek

    def x_Path_open(self, v, args, kw, st, node):
        return self.pyf[id(builtins.open)]([v, *args], kw, st, node)

    def x__IOBase_fileno(self, v, args, kw, st, node):
        self.ext("file.fileno", st, node, args, kw, recv=v)
        if v.tag == "ref" and "fd" in st.get(v.parts[0]).f:
            return [(st.get(v.parts[0]).f["fd"], st)]
        return [(Sym("call", K("fileno"), v, ty=Py(int), exact=True), st)]

    def x__IOBase_seekable(self, v, args, kw, st, node):
        o = self.buf(v, st)
        if o is not None and "data" in o.f or self.clsname(v, st) in ("BytesIO", "StringIO"):
            return [(TRUE, st)]
        if v.tag == "ref" and "noseek" in st.get(v.parts[0]).f:
            return [(FALSE, st)]
        return [(Sym("seekable", v, ty=Py(bool), exact=True), st)]

    x_IOBase_seekable = x__IOBase_seekable
    x_BytesIO_seekable = x_StringIO_seekable = x__IOBase_seekable

    # -- bytearray

    def bytearray_extend(self, v, b, st, node):
        self.ext("bytearray.extend", st, node, [b], recv=v)
        o = st.get(v.parts[0])
        if self.I.cfg.coarse:
            st.put(v.parts[0], o.with_f("data", MANY))
            self.I.emit(st, "mutate", obj=v, name="extend", args=[b])
            return [(v, st)]
        d = self.cat(o.f.get("data", K(b"")), b, st)
        from .interp import depth_of
        if not self.I.cfg.data and I_cfg_depth(self) < depth_of(d):
            d = Sym("many", v, ty=Py(bytes), exact=True)
        st.put(v.parts[0], o.with_f("data", d))
        self.I.emit(st, "mutate", obj=v, name="extend", args=[b])
        return [(v, st)]

    def x_bytearray_extend(self, v, args, kw, st, node):
        if v.tag == "ref":
            return [(r if isinstance(r, Raise) else NONE, s) for r, s in self.bytearray_extend(v, args[0], st, node)]
        self.ext("bytearray.extend", st, node, args, recv=v)
        return [(NONE, st)]

    def x_bytearray_append(self, v, args, kw, st, node):
        if self.I.cfg.data and is_k(args[0], int):
            args = [K(bytes([kval(args[0])]))]
        return self.x_bytearray_extend(v, args, kw, st, node)

    def x_bytearray_clear(self, v, args, kw, st, node):
        self.ext("bytearray.clear", st, node, args, recv=v)
        self.I.emit(st, "mutate", obj=v, name="clear", args=[])
        if v.tag == "ref":
            st.put(v.parts[0], st.get(v.parts[0]).with_f("data", MANY if self.I.cfg.coarse else K(b"")))
        return [(NONE, st)]

    # -- threads and locks

    # -- event loop

    def x_AbstractEventLoop_create_future(self, v, args, kw, st, node):
        return [(self.new_future(st, node), st)]

    def x_AbstractEventLoop_create_task(self, v, args, kw, st, node):
        return self.create_task(args[0], st, node)

    def x_AbstractEventLoop_time(self, v, args, kw, st, node):
        return [(st.newsym(self.site(node, ":time"), ty=Py(float)), st)]

    def x_AbstractEventLoop_call_later(self, v, args, kw, st, node):
        I = self.I
        self.ext("loop.call_later", st, node, args, kw, recv=v)
        out = self.pyfault("loop.call_later", st, node)
        r = st.alloc("timer@" + self.site(node), H("inst", Py(asyncio.TimerHandle), {"delay": args[0], "cb": args[1], "args": Tup(args[2:]), "state": K("armed")}))
        st.ctl["timers"] = Tup((st.ctl.get("timers") or Tup(())).parts[0] + (r,))
        I.emit(st, "timer", timer=r, delay=args[0], node=node)
        return out + [(r, st)]

    def x_AbstractEventLoop_call_at(self, v, args, kw, st, node):
        return self.x_AbstractEventLoop_call_later(v, args, kw, st, node)

    def x_AbstractEventLoop_call_soon(self, v, args, kw, st, node):
        self.ext("loop.call_soon", st, node, args, kw, recv=v)
        return [(st.newsym(self.site(node)), st)]

    x_AbstractEventLoop_call_soon_threadsafe = x_AbstractEventLoop_call_soon

    def x_AbstractEventLoop_connect_read_pipe(self, v, args, kw, st, node):
        return [(mk("aw", "connect", K("read"), *args), st)]

    def x_AbstractEventLoop_connect_write_pipe(self, v, args, kw, st, node):
        return [(mk("aw", "connect", K("write"), *args), st)]

    def x_TimerHandle_cancel(self, v, args, kw, st, node):
        self.ext("TimerHandle.cancel", st, node, args, kw, recv=v)
        if v.tag == "ref":
            self.disarm(v, st)
        return [(NONE, st)]

    x_Handle_cancel = x_TimerHandle_cancel

    def disarm(self, v, st):
        o = st.get(v.parts[0])
        st.put(v.parts[0], o.with_f("state", K("off")))
        ts = st.ctl.get("timers")
        if ts is not None:
            st.ctl["timers"] = Tup(tuple(t for t in ts.parts[0] if t is not v))
        self.I.emit(st, "timer_off", timer=v)

    def timers(self, st):
        ts = st.ctl.get("timers")
        return ts.parts[0] if ts is not None and ts is not NONE else ()

    # -- transports

    def x_BaseTransport_close(self, v, args, kw, st, node):
        self.ext("Transport.close", st, node, args, kw, recv=v)
        self.I.emit(st, "closed", fd=v, how="Transport.close", node=node)
        return self.pyfault("Transport.close", st, node) + [(NONE, st)]

    # -- futures

    def x_Future_set_result(self, v, args, kw, st, node):
        self.ext("Future.set_result", st, node, args, kw, recv=v)
        if v.tag == "ref":
            o = st.get(v.parts[0])
            self.I.emit(st, "future_set", fut=v, value=args[0], state=kval(o.f["state"]), node=node)
            if o.f["state"] is not K("pending"):
                return self.exc(st, asyncio.InvalidStateError, node=node)
            st.put(v.parts[0], o.with_fs({"state": K("done"), "value": args[0]}))
        return [(NONE, st)]

    def x_Future_set_exception(self, v, args, kw, st, node):
        self.ext("Future.set_exception", st, node, args, kw, recv=v)
        if v.tag == "ref":
            o = st.get(v.parts[0])
            self.I.emit(st, "future_set", fut=v, value=args[0], state=kval(o.f["state"]), node=node)
            if o.f["state"] is not K("pending"):
                return self.exc(st, asyncio.InvalidStateError, node=node)
            e = args[0]
            if e.tag in ("py", "cls"):
                e = self.I.make_exc(st, e, (), node)
            st.put(v.parts[0], o.with_fs({"state": K("exc"), "value": e}))
        return [(NONE, st)]

    def fut_state(self, v, st):
        o = st.get(v.parts[0])
        return kval(o.f["state"])

    def fut_done(self, v, args, kw, st, node):
        if v.tag != "ref":
            return [(st.newsym(self.site(node), ty=Py(bool), exact=True), st)]
        return [(B(self.fut_state(v, st) != "pending"), st)]

    x_Future_done = fut_done

    def k_task_done(self, v, o, args, kw, st, node):
        return self.fut_done(v, args, kw, st, node)

    def x_Future_cancelled(self, v, args, kw, st, node):
        if v.tag != "ref":
            return [(st.newsym(self.site(node), ty=Py(bool), exact=True), st)]
        return [(B(self.fut_state(v, st) == "cancelled"), st)]

    def k_task_cancelled(self, v, o, args, kw, st, node):
        return self.x_Future_cancelled(v, args, kw, st, node)

    def x_Future_cancel(self, v, args, kw, st, node):
        I = self.I
        self.ext("Task.cancel", st, node, args, kw, recv=v)
        if v.tag == "sym":
            if v is self.main_task():
                st.ctl["main_cancel"] = TRUE
            return [(TRUE, st)]
        o = st.get(v.parts[0])
        if o.f["state"] is not K("pending"):
            return [(FALSE, st)]
        if o.kind == "task":
            o = o.with_f("cancel_req", TRUE)
            fresh = st.ctl.get("fresh", NONE)
            if fresh is not NONE and v in fresh.parts[0]:
                o = o.with_f("must", TRUE)
            st.put(v.parts[0], o)
        else:
            st.put(v.parts[0], o.with_f("state", K("cancelled")))
        return [(TRUE, st)]

    def k_task_cancel(self, v, o, args, kw, st, node):
        return self.x_Future_cancel(v, args, kw, st, node)

    def k_task_cancelling(self, v, o, args, kw, st, node):
        return [(K(1 if o.f.get("cancel_req") is TRUE else 0), st)]

    def x_Future_exception(self, v, args, kw, st, node):
        if v.tag != "ref":
            return [(st.newsym(self.site(node), opt=True), st)]
        s = self.fut_state(v, st)
        o = st.get(v.parts[0])
        if s == "pending":
            return self.exc(st, asyncio.InvalidStateError, node=node)
        if s == "cancelled":
            return self.exc(st, CANCEL, node=node)
        return [(o.f["value"] if s == "exc" else NONE, st)]

    def k_task_exception(self, v, o, args, kw, st, node):
        return self.x_Future_exception(v, args, kw, st, node)

    def x_Future_result(self, v, args, kw, st, node):
        if v.tag != "ref":
            return [(st.newsym(self.site(node)), st)]
        s = self.fut_state(v, st)
        o = st.get(v.parts[0])
        if s == "pending":
            return self.exc(st, asyncio.InvalidStateError, node=node)
        if s == "cancelled":
            return self.exc(st, CANCEL, node=node)
        self.I.emit(st, "task_result", task=v, state=s)
        if s == "exc":
            return [(Raise(o.f["value"]), st)]
        return [(o.f["value"], st)]

    def k_task_result(self, v, o, args, kw, st, node):
        return self.x_Future_result(v, args, kw, st, node)

    def k_task_get_name(self, v, o, args, kw, st, node):
        return [(Sym("taskname", v, ty=Py(str), exact=True), st)]

    def k_task_set_name(self, v, o, args, kw, st, node):
        return [(NONE, st)]

    def k_task_uncancel(self, v, o, args, kw, st, node):
        return [(K(0), st)]

    def k_task_get_coro(self, v, o, args, kw, st, node):
        return [(o.f["coro"], st)]

    def k_task_add_done_callback(self, v, o, args, kw, st, node):
        self.ext("Task.add_done_callback", st, node, args, kw, recv=v)
        cbs = o.f.get("cbs", Tup(())).parts[0]
        st.put(v.parts[0], o.with_f("cbs", Tup(cbs + (args[0],))))
        return [(NONE, st)]

    def k_task_remove_done_callback(self, v, o, args, kw, st, node):
        return [(K(1), st)]

    def x_Future_add_done_callback(self, v, args, kw, st, node):
        self.ext("Future.add_done_callback", st, node, args, kw, recv=v)
        return [(NONE, st)]

    # ------------------------------------------------------------ tasks

    def as_future(self, v, st, node, k):
        v = self.I.norm(v, st)
        if v.tag == "ref" and (self.kindof(v, st) == "task" or self.clsname(v, st) == "Future"):
            return k(v, st)
        return self.I.bind(self.create_task(v, st, node, implicit=True), k)

    def create_task(self, coro, st, node, implicit=False):
        I = self.I
        coro = I.norm(coro, st)
        if coro.tag == "ref" and (self.kindof(coro, st) == "task" or self.clsname(coro, st) == "Future"):
            return [(coro, st)]
        what = "?"
        if coro.tag == "ref" and self.kindof(coro, st) == "coro":
            fn = st.get(coro.parts[0]).f["fn"]
            what = fn.parts[0].qualname
        elif coro.tag == "aw":
            what = str(coro.parts[0])
        f = {"coro": coro, "state": K("pending"), "started": FALSE, "cancel_req": FALSE}
        if "ctx" in st.ctl:
            f["ctx"] = st.ctl["ctx"]
        r = st.alloc(f"task:{what}@" + self.site(node), H("task", None, f))
        st.ctl["tasks"] = Tup(self.all_tasks(st) + (r,))
        I.emit(st, "task_created", task=r, coro=coro, node=node)
        return [(r, st)]

    def all_tasks(self, st):
        t = st.ctl.get("tasks")
        return t.parts[0] if t is not None and t is not NONE else ()

    def cur_task(self, st):
        return st.ctl.get("task", NONE)

    def run_task(self, t, st, node):
        """Run a pending task to its end -> list[St] (task done in each)."""
        I = self.I
        o = st.get(t.parts[0])
        if o.f["state"] is not K("pending") or o.f.get("running") is TRUE:
            return [st]
        if o.f.get("started") is FALSE and o.f.get("cancel_req") is TRUE:
            st.event(f"{show(t)} cancelled before it started")
            self.end_task(t, "cancelled", NONE, st)
            I.emit(st, "never_started", task=t, coro=o.f["coro"])
            return [st]
        return self.in_task(t, st, node, lambda s: I.await_(o.f["coro"], s, node))

    def in_task(self, t, st, node, run, keep=False):
        """Run code as task `t`. With keep, a normal return leaves the task pending."""
        I = self.I
        o = st.get(t.parts[0])
        saved_task = self.cur_task(st)
        saved_exc = st.ctl.get("exc", NONE)
        saved_ctx = st.ctl.pop("ctx", NONE)
        if "ctx" in o.f:
            st.ctl["ctx"] = o.f["ctx"]
        st.put(t.parts[0], o.with_f("running", TRUE))
        st.ctl["task"] = t
        st.pins += (t, saved_task, saved_exc, saved_ctx)
        n = len(st.pins)
        I.callstack.append((f"task {show(t).split('@')[0]}", None, 0))
        try:
            outs = run(st)
        finally:
            I.callstack.pop()
        res = []
        # a task seen waiting and cancelled at once cannot have ended without the
        # cancellation having been delivered
        late = [(v, x) for v, x in outs if not (x.get(t.parts[0]).f.get("must") is TRUE and x.get(t.parts[0]).f.get("cancel_req") is TRUE)]
        if not keep and late:
            outs = late
        for v, x in outs:
            x.pins = x.pins[:n - 4]
            x.ctl["task"] = saved_task
            x.ctl["exc"] = saved_exc
            own_ctx = x.ctl.pop("ctx", None)
            if saved_ctx is not NONE:
                x.ctl["ctx"] = saved_ctx
            if isinstance(v, Raise):
                ty, _ = I.type_of(v.exc, x)
                if ty is not None and I.subclass(ty, Py(CANCEL)):
                    self.end_task(t, "cancelled", NONE, x)
                else:
                    self.end_task(t, "exc", v.exc, x)
            elif keep:
                q = x.get(t.parts[0])
                f = {"running": FALSE, "started": TRUE}
                if own_ctx is not None:
                    f["ctx"] = own_ctx
                x.put(t.parts[0], q.with_fs(f))
            else:
                self.end_task(t, "done", v, x)
            res.append(x)
        return self.dd(res)

    def dd(self, sts):
        return [s for _n, s in self.I.dedupe([(("next", None), s) for s in sts])]

    def end_task(self, t, state, value, st):
        o = st.get(t.parts[0])
        f = {"state": K(state), "value": value, "coro": o.f["coro"], "started": TRUE, "cancel_req": FALSE}
        st.put(t.parts[0], HObj("task", None, f))
        st.ctl["tasks"] = Tup(tuple(x for x in self.all_tasks(st) if x is not t))
        self.I.emit(st, "task_end", task=t, state=state)
        cbs = o.f.get("cbs")
        if cbs is not None:
            for cb in cbs.parts[0]:
                r = self.I.call(cb, [t], {}, st, None)

    def mark_suspended(self, st):
        "Effects of giving up control: other tasks start, processes may exit."
        st.ctl.pop("fresh", None)
        for t in self.all_tasks(st):
            o = st.get(t.parts[0])
            if o.f.get("started") is FALSE:
                st.put(t.parts[0], o.with_f("started", TRUE))
        for oid, h in list(st.heap.items()):
            if h.kind == "inst" and h.cls is not None and h.cls.tag == "py" and pyobj(h.cls) is asyncio.subprocess.Process:
                if h.f["status"] is K("running"):
                    st.put(oid, h.with_f("status", K("unknown")))
        self.I.emit(st, "suspend")

    def cancel_outcomes(self, st, node, what=""):
        """States in which a CancelledError is delivered to the current task at
        this suspension point -> list[(Raise, St)]. `st` is not modified."""
        I = self.I
        out = []
        cur = self.cur_task(st)
        if cur is NONE:
            if st.ctl.get("main_cancel") is TRUE:
                s = st.fork()
                s.ctl["main_cancel"] = FALSE
                out.append((Raise(I.make_exc(s, CANCEL, (), node)), s))
                return out
            n = st.ctl.get("cancels", 0)
            if n:
                s = st.fork()
                s.ctl["cancels"] = n - 1
                s.event(f"{I.where()}: cancelled at {what or 'await'}")
                I.emit(s, "cancel", by="caller", node=node)
                out.append((Raise(I.make_exc(s, CANCEL, (), node)), s))
            for t in self.timers(st):
                s = st.fork()
                o = s.get(t.parts[0])
                self.disarm(t, s)
                s.event(f"{I.where()}: timer expires")
                I.emit(s, "timer_fired", timer=t)
                for v, x in I.call(o.f["cb"], list(o.f["args"].parts[0]), {}, s, node):
                    if x.ctl.get("main_cancel") is TRUE:
                        x.ctl["main_cancel"] = FALSE
                        I.emit(x, "cancel", by="timer", node=node)
                        out.append((Raise(I.make_exc(x, CANCEL, (), node)), x))
        else:
            o = st.get(cur.parts[0])
            if o.f.get("cancel_req") is TRUE:
                s = st.fork()
                s.put(cur.parts[0], o.with_f("cancel_req", FALSE))
                out.append((Raise(I.make_exc(s, CANCEL, (), node)), s))
        return out

    def suspend(self, st, node, what):
        self.mark_suspended(st)
        must = self.cur_task(st) is NONE and st.ctl.get("main_cancel") is TRUE
        out = self.cancel_outcomes(st, node, what)
        if must:
            return out
        return out + [(NONE, st)]

    def cancel_requested(self, st):
        cur = self.cur_task(st)
        return cur is not NONE and st.get(cur.parts[0]).f.get("cancel_req") is TRUE

    # ------------------------------------------------------------ awaiting

    def await_ext(self, v, st, node, fr):
        I = self.I
        v = I.norm(v, st)
        I.emit(st, "await", v=v, cur=self.cur_task(st), node=node)
        if v.tag == "aw":
            return getattr(self, "aw_" + v.parts[0])(v, v.parts[1:], st, node)
        if v.tag == "ref":
            o = st.get(v.parts[0])
            if o.kind == "task":
                return self.aw_task(v, st, node)
            if self.clsname(v, st) == "Future":
                return self.aw_gather(v, (Tup([v]), FALSE), st, node, single=True)
        if v.tag in ("k", "tup", "enum"):
            return self.exc(st, TypeError, "await", node=node)
        if v.tag == "sym" and v.parts[0] == "ready":
            return [(v.parts[1], st)]
        # opaque awaitable
        nm = show(v)
        self.ext("await " + nm, st, node, [v])
        outs = []
        for r, x in I.suspend(st, node, nm):
            if isinstance(r, Raise):
                outs.append((r, x))
                continue
            outs.extend(self.pyfault("await", x, node))
            if nm in I.cfg.raises:
                outs.extend(self.pyfault(nm, x, node))
            outs.append((Sym("awaited", v), x))
        return outs

    def aw_sleep(self, v, p, st, node):
        return self.I.suspend(st, node, "sleep")

    def aw_opaque(self, v, p, st, node):
        I = self.I
        nm = kval(p[0])
        outs = []
        self.ext("await " + nm, st, node, list(p[1:]))
        for r, x in I.suspend(st, node, nm):
            if isinstance(r, Raise):
                outs.append((r, x))
                continue
            outs.extend(self.pyfault(nm, x, node))
            outs.append((x.newsym(self.site(node, ":" + nm)), x))
        return outs

    IO_RESULT = {"StreamReader.read": bytes, "StreamReader.readline": bytes, "StreamReader.readexactly": bytes,
                 "StreamReader.readuntil": bytes}

    def aw_io(self, v, p, st, node):
        I = self.I
        nm, recv, args = kval(p[0]), p[1], p[2]
        self.ext(nm, st, node, list(args.parts[0]), recv=recv)
        outs = []
        for r, x in I.suspend(st, node, nm):
            if isinstance(r, Raise):
                I.emit(x, "io_cancelled", name=nm, recv=recv, node=node)
                outs.append((r, x))
                continue
            outs.extend(self.pyfault(nm, x, node))
            if I.cfg.background and nm not in self.IO_RESULT:
                for t in self.all_tasks(x):
                    o = x.get(t.parts[0])
                    if o.f["state"] is K("pending") and o.f.get("running") is not TRUE and t is not self.cur_task(x):
                        for y in self.run_task(t, x.fork(), node):
                            I.emit(y, "io_done", name=nm, recv=recv, value=NONE, args=args.parts[0], node=node)
                            outs.append((NONE, y))
            ty = self.IO_RESULT.get(nm)
            if I.cfg.data and ty is not None and nm != "StreamReader.readexactly":
                for c, y in self.stream_next(recv, nm, args.parts[0], x, node):
                    c = K(b"") if c is None else c
                    I.emit(y, "io_done", name=nm, recv=recv, value=c, args=args.parts[0], node=node)
                    outs.append((c, y))
                continue
            val = x.newsym(self.site(node, ":" + nm), ty=Py(ty), exact=True) if ty else NONE
            I.emit(x, "io_done", name=nm, recv=recv, value=val, args=args.parts[0], node=node)
            outs.append((val, x))
        return outs

    def aw_connect(self, v, p, st, node):
        "loop.connect_read_pipe / connect_write_pipe"
        I = self.I
        which = kval(p[0])
        factory, pipe = p[1], p[2]
        nm = f"loop.connect_{which}_pipe"
        self.ext(nm, st, node, [factory, pipe])
        outs = []
        for r, x in I.suspend(st, node, nm):
            if isinstance(r, Raise):
                outs.append((r, x))
                continue
            outs.extend(self.pyfault(nm, x, node))
            for proto, y in I.call(factory, [], {}, x, node):
                if isinstance(proto, Raise):
                    outs.append((proto, y))
                    continue
                cls = asyncio.ReadTransport if which == "read" else asyncio.WriteTransport
                t = y.alloc(self.site(node, ":transport"), H("inst", Py(cls), {"pipe": pipe}))
                I.emit(y, "transport", transport=t, pipe=pipe, node=node, proto=proto, which=which)
                outs.append((Tup([t, proto]), y))
        return outs

    def aw_exec(self, v, p, st, node):
        I = self.I
        kw = dict(p[1])
        args = p[0]
        I.emit(st, "exec", args=args.parts[0], kw=kw, node=node)
        d = I.stats["ext"]
        d.setdefault("asyncio.create_subprocess_exec", set()).add(I.where())
        outs = []
        self.mark_suspended(st)
        # the launch itself may be interrupted by a cancellation of this task
        for r, x in self.cancel_outcomes(st, node, "create_subprocess_exec"):
            I.emit(x, "exec_interrupted", node=node)
            outs.append((r, x))
        fl = self.pyfault("asyncio.create_subprocess_exec", st, node)
        for r, x in fl:
            I.emit(x, "exec_failed", node=node)
        outs += fl
        pid = st.newsym(self.site(node, ":pid"), ty=Py(int), exact=True, nonempty=True)
        f = {"pid": pid, "status": K("unknown")}
        PIPE = K(asyncio.subprocess.PIPE)
        for s in ("stdin", "stdout", "stderr"):
            if I.eq(kw.get(s, NONE), PIPE, st) is TRUE or kw.get(s) is not None and kw[s].tag == "enum" and I.enum_int(kw[s]) == -1:
                cls = asyncio.StreamWriter if s == "stdin" else asyncio.StreamReader
                f[s] = Sym("procstream", K(s), pid, ty=Py(cls), exact=True, nonempty=True)
            else:
                f[s] = NONE
        r = st.alloc("proc@" + self.site(node), H("inst", Py(asyncio.subprocess.Process), f))
        I.emit(st, "launched", proc=r, kw=kw, args=args.parts[0], node=node)
        return outs + [(r, st)]

    def aw_procwait(self, v, p, st, node):
        I = self.I
        proc = p[0]
        self.ext("Process.wait", st, node, [], recv=proc)
        I.emit(st, "procwait", proc=proc, node=node)
        outs = []
        for r, x in I.suspend(st, node, "Process.wait"):
            if isinstance(r, Raise):
                outs.append((r, x))
                continue
            o = x.get(proc.parts[0])
            x.put(proc.parts[0], o.with_f("status", K("exited")))
            I.emit(x, "waited", proc=proc, node=node)
            outs.append((self.exit_code(proc), x))
        return outs

    def task_result(self, t, st, node):
        o = st.get(t.parts[0])
        s = kval(o.f["state"])
        if s == "cancelled":
            return (Raise(self.I.make_exc(st, CANCEL, (), node)), st)
        self.I.emit(st, "task_result", task=t, state=s)
        if s == "exc":
            return (Raise(o.f["value"]), st)
        return (o.f["value"], st)

    def fut_cancel(self, t, st):
        "Cancel a task or future."
        o = st.get(t.parts[0])
        if o.f["state"] is not K("pending"):
            return
        if o.kind == "task":
            st.put(t.parts[0], o.with_f("cancel_req", TRUE))
        else:
            st.put(t.parts[0], o.with_f("state", K("cancelled")))

    def aw_task(self, t, st, node):
        "await task: a cancellation of the waiter is passed on to the task"
        I = self.I
        if self.fut_state(t, st) != "pending":
            return [self.task_result(t, st, node)]
        self.mark_suspended(st)
        outs = []
        for r, x in self.cancel_outcomes(st, node, "await task"):
            self.fut_cancel(t, x)
            for y in self.run_task(t, x, node):
                v = self.task_result(t, y, node)
                outs.append(v)
        for y in self.run_task(t, st, node):
            outs.append(self.task_result(t, y, node))
        return outs

    def aw_shield(self, v, p, st, node):
        t = p[0]
        if self.fut_state(t, st) != "pending":
            return [self.task_result(t, st, node)]
        self.mark_suspended(st)
        outs = []
        for r, x in self.cancel_outcomes(st, node, "shield"):
            self.I.emit(x, "shield_cancelled", task=t)
            outs.append((r, x))
        for y in self.run_task(t, st, node):
            outs.append(self.task_result(t, y, node))
        return outs

    def partials(self, ts, st, node):
        "All states in which some of the pending futures in `ts` have completed."
        live = [st]
        for t in ts:
            nxt = []
            for s in live:
                if t.tag != "ref" or self.fut_state(t, s) != "pending":
                    nxt.append(s)
                    continue
                o = s.get(t.parts[0])
                if o.kind == "task":
                    s2 = s.fork()
                    nxt.append(s)
                    nxt.extend(self.run_task(t, s2, node))
                else:
                    # plain future: completed by some other task
                    nxt.extend(self.resolve_future(t, s, node))
            live = self.dd(nxt)
        return live

    def resolve_future(self, f, st, node):
        "Let other tasks run, in any combination, which may complete the future."
        out = [st]
        live = [st]
        for t in self.all_tasks(st):
            nxt = []
            for s in live:
                if self.fut_state(t, s) == "pending" and s.get(t.parts[0]).f.get("running") is not TRUE:
                    nxt.extend(self.step_task(t, s.fork(), node))
                nxt.append(s)
            live = self.dd(nxt)
        return live

    def step_task(self, t, st, node):
        "One step of a task. A phased stage only gets ready; anything else runs to its end."
        o = st.get(t.parts[0])
        c = o.f["coro"]
        if c.tag == "aw" and c.parts[0] == "stage" and not (o.f.get("started") is FALSE and o.f.get("cancel_req") is TRUE):
            sid = c.parts[3]
            if kval(st.get(sid.parts[0]).f["phase"]) == 1:
                return [st]
            if o.f.get("cancel_req") is not TRUE:
                return self.in_task(t, st, node, lambda s: self.stage_launch(c, s, node), keep=True)
        return self.run_task(t, st, node)

    def may_go_on(self, t, st):
        "A task that may still complete a future: anything but a stage that has reported itself launched."
        c = st.get(t.parts[0]).f["coro"]
        if c.tag == "aw" and c.parts[0] == "stage":
            return kval(st.get(c.parts[3].parts[0]).f["phase"]) == 0
        return st.get(t.parts[0]).f.get("running") is not TRUE

    def stage_launch(self, c, st, node):
        cmd, fut, sid = c.parts[1:4]
        outs = []
        fn = self.I.driver.ns["stage_launch"]
        for v, x in self.I.bind(self.I.call(fn, [cmd, fut], {}, st, node), lambda r, y: self.I.await_(r, y, node)):
            if not isinstance(v, Raise):
                x.put(sid.parts[0], x.get(sid.parts[0]).with_fs({"phase": K(1), "run": v}))
            outs.append((v, x))
        return outs

    def aw_stage(self, v, p, st, node):
        cmd, fut, sid = p
        if kval(st.get(sid.parts[0]).f["phase"]) == 0:
            live = self.stage_launch(v, st, node)
        else:
            live = [(NONE, st)]
        fn = self.I.driver.ns["stage_run"]
        outs = []
        for r, x in live:
            if isinstance(r, Raise):
                outs.append((r, x))
                continue
            run = x.get(sid.parts[0]).f["run"]
            outs.extend(self.I.bind(self.I.call(fn, [cmd, run], {}, x, node), lambda c, y: self.I.await_(c, y, node)))
        return outs

    def new_stage(self, cmd, fut, st, node):
        sid = st.alloc("stage@" + self.site(node), H("inst", Py(object), {"phase": K(0)}))
        return mk("aw", "stage", cmd, fut, sid)

    def aw_wait(self, v, p, st, node):
        I = self.I
        fs, timeout, when = p
        timeout = I.norm(timeout, st)
        items = self.known_items(fs, st)
        if items is None:
            self.I.note(f"asyncio.wait on unknown set at {I.where()}")
            outs = I.suspend(st, node, "asyncio.wait")
            return [(r if isinstance(r, Raise) else Tup([x.newsym(self.site(node, ":done")), x.newsym(self.site(node, ":pending"))]), x) for r, x in outs]
        if not items:
            return self.exc(st, ValueError, node=node)
        if any(x.tag == "ref" and self.kindof(x, st) == "coro" for x in items):
            return self.exc(st, TypeError, "coroutine passed to wait", node=node)
        when_s = kval(when) if is_k(when) else "ALL_COMPLETED"
        self.mark_suspended(st)
        outs = []
        live0 = [st]
        tmo = []
        for b, s in I.truth(I.is_none(timeout, st), st):
            tmo.append((not b, s))
        for has_to, s0 in tmo:
            I.emit(s0, "wait_begin", items=items, timeout=timeout if has_to else None, when=when_s, cur=self.cur_task(s0), node=node)
            for s in self.partials(items, s0, node):
                pend = [t for t in items if self.fut_state(t, s) == "pending"]
                done = [t for t in items if t not in pend]
                ok = not pend or has_to
                if pend and has_to and I.cfg.prompt_cancel and all(
                        s.get(t.parts[0]).f.get("cancel_req") is TRUE for t in pend):
                    ok = False
                if not ok and when_s == "FIRST_COMPLETED" and done:
                    ok = True
                if not ok and when_s == "FIRST_EXCEPTION" and any(self.fut_state(t, s) == "exc" for t in done):
                    ok = True
                if pend or self.cancel_race(s):
                    outs.extend(self.cancel_outcomes(s, node, "asyncio.wait"))
                if ok:
                    d = s.alloc(self.site(node, ":done"), H("set", None, {}, tuple(done)))
                    q = s.alloc(self.site(node, ":pending"), H("set", None, {}, tuple(pend)))
                    I.emit(s, "wait_done", done=done, pending=pend, timeout=timeout, when=when_s, node=node)
                    if pend:
                        s.ctl["fresh"] = Tup(pend)
                    outs.append((Tup([d, q]), s))
        return I.dedupe_vals(outs)

    def cancel_race(self, st):
        "A cancellation may still arrive although everything waited for is done."
        return True

    def aw_gather(self, v, p, st, node, single=False):
        I = self.I
        items = list(p[0].parts[0])
        rexc = p[1] is TRUE
        self.mark_suspended(st)
        outs = []
        for s in self.partials(items, st, node):
            pend = [t for t in items if self.fut_state(t, s) == "pending"]
            bad = [t for t in items if self.fut_state(t, s) in ("exc", "cancelled")]
            if pend:
                for r, x in self.cancel_outcomes(s, node, "gather"):
                    for t in items:
                        self.fut_cancel(t, x)
                    outs.append((r, x))
            if bad and not rexc:
                r, x = self.task_result(bad[0], s, node)
                outs.append((r, x))
            elif not pend:
                vals = []
                for t in items:
                    o = s.get(t.parts[0])
                    if kval(o.f["state"]) == "cancelled":
                        vals.append(I.make_exc(s, CANCEL, (), node))
                    else:
                        vals.append(o.f["value"])
                if single:
                    outs.append((vals[0], s))
                else:
                    outs.append((self.mklist(s, vals, node), s))
            else:
                # can anything still complete the pending ones?
                if not any(s.get(t.parts[0]).kind == "task" for t in pend) and not any(self.may_go_on(t, s) for t in self.all_tasks(s)):
                    I.emit(s, "hang", futures=pend, node=node)
        return I.dedupe_vals(outs)

    def aw_wait_for(self, v, p, st, node):
        I = self.I
        t, timeout = p
        self.mark_suspended(st)
        outs = []
        for b, s0 in I.truth(I.is_none(timeout, st), st):
            I.emit(s0, "wait_begin", items=[t], timeout=None if b else I.norm(timeout, s0), when="ALL_COMPLETED", cur=self.cur_task(s0), node=node)
            if not b:
                s = s0.fork()
                I.emit(s, "wait_done", done=[], pending=[t], timeout=timeout, when="ALL_COMPLETED", node=node)
                self.fut_cancel(t, s)
                if s.get(t.parts[0]).kind == "task":
                    for x in self.run_task(t, s, node):
                        if self.fut_state(t, x) == "cancelled":
                            outs.extend(self.exc(x, TimeoutError, node=node))
                        else:
                            outs.append(self.task_result(t, x, node))
                else:
                    outs.extend(self.exc(s, TimeoutError, node=node))
            for r, x in self.cancel_outcomes(s0, node, "wait_for"):
                self.fut_cancel(t, x)
                if x.get(t.parts[0]).kind == "task":
                    for y in self.run_task(t, x, node):
                        outs.append((Raise(I.make_exc(y, CANCEL, (), node)), y))
                else:
                    outs.append((r, x))
            for x in self.partials([t], s0, node):
                if self.fut_state(t, x) != "pending":
                    outs.append(self.task_result(t, x, node))
        return outs

    # ------------------------------------------------------------ with

    def ext_with(self, m, st, body, node, is_async, fr):
        I = self.I
        if m.tag == "ctx":
            k = m.parts[0]
            if k == "null":
                return body(m.parts[1], st)
            if k == "suppress":
                out = []
                for flow, x in body(NONE, st):
                    if flow[0] == "raise":
                        for b, y in I.truth(I.isinst(flow[1], m.parts[1], x), x):
                            out.append((NEXT, y) if b else (flow, y))
                    else:
                        out.append((flow, x))
                return out
            if k == "closing":
                out = []
                for flow, x in body(m.parts[1], st):
                    pin = (flow[1],) if isinstance(flow[1], Val) else ()
                    x.pins += pin
                    for f, y in I.getattr(m.parts[1], "close", x, node):
                        for r, z in I.call(f, [], {}, y, node):
                            if pin:
                                z.pins = z.pins[:-1]
                            out.append((("raise", r.exc), z) if isinstance(r, Raise) else (flow, z))
                return out
        if m.tag == "ref":
            o = st.get(m.parts[0])
            if o.kind == "inst" and o.cls.tag == "py":
                pc = pycls(o.cls)
                if pc in (contextlib.ExitStack, contextlib.AsyncExitStack):
                    out = []
                    for flow, x in body(m, st):
                        out.extend(self.run_exitstack(m, flow, x, node, fr))
                    return out
                if pc is asyncio.Timeout:
                    return self.with_timeout(m, o, st, body, node)
                if issubclass(pc, (io.IOBase,)):
                    out = []
                    for flow, x in body(m, st):
                        for r, y in self.file_close(m, [], {}, x, node):
                            out.append((("raise", r.exc), y) if isinstance(r, Raise) else (flow, y))
                    return out
        nm = self.clsname(m, st) or show(m)
        self.ext("with " + nm, st, node, [m])
        I.emit(st, "with_enter", cm=m, node=node)
        out = []
        locks = "lock" in nm.lower()
        for s in self.lock_steps(st, node) if locks else [st]:
            for flow, x in body(NONE if locks else Sym("entered", m), s):
                I.emit(x, "with_exit", cm=m, node=node)
                out.append((flow, x))
        return out

    def run_exitstack(self, m, flow, st, node, fr):
        I = self.I
        o = st.get(m.parts[0])
        cbs = o.f["cbs"].parts[0]
        live = [(flow, st)]
        for cb in reversed(cbs):
            nxt = []
            for fl, x in live:
                pin = (fl[1],) if isinstance(fl[1], Val) else ()
                x.pins += pin
                kind, f, a, kws = cb.parts[0]
                args = list(a.parts[0])
                if kval(kind) == "exit":
                    e = fl[1] if fl[0] == "raise" else NONE
                    args = [I.type_of(e, x)[0] or NONE, e, NONE] if e is not NONE else [NONE, NONE, NONE]
                outs = I.call(f, args, dict((kval(q.parts[0][0]), q.parts[0][1]) for q in kws.parts[0]), x, node)
                for r, y in outs:
                    if not isinstance(r, Raise) and (r.tag == "aw" or r.tag == "ref" and self.kindof(r, y) == "coro"):
                        rs = I.await_(r, y, node, fr)
                    else:
                        rs = [(r, y)]
                    for r2, z in rs:
                        if pin:
                            z.pins = z.pins[:-1]
                        if isinstance(r2, Raise):
                            nxt.append((("raise", r2.exc), z))
                        elif kval(kind) == "exit" and fl[0] == "raise":
                            for b, w in I.truth(r2, z):
                                nxt.append((NEXT, w) if b is True else (fl, w))
                        else:
                            nxt.append((fl, z))
            live = I.dedupe(nxt)
        return live

    def es_add(self, v, st, kind, f, args, kw):
        o = st.get(v.parts[0])
        cb = Tup([K(kind), f, Tup(args), Tup([Tup([K(k), x]) for k, x in kw.items()])])
        st.put(v.parts[0], o.with_f("cbs", Tup(o.f["cbs"].parts[0] + (cb,))))

    def x_ExitStack_callback(self, v, args, kw, st, node):
        self.es_add(v, st, "cb", args[0], args[1:], kw)
        return [(args[0], st)]

    x_AsyncExitStack_callback = x_AsyncExitStack_push_async_callback = x_ExitStack_callback

    def x_ExitStack_pop_all(self, v, args, kw, st, node):
        o = st.get(v.parts[0])
        st.put(v.parts[0], o.with_f("cbs", Tup(())))
        return [(st.alloc(self.site(node, ":ExitStack"), o), st)]

    def x_ExitStack_close(self, v, args, kw, st, node):
        out = []
        for flow, x in self.run_exitstack(v, NEXT, st, node, None):
            x.put(v.parts[0], x.get(v.parts[0]).with_f("cbs", Tup(())))
            out.append((Raise(flow[1]), x) if flow[0] == "raise" else (NONE, x))
        return out

    def x_ExitStack_enter_context(self, v, args, kw, st, node):
        I = self.I
        m = args[0]
        out = []
        for ent, x in I.bind(I.getattr(m, "__enter__", st, node), lambda f, y: I.call(f, [], {}, y, node)):
            if isinstance(ent, Raise):
                out.append((ent, x))
                continue
            for f, y in I.getattr(m, "__exit__", x, node):
                self.es_add(v, y, "exit", f, (), {})
                out.append((ent, y))
        return out

    def x_ExitStack_push(self, v, args, kw, st, node):
        self.es_add(v, st, "exit", args[0], (), {})
        return [(args[0], st)]

    def with_timeout(self, m, o, st, body, node):
        I = self.I
        when = o.f["when"]
        out = []
        for b, s in I.truth(I.is_none(when, st), st):
            if b:
                out.extend(body(m, s))
                continue
            # The body may be cancelled at any suspension point by the timer; the
            # cancellation is turned into TimeoutError at the end.
            for flow, x in body(m, s.fork()):
                out.append((flow, x))
            s.ctl["cancels"] = s.ctl.get("cancels", 0) + 1
            n = s.ctl["cancels"]
            for flow, x in body(m, s):
                if x.ctl.get("cancels", 0) == n:
                    continue
                if flow[0] == "raise" and I.subclass(I.type_of(flow[1], x)[0] or Py(object), Py(CANCEL)):
                    out.extend(I.flowmap(self.exc(x, TimeoutError, node=node), lambda v, y: []))
                else:
                    out.append((flow, x))
        return out

    # ------------------------------------------------------------ scenario intrinsics

    def intr___sym__(self, args, kw, st, node):
        ty = args[1] if len(args) > 1 else kw.get("ty")
        return [(Sym("in", args[0], ty=None if ty is NONE else ty, exact=kw.get("exact", TRUE) is TRUE and ty is not None,
                     opt=kw.get("opt") is TRUE, nonempty=True if kw.get("nonempty") is TRUE else None), st)]

    def intr___choose__(self, args, kw, st, node):
        return [(a, st.fork() if i < len(args) - 1 else st) for i, a in enumerate(args)]

    def intr___mark__(self, args, kw, st, node):
        self.I.emit(st, "mark", name=kval(args[0]), args=args[1:], kw=kw, node=node)
        return [(NONE, st)]

    def intr___opaque__(self, args, kw, st, node):
        "An awaitable supplied by the caller: may suspend, be cancelled, or raise."
        return [(Sym("user", args[0], ty=None), st)]

    def intr___body__(self, args, kw, st, node):
        "Caller's block: suspends, may raise."
        return [(mk("aw", "opaque", args[0] if args else K("body")), st)]

    def intr___maybe_raise__(self, args, kw, st, node):
        out = []
        for a in args:
            s = st.fork()
            out.append((Raise(self.I.make_exc(s, a, (), node)), s))
        return out + [(NONE, st)]

    def intr___new__(self, args, kw, st, node):
        "Opaque object of an external class, identified by name."
        return [(st.alloc("in:" + str(kval(args[1])), H("inst", args[0], dict(kw))), st)]

    def intr___task__(self, args, kw, st, node):
        "A task of the caller's that has started; __run_in__ runs parts of it."
        f = {"coro": NONE, "state": K("pending"), "started": TRUE, "cancel_req": FALSE}
        if "ctx" in st.ctl:
            f["ctx"] = st.ctl["ctx"]
        return [(st.alloc("task:in:" + str(kval(args[0])), H("task", None, f)), st)]

    def intr___run_in__(self, args, kw, st, node):
        t, fn, rest = args[0], args[1], list(args[2:])

        def run(s):
            out = []
            for v, x in self.I.call(fn, rest, {}, s, node):
                if isinstance(v, Val) and v.tag == "ref" and x.has(v.parts[0]) and x.get(v.parts[0]).kind == "coro":
                    out.extend(self.I.await_(v, x, node))
                else:
                    out.append((v, x))
            return out
        return [(NONE, x) for x in self.in_task(t, st, node, run, keep=True)]
