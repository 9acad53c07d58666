"""Threads, epoll and process ids (cfg.threads): the world of the child watcher.

A thread's code runs nested inside the main thread's, at the points where a
switch can matter (starting a thread, registering a descriptor, the driver's
__threads__()). When it would block in epoll.poll() it is parked: the state is
kept for the main thread to go on with, and the thread starts over at its entry
when it gets to run again (only if what precedes the poll has no effects)."""

import asyncio
import os
import select
import signal
import threading

from .core import *
from .pymodel import H, pycls


class ThreadModels:
    def register_threads(self):
        I, reg = self.I, self.reg

        @reg(os.write)
        def _(a, kw, st, node):
            self.ext("os.write", st, node, a, kw)
            out = self.pyfault("os.write", st, node)
            fd = I.norm(a[0], st)
            if I.cfg.threads and fd.tag == "sym" and fd.parts[0] == "fdend":
                if fd.parts[1] is K("r"):
                    return self.exc(st, OSError, node=node)
                self.tset(st, "readable", fd.parts[2], TRUE)
            return out + [(Sym("call", K("os.write"), *a, ty=Py(int), exact=True), st)]

        @reg(signal.getsignal)
        def _(a, kw, st, node):
            self.ext("signal.getsignal", st, node, a, kw)
            if I.cfg.sigchld_ignored:
                return [(I.wrap(signal.SIG_IGN), st)]
            return [(I.wrap(signal.SIG_DFL), st)]

        @reg(threading.current_thread)
        def _(a, kw, st, node):
            return [(st.ctl.get("thread") or Sym("main_thread", K(0), ty=Py(threading.Thread), exact=True, nonempty=True), st)]

        @reg(threading.get_ident)
        def _(a, kw, st, node):
            return [(Sym("ident", st.ctl.get("thread") or K("main"), ty=Py(int), exact=True, nonempty=True), st)]

    # -- association lists kept in ctl

    def tget(self, st, name, key, default=None):
        t = st.ctl.get(name)
        if t is not None:
            for e in t.parts[0]:
                if e.parts[0][0] is key:
                    return e.parts[0][1]
        return default

    def tset(self, st, name, key, val):
        t = st.ctl.get(name)
        es = [e for e in (t.parts[0] if t is not None else ()) if e.parts[0][0] is not key]
        if val is not None:
            es.append(Tup([key, val]))
        st.ctl[name] = Tup(sorted(es, key=show))

    # -- processes

    def thread_waitpid(self, a, kw, st, node):
        "os.waitpid for the processes of the scenario"
        I = self.I
        pid = I.norm(a[0], st)
        flags = I.norm(a[1] if len(a) > 1 else kw.get("options", K(0)), st)
        block = is_k(flags, int) and kval(flags) == 0
        I.emit(st, "waitpid", pid=pid, block=block, thread=st.ctl.get("thread"), node=node)
        state = self.tget(st, "procs", pid, K("unknown"))
        out = []

        def lost(s):
            self.tset(s, "procs", pid, K("reaped"))
            I.emit(s, "wait_lost", pid=pid, node=node)
            out.extend(self.exc(s, ChildProcessError, node=node))
        if state is K("reaped"):
            I.emit(st, "wait_again", pid=pid, node=node)
            lost(st)
            return out
        if I.cfg.lost_wait_pid:
            lost(st.fork())
        if state is not K("dead") and not block:
            s = st.fork()
            s.event(f"{I.where()}: waitpid: still running")
            I.emit(s, "still_running", pid=pid, node=node)
            out.append((Tup([K(0), K(0)]), s))
        self.tset(st, "procs", pid, K("reaped"))
        I.emit(st, "reaped", pid=pid, node=node)
        out.append((Tup([pid, Sym("waitstatus", pid, ty=Py(int), exact=True)]), st))
        return out

    # -- epoll

    def epoll_fds(self, v, st):
        f = st.get(v.parts[0]).f
        return f["fds"].parts[0] if "fds" in f else ()

    def epoll_put(self, v, st, fds):
        st.put(v.parts[0], st.get(v.parts[0]).with_f("fds", Tup(fds)))

    def epoll_closed(self, v, st):
        return st.get(v.parts[0]).f.get("closed") is TRUE

    def x_epoll_register(self, v, args, kw, st, node):
        I = self.I
        self.ext("epoll.register", st, node, args, kw, recv=v)
        if self.epoll_closed(v, st):
            return self.exc(st, ValueError, node=node)
        fd = I.norm(args[0] if args else kw["fd"], st)
        out = self.pyfault("epoll.register", st, node)
        if fd in self.epoll_fds(v, st):
            return out + self.exc(st, FileExistsError, node=node)
        ev = I.norm(args[1] if len(args) > 1 else kw.get("eventmask", K(select.EPOLLIN)), st)
        self.epoll_put(v, st, self.epoll_fds(v, st) + (fd,))
        I.emit(st, "registered", fd=fd, events=ev, node=node)
        return out + [(NONE, s) for s in self.thread_steps(st, node)]

    def x_epoll_unregister(self, v, args, kw, st, node):
        I = self.I
        self.ext("epoll.unregister", st, node, args, kw, recv=v)
        if self.epoll_closed(v, st):
            return self.exc(st, ValueError, node=node)
        fd = I.norm(args[0] if args else kw["fd"], st)
        if fd not in self.epoll_fds(v, st):
            return self.exc(st, OSError, node=node)
        self.epoll_put(v, st, tuple(x for x in self.epoll_fds(v, st) if x is not fd))
        I.emit(st, "unregistered", fd=fd, node=node)
        return [(NONE, st)]

    def x_epoll_close(self, v, args, kw, st, node):
        self.ext("epoll.close", st, node, args, kw, recv=v)
        if not self.epoll_closed(v, st):
            self.I.emit(st, "closed", fd=v, how="close()", node=node)
        st.put(v.parts[0], st.get(v.parts[0]).with_fs({"closed": TRUE, "fds": Tup(())}))
        return [(NONE, st)]

    def fd_closed(self, fd, st):
        "the kernel drops a closed descriptor from every epoll set"
        self.tset(st, "pidfds", fd, None)
        if fd.tag == "sym" and fd.parts[0] == "fdend" and fd.parts[1] is K("w"):
            self.tset(st, "readable", fd.parts[2], TRUE)
        for oid, h in list(st.heap.items()):
            if h.kind == "inst" and h.cls is not None and pycls(h.cls) is select.epoll and "fds" in h.f and fd in h.f["fds"].parts[0]:
                st.put(oid, h.with_f("fds", Tup(tuple(x for x in h.f["fds"].parts[0] if x is not fd))))

    def x_epoll_poll(self, v, args, kw, st, node):
        I = self.I
        self.ext("epoll.poll", st, node, args, kw, recv=v)
        if self.epoll_closed(v, st):
            return self.exc(st, ValueError, node=node)
        cur = st.ctl.get("thread")
        if cur is not None and cur is not NONE and st.get(cur.parts[0]).f.get("seen") is not TRUE:
            # may the thread start over when it is woken here?
            o = st.get(cur.parts[0])
            st.put(cur.parts[0], o.with_fs({"seen": TRUE, "pure": B(self.prefix_pure(st))}))
        must, may = [], []
        for fd in self.epoll_fds(v, st):
            if fd.tag == "sym" and fd.parts[0] == "fdend":
                if self.tget(st, "readable", fd.parts[2]) is TRUE:
                    must.append(fd)
                continue
            pid = self.tget(st, "pidfds", fd)
            s = self.tget(st, "procs", pid, K("unknown")) if pid is not None else K("unknown")
            (may if s is K("unknown") else must).append(fd)
        sets = [[]]
        for fd in may:
            sets = sets + [x + [fd] for x in sets]
        outs = []
        limit = I.norm(args[1] if len(args) > 1 else kw.get("maxevents", K(-1)), st)
        for x in sets:
            ready = must + x
            if not ready:
                continue
            orders = [ready] if len(ready) == 1 else [ready, ready[::-1]]
            for o in orders:
                if is_k(limit, int) and kval(limit) > 0:
                    o = o[:kval(limit)]
                s = st.fork()
                for fd in ready:
                    pid = self.tget(s, "pidfds", fd)
                    if pid is not None and self.tget(s, "procs", pid, K("unknown")) is K("unknown"):
                        self.tset(s, "procs", pid, K("dead"))
                s.event(f"{I.where()}: ready: {', '.join(show(f) for f in o)}")
                I.emit(s, "ready", fds=tuple(o), pids=tuple(self.tget(s, "pidfds", f) for f in o), node=node)
                r = s.alloc(self.site(node, ":ready"), H("list", None, {}, tuple(Tup([f, K(select.EPOLLIN)]) for f in o)))
                outs.append((r, s))
        if not must:
            t = I.norm(args[0] if args else kw.get("timeout", NONE), st)
            if not (t is NONE or is_k(t, int, float) and kval(t) < 0):
                s = st.fork()
                outs.append((s.alloc(self.site(node, ":ready"), H("list", None, {}, ())), s))
            elif cur is not None and cur is not NONE:
                self._parked.append(st.fork())
            else:
                I.emit(st, "hang", v=v, node=node)
        return outs

    # -- threads

    _parked = None

    def new_thread(self, args, kw, st, node):
        f = {"target": args[1] if len(args) > 1 else kw.get("target", NONE), "name": kw.get("name", NONE),
             "args": kw.get("args", Tup(())), "kwargs": kw.get("kwargs", NONE), "daemon": kw.get("daemon", NONE), "state": K("new")}
        r = st.alloc(self.site(node, ":thread"), H("inst", Py(threading.Thread), f))
        return [(r, st)]

    def threads(self, st):
        t = st.ctl.get("threads")
        return t.parts[0] if t is not None else ()

    def x_Thread_start(self, v, args, kw, st, node):
        self.ext("Thread.start", st, node, args, kw, recv=v)
        out = self.pyfault("Thread.start", st, node)
        if not self.I.cfg.threads or v.tag != "ref":
            return out + [(NONE, st)]
        o = st.get(v.parts[0])
        if o.f.get("state") is not K("new"):
            return out + self.exc(st, RuntimeError, node=node)
        st.put(v.parts[0], o.with_f("state", K("ready")))
        st.ctl["threads"] = Tup(self.threads(st) + (v,))
        self.I.emit(st, "thread_started", thread=v, node=node)
        return out + [(NONE, s) for s in self.thread_steps(st, node)]

    def x_Thread_is_alive(self, v, args, kw, st, node):
        if self.I.cfg.threads and v.tag == "ref":
            return [(B(st.get(v.parts[0]).f["state"] is K("ready")), st)]
        return [(st.newsym(self.site(node), ty=Py(bool), exact=True), st)]

    def x_Thread_join(self, v, args, kw, st, node):
        I = self.I
        self.ext("Thread.join", st, node, args, kw, recv=v)
        if not I.cfg.threads or v.tag != "ref":
            return [(NONE, st)]
        s = st.get(v.parts[0]).f["state"]
        if s is K("new"):
            return self.exc(st, RuntimeError, node=node)
        if s is K("done"):
            return [(NONE, st)]
        if st.ctl.get("thread") is v:
            return self.exc(st, RuntimeError, node=node)
        ended, parked = self.run_thread(v, st, node)
        out = [(NONE, x) for x in ended]
        limit = I.norm(args[0] if args else kw.get("timeout", NONE), st)
        for x in parked:
            if limit is not NONE:
                out.append((NONE, x))
            else:
                I.emit(x, "hang", v=v, node=node)
        return out

    def prefix_pure(self, st):
        b = self._before[-1] if self._before else None
        if b is None:
            return False
        heap, mon, own = b
        for oid, h in heap.items():
            if h.kind not in ("frame", "coro", "gen") and oid not in own and st.heap.get(oid) is not None and st.heap.get(oid) != h:
                return False
        return mon == st.mon

    _before = ()

    def run_thread(self, t, st, node):
        "Run a thread from its entry -> (states where it ended, states where it waits for events)"
        I = self.I
        o = st.get(t.parts[0])
        saved = {k: st.ctl.get(k, NONE) for k in ("task", "exc", "thread")}
        stack = st.stack
        st.pins += (t,) + tuple(saved.values())
        n = len(st.pins)
        st.put(t.parts[0], o.with_fs({"running": TRUE, "seen": FALSE}))
        st.ctl["thread"] = t
        st.ctl["task"] = NONE
        st.ctl.pop("exc", None)
        old_parked, self._parked = self._parked, []
        self._before = (self._before or ()) + ((dict(st.heap), dict(st.mon), {t.parts[0]}),)
        I.callstack.append((f"thread {show(t)}", None, 0))
        kwargs = o.f["kwargs"]
        kd = {}
        if kwargs.tag == "ref":
            for e in st.get(kwargs.parts[0]).items:
                kd[kval(e.parts[0][0]) if isinstance(e, Val) else kval(e[0])] = e.parts[0][1] if isinstance(e, Val) else e[1]
        targs = self.known_items(o.f["args"], st) or []
        try:
            outs = I.call(o.f["target"], list(targs), kd, st, node)
        finally:
            I.callstack.pop()
            parked, self._parked = self._parked, old_parked
            self._before = self._before[:-1]

        def back(x, state):
            x.pins = x.pins[:n - 1 - len(saved)]
            x.stack = stack
            for k, v in saved.items():
                if v is NONE and k != "task":
                    x.ctl.pop(k, None)
                else:
                    x.ctl[k] = v
            q = x.get(t.parts[0])
            x.put(t.parts[0], HObjLike(q, {"state": K(state), "running": FALSE, "seen": FALSE}))
            if state == "done":
                x.ctl["threads"] = Tup(tuple(y for y in self.threads(x) if y is not t))
            return x
        ended = []
        for v, x in outs:
            back(x, "done")
            if isinstance(v, Raise):
                ty, _ = I.type_of(v.exc, x)
                I.emit(x, "thread_died", thread=t, error=ty)
            else:
                I.emit(x, "thread_end", thread=t)
            ended.append(x)
        return self.dd(ended), self.dd([back(x, "ready") for x in parked])

    def thread_steps(self, st, node):
        "The states after the other threads ran for a while, or not."
        if not self.I.cfg.threads or st.ctl.get("thread") not in (None, NONE):
            return [st]
        outs = [st]
        for t in self.threads(st):
            more = []
            for s in outs:
                o = s.get(t.parts[0])
                if o.f["state"] is not K("ready") or o.f.get("running") is TRUE:
                    continue
                ended, parked = self.run_thread(t, s.fork(), node)
                more += ended + [x for x in parked if x.get(t.parts[0]).f.get("pure") is TRUE]
            outs = self.dd(outs + more)
        return outs

    def intr___threads__(self, args, kw, st, node):
        "Other threads may run here."
        return [(NONE, s) for s in self.thread_steps(st, node)]

    def intr___at_lock__(self, args, kw, st, node):
        "Another thread makes this call just when the next lock is to be taken, or never."
        st.ctl["at_lock"] = Tup(args)
        return [(NONE, st)]

    def lock_steps(self, st, node):
        a = st.ctl.get("at_lock")
        if a is None or a is NONE:
            return [st]
        s = st.fork()
        s.ctl.pop("at_lock")
        out = [st]
        for v, x in self.I.call(a.parts[0][0], list(a.parts[0][1:]), {}, s, node):
            out.append(x)
        return out

    def intr___finish__(self, args, kw, st, node):
        "Everything still running goes on for as long as it can."
        live, out = [st], []
        for _ in range(20):
            nxt = []
            for s in live:
                ts = [t for t in self.threads(s) if s.get(t.parts[0]).f["state"] is K("ready") and s.get(t.parts[0]).f.get("spent") is not TRUE]
                ks = [t for t in self.all_tasks(s) if s.get(t.parts[0]).f["state"] is K("pending")]
                if ts:
                    ended, parked = self.run_thread(ts[0], s, node)
                    for x in parked:
                        x.put(ts[0].parts[0], x.get(ts[0].parts[0]).with_f("spent", TRUE))
                    nxt += ended + parked
                elif ks:
                    nxt += self.run_task(ks[0], s, node)
                else:
                    out.append(s)
            live = self.dd(nxt)
            if not live:
                break
        return [(NONE, s) for s in self.dd(out)]


def HObjLike(o, f):
    return o.with_fs(f)
