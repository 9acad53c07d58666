"""Monitors shared by several properties."""

from ..core import *
from ..run import Monitor, exc_is, exc_name


class Expect(Monitor):
    """Values stated by the driver.

    __mark__("same", label, got, want)     one and the same value
    __mark__("differ", label, a, b)        never the same object
    __mark__("is", label, cond)            a condition that must be true
    __mark__("never", label)               must not be reached
    end: __mark__("raises", ErrorName) was announced -> the driver must end with that error"""

    def __init__(self, name):
        self.name = name

    def on_mark(self, I, st, name, args, **_):
        if name == "same":
            label, got, want = kval(args[0]), I.norm(args[1], st), I.norm(args[2], st)
            if not self.equal(I, st, got, want):
                self.bad(I, st, "value", f"{label}: {self.text(I, st, got)} instead of {self.text(I, st, want)}", construct=label, where="driver")
        elif name == "differ":
            label, a, b = kval(args[0]), I.norm(args[1], st), I.norm(args[2], st)
            if a is b:
                self.bad(I, st, "identity", f"{label}", construct=label, where="driver")
        elif name == "is":
            label, c = kval(args[0]), I.norm(args[1], st)
            for b, s in I.truth(c, st.fork()):
                if not b:
                    self.bad(I, st, "condition", f"not so: {label}", construct=label, where="driver")
                    break
        elif name == "never":
            self.bad(I, st, "reached", kval(args[0]), construct=kval(args[0]), where="driver")

    def text(self, I, st, v):
        if v.tag == "ref" and st.has(v.parts[0]):
            o = st.get(v.parts[0])
            if o.kind in ("list", "set", "tuple"):
                return f"{o.kind}[{', '.join(self.text(I, st, I.norm(x, st)) for x in (o.items or ()))}]"
        return show(v)

    def equal(self, I, st, a, b, depth=0):
        a, b = I.norm(a, st), I.norm(b, st)
        if a is b:
            return True
        if a.tag == "tup" and b.tag == "tup":
            return len(a.parts[0]) == len(b.parts[0]) and all(self.equal(I, st, x, y, depth + 1) for x, y in zip(a.parts[0], b.parts[0]))
        if a.tag == "ref" and b.tag == "ref" and depth < 6:
            p, q = st.get(a.parts[0]), st.get(b.parts[0])
            if p.kind != q.kind or p.kind not in ("list", "dict", "set"):
                return False
            if p.kind in ("list", "set"):
                x, y = I.models.known_items(a, st), I.models.known_items(b, st)
                if x is None or y is None or len(x) != len(y):
                    return False
                if p.kind == "set":
                    return all(any(self.equal(I, st, u, w, depth + 1) for w in y) for u in x)
                return all(self.equal(I, st, u, w, depth + 1) for u, w in zip(x, y))
            return p.f.keys() == q.f.keys() and all(self.equal(I, st, p.f[k], q.f[k], depth + 1) for k in p.f)
        return False
