"""Provenance sequences: byte and text data as ordered pieces of what was read.

A piece is a constant, a chunk (`Sym("chunk", stream, number, length)`), a part of
one, an input symbol, or decoded/encoded data. Contents are never known; lengths
may be one of a few classes. Active when cfg.data is set."""

import codecs
import io
import re

from .core import *

H = HObj


def pycls(v):
    return pyobj(v) if v is not None and v.tag == "py" and isinstance(pyobj(v), type) else None


class SeqModels:
    RE_MATCH = re.Match
    "Mixed into Models."

    # ------------------------------------------------------------ construction

    def seqkind(self, v, st):
        "'b' | 't' | None"
        if v.tag == "k":
            return {bytes: "b", str: "t"}.get(type(kval(v)))
        if v.tag == "sym":
            ty, _ = self.I.type_of(v, st)
            c = pycls(ty) or pycls(v.meta[0])
            return {bytes: "b", bytearray: "b", memoryview: "b", str: "t"}.get(c)
        if v.tag == "ref" and st.has(v.parts[0]):
            o = st.get(v.parts[0])
            if o.kind == "inst" and pycls(o.cls) in (bytearray, memoryview):
                return "b"
        return None

    def pieces(self, v, st):
        "Pieces of byte or text data, or None if it is not data."
        v = self.I.norm(v, st)
        if v.tag == "k" and type(kval(v)) in (str, bytes):
            return [v] if kval(v) else []
        if v.tag == "ref" and self.seqkind(v, st):
            d = st.get(v.parts[0]).f.get("data", K(b""))
            return self.pieces(d, st)
        if v.tag == "sym":
            if st.fact(v).truth is False:
                return []
            if v.parts[0] == "enc" and st.fact(v.parts[1]).truth is False:
                return []
            if v.parts[0] == "seq":
                out = []
                for p in v.parts[2:]:
                    out += self.pieces(p, st)
                return out
            if v.parts[0] == "call" and v.parts[1] is K("bytes") and len(v.parts) == 4:
                return self.pieces(v.parts[3], st)
            if self.seqkind(v, st):
                return [v]
        return None

    def seq(self, kind, ps):
        out = []
        for p in ps:
            if out:
                m = self.merge(out[-1], p)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(p)
        py = bytes if kind == "b" else str
        if not out:
            return K(py())
        if len(out) == 1 and self.exactly(out[0], py):
            return out[0]
        return Sym("seq", kind, *out, ty=Py(py), exact=True, nonempty=True if any(p.tag == "k" or p.meta[3] for p in out) else None)

    def exactly(self, p, py):
        return p.tag == "k" or p.meta[0] is Py(py)

    def merge(self, a, b):
        if a.tag == "k" and b.tag == "k":
            return K(kval(a) + kval(b))
        if a.tag == "sym" and b.tag == "sym":
            pa, pb = self.part_of(a), self.part_of(b)
            if pa and pb and pa[0] is pb[0] and pa[2] == pb[1]:
                return self.part(pa[0], pa[1], pb[2])
            if self.I.cfg.merge_text and a.parts[0] == "text" and b.parts[0] == "text" and a.parts[2:4] == b.parts[2:4] and a.parts[4] is K("inc") \
                    and b.parts[4] in (K("inc"), K("fin")):
                return self.text(self.seq("b", (self.split(a.parts[1])) + self.split(b.parts[1])), a.parts[2], a.parts[3],
                                 "whole" if b.parts[4] is K("fin") else "inc")
        return None

    def split(self, v):
        if v.tag == "k":
            return [v] if kval(v) else []
        return list(v.parts[2:]) if v.parts[0] == "seq" else [v]

    def text(self, data, enc, errors, how="whole"):
        return Sym("text", data, enc, errors, K(how), ty=Py(str), exact=True)

    def part_of(self, p):
        if p.parts[0] == "part":
            return p.parts[1], kval(p.parts[2]), kval(p.parts[3])
        n = self.plen(p)
        return (p, 0, n) if n is not None else None

    def part(self, p, a, b):
        if a >= b:
            return None
        if (a, b) == (0, self.plen(p)):
            return p
        return Sym("part", p, K(a), K(b), ty=p.meta[0], exact=True, nonempty=True)

    def plen(self, p):
        if p.tag == "k":
            return len(kval(p))
        if p.parts[0] == "chunk" and kval(p.parts[3]) > 0:
            return kval(p.parts[3])
        if p.parts[0] == "part":
            return kval(p.parts[3]) - kval(p.parts[2])
        return None

    def seq_len(self, v, st):
        ps = self.pieces(v, st)
        if ps is None:
            return None
        n = 0
        for p in ps:
            k = self.plen(p)
            if k is None:
                return None
            n += k
        return n

    def seq_cat(self, a, b, st):
        kind = self.seqkind(a, st) or self.seqkind(b, st)
        pa, pb = self.pieces(a, st), self.pieces(b, st)
        if kind is None or pa is None or pb is None:
            return None
        return self.seq(kind, pa + pb)

    def seq_slice(self, v, k, st):
        "v[a:b] -> value or None if unknown"
        kind = self.seqkind(v, st)
        ps = self.pieces(v, st)
        if kind is None or ps is None:
            return None
        lo, hi, step = [self.I.norm(x, st) for x in k.parts]
        if step is not NONE and step is not K(1):
            return None
        if any(x.tag == "sym" and x.parts[0] == "mpos" for x in (lo, hi)):
            return self.match_slice(v, lo, hi, st)
        if lo in (NONE, K(0)) and hi is NONE:
            return self.seq(kind, ps)
        n = self.seq_len(v, st)
        if n is None:
            # cuts inside the first pieces whose length is known
            a = kval(lo) if is_k(lo, int) else 0 if lo is NONE else None
            b = kval(hi) if is_k(hi, int) else None
            if a is None or a < 0 or hi is not NONE and (b is None or b < 0):
                return None
            return self.cut(kind, ps, a, b)
        if not (lo is NONE or is_k(lo, int)) or not (hi is NONE or is_k(hi, int)):
            return None
        a, b, _ = slice(None if lo is NONE else kval(lo), None if hi is NONE else kval(hi)).indices(n)
        return self.cut(kind, ps, a, b)

    # ------------------------------------------------------------ regular expressions
    # a match divides its text into the part before, the match and the part after

    def match_part(self, m, which):
        return Sym("mpart", m, K(which), ty=Py(str), exact=True)

    def match_text(self, m):
        return m.parts[3]

    def match_slice(self, v, lo, hi, st):
        m = next(x.parts[1] for x in (lo, hi) if x.tag == "sym" and x.parts[0] == "mpos")
        text = self.seq("t", self.pieces(v, st) or [])
        if text is not self.match_text(m):
            return Sym("miscut", v, lo, hi, ty=Py(str), exact=True)
        def pos(x, default):
            if x is NONE or x is K(0) and default == 0:
                return default
            if x.tag == "sym" and x.parts[0] == "mpos" and x.parts[1] is m:
                return {"start": 1, "end": 2}[kval(x.parts[2])]
            if x.tag == "sym" and x.parts[0] == "len" and x.parts[1] is v:
                return 3
            return None
        a, b = pos(lo, 0), pos(hi, 3)
        if a is None or b is None:
            return Sym("miscut", v, lo, hi, ty=Py(str), exact=True)
        return self.seq("t", [self.match_part(m, n) for n in ("before", "match", "after")[a:b]])

    def x_Pattern_search(self, v, args, kw, st, node):
        ps = self.pieces(args[0], st)
        if ps is None or len(args) != 1 or kw:
            self.ext("re.search", st, node, args, kw, recv=v)
            return [(st.newsym(self.site(node, ":search"), ty=None), st)]
        t = self.seq("t", ps)
        self.I.emit(st, "search", pattern=v, text=t, node=node)
        return [(Sym("call", K("re.search"), v, t, ty=Py(re.Match), exact=True, opt=True), st)]

    def match_method(self, v, name, args, st):
        "Methods of a successful search -> value or None."
        a = [self.I.norm(x, st) for x in args]
        if all(x is K(0) for x in a) and len(a) <= 1:
            if name in ("start", "end"):
                return Sym("mpos", v, K(name), ty=Py(int), exact=True)
            if name == "span":
                return Tup([Sym("mpos", v, K("start"), ty=Py(int), exact=True), Sym("mpos", v, K("end"), ty=Py(int), exact=True)])
            if name in ("group", "__getitem__"):
                return self.match_part(v, "match")
        return None

    def is_match(self, v):
        return v.tag == "sym" and v.parts[0] == "call" and v.parts[1] is K("re.search") and len(v.parts) == 4

    def len_order(self, op, x, y, st):
        "Order of the lengths of two texts of which one extends the other, or None."
        a, b = self.pieces(x, st), self.pieces(y, st)
        if a is None or b is None:
            return None
        rest = list(a)
        for p in b:
            if p not in rest:
                return None
            rest.remove(p)
        some = any(p.tag == "k" or p.meta[3] or st.fact(p).truth is True for p in rest)
        if op == "GtE" or not rest:
            return op == "GtE" or op == "LtE"
        if op == "Gt" and some:
            return True
        if op == "Lt" or op == "LtE" and some:
            return False
        return None

    def flat(self, v, st):
        """Pieces of text with every complete division by a match undone. Pieces known
        to be empty are left out."""
        ps = self.flat1(v, st)
        if ps is None:
            return None
        more = True
        while more:
            more = False
            for i, p in enumerate(ps):
                if p.tag != "sym" or p.parts[0] != "mpart":
                    continue
                m = p.parts[1]
                j, whole = i, True
                for which in ("before", "match", "after"):
                    q = self.match_part(m, which)
                    if j < len(ps) and ps[j] is q:
                        j += 1
                    elif st.fact(q).truth is not False:
                        whole = False
                if whole:
                    ps[i:j] = self.flat1(self.match_text(m), st)
                    more = True
                    break
        return ps

    def flat1(self, v, st):
        v = self.I.norm(v, st)
        if v.tag == "k":
            return [v] if kval(v) else []
        if v.tag == "sym":
            if v.parts[0] == "seq":
                return [q for p in v.parts[2:] for q in self.flat1(p, st)]
            if st.fact(v).truth is False and v.parts[0] != "mpart":
                return []
            return [v]
        return None

    def cut(self, kind, ps, a, b):
        out = []
        pos = 0
        for p in ps:
            n = self.plen(p)
            if b is not None and pos >= b:
                break
            if n is None:
                if pos >= a and b is None:
                    out.append(p)
                    continue
                return None
            x, y = max(a - pos, 0), n if b is None else min(b - pos, n)
            if x < y:
                if p.tag == "k":
                    out.append(K(kval(p)[x:y]))
                elif p.parts[0] == "part":
                    q = self.part(p.parts[1], kval(p.parts[2]) + x, kval(p.parts[2]) + y)
                    out.append(q)
                else:
                    out.append(self.part(p, x, y))
            pos += n
        return self.seq(kind, out)

    # ------------------------------------------------------------ operations

    def seq_truth(self, v, st):
        ps = self.pieces(v, st)
        if ps is None:
            return None
        if not ps:
            return False
        if any(p.tag == "k" or p.meta[3] for p in ps):
            return True
        return None

    def seq_method(self, v, name, args, kw, st, node):
        "Methods of bytes, bytearray, memoryview and str -> outcomes or None."
        I = self.I
        kind = self.seqkind(v, st)
        if kind is None:
            return None
        args = [I.norm(a, st) for a in args]
        if name == "decode" and kind == "b":
            enc, err = self.codec_args(args, kw)
            return self.seq_decode(v, enc, err, st, node)
        if name == "encode" and kind == "t":
            enc, err = self.codec_args(args, kw)
            return self.seq_encode(v, enc, err, st, node)
        if name == "join" and len(args) == 1:
            items = self.known_items(args[0], st)
            if items is None:
                return None
            sep = self.pieces(v, st)
            out = []
            for i, x in enumerate(items):
                ps = self.pieces(x, st)
                if ps is None:
                    return None
                out += (sep if i else []) + ps
            return [(self.seq(kind, out), st)]
        if name in ("tobytes", "__bytes__", "copy", "release", "__str__") and not args:
            return [(self.seq(kind, self.pieces(v, st)), st)]
        if name in ("endswith", "startswith") and len(args) == 1 and is_k(args[0], bytes, str):
            ps = self.pieces(v, st)
            if ps is None:
                return None
            if not ps:
                return [(B(not kval(args[0])), st)]
            p = ps[-1 if name == "endswith" else 0]
            if p.tag == "k" and len(kval(p)) >= len(kval(args[0])):
                return [(B(getattr(kval(p), name)(kval(args[0]))), st)]
            self.ext("data." + name, st, node, args, kw, recv=v)
            return [(Sym("call", K("data." + name), p, args[0], ty=Py(bool), exact=True), st)]
        return None

    def codec_args(self, args, kw):
        enc = args[0] if args else kw.get("encoding", K("utf-8"))
        err = args[1] if len(args) > 1 else kw.get("errors", K("strict"))
        return enc, err

    def seq_decode(self, v, enc, err, st, node, how="whole", dec=NONE):
        ps = self.pieces(v, st)
        if ps is None:
            return None
        self.ext("bytes.decode", st, node, [enc, err], recv=v)
        self.I.emit(st, "decode", v=v, enc=enc, errors=err, how=how, dec=dec, node=node)
        f = self.pyfault("bytes.decode", st, node)
        if not ps and how == "whole":
            return f + [(K(""), st)]
        if len(ps) == 1 and ps[0].tag == "sym" and ps[0].parts[0] == "enc" and ps[0].parts[2:4] == (enc, err):
            return f + [(ps[0].parts[1], st)]
        if all(p.tag == "k" for p in ps) and is_k(enc, str) and is_k(err, str) and how == "whole":
            try:
                return f + [(K(kval(self.seq("b", ps)).decode(kval(enc), kval(err))), st)]
            except Exception as ex:
                return self.exc(st, type(ex), node=node)
        return f + [(self.text(self.seq("b", ps), enc, err, how), st)]

    def seq_encode(self, v, enc, err, st, node):
        ps = self.pieces(v, st)
        if ps is None:
            return None
        self.ext("str.encode", st, node, [enc, err], recv=v)
        self.I.emit(st, "encode", v=v, enc=enc, errors=err, node=node)
        f = self.pyfault("str.encode", st, node)
        if not ps:
            return f + [(K(b""), st)]
        if all(p.tag == "k" for p in ps) and is_k(enc, str) and is_k(err, str):
            try:
                return f + [(K(kval(self.seq("t", ps)).encode(kval(enc), kval(err))), st)]
            except Exception as ex:
                return self.exc(st, type(ex), node=node)
        d = self.seq("t", ps)
        return f + [(Sym("enc", d, enc, err, ty=Py(bytes), exact=True, nonempty=d.meta[3] if d.tag == "sym" else None), st)]

    # ------------------------------------------------------------ streams

    def stream_state(self, recv, st):
        t = st.mon.get(("$rd",))
        for r in (t.parts[0] if t is not None else ()):
            if r.parts[0][0] is recv:
                return kval(r.parts[0][1]), r.parts[0][2]
        return 0, FALSE

    def stream_put(self, recv, n, eof, st):
        t = st.mon.get(("$rd",))
        rest = tuple(r for r in (t.parts[0] if t is not None else ()) if r.parts[0][0] is not recv)
        st.mon[("$rd",)] = Tup(rest + (Tup([recv, K(n), eof]),))

    def stream_next(self, recv, nm, args, st, node):
        "Outcomes of one successful read -> [(value or None at end, st)]."
        I = self.I
        n, eof = self.stream_state(recv, st)
        size = I.norm(args[0], st) if args else K(-1)
        if size is K(0):
            return [(K(b""), st)]
        whole = nm == "StreamReader.read" and size is K(-1)
        out = []
        if eof is not TRUE and n < I.cfg.max_reads:
            for x in I.cfg.contents:
                s = st.fork()
                self.stream_put(recv, n + 1, B(whole), s)
                out.append((K(x), s))
            for k in I.cfg.lens or ((0,) if not I.cfg.contents else ()):
                s = st.fork()
                c = Sym("chunk", recv, K(n), K(k), K("rest" if whole else "line" if nm.endswith(("readline", "__anext__", "readuntil")) else "raw"),
                        ty=Py(bytes), exact=True, nonempty=True)
                self.stream_put(recv, n + 1, B(whole), s)
                out.append((c, s))
        self.stream_put(recv, n, TRUE, st)
        I.emit(st, "exhausted", it=recv, node=node)
        out.append((None, st))
        return out

    def delivered(self, recv, st):
        "Everything read from a stream so far, and whether its end was seen."
        n, eof = self.stream_state(recv, st)
        return n, eof

    # ------------------------------------------------------------ incremental decoders

    def new_decoder(self, enc, err, st, node):
        self.ext("IncrementalDecoder", st, node, [enc, err])
        return [(st.alloc(self.site(node, ":decoder"), H("inst", Py(codecs.IncrementalDecoder), {"enc": enc, "errors": err})), st)]

    def x_IncrementalDecoder_decode(self, v, args, kw, st, node):
        o = st.get(v.parts[0])
        fin = args[1] if len(args) > 1 else kw.get("final", FALSE)
        out = []
        for b, s in self.I.truth(fin, st):
            r = self.seq_decode(args[0], o.f.get("enc", K("utf-8")), o.f.get("errors", K("strict")), s, node, "fin" if b else "inc", v)
            if r is None:
                return [(Sym("call", K("incdec"), v, *args, ty=Py(str), exact=True), st)]
            for x, z in r:
                if not isinstance(x, Raise):
                    self.I.emit(z, "decoded", dec=v, inner=NONE, value=x, node=node)
            out += r
        return out

    def x_IncrementalNewlineDecoder_decode(self, v, args, kw, st, node):
        out = []
        for r, s in self.I.call(mk("meth", st.get(v.parts[0]).f["inner"], "decode"), args, kw, st, node):
            if not isinstance(r, Raise):
                r = Sym("call", K("newlines"), r, ty=Py(str), exact=True)
                self.I.emit(s, "decoded", dec=v, inner=st.get(v.parts[0]).f["inner"], value=r, node=node)
            out.append((r, s))
        return out

    # ------------------------------------------------------------ positions of user buffers

    def buf_data(self, o):
        return o.f.get("data")

    def buf_seek(self, v, args, st):
        o = st.get(v.parts[0])
        off = self.I.norm(args[0], st)
        wh = self.I.norm(args[1], st) if len(args) > 1 else K(0)
        wh = self.I.enum_int(wh) if wh.tag != "k" else kval(wh)
        if off is K(0) and wh == 0:
            pos = K("start")
        elif off is K(0) and wh == 2:
            pos = K("end")
        elif off is K(0) and wh == 1:
            return
        else:
            pos = K("?")
        st.put(v.parts[0], o.with_f("pos", pos))

    def buf_truncate(self, v, args, st):
        o = st.get(v.parts[0])
        size = self.I.norm(args[0], st) if args else NONE
        pos = o.f.get("pos", K("end"))
        empty = K("") if pycls(o.cls) in (io.StringIO,) else K(b"")
        if size is K(0) or size is NONE and pos is K("start"):
            # the position stays behind the (now empty) contents
            npos = K("start") if pos is K("start") or self.seq_truth(o.f["data"], st) is False else K("?") if pos is K("end") else pos
            st.put(v.parts[0], o.with_fs({"data": empty, "pos": npos}))
        elif size is NONE and pos is K("end"):
            pass
        else:
            st.put(v.parts[0], o.with_f("data", Sym("truncated", o.f["data"], size, ty=Py(bytes), exact=True)))

    def buf_write(self, v, x, st):
        o = st.get(v.parts[0])
        d = o.f["data"]
        pos = o.f.get("pos", K("end"))
        empty = self.seq_truth(d, st) is False
        if pos is K("start") and not empty:
            nd = Sym("overwritten", d, x, ty=Py(str if pycls(o.cls) is io.StringIO else bytes), exact=True)
        elif pos is K("?"):
            nd = Sym("misplaced", d, x, ty=Py(str if pycls(o.cls) is io.StringIO else bytes), exact=True)
        else:
            nd = self.seq_cat(d, x, st)
            if nd is None:
                nd = Sym("cat", d, x, ty=Py(str if pycls(o.cls) is io.StringIO else bytes), exact=True)
        st.put(v.parts[0], o.with_fs({"data": nd, "pos": pos if pos is K("?") else K("end")}))

    def seq_without(self, d, k, st):
        "d with the slice k removed."
        lo, hi = self.I.norm(k.parts[0], st), self.I.norm(k.parts[1], st)
        a = self.seq_slice(d, mk("slice", NONE, lo if lo is not NONE else K(0), NONE), st)
        b = K(b"") if hi is NONE else self.seq_slice(d, mk("slice", hi, NONE, NONE), st)
        if lo is NONE and hi is NONE:
            return K(b"")
        if a is None or b is None:
            return None
        if is_k(lo, int) and is_k(hi, int) and kval(lo) >= 0 and 0 <= kval(hi) < kval(lo):
            return d
        return self.seq_cat(a, b, st)

    def seq_replaced(self, d, k, v, st):
        lo, hi = self.I.norm(k.parts[0], st), self.I.norm(k.parts[1], st)
        a = self.seq_slice(d, mk("slice", NONE, lo if lo is not NONE else K(0), NONE), st)
        b = K(b"") if hi is NONE else self.seq_slice(d, mk("slice", hi, NONE, NONE), st)
        if a is None or b is None:
            return None
        ab = self.seq_cat(a, v, st)
        return None if ab is None else self.seq_cat(ab, b, st)
