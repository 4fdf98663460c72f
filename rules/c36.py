"""C36: The headers of MPEG audio frames, and the VBR headers, are decoded as published."""

from bits import Bits, St, KNOWN, bare, const_bits, source, unknown, resize, value_of
from facts import AnalysisBroken
from flow import ANY, N, THR, Flow, Out
from program import const, fn_nodes, uncast, walk, where

TECHNIQUE = "abstract interpretation with bit origins: the constructors are evaluated symbolically over every combination of version, bit rate, sampling rate, padding, protection and channel mode, all other bits being unknown, and what the accessors answer and how far the stream is advanced are compared with the published tables"

S, X = ("S",), ("X",)

# ISO/IEC 11172-3 2.4.2.3 and 13818-3 2.4.2.3, layer III
RATES = {1: (32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320), 2: (8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160)}
HZ = {3: (44100, 48000, 32000), 2: (22050, 24000, 16000), 0: (11025, 12000, 8000)}
NAME = {3: "1", 2: "2", 0: "2_5"}


def is_stream(e):
    t = bare(e.get("t"))
    return t is not None and "stream" in (t.rec or "")


def is_opt(t):
    t = bare(t)
    return t is not None and t.rec == "std::optional"


def rec(e):
    t = bare(e.get("t"))
    return (t.rec or "") if t is not None else ""


class Mp3(Bits):
    """The input is the stream S, from the first byte of the header."""

    def __init__(self, prog, tables, apart=()):
        Bits.__init__(self, prog)
        self.tables = tables
        self.apart = apart          # classes whose objects are not looked into

    def wanted(self, n, tg):
        return all(t["l"][0].endswith(("mp3.cc", "mp3.hh")) and t.get("cls") not in self.apart for t in tg)

    # -- tables -------------------------------------------------------------------
    def path(self, e, st):
        """(table, indices) of an element of a table."""
        out = []
        e = uncast(e)
        while e["k"] == "idx" or e["k"] == "call" and (e.get("op") == "[]" or (e.get("f") or "").endswith("::at") and e.get("obj") is not None):
            if e["k"] == "idx":
                a, b = e["a"], e["b"]
            elif e.get("op") == "[]":
                a, b = e["a"][0], e["a"][1]
            else:
                a, b = e["obj"], e["a"][0]
            out.append(value_of(self.eval(b, st)))
            e = uncast(a)
        if out and e["k"] == "var":
            t = self.tables.get(e["id"]) or self.tables.get(e.get("q") or "")
            if t is not None:
                return t, out[::-1]
        return None

    def eval(self, e, st):
        if e is not None and e["k"] in ("idx", "call") and const(e) is None and st.get(("res", id(e))) is None:
            p = self.path(e, st)
            if p is not None:
                w = self.width(e.get("t"))
                t = p[0]
                for i in p[1]:
                    t = entries(t)
                    if i is None or t is None or not 0 <= i < len(t):
                        return unknown(*w) if w is not None else None
                    t = t[i]
                c = const(uncast(t))
                if c is not None and w is not None:
                    return const_bits(c, *w)
                return unknown(*w) if w is not None else None
        if e is not None and e["k"] in ("ctor", "init"):
            a = [x for x in e.get("a") or ()]
            if len(a) == 2 and rec(e) == "std::pair":
                return ("pair", self.eval(a[0], st), self.eval(a[1], st))
            if is_opt(e.get("t")):
                if not a:
                    return ("opt", 0, None)
                if len(a) == 1:
                    return self.optional(a[0], st)
        if e is not None and e["k"] == "zero" and is_opt(e.get("t")):
            return ("opt", 0, None)
        if e is not None and e["k"] == "cast" and is_opt(e.get("t")) and not is_opt(e["e"].get("t")):
            return self.optional(e["e"], st)
        if e is not None and e["k"] == "mem" and e["n"] in ("first", "second"):
            v = self.eval(e["b"], st)
            if v is not None and v[0] == "pair":
                return v[1 if e["n"] == "first" else 2]
        v = Bits.eval(self, e, st)
        return v

    def optional(self, e, st):
        x = uncast(e)
        if "nullopt" in str(rec(x)) or x["k"] == "var" and x["n"] == "nullopt":
            return ("opt", 0, None)
        v = self.eval(e, st)
        if v is not None and v[0] == "opt":
            return v
        return ("opt", 1, v)

    def know(self, v, st):
        if v is not None and v[0] == "opt":
            return ("opt", v[1], self.know(v[2], st))
        if v is not None and v[0] == "pair":
            return ("pair", self.know(v[1], st), self.know(v[2], st))
        return Bits.know(self, v, st)

    def truth(self, v, st):
        if v is not None and v[0] == "opt":
            return ("b", (v[1] if v[1] in (0, 1) else "?",), False)
        return Bits.truth(self, v, st)

    def value_of_call(self, e, st, w):
        a = e.get("a") or ()
        f = e.get("f") or ""
        m = f.split("::")[-1]
        o = e.get("obj")
        if m == "make_pair" and len(a) == 2:
            return ("pair", self.eval(a[0], st), self.eval(a[1], st))
        if m.startswith("operator ") and o is not None and "fpos" in rec(o):
            return self.eval(o, st)
        if m in ("make_optional",) and len(a) == 1:
            return ("opt", 1, self.eval(a[0], st))
        if o is not None and is_opt(o.get("t")):
            v = self.eval(o, st)
            if v is not None and v[0] == "opt":
                if m in ("has_value", "operator bool"):
                    return ("b", (v[1] if v[1] in (0, 1) else "?",), False)
                if m == "value" or e.get("op") == "*":
                    return v[2]
                if m == "value_or" and len(a) == 1 and v[1] in (0, 1):
                    return v[2] if v[1] else self.eval(a[0], st)
        if e.get("op") == "*" and len(a) == 1 and is_opt(a[0].get("t")):
            v = self.eval(a[0], st)
            return v[2] if v is not None and v[0] == "opt" else unknown(*w) if w is not None else None
        if e.get("op") in ("==", "!=") and len(a) == 2 and is_opt(a[0].get("t")) and "nullopt" in rec(uncast(a[1])):
            v = self.eval(a[0], st)
            if v is not None and v[0] == "opt" and v[1] in (0, 1):
                return const_bits(int((v[1] == 0) == (e["op"] == "==")), 1, False)
            return ("b", ("?",), False)
        if m in ("htons", "ntohs", "htobe16", "be16toh", "__bswap_16", "__builtin_bswap16") and len(a) == 1:
            v = self.eval(a[0], st)
            if v is not None and v[0] == "b" and len(v[1]) >= 16:
                v = ("b", v[1][8:16] + v[1][:8], False)
                return resize(v, *w) if w is not None else v
        if o is not None and rec(o) in self.apart:
            v = source(("call", rec(o), m), 64)
            return ("opt", "?", v) if is_opt(e.get("t")) else v
        return Bits.value_of_call(self, e, st, w)

    # -- effects ------------------------------------------------------------------
    def assign(self, lhs, v, st):
        if is_opt(lhs.get("t")) and self.key(lhs) is not None:
            return st.set(self.key(lhs), v if v is not None and v[0] == "opt" else ("opt", 1, v))
        return Bits.assign(self, lhs, v, st)

    def assign_op(self, n, a, st):
        if n.get("op") == "=" and len(a) == 2 and is_opt(a[0].get("t")) and self.key(a[0]) is not None:
            return st.set(self.key(a[0]), self.optional(a[1], st))
        if n.get("op") == "=" and len(a) == 2:
            # std::tie(a, b) = pair
            l = uncast(a[0])
            if l["k"] == "call" and (l.get("f") or "").split("::")[-1] == "tie" and len(l["a"]) == 2:
                v = self.eval(a[1], st)
                if v is not None and v[0] == "pair":
                    for x, y in zip(l["a"], v[1:]):
                        st = Bits.assign(self, x, y, st)
                    return st
        return Bits.assign_op(self, n, a, st)

    def after_init(self, f, i, st):
        if i.get("m") is not None:
            for r in self.prog.recs.get(f.get("cls") or "", {}).get("fields", ()):
                if r["n"] == i["m"] and is_opt(r["t"]):
                    return st.set(("f", i["m"]), self.optional(i["e"], st))
        return Bits.after_init(self, f, i, st)

    def fields_of(self, cls, st):
        """Optional members start out empty."""
        for r in self.prog.recs[cls]["fields"]:
            if is_opt(r["t"]):
                st = st.set(("f", r["n"]), ("opt", 0, None))
        return st

    def call(self, n, st):
        if n["k"] == "ctor" and not n.get("copy") and not n.get("move") and any(is_stream(x) for x in n.get("a") or ()):
            c = (n.get("cls") or "").split("::")[-1]
            if c.endswith("_mp3_tag"):
                pos = st.get(("pos",))
                at = None
                for x in n["a"]:
                    if not is_stream(x):
                        v = self.eval(x, st)
                        at = self.origin(v, st)
                k = dict(st.get(KNOWN) or ())
                mark = ""
                for j in range(-4, 0):
                    b = [k.get(((pos[1], pos[2] + j), i)) for i in range(8)] if pos is not None else [None]
                    mark += chr(sum(int(x) << i for i, x in enumerate(b))) if None not in b else "?"
                st = st.set(("vbr",), (st.get(("vbr",)) or frozenset()) | {(c, pos, mark, at)})
                st = st.set(("pos",), ("at", X, 0))
        yield from Bits.call(self, n, st)

    def origin(self, v, st):
        """Where in the stream the first four bytes at a place come from."""
        if v is None or v[0] != "at":
            return None
        for a, n, b, s in self.block(v[1], st):
            if a <= v[2] and v[2] + 4 <= a + n and b is not None:
                return ("at", b, s + v[2] - a)
        return v if v[1] in (S, X) else None

    def opaque(self, n, st):
        m = (n.get("f") or "").split("::")[-1]
        o = n.get("obj")
        if o is not None and is_stream(o):
            a = n.get("a") or ()
            pos = st.get(("pos",))
            if m in ("read", "get") and (m == "read" and len(a) == 2 or not a):
                k = value_of(self.eval(a[1], st)) if a else 1
                if not a:
                    v = self.byte(pos[1], pos[2], st) if pos is not None else unknown(8)
                    st = st.set(("res", id(n)), resize(v, 32, True))
                else:
                    d = self.eval(a[0], st)
                    if pos is None or k is None:
                        st = self.spoil(d, st)
                        if d is not None and d[0] == "at" and d[1][0] == "one":
                            st = st.set(d[1][1], None)
                    elif d is not None and d[0] == "at":
                        st = self.copy(pos, k, d, st)
                        if d[1][0] == "one":
                            w = 8 * k
                            bits = ()
                            for j in range(k):
                                bits += self.byte(d[1], j, st)[1]
                            st = st.set(("blk", d[1]), None)
                            st = st.set(d[1][1], ("b", bits[:w], False))
                        elif d[1][0] == "fld" and not self.array(d[1][1], n):
                            bits = ()
                            for j in range(k):
                                bits += self.byte(d[1], j, st)[1]
                            st = st.set(("blk", d[1]), None)
                            st = st.set(("f", d[1][1]), ("b", bits, False))
                return st.set(("pos",), ("at", pos[1], pos[2] + k) if pos is not None and k is not None else None)
            if m == "ignore":
                k = value_of(self.eval(a[0], st)) if a else 1
                return st.set(("pos",), ("at", pos[1], pos[2] + k) if pos is not None and k is not None else None)
            if m == "seekg":
                v = self.eval(a[0], st)
                if len(a) == 2 and "cur" in str(uncast(a[1]).get("n") or uncast(a[1]).get("q") or ""):
                    k = value_of(v)
                    return st.set(("pos",), ("at", pos[1], pos[2] + k) if pos is not None and k is not None else None)
                return st.set(("pos",), v if v is not None and v[0] == "at" else None)
            if m == "tellg":
                return st.set(("res", id(n)), pos)
            return st
        if m in ("make_pair", "make_optional", "tie", "get", "holds_alternative") or m in READERS and (n.get("f") or "").startswith("std::"):
            return st
        return Bits.opaque(self, n, st)

    # -- comparisons of blocks of bytes --------------------------------------------
    def byte(self, base, off, st):
        if base[0] == "arr" and st.get(("blk", base)) is None:
            t = self.tables.get(base[1])
            t = entries(t) if t is not None and not isinstance(t, str) else None
            if t is not None and 0 <= off < len(t) and const(uncast(t[off])) is not None:
                return const_bits(const(uncast(t[off])), 8, False)
        if base[0] == "lit":
            b = base[1]
            return const_bits(ord(b[off]) & 255 if off < len(b) else 0, 8, False)
        return Bits.byte(self, base, off, st)

    def text(self, e, st):
        """(place, length) of a string of bytes."""
        x = uncast(e)
        if x["k"] == "str":
            v = x.get("v", x.get("s"))
            return (("at", ("lit", v), 0), len(v)) if isinstance(v, str) else (None, None)
        if x["k"] == "ctor" and "string" in rec(x):
            a = [y for y in x.get("a") or () if "allocator" not in rec(y)]
            if len(a) == 1:
                return self.text(a[0], st)
            if len(a) == 2:
                p, n = self.text(a[0], st)[0], value_of(self.eval(a[1], st))
                q = self.eval(a[1], st)
                if p is not None and q is not None and q[0] == "at" and q[1] == p[1]:
                    n = q[2] - p[2]
                return p, n
        if x["k"] == "call" and len(x.get("a") or ()) == 2 and "operator\"\"" in (x.get("f") or ""):
            return self.text(x["a"][0], st)
        v = self.eval(e, st)
        if v is not None and v[0] == "at":
            return v, None
        b = self.base_of(e, st)
        return (("at", b, 0), None) if b is not None else (None, None)

    def same(self, c, st):
        """([(bits, bits)], does truth mean equality) of a comparison of bytes."""
        e = uncast(c)
        if e["k"] == "un" and e["op"] == "!":
            r = self.same(e["e"], st)
            return (r[0], not r[1]) if r is not None else None
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
                if const(y) == 0:
                    r = self.same(x, st)
                    if r is not None:
                        return r[0], r[1] != (e["op"] == "==")
            return None
        if e["k"] != "call":
            return None
        a = e.get("a") or ()
        m = (e.get("f") or "").split("::")[-1]
        p = q = n = None
        eq = True
        if m in ("memcmp", "strncmp", "bcmp", "__builtin_memcmp") and len(a) == 3:
            p, q, n = self.text(a[0], st)[0], self.text(a[1], st)[0], value_of(self.eval(a[2], st))
            eq = False
        elif m == "equal" and len(a) in (3, 4):
            p, q = self.text(a[0], st)[0], self.text(a[2], st)[0]
            z = self.eval(a[1], st)
            if p is not None and z is not None and z[0] == "at" and z[1] == p[1]:
                n = z[2] - p[2]
        elif e.get("op") in ("==", "!=") and len(a) == 2 and ("string" in rec(uncast(a[0])) or "string" in rec(uncast(a[1]))):
            (p, j), (q, k) = self.text(a[0], st), self.text(a[1], st)
            eq = e["op"] == "=="
            n = j if j is not None and j == k else None
        if p is None or q is None or n is None or not 0 < n <= 16:
            return None
        return [(self.byte(p[1], p[2] + i, st)[1][b], self.byte(q[1], q[2] + i, st)[1][b]) for i in range(n) for b in range(8)], eq

    def assume(self, c, st, truth):
        r = self.same(c, st)
        if r is None:
            return Bits.assume(self, c, st, truth)
        k = set(st.get(KNOWN) or ())
        differ = False
        open_ = False
        for x, y in r[0]:
            if x in (0, 1) and y in (0, 1):
                differ = differ or x != y
                continue
            open_ = True
            if x in (0, 1):
                x, y = y, x
            if isinstance(x, tuple) and y in (0, 1):
                k.add((x[1:], bool(y) == (x[0] == "i")))
        if truth == r[1]:
            return None if differ else st.set(KNOWN, frozenset(k))
        return st if differ or open_ else None

    def stmt(self, s, st):
        # a condition that is returned is decided, so that what follows from it is known
        if s["k"] == "return" and s.get("e") is not None and bare(s["e"].get("t")) is not None and bare(s["e"]["t"]).k == "bool" and len(self.stack) > 1:
            T, F, ts = self.cond(s["e"], st)
            o = Out()
            o.t |= ts
            for b, l in ((1, T), (0, F)):
                o.r |= {x.set(("ret", len(self.stack)), const_bits(b, 1, False)) for x in l}
            return o
        lhs = rhs = None
        if s["k"] == "decl" and len(s["d"]) == 1 and s["d"][0].get("i") is not None and s["d"][0]["t"].k == "bool":
            lhs, rhs = s["d"][0]["id"], s["d"][0]["i"]
        elif s["k"] == "bin" and s["op"] == "=" and bare(s["a"].get("t")) is not None and bare(s["a"]["t"]).k == "bool":
            lhs, rhs = self.key(s["a"]), s["b"]
        if lhs is not None and const(rhs) is None and self.truth(self.eval(rhs, st), st)[1][0] == "?":
            T, F, ts = self.cond(rhs, st)
            o = Out()
            o.t |= ts
            for b, l in ((1, T), (0, F)):
                o.n |= {x.set(lhs, const_bits(b, 1, False)) for x in l}
            return o
        return Bits.stmt(self, s, st)

    def declare(self, v, st):
        t = bare(v["t"])
        if t is not None and t.rec in ("std::basic_string", "std::basic_string_view") and v.get("i") is not None:
            p, n = self.text(v["i"], st)
            if p is not None and n is not None and n <= 16:
                base = ("arr", v["id"])
                st = st.set(("blk", base), ())
                for i in range(n):
                    st = self.store(base, i, self.byte(p[1], p[2] + i, st), st)
                return st.set(("size", base), n)
        return Bits.declare(self, v, st)

    def array(self, m, n):
        f = self.stack[-1] if self.stack else {}
        for r in self.prog.recs.get(f.get("cls") or "", {}).get("fields", ()):
            if r["n"] == m:
                t = bare(r["t"])
                return t is not None and (t.k == "arr" or t.rec in ("std::array", "std::vector"))
        return True


# algorithms that only look at the range they are given
READERS = {"equal", "mismatch", "lexicographical_compare", "find", "search", "count", "distance", "next", "prev"}


def entries(t):
    t = uncast(t)
    while t["k"] in ("init", "ctor") and len(t.get("a") or ()) == 1 and uncast(t["a"][0])["k"] in ("init", "ctor"):
        t = uncast(t["a"][0])
    return t.get("a") if t["k"] in ("init", "ctor") else None


def tables(prog):
    """Arrays with initialisers that nothing changes."""
    out = {}
    for q, l in prog.gvars.items():
        for x in l:
            if x.get("i") is not None and entries(x["i"]) and x["l"][0].endswith(("mp3.cc", "mp3.hh")):
                out[q] = x["i"]
    fs = [f for f in prog.fns if f["l"][0].endswith(("mp3.cc", "mp3.hh")) and f.get("body") is not None]
    for f in fs:
        for n in fn_nodes(f):
            if n.get("k") == "decl":
                for v in n["d"]:
                    t = bare(v["t"])
                    if t is not None and (t.k == "arr" or t.rec == "std::array") and v.get("i") is not None and entries(v["i"]) and (v.get("static") or t.cst or "const " in t.s):
                        out[v["id"]] = v["i"]
    for f in fs:
        for n in fn_nodes(f):
            if n.get("k") == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                e = uncast(n["a"])
                while e["k"] == "idx":
                    e = uncast(e["a"])
                if e["k"] == "var":
                    out.pop(e["id"], None)
                    out.pop(e.get("q") or "", None)
    return out


def facts_of(**kw):
    """What is known of the four bytes of the header."""
    k = set()

    def put(byte, lo, n, v):
        for i in range(n):
            k.add((((S, byte), lo + i), bool((v >> i) & 1)))
    sync = kw.get("sync", 0x7ff)
    for i in range(11):
        # the 11 bits of the sync word, the first one being the highest of byte 0
        byte, bit = (0, 7 - i) if i < 8 else (1, 15 - i)
        if kw.get("only") is None or kw["only"] == i:
            k.add((((S, byte), bit), bool((sync >> (10 - i)) & 1)))
    for name, byte, lo, n in (("version", 1, 3, 2), ("layer", 1, 1, 2), ("plain", 1, 0, 1), ("rate", 2, 4, 4), ("hz", 2, 2, 2), ("pad", 2, 1, 1), ("mode", 3, 6, 2)):
        if kw.get(name) is not None:
            put(byte, lo, n, kw[name])
    return frozenset(k)


def check(prog, R):
    R.rule("decode", "for every combination of version, bit rate and sampling rate, with and without padding, protection and a second channel, each constructor yields the version, bit rate, sampling rate, number of samples and length the standard gives", 200)
    R.rule("refuse", "a header without the sync word, or with a reserved version, layer, bit rate or sampling rate, is refused on every path", 16)
    R.rule("advance", "constructing a frame takes the stream from the start of the frame to its end", 100)
    R.rule("locate", "the VBR headers are looked for where they are published to be, under their names", 10)
    R.rule("vbr", "the fields of the VBR headers are taken from the bytes published for them, most significant first", 10)
    R.rule("answer", "the counts a VBR header gives are answered as (frames, bytes)", 1)
    R.rule("duration", "the duration of a track is the number of its frames, as counted or as the VBR header gives it, times samples over sampling rate", 0)
    T = tables(prog)
    cls = {}
    for want in ("mp3_audio_frame", "xing_mp3_tag", "vbri_mp3_tag", "lame_mp3_tag"):
        c = next((c for c in sorted(prog.recs) if c.endswith("::" + want)), None)
        if c is None:
            raise AnalysisBroken("the class %s was not found" % want)
        cls[want] = c
    frame = cls["mp3_audio_frame"]
    methods = {}
    ctors = []
    for f in prog.methods(frame):
        if f.get("body") is None:
            continue
        if f.get("ctor") and not f.get("cpc") and not f.get("mvc") and any("istream" in (bare(p["t"]).rec or "") for p in f["ps"] if bare(p["t"]) is not None):
            ctors.append(f)
        elif not f["ps"]:
            methods[f["n"].split("::")[-1]] = f
    if not ctors:
        raise AnalysisBroken("no constructor of a frame from a stream was found")
    for a in ("bps", "sample_rate_hz", "size", "version", "duration", "vbri"):
        if a not in methods:
            raise AnalysisBroken("the accessor %s of a frame was not found" % a)
    versions = {}
    en = next((prog.enums[e] for e in prog.enums if e.endswith("mp3_audio_frame::mpeg_version")), None)
    if en is None:
        raise AnalysisBroken("the versions of a frame were not found")
    for x in en["e"]:
        for v, s in NAME.items():
            if x["n"].split("::")[-1].endswith("version_" + s):
                versions[v] = x["v"]
    if set(versions) != set(NAME):
        raise AnalysisBroken("the versions of a frame were not found")

    apart = (cls["xing_mp3_tag"], cls["vbri_mp3_tag"], cls["lame_mp3_tag"])

    def start(a, f, vbr, **kw):
        st = a.fields_of(frame, St({})).set(KNOWN, facts_of(**kw))
        pos = 0
        for p in f["ps"]:
            t = bare(p["t"])
            if t is not None and t.k in ("ptr", "arr"):
                st = st.set(p["id"], ("at", S, 0))
                pos = 4
            elif t is not None and t.k == "bool" and vbr is not None:
                st = st.set(p["id"], const_bits(vbr, 1, False))
        return st.set(("pos",), ("at", S, pos))

    def ask(a, name, st):
        """What an accessor answers in a state."""
        o = a.run(methods[name], st)
        out = {s.get(("ret", 1)) for s in o.r}
        return out.pop() if len(out) == 1 else None

    def one(f, which, vbr, **kw):
        a = Mp3(prog, T, apart)
        o = a.run(f, start(a, f, vbr, **kw))
        v, n, h = kw["version"], RATES[1 if kw["version"] == 3 else 2][kw["rate"] - 1] * 1000, HZ[kw["version"]][kw["hz"]]
        samples = 1152 if v == 3 else 576
        size = samples // 8 * n // h + kw["pad"]
        key = "v%s-%dkbps-%dHz%s%s-mode%d" % (NAME[v], n // 1000, h, "-padded" if kw["pad"] else "", "" if kw["plain"] else "-crc", kw["mode"])
        refused = [e for s, e in o.t if e != ANY]
        if refused or not o.r:
            R.bad("decode", "refused/%s" % which, f, "a frame (%s) is refused although it is valid" % key)
            return
        want = {"version": versions[v], "bps": n, "sample_rate_hz": h, "size": size}
        bad = False
        for s in o.r:
            for m, x in want.items():
                g = value_of(ask(a, m, s))
                if g != x:
                    R.bad("decode", "%s/%s/%s" % (m, which, "v" + NAME[v]), methods[m], "%s() of a frame (%s) answers %s, not %s" % (m, key, "something that depends on other bits" if g is None else g, x))
                    bad = True
            d = ask(a, "duration", s)
            d = tuple(value_of(x) for x in d[1:]) if d is not None and d[0] == "pair" else None
            if d is None or None in d or not d[1] or d[0] * h != d[1] * samples:
                R.bad("decode", "duration/%s/%s" % (which, "v" + NAME[v]), methods["duration"], "duration() of a frame (%s) answers %s, not %d/%d" % (key, d, samples, h))
                bad = True
            p = s.get(("pos",))
            if p != ("at", S, size):
                R.bad("advance", "%s/%s" % (which, "v" + NAME[v]), f, "after a frame of %d bytes (%s) has been read the stream is %s" % (size, key, "%d bytes on" % p[2] if p is not None and p[1] == S else "somewhere unknown"))
                bad = True
        if not bad:
            R.ok("decode", which + " " + key)
            R.ok("advance", which + " " + key)
        if vbr is None:
            located(f, which, o, kw, key)

    def located(f, which, o, kw, key):
        side = (17 if kw["mode"] == 3 else 32) if kw["version"] == 3 else (9 if kw["mode"] == 3 else 17)
        crc = 0 if kw["plain"] else 2
        seen = set()
        for s in o.r:
            seen |= s.get(("vbr",)) or frozenset()
        first = 4 + crc + side
        marks = set()
        bad = False
        for c, pos, mark, at in seen:
            p = pos[2] - 4 if pos is not None and pos[1] == S else None
            if c == "xing_mp3_tag":
                if p not in (first, first - 2):
                    R.bad("locate", "xing/%s" % which, f, "in a frame (%s) the Xing header is looked for at offset %s, not %d" % (key, p, first))
                    bad = True
                elif mark not in ("Xing", "Info"):
                    R.bad("locate", "xing-mark/%s" % which, f, "in a frame (%s) a Xing header is read although the mark may be %s" % (key, mark))
                    bad = True
                elif p == first:
                    marks.add(mark)
            elif c == "vbri_mp3_tag":
                if p not in (36, 36 + crc):
                    R.bad("locate", "vbri/%s" % which, f, "in a frame (%s) the VBRI header is looked for at offset %s, not 36" % (key, p))
                    bad = True
                elif mark != "VBRI":
                    R.bad("locate", "vbri-mark/%s" % which, f, "in a frame (%s) a VBRI header is read although the mark may be %s" % (key, mark))
                    bad = True
                else:
                    marks.add(mark)
            elif c == "lame_mp3_tag":
                if pos is None or pos[1] != X or pos[2] != 4 or at != ("at", X, 0):
                    R.bad("locate", "lame/%s" % which, f, "in a frame (%s) the LAME header is not read from right after the Xing header" % key)
                    bad = True
                else:
                    marks.add("LAME")
        if not bad:
            for m in ("Xing", "Info", "VBRI"):
                if m not in marks:
                    R.bad("locate", "%s-missed/%s" % (m, which), f, "in a frame (%s) no %s header is looked for at its place" % (key, m))
                    bad = True
        if not bad:
            R.ok("locate", "%s %s, %s" % (which, key, ", ".join(sorted(marks))))

    for f in sorted(ctors, key=lambda f: len(f["ps"])):
        which = "buffer" if any(bare(p["t"]).k in ("ptr", "arr") for p in f["ps"]) else "stream"
        for v in HZ:
            for r in range(1, 15):
                for h in range(3):
                    for pad in (0, 1):
                        for plain in (0, 1):
                            for mode in ((r + h) % 3, 3):
                                one(f, which, 0, version=v, layer=1, plain=plain, rate=r, hz=h, pad=pad, mode=mode)
            for plain in (0, 1):
                for mode in range(4):
                    one(f, which, None, version=v, layer=1, plain=plain, rate=9, hz=0, pad=0, mode=mode)
        refusals = [("version", dict(version=1)), ("layer0", dict(layer=0)), ("layer2", dict(layer=2)), ("layer3", dict(layer=3)),
                    ("rate0", dict(rate=0)), ("rate15", dict(rate=15)), ("hz3", dict(hz=3))]
        for i in range(11):
            refusals.append(("sync%d" % i, dict(sync=0, only=i)))
        for name, kw in refusals:
            a = Mp3(prog, T, apart)
            o = a.run(f, start(a, f, 0, **kw))
            if o.r:
                R.bad("refuse", "%s/%s" % (name, which), f, "a header is accepted although %s" % ("its sync word is broken" if name.startswith("sync") else "its %s is reserved" % "".join(c for c in name if c.isalpha())))
            else:
                R.ok("refuse", "%s/%s" % (name, which))

    tag(prog, R, T, cls)
    answer(prog, R, T, cls, methods["vbri"])
    duration(prog, R, frame)
    R.extra["constructors"] = len(ctors)


def number(off, n, width):
    """A big-endian number of n bytes."""
    out = []
    for j in range(n):
        out += [("i", (S, off + n - 1 - j), i) for i in range(8)]
    return tuple(out) + (0,) * (width - 8 * n)


def strip(v):
    b = list(v[1])
    while b and b[-1] == 0:
        b.pop()
    return tuple(b)


def tag(prog, R, T, cls):
    def made(c, known=frozenset()):
        f = next((f for f in prog.methods(c) if f.get("ctor") and not f.get("cpc") and not f.get("mvc") and f.get("body") is not None and any(is_stream(p) for p in f["ps"])), None)
        if f is None:
            raise AnalysisBroken("no constructor of %s from a stream was found" % c)
        a = Mp3(prog, T)
        st = a.fields_of(c, St({})).set(KNOWN, known).set(("pos",), ("at", S, 0))
        for p in f["ps"]:
            t = bare(p["t"])
            if t is not None and t.k in ("ptr", "arr"):
                st = st.set(p["id"], ("at", ("id",), 0))
        return a, f, a.run(f, st)

    def ask(a, c, name, st):
        f = next((f for f in prog.methods(c) if f["n"].split("::")[-1] == name and f.get("body") is not None and not f["ps"]), None)
        if f is None:
            raise AnalysisBroken("%s has no accessor %s" % (c, name))
        o = a.run(f, st)
        out = {s.get(("ret", 1)) for s in o.r}
        return f, (out.pop() if len(out) == 1 else None)

    # VBRI, after its mark: version, delay, quality, bytes, frames, entries, scale, entry size, frames per entry
    c = cls["vbri_mp3_tag"]
    a, f, o = made(c)
    for name, off, n in (("file_size_bytes", 6, 4), ("num_frames", 10, 4), ("frames_per_toc_entry", 20, 2)):
        ok = bool(o.r)
        for s in o.r:
            g, v = ask(a, c, name, s)
            if v is None or v[0] != "b" or strip(v) != number(off, n, 8 * n):
                ok = False
        if ok:
            R.ok("vbr", "VBRI %s" % name)
        else:
            R.bad("vbr", "vbri/" + name, f, "%s() of a VBRI header does not answer the %d bytes at offset %d of the header, most significant first" % (name, n, off + 4))
    # Xing, after its mark: flags, then the fields whose flags are set
    c = cls["xing_mp3_tag"]
    for fl in range(16):
        known = frozenset((((S, 3), i), bool((fl >> i) & 1)) for i in range(4))
        a, f, o = made(c, known)
        off = 4
        want = {}
        for bit, name, n in ((1, "num_frames", 4), (2, "file_size_bytes", 4), (4, "has_toc", 100), (8, None, 4)):
            if fl & bit:
                want[name] = off
                off += n
        for s in o.r:
            for name in ("num_frames", "file_size_bytes"):
                g, v = ask(a, c, name, s)
                if name in want:
                    ok = v is not None and v[0] == "opt" and v[1] == 1 and v[2] is not None and v[2][0] == "b" and strip(v[2]) == number(want[name], 4, 32)
                else:
                    ok = v is not None and v[0] == "opt" and v[1] == 0
                if ok:
                    R.ok("vbr", "Xing %s, flags %d" % (name, fl))
                else:
                    R.bad("vbr", "xing/" + name, f, "%s() of a Xing header with flags %d does not answer %s" % (name, fl, "the 4 bytes at offset %d of the header, most significant first" % (want[name] + 4) if name in want else "nothing"))
            g, v = ask(a, c, "has_toc", s)
            if value_of(v) != int("has_toc" in want):
                R.bad("vbr", "xing/has_toc", f, "a Xing header with flags %d is %s to have a table of contents" % (fl, "not said" if "has_toc" in want else "said"))
            p = s.get(("pos",))
            if p != ("at", S, off):
                R.bad("vbr", "xing/length", f, "of a Xing header with flags %d %s are read after its mark, not %d" % (fl, "%d bytes" % p[2] if p is not None and p[1] == S else "an unknown number of bytes", off))
            else:
                R.ok("vbr", "Xing length, flags %d" % fl)
        if not o.r:
            R.bad("vbr", "xing/refused", f, "a Xing header with flags %d is refused" % fl)
    # LAME, after the first four bytes of its mark
    c = cls["lame_mp3_tag"]
    a, f, o = made(c)
    for name, off, n in (("get_bitrate", 16, 1), ("get_size_bytes", 24, 4)):
        ok = bool(o.r)
        for s in o.r:
            g, v = ask(a, c, name, s)
            if v is None or v[0] != "b" or strip(v) != number(off, n, 8 * n):
                ok = False
        if ok:
            R.ok("vbr", "LAME %s" % name)
        else:
            R.bad("vbr", "lame/" + name, f, "%s() of a LAME header does not answer the %d byte(s) at offset %d of the header" % (name, n, off + 4))
    en = next((prog.enums[e] for e in prog.enums if e.endswith("lame_mp3_tag::vbr_method")), None)
    if en is None:
        raise AnalysisBroken("the VBR methods were not found")
    vals = {x["n"].split("::")[-1]: x["v"] for x in en["e"]}
    METHODS = {1: "constant", 2: "abr", 3: "vbr_1", 4: "vbr_2", 5: "vbr_3", 6: "vbr_4", 8: "cbr_two_pass", 9: "abr_two_pass"}
    for b in range(16):
        known = frozenset((((S, 5), i), bool((b >> i) & 1)) for i in range(4))
        a, f, o = made(c, known)
        w = vals.get(METHODS.get(b, "unknown"))
        if w is None:
            raise AnalysisBroken("the VBR method %s was not found" % METHODS.get(b, "unknown"))
        got = {value_of(ask(a, c, "get_vbr_method", s)[1]) for s in o.r}
        if got == {w}:
            R.ok("vbr", "LAME method %d" % b)
        else:
            R.bad("vbr", "lame/method%d" % b, f, "the method of a LAME header with method bits %d is not given as %s" % (b, METHODS.get(b, "unknown")))


def answer(prog, R, T, cls, f):
    apart = (cls["xing_mp3_tag"], cls["vbri_mp3_tag"], cls["lame_mp3_tag"])
    a = Mp3(prog, T, apart)
    o = a.run(f, St({}))
    n = 0
    for s in o.r:
        v = s.get(("ret", 1))
        if v is not None and v[0] == "opt":
            if v[1] == 0:
                continue
            v = v[2]
        if v is None or v[0] != "pair":
            R.bad("answer", "unknown", f, "what is answered of a VBR header is not followed")
            continue
        n += 1
        src = [x[1][0][1] if x is not None and x[0] == "b" and isinstance(x[1][0], tuple) else None for x in v[1:]]
        for x, m, i in zip(src, ("num_frames", "file_size_bytes"), (1, 2)):
            if x is None or x[0] != "call" or x[2] != m:
                R.bad("answer", "%d" % i, f, "number %d of the pair answered of a VBR header is not its %s()" % (i, m))
            elif x[1] != src[0][1] if src[0] is not None else True:
                R.bad("answer", "mixed", f, "the counts answered come from different headers")
        R.ok("answer", "%s" % (src[0][1] if src[0] else "?"))
    if not n:
        R.bad("answer", "none", f, "the counts of a VBR header are never answered")


class Duration(Flow):
    """Values as products of what frames and VBR headers answer; ("cnt", d) is the number of frames made, plus d."""

    def __init__(self, prog, frame):
        Flow.__init__(self, prog)
        self.frame = frame
        self.max_states = 20000
        self.returns = []

    @staticmethod
    def product(a, b, inverse, whole):
        if a is None or b is None or a[0] in ("pair", "opt") or b[0] in ("pair", "opt"):
            return None
        A, B = Duration.mono(a), Duration.mono(b)
        if A is None or B is None:
            return None
        d = dict(A[2])
        for s, e in B[2]:
            d[s] = d.get(s, 0) + (-e if inverse else e)
        if inverse and not B[1]:
            return None
        return ("mono", A[1] / B[1] if inverse else A[1] * B[1], frozenset((s, e) for s, e in d.items() if e), A[3] or B[3] or inverse and whole)

    @staticmethod
    def mono(v):
        if v[0] == "mono":
            return v
        if v[0] == "num":
            return ("mono", v[1], frozenset(), False)
        return ("mono", 1, frozenset({(v, 1)}), False)

    def eval(self, e, st):
        if e is None:
            return None
        r = st.get(("res", id(e)))
        if r is not None:
            return r
        x = uncast(e)
        r = st.get(("res", id(x)))
        if r is not None:
            return r
        if x["k"] == "float" and x.get("v") is not None:
            try:
                return ("num", float(x["v"]))
            except (TypeError, ValueError):
                return None
        c = const(x)
        if c is not None:
            return ("num", c)
        k = x["k"]
        if k == "var":
            return st.get(x["id"])
        if k == "mem" and x["n"] in ("first", "second"):
            v = self.eval(x["b"], st)
            if v is not None and v[0] == "opt":
                v = v[1]
            return v[1 if x["n"] == "first" else 2] if v is not None and v[0] == "pair" else None
        if k == "un" and x["op"] in ("++", "--"):
            return self.eval(x["e"], st)
        if k == "un" and x["op"] == "*":
            return self.eval(x["e"], st)
        if k == "bin" and x["op"] in ("*", "/"):
            t = bare(x.get("t"))
            return self.product(self.eval(x["a"], st), self.eval(x["b"], st), x["op"] == "/", t is not None and t.k in ("int", "uint"))
        if k == "bin" and x["op"] in ("+", "-"):
            a, b = self.eval(x["a"], st), self.eval(x["b"], st)
            return self.shift(a, b, 1 if x["op"] == "+" else -1)
        if k == "bin" and x["op"] == "=":
            return self.eval(x["a"], st)
        if k == "call":
            m = (x.get("f") or "").split("::")[-1]
            o = x.get("obj")
            a = x.get("a") or ()
            if o is not None and rec(o) == self.frame or (x.get("f") or "").startswith(self.frame + "::"):
                if m == "duration":
                    return ("pair", ("D", 0), ("D", 1))
                if m == "sample_rate_hz":
                    return ("D", 1)
                if m == "vbri":
                    return ("opt", ("pair", ("V", 0), ("V", 1)))
                return None
            if x.get("op") in ("*", "->") and len(a) == 1:
                v = self.eval(a[0], st)
                return v[1] if v is not None and v[0] == "opt" else v
            if m in ("value", "operator*", "operator->") and o is not None:
                v = self.eval(o, st)
                return v[1] if v is not None and v[0] == "opt" else None
            if m in ("move", "forward") and len(a) == 1:
                return self.eval(a[0], st)
        if k == "ctor" and len(x.get("a") or ()) == 1:
            return self.eval(x["a"][0], st)
        return None

    @staticmethod
    def shift(a, b, sign):
        if a is None or b is None:
            return None
        if a[0] == "num" and b[0] == "num":
            return ("num", a[1] + sign * b[1])
        if a[0] == "cnt" and b[0] == "num" and abs(a[1] + sign * b[1]) < 4:
            return ("cnt", a[1] + sign * b[1])
        if b[0] == "cnt" and a[0] == "num" and sign == 1 and abs(a[1] + b[1]) < 4:
            return ("cnt", a[1] + b[1])
        return None

    def put(self, e, v, st):
        x = uncast(e)
        return st.set(x["id"], v) if x["k"] == "var" else st

    def node(self, n, st):
        k = n["k"]
        if k == "bin" and n["op"] == "=":
            st = self.put(n["a"], self.eval(n["b"], st), st)
        elif k == "bin" and n["op"] in ("+=", "-="):
            st = self.put(n["a"], self.shift(self.eval(n["a"], st), self.eval(n["b"], st), 1 if n["op"] == "+=" else -1), st)
        elif k == "bin" and n["op"] in ("*=", "/="):
            t = bare(n["a"].get("t"))
            st = self.put(n["a"], self.product(self.eval(n["a"], st), self.eval(n["b"], st), n["op"] == "/=", t is not None and t.k in ("int", "uint")), st)
        elif k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            st = self.put(n["a"], None, st)
        elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            st = self.put(n["e"], self.shift(self.eval(n["e"], st), ("num", 1), 1 if "+" in n["op"] else -1), st)
        yield (N, st)

    def declare(self, v, st):
        return st.set(v["id"], self.eval(v.get("i"), st))

    def made(self, st):
        m = st.get(("made",), 0)
        if m != "many":
            return st.set(("made",), m + 1)
        d = dict(st.d)
        for k, v in st.d.items():
            d[k] = self.older(v)
        return St({k: v for k, v in d.items() if v is not None})

    def older(self, v):
        """A count stays behind by one as another frame is made."""
        if not isinstance(v, tuple):
            return v
        if v[0] == "cnt":
            return ("cnt", v[1] - 1) if v[1] > -4 else None
        if v[0] == "mono" and any(s[0] == "cnt" for s, _ in v[2]):
            return None
        return v

    def call(self, n, st):
        m = (n.get("f") or "").split("::")[-1]
        a = n.get("a") or ()
        if n["k"] == "ctor" and n.get("cls") == self.frame and not n.get("copy") and not n.get("move"):
            yield (THR, st, ANY)
            yield (N, self.made(st))
            return
        if n["k"] == "call" and n.get("op") == "=" and len(a) == 2:
            l = uncast(a[0])
            if l["k"] == "call" and (l.get("f") or "") == "std::tie" and len(l["a"]) == 2:
                v = self.eval(a[1], st)
                v = v[1] if v is not None and v[0] == "opt" else v
                for i, x in enumerate(l["a"]):
                    st = self.put(x, v[1 + i] if v is not None and v[0] == "pair" else None, st)
            else:
                st = self.put(a[0], self.eval(a[1], st), st)
            yield (N, st)
            return
        if n["k"] == "call":
            tg = [t for t in self.prog.targets(n) if t.get("body") is not None and t["l"][0].endswith(("mp3.cc", "mp3.hh")) and t.get("cls") is None]
            if tg and len(self.stack) < 6 and not any(t is x for t in tg for x in self.stack):
                for t in tg:
                    yield from self.inline(n, t, st)
                return
            if m not in ("tie", "make_pair"):
                ft = n.get("ft")
                for x, p in zip(a, ft.ps if ft is not None else ()):
                    if p is not None and p.k == "ref" and p.to is not None and not p.to.cst:
                        st = self.put(x, None, st)
        yield (N, st)
        if self.may_throw(n):
            yield (THR, st, ANY)

    def bind(self, n, f, st):
        vals = [(p["id"], self.eval(x, st)) for p, x in zip(f["ps"], n.get("a") or ())]
        for k, v in vals:
            st = st.set(k, v)
        return st

    def unbind(self, n, f, st):
        lvl = len(self.stack) + 1
        v = st.get(("ret", lvl))
        st = st.set(("ret", lvl), None)
        return st.set(("res", id(n)), v) if v is not None else st

    def ret(self, n, st):
        v = self.eval(n.get("e"), st)
        if len(self.stack) == 1:
            self.returns.append((n, v, st.get(("made",), 0)))
        return st.set(("ret", len(self.stack)), v)

    def loop_head(self, s, st):
        ctor = changed = None
        key = id(s)
        if key not in self.loops:
            ctor = False
            changed = set()
            for x in walk(s):
                if x.get("k") == "ctor" and x.get("cls") == self.frame:
                    ctor = True
                if x.get("k") == "call" and any(self.makes(t, 0) for t in self.prog.targets(x)):
                    ctor = True
                t = None
                if x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    t = uncast(x["a"])
                if x.get("k") == "un" and x["op"] in ("++", "--", "p++", "p--"):
                    t = uncast(x["e"])
                if t is not None and t["k"] == "var":
                    changed.add(t["id"])
            self.loops[key] = (ctor, changed)
        ctor, changed = self.loops[key]
        m = st.get(("made",), 0)
        d = dict(st.d)
        for k in changed:
            v = d.get(k)
            if v is not None and v[0] == "num":
                d.pop(k)
                if ctor and m != "many" and abs(v[1] - m) < 4:
                    d[k] = ("cnt", v[1] - m)
            elif v is not None and v[0] == "mono":
                d.pop(k)
        for k in [k for k in d if isinstance(k, tuple) and k and k[0] == "res"]:
            d.pop(k)
        if ctor:
            d[("made",)] = "many"
        return St(d)

    def makes(self, f, depth):
        """May a function make frames?"""
        if f.get("body") is None or depth > 4 or f.get("cls") == self.frame:
            return False
        for x in walk(f["body"]):
            if x.get("k") == "ctor" and x.get("cls") == self.frame:
                return True
            if x.get("k") == "call" and any(t["l"][0].endswith(("mp3.cc", "mp3.hh")) and self.makes(t, depth + 1) for t in self.prog.targets(x)):
                return True
        return False

    loops = {}


def duration(prog, R, frame):
    Duration.loops = {}
    fs = [f for f in prog.fns if f["n"].split("::")[-1] == "get_mp3_duration" and f.get("body") is not None]
    n = 0
    for f in fs:
        a = Duration(prog, frame)
        a.run(f, St({}))
        for node, v, made in a.returns:
            if v is None or v[0] not in ("mono", "num", "D", "V", "cnt"):
                R.extra["durations_not_followed"] = R.extra.get("durations_not_followed", 0) + 1
                continue
            n += 1
            if v == ("num", 0) or v == ("num", 0.0):
                if made == 0:
                    R.ok("duration", "nothing")
                else:
                    R.bad("duration", "none", node, "a track with frames is said to last no time")
                continue
            m = Duration.mono(v)
            d = dict(m[2])
            base = d.pop(("D", 0), 0), d.pop(("D", 1), 0)
            if m[3]:
                R.bad("duration", "whole", node, "the duration of a track is cut to whole seconds by an integer division")
            elif m[1] != 1 or base != (1, -1):
                R.bad("duration", "unit", node, "the duration of a track is not the number of frames times samples over sampling rate")
            elif d == {("V", 0): 1} or d == {("cnt", 0): 1}:
                R.ok("duration", "from the header" if ("V", 0) in d else "counted")
            elif any(k[0] == "cnt" for k in d):
                R.bad("duration", "count", node, "the frames of a track are not counted each once")
            else:
                R.bad("duration", "frames", node, "the duration of a track is not computed from the number of its frames")
    R.extra["durations"] = n
