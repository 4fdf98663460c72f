"""C10: ID3v1 fields lie where the published layout puts them."""

from bits import Bits, St, KNOWN, bare, const_bits, source, unknown, value_of
from facts import AnalysisBroken
from flow import N
from program import const, fn_nodes, uncast, where

TECHNIQUE = "abstract interpretation: the origin of every byte of every member, on every path through the constructors, and of every byte written, compared with the published layout; inductive invariant on member sizes"

# attribute -> [(offset in the attribute, length, offset in the block)] of the last 128 bytes
BASE = {"title": [(0, 30, 3)], "artist": [(0, 30, 33)], "album": [(0, 30, 63)], "year": [(0, 4, 93)], "genre": [(0, 1, 127)]}
# the 227 bytes before them
EXT = {"title": [(30, 60, 4)], "artist": [(30, 60, 64)], "album": [(30, 60, 124)], "speed": [(0, 1, 184)], "enh_genre": [(0, 30, 185)],
       "start_time": [(0, 6, 215)], "end_time": [(0, 6, 221)]}
ATTRS = sorted(set(BASE) | set(EXT) | {"comment", "track_number"})
MAGIC = {0: b"TAG", 1: b"TAG+"}


def layout(ext, v11):
    b = 227 if ext else 0
    out = {a: [(o, n, p + b) for o, n, p in l] for a, l in BASE.items()}
    out["comment"] = [(0, 28 if v11 else 30, 97 + b)]
    if v11:
        out["track_number"] = [(0, 1, 126 + b)]
    if ext:
        for a, l in EXT.items():
            out.setdefault(a, []).extend(l)
    return out


S = ("S",)


class Tag(Bits):
    """Reads come from the input, writes go to the output."""

    def __init__(self, prog, cls):
        Bits.__init__(self, prog)
        self.cls = cls

    def wanted(self, n, tg):
        return all(t.get("cls") == self.cls or t["l"][0].endswith(("id3v1.cc", "id3v1.hh")) for t in tg)

    def opaque(self, n, st):
        m = (n.get("f") or "").split("::")[-1]
        o = n.get("obj")
        if o is not None and "stream" in (bare(o.get("t")).rec or "" if bare(o.get("t")) is not None else ""):
            a = n.get("a") or ()
            if m == "read" and len(a) == 2:
                d, k = self.eval(a[0], st), value_of(self.eval(a[1], st))
                pos = st.get(("pos",), ("at", S, 0))
                if pos is None or k is None:
                    return self.spoil(d, st)
                st = self.copy(pos, k, d, st)
                return st.set(("pos",), ("at", pos[1], pos[2] + k)).set(("read",), max(st.get(("read",), 0), pos[2] + k))
            if m == "write" and len(a) == 2:
                p, k = self.eval(a[0], st), value_of(self.eval(a[1], st))
                out = st.get(("end",), 0)
                if p is None or k is None or out > 600:
                    return st.set(("lost",), where(n))
                if p[1][0] == "fld" and p[1][1] in self.scalars:
                    v = st.get(("f", p[1][1]))
                    st = st.set(("blk", ("out",)), self.put(self.block(("out",), st), out, k, p[1], p[2]))
                else:
                    st = self.copy(p, k, ("at", ("out",), out), st)
                return st.set(("end",), out + k)
            if m == "put" and len(a) == 1:
                out = st.get(("end",), 0)
                x = uncast(a[0])
                f = self.field(x)
                if f is not None:
                    st = st.set(("blk", ("out",)), self.put(self.block(("out",), st), out, 1, ("fld", f), 0))
                else:
                    st = self.store(("out",), out, self.eval(a[0], st), st)
                return st.set(("end",), out + 1)
            if m == "seekg":
                if len(a) == 2 and "end" in str(const_name(a[1])):
                    k = value_of(self.eval(a[0], st))
                    return st.set(("pos",), ("at", ("E",), k) if k is not None else ("at", ("?",), 0))
                return st.set(("pos",), self.home(n, st))
            if m == "tellg":
                return st.set(("res", id(n)), st.get(("pos",), ("at", S, 0)))
            return st
        return Bits.opaque(self, n, st)

    def home(self, n, st):
        v = self.eval(n["a"][0], st)
        return v if v is not None and v[0] == "at" else ("at", S, 0)

    scalars = frozenset()

    # static tables of characters
    def eval(self, e, st):
        v = Bits.eval(self, e, st)
        return v

    def byte(self, base, off, st):
        if base[0] == "arr" and base not in self.seen:
            i = self.statics.get(base[1])
            if i is not None:
                els = i.get("a") or ()
                if off < len(els) and const(els[off]) is not None:
                    return const_bits(const(els[off]), 8, False)
                return const_bits(0, 8, False)
        return Bits.byte(self, base, off, st)

    def copy(self, src, n, dst, st):
        if src is not None and src[0] == "at" and src[1][0] == "arr" and src[1][1] in self.statics and n is not None and dst is not None and dst[0] == "at":
            for j in range(n):
                st = self.store(dst[1], dst[2] + j, self.byte(src[1], src[2] + j, st), st)
            return st
        return Bits.copy(self, src, n, dst, st)

    statics = {}
    seen = frozenset()


def const_name(e):
    e = uncast(e)
    return e.get("n") or e.get("q") or ""


def members(prog, cls):
    return {r["n"]: bare(r["t"]) for r in prog.recs[cls]["fields"]}


def reads(prog, cls, f, M, depth=0):
    """Members other than flags a method uses."""
    out = set()
    for n in fn_nodes(f):
        if n.get("k") == "mem" and n["n"] in M and uncast(n["b"])["k"] == "this" and M[n["n"]].k != "bool":
            out.add(n["n"])
        if n.get("k") == "call" and depth < 3:
            for t in prog.targets(n):
                if t.get("cls") == cls and t.get("body") is not None and t is not f:
                    out |= reads(prog, cls, t, M, depth + 1)
    return out


def describe(l):
    return ", ".join("[%d,%d) at %d" % (o, o + n, p) for o, n, p in sorted(l)) or "nothing"


def check(prog, R):
    R.rule("attribute", "every accessor of an attribute answers from one and the same member, no two attributes share one, and its setter sets that member", 20)
    R.rule("parse", "every path that parses a tag takes each attribute from the bytes the layout gives it", 10)
    R.rule("magic", "a tag is only taken for one if it bears the marks the layout gives", 3)
    R.rule("write", "each attribute is written to the bytes the layout gives it, the marks and the length being right", 4)
    R.rule("fits", "whatever operations were applied, every member written is at least as long as the bytes written from it", 8)
    R.rule("locate", "tags are looked for at the distance from the end the layout gives", 2)
    cls = next((c for c in prog.recs if c.endswith("::id3v1_tag")), None)
    if cls is None:
        raise AnalysisBroken("the ID3v1 tag class was not found")
    M = members(prog, cls)
    methods = [f for f in prog.methods(cls) if f.get("body") is not None]
    # pieces of the class that exist as templates only
    temps = [f for f in list(prog.patterns) + list(prog.uninstantiated) if f.get("cls") == cls and f.get("body") is not None] if not isinstance(prog.patterns, dict) else [f for f in prog.patterns.values() if f.get("cls") == cls and f.get("body") is not None]
    attr = {}
    for a in ATTRS:
        fs = [f for f in methods + temps if f["n"].split("::")[-1] == a]
        got = {}
        for f in fs:
            for m in reads(prog, cls, f, M):
                got.setdefault(m, f)
        if not got:
            raise AnalysisBroken("no accessor of %s was found" % a)
        if len(got) > 1:
            R.bad("attribute", a, fs[0], "the accessors of the %s answer from different members: %s" % (a, ", ".join(sorted(got))))
            return
        m = next(iter(got))
        if m in attr.values():
            R.bad("attribute", a, fs[0], "the accessor of the %s answers from %s, which holds the %s" % (a, m, [x for x, y in attr.items() if y == m][0]))
            return
        attr[a] = m
        R.ok("attribute", a)
    for f in methods + temps:
        n = f["n"].split("::")[-1]
        if n.startswith("set_") and n[4:] in attr:
            from_ = assigned(prog, cls, f, M)
            want = attr[n[4:]]
            if want not in from_:
                R.bad("attribute", n, f, "%s does not set %s" % (n, want))
            else:
                R.ok("attribute", n)
    flags = flag_members(prog, cls, methods, M)
    statics = {}
    for f in methods:
        for n in fn_nodes(f):
            if n.get("k") == "decl":
                for v in n["d"]:
                    t = bare(v["t"])
                    if t is not None and t.k == "arr" and v.get("i") is not None:
                        i = uncast(v["i"])
                        if i["k"] == "init" and all(const(x) is not None for x in i.get("a") or ()):
                            statics[v["id"]] = i
    Tag.statics = statics
    Tag.scalars = frozenset(m for m, t in M.items() if t.k in ("int", "uint"))
    parse(prog, R, cls, M, attr, flags, methods)
    write(prog, R, cls, M, attr, flags, methods)
    fits(prog, R, cls, M, attr, flags, methods, temps)
    locate(prog, R)
    R.extra["attributes"] = len(attr)


def flag_members(prog, cls, methods, M):
    """The members that say whether the tag is extended, and whether it has a track number."""
    out = {}
    for want, names in (("ext", ("extended", "enhanced")), ("v11", ("v1_1",))):
        for f in methods:
            if f["n"].split("::")[-1] in names and not f["ps"]:
                for n in fn_nodes(f):
                    if n.get("k") == "mem" and n["n"] in M and M[n["n"]].k == "bool":
                        out[want] = n["n"]
    if set(out) != {"ext", "v11"}:
        raise AnalysisBroken("the flags of the ID3v1 tag were not found")
    return out


def assigned(prog, cls, f, M, depth=0):
    out = set()
    for n in fn_nodes(f):
        k = n.get("k")
        lhs = []
        if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            lhs = [n["a"]]
        elif k == "call" and n.get("op") in ("=", "+="):
            lhs = [n["a"][0]]
        elif k == "call" and n.get("obj") is not None and not n.get("const"):
            lhs = [n["obj"]]
        elif k == "call":
            lhs = list(n.get("a") or ())
        for e in lhs:
            for x in ([e] if k != "call" else list(walk1(e))):
                x = uncast(x)
                while x["k"] in ("idx",):
                    x = uncast(x["a"])
                if x["k"] == "call" and x.get("op") == "[]":
                    x = uncast(x["a"][0])
                if x["k"] == "mem" and x["n"] in M:
                    out.add(x["n"])
        if k == "call" and depth < 3:
            for t in prog.targets(n):
                if t.get("cls") == cls and t.get("body") is not None and t is not f and not t.get("const"):
                    out |= assigned(prog, cls, t, M, depth + 1)
    # in templates calls and assignments may be unresolved
    if f.get("dep"):
        for n in fn_nodes(f):
            if n.get("k") == "mem" and n["n"] in M and M[n["n"]].k != "bool":
                out.add(n["n"])
    return out


def walk1(e):
    from program import walk
    return [x for x in walk(e) if x.get("k") == "mem"] or [e]


def got_layout(a, st, attr, M):
    """Where in the input each attribute came from."""
    out = {}
    for name, m in attr.items():
        t = M[m]
        l = []
        if t.k in ("int", "uint"):
            v = st.get(("f", m))
            if v is not None and v[0] == "b" and isinstance(v[1][0], tuple) and all(isinstance(x, tuple) and x[0] == "i" and x[1] == v[1][0][1] for x in v[1]):
                src = v[1][0][1]
                if isinstance(src, tuple) and src[0] == S:
                    l.append((0, 1, src[1]))
            elif v is not None and v[0] == "b":
                # some bits are known from tests
                src = {x[1] for x in v[1] if isinstance(x, tuple)}
                if len(src) == 1:
                    s = src.pop()
                    if isinstance(s, tuple) and s[0] == S:
                        l.append((0, 1, s[1]))
        else:
            for o, n, b, s in a.block(("fld", m), st):
                if b == S:
                    l.append((o, n, s))
                else:
                    l.append((o, n, -1))
        out[name] = l
    return out


def merge(l):
    out = []
    for o, n, p in sorted(l):
        if out and out[-1][0] + out[-1][1] == o and out[-1][2] + out[-1][1] == p:
            out[-1] = (out[-1][0], out[-1][1] + n, out[-1][2])
        else:
            out.append((o, n, p))
    return out


def known_bytes(st):
    """Input bytes known on the path, relative to a base."""
    bits = {}
    for (src, i), v in st.get(KNOWN) or ():
        bits.setdefault(src, {})[i] = v
    return {s: sum(int(v) << i for i, v in b.items()) for s, b in bits.items() if len(b) >= 8}


def parse(prog, R, cls, M, attr, flags, methods):
    n = 0
    for f in methods:
        if not f.get("ctor") or f.get("cpc") or f.get("mvc") or not any("istream" in (bare(p["t"]).rec or "") for p in f["ps"] if bare(p["t"]) is not None):
            continue
        a = Tag(prog, cls)
        o = a.run(f, St({}))
        paths = 0
        for st in o.n | o.r:
            ext, v11 = value_of(st.get(("f", flags["ext"]))), value_of(st.get(("f", flags["v11"])))
            size = st.get(("read",), 0)
            if ext is None or v11 is None:
                R.bad("parse", "flags/%d" % len(f["ps"]), f, "a tag is parsed without it being recorded whether it is extended and whether it has a track number")
                continue
            if size != (355 if ext else 128):
                R.bad("parse", "length/%d" % ext, f, "a tag of %d bytes is %s extended" % (size, "taken for" if ext else "not taken for"))
                continue
            b = 227 if ext else 0
            want, got = layout(ext, v11), got_layout(a, st, attr, M)
            paths += 1
            for name in ATTRS:
                n += 1
                w, g = merge(want.get(name, [])), merge(got.get(name, []))
                if name not in want:
                    continue
                key = "%s/%s%s" % (name, "ext" if ext else "std", "-1.1" if v11 else "")
                if w == g:
                    R.ok("parse", key)
                else:
                    R.bad("parse", key, f, "%s of %s tag is read from %s, the layout puts it at %s" % (name, "an extended" if ext else "a standard", describe(g), describe(w)))
            kb = known_bytes(st)
            marks = {}
            for off, t in ((0, MAGIC[ext]),) + (((227, MAGIC[0]),) if ext else ()):
                for i, c in enumerate(t):
                    marks[off + i] = c
            lack = [i for i, c in marks.items() if kb.get((S, i)) != c]
            if lack:
                R.bad("magic", "parse/%s" % ("ext" if ext else "std"), f, "%s tag is accepted without byte %d having been checked" % ("an extended" if ext else "a standard", lack[0]))
            else:
                R.ok("magic", "parse/%s" % ("ext" if ext else "std"))
            # a track number is there if the byte before it is zero and it is not
            z = kb.get((S, 125 + b)) == 0
            ne = {(bits, v) for bits, v in st.get(("ne",)) or ()}
            src = tuple(("i", (S, 126 + b), i) for i in range(8))
            nz = any(v == 0 and [x for x in bits if x != 0][:8] == list(src) for bits, v in ne)
            if v11 and not (z and nz):
                R.bad("magic", "track/%s" % ("ext" if ext else "std"), f, "a track number is taken without byte %d being zero and byte %d not" % (125 + b, 126 + b))
            elif not v11 and z and nz:
                R.bad("magic", "track/%s" % ("ext" if ext else "std"), f, "a track number is there and not taken")
            else:
                R.ok("magic", "track/%s" % ("ext" if ext else "std"))
        if not paths:
            raise AnalysisBroken("%s: no path parses a tag" % where(f))
    R.extra["parse_obligations"] = n


def write(prog, R, cls, M, attr, flags, methods):
    fs = [f for f in methods if f["n"].split("::")[-1] == "write" and f.get("const")]
    if len(fs) != 1:
        raise AnalysisBroken("the writing operation of the ID3v1 tag was not found")
    f = fs[0]
    for ext in (0, 1):
        for v11 in (0, 1):
            a = Tag(prog, cls)
            o = a.run(f, St({("f", flags["ext"]): const_bits(ext, 1, False), ("f", flags["v11"]): const_bits(v11, 1, False)}))
            key = "%s%s" % ("ext" if ext else "std", "-1.1" if v11 else "")
            msgs = []
            for st in o.n | o.r:
                if st.get(("lost",)):
                    msgs.append("something is written whose length or origin is not known, at " + st.get(("lost",)))
                    continue
                if st.get(("end",), 0) != (355 if ext else 128):
                    msgs.append("%d bytes are written" % st.get(("end",), 0))
                    continue
                got = {}
                consts = {}
                for off, n, b, s in a.block(("out",), st):
                    if b is not None and b[0] == "fld":
                        got.setdefault(b[1], []).append((s, n, off))
                    elif b is None and value_of(s) is not None:
                        for j in range(n):
                            consts[off + j] = value_of(s)
                    else:
                        msgs.append("bytes from %d on are not from the tag" % off)
                for name, w in layout(ext, v11).items():
                    g = merge(got.pop(attr[name], []))
                    if merge(w) != g:
                        msgs.append("the %s is written from %s, the layout puts it at %s" % (name, describe(g), describe(merge(w))))
                for m in got:
                    msgs.append("%s is written too" % m)
                want = dict(enumerate(MAGIC[ext]))
                if ext:
                    want.update({227 + i: c for i, c in enumerate(MAGIC[0])})
                if v11:
                    want[125 + (227 if ext else 0)] = 0
                if want != consts:
                    d = sorted(set(want.items()) ^ set(consts.items()))
                    msgs.append("the constant byte at %d is not the one of the layout" % d[0][0])
            if not (o.n | o.r):
                raise AnalysisBroken("writing an ID3v1 tag never ends")
            if msgs:
                R.bad("write", key, f, "writing %s%s tag: %s" % ("an extended" if ext else "a standard", " 1.1" if v11 else "", "; ".join(sorted(set(msgs))[:4])))
            else:
                R.ok("write", key)


class Sizes(Tag):
    """Least lengths of the members."""

    def after_call(self, n, st):
        return [st]


def need(M, attr, ext, v11):
    out = {}
    for a, l in layout(ext, v11).items():
        m = attr[a]
        if M[m].rec == "std::vector":
            out[m] = max(out.get(m, 0), max(o + n for o, n, _ in l))
    return out


def fits(prog, R, cls, M, attr, flags, methods, temps):
    done = set()
    for f in methods:
        n = f["n"].split("::")[-1]
        if f.get("const") or f.get("impl") or f.get("dfl") or f.get("dtor") or f.get("acc") not in (None, "public", 0):
            continue
        starts = []
        if f.get("ctor"):
            starts.append(St({}))
        else:
            for ext in (0, 1):
                for v11 in (0, 1):
                    d = {("f", flags["ext"]): const_bits(ext, 1, False), ("f", flags["v11"]): const_bits(v11, 1, False)}
                    for m, k in need(M, attr, ext, v11).items():
                        d[("size", ("fld", m))] = k
                    starts.append(St(d))
        msgs = set()
        for s0 in starts:
            if f.get("ctor"):
                # boolean parameters take both values
                sts = [s0]
                for p in f["ps"]:
                    if bare(p["t"]) is not None and bare(p["t"]).k == "bool":
                        sts = [s.set(p["id"], const_bits(v, 1, False)) for s in sts for v in (0, 1)]
            else:
                sts = [s0]
            for s1 in sts:
                a = Sizes(prog, cls)
                o = a.run(f, s1)
                for st in o.n | o.r:
                    ext, v11 = value_of(st.get(("f", flags["ext"]))), value_of(st.get(("f", flags["v11"])))
                    for e in ((ext,) if ext is not None else (0, 1)):
                        for v in ((v11,) if v11 is not None else (0, 1)):
                            for m, k in need(M, attr, e, v).items():
                                got = st.get(("size", ("fld", m))) or 0
                                if got < k:
                                    msgs.add("%s may leave %s %d bytes long where %d are written from it" % (n, m, got, k))
        key = n + "/" + "-".join("bool" if bare(p["t"]) is not None and bare(p["t"]).k == "bool" else "x" for p in f["ps"])
        if f.get("inst"):
            key = n
        if msgs:
            R.bad("fits", key, f, "; ".join(sorted(msgs)[:3]))
        else:
            R.ok("fits", key)
        done.add(n)
    for f in temps:
        n = f["n"].split("::")[-1]
        if n.startswith("set_") and n not in done:
            R.extra.setdefault("setters_not_instantiated", []).append(n)


class Find(Tag):
    """Looking for a tag from the end of a stream."""

    def __init__(self, prog, R):
        Tag.__init__(self, prog, None)
        self.found = []

    def wanted(self, n, tg):
        return False

    def node(self, n, st):
        if n["k"] == "bin" and n["op"] == "=":
            e = uncast(n["b"])
            if e["k"] == "enum":
                self.found.append((n, e, known_bytes(st), st))
        yield from Tag.node(self, n, st)

    def call(self, n, st):
        if n["k"] == "call" and n.get("op") == "=":
            v = self.eval(n["a"][1], st)
            x = uncast(n["a"][0])
            if v is not None and v[0] == "at" and v[1] == ("E",):
                self.found.append((n, v, known_bytes(st), st))
        yield from Tag.call(self, n, st)


def locate(prog, R):
    kinds = [e for e in prog.enums if "id3_v1_tag_type" in e or "v1_tag_type" in e]
    if not kinds:
        raise AnalysisBroken("the kinds of ID3v1 tags were not found")
    for f in prog.fns:
        if f.get("body") is None or not any("stream" in (bare(p["t"]).rec or "") for p in f["ps"] if bare(p["t"]) is not None):
            continue
        ns = list(fn_nodes(f))
        if not any(n.get("k") == "enum" and n.get("q", n.get("n", "")).find("extended") >= 0 and n.get("t") is not None and n["t"].rec in kinds for n in ns):
            continue
        if not any(n.get("k") == "call" and (n.get("f") or "").endswith("::seekg") for n in ns):
            continue
        a = Find(prog, R)
        a.run(f, St({}))
        bad = 0
        seen = 0
        for n, e, kb, st in a.found:
            if isinstance(e, dict):
                if e.get("t") is None or e["t"].rec not in kinds or "none" in (e.get("n") or "").split("::")[-1]:
                    continue
                ext = "extended" in (e.get("n") or "")
                d = -355 if ext else -128
                want = MAGIC[int(ext)]
                lack = [i for i, c in enumerate(want) if kb.get((("E",), d + i)) != c]
                seen += 1
                if lack:
                    bad += 1
                    R.bad("locate", "%s/%s" % (f["n"].split("::")[-1], "ext" if ext else "std"), n, "%s tag is reported without the mark %s having been seen %d bytes before the end" % ("an extended" if ext else "a standard", want.decode(), -d))
            else:
                if e[2] == 0:
                    continue
                ok = any(all(kb.get((("E",), d + i)) == c for i, c in enumerate(MAGIC[int(d == -355)])) for d in (-355, -128) if e[2] == d)
                seen += 1
                if not ok:
                    bad += 1
                    R.bad("locate", "%s/start" % f["n"].split("::")[-1], n, "the place %d bytes before the end is taken for the start of a tag, whose mark was not seen there" % -e[2])
        if seen and not bad:
            R.ok("locate", f["n"])
