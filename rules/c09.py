"""C09: header attributes are read from and written to the bits ID3v2 assigns to them."""

from bits import KNOWN, Bits, St, bare, const_bits, source, value_of
from c27 import OPS, is_byte, name_of
from effect import parents
from facts import AnalysisBroken
from flow import N
from program import const, fn_nodes, uncast, walk, where

TECHNIQUE = "value-set analysis of every test of a header byte, with what its outcome decides; path-sensitive bit-origin analysis of the header bytes written"

# (attribute, bit of it) -> (byte it is in, bit of that byte); bytes of frames
# and extended headers counted from their beginning
TAG = {
    2: {("unsync", 0): (5, 7), ("compressed", 0): (5, 6)},
    3: {("unsync", 0): (5, 7), ("ext", 0): (5, 6), ("exp", 0): (5, 5)},
    4: {("unsync", 0): (5, 7), ("ext", 0): (5, 6), ("exp", 0): (5, 5), ("footer", 0): (5, 4)},
}
FRAME = {
    3: {("tap", 0): (8, 7), ("fap", 0): (8, 6), ("ro", 0): (8, 5), ("compressed", 0): (9, 7), ("encrypted", 0): (9, 6), ("grouped", 0): (9, 5)},
    4: {("tap", 0): (8, 6), ("fap", 0): (8, 5), ("ro", 0): (8, 4), ("grouped", 0): (9, 6), ("compressed", 0): (9, 3), ("encrypted", 0): (9, 2), ("unsync", 0): (9, 1), ("dli", 0): (9, 0)},
}
EXT = {
    3: {("crc", 0): (4, 7)},
    4: {("update", 0): (5, 6), ("crc", 0): (5, 5), ("restricted", 0): (5, 4)},
}
RESTRICTIONS = {
    4: {("tag_size", 1): (1, 7), ("tag_size", 0): (1, 6), ("text_enc", 0): (1, 5), ("text_size", 1): (1, 4), ("text_size", 0): (1, 3), ("image_enc", 0): (1, 2), ("image_size", 1): (1, 1), ("image_size", 0): (1, 0)},
}
NAMES = {"unsync": "unsynchronisation", "ext": "extended header", "exp": "experimental", "footer": "footer", "tap": "tag alter preservation", "fap": "file alter preservation", "ro": "read only", "compressed": "compression", "encrypted": "encryption", "grouped": "grouping", "dli": "data length indicator", "crc": "CRC", "update": "update", "restricted": "restrictions", "tag_size": "tag size restriction", "text_enc": "text encoding restriction", "text_size": "text size restriction", "image_enc": "image encoding restriction", "image_size": "image size restriction"}


def attribute(name):
    """The header attribute a name stands for."""
    n = name.split("::")[-1].strip("_").lower()
    if n in ("tap", "fap", "ro", "crc", "fcrc", "gid", "dli", "cmp", "enc", "ext", "fexp", "dlind"):
        return {"fcrc": "crc", "gid": "grouped", "cmp": "compressed", "enc": "encrypted", "fexp": "exp", "dlind": "dli"}.get(n, n)
    for k, v in (("tag_alter", "tap"), ("file_alter", "fap"), ("read_only", "ro"), ("readonly", "ro"), ("tag_size", "tag_size"), ("text_enc", "text_enc"),
                 ("text_size", "text_size"), ("text_sz", "text_size"), ("image_enc", "image_enc"), ("image_size", "image_size"), ("image_sz", "image_size"),
                 ("compress", "compressed"), ("cmprs", "compressed"), ("encrypt", "encrypted"), ("enc_m", "encrypted"), ("encm", "encrypted"),
                 ("group", "grouped"), ("unsync", "unsync"), ("data_len", "dli"), ("experimental", "exp"), ("expmt", "exp"), ("footer", "footer"),
                 ("update", "update"), ("restrict", "restricted"), ("has_crc", "crc"), ("ext_h", "ext"), ("extended", "ext"), ("pext", "ext")):
        if k in n:
            return v
    return None


def of_type(t):
    t = bare(t)
    if t is not None and t.k == "enum":
        return attribute((t.n if isinstance(t.n, str) else None) or t.s or "")
    return None


def version(f):
    n = f.get("cls") or f["n"]
    for v in (2, 3, 4):
        if "v2_%d_" % v in n:
            return v
    return None


def tables(f):
    """The layouts that apply to what a function handles: [(kind, layout)]"""
    n = f["n"]
    v = version(f)
    out = []
    for kind, t in (("ext", EXT), ("restrictions", RESTRICTIONS), ("frame", FRAME), ("tag", TAG)):
        if ("ext_header" in n) != (kind in ("ext", "restrictions")) and f.get("cls"):
            continue
        if v is not None:
            if v in t:
                out.append((kind, t[v]))
        else:
            out += [(kind, t[x]) for x in sorted(t)]
    return out


class Tests:
    """What decides on one byte, as a function of the byte."""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.parents = parents(f)
        self.inits = {}
        for n in fn_nodes(f):
            if n.get("k") == "decl":
                for d in n["d"]:
                    self.inits[d["id"]] = d.get("i")
        self.written = set()
        for n in fn_nodes(f):
            if n.get("k") == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                x = uncast(n["a"])
                if x["k"] == "var":
                    self.written.add(x["id"])
            if n.get("k") == "call" and n.get("f", "").endswith("tie"):
                for a in n["a"]:
                    if uncast(a)["k"] == "var":
                        self.written.add(uncast(a)["id"])

    def origin(self, e, depth=0):
        """Key of the byte an expression is, with its index if it is known."""
        e = uncast(e)
        if const(e) is not None or not is_byte(e.get("t")):
            return None
        k = e["k"]
        if k == "var":
            i = self.inits.get(e["id"])
            if i is not None and e["id"] not in self.written and depth < 5:
                o = self.origin(i, depth + 1)
                if o is not None:
                    return o
            return ("v", e["id"], None, e["n"])
        if k == "mem":
            return ("m", e["n"], None, e["n"])
        if k == "idx":
            return ("e", None, const(e["b"]), None)
        if k == "call" and e.get("op") == "[]":
            return ("e", None, const(e["a"][1]), None)
        if k == "un" and e["op"] == "*":
            x = uncast(e["e"])
            if x["k"] == "bin" and x["op"] == "+" and const(x["b"]) is not None:
                return ("e", None, const(x["b"]), None)
            return ("e", None, None, None)
        return None

    def values(self, e, o, env=None):
        """The expression for each of the 256 values of the byte o."""
        c = const(e)
        if c is not None:
            return [c] * 256
        k = e["k"]
        if env is not None and k == "var" and e["id"] in env:
            return env[e["id"]]
        if k == "cast":
            v = self.values(e["e"], o, env)
            t = bare(e.get("t"))
            if v is not None and t is not None:
                if t.k == "bool":
                    return [int(x != 0) for x in v]
                if t.k in ("int", "uint") and t.sz == 1:
                    return [x & 0xff for x in v]
            return v
        if env is None and self.origin(e) == o and o is not None:
            if k == "var" or k in ("mem", "idx", "un", "call"):
                return list(range(256))
        if k == "un" and e["op"] in ("!", "~", "-", "+"):
            v = self.values(e["e"], o, env)
            if v is None:
                return None
            return [{"!": int(x == 0), "~": ~x, "-": -x, "+": x}[e["op"]] for x in v]
        if k == "bin":
            a, b = self.values(e["a"], o, env), self.values(e["b"], o, env)
            if a is None or b is None:
                return None
            op = e["op"]
            if op in OPS:
                return [int(OPS[op](x, y)) for x, y in zip(a, b)]
            fn = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y, ">>": lambda x, y: x >> y, "<<": lambda x, y: x << y,
                  "&&": lambda x, y: int(bool(x) and bool(y)), "||": lambda x, y: int(bool(x) or bool(y))}.get(op)
            return [fn(x, y) for x, y in zip(a, b)] if fn else None
        if k == "cond":
            c, a, b = (self.values(e[x], o, env) for x in ("c", "a", "b"))
            if c is None or a is None or b is None:
                return None
            return [y if x else z for x, y, z in zip(c, a, b)]
        if k == "call" and e.get("fu") in self.prog.by_usr and not e.get("op") and env is None:
            t = self.prog.by_usr[e["fu"]]
            t = t[0] if isinstance(t, list) else t
            b = t.get("body")
            if b is not None and b["k"] == "block" and len(b["s"]) == 1 and b["s"][0]["k"] == "return" and len(t["ps"]) == len(e.get("a") or ()):
                vs = [self.values(a, o) for a in e["a"]]
                if all(v is not None for v in vs):
                    return self.values(b["s"][0]["e"], None, {p["id"]: v for p, v in zip(t["ps"], vs)})
        if k == "ctor" and len(e.get("a") or ()) == 1 or k == "init" and len(e.get("a") or ()) == 1:
            return self.values(e["a"][0], o, env)
        return None

    def tests(self):
        """(expression, its values, origin) for the widest expressions of one byte that single out bits of it."""
        seen = set()
        for n in fn_nodes(self.f):
            if n.get("k") not in ("bin", "call") or n["k"] == "bin" and n["op"] not in ("&", ">>", "<", ">", "<=", ">="):
                continue
            o = next((x for x in (self.origin(y) for y in walk(n, False) if y.get("k") in ("var", "mem", "idx", "un", "call")) if x is not None), None)
            if o is None:
                continue
            top, v = n, self.values(n, o)
            if v is None:
                continue
            while True:
                p = self.parents.get(id(top))
                if p is None or p.get("k") in (None, "decl", "init_of", "if", "return") or p["k"] == "bin" and p["op"].endswith("=") and p["op"] not in OPS:
                    break
                if p["k"] == "cond" and id(p["c"]) != id(top):
                    break
                w = self.values(p, o)
                if w is None:
                    break
                top, v = p, w
            if id(top) in seen:
                continue
            seen.add(id(top))
            yield top, v, o

    def target(self, top):
        """What an expression decides: [(attribute, polarity)]"""
        e = top
        p = self.parents.get(id(e))
        while p is not None and p.get("k") in ("cast", "init") or p is not None and p.get("k") == "ctor" and (p.get("a") or [None])[0] is e and (len(p["a"]) == 1 or p.get("cls") in ("boost::optional", "std::optional")):
            e, p = p, self.parents.get(id(p))
        a = of_type(top.get("t"))
        if a is not None:
            return [(a, True)]
        if p is None:
            return []
        k = p.get("k")
        if k is None:
            return self.of_var(p) if p.get("i") is e else []
        if k == "init_of":
            a = attribute(p["i"].get("m") or "")
            return [(a, True)] if a else []
        if k == "decl":
            for d in p["d"]:
                if d.get("i") is e:
                    return self.of_var(d)
        if k == "bin" and p["op"] == "=" and p["b"] is e:
            return self.of_place(p["a"])
        if k == "call" and p.get("op") == "=" and p["a"][1] is e:
            return self.of_place(p["a"][0])
        if k in ("call", "ctor") and any(x is e for x in p.get("a") or ()):
            i = [x is e for x in p["a"]].index(True)
            return self.of_arg(p, i)
        if k == "cond" and p["c"] is e:
            a = of_type(p.get("t"))
            if a is not None and const(p["a"]) is not None and const(p["b"]) is not None:
                return [(a, bool(const(p["a"])) and not const(p["b"]))]
            return self.target_of_cond(p)
        if k == "if" and p["c"] is e:
            pos, neg = self.assigned(p["th"]), self.assigned(p.get("el"))
            return [(a, t) for a, t in pos if (a, t) not in neg] + [(a, not t) for a, t in neg if (a, t) not in pos]
        return []

    def target_of_cond(self, p):
        x, y = const(p["a"]), const(p["b"])
        if x is None or y is None:
            return []
        return [(a, t == (bool(x) and not y)) for a, t in self.target(p)]

    def assigned(self, s):
        if s is None:
            return []
        out = []
        for n in walk(s, False):
            lhs = rhs = None
            if n.get("k") == "bin" and n["op"] == "=":
                lhs, rhs = n["a"], n["b"]
            elif n.get("k") == "call" and n.get("op") == "=" and len(n["a"]) == 2:
                lhs, rhs = n["a"]
            if lhs is None:
                continue
            t = True
            c = const(rhs)
            if c is not None:
                t = bool(c)
            if "none" in str(uncast(rhs).get("n") or ""):
                t = False
            ty = bare(uncast(lhs).get("t"))
            if c is None and ty is not None and ty.k in ("int", "uint"):
                continue
            out += [(a, t) for a, _ in self.of_place(lhs)]
        return out

    def of_place(self, e):
        e = uncast(e)
        a = of_type(e.get("t"))
        if a:
            return [(a, True)]
        if e["k"] == "mem":
            a = attribute(e["n"])
            return [(a, True)] if a else []
        if e["k"] == "var":
            return self.of_var(e)
        return []

    def of_var(self, d):
        a = of_type(d.get("t") or d.get("vt"))
        if a:
            return [(a, True)]
        found = []
        for n in fn_nodes(self.f):
            if n.get("k") in ("call", "ctor"):
                for i, x in enumerate(n.get("a") or ()):
                    y = uncast(x)
                    while y["k"] in ("ctor", "init") and len(y.get("a") or ()) == 1:
                        y = uncast(y["a"][0])
                    if y["k"] == "var" and y["id"] == d["id"] and not n.get("op"):
                        a = [b for b, _ in self.of_arg(n, i)]
                        if a:
                            found.append(a[0])
        a = attribute(d["n"])
        if a is None and found:
            a = max(sorted(set(found)), key=found.count)
        return [(a, True)] if a else []

    def of_arg(self, n, i):
        fu = n.get("fu")
        t = self.prog.by_usr.get(fu)
        if isinstance(t, list):
            t = t[0] if t else None
        if t is not None and i < len(t["ps"]):
            a = of_type(t["ps"][i]["t"]) or attribute(t["ps"][i]["n"] or "")
            if a:
                return [(a, True)]
        m = (n.get("f") or "").split("::")[-1]
        if n["k"] == "call" and len(n.get("a") or ()) == 1:
            a = attribute(m)
            if a:
                return [(a, True)]
        return []


def bits_of(v):
    """[(bit of the value, bit of the byte, positive)]; None if it is something else."""
    out = []
    truth = [int(bool(x)) for x in v]
    for pos in (True, False):
        for b in range(8):
            if all(t == int(bool(x >> b & 1) == pos) for x, t in enumerate(truth)):
                return [(0, b, pos)]
    for sh in range(8):
        for n in (2, 3):
            if all(y == (x >> sh) & ((1 << n) - 1) for x, y in enumerate(v)):
                return [(i, sh + i, True) for i in range(n)]
    return None


def check(prog, R):
    R.rule("read", "what a header byte decides is decided by the bit assigned to it", 20)
    R.rule("complete", "every attribute a header of that version has is read and written", 20)
    R.rule("write", "every bit written to a header is the attribute it is assigned to", 15)
    R.rule("extras", "what the flags of a frame add to its header comes in the order ID3v2 gives", 3)
    R.rule("magic", "tags begin with ID3 (their footers with 3DI), their version and zero", 3)
    lib = [f for f in prog.fns if f.get("body") is not None and "scribbu/" in f["l"][0] and "pprinter" not in f["l"][0] and
           ("id3v2" in f["l"][0].split("/")[-1] or "frames" in f["l"][0].split("/")[-1])]
    read, reads = {}, {}
    keys = {}
    for f in lib:
        tb = tables(f)
        if not tb:
            continue
        T = Tests(prog, f)
        for top, v, o in T.tests():
            tg = T.target(top)
            b = bits_of(v)
            # bytes of text or sizes decide other things
            tg = sorted({(a, t) for a, t in tg if any((a, 0) in t2 for _, t2 in tb)})
            if b is None:
                if tg and of_mask(top):
                    bad(R, keys, "read", f, tg[0][0], top, "%s is not decided by one bit" % NAMES[tg[0][0]])
                continue
            if len(tg) != 1:
                continue
            a, pol = tg[0]
            ok = False
            want = []
            for kind, t in tb:
                if not all((a, i) in t for i, _, _ in b):
                    continue
                if kind == "tag" and o[0] == "e" or kind == "frame" and o[0] == "m":
                    continue
                want.append(t[(a, 0)])
                if all(t[(a, i)][1] == x and (o[2] is None or kind == "tag" or t[(a, i)][0] == o[2]) and p == pol for i, x, p in b) and len(b) == len([1 for q in t if q[0] == a]):
                    ok = True
                    for v_ in ([version(f)] if version(f) else [2, 3, 4]):
                        read.setdefault((v_, kind), set()).add(a)
            if not want:
                continue
            if ok:
                good(R, keys, "read", f, a)
                p = T.parents.get(id(top))
                if p is not None and p.get("k") == "if" and "parse" in name_of(f):
                    reads.setdefault(f["u"], []).append((a, top))
            else:
                bad(R, keys, "read", f, a, top, "%s is decided by bit %d of %s%s, not bit %d of byte %d" % (
                    NAMES[a], b[0][1], "byte %d" % o[2] if o[2] is not None else "the byte", "" if b[0][2] == pol else " the wrong way round", want[0][1], want[0][0]))
    for f, order in sorted(reads.items()):
        extras(R, prog.by_usr[f] if not isinstance(prog.by_usr[f], list) else prog.by_usr[f][0], order)
    wrote = {}
    anchors = set()
    for f in lib:
        m = name_of(f)
        if version(f) is None or f.get("dep"):
            continue
        kinds = dict(tables(f))
        byte_result = is_byte(f.get("rt")) and not f["ps"]
        writes = any(n.get("k") == "call" and (n.get("f") or "").endswith("::write") for n in fn_nodes(f))
        if not (byte_result or writes):
            continue
        if not any(n.get("k") in ("call", "mem", "var") and attribute((n.get("f") or n.get("n") or "")) for n in fn_nodes(f)):
            continue
        cls = (f.get("cls") or "").split("::")[-1]
        frame = cls.endswith("frame")
        if not frame and not cls.endswith("tag") and cls != "ext_header":
            continue
        kind = "ext" if cls == "ext_header" else "frame" if frame else "tag"
        layout = dict(kinds.get(kind, {}))
        if kind == "ext":
            layout.update(kinds.get("restrictions", {}))
        if not layout:
            continue
        emitted = paths(prog, f)
        if kind == "frame":
            order = []
            for (site, j), (n, ps) in sorted(emitted.items(), key=lambda x: (x[1][0]["l"][:2] if x[1][0].get("l") else [], x[0][1])):
                if j:
                    continue
                g = [{q[0] for q, t in truths(k).items() if t and q[0] in sum(ORDER.values(), ())} for _, k in ps]
                g = set.intersection(*g) if g else set()
                if len(g) == 1:
                    order.append((g.pop(), n))
            extras(R, f, order)
        for (site, j), ps in sorted(emitted.items(), key=lambda x: (str(x[0][0]), x[0][1])):
            judge(R, keys, f, kind, layout, ps, wrote, anchors)
    for v in (2, 3, 4):
        for kind, t in (("tag", TAG), ("frame", FRAME), ("ext", EXT), ("restrictions", RESTRICTIONS)):
            for a in sorted({q[0] for q in t.get(v, ())}):
                k = "id3v2.%d/%s/%s" % (v, kind, a)
                if a in read.get((v, kind), ()):
                    R.ok("complete", "read/" + k)
                else:
                    R.bad("complete", "read/" + k, lib[0], "%s is never read from its bit in the %s of an ID3v2.%d tag" % (NAMES[a], kind, v))
                if a in wrote.get((v, "ext" if kind == "restrictions" else kind), ()):
                    R.ok("complete", "write/" + k)
                else:
                    R.bad("complete", "write/" + k, lib[0], "%s is never written to its bit in the %s of an ID3v2.%d tag" % (NAMES[a], kind, v))
    magic(prog, R, lib)


ORDER = {3: ("compressed", "encrypted", "grouped"), 4: ("grouped", "encrypted", "dli")}


def extras(R, f, order):
    """Pairs of extra fields are in the order given."""
    v = version(f)
    if v not in ORDER:
        return
    want = ORDER[v]
    order = [(a, n) for a, n in order if a in want]
    bad_ = None
    rounds = 1
    last = -1
    for a, n in order:
        i = want.index(a)
        if i < last:
            # another pass over the frames begins with the first
            if i == 0 and last == len(want) - 1:
                rounds += 1
            elif bad_ is None:
                bad_ = (a, n, want[last])
        last = i
    key = f["n"].split("scribbu::")[-1]
    if bad_:
        R.bad("extras", key, bad_[1], "%s: what goes with %s comes after what goes with %s" % (name_of(f), NAMES[bad_[0]], NAMES[bad_[2]]))
    elif len(order) > 1:
        R.ok("extras", key)


def of_mask(e):
    return any(n.get("k") == "bin" and n["op"] in ("&", ">>") for n in walk(e, False))


def label(f, a, keys, rule):
    base = "%s/%s" % (f["n"].split("scribbu::")[-1].replace(" ", ""), a)
    k = (rule, base)
    keys[k] = keys.get(k, 0) + 1
    return base + ("/%d" % keys[k] if keys[k] > 1 else "")


def good(R, keys, rule, f, a):
    R.ok(rule, label(f, a, keys, rule))


def bad(R, keys, rule, f, a, n, msg):
    R.bad(rule, label(f, a, keys, rule), n, "%s: %s" % (name_of(f), msg))


class Out(Bits):
    """Bytes emitted on each path, with the attributes known there."""

    def __init__(self, prog, f):
        Bits.__init__(self, prog)
        self.f = f
        self.emitted = {}
        self.alias = {}

    def declare(self, v, st):
        if v.get("i") is not None and self.named(v["i"]):
            self.alias[v["id"]] = self.named(v["i"])
        return Bits.declare(self, v, st)

    def wanted(self, n, tg):
        m = name_of(tg[0])
        if m == "flags" and is_byte(tg[0].get("rt")):
            return True
        if len(tg) != 1 or tg[0].get("virt") and m != "flags":
            return False
        if m in ("write_header", "write_footer") and not n.get("virt"):
            return True
        b = tg[0]["body"]
        rt = bare(tg[0].get("rt"))
        return rt is not None and rt.k == "bool" and not tg[0]["ps"] and b["k"] == "block" and len(b["s"]) == 1

    def named(self, e):
        e = uncast(e)
        while e["k"] in ("ctor", "init") and len(e.get("a") or ()) == 1:
            e = uncast(e["a"][0])
        if e["k"] == "var" and attribute(e["n"]) is None and self.alias.get(e["id"]):
            return self.alias[e["id"]]
        if e["k"] in ("mem", "var") and e.get("n"):
            return e["n"]
        if e["k"] == "call" and not e.get("a") and not e.get("op"):
            return (e.get("f") or "").split("::")[-1]
        return None

    def optional_bool(self, e):
        t = bare(uncast(e).get("t"))
        return t is not None and t.rec == "boost::optional" and t.targs and getattr(t.targs[0], "k", None) == "bool"

    def eval(self, e, st):
        if e is not None and e["k"] == "bin" and e["op"] in ("==", "!=") and const(e) is None:
            for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
                a, c = of_type(uncast(x).get("t")), const(y)
                if a is not None and c in (0, 1) and const(x) is None:
                    v = Bits.eval(self, x, st)
                    b = v[1][0] if v is not None and v[0] == "b" else "?"
                    if (c == 1) != (e["op"] == "=="):
                        from bits import bit_not
                        b = bit_not(b)
                    return ("b", (b,), False)
            for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
                if (uncast(x)["k"] == "null" or "none" in str(uncast(x).get("n") or "")) and self.named(y):
                    s = source(("opt", self.named(y)), 1)
                    if e["op"] == "==":
                        s = ("b", (("n",) + s[1][0][1:],), False)
                    return self.know(s, st)
        return Bits.eval(self, e, st)

    def value_of_call(self, e, st, w):
        o = e.get("obj")
        op = e.get("op")
        a = e.get("a") or ()
        m = (e.get("f") or "").split("::")[-1]
        if op == "*" and len(a) == 1 and self.optional_bool(a[0]) or m in ("get", "value") and o is not None and self.optional_bool(o):
            n = self.named(a[0] if op else o)
            if n:
                return self.know(source(("val", n), 1), st)
        x = None
        neg = False
        if e.get("conv") and o is not None or m == "operator bool" and o is not None or m in ("is_initialized", "has_value") and o is not None:
            x = o
        elif op == "!" and len(a) == 1:
            x, neg = a[0], True
        elif op in ("!=", "==") and len(a) == 2:
            none = [i for i in (0, 1) if "none" in str(uncast(a[i]).get("n") or "") or uncast(a[i])["k"] == "null" or "nullptr" in str(bare(a[i].get("t")).s if a[i].get("t") is not None else "")]
            if len(none) == 1:
                x, neg = a[1 - none[0]], op == "=="
        if x is not None:
            n = self.named(x)
            if n and w is not None and w[0] == 1:
                k = "engaged" if self.optional_bool(x) else "opt"
                s = source((k, n), 1)
                if neg:
                    s = ("b", (("n",) + s[1][0][1:],), False)
                return self.know(s, st)
        if not a and o is not None and w is not None and not op:
            t = bare(e.get("t"))
            if t is not None and t.k == "bool":
                r = st.get(("res", id(e)))
                return r if r is not None else self.know(source(("call", m), 1), st)
        return Bits.value_of_call(self, e, st, w)

    def default(self, n, st):
        a = n.get("a") or ()
        if n["k"] == "call" and n.get("op") == "=" and len(a) == 2:
            l, r = uncast(a[0]), uncast(a[1])
            if l["k"] == "call" and (l.get("f") or "").endswith("tie"):
                names = self.tuple_of(r)
                for i, x in enumerate(l["a"]):
                    y = uncast(x)
                    w = self.width(y.get("t"))
                    if y["k"] == "var" and w is not None:
                        st = st.set(y["id"], source(("f", names[i]), *w) if i < len(names) and names[i] else source(("v", y["n"]), *w))
                yield (N, st)
                return
        yield from Bits.default(self, n, st)

    def tuple_of(self, e):
        t = self.prog.by_usr.get(e.get("fu")) if e["k"] == "call" else None
        if isinstance(t, list):
            t = t[0] if t else None
        if t is None or t.get("body") is None:
            return []
        for n in fn_nodes(t):
            if n.get("k") == "call" and (n.get("f") or "").endswith("make_tuple"):
                return [self.named(x) for x in n["a"]]
        return []

    def emit(self, n, j, v, st):
        self.emitted.setdefault((where(n), j), [n, set()])[1].add((v[1][:8], st.get(KNOWN) or frozenset()))

    def opaque(self, n, st):
        m = (n.get("f") or "").split("::")[-1]
        o = n.get("obj")
        t = bare(o.get("t")) if o is not None else None
        a = n.get("a") or ()
        if t is not None and "stream" in (t.rec or ""):
            if m == "write" and len(a) == 2:
                p, k = self.eval(a[0], st), value_of(self.eval(a[1], st))
                if p is None:
                    p = self.place_of(a[0], st)
                if p is not None and p[0] == "at" and k is not None and k <= 16:
                    for j in range(k):
                        self.emit(n, j, self.byte(p[1], p[2] + j, st), st)
            elif m == "put" and len(a) == 1:
                v = self.eval(a[0], st)
                if v is not None and v[0] == "b":
                    self.emit(n, 0, v, st)
        return Bits.opaque(self, n, st)

    def place_of(self, e, st):
        return self.place(uncast(e)["e"], st) if uncast(e)["k"] == "un" and uncast(e)["op"] == "&" else None

    def ret(self, n, st):
        if len(self.stack) == 1 and n.get("e") is not None and is_byte(self.f.get("rt")):
            v = self.eval(n["e"], st)
            if v is not None and v[0] == "b":
                self.emitted.setdefault(("result", 0), [n, set()])[1].add((v[1][:8], st.get(KNOWN) or frozenset()))
        return Bits.ret(self, n, st)


def paths(prog, f):
    out = {}
    flags = [p for p in f["ps"] if bare(p["t"]) is not None and bare(p["t"]).k == "bool" and attribute(p["n"] or "")]
    runs = [{}]
    for p in flags:
        runs = [dict(r, **{p["n"]: t}) for r in runs for t in (True, False)]
    for r in runs:
        a = Out(prog, f)
        d = {}
        known = set()
        for p in flags:
            d[p["id"]] = const_bits(int(r[p["n"]]), 1, False)
            known.add(((("val", p["n"]), 0), r[p["n"]]))
        d[KNOWN] = frozenset(known)
        a.run(f, St(d))
        for k, (n, s) in a.emitted.items():
            out.setdefault(k, [n, set()])[1].update(s)
    return out


def truths(known):
    """What is known of the attributes on a path: (attribute, bit) -> whether one of its sources is set"""
    out = {}
    for (src, n), t in known:
        if src[0] == "engaged":
            continue
        a = attribute(src[1])
        if a is not None:
            out[(a, n)] = out.get((a, n), False) or t
    return out


def judge(R, keys, f, kind, layout, entry, wrote, anchors):
    n, ps = entry
    rows = []
    for bits, known in sorted(ps, key=str):
        rows.append((bits, truths(known)))
    got = {}
    for i in range(8):
        col = [r[0][i] if i < len(r[0]) else 0 for r in rows]
        if any(x == "?" for x in col):
            continue
        if any(isinstance(x, tuple) and (x[1][0] not in ("f", "val", "opt", "call") or attribute(x[1][1]) is None) for x in col):
            continue
        if all(x == col[0] for x in col) and not isinstance(col[0], tuple):
            continue
        cands = None
        for x, (bits, tr) in zip(col, rows):
            if isinstance(x, tuple):
                c = {(attribute(x[1][1]), x[2])} if x[0] == "i" else set()
            else:
                c = {q for q in layout if tr.get(q, False) == bool(x)}
            cands = c if cands is None else cands & c
        got[i] = cands
    if not got:
        return
    # one byte may carry what is fixed besides
    v = version(f)
    taken = {}
    for i, c in sorted(got.items()):
        fits = [q for q in c if q in layout and layout[q][1] == i]
        if len(fits) >= 1:
            taken[i] = fits
            continue
        what = ", ".join(NAMES[q[0]] for q in sorted(c)) or "no attribute, or several"
        bad(R, keys, "write", f, "bit%d" % i, n, "bit %d of a header byte is %s" % (i, what))
    for i, fits in taken.items():
        for q in fits:
            good(R, keys, "write", f, q[0] + ("%d" % q[1] if q[1] else ""))
            w = wrote.setdefault((v, kind), set())
            w.add(q[0])
    # attributes of one byte are not spread over the other
    where_ = {layout[q][0] for fits in taken.values() for q in fits}
    if len(where_) > 1 and kind == "frame":
        bad(R, keys, "write", f, "byte", n, "attributes of different header bytes are put into one")


def magic(prog, R, lib):
    for f in lib:
        v = version(f)
        cls = (f.get("cls") or "").split("::")[-1]
        if v is None or not cls.endswith("_tag"):
            continue
        if not any(n.get("k") == "call" and (n.get("f") or "").endswith("::write") for n in fn_nodes(f)):
            continue
        a = Out(prog, f)
        a.wanted = lambda n, tg: False
        a.run(f, St({}))
        sites = {}
        for (site, j), (n, s) in a.emitted.items():
            sites.setdefault(site, {})[j] = (n, s)
        for site, bs in sites.items():
            vals = []
            for j in sorted(bs):
                x = {value_of(("b", b, False)) for b, _ in bs[j][1]}
                vals.append(x.pop() if len(x) == 1 else None)
            if len(vals) < 5 or not any(x in (0x49, 0x44, 0x33) for x in vals[:3]):
                continue
            foot = "foot" in name_of(f)
            want = [ord(c) for c in ("3DI" if foot else "ID3")] + [v, 0]
            n = bs[0][0]
            key = f["n"].split("scribbu::")[-1]
            if vals[:5] == want:
                R.ok("magic", key)
            else:
                R.bad("magic", key, n, "%s begins with %s, not %s" % (name_of(f), vals[:5], want))
