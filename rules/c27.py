"""C27: one unsynchronisation criterion; sync-safe integers are packed most significant group first."""

from bits import Bits, St, bare, source, value_of
from facts import AnalysisBroken
from flow import ANY, Flow, N, THR
from program import const, fn_nodes, uncast, walk, where
import c28
import count

TECHNIQUE = "value-set analysis of every predicate over neighbouring bytes; bit-origin analysis of the packing and unpacking of sizes and of every size put into a header"

ALL = frozenset(range(256))
SYNC = frozenset(range(0xe0, 256))
UNSYNC = SYNC | {0}
ZERO = frozenset({0})
BOM = frozenset({0xfe})
OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def name_of(f):
    return f["n"].split("::")[-1]


def is_byte(t):
    t = bare(t)
    return t is not None and t.k in ("int", "uint") and t.sz == 1


def operand(e):
    """A byte whose value is not known, as a key; None if the expression is none."""
    e = uncast(e)
    if const(e) is not None or not is_byte(e.get("t")):
        return None
    return shape(e)


def shape(e):
    e = uncast(e)
    k = e["k"]
    if k == "var":
        return ("v", e["id"])
    if const(e) is not None:
        return ("c", const(e))
    if k == "mem":
        return ("m", e["n"], shape(e["b"]))
    if k in ("idx", "bin"):
        return (k, e.get("op"), shape(e["a"]), shape(e["b"]))
    if k == "un":
        return (k, e["op"], shape(e["e"]))
    if k == "call":
        return (k, e.get("f"), e.get("op"), shape(e["obj"]) if e.get("obj") is not None else None) + tuple(shape(a) for a in e.get("a") or ())
    return (k,)


def byte_values(e, x):
    """e as a function of the byte x: a list of 256 values; None if it is something else."""
    if const(e) is not None:
        return [const(e)] * 256
    if e["k"] == "cast":
        v = byte_values(e["e"], x)
        t = bare(e.get("t"))
        if v is not None and t is not None and t.k in ("int", "uint") and t.sz == 1:
            return [((y & 0xff) ^ 0x80) - 0x80 if t.k == "int" else y & 0xff for y in v]
        if v is not None and t is not None and t.k == "uint" and t.sz in (2, 4, 8):
            return [y & ((1 << 8 * t.sz) - 1) for y in v]
        return v
    if operand(e) == x:
        t = bare(e.get("t"))
        return [y if t.k == "uint" or y < 128 else y - 256 for y in range(256)]
    if e["k"] == "bin" and e["op"] in ("&", "|", "^", ">>", "<<", "+", "-"):
        a, b = byte_values(e["a"], x), byte_values(e["b"], x)
        if a is None or b is None:
            return None
        f = {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q, ">>": lambda p, q: p >> q, "<<": lambda p, q: p << q, "+": lambda p, q: p + q, "-": lambda p, q: p - q}[e["op"]]
        return [f(p, q) for p, q in zip(a, b)]
    return None


def operands(e):
    """The unknown bytes an expression tests."""
    out = {}

    def go(n):
        n = uncast(n)
        if n["k"] == "bin" and n["op"] in ("&&", "||") or n["k"] == "un" and n["op"] == "!":
            for c in ([n["a"], n["b"]] if n["k"] == "bin" else [n["e"]]):
                go(c)
        elif n["k"] == "bin":
            for c in (n["a"], n["b"]):
                o = operand(c)
                if o is not None:
                    out[o] = c
                else:
                    go(c)
        elif operand(n) is not None:
            out[operand(n)] = n
    go(e)
    return out


def regions(c, env, truth):
    """Sub-boxes of env (operand -> values) on which c may be truth."""
    e = uncast(c)
    if const(e) is not None:
        return [env] if bool(const(e)) == truth else []
    if e["k"] == "un" and e["op"] == "!":
        return regions(e["e"], env, not truth)
    if e["k"] == "bin" and e["op"] in ("&&", "||"):
        if (e["op"] == "&&") == truth:
            return [r for x in regions(e["a"], env, truth) for r in regions(e["b"], x, truth)]
        return regions(e["a"], env, truth) + [r for x in regions(e["a"], env, not truth) for r in regions(e["b"], x, truth)]
    if e["k"] == "cond":
        return [r for t in (True, False) for x in regions(e["c"], env, t) for r in regions(e["a"] if t else e["b"], x, truth)]
    for o in env:
        if e["k"] == "bin" and e["op"] in OPS:
            a, b = byte_values(e["a"], o), byte_values(e["b"], o)
            if a is not None and b is not None:
                keep = frozenset(x for x in env[o] if bool(OPS[e["op"]](a[x], b[x])) == truth)
                return [dict(env, **{}) | {o: keep}] if keep else []
        v = byte_values(e, o)
        if v is not None:
            keep = frozenset(x for x in env[o] if bool(v[x]) == truth)
            return [env | {o: keep}] if keep else []
    return [env]


class Pair(Flow):
    """Boolean function of two bytes: the boxes on which it answers true."""

    def __init__(self, prog, x, y):
        Flow.__init__(self, prog)
        self.x, self.y = x, y
        self.true, self.maybe = [], False

    def env(self, st):
        return {self.x: st[0], self.y: st[1]}

    def assume(self, c, st, truth):
        r = regions(c, self.env(st), truth)
        if not r:
            return None
        if len(r) == 1:
            return (r[0][self.x], r[0][self.y])
        return st

    def ret(self, n, st):
        for r in regions(n["e"], self.env(st), True):
            self.true.append((r[self.x], r[self.y]))
        return st


def predicate(prog, f):
    """{first byte: second bytes} for which a function of two bytes answers true."""
    if f.get("body") is None or len(f["ps"]) != 2 or not all(is_byte(p["t"]) for p in f["ps"]) or f.get("rt") is None or bare(f["rt"]).k != "bool":
        return None
    x, y = (("v", p["id"]) for p in f["ps"])
    a = Pair(prog, x, y)
    a.run(f, (ALL, ALL))
    out = {}
    for p, q in a.true:
        for v in p:
            out[v] = out.get(v, frozenset()) | q
    return out


def slots(prog, R):
    """Which remembered form is handed out when unsynchronisation is asked for."""
    model = c28.Model(prog)
    dom = count.domains(prog)
    for cls, filler, flag, fields in c28.caches(prog, model):
        un = set()
        for n in fn_nodes(filler):
            if n.get("k") == "call" and (n.get("f") or "").split("::")[-1] == "unsynchronise" and n.get("a"):
                for x in walk(n["a"][0]):
                    if x.get("k") == "idx" or x.get("k") == "call" and x.get("op") == "[]":
                        i = const(x["b"] if x["k"] == "idx" else x["a"][-1])
                        m = c28.own(x)
                        if i is not None and m in fields:
                            un.add((m[1], i))
        if not un:
            continue
        for m in prog.methods(cls):
            bools = [p for p in m["ps"] if p["t"].k == "bool"]
            if not m.get("body") or m["u"] == filler["u"] or not bools or not m.get("const"):
                continue
            C = count.Count(prog, cls, dom)
            OS = ("param", "os")
            try:
                paths = C.run(m, [OS if count.is_stream(p["t"]) else ("param", p["n"] or "_") for p in m["ps"]])
            except count.Unknown:
                continue
            bad, n = None, 0
            for r, st in paths:
                asked = st.facts.get(("param", bools[0]["n"]))
                seen = set()

                def look(t):
                    if isinstance(t, tuple) and t[:1] == ("idx",) and isinstance(t[1], tuple) and t[1][:1] == ("f",) and count.value(t[2]) is not None:
                        seen.add((t[1][2], count.value(t[2])))
                    return False
                count.mentions(r if r is not None else (), look)
                count.mentions(st.w.get(OS, ()), look)
                for s in seen:
                    if s[0] in {x[0] for x in un}:
                        n += 1
                        if asked is None or (s in un) != asked:
                            bad = (s, asked)
            if bad:
                R.bad("slot", m["fn"].split("scribbu::")[-1], m, "%s uses the %s form %s" % (
                    m["fn"], "unsynchronised" if bad[0] in un else "plain",
                    {True: "when unsynchronisation is asked for", False: "when unsynchronisation is not asked for", None: "whether or not unsynchronisation is asked for"}[bad[1]]))
            elif n:
                R.ok("slot", m["fn"])


def check(prog, R):
    R.rule("slot", "of the two serialized forms a frame remembers the unsynchronised one is used exactly when it is asked for", 4)
    slots(prog, R)
    R.rule("criterion", "every test of a byte against 0xff together with its successor asks whether the latter is at least 0xe0, or that or zero; only removal asks for zero alone", 4)
    R.rule("role", "where only false syncs are asked for only they are counted, elsewhere everything that needs a byte inserted", 8)
    R.rule("unpack", "the functions making integers of bytes take seven (or eight) bits of each, most significant first", 5)
    R.rule("pack", "sync-safe bytes made of an integer hold seven bits each, most significant first, and integers that do not fit are refused", 1)
    R.rule("order", "bytes are handed to the functions making integers of them in the order they have in the tag", 8)
    R.rule("kind", "sizes in ID3v2.2 and ID3v2.3 frames are read with all their bits, those in tag headers and ID3v2.4 frames as sync-safe integers", 8)
    R.rule("range", "a test of a byte that becomes part of a sync-safe integer tells the bytes below 0x80 from the others, and nothing else", 0)
    R.rule("header", "sizes put in headers are big-endian: sync-safe in tag headers and ID3v2.4 frame headers, all bits in ID3v2.2 and ID3v2.3 frame headers", 4)
    lib = [f for f in prog.fns if f.get("body") is not None and "scribbu/" in f["l"][0] and not f["l"][0].rsplit("/", 1)[-1].startswith(("mp3", "charsets"))]
    temps = [f for f in (prog.patterns.values() if isinstance(prog.patterns, dict) else prog.patterns) if f.get("body") is not None and "scribbu/" in f["l"][0]]
    preds = {}
    for f in lib:
        p = predicate(prog, f)
        if p is None or not p:
            continue
        n = name_of(f)
        ys = p.get(0xff)
        if set(p) != {0xff} or ys not in (SYNC, UNSYNC, ZERO, BOM):
            if "sync" in n.lower() or set(p) == {0xff}:
                R.bad("criterion", n, f, "%s accepts %s" % (n, describe(p)))
            continue
        want = SYNC if "false" in n else ZERO if "resync" in n else UNSYNC if "unsync" in n else ys
        if ys != want:
            R.bad("criterion", n, f, "%s accepts %s, not %s" % (n, describe(p), describe({0xff: want})))
            continue
        R.ok("criterion", n)
        preds[f["u"]] = ys
    seen = set()
    for f in lib + temps:
        if f["u"] in preds or predicate(prog, f):
            continue
        conditions(prog, R, f, seen)
    roles(prog, R, lib, preds)
    wides(prog, R, lib, preds)
    packing(prog, R, lib)
    headers(prog, R, lib)


def describe(p):
    def span(s):
        s = sorted(s)
        out = []
        for v in s:
            if out and out[-1][1] == v - 1:
                out[-1][1] = v
            else:
                out.append([v, v])
        return ", ".join("0x%02x" % a if a == b else "0x%02x-0x%02x" % (a, b) for a, b in out[:4])
    return "; ".join("0x%02x before %s" % (x, span(y)) for x, y in sorted(p.items())[:2])


def conjuncts(e):
    e = uncast(e)
    if e["k"] == "bin" and e["op"] == "&&":
        return conjuncts(e["a"]) + conjuncts(e["b"])
    return [e]


def equals_ff(c):
    e = uncast(c)
    if e["k"] != "bin" or e["op"] != "==":
        return None
    for a, b in ((e["a"], e["b"]), (e["b"], e["a"])):
        if const(a) == 0xff and operand(b) is not None:
            return operand(b)
    return None


def conditions(prog, R, f, seen):
    n = name_of(f)
    nodes = list(fn_nodes(f))
    finds = any(x.get("k") == "call" and any(const(a) in (0xff, -1) for a in x.get("a") or ()) and (x.get("f") or "").split("::")[-1] in ("find", "memchr") for x in nodes)
    inner = set()
    for x in nodes:
        if x.get("k") == "bin" and x["op"] == "&&":
            for c in (x["a"], x["b"]):
                y = uncast(c)
                if y["k"] == "bin" and y["op"] == "&&":
                    inner.add(id(y))
    for x in nodes:
        if x.get("k") != "bin" or x["op"] != "&&" or id(x) in inner:
            continue
        cs = conjuncts(x)
        first = [equals_ff(c) for c in cs if equals_ff(c) is not None]
        ops = operands(x)
        if not first and not finds:
            continue
        others = [o for o in ops if o not in first]
        if len(others) != 1:
            continue
        o = others[0]
        env = {o: ALL}
        got = frozenset()
        rest = [c for c in cs if equals_ff(c) is None and o in operands(c)]
        if not rest:
            continue
        boxes = [env]
        for c in rest:
            boxes = [r for b in boxes for r in regions(c, b, True)]
        for b in boxes:
            got |= b[o]
        role = None
        if "unsync" in n:
            role = (UNSYNC,)
        elif "resync" in n:
            role = (ZERO,)
        elif "sync" in n or finds:
            role = (SYNC, UNSYNC, ZERO)
        if role is None:
            role = (SYNC, UNSYNC, ZERO, BOM)
        key = "%s/%d" % (n, sum(1 for s in seen if s[0] == n))
        if (n, where(x)) in seen:
            continue
        seen.add((n, where(x)))
        if got in role:
            R.ok("criterion", key)
        else:
            R.bad("criterion", key, x, "%s tests for %s" % (n, describe({0xff: got})))


class Role(Flow):
    """Which of the predicates is used where the caller asked for false syncs only."""

    def __init__(self, prog, flag, preds):
        Flow.__init__(self, prog)
        self.flag, self.preds = flag, preds
        self.bad, self.n = {}, set()

    def assume(self, c, st, truth):
        e = uncast(c)
        if e["k"] == "un" and e["op"] == "!":
            return self.assume(e["e"], st, not truth)
        if e["k"] == "var" and e["id"] == self.flag:
            if st is not None and st != "?" and st != truth:
                return None
            return truth
        return Flow.assume(self, c, st, truth)

    def call(self, n, st):
        p = self.preds.get(n.get("fu")) if n["k"] == "call" else None
        if p in (SYNC, UNSYNC):
            self.n.add(where(n))
            if st == "?":
                self.bad[where(n)] = (n, "whether or not only false syncs are asked for")
            elif st != (p == SYNC):
                self.bad[where(n)] = (n, "where %s asked for" % ("only false syncs are" if st else "everything needing a byte inserted is"))
        yield (N, st)


def roles(prog, R, lib, preds):
    for f in lib:
        flags = [p for p in f["ps"] if bare(p["t"]) is not None and bare(p["t"]).k == "bool" and "false" in (p["n"] or "")]
        if len(flags) != 1:
            continue
        n = f["n"]
        a = Role(prog, flags[0]["id"], preds)
        a.run(f, "?")
        key = n.replace(" ", "").split("scribbu::")[-1] + "/%d" % len(f["ps"])
        # the flag handed on unchanged
        for x in fn_nodes(f):
            if x.get("k") == "call" and (x.get("f") or "").endswith("count_syncs") and x.get("a"):
                y = uncast(x["a"][-1])
                a.n.add(where(x))
                if not (y["k"] == "var" and y["id"] == flags[0]["id"]):
                    a.bad[where(x)] = (x, "with something other than what the caller asked for")
        if not a.n:
            continue
        if a.bad:
            for i, (x, m) in enumerate(a.bad.values()):
                R.bad("role", key + ("/%d" % i if i else ""), x, "%s: %s is used %s" % (name_of(f), (x.get("f") or "").split("::")[-1], m))
        else:
            R.ok("role", key)


class Wide(Bits):
    """Which bits of an integer the predicates get to see."""

    def __init__(self, prog, preds):
        Bits.__init__(self, prog)
        self.preds, self.seen = preds, []

    def wanted(self, n, tg):
        return False

    def opaque(self, n, st):
        if n.get("fu") in self.preds:
            self.seen.append((n, [self.eval(a, st) for a in n["a"]]))
        return Bits.opaque(self, n, st)


def wides(prog, R, lib, preds):
    for f in lib:
        ps = [p for p in f["ps"] if bare(p["t"]) is not None and bare(p["t"]).k == "uint" and bare(p["t"]).sz == 4]
        if len(ps) != 1 or not any(n.get("k") == "call" and n.get("fu") in preds for n in fn_nodes(f)):
            continue
        a = Wide(prog, preds)
        a.run(f, St({ps[0]["id"]: source(("n",), 32)}))
        want = [[[("i", ("n",), 8 * (3 - j) + i) for i in range(8)] for j in (k, k + 1)] for k in range(3)]
        got = []
        for n, v in a.seen:
            b = [list(x[1])[:8] if x is not None and x[0] == "b" else None for x in v]
            if b not in got:
                got.append(b)
            if b not in want:
                R.bad("order", name_of(f) + "/integer", n, "%s: the bytes of the integer are not taken in the order they are written in" % name_of(f))
                break
        else:
            if any(w not in got for w in want):
                R.bad("order", name_of(f) + "/integer", f, "%s does not look at all the bytes of the integer" % name_of(f))
            else:
                R.ok("order", name_of(f) + "/integer")


def mentions_var(x, ids):
    return isinstance(x, tuple) and (len(x) == 2 and x[0] == "v" and x[1] in ids or any(mentions_var(y, ids) for y in x))


RELATION = {"<": lambda p, q: p < q, ">": lambda p, q: p > q, "<=": lambda p, q: p <= q, ">=": lambda p, q: p >= q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q}


def ranges(R, f, tested):
    low = set(range(128))
    for n in fn_nodes(f):
        if n.get("k") != "bin" or n["op"] not in RELATION:
            continue
        sides = [uncast(n["a"]), uncast(n["b"])]
        if n["op"] in ("==", "!=") and any(operand(x) in tested for x in sides):
            continue           # a particular byte
        for x in tested:
            if not any(operand(y) == x for e in sides for y in walk(e) if y.get("k") and y.get("t") is not None and const(y) is None):
                continue
            a, b = byte_values(n["a"], x), byte_values(n["b"], x)
            if a is None or b is None:
                continue
            yes = {i for i in range(256) if RELATION[n["op"]](a[i], b[i])}
            key = "%s/%s:%d" % (name_of(f), n["l"][1], n["l"][2])
            if yes == low or yes == set(range(256)) - low:
                R.ok("range", key)
            else:
                R.bad("range", "%s/%d" % (name_of(f), len(yes)), n, "%s tells %d byte values from the others; a byte of a sync-safe integer is any below 0x80" % (name_of(f), len(yes)))


def packing(prog, R, lib):
    makers = {}
    for f in lib:
        n = name_of(f)
        if "sync_safe" not in n or "from" not in n or f.get("body") is None:
            continue
        if all(is_byte(p["t"]) for p in f["ps"]) and len(f["ps"]) >= 3:
            g = 8 if "non_sync" in n else 7
            a = Bits(prog)
            o = a.run(f, St({p["id"]: source(("p", i), 8) for i, p in enumerate(f["ps"])}))
            vals = {st.get(("ret", 1)) for st in o.r}
            k = len(f["ps"])
            want = []
            for i in range(k * g):
                want.append(("i", ("p", k - 1 - i // g), i % g))
            key = "%s/%d" % (n, k)
            makers[f["u"]] = k
            ok = bool(vals)
            for v in vals:
                if v is None or v[0] != "b":
                    ok = False
                    continue
                w = min(len(v[1]), 32 if k * g > 32 else 64)
                got, exp = list(v[1]), (want + [0] * 64)[:len(v[1])]
                if k * g > 32:
                    got, exp = got[:32], exp[:32]
                if got != exp:
                    # sign extension of the top bit cannot be told from a wide unsigned value
                    if not (k * g == 32 and got[:32] == exp[:32]):
                        ok = False
            if ok:
                R.ok("unpack", key)
            else:
                R.bad("unpack", key, f, "%s of %d bytes does not take %d bits of each, most significant first" % (n, k, g))
        elif len(f["ps"]) == 2 and bare(f["ps"][1]["t"]).k in ("ptr", "arr"):
            a = Bits(prog)
            base = ("out",)
            o = a.run(f, St({f["ps"][0]["id"]: source(("x",), 64), f["ps"][1]["id"]: ("at", base, 0)}))
            ok = bool(o.n | o.r)
            for st in o.n | o.r:
                for j in range(4):
                    v = a.byte(base, j, st)
                    exp = [("i", ("x",), (3 - j) * 7 + i) for i in range(7)] + [0]
                    if list(v[1]) != exp:
                        ok = False
            if ok and not refuses(f, (1 << 28) - 1):
                R.bad("pack", n, f, "%s does not refuse exactly the integers of more than 28 bits" % n)
            elif ok:
                R.ok("pack", n)
            else:
                R.bad("pack", n, f, "%s does not put seven bits in each of four bytes, most significant first" % n)
    for f in prog.fns:
        if f.get("body") is None or f["u"] in makers:
            continue
        tested = {operand(a) for x in fn_nodes(f) if x.get("k") == "call" and x.get("fu") in makers and "non_sync" not in x["f"] for a in x["a"]}
        tested.discard(None)
        moved = {uncast(y["a"] if y["k"] == "bin" else y["e"] if y["k"] == "un" else y["a"][0]).get("id") for y in fn_nodes(f)
                 if y.get("k") == "bin" and y["op"] in ("=", "+=", "-=") or y.get("k") == "un" and y["op"] in ("++", "--", "p++", "p--") or y.get("k") == "call" and y.get("op") in ("=", "+=", "-=", "++", "--")}
        tested = {x for x in tested if not mentions_var(x, moved)}      # not a byte of a walk
        if tested:
            ranges(R, f, tested)
    if len(makers) < 4:
        raise AnalysisBroken("the functions making integers of sync-safe bytes were not found")
    for f in prog.fns:
        if f.get("body") is None or f["u"] in makers:
            continue
        i = 0
        for x in fn_nodes(f):
            if x.get("k") != "call" or x.get("fu") not in makers:
                continue
            cls = f["n"].split("scribbu::")[-1]
            if ("2_2" in cls or "2_3" in cls) and "non_sync" not in x["f"] or "2_4" in cls and "non_sync" in x["f"]:
                R.bad("kind", "%s/%d" % (cls, i), x, "%s uses %s" % (name_of(f), x["f"].split("::")[-1]))
            else:
                R.ok("kind", "%s/%s/%d" % (cls, len(f["ps"]), i))
            pl = [place(a) for a in x["a"]]
            key = "%s/%s/%d" % (f["n"].split("scribbu::")[-1].replace(" ", ""), len(f["ps"]), i)
            i += 1
            if any(p is None for p in pl):
                # named one by one
                R.ok("order", key)
                continue
            if all(p[0] == pl[0][0] and p[1] == pl[0][1] + j for j, p in enumerate(pl)):
                R.ok("order", key)
            else:
                R.bad("order", key, x, "%s: the bytes handed to %s are not successive" % (name_of(f), x["f"].split("::")[-1]))


def place(e):
    """(block, index) of an element; the index relative to a common expression."""
    e = uncast(e)
    a = b = None
    if e["k"] == "idx":
        a, b = e["a"], e["b"]
    elif e["k"] == "call" and e.get("op") == "[]":
        a, b = e["a"]
    elif e["k"] == "un" and e["op"] == "*":
        x = uncast(e["e"])
        if x["k"] == "bin" and x["op"] == "+":
            a, b = x["a"], x["b"]
        elif x["k"] in ("var", "mem"):
            return (shape(x), None), 0
    if a is None:
        return None
    c = const(b)
    if c is not None:
        return (shape(a), None), c
    b = uncast(b)
    if b["k"] == "bin" and b["op"] == "+":
        for p, q in ((b["a"], b["b"]), (b["b"], b["a"])):
            if const(q) is not None:
                return (shape(a), shape(p)), const(q)
    return (shape(a), shape(b)), 0


def refuses(f, limit):
    """Some test whose outcome is a throw compares with the greatest 28-bit integer."""
    for n in fn_nodes(f):
        if n.get("k") == "if" and any(x.get("k") == "throw" for x in walk(n)):
            e = uncast(n["c"])
            if e["k"] != "bin":
                continue
            op, a, b = e["op"], e["a"], e["b"]
            if value(a) is not None:
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                a, b = b, a
            v = value(b)
            if v is None:
                return True        # something else
            return (op, v) in ((">", limit), (">=", limit + 1), ("<=", limit), ("<", limit + 1)) or op in ("&", "!=") and v in (~limit, 0)
    return False


def value(e):
    c = const(e)
    if c is not None:
        return c
    e = uncast(e)
    return const(e)


class Header(Bits):
    """Bytes written to a stream."""

    def __init__(self, prog):
        Bits.__init__(self, prog)
        self.written = []

    def wanted(self, n, tg):
        return all("sync_safe" in name_of(t) for t in tg)

    def opaque(self, n, st):
        m = (n.get("f") or "").split("::")[-1]
        o = n.get("obj")
        t = bare(o.get("t")) if o is not None else None
        if m == "write" and t is not None and "stream" in (t.rec or "") and len(n["a"]) == 2:
            p, k = self.eval(n["a"][0], st), value_of(self.eval(n["a"][1], st))
            if p is not None and p[0] == "at" and k is not None and k <= 16:
                self.written.append((n, [self.byte(p[1], p[2] + j, st) for j in range(k)]))
        return Bits.opaque(self, n, st)


def groups(bs):
    """Runs of bytes made of the bits of one wide value: (bits per byte, number of bytes)."""
    i = 0
    while i < len(bs):
        src = wide(bs[i])
        if src is None:
            i += 1
            continue
        j = i
        while j < len(bs) and wide(bs[j]) == src:
            j += 1
        yield i, bs[i:j], src
        i = j


def wide(b):
    s = {x[1] for x in b[1] if isinstance(x, tuple)}
    if len(s) != 1:
        return None
    s = s.pop()
    return s if isinstance(s, tuple) and s[0] in ("v", "m", "f") else None


def headers(prog, R, lib):
    for f in lib:
        if f["l"][0].endswith(".hh") and f.get("inst"):
            continue
        if not any(n.get("k") == "call" and (n.get("f") or "").endswith("::write") for n in fn_nodes(f)):
            continue
        if not any(n.get("k") in ("bin",) and n["op"] in (">>", ">>=", "&") or n.get("k") == "call" and "sync_safe_from" in (n.get("f") or "") for n in fn_nodes(f)):
            continue
        a = Header(prog)
        d = {}
        for p in f["ps"]:
            w = a.width(p["t"])
            if w is not None and w[0] > 8:
                d[p["id"]] = source(("v", p["n"]), *w)
        a.declare = lambda v, st, a=a: declare(a, v, st)
        a.run(f, St(d))
        n = f["n"].split("scribbu::")[-1]
        v24 = "2_4" in n
        frame = "frame" in n
        bad = {}
        good = 0
        for w, bs in a.written:
            for i, g, src in groups(bs):
                k = len(g)
                if k not in (3, 4, 5):
                    continue
                per = None
                for cand in (7, 8):
                    # bits beyond the 32 of the value are zero
                    if all(all(b[1][t] == ("i", src, (k - 1 - j) * cand + t) or b[1][t] == 0 and (k - 1 - j) * cand + t >= 32 for t in range(cand))
                           and list(b[1][cand:]) == [0] * (8 - cand) for j, b in enumerate(g)):
                        per = cand
                if per is None:
                    bad[where(w)] = (w, "the bytes of a size are not its bits, most significant first")
                elif frame and per != (7 if v24 else 8) or not frame and k == 4 and per != 7 and "ext" not in n:
                    bad[where(w)] = (w, "a size is written with %d bits to the byte" % per)
                else:
                    good += 1
        if bad:
            for i, (w, m) in enumerate(bad.values()):
                R.bad("header", n + ("/%d" % i if i else ""), w, "%s: %s" % (name_of(f), m))
        elif good:
            R.ok("header", n)


def declare(a, v, st):
    """Wide values not known are values of their own."""
    st = Bits.declare(a, v, st)
    w = a.width(v["t"])
    if w is not None and w[0] > 8 and v.get("i") is not None:
        x = st.get(v["id"])
        if x is not None and x[0] == "b" and "?" in x[1]:
            st = st.set(v["id"], source(("v", v["n"]), *w))
    return st
