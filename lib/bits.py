"""Where every bit comes from: constant propagation with bit origins.

A value is a vector of bits, each 0, 1, an input bit, the negation of one, or
unknown ("?"); or a place (base, offset) in a block of bytes.  Blocks of bytes
(arrays, vector and array members, what is read from or written to a stream)
are sequences of pieces copied from other blocks.  Bits tested on a path are
known on it.  A loop whose counter is known runs through its values; in any
other loop what changes becomes unknown.
"""

from flow import ANY, Flow, N, THR
from program import const, uncast, walk, where

LIMIT = 600


def bare(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t


def const_bits(v, n=64, signed=True):
    return ("b", tuple((v >> i) & 1 for i in range(n)), signed)


def value_of(v):
    """The integer, if all bits are known."""
    if v is None or v[0] != "b" or any(x not in (0, 1) for x in v[1]):
        return None
    n = sum(x << i for i, x in enumerate(v[1]))
    if v[2] and v[1] and v[1][-1] == 1:
        n -= 1 << len(v[1])
    return n


def unknown(n, signed=False):
    return ("b", ("?",) * n, signed)


def source(src, n, signed=False):
    return ("b", tuple(("i", src, i) for i in range(n)), signed)


def resize(v, n, signed):
    b = v[1][:n]
    fill = b[-1] if v[2] and b and len(v[1]) < n else 0
    return ("b", b + (fill,) * (n - len(b)), signed)


def bit_not(x):
    if x in (0, 1):
        return 1 - x
    if x == "?":
        return "?"
    return ("n" if x[0] == "i" else "i",) + x[1:]


def bit_or(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0:
        return y
    if y == 0 or x == y:
        return x
    return "?"


def bit_and(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1 or x == y:
        return x
    return "?"


class St:
    __slots__ = ("d", "h")

    def __init__(self, d):
        self.d = d
        self.h = hash(frozenset(d.items()))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.h == o.h and self.d == o.d

    def get(self, k, x=None):
        return self.d.get(k, x)

    def set(self, k, v):
        d = dict(self.d)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        return St(d)


KNOWN = ("known",)


class Bits(Flow):
    """this: base name of the object's members; flags given as ("f", member) -> bits."""

    def __init__(self, prog):
        Flow.__init__(self, prog)
        self.max_states = 20000

    # -- blocks of bytes: tuples of (offset, length, base, offset there) or (offset, 1, None, value)
    @staticmethod
    def put(block, off, n, base, src):
        out = []
        for p in block:
            a, b = p[0], p[0] + p[1]
            if b <= off or a >= off + n:
                out.append(p)
                continue
            if a < off:
                out.append((a, off - a, p[2], p[3]))
            if b > off + n:
                out.append((off + n, b - off - n, p[2], p[3] + off + n - a if p[2] is not None else p[3]))
        out.append((off, n, base, src))
        out.sort(key=lambda p: p[0])
        z = []
        for p in out:
            q = z[-1] if z else None
            if q is not None and p[2] is not None and q[2] == p[2] and q[0] + q[1] == p[0] and q[3] + q[1] == p[3]:
                z[-1] = (q[0], q[1] + p[1], q[2], q[3])
            else:
                z.append(p)
        return tuple(z)

    def block(self, base, st):
        return st.get(("blk", base), ())

    def byte(self, base, off, st):
        for a, n, b, s in self.block(base, st):
            if a <= off < a + n:
                if b is None:
                    return s
                return self.know(source((b, s + off - a), 8), st)
        if st.get(("zero", base)):
            return const_bits(0, 8, False)
        if base[0] == "one":
            # the bytes of a variable, in (little-endian) memory order
            v = self.know(st.get(base[1]), st)
            if v is not None and v[0] == "b" and 8 * off < len(v[1]):
                return ("b", (v[1][8 * off:8 * off + 8] + (0,) * 7)[:8], False)
        return self.know(source((base, off), 8), st)

    def know(self, v, st):
        k = st.get(KNOWN)
        if not k or v is None or v[0] != "b":
            return v
        d = dict(k)
        out = []
        for x in v[1]:
            if isinstance(x, tuple):
                t = d.get(x[1:])
                if t is not None:
                    x = int(t) if x[0] == "i" else 1 - int(t)
            out.append(x)
        return ("b", tuple(out), v[2])

    def store(self, base, off, v, st, n=1):
        if v is not None and v[0] == "b" and len(v[1]) >= 8 and n == 1:
            b = v[1][:8]
            # a byte that is a whole input byte is a copy of it
            if all(isinstance(x, tuple) and x[0] == "i" and x[1] == b[0][1] and x[2] == i for i, x in enumerate(b)) and isinstance(b[0][1], tuple) and len(b[0][1]) == 2 and isinstance(b[0][1][1], int):
                return st.set(("blk", base), self.put(self.block(base, st), off, 1, b[0][1][0], b[0][1][1]))
            return st.set(("blk", base), self.put(self.block(base, st), off, 1, None, ("b", b, False)))
        return st.set(("blk", base), self.put(self.block(base, st), off, n, None, unknown(8)))

    def copy(self, src, n, dst, st):
        """n bytes from place to place"""
        if src is None or dst is None or src[0] != "at" or dst[0] != "at" or n is None or not 0 <= n <= LIMIT:
            return self.spoil(dst, st)
        blk = self.block(dst[1], st)
        sb = self.block(src[1], st)
        i = 0
        while i < n:
            o = src[2] + i
            hit = next((p for p in sb if p[0] <= o < p[0] + p[1]), None)
            if hit is None:
                nxt = min([p[0] for p in sb if p[0] > o] + [src[2] + n])
                m = min(nxt - o, n - i)
                if st.get(("zero", src[1])):
                    for j in range(m):
                        blk = self.put(blk, dst[2] + i + j, 1, None, const_bits(0, 8, False))
                else:
                    blk = self.put(blk, dst[2] + i, m, src[1], o)
            else:
                m = min(hit[0] + hit[1] - o, n - i)
                blk = self.put(blk, dst[2] + i, m, hit[2], hit[3] + o - hit[0] if hit[2] is not None else hit[3])
            i += m
        return st.set(("blk", dst[1]), blk)

    def spoil(self, dst, st):
        if dst is not None and dst[0] == "at":
            return st.set(("blk", dst[1]), ((0, LIMIT, None, unknown(8)),))
        return st

    # -- expressions --------------------------------------------------------------
    def width(self, t):
        t = bare(t)
        if t is None:
            return None
        if t.k == "bool":
            return 1, False
        if t.k in ("int", "uint", "enum"):
            return 8 * (t.sz or 4), t.k == "int"
        return None

    def field(self, e):
        """Name of a member of this object."""
        e = uncast(e)
        if e["k"] == "mem" and uncast(e["b"])["k"] == "this":
            return e["n"]
        if e["k"] == "mem":
            b = uncast(e["b"])
            if b["k"] == "un" and b["op"] == "*" and uncast(b["e"])["k"] == "this":
                return e["n"]
        return None

    def key(self, e):
        e = uncast(e)
        if e["k"] == "var":
            return e["id"]
        f = self.field(e)
        return ("f", f) if f is not None else None

    def base_of(self, e, st):
        """The block an array-like expression names."""
        e = uncast(e)
        t = bare(e.get("t"))
        f = self.field(e)
        if f is not None and t is not None and (t.k == "arr" or t.rec in ("std::vector", "std::array", "std::basic_string")):
            return ("fld", f)
        if e["k"] == "var" and t is not None and (t.k == "arr" or t.rec in ("std::vector", "std::array", "std::basic_string")):
            v = st.get(e["id"])
            if v is not None and v[0] == "at" and v[2] == 0:
                return v[1]
            return ("arr", e["id"])
        return None

    def eval(self, e, st):
        if e is None:
            return None
        r = st.get(("res", id(e)))
        if r is not None:
            return self.know(r, st)
        c = const(e)
        w = self.width(e.get("t"))
        if c is not None:
            return const_bits(c, *(w or (64, True)))
        k = e["k"]
        if k == "cast":
            v = self.eval(e["e"], st)
            if v is None:
                b = self.base_of(e["e"], st)
                return ("at", b, 0) if b is not None else None
            if v[0] == "b" and w is not None:
                if w[0] == 1:
                    return self.truth(v, st)
                return resize(v, *w)
            return v
        if k == "var":
            v = st.get(e["id"])
            if v is not None:
                return self.know(v, st)
            b = self.base_of(e, st)
            if b is not None:
                return ("at", b, 0)
            if e.get("g") and e.get("q"):
                for x in self.prog.gvars.get(e["q"], ()):
                    if x.get("t") is not None and x["t"].cst and x.get("i") is not None and w is not None:
                        c = const(uncast(x["i"]))
                        if c is not None:
                            return const_bits(c, *w)
            return self.know(source(("v", e["n"]), *w), st) if w is not None else None
        if k == "mem":
            f = self.field(e)
            if f is not None:
                v = st.get(("f", f))
                if v is not None:
                    return self.know(v, st)
                b = self.base_of(e, st)
                if b is not None:
                    return ("at", b, 0)
                return self.know(source(("f", f), *w), st) if w is not None else None
            return self.know(source(("m", e["n"]), *w), st) if w is not None else None
        if k == "un":
            return self.unary(e, st, w)
        if k == "bin":
            return self.binary(e, st, w)
        if k == "idx":
            return self.load(self.element(e["a"], e["b"], st), w, st)
        if k == "cond":
            c = value_of(self.truth(self.eval(e["c"], st), st))
            if c is not None:
                return self.eval(e["a"] if c else e["b"], st)
            a, b = self.eval(e["a"], st), self.eval(e["b"], st)
            if a == b:
                return a
            return unknown(*w) if w is not None else None
        if k == "call":
            return self.value_of_call(e, st, w)
        if k == "ctor":
            a = e.get("a") or ()
            if len(a) == 1:
                return self.eval(a[0], st)
            return None
        if k == "init" and len(e.get("a") or ()) == 1:
            return self.eval(e["a"][0], st)
        if k == "zero" and w is not None:
            return const_bits(0, *w)
        return unknown(*w) if w is not None else None

    def element(self, a, i, st):
        p = self.eval(a, st)
        if p is None or p[0] != "at":
            b = self.base_of(a, st)
            p = ("at", b, 0) if b is not None else None
        n = value_of(self.eval(i, st))
        if p is None or n is None:
            return None
        return ("at", p[1], p[2] + n)

    def load(self, p, w, st):
        if p is None or w is None:
            return unknown(*w) if w is not None else None
        if w[0] == 8:
            return resize(self.byte(p[1], p[2], st), *w)
        return unknown(*w)

    def place(self, e, st):
        """Where an lvalue is, in a block of bytes."""
        e = uncast(e)
        if e["k"] == "idx":
            return self.element(e["a"], e["b"], st)
        if e["k"] == "un" and e["op"] == "*":
            return self.eval(e["e"], st)
        if e["k"] == "call":
            if e.get("op") == "[]":
                return self.element(e["a"][0], e["a"][1], st)
            if e.get("op") == "*":
                return self.eval(e["a"][0], st)
            m = (e.get("f") or "").split("::")[-1]
            if m == "at" and e.get("obj") is not None:
                return self.element(e["obj"], e["a"][0], st)
            if m == "front" and e.get("obj") is not None:
                b = self.base_of(e["obj"], st)
                return ("at", b, 0) if b is not None else None
        f = self.field(e)
        if f is not None:
            return ("at", ("fld", f), 0)
        if e["k"] == "var":
            t = bare(e.get("t"))
            if t is not None and t.k == "arr":
                return ("at", ("arr", e["id"]), 0)
            return ("at", ("one", e["id"]), 0)
        return None

    def unary(self, e, st, w):
        op = e["op"]
        if op == "&":
            return self.place(e["e"], st)
        if op == "*":
            return self.load(self.eval(e["e"], st), w, st)
        v = self.eval(e["e"], st)
        if op in ("++", "--"):
            return v            # after the effect
        if op in ("p++", "p--"):
            return self.step(v, -1 if op == "p++" else 1)
        if v is None or v[0] != "b":
            return None
        if op == "!":
            t = self.truth(v, st)
            return ("b", (bit_not(t[1][0]),), False)
        if op == "~":
            return ("b", tuple(bit_not(x) for x in v[1]), v[2])
        c = value_of(v)
        if op == "-" and c is not None and w is not None:
            return const_bits(-c, *w)
        if op == "+":
            return v
        return unknown(*w) if w is not None else None

    @staticmethod
    def step(v, n):
        if v is None:
            return None
        if v[0] == "at":
            return ("at", v[1], v[2] + n) if abs(v[2] + n) <= LIMIT else None
        c = value_of(v)
        if c is None or abs(c + n) > LIMIT:
            return unknown(len(v[1]), v[2])
        return const_bits(c + n, len(v[1]), v[2])

    def truth(self, v, st):
        """A value as a condition."""
        if v is None or v[0] != "b":
            return ("b", ("?",), False)
        if any(x == 1 for x in v[1]):
            return ("b", (1,), False)
        rest = {x for x in v[1] if x != 0}
        if not rest:
            return ("b", (0,), False)
        if len(rest) == 1:
            return ("b", (rest.pop(),), False)
        return ("b", ("?",), False)

    def binary(self, e, st, w):
        op = e["op"]
        if op == "=":
            return self.eval(e["a"], st)
        if op == ",":
            return self.eval(e["b"], st)
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            return self.eval(e["a"], st)
        return self.operate(op, self.eval(e["a"], st), self.eval(e["b"], st), w, st)

    def operate(self, op, a, b, w, st):
        if op in ("&&", "||"):
            x, y = self.truth(a, st)[1][0], self.truth(b, st)[1][0]
            return ("b", ((bit_and if op == "&&" else bit_or)(x, y),), False)
        bad = unknown(*w) if w is not None else None
        if a is None or b is None:
            return bad
        if a[0] == "at" or b[0] == "at":
            if op == "+" or op == "-" and b[0] == "b":
                p, q = (a, b) if a[0] == "at" else (b, a)
                n = value_of(q) if q[0] == "b" else None
                if n is None:
                    return None
                return ("at", p[1], p[2] + (n if op == "+" else -n))
            if a[0] == b[0] == "at" and a[1] == b[1]:
                d = a[2] - b[2]
                if op == "-":
                    return const_bits(d, 64, True)
                r = {"==": d == 0, "!=": d != 0, "<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}.get(op)
                if r is not None:
                    return const_bits(int(r), 1, False)
            return bad
        if a[0] != "b" or b[0] != "b":
            return bad
        x, y = value_of(a), value_of(b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b, x, y)
        n = w[0] if w is not None else max(len(a[1]), len(b[1]))
        sg = w[1] if w is not None else False
        if op in ("<<", ">>"):
            if y is None or not 0 <= y < 64:
                return bad
            s = resize(a, n, sg)[1] if n > len(a[1]) else a[1]
            r = (0,) * y + s if op == "<<" else s[y:]
            return resize(("b", r, a[2] and op == ">>"), n, sg)
        if x is not None and y is not None:
            try:
                r = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}.get(op)
                if r is None and op in ("/", "%") and y:
                    r = int(x / y) if op == "/" else x - y * int(x / y)
            except OverflowError:
                r = None
            return const_bits(r, n, sg) if r is not None else bad
        A, B = resize(a, n, sg)[1], resize(b, n, sg)[1]
        if op == "&":
            return ("b", tuple(bit_and(p, q) for p, q in zip(A, B)), sg)
        if op == "|" or op == "+" and all(p == 0 or q == 0 for p, q in zip(A, B)):
            return ("b", tuple(bit_or(p, q) for p, q in zip(A, B)), sg)
        if op == "^":
            return ("b", tuple(bit_not(p) if q == 1 else p if q == 0 else bit_not(q) if p == 1 else q if p == 0 else "?" for p, q in zip(A, B)), sg)
        if op in ("*", "/", "%"):
            c, v = (y, a) if y is not None else (x, b)
            if c is not None and c > 0 and c & (c - 1) == 0 and (op == "*" or y is not None):
                k = c.bit_length() - 1
                s = resize(v, n, sg)[1]
                if op == "*":
                    return resize(("b", (0,) * k + s, sg), n, sg)
                if op == "/" and s and s[-1] == 0:
                    return resize(("b", s[k:], False), n, sg)
                if op == "%" and s and s[-1] == 0:
                    return resize(("b", s[:k], False), n, sg)
        if op == "-" and y is not None:
            # bits that are known to be set may be taken away
            if all(q == 0 or p == 1 for p, q in zip(A, B)):
                return ("b", tuple(0 if q else p for p, q in zip(A, B)), sg)
        return unknown(n, sg)

    def compare(self, op, a, b, x, y):
        if x is not None and y is not None:
            # as the values stand: both sides have been converted to one type
            return const_bits(int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]), 1, False)
        n = max(len(a[1]), len(b[1]))
        A, B = resize(a, n, a[2])[1], resize(b, n, b[2])[1]
        if op in ("==", "!="):
            left = set()
            for p, q in zip(A, B):
                if p in (0, 1) and q in (0, 1):
                    if p != q:
                        return const_bits(int(op == "!="), 1, False)
                    continue
                if p == q and p != "?":
                    continue
                s, c = (p, q) if q in (0, 1) else (q, p)
                if c not in (0, 1):
                    return ("b", ("?",), False)
                left.add(s if c == 1 or s == "?" else bit_not(s))
            if not left:
                return const_bits(int(op == "=="), 1, False)
            if len(left) == 1:
                s = left.pop()
                return ("b", (s if op == "==" else bit_not(s),), False)
        # bounds
        if not (a[2] and A[-1] != 0) and not (b[2] and B[-1] != 0):
            la, ha = sum((p == 1) << i for i, p in enumerate(A)), sum((p != 0) << i for i, p in enumerate(A))
            lb, hb = sum((p == 1) << i for i, p in enumerate(B)), sum((p != 0) << i for i, p in enumerate(B))
            if op in (">", ">="):
                op = {">": "<", ">=": "<="}[op]
                la, ha, lb, hb = lb, hb, la, ha
                A, B, x, y = B, A, y, x
            if op == "<":
                if ha < lb:
                    return const_bits(1, 1, False)
                if la >= hb:
                    return const_bits(0, 1, False)
            if op == "<=":
                if ha <= lb:
                    return const_bits(1, 1, False)
                if la > hb:
                    return const_bits(0, 1, False)
        return ("b", ("?",), False)

    def value_of_call(self, e, st, w):
        op = e.get("op")
        a = e.get("a") or ()
        f = e.get("f") or ""
        m = f.split("::")[-1]
        if op == "[]":
            return self.load(self.element(a[0], a[1], st), w, st)
        if op == "*" and len(a) == 1:
            return self.load(self.eval(a[0], st), w, st)
        if op in ("+", "-", "==", "!=", "<", ">", "<=", ">=") and len(a) == 2:
            return self.operate(op, self.eval(a[0], st), self.eval(a[1], st), w, st)
        if op in ("=", "+=", "-=", "|=", "&="):
            return self.eval(a[0], st)
        if e.get("obj") is not None:
            if m in ("begin", "data", "cbegin", "c_str"):
                b = self.base_of(e["obj"], st)
                if b is not None:
                    return ("at", b, 0)
            if m in ("end", "cend"):
                b = self.base_of(e["obj"], st)
                n = self.extent(e["obj"], b, st)
                return ("at", b, n) if b is not None and n is not None else None
            if m == "size" and e["obj"] is not None:
                b = self.base_of(e["obj"], st)
                n = self.extent(e["obj"], b, st)
                if n is not None:
                    return const_bits(n, 64, False)
            if m in ("at", "front"):
                p = self.place(e, st)
                if p is not None:
                    return self.load(p, w, st)
        if m in ("htonl", "ntohl", "htobe32", "be32toh", "__bswap_32", "__builtin_bswap32") and len(a) == 1:
            v = self.eval(a[0], st)
            if v is not None and v[0] == "b" and len(v[1]) >= 32:
                v = ("b", v[1][24:32] + v[1][16:24] + v[1][8:16] + v[1][:8], False)
                return resize(v, *w) if w is not None else v
        if m in ("min", "max") and f.startswith("std::") and len(a) == 2:
            x, y = value_of(self.eval(a[0], st)), value_of(self.eval(a[1], st))
            if x is not None and y is not None and w is not None:
                return const_bits(min(x, y) if m == "min" else max(x, y), *w)
        if m in ("move", "forward", "static_pointer_cast", "addressof") and len(a) == 1:
            return self.eval(a[0], st)
        if m in ("begin", "data", "end") and len(a) == 1 and f.startswith("std::"):
            b = self.base_of(a[0], st)
            n = 0 if m != "end" else self.extent(a[0], b, st)
            if b is not None and n is not None:
                return ("at", b, n)
        return unknown(*w) if w is not None else None

    def extent(self, obj, b, st):
        t = bare(uncast(obj).get("t"))
        if t is not None and t.rec == "std::array" and t.targs and len(t.targs) > 1:
            try:
                return int(t.targs[1].s if hasattr(t.targs[1], "s") else t.targs[1])
            except (TypeError, ValueError):
                return None
        if t is not None and t.k == "arr":
            return t.n
        return st.get(("size", b))

    # -- effects ------------------------------------------------------------------
    def assign(self, lhs, v, st):
        k = self.key(lhs)
        w = self.width(lhs.get("t"))
        if k is not None:
            if v is not None and v[0] == "b" and w is not None:
                v = self.truth(v, st) if w[0] == 1 and len(v[1]) != 1 else resize(v, *w)
            if v is None and w is not None:
                v = unknown(*w)
            return st.set(k, v)
        p = self.place(lhs, st)
        if p is not None and p[0] == "at":
            if w is not None and w[0] == 8:
                return self.store(p[1], p[2], resize(v, *w) if v is not None and v[0] == "b" else None, st)
            return self.spoil(p, st)
        # an unknown element of a known block
        e = uncast(lhs)
        if e["k"] == "idx" or e["k"] == "call" and e.get("op") == "[]":
            a = e["a"] if e["k"] == "idx" else e["a"][0]
            q = self.eval(a, st)
            b = q[1] if q is not None and q[0] == "at" else self.base_of(a, st)
            if b is not None:
                return self.spoil(("at", b, 0), st)
        return st

    def node(self, n, st):
        k = n["k"]
        if k == "bin" and n["op"] == "=":
            st = self.assign(n["a"], self.eval(n["b"], st), st)
        elif k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            a = self.eval(n["a"], st)
            b = self.eval(n["b"], st)
            w = self.width(n["a"].get("t"))
            op = n["op"][:-1]
            if op in ("|", "&", "^", "<<", ">>", "+", "-", "*"):
                v = self.operate(op, resize(a, 64, a[2]) if a is not None and a[0] == "b" and op == "<<" else a, b, w, st)
            else:
                v = self.operate(op, a, b, w, st)
            st = self.assign(n["a"], v, st)
        elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            st = self.assign(n["e"], self.step(self.eval(n["e"], st), 1 if "+" in n["op"] else -1), st)
        yield (N, st)

    def declare(self, v, st):
        if v.get("static"):
            return st
        t = bare(v["t"])
        if v.get("i") is None:
            return st.set(v["id"], None)
        w = self.width(v["t"])
        i = uncast(v["i"])
        if t is not None and (t.k == "arr" or t.rec in ("std::array", "std::vector")):
            base = ("arr", v["id"])
            if v["t"].k in ("ref", "rref") and self.base_of(i, st) is not None:
                return st.set(v["id"], ("at", self.base_of(i, st), 0))
            if i["k"] == "init" or i["k"] == "str":
                els = i.get("a") or () if i["k"] == "init" else ()
                while len(els) == 1 and els[0]["k"] == "init":
                    els = els[0].get("a") or ()
                st = st.set(("blk", base), ()).set(("zero", base), True)
                for j, x in enumerate(els):
                    if x["k"] not in ("zero",):
                        st = self.store(base, j, self.eval(x, st), st)
                return st
            if i["k"] == "ctor" and t.rec == "std::vector" and v["t"].k not in ("ref", "rref"):
                a = [x for x in i.get("a") or () if bare(x.get("t")) is None or bare(x["t"]).rec != "std::allocator"]
                st = st.set(("blk", base), ()).set(("zero", base), True)
                n = value_of(self.eval(a[0], st)) if a else 0
                return st.set(("size", base), n)
            return st
        val = self.eval(v["i"], st)
        if val is not None and val[0] == "b" and w is not None:
            val = self.truth(val, st) if w[0] == 1 and len(val[1]) != 1 else resize(val, *w)
        return st.set(v["id"], val)

    def after_init(self, f, i, st):
        if i.get("m") is None:
            return st
        e = i["e"]
        v = self.eval(e, st)
        for r in self.prog.recs.get(f.get("cls") or "", {}).get("fields", ()):
            if r["n"] == i["m"]:
                t = bare(r["t"])
                w = self.width(t)
                if w is not None:
                    if v is not None and v[0] == "b":
                        v = self.truth(v, st) if w[0] == 1 and len(v[1]) != 1 else resize(v, *w)
                    return st.set(("f", i["m"]), v if v is not None else unknown(*w))
                if t.rec in ("std::vector",):
                    x = uncast(e)
                    a = [y for y in x.get("a") or () if bare(y.get("t")) is None or bare(y["t"]).rec != "std::allocator"]
                    base = ("fld", i["m"])
                    n = 0
                    if x["k"] == "ctor" and a:
                        n = value_of(self.eval(a[0], st))
                    return st.set(("size", base), n).set(("blk", base), ()).set(("zero", base), True)
        return st

    def call(self, n, st):
        yield from self.default(n, st)

    def default(self, n, st):
        f = n.get("f") or ""
        m = f.split("::")[-1]
        a = n.get("a") or ()
        if n["k"] == "call":
            if f in ("std::copy", "std::move") and len(a) == 3 or m == "copy" and len(a) == 3 and f.startswith("std::"):
                p, q, d = (self.eval(x, st) for x in a)
                k = q[2] - p[2] if p is not None and q is not None and p[0] == q[0] == "at" and p[1] == q[1] else None
                st = self.copied(n, p, k, d, st)
            elif m == "copy_n" and len(a) == 3:
                p, k, d = self.eval(a[0], st), value_of(self.eval(a[1], st)), self.eval(a[2], st)
                st = self.copied(n, p, k, d, st)
            elif m in ("memcpy", "memmove") and len(a) == 3:
                d, p, k = self.eval(a[0], st), self.eval(a[1], st), value_of(self.eval(a[2], st))
                st = self.copied(n, p, k, d, st)
            elif m in ("memset", "fill", "fill_n") and len(a) == 3:
                d = self.eval(a[0], st)
                if m == "memset":
                    k, v = value_of(self.eval(a[2], st)), self.eval(a[1], st)
                elif m == "fill_n":
                    k, v = value_of(self.eval(a[1], st)), self.eval(a[2], st)
                else:
                    q = self.eval(a[1], st)
                    k = q[2] - d[2] if d is not None and q is not None and q[0] == d[0] == "at" and q[1] == d[1] else None
                    v = self.eval(a[2], st)
                if d is not None and d[0] == "at" and k is not None and k <= LIMIT:
                    for j in range(k):
                        st = self.store(d[1], d[2] + j, v, st)
                else:
                    st = self.spoil(d, st)
            elif m == "resize" and n.get("obj") is not None:
                b = self.base_of(n["obj"], st)
                if b is not None:
                    st = st.set(("size", b), value_of(self.eval(a[0], st)))
            elif m == "assign" and n.get("obj") is not None and len(a) == 2:
                b = self.base_of(n["obj"], st)
                p, q = self.eval(a[0], st), self.eval(a[1], st)
                if b is not None:
                    st = st.set(("blk", b), ())
                    if p is not None and q is not None and p[0] == q[0] == "at" and p[1] == q[1]:
                        st = self.copy(p, q[2] - p[2], ("at", b, 0), st).set(("size", b), q[2] - p[2])
                    else:
                        st = self.spoil(("at", b, 0), st).set(("size", b), value_of(p))
            elif m == "push_back" and n.get("obj") is not None:
                b = self.base_of(n["obj"], st)
                if b is not None:
                    k = st.get(("size", b))
                    if k is not None and k < LIMIT:
                        st = self.store(b, k, self.eval(a[0], st), st).set(("size", b), k + 1)
            elif m == "clear" and n.get("obj") is not None and self.base_of(n["obj"], st) is not None:
                b = self.base_of(n["obj"], st)
                st = st.set(("size", b), 0).set(("blk", b), ())
            elif m == "swap" and n.get("obj") is not None and self.base_of(n["obj"], st) is not None:
                b = self.base_of(n["obj"], st)
                st = self.spoil(("at", b, 0), st).set(("size", b), None)
            elif n.get("op") in ("=", "+=", "-=", "++", "--") and a:
                st = self.assign_op(n, a, st)
            else:
                tg = [t for t in self.prog.targets(n) if t.get("body") is not None]
                if tg and self.wanted(n, tg) and len(self.stack) < 7 and not any(t is x for t in tg for x in self.stack):
                    for t in tg:
                        yield from self.inline(n, t, st)
                    return
                st = self.opaque(n, st)
        for s in self.after_call(n, st):
            yield (N, s)
        if self.may_throw(n):
            yield (THR, st, ANY)

    def after_call(self, n, st):
        return [st]

    def wanted(self, n, tg):
        """Functions that are looked into."""
        return True

    def opaque(self, n, st):
        """Variables a call may change become unknown."""
        for x in n.get("a") or ():
            y = uncast(x)
            t = x.get("t")
            if y["k"] == "un" and y["op"] == "&" and self.key(y["e"]) is not None:
                k = self.key(y["e"])
                w = self.width(y["e"].get("t"))
                st = st.set(k, unknown(*w) if w is not None else None)
        ft = n.get("ft")
        for x, p in zip(n.get("a") or (), ft.ps if ft is not None else ()):
            if p is not None and p.k == "ref" and p.to is not None and not p.to.cst:
                k = self.key(x)
                if k is not None and self.width(x.get("t")) is not None:
                    st = st.set(k, unknown(*self.width(x["t"])))
            elif p is not None and p.k == "ptr" and p.to is not None and not p.to.cst:
                v = self.eval(x, st)
                if v is not None and v[0] == "at" and v[1][0] in ("arr", "fld"):
                    st = self.spoil(v, st)
        return st

    def copied(self, n, p, k, d, st):
        st = self.copy(p, k, d, st)
        if d is not None and d[0] == "at" and k is not None:
            st = st.set(("res", id(n)), ("at", d[1], d[2] + k))
        return st

    def assign_op(self, n, a, st):
        op = n["op"]
        if op == "=" and len(a) == 2:
            b = self.base_of(a[0], st)
            if b is not None:
                c = self.base_of(a[1], st)
                st = st.set(("blk", b), ())
                if c is not None:
                    sz = st.get(("size", c))
                    if sz is not None:
                        return self.copy(("at", c, 0), sz, ("at", b, 0), st).set(("size", b), sz)
                return self.spoil(("at", b, 0), st).set(("size", b), 0)
            return self.assign(a[0], self.eval(a[1], st), st)
        if op in ("++", "--"):
            return self.assign(a[0], self.step(self.eval(a[0], st), 1 if op == "++" else -1), st)
        return self.assign(a[0], self.operate(op[:-1], self.eval(a[0], st), self.eval(a[1], st), None, st), st)

    def bind(self, n, f, st):
        args = n.get("a") or ()
        if n.get("op") and f.get("cls") and len(args) == len(f["ps"]) + 1:
            args = args[1:]
        vals = []
        for p, a in zip(f["ps"], args):
            v = self.eval(a, st)
            if v is None:
                b = self.base_of(a, st)
                if b is not None:
                    v = ("at", b, 0)
            w = self.width(p["t"])
            if v is not None and v[0] == "b" and w is not None:
                v = self.truth(v, st) if w[0] == 1 and len(v[1]) != 1 else resize(v, *w)
            vals.append((p["id"], v))
        o = n.get("obj")
        if n["k"] == "ctor" or o is not None and uncast(o)["k"] != "this" and not (uncast(o)["k"] == "un" and uncast(uncast(o)["e"])["k"] == "this"):
            d = {k: v for k, v in st.d.items() if isinstance(k, tuple) and (k[0] == "f" or len(k) == 2 and isinstance(k[1], tuple) and k[1][0] == "fld")}
            if d:
                s2 = {k: v for k, v in st.d.items() if k not in d}
                s2[("saved", len(self.stack))] = frozenset(d.items())
                st = St(s2)
        for k, v in vals:
            st = st.set(k, v)
        return st

    def ret(self, n, st):
        v = self.eval(n["e"], st) if n.get("e") is not None else None
        return st.set(("ret", len(self.stack)), v)

    def unbind(self, n, f, st):
        lvl = len(self.stack) + 1
        v = st.get(("ret", lvl))
        st = st.set(("ret", lvl), None)
        sv = st.get(("saved", len(self.stack)))
        if sv is not None:
            d = {k: v for k, v in st.d.items() if not (isinstance(k, tuple) and (k[0] == "f" or len(k) == 2 and isinstance(k[1], tuple) and k[1][0] == "fld"))}
            d.pop(("saved", len(self.stack)), None)
            d.update(dict(sv))
            st = St(d)
        return st.set(("res", id(n)), v) if v is not None else st

    def assume(self, c, st, truth):
        v = self.truth(self.eval(c, st), st)
        x = v[1][0]
        if x in (0, 1):
            return st if bool(x) == truth else None
        if x == "?":
            return self.fact(c, st, truth)
        t = truth if x[0] == "i" else not truth
        return st.set(KNOWN, (st.get(KNOWN) or frozenset()) | {(x[1:], t)})

    def fact(self, c, st, truth):
        """Equality with a constant fixes every bit."""
        e = uncast(c)
        if e["k"] == "un" and e["op"] == "!":
            return self.fact(e["e"], st, not truth)
        if e["k"] == "bin" and (e["op"] == "==" and truth or e["op"] == "!=" and not truth):
            a, b = self.eval(e["a"], st), self.eval(e["b"], st)
            if value_of(a) is not None:
                a, b = b, a
            v = value_of(b)
            if a is not None and a[0] == "b" and v is not None:
                k = set(st.get(KNOWN) or ())
                for i, x in enumerate(a[1]):
                    if isinstance(x, tuple):
                        k.add((x[1:], bool((v >> i) & 1) == (x[0] == "i")))
                return st.set(KNOWN, frozenset(k))
        elif e["k"] == "bin" and e["op"] in ("==", "!="):
            a, b = self.eval(e["a"], st), self.eval(e["b"], st)
            if value_of(a) is not None:
                a, b = b, a
            v = value_of(b)
            if a is not None and a[0] == "b" and v is not None:
                return st.set(("ne",), (st.get(("ne",)) or frozenset()) | {(a[1], v)})
        return st

    def case_enter(self, s, label, st, items):
        v = self.eval(s["c"], st)
        c = value_of(v)
        labels = [const(l["c"]) for ls, _ in items for l in ls if l["k"] == "case"]
        if label["k"] == "default":
            return st if c is None or c not in labels else None
        x = const(label["c"])
        if c is not None:
            return st if c == x else None
        if v is None or v[0] != "b" or x is None:
            return st
        k = set(st.get(KNOWN) or ())
        for i, b in enumerate(v[1]):
            if b in (0, 1):
                if b != (x >> i) & 1:
                    return None
            elif isinstance(b, tuple):
                k.add((b[1:], bool((x >> i) & 1) == (b[0] == "i")))
        return st.set(KNOWN, frozenset(k))

    def case_none(self, s, st, items):
        c = value_of(self.eval(s["c"], st))
        if c is not None and c in [const(l["c"]) for ls, _ in items for l in ls if l["k"] == "case"]:
            return None
        return Flow.case_none(self, s, st, items)
