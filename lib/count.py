"""Counting interpreter: how many bytes a routine writes, as a linear form.

A routine is evaluated path by path over terms.  A term names a value by the
members, parameters and library calls it is made of; integers are linear forms
("L", {atom: coefficient}).  The state keeps, per stream, the linear form of
the number of bytes written so far.  A loop over the elements of a container
is summed: what one turn adds, with the element left symbolic, becomes a sum
over the container.  What is not understood raises Unknown and the routine is
left undecided.
"""

from program import const, uncast, walk

MAXPATHS = 6000


class Unknown(Exception):
    pass


class Thrown(Exception):
    pass


# ---------------------------------------------------------------- linear forms
def L(d):
    return ("L", frozenset((a, k) for a, k in d.items() if k))


def num(n):
    return L({(): n})


ZERO = num(0)


def is_lin(t):
    return isinstance(t, tuple) and t and t[0] == "L"


def lin(t):
    if is_lin(t):
        return t
    return ("L", frozenset([(t, 1)]))


def add(a, b, k=1):
    d = dict(lin(a)[1])
    for x, c in lin(b)[1]:
        d[x] = d.get(x, 0) + k * c
    return L(d)


def scale(a, k):
    return L({x: c * k for x, c in lin(a)[1]})


def value(t):
    """The integer a term stands for, if it is a constant."""
    if not is_lin(t):
        return None
    d = dict(t[1])
    if not d:
        return 0
    if set(d) == {()}:
        return d[()]
    return None


def subst(t, m):
    """Replace sub-terms by the map m."""
    if t in m:
        return m[t]
    if is_lin(t):
        r = ZERO
        for a, c in t[1]:
            r = add(r, scale(num(1) if a == () else subst(a, m), c))
        return r
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def mentions(t, p):
    if p(t):
        return True
    if isinstance(t, frozenset):
        return any(mentions(x, p) for x in t)
    if isinstance(t, tuple):
        return any(mentions(x, p) for x in t if isinstance(x, (tuple, frozenset)))
    return False


def summed(K, form):
    """Sum of a linear form over the elements of K."""
    r = ZERO
    for a, c in lin(form)[1]:
        if a == ():
            r = add(r, ("size", K), c)
        elif mentions(a, lambda x: x == ("it", K)):
            r = add(r, ("sum", K, a), c)
        else:
            raise Unknown("sum of a value that does not depend on the element")
    return r


class W:
    """What a turn adds to a stream, among what it adds to variables."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(self.s) + 1

    def __eq__(self, o):
        return isinstance(o, W) and self.s == o.s


def of_turn(t, K):
    """Whether a term depends on the turn of the loop."""
    return mentions(t, lambda a: isinstance(a, tuple) and (a[:1] == ("acc",) or a == ("it", K)))


def grouped(ends, head, K):
    """Turns by what they assume of values the loop does not change."""
    g = {}
    for x, y in ends:
        inv = frozenset((t, b) for t, b in y.facts.items() if t not in head.facts and not of_turn(t, K))
        g.setdefault(inv, []).append((x, y))
    return g


class S:
    __slots__ = ("env", "w", "facts", "ret", "fields", "parts")

    def __init__(self, env=None, w=None, facts=None, ret=None, fields=(), parts=None):
        self.env = env or {}
        self.w = w or {}
        self.facts = facts or {}
        self.ret = ret
        self.fields = fields      # values put into byte buffers: (buffer, value)
        self.parts = parts or {}

    def copy(self, **k):
        s = S(self.env, self.w, self.facts, self.ret, self.fields, self.parts)
        for a, b in k.items():
            setattr(s, a, b)
        return s

    def set(self, key, v):
        e = dict(self.env)
        e[key] = v
        return self.copy(env=e)

    def wrote(self, stream, n):
        w = dict(self.w)
        w[stream] = add(w.get(stream, ZERO), n)
        return self.copy(w=w)

    def fact(self, t, truth):
        f = dict(self.facts)
        f[t] = truth
        return self.copy(facts=f)


SIZES = {"size", "length"}
ITERS = {"begin": 0, "cbegin": 0, "end": 1, "cend": 1}


def stripped(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t


def is_stream(t):
    t = stripped(t)
    return t is not None and (t.rec in ("std::basic_ostream", "std::basic_iostream", "std::basic_stringstream", "std::basic_ostringstream",
                                        "std::basic_ofstream") or (t.s or "").replace("const ", "").startswith(("std::ostream", "std::basic_ostream")))


def integral(t):
    t = stripped(t)
    return t is not None and t.k in ("int", "uint", "enum", "bool")


class Count:
    """Evaluate a method of dynamic class `cls`."""

    def __init__(self, prog, cls, domains, opaque=()):
        self.prog = prog
        self.cls = cls
        self.domains = domains
        self.opaque = opaque
        self.depth = 0
        self.budget = 3000000

    # ------------------------------------------------------------ entry
    def run(self, f, args, this=("this",)):
        """All paths of f: list of (returned term or None, state)."""
        st = S()
        for p, a in zip(f["ps"], args):
            st = st.set(("v", p["id"]), a)
        st = st.set(("this",), this)
        out = []
        for s in self.body(f, st):
            out.append((s.ret[0] if s.ret else None, s))
            if len(out) > MAXPATHS:
                raise Unknown("too many paths")
        return out

    def body(self, f, st):
        if not f.get("body"):
            raise Unknown("no body")
        for k, s in self.stmt(f["body"], st):
            if k in ("n", "r"):
                yield s

    # ------------------------------------------------------------ statements
    def stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            raise Unknown("too long")
        k = s["k"] if s else "null_s"
        if k == "null_s":
            yield "n", st
        elif k == "block":
            yield from self.seq(s["s"], st)
        elif k == "decl":
            yield from self.decls(s["d"], 0, st)
        elif k == "if":
            sts = [st]
            if s.get("init"):
                sts = [x for _, x in self.stmt(s["init"], st)]
            for x in sts:
                for truth, y in self.cond(s["c"], x):
                    b = s["th"] if truth else s.get("el")
                    if b:
                        yield from self.stmt(b, y)
                    else:
                        yield "n", y
        elif k == "return":
            if s.get("e") is None:
                yield "r", st.copy(ret=(None,))
            else:
                for v, x in self.expr(s["e"], st):
                    yield "r", x.copy(ret=(v,))
        elif k in ("while", "for", "rfor", "do"):
            yield from self.loop(s, st)
        elif k == "switch":
            yield from self.switch(s, st)
        elif k == "try":
            yield from self.stmt(s["s"], st)
        elif k in ("break", "continue"):
            yield k[0], st
        elif k in ("goto", "label", "case", "default", "other_s"):
            raise Unknown(k)
        else:
            for _, x in self.expr(s, st):
                yield "n", x

    def seq(self, ss, st):
        if not ss:
            yield "n", st
            return
        for k, x in self.stmt(ss[0], st):
            if k == "n":
                yield from self.seq(ss[1:], x)
            else:
                yield k, x

    def decls(self, ds, i, st):
        if i == len(ds):
            yield "n", st
            return
        d = ds[i]
        if "id" not in d:
            yield from self.decls(ds, i + 1, st)
            return
        if d.get("i") is None:
            yield from self.decls(ds, i + 1, st)
            return
        for v, x in self.expr(d["i"], st):
            t = d["t"]
            if t.k == "arr" or stripped(t).rec in ("std::array",):
                v = ("v", d["id"])
            elif is_stream(t):
                v = ("v", d["id"])
            elif t.k == "rec" and v[0] == "n":
                v = ("v", d["id"])
            yield from self.decls(ds, i + 1, x.set(("v", d["id"]), v))

    def switch(self, s, st):
        # a switch whose arms write nothing and declare nothing relevant only
        # chooses values: forget what it assigns
        b = s["s"]
        for n in walk(b):
            if n.get("k") == "return" or n.get("k") == "goto":
                raise Unknown("return in a switch")
            if n.get("k") == "call" and any(is_stream(a.get("t")) for a in [*n.get("a", ()), *([n["obj"]] if n.get("obj") else [])]):
                raise Unknown("writes in a switch")
        st = self.forget(b, st)
        yield "n", st

    def assigned(self, b):
        ids = {}
        for n in walk(b):
            t = None
            if n.get("k") == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = uncast(n["a"])
            elif n.get("k") == "un" and n["op"] in ("++", "--", "p++", "p--"):
                t = uncast(n["e"])
            elif n.get("k") == "call" and n.get("op") in ("++", "--", "+=", "-=", "=") and n.get("a"):
                t = uncast(n["a"][0])
            if t is not None and t["k"] == "var":
                ids[t["id"]] = t
        return ids

    def forget(self, b, st):
        for i in self.assigned(b):
            st = st.set(("v", i), ("n", id(b), i))
        return st

    # ------------------------------------------------------------ loops
    def loop(self, s, st):
        if s["k"] == "rfor":
            for K, x in self.expr(s["r"], st):
                yield from self.turns(s, x, K, None)
            return
        if s["k"] == "for" and s.get("init"):
            for k, x in self.stmt(s["init"], st):
                yield from self.turns(s, x, None, None)
            return
        yield from self.turns(s, st, None, None)

    def turns(self, s, st, K, _):
        body = [s["s"]]
        if s.get("inc"):
            body.append(s["inc"])
        ids = {}
        for b in body:
            ids.update(self.assigned(b))
        for b in body:
            for n in walk(b):
                if n.get("k") in ("return", "goto") or (n.get("k") == "break" and s["k"] != "switch"):
                    # a break of an inner switch is fine, but those are rare
                    raise Unknown("a loop left early")
        head, start = st, {}
        for i in ids:
            v = st.env.get(("v", i))
            if v is None:
                continue
            start[i] = v
            if v[0] == "iter":
                head = head.set(("v", i), ("iter", v[1], lin(("acc", i))))
            elif is_lin(v) or integral(ids[i].get("t")) or integral(ids[i].get("vt")):
                head = head.set(("v", i), lin(("acc", i)))
            else:
                head = head.set(("v", i), ("n", id(s), i))
        w0 = dict(head.w)
        head = head.copy(w={}, fields=())
        if K is not None:
            if isinstance(K, tuple) and K[0] == "iter":
                raise Unknown("range")
            v = s["v"]
            head = head.set(("v", v["id"]), ("it", K))
            entries = [head]
            idx = None
        else:
            if s.get("c") is None or s["k"] == "do":
                raise Unknown("loop without a condition")
            entries = []
            for truth, x in self.cond(s["c"], head):
                if truth:
                    entries.append(x)
            idx = self.induction(s["c"], head)
        ends = []
        for x in entries:
            if idx is not None and idx[0] == "count":
                x = x.copy(env={**x.env})
                x.env[("index", idx[1])] = True
            for k, y in self.stmt(s["s"], x):
                if k not in ("n", "c"):
                    raise Unknown("a loop left early")
                if s.get("inc"):
                    for _, z in self.expr(s["inc"], y):
                        ends.append((x, z))
                else:
                    ends.append((x, y))
            if len(ends) > 64:
                raise Unknown("too many paths in a loop")
        if not ends:
            raise Unknown("loop without a turn")
        KK = K if K is not None else (idx[2] if idx is not None and idx[0] == "count" else None)
        for inv, some in sorted(grouped(ends, head, KK).items(), key=lambda x: repr(sorted(x[0], key=repr))):
            y = st
            for t, b in inv:
                y = y.fact(t, b)
            yield from self.total(s, y, K, idx, head, start, w0, some)

    def total(self, s, st, K, idx, head, start, w0, ends):
        # what one turn adds
        deltas = []
        for x, y in ends:
            d = {}
            for i, v in start.items():
                now = y.env.get(("v", i))
                if v[0] == "iter":
                    if now is None or now[0] != "iter":
                        raise Unknown("iterator replaced")
                    d[i] = add(now[2], lin(("acc", i)), -1)
                elif is_lin(head.env[("v", i)]):
                    d[i] = add(now, lin(("acc", i)), -1)
                    if any(a == ("acc", i) for a, _ in d[i][1]):
                        d[i] = None
                else:
                    d[i] = None
            for stream, n in y.w.items():
                if stream[0] != "v" or stream in head.env or stream in w0:
                    d[W(stream)] = n
            facts = frozenset((t, b) for t, b in y.facts.items() if head.facts.get(t) != b and not mentions(t, lambda a: isinstance(a, tuple) and a[:1] == ("acc",)))
            deltas.append((facts, d))
        keys = set()
        for _, d in deltas:
            keys |= set(d)
        out = st
        w = dict(w0)
        out = out.copy(fields=st.fields)
        results = {}
        if K is not None:
            form = self.over_elements(K, deltas, keys)
            results = form
            lastm = None
        elif idx is not None and idx[0] == "count":
            i, K2, limit, step0 = idx[1], idx[2], idx[3], start[idx[1]]
            s0 = step0[2] if step0[0] == "iter" else lin(step0)
            if value(s0) != 0:
                raise Unknown("loop not from the start")
            if any(d.get(i) != num(1) for _, d in deltas):
                raise Unknown("loop by other steps")
            res = {}
            for q in keys:
                if q == i:
                    continue
                vals = {(f, d.get(q, ZERO)) for f, d in deltas}
                plain = {v for _, v in vals}
                if None in plain:
                    res[q] = None
                    continue
                if len(plain) == 1:
                    v = next(iter(plain))
                    r = ZERO
                    for a, c in v[1]:
                        if a == ():
                            r = add(r, limit, c)
                        elif K2 is None:
                            raise Unknown("sum over a count")
                        elif mentions(a, lambda x: x == ("it", K2)):
                            if limit == lin(("size", K2)):
                                r = add(r, ("sum", K2, a), c)
                            elif limit == add(lin(("size", K2)), num(1), -1):
                                r = add(r, ("sum", K2, a), c)
                                r = add(r, subst(a, {("it", K2): ("last", K2)}), -c)
                            else:
                                raise Unknown("part of a container")
                        else:
                            raise Unknown("sum of a value that does not depend on the element")
                    res[q] = r
                elif K2 is not None and limit == lin(("size", K2)):
                    res[q] = lin(("csum", K2, frozenset(vals)))
                else:
                    raise Unknown("conditional sum")
            results = res
            out = out.set(("v", i), ("iter", K2, limit) if step0[0] == "iter" else limit)
        elif idx is not None and idx[0] == "drain":
            i = idx[1]
            v0 = lin(start[i])
            res = {}
            for q in keys:
                if q == i:
                    continue
                tot = None
                for _, d in deltas:
                    step = d.get(i)
                    if step is None or step == ZERO:
                        raise Unknown("loop does not drain")
                    x = d.get(q, ZERO)
                    if x is None:
                        tot = "none"
                        break
                    ratio = None
                    if x == ZERO:
                        ratio = 0
                    else:
                        for c in (1, -1, 2, -2, 4, -4):
                            if scale(step, -c) == x:
                                ratio = c
                    if ratio is None or tot not in (None, ratio):
                        raise Unknown("loop does not drain evenly")
                    tot = ratio
                res[q] = None if tot == "none" else scale(v0, tot or 0)
            results = res
            out = out.set(("v", i), ZERO)
        else:
            # a loop that neither writes nor touches anything else is of no consequence
            if any(isinstance(q, W) for q in keys):
                raise Unknown("writes in a loop that is not understood")
            for q in keys:
                out = out.set(("v", q), ("n", id(s), q))
            yield "n", out
            return
        for q, v in results.items():
            if isinstance(q, W):
                w[q.s] = add(w.get(q.s, ZERO), v)
            elif v is None:
                out = out.set(("v", q), ("n", id(s), q))
            else:
                out = out.set(("v", q), add(start[q], v) if start[q][0] != "iter" else ("iter", start[q][1], add(start[q][2], v)))
        yield "n", out.copy(w=w)

    def over_elements(self, K, deltas, keys):
        res = {}
        for q in keys:
            vals = {(f, d.get(q, ZERO)) for f, d in deltas}
            plain = {v for _, v in vals}
            if None in plain:
                res[q] = None
            elif len(plain) == 1:
                res[q] = summed(K, next(iter(plain)))
            else:
                res[q] = lin(("csum", K, frozenset(vals)))
        return res

    def induction(self, c, st):
        c = uncast(c)
        if c["k"] == "call" and c.get("op") in ("!=", "<", "=="):
            a, b = c["a"]
            op = c["op"]
        elif c["k"] == "bin" and c["op"] in ("!=", "<", ">", "<="):
            a, b = c["a"], c["b"]
            op = c["op"]
        else:
            for v, _ in self.expr(c, st):
                if is_lin(v) and len(v[1]) == 1:
                    (at, k), = v[1]
                    if at[:1] == ("acc",) and k == 1:
                        return ("drain", at[1])
            return None
        va = [v for v, _ in self.expr(a, st)]
        vb = [v for v, _ in self.expr(b, st)]
        if len(va) != 1 or len(vb) != 1:
            return None
        va, vb = va[0], vb[0]

        def acc(v):
            v = v[2] if v[0] == "iter" else v
            if is_lin(v) and len(v[1]) == 1:
                (at, k), = v[1]
                if at[:1] == ("acc",) and k == 1:
                    return at[1]
            return None
        for x, y, ops in ((va, vb, ("!=", "<")), (vb, va, ("!=", ">"))):
            i = acc(x)
            if i is None or op not in ops:
                continue
            if value(y) == 0:
                return ("drain", i)
            if x[0] == "iter":
                if y[0] != "iter" or y[1] != x[1] or mentions(y, lambda t: isinstance(t, tuple) and t[:1] == ("acc",)):
                    return None
                return ("count", i, x[1], y[2])
            if mentions(y, lambda t: isinstance(t, tuple) and t[:1] == ("acc",)):
                return None
            ks = [at[1] for at, _ in lin(y)[1] if at and at[0] == "size"]
            return ("count", i, ks[0] if len(ks) == 1 else None, lin(y))
        if op == ">" and value(vb) == 0 and acc(va) is not None:
            return ("drain", acc(va))
        if op == "<" and value(va) == 0 and acc(vb) is not None:
            return ("drain", acc(vb))
        return None

    # ------------------------------------------------------------ conditions
    def known(self, t, st):
        if t in st.facts:
            return st.facts[t]
        if t[0] == "eq":
            for (u, b) in st.facts.items():
                if u[0] == "eq" and u[1] == t[1] and b and u[2] != t[2]:
                    return False
            dom = self.domain(t[1])
            if dom is not None:
                left = {v for v in dom if st.facts.get(("eq", t[1], v)) is not False}
                if t[2] not in left:
                    return False
                if left == {t[2]}:
                    return True
        return None

    def domain(self, atom):
        if atom[:1] == ("f",):
            return self.domains.get((atom[3], atom[2]))
        return None

    def branch(self, t, st, flip=False):
        """Split on a boolean term."""
        v = value(t) if is_lin(t) else None
        if v is not None:
            yield (bool(v) != flip), st
            return
        if is_lin(t):
            t = self.eq0(t)
            flip = not flip
            if t is None or isinstance(t, bool):
                yield bool(t) != flip, st
                return
        while t[0] == "not":
            t, flip = t[1], not flip
        if t[0] in ("true", "false"):
            yield (t[0] == "true") != flip, st
            return
        kn = self.known(t, st)
        for truth in (True, False):
            if kn is None or kn == truth:
                yield truth != flip, st.fact(t, truth)

    def eq0(self, d):
        """The fact that a linear form is zero."""
        items = dict(d[1])
        c = items.pop((), 0)
        if not items:
            return c == 0
        if len(items) == 1:
            (a, k), = items.items()
            if -c % k:
                return False
            return ("eq", a, -c // k)
        # canonical sign
        first = min(items, key=repr)
        if items[first] < 0:
            d = scale(d, -1)
        return ("eqz", d)

    def compare(self, op, a, b):
        if a[0] == "iter" and b[0] == "iter":
            if a[1] != b[1]:
                return ("cmp", op, a, b), False
            a, b = a[2], b[2]
        if a[0] in ("t", "n", "&", "str") or b[0] in ("t", "n", "&", "str"):
            if op == "!=":
                return ("cmp", "==", *sorted((a, b), key=repr)), True
            if op == "==":
                return ("cmp", "==", *sorted((a, b), key=repr)), False
            return ("cmp", op, a, b), False
        d = add(lin(a), lin(b), -1)
        if op in ("==", "!="):
            r = self.eq0(d)
            if isinstance(r, bool):
                return num(int(r != (op == "!="))), False
            return r, op == "!="
        if op in (">", "<="):
            d = scale(d, -1)
        # a<b: d<0 ; a>b: -d<0 ; a>=b: not d<0 ; a<=b : not -d<0
        v = value(d)
        neg = op in (">=", "<=")
        if v is not None:
            return num(int((v < 0) != neg)), False
        # an unsigned atom compared with zero: 0 < x is x != 0
        items = dict(d[1])
        c = items.pop((), 0)
        if len(items) == 1:
            (a1, k), = items.items()
            if k < 0 and (c == 0 or (c == 1 and k == -1 and False)):
                return ("eq", a1, 0), not neg
            if k > 0 and -c == k:          # x < 1
                return ("eq", a1, 0), neg
        return ("lt0", d), neg

    def cond(self, e, st):
        n = uncast(e)
        k = n["k"]
        if k == "bin" and n["op"] == "&&":
            for t, x in self.cond(n["a"], st):
                if t:
                    yield from self.cond(n["b"], x)
                else:
                    yield False, x
            return
        if k == "bin" and n["op"] == "||":
            for t, x in self.cond(n["a"], st):
                if t:
                    yield True, x
                else:
                    yield from self.cond(n["b"], x)
            return
        if k == "un" and n["op"] == "!":
            for t, x in self.cond(n["e"], st):
                yield not t, x
            return
        if k == "call" and n.get("op") == "!" and n.get("a"):
            for t, x in self.cond(n["a"][0], st):
                yield not t, x
            return
        if k == "decl" or k == "other":
            raise Unknown("condition")
        for v, x in self.expr(n, st):
            yield from self.branch(v if not (v[0] == "f" and integral(n.get("t")) and stripped(n["t"]).k != "bool") else lin(v), x)

    # ------------------------------------------------------------ expressions
    def exprs(self, es, st):
        if not es:
            yield (), st
            return
        for v, x in self.expr(es[0], st):
            for vs, y in self.exprs(es[1:], x):
                yield (v,) + vs, y

    def expr(self, e, st):
        self.budget -= 1
        if self.budget < 0:
            raise Unknown("too long")
        if e is None:
            yield ("none",), st
            return
        c = const(e)
        k = e["k"]
        if c is not None and k != "call":
            yield num(int(c)), st
            return
        if k == "cast":
            t = e.get("t")
            inner = e["e"]
            for v, x in self.expr(inner, st):
                if t is not None and t.k == "bool" and not e.get("ck", "") == "NoOp":
                    if is_lin(v) and value(v) is None:
                        for b, y in self.branch(v, x):
                            yield num(int(b)), y
                        continue
                if v[0] == "cond?":
                    pass
                yield v, x
            return
        if k == "str":
            yield ("str", e.get("v") if isinstance(e.get("v"), str) else repr(e.get("v"))), st
        elif k == "var":
            key = ("v", e["id"])
            yield st.env.get(key, key), st
        elif k == "this":
            yield ("&", st.env[("this",)]), st
        elif k == "mem":
            if e.get("b") is None:
                yield ("s", e["cls"], e["n"]), st
                return
            for b, x in self.expr(e["b"], st):
                if e.get("arrow"):
                    b = self.star(b)
                t = ("f", b, e["n"], e.get("cls"))
                yield x.env.get(t, t), x
        elif k == "un":
            yield from self.unary(e, st)
        elif k == "bin":
            yield from self.binary(e, st)
        elif k == "cond":
            for t, x in self.cond(e["c"], st):
                yield from self.expr(e["a"] if t else e["b"], x)
        elif k == "idx":
            for a, x in self.expr(e["a"], st):
                for b, y in self.expr(e["b"], x):
                    yield self.elem(a, b, y), y
        elif k == "call":
            yield from self.call(e, st)
        elif k == "ctor":
            if len(e.get("a", ())) == 1 and (e.get("copy") or e.get("move") or e.get("cls", "").startswith(("std::optional", "boost::optional", "__gnu_cxx::__normal_iterator"))):
                yield from self.expr(e["a"][0], st)
                return
            real = [a for a in e.get("a", ()) if a["k"] != "other"]
            for vs, x in self.exprs(real, st):
                if e.get("cls", "").split("<")[0] in ("std::ostream_iterator", "std::ostreambuf_iterator") and vs:
                    yield ("oi", vs[0]), x
                else:
                    yield ("n", id(e)), x
        elif k == "sizeof":
            v = e.get("cv")
            if v is None:
                raise Unknown("sizeof")
            yield num(int(v)), st
        elif k == "lambda":
            yield ("lambda", id(e), LambdaRef(e, dict(st.env))), st
        elif k == "init":
            es = e.get("a") or e.get("ch") or ()
            for vs, x in self.exprs(list(es), st):
                yield ("n", id(e)), x
        elif k == "throw":
            return
        elif k in ("null", "zero", "enum", "bool", "int", "float"):
            yield ("n0", k), st
        elif k == "fn":
            yield ("fn", e.get("f")), st
        elif k in ("new", "delete", "typeid", "other", "stmtexpr"):
            yield ("n", id(e)), st
        else:
            raise Unknown("expression " + k)

    def elem(self, a, b, st):
        if isinstance(a, tuple) and a[0] == "&":
            a = a[1]
        if is_lin(b) and len(b[1]) == 1:
            (at, k), = b[1]
            if at[:1] == ("acc",) and k == 1:
                return ("it", a)
        if is_lin(b) and b == add(lin(("size", a)), num(1), -1):
            return ("last", a)
        return ("idx", a, b)

    def star(self, v):
        if v[0] == "&":
            return v[1]
        if v[0] == "iter":
            off = v[2]
            if len(off[1]) == 1:
                (at, k), = off[1]
                if at[:1] == ("acc",) and k == 1:
                    return ("it", v[1])
            if off == add(lin(("size", v[1])), num(1), -1):
                return ("last", v[1])
            return ("idx", v[1], off)
        return ("*", v)

    def assign(self, target, v, st, e):
        """Store v where target says."""
        t = uncast(target)
        if t["k"] == "var":
            yield v, st.set(("v", t["id"]), v)
        elif t["k"] == "mem" and t.get("b") is not None:
            for b, x in self.expr(t["b"], st):
                if t.get("arrow"):
                    b = self.star(b)
                yield v, x.set(("f", b, t["n"], t.get("cls")), v)
        elif t["k"] == "idx" or (t["k"] == "call" and t.get("op") == "[]"):
            base = t["a"] if t["k"] == "idx" else (t["a"][0] if not t.get("obj") else t["obj"])
            for b, x in self.expr(base, st):
                src = self.masked(e, x)
                if src is not None:
                    x = x.copy(fields=x.fields + ((b, src),))
                yield v, x
        else:
            yield v, st

    def masked(self, e, st):
        """The value whose bits an expression picks: (v & m) >> k and such."""
        n = uncast(e)
        while True:
            if n.get("k") == "bin" and n["op"] in ("&", ">>"):
                a, b = uncast(n["a"]), uncast(n["b"])
                if const(a) is not None and n["op"] == "&":
                    n = b
                elif const(b) is not None:
                    n = a
                else:
                    return None
            else:
                break
        if n is uncast(e):
            return None
        vs = [v for v, _ in self.expr(n, st)]
        return lin(vs[0]) if len(vs) == 1 else None

    def unary(self, e, st):
        op = e["op"]
        if op in ("++", "--", "p++", "p--"):
            for v, x in self.expr(e["e"], st):
                d = 1 if "+" in op else -1
                if v[0] == "iter":
                    nv = ("iter", v[1], add(v[2], num(d)))
                else:
                    nv = add(lin(v), num(d))
                for _, y in self.assign(e["e"], nv, x, e):
                    yield (v if op[0] == "p" else nv), y
            return
        if op == "!":
            for t, x in self.cond(e["e"], st):
                yield num(int(not t)), x
            return
        for v, x in self.expr(e["e"], st):
            if op == "&":
                yield ("&", v), x
            elif op == "*":
                yield self.star(v), x
            elif op == "-":
                yield scale(lin(v), -1), x
            elif op == "+":
                yield v, x
            else:
                yield ("t", op, v), x

    def arith(self, op, a, b):
        if op == "+":
            if a[0] == "iter":
                return ("iter", a[1], add(a[2], lin(b)))
            if a[0] in ("&", "n", "str"):
                return ("t", op, a, b)
            return add(lin(a), lin(b))
        if op == "-":
            if a[0] == "iter" and b[0] == "iter" and a[1] == b[1]:
                return add(a[2], b[2], -1)
            if a[0] == "iter":
                return ("iter", a[1], add(a[2], lin(b), -1))
            if a[0] in ("&", "n", "str"):
                return ("t", op, a, b)
            return add(lin(a), lin(b), -1)
        va, vb = value(a), value(b)
        if op == "*":
            if va is not None:
                return scale(b, va)
            if vb is not None:
                return scale(a, vb)
        if va is not None and vb is not None:
            if op == "&":
                return num(va & vb)
            if op == "|":
                return num(va | vb)
            if op == "<<":
                return num(va << vb)
            if op == ">>":
                return num(va >> vb)
        return ("t", op, a, b)

    def binary(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            for t, x in self.cond(e, st):
                yield num(int(t)), x
            return
        if op == "=":
            for v, x in self.expr(e["b"], st):
                yield from self.assign(e["a"], v, x, e["b"])
            return
        if op == ",":
            for _, x in self.expr(e["a"], st):
                yield from self.expr(e["b"], x)
            return
        if op in ("==", "!=", "<", ">", "<=", ">="):
            for a, x in self.expr(e["a"], st):
                for b, y in self.expr(e["b"], x):
                    t, flip = self.compare(op, a, b)
                    for truth, z in self.branch(t, y, flip):
                        yield num(int(truth)), z
            return
        if op.endswith("="):
            for b, x in self.expr(e["b"], st):
                for a, y in self.expr(e["a"], x):
                    yield from self.assign(e["a"], self.arith(op[:-1], a, b), y, e["b"])
            return
        for a, x in self.expr(e["a"], st):
            for b, y in self.expr(e["b"], x):
                yield self.arith(op, a, b), y

    # ------------------------------------------------------------ calls
    def call(self, e, st):
        op, f = e.get("op"), e.get("f") or ""
        last = f.split("::")[-1]
        args = [a for a in e.get("a", ())]
        if op:
            yield from self.operator(e, op, args, st)
            return
        objs = [e["obj"]] if e.get("obj") else []
        for vs, x in self.exprs(objs + args, st):
            ob = vs[0] if objs else None
            av = vs[1:] if objs else vs
            if ob is not None and e.get("arrow"):
                ob = self.star(ob)
            elif ob is not None and ob[0] == "&" and e["obj"].get("t") is not None and stripped(e["obj"]["t"]).k == "ptr":
                ob = self.star(ob)
            yield from self.apply(e, f, last, ob, av, x)

    def operator(self, e, op, args, st):
        if e.get("obj"):
            args = [e["obj"]] + args
        for vs, x in self.exprs(args, st):
            if op == "<<" and vs and is_stream(args[0].get("t")):
                yield vs[0], x.wrote(vs[0], self.shown(args[1], vs[1]))
            elif op in ("->", "*") and len(vs) == 1:
                r = self.star(vs[0])
                yield (("&", r) if op == "->" else r), x
            elif op == "[]":
                yield self.elem(vs[0], vs[1], x), x
            elif op in ("==", "!=", "<", ">", "<=", ">="):
                t, flip = self.compare(op, vs[0], vs[1])
                for truth, z in self.branch(t, x, flip):
                    yield num(int(truth)), z
            elif op in ("++", "--"):
                v = vs[0]
                d = 1 if op == "++" else -1
                nv = ("iter", v[1], add(v[2], num(d))) if v[0] == "iter" else ("t", op, v)
                for _, y in self.assign(args[0], nv, x, e):
                    yield (v if len(vs) > 1 else nv), y
            elif op in ("+", "-"):
                yield self.arith(op, vs[0], vs[1]), x
            elif op in ("+=", "-="):
                nv = self.arith(op[0], vs[0], vs[1])
                yield from self.assign(args[0], nv, x, args[1])
            elif op == "=":
                yield from self.assign(args[0], vs[1], x, args[1])
            elif op == "bool" or e.get("conv"):
                yield vs[0], x
            elif op == "()":
                yield ("n", id(e)), x
            else:
                yield ("call", "operator" + op, vs), x

    def shown(self, n, v):
        t = stripped(uncast(n).get("t")) or stripped(n.get("t"))
        u = uncast(n)
        if u["k"] == "str":
            return num(len(u.get("v", "")))
        if t is not None and t.rec == "std::basic_string":
            return lin(("size", v))
        if t is not None and t.s in ("char", "unsigned char", "signed char", "const char"):
            return num(1)
        raise Unknown("formatted output")

    def apply(self, e, f, last, ob, av, st):
        prog = self.prog
        if e.get("conv") and ob is not None:
            yield (ob if not last.endswith("operator bool") else ("has", ob)), st
            return
        scrib = "scribbu" in f
        oname = (stripped(e["obj"]["t"]).rec if e.get("obj") and e["obj"].get("t") is not None and stripped(e["obj"]["t"]) is not None else None) or ""
        if not scrib or ob is None and last in ("min", "max", "accumulate", "copy", "for_each", "move", "forward", "distance"):
            yield from self.library(e, f, last, ob, av, st)
            return
        if ob is not None and last in ITERS and not av:
            yield ("iter", ob, ZERO if not ITERS[last] else lin(("size", ob))), st
            return
        if last == "sync_safe_from_unsigned" and len(av) >= 2:
            yield ("none",), st.copy(fields=st.fields + ((av[1], lin(av[0])),))
            return
        targets = self.resolve(e, ob)
        streams = [v for v, p in zip(av, e.get("a", ())) if is_stream(p.get("t"))]
        g = targets[0] if len(targets) == 1 else None
        if last in ("serialized_size", "write") and g is None and ob is not None:
            # the two halves of a pair decided for every class of its own
            rest = tuple(v for v in av if v not in streams)[:1]
            r = lin(("bytes", ob, rest))
            yield r, (st.wrote(streams[0], r) if streams else st)
            return
        if g is None or not g.get("body"):
            if streams:
                raise Unknown("writes through " + f)
            yield ("call", f, ob, av), st
            return
        rt = stripped(g.get("rt"))
        if not streams and rt is not None and rt.k == "void":
            yield ("none",), st
            return
        if self.depth > 8:
            raise Unknown("too deep")
        inner = S(env={("this",): ob if ob is not None else ("static",)}, w=st.w, facts=st.facts, fields=st.fields)
        # values of members survive into the callee
        for kk, vv in st.env.items():
            if kk[0] == "f":
                inner.env[kk] = vv
        ok = True
        for i, p in enumerate(g["ps"]):
            if i < len(av):
                inner.env[("v", p["id"])] = av[i]
        try:
            self.depth += 1
            paths = list(self.body(g, inner))
            if not streams and len(paths) > 48:
                raise Unknown("too many paths")
        except Unknown:
            if streams:
                raise
            ok = False
        finally:
            self.depth -= 1
        if not ok:
            yield ("call", f, ob, av), st
            return
        for p in paths:
            yield (p.ret[0] if p.ret and p.ret[0] is not None else ("none",)), st.copy(w=p.w, facts=p.facts, fields=p.fields)

    def resolve(self, e, ob):
        prog = self.prog
        us = e.get("fu")
        if e.get("virt") and not e.get("qual"):
            if ob == ("this",):
                g = self.final(us)
                return [g] if g is not None else []
            ts = prog.targets(e)
            return ts if len(ts) == 1 else []
        g = prog.by_usr.get(us)
        return [g] if g is not None else []

    def final(self, usr):
        """The overrider of a virtual method in the dynamic class."""
        prog = self.prog
        for c in [self.cls] + prog.bases(self.cls):
            for m in prog.methods(c):
                if m["u"] == usr:
                    return m
                seen, todo = set(), list(m.get("over", ()))
                while todo:
                    o = todo.pop()
                    if o == usr:
                        return m
                    if o not in seen:
                        seen.add(o)
                        todo += self.over(o)
        return None

    def over(self, u):
        m = getattr(self.prog, "_overs", None)
        if m is None:
            m = {}
            for r in self.prog.recs.values():
                for x in r["methods"]:
                    m[x["u"]] = list(x.get("over", ()))
            self.prog._overs = m
        return m.get(u, [])

    def library(self, e, f, last, ob, av, st):
        if ob is not None and last in ITERS and not av:
            yield ("iter", ob, ZERO if not ITERS[last] else lin(("size", ob))), st
            return
        if ob is not None and last in SIZES and not av:
            yield lin(("size", ob)), st
            return
        if ob is not None and last == "empty" and not av:
            for truth, x in self.branch(("eq", ("size", ob), 0), st):
                yield num(int(truth)), x
            return
        if ob is not None and e.get("obj") and is_stream(e["obj"].get("t")):
            if last == "write" and len(av) == 2:
                yield ob, st.wrote(ob, lin(av[1]))
                return
            if last == "put" and len(av) == 1:
                yield ob, st.wrote(ob, num(1))
                return
            if last in ("str", "good", "fail", "rdstate", "exceptions", "tellp", "clear", "flush", "bad", "eof"):
                yield ("n", id(e)), st
                return
            if not mentions(ob, lambda x: isinstance(x, tuple) and x[:1] == ("param",)):
                yield ("n", id(e)), st
                return
            raise Unknown("stream operation " + last)
        if last == "accumulate" and len(av) >= 3 and av[0][0] == "iter" and av[1][0] == "iter":
            K = av[0][1]
            if av[1][1] != K or value(av[0][2]) != 0 or av[1][2] != lin(("size", K)):
                raise Unknown("part of a container")
            if len(av) == 3:
                yield add(lin(av[2]), ("sum", K, ("it", K))), st
                return
            lam = av[3]
            if lam[0] != "lambda":
                raise Unknown("accumulate")
            acc = ("acc", id(e))
            yield from self.fold(lam[2], K, (lin(acc), ("it", K)), acc, lin(av[2]), st)
            return
        if last == "for_each" and len(av) == 3 and av[0][0] == "iter" and av[2][0] == "lambda":
            K = av[0][1]
            if av[1][1] != K or value(av[0][2]) != 0 or av[1][2] != lin(("size", K)):
                raise Unknown("part of a container")
            yield from self.fold(av[2][2], K, (("it", K),), None, None, st)
            return
        if last in ("move", "forward", "ref", "cref", "as_const") and len(av) == 1:
            yield av[0], st
            return
        if last == "copy" and len(av) == 3 and av[2][0] == "oi":
            if av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1]:
                yield ("n", id(e)), st.wrote(av[2][1], add(av[1][2], av[0][2], -1))
                return
            raise Unknown("copy to a stream")
        if last == "distance" and len(av) == 2 and av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1]:
            yield add(av[1][2], av[0][2], -1), st
            return
        if last in ("get",) and ob is not None and not av:
            yield ("&", ("*", ob)), st
            return
        if last in ("value",) and ob is not None and not av:
            yield ("*", ob), st
            return
        if last in ("has_value", "is_initialized") and ob is not None:
            yield ("has", ob), st
            return
        if last == "strlen" and len(av) == 1:
            yield lin(("size", av[0])), st
            return
        if any(is_stream(a.get("t")) for a in e.get("a", ())):
            raise Unknown("writes through " + f)
        yield ("call", f, ob, tuple(av)), st

    def fold(self, lam, K, args, acc, init, st):
        g = lam.fn
        env = dict(st.env)
        inner = st.copy(env=env, w={}, ret=None, fields=())
        for p, a in zip(g["ps"], args):
            inner.env[("v", p["id"])] = a
        ends = [(inner, s) for k, s in self.stmt(g["body"], inner)]
        for inv, some in sorted(grouped(ends, st, K).items(), key=lambda x: repr(sorted(x[0], key=repr))):
            y = st
            for t, b in inv:
                y = y.fact(t, b)
            yield from self.folded(g, K, acc, init, y, some)

    def folded(self, g, K, acc, init, st, ends):
        deltas = []
        keys = set()
        for _, s in ends:
            d = {W(q): n for q, n in s.w.items()}
            if acc is not None:
                if not s.ret:
                    raise Unknown("accumulate without a value")
                d["acc"] = add(lin(s.ret[0]), lin(acc), -1)
                if mentions(d["acc"], lambda x: x == acc):
                    raise Unknown("accumulate")
            else:
                for i in self.assigned(g["body"]):
                    if ("v", i) in st.env:
                        d[i] = add(lin(s.env[("v", i)]), lin(st.env[("v", i)]), -1)
            keys |= set(d)
            facts = frozenset((t, b) for t, b in s.facts.items() if st.facts.get(t) != b)
            deltas.append((facts, d))
        res = self.over_elements(K, deltas, keys)
        w = dict(st.w)
        out = st
        for q, v in res.items():
            if isinstance(q, W):
                w[q.s] = add(w.get(q.s, ZERO), v)
            elif q != "acc":
                out = out.set(("v", q), add(lin(st.env[("v", q)]), v))
        yield (add(init, res["acc"]) if acc is not None else ("none",)), out.copy(w=w)


class LambdaRef:
    def __init__(self, e, env):
        self.fn = e["fn"]
        self.e = e

    def __hash__(self):
        return id(self.e)

    def __eq__(self, o):
        return isinstance(o, LambdaRef) and self.e is o.e

    def __repr__(self):
        return "lambda"


def domains(prog):
    """Values an integer member can have, where every store is of a constant."""
    out, bad = {}, set()

    def put(key, e):
        n = uncast(e)
        if n["k"] == "cond":
            put(key, n["a"])
            put(key, n["b"])
            return
        # copying the same member of another object brings nothing new
        if n["k"] == "mem" and (n.get("cls"), n["n"]) == key:
            return
        c = const(e)
        if c is None:
            bad.add(key)
        else:
            out.setdefault(key, set()).add(int(c))

    for f in prog.fns:
        for i in f.get("inits") or ():
            if i.get("m") and i.get("e") is not None:
                put((f.get("cls"), i["m"]), i["e"])
        if not f.get("body"):
            continue
        for n in walk(f["body"]):
            if n.get("k") == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = uncast(n["a"])
                if t["k"] == "mem":
                    key = (t.get("cls"), t["n"])
                    if n["op"] == "=":
                        put(key, n["b"])
                    else:
                        bad.add(key)
            elif n.get("k") == "un" and n["op"] in ("++", "--", "p++", "p--", "&"):
                t = uncast(n["e"])
                if t["k"] == "mem":
                    bad.add((t.get("cls"), t["n"]))
    return {k: v for k, v in out.items() if k not in bad}
