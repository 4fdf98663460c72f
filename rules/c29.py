"""C29: every loop makes progress on each iteration that does not leave it."""

from program import const, fn_nodes, uncast, walk as walk_, where

TECHNIQUE = "progress of a ranking quantity over every path from a loop's head back to it"

TOP = (None, None, None, False)     # (relation to its value at the head, constant, sign, depends on a grown value)
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
GROW = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "push", "append"}
SHRINK = {"pop_back", "pop_front", "pop"}
MUTATE = GROW | SHRINK | {"erase", "clear", "resize", "assign", "swap", "reserve", "splice", "merge", "operator=", "operator+=", "operator[]"}
READS = {"read", "get", "getline", "ignore", "readsome"}
FORWARD = {"move", "forward", "ref", "cref", "as_const", "find", "find_if", "find_if_not", "adjacent_find", "find_first_of",
           "lower_bound", "upper_bound", "search", "get", "release", "static_pointer_cast"}
CHANGES = {"swap", "iter_swap", "exchange", "from_chars", "stoi", "stol", "stoul", "tie", "remove_if", "getline"}
CAP = 48


def rec_is(t, *names):
    while t is not None and t.k in ("ref", "rref", "ptr"):
        t = t.to
    if t is None or t.k != "rec":
        return False
    all_ = [t.rec or ""] + list(getattr(t, "bases", None) or ())
    return any(n in str(x) for x in all_ for n in names)


def is_stream(t):
    return rec_is(t, "basic_istream", "basic_ifstream", "basic_iostream", "basic_fstream", "basic_istringstream", "basic_stringstream")


def walk(n):
    return (x for x in walk_(n) if "k" in x)


def last(n):
    return (n.get("f") or "").split("::")[-1]


def op_const(n):
    return bool(n.get("op")) and n.get("op") not in ("=", "+=", "-=", "++", "--", "<<=", ">>", "*=")


def sign_of(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return 0 if t is not None and (t.k in ("uint", "bool")) else None


def delta(v):
    """Sign class of a value: P >0, Z >=0, 0, N <0."""
    if v[1] is not None:
        return "P" if v[1] > 0 else "N" if v[1] < 0 else "0"
    return {1: "P", 0: "Z"}.get(v[2])


def minus(d):
    return {"P": "N", "N": "P", "Z": "M", "M": "Z", "0": "0"}.get(d)


class Out:
    def __init__(self, n=()):
        self.n, self.b, self.c, self.r = list(n), [], [], []

    def take(self, o, chans="bcr"):
        for ch in chans:
            getattr(self, ch).extend(getattr(o, ch))


def frozen(st):
    return frozenset(st.items())


def join(sts):
    out = None
    for s in sts:
        if out is None:
            out = dict(s)
            continue
        for k in list(out):
            if k not in s:
                del out[k]
            elif out[k] != s[k]:
                if k[0] == "ref" or out[k][0] == "k" or s[k][0] == "k":
                    del out[k]
                    continue
                a, b = out[k], s[k]
                out[k] = (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                          a[1] if a[1] == b[1] else None,
                          None if delta(a) not in ("P", "Z", "0") or delta(b) not in ("P", "Z", "0") else
                          1 if delta(a) == delta(b) == "P" else 0, a[3] and b[3])
    return out


def dedupe(sts, cap=CAP):
    seen, out = set(), []
    for s in sts:
        k = frozen(s)
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) <= cap:
        return out
    # states that agree on what is being followed are merged first
    for gist in (lambda s: frozenset((k, v[0], v[1] if k[0] == "f" else None) for k, v in s.items() if v[0] in (0, 1) or k[0] == "f" and v[1] in (0, 1)),
                 lambda s: frozenset((k, v[0]) for k, v in s.items() if v[0] in (0, 1))):
        groups = {}
        for s in out:
            groups.setdefault(gist(s), []).append(s)
        if len(groups) <= cap:
            return [join(g) for g in groups.values()]
    return [join(out)]


class Progress:
    """Paths through one loop, tracking how values compare with a measure at the loop's head."""

    def __init__(self, prog, d, bounds=(), fn=None):
        self.prog, self.d, self.bounds, self.fn = prog, d, bounds, fn
        self.this = [("this",)]
        self.stack = []
        self.tries = []
        self.work = 0
        self.locals_ = {}

    def few(self, sts, cap=CAP):
        return dedupe(sts, cap if len(self.stack) < 2 else min(cap, 8))

    # -- places ---------------------------------------------------------------
    def key(self, e, st):
        e = uncast(e)
        if e is None:
            return None
        k = e["k"]
        if k == "var":
            i = e.get("id") or ("g", e.get("q"))
            r = st.get(("ref", i))
            return r[1] if r is not None else i
        if k == "this":
            return ("ptr", self.this[-1])
        if k == "mem":
            b = self.key(e["b"], st)
            if b is None:
                return None
            if b[0] == "ptr":
                b = b[1]
            elif e.get("arrow"):
                b = ("*", b)
            return ("f", b, e["n"])
        if k == "un" and e["op"] == "*":
            b = self.key(e["e"], st)
            return None if b is None else b[1] if b[0] == "ptr" else ("*", b)
        if k == "un" and e["op"] == "&":
            b = self.key(e["e"], st)
            return None if b is None else ("ptr", b)
        if k == "un" and e["op"] in ("++", "--"):
            return self.key(e["e"], st)
        if k == "call" and e.get("op") in ("++", "--") and e["a"]:
            return self.key(e["a"][0], st)
        if k == "call" and last(e) in ("move", "forward", "ref") and len(e["a"]) == 1:
            return self.key(e["a"][0], st)
        if k == "call" and e.get("op") == "*" and len(e["a"]) == 1:
            b = self.key(e["a"][0], st)
            return None if b is None else ("*", b)
        if k == "bin" and e["op"].endswith("=") and e["op"] not in NEG:
            return self.key(e["a"], st)
        return None

    def put(self, st, k, v):
        if k is None:
            return st
        s = {x: y for x, y in st.items() if not self.under(x, k)}
        if v != TOP:
            s[k] = v
        return s

    def under(self, x, k):
        while isinstance(x, tuple) and len(x) > 1 and x[0] in ("f", "*", "size", "pos"):
            if x == k:
                return True
            x = x[1]
        return x == k

    def kill(self, st, k):
        return self.put(st, k, TOP)

    def tracked(self, st, k):
        """Is anything at or below place k being followed?"""
        return k is not None and any(y[0] is not None and y[0] != "k" and self.under(x, k) for x, y in st.items() if x[0] != "ref")

    # -- arithmetic -----------------------------------------------------------
    def move(self, v, dl):
        rel = v[0]
        if rel is not None:
            if dl in ("P", "Z") and self.d > 0 or dl in ("N", "M") and self.d < 0:
                rel = 1 if dl in ("P", "N") else rel
            elif dl != "0":
                rel = None
        return rel

    def arith(self, op, a, b, t=None):
        s = sign_of(t)
        if a[1] is not None and b[1] is not None:
            try:
                c = {"+": lambda: a[1] + b[1], "-": lambda: a[1] - b[1], "*": lambda: a[1] * b[1],
                     "<<": lambda: a[1] << b[1], ">>": lambda: a[1] >> b[1], "/": lambda: a[1] // b[1],
                     "%": lambda: a[1] % b[1], "&": lambda: a[1] & b[1], "|": lambda: a[1] | b[1]}[op]()
                return (None, c, None, False)
            except Exception:
                return (None, None, s, False)
        da, db = delta(a), delta(b)
        dep = a[3] or a[0] == 1 or (b[3] or b[0] == 1) and op in ("+", "*")
        if op == "+":
            rel = self.move(a, db) if a[0] is not None else self.move(b, da)
            if da in ("P", "Z", "0") and db in ("P", "Z", "0"):
                s = 1 if "P" in (da, db) else 0
            return (rel, None, s, dep)
        if op == "-":
            return (self.move(a, minus(db)), None, s, dep)
        if op in ("*", "<<"):
            grows = b[1] is not None and (b[1] > 1 or op == "<<" and b[1] > 0)
            rel = None
            if a[0] is not None and self.d > 0 and grows:
                rel = 1
            if da in ("P", "Z", "0") and db in ("P", "Z", "0"):
                s = 1 if da == "P" and (db == "P" or op == "<<") else 0
            return (rel, None, s, dep)
        if op in ("/", ">>"):
            rel = None
            if a[0] is not None and self.d < 0 and b[1] is not None and (b[1] > 1 or op == ">>" and b[1] > 0) and da == "P":
                rel = 1
            return (rel, None, 0 if da in ("P", "Z", "0") else s, dep)
        return (None, None, s, dep)

    def unconst(self, v):
        """The sign of a value that changes from one iteration to the next, but not the value itself."""
        return v if v[1] is None else (v[0], None, 1 if v[1] > 0 else 0 if v[1] == 0 else None, v[3])

    def meet(self, a, b):
        return join([{("x",): a}, {("x",): b}]).get(("x",), TOP)

    # -- expressions ----------------------------------------------------------
    def ev(self, e, st):
        """[(value, fields, state)]"""
        self.work += 1
        if e is None:
            return [(TOP, None, st)]
        k = e["k"]
        c = const(e)
        if c is not None and k not in ("call", "ctor") and isinstance(c, (int, bool)):
            return [((None, int(c), None, False), None, st)]
        if k == "null":
            return [((None, 0, None, False), None, st)]
        if k == "cast":
            return self.ev(e["e"], st)
        if k in ("var", "mem", "this"):
            return self.load(e, st)
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                return self.boolean(e, st)
            if op in NEG:
                return self.boolean(e, st)
            if op == "=":
                return self.assign(e["a"], e["b"], st)
            if op.endswith("="):
                return self.compound(e["a"], op[:-1], e["b"], e.get("t"), st)
            if op == ",":
                return [y for _, _, x in self.ev(e["a"], st) for y in self.ev(e["b"], x)]
            return [(self.arith(op, a, b, e.get("t")), None, y)
                    for a, _, x in self.ev(e["a"], st) for b, _, y in self.ev(e["b"], x)]
        if k == "un":
            op = e["op"]
            if op == "!":
                return self.boolean(e, st)
            if op in ("++", "--", "p++", "p--"):
                return self.step(e["e"], op, st)
            if op == "*":
                kk = self.key(e, st)
                return [(x.get(kk, (None, None, sign_of(e.get("t")), False)) if kk is not None else TOP, None, x)
                        for _, _, x in self.ev(e["e"], st)]
            if op == "-":
                return [(self.arith("-", (None, 0, None, False), v, e.get("t")), None, x) for v, _, x in self.ev(e["e"], st)]
            return [(v if op in ("+", "&") else (None, None, sign_of(e.get("t")), False), None, x)
                    for v, _, x in self.ev(e["e"], st)]
        if k == "cond":
            t, f = self.cond(e["c"], st)
            return self.trim([y for x in t for y in self.ev(e["a"], x)] + [y for x in f for y in self.ev(e["b"], x)])
        if k == "call":
            return self.invoke(e, st)
        if k == "ctor":
            return self.construct(e, st)
        if k == "new":
            outs = self.ev(e.get("i"), st)
            return [((None, 1, None, False), f, x) for _, f, x in outs]
        if k == "throw":
            for _, _, x in self.ev(e.get("e"), st):
                self.note(x)
            return []
        if k == "lambda":
            return [(TOP, None, st)]
        kids = [c for c in (e.get("ch") or e.get("a") if isinstance(e.get("ch") or e.get("a"), list) else
                            [e.get(x) for x in ("e", "a", "b")]) or [] if isinstance(c, dict)]
        cur = [st]
        for c in kids:
            cur = self.few([y for x in cur for _, _, y in self.ev(c, x)])
        return [((None, None, sign_of(e.get("t")), False), None, x) for x in cur]

    def trim(self, outs):
        seen, res = set(), []
        for v, f, x in outs:
            kk = (v, f, frozen(x))
            if kk not in seen:
                seen.add(kk)
                res.append((v, f, x))
        if len(res) <= (CAP if len(self.stack) < 2 else 8):
            return res
        groups = {}
        for v, f, x in res:
            groups.setdefault((v, f), []).append(x)
        if len(groups) <= 8:
            return [(v, f, y) for (v, f), xs in groups.items() for y in dedupe(xs, 4)]
        v = res[0][0]
        for w, _, _ in res[1:]:
            v = self.meet(v, w)
        return [(v, None, y) for y in dedupe([x for _, _, x in res], 4)]

    def load(self, e, st):
        kk = self.key(e, st)
        if e["k"] == "mem" and kk is None:
            return [((None, None, sign_of(e.get("vt") or e.get("t")), False), None, x) for _, _, x in self.ev(e["b"], st)]
        v = st.get(kk, TOP)
        if v[0] == "k":
            v = TOP
        if v[1] is None and v[2] is None:
            v = (v[0], None, sign_of(e.get("vt") or e.get("t")), v[3])
        fs = None
        if kk is not None:
            fs = frozenset((x[2], y) for x, y in st.items() if x[0] == "f" and x[1] == kk) or None
        return [(v, fs, st)]

    def boolean(self, e, st):
        t, f = self.cond(e, st)
        return self.trim([((None, 1, None, False), None, x) for x in t] + [((None, 0, None, False), None, x) for x in f])

    def set(self, st, kk, v, fs):
        s = self.put(st, kk, v)
        if fs and kk is not None:
            for n, y in fs:
                s[("f", kk, n)] = y
        return s

    def assign(self, a, b, st):
        res = []
        for v, fs, x in self.ev(b, st):
            for y in self.places(a, x):
                res.append((v, fs, self.set(y, self.key(a, y), v, fs)))
        return self.trim(res)

    def places(self, a, st):
        """States after evaluating the operands of an lvalue."""
        u = uncast(a)
        if u is None or u["k"] in ("var", "this"):
            return [st]
        if u["k"] == "mem":
            return self.places(u["b"], st)
        return self.few([x for _, _, x in self.ev(u, st)])

    def compound(self, a, op, b, t, st):
        res = []
        for v, _, x in self.ev(a, st):
            for w, _, y in self.ev(b, x):
                z = self.unconst(self.arith(op, v, w, t))
                res.append((z, None, self.put(y, self.key(a, y), z)))
        return self.trim(res)

    def step(self, a, op, st):
        res = []
        for v, _, x in self.ev(a, st):
            w = self.unconst(self.arith("+" if "+" in op else "-", v, (None, 1, None, False), uncast(a).get("vt") or uncast(a).get("t")))
            res.append((v if op[0] == "p" else w, None, self.put(x, self.key(a, x), w)))
        return self.trim(res)

    # -- conditions -----------------------------------------------------------
    def cond(self, e, st):
        u = uncast(e)
        if u["k"] == "call" and u.get("op") == "!" and len(u["a"]) == 1:
            t, f = self.cond(u["a"][0], st)
            return f, t
        if u["k"] == "un" and u["op"] == "!":
            t, f = self.cond(u["e"], st)
            return f, t
        if u["k"] == "bin" and u["op"] in ("&&", "||"):
            t, f = self.cond(u["a"], st)
            go, stop = (t, f) if u["op"] == "&&" else (f, t)
            T, F = [], []
            for x in go:
                a, b = self.cond(u["b"], x)
                T += a
                F += b
            return (self.few(T), self.few(stop + F)) if u["op"] == "&&" else (self.few(stop + T), self.few(F))
        cmp = self.comparison(u)
        if cmp:
            op, a, b = cmp
            T, F = [], []
            for v, _, x in self.ev(a, st):
                for w, _, y in self.ev(b, x):
                    r = self.decide(op, v, w)
                    if r is not False:
                        T.append(self.learn(op, a, b, v, w, y))
                    if r is not True:
                        F.append(self.learn(NEG[op], a, b, v, w, y))
            return self.few(T), self.few(F)
        T, F = [], []
        for v, _, x in self.ev(e, st):
            if v[1] is not None:
                (T if v[1] else F).append(x)
                continue
            if v[2] == 1:
                T.append(x)
                continue
            kk = self.key(u, x)
            T.append(self.put1(x, kk, (v[0], None, 1, v[3])) if kk is not None and v[2] == 0 else x)
            F.append(self.put1(x, kk, (v[0], 0, None, v[3])) if kk is not None and u["k"] in ("var", "mem") else x)
        return self.few(T), self.few(F)

    def put1(self, st, k, v):
        s = dict(st)
        s[k] = v
        return s

    def comparison(self, u):
        if u["k"] == "bin" and u["op"] in NEG:
            return u["op"], u["a"], u["b"]
        if u["k"] == "call" and u.get("op") in NEG and len(u["a"]) == 2:
            return u["op"], u["a"][0], u["a"][1]
        return None

    def decide(self, op, v, w):
        if v[1] is not None and w[1] is not None:
            x, y = v[1], w[1]
            return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        return None

    def learn(self, op, a, b, v, w, st):
        for x, y, vy, vx, o in ((a, b, w, v, op), (b, a, v, w, FLIP[op])):
            kk = self.key(x, st)
            if kk is None:
                continue
            if vy[1] is not None and vx[1] is None:
                c = vy[1]
                if o == "==":
                    st = self.put1(st, kk, (vx[0], c, None, vx[3]))
                elif o == ">" and c >= 0 or o == ">=" and c >= 1 or o == "!=" and c == 0 and vx[2] == 0:
                    st = self.put1(st, kk, (vx[0], None, 1, vx[3]))
                elif o == ">=" and c == 0 and vx[2] is None:
                    st = self.put1(st, kk, (vx[0], None, 0, vx[3]))
            # having reached the bound is the most progress there can be
            if o in ("==", ">=" if self.d > 0 else "<=") and vx[0] is not None and self.spell(y) in self.bounds:
                st = self.put1(st, kk, (1,) + vx[1:])
        return st

    def spell(self, e):
        u = uncast(e)
        if u is None:
            return None
        if u["k"] in ("var", "mem"):
            return (u["k"], u.get("id") or u.get("q") or u.get("n"))
        if u["k"] == "call" and not u["a"] and u.get("obj") is not None:
            return (last(u), self.spell(u["obj"]))
        c = const(u)
        return ("c", c) if c is not None else None

    # -- calls ----------------------------------------------------------------
    def note(self, st):
        if self.tries:
            self.tries[-1].append(st)

    def args(self, es, st):
        cur = [((), st)]
        for e in es:
            nxt, seen = [], set()
            for vs, x in cur:
                for v, fs, y in self.ev(e, x):
                    kk = (vs + ((v, fs),), frozen(y))
                    if kk not in seen:
                        seen.add(kk)
                        nxt.append((vs + ((v, fs),), y))
            if len(nxt) > CAP:
                j = join([y for _, y in nxt])
                vs = [nxt[0][0][i][0] for i in range(len(nxt[0][0]))]
                for o, _ in nxt[1:]:
                    vs = [self.meet(a, o[i][0]) for i, a in enumerate(vs)]
                nxt = [(tuple((v, None) for v in vs), j)]
            cur = nxt
        return cur

    def invoke(self, n, st):
        op, name, a = n.get("op"), last(n), n["a"]
        t = n.get("t")
        if op in NEG:
            return self.boolean(n, st)
        if op == "!" and len(a) == 1:
            t_, f_ = self.cond(a[0], st)
            return [((None, 0, None, False), None, x) for x in t_] + [((None, 1, None, False), None, x) for x in f_]
        project = [g for g in self.prog.targets(n)]
        if op == "()" and a:
            lam = self.lambda_of(a[0])
            if lam is not None:
                n = dict(n, a=a[1:], op=None)
                a, project = n["a"], [lam]
        if op in ("++", "--") and a:
            return self.step(a[0], ("p" if len(a) > 1 else "") + op, st)
        if op == "=" and len(a) == 2 and not [g for g in project if not g.get("impl") and not g.get("dfl")]:
            return self.assign(a[0], a[1], st)
        if op in ("+=", "-=", "*=", "<<=") and len(a) == 2 and not rec_is(uncast(a[0]).get("vt") or uncast(a[0]).get("t"), "basic_string"):
            return self.compound(a[0], op[:-1], a[1], t, st)
        if op in ("+", "-") and len(a) == 2 and not project:
            return [(self.arith(op, v, w, t), None, y) for v, _, x in self.ev(a[0], st) for w, _, y in self.ev(a[1], x)]
        if op == "*" and len(a) == 1 and not project:
            return [(TOP, None, x) for _, _, x in self.ev(a[0], st)]
        if op == ">>" and a and is_stream(uncast(a[0]).get("vt") or uncast(a[0]).get("t")):
            res = []
            for _, y in self.args(a, st):
                y = self.consume(y, self.stream(a[0], y), (None, 1, None, False))
                y = self.kill(y, self.key(a[1], y))
                res.append((TOP, None, y))
            return self.trim(res)
        obj = n.get("obj")
        cur = [(None, st)]
        if obj is not None:
            cur = [(v, x) for v, _, x in self.ev(obj, st)]
        res = []
        for ov, x in cur:
            for vs, y in self.args(a, x):
                self.note(y)
                outs = self.effect(n, name, obj, ov, vs, y, project)
                for o in outs:
                    self.note(o[2])
                res += outs
        return self.trim(res)

    def lambda_of(self, e):
        u = uncast(e)
        if u is None or u["k"] == "lambda":
            return self.as_fn(u)
        if u["k"] == "var" and self.fn is not None:
            for x in fn_nodes(self.fn):
                if x.get("k") == "decl":
                    for v in x["d"]:
                        if v.get("id") == u.get("id") and v.get("i") is not None:
                            for y in walk(v["i"]):
                                if y["k"] == "lambda":
                                    return self.as_fn(y)
        return None

    def as_fn(self, x):
        if x is None or not x.get("fn"):
            return None
        return dict(x["fn"], u=("lambda", id(x)), inits=(), rt=x["fn"].get("rt"))

    def stream(self, e, st):
        u = uncast(e)
        if u is not None and u["k"] == "call" and u.get("op") == ">>":
            return self.stream(u["a"][0], st)
        kk = self.key(e, st)
        return kk[1] if kk is not None and kk[0] == "ptr" else kk

    def consume(self, st, s, by):
        """Input is read from stream s."""
        if s is None:
            return st
        v = st.get(("pos", s), TOP)
        s2 = self.put1(st, ("pos", s), (self.move(v, "P" if delta(by) == "P" else "Z"), None, None, v[3]))
        return self.put1(s2, ("read", s), (0, None, None, False))

    def effect(self, n, name, obj, ov, vs, st, project):
        a, t = n["a"], n.get("t")
        base = (None, None, sign_of(t), False)
        if obj is not None and (is_stream(n.get("ot")) or is_stream(uncast(obj).get("vt") or uncast(obj).get("t"))):
            s = self.stream(obj, st)
            if name in READS:
                if name == "read" and len(vs) > 1:
                    by = vs[1][0]
                elif name in ("ignore", "readsome") and vs:
                    by = vs[0][0] if name == "ignore" else TOP
                else:
                    by = (None, 1, None, False)
                st = self.consume(st, s, by)
                for e in a:
                    st = self.kill(st, self.pointee(e, st))
                return [(base, None, st)]
            if name == "tellg":
                v = st.get(("pos", s), TOP)
                return [((v[0], None, None, v[3]), None, st)]
            if name in ("seekg", "unget", "putback"):
                v = TOP
                if name == "seekg" and len(a) == 1:
                    v = vs[0][0]
                elif name == "seekg" and len(a) == 2:
                    w = self.whence(a[1])
                    if w == "cur":
                        old = st.get(("pos", s), TOP)
                        v = (self.move(old, delta(vs[0][0])), None, None, old[3])
                    elif w == "beg":
                        v = vs[0][0]
                return [(base, None, self.put1(st, ("pos", s), (v[0], None, None, v[3])))]
            if name == "clear":
                return [(base, None, self.put1(st, ("cleared", s), (0, None, None, False)))]
            if name in ("exceptions", "good", "eof", "fail", "bad", "gcount", "rdstate", "peek", "operator bool", "operator!", "setstate", "rdbuf"):
                return [(base, None, st)]
        if name == "getline" and a and is_stream(uncast(a[0]).get("vt") or uncast(a[0]).get("t")):
            st = self.consume(st, self.stream(a[0], st), (None, 1, None, False))
            return [(base, None, self.kill(st, self.key(a[1], st)))]
        if not project:
            if name == "advance" and len(vs) == 2:
                kk = self.key(a[0], st)
                v = self.arith("+", vs[0][0], vs[1][0], None)
                return [(base, None, self.put(st, kk, v))]
            if name in ("next", "prev") and vs:
                w = vs[1][0] if len(vs) > 1 and uncast(a[1])["k"] != "other" else (None, 1, None, False)
                if w == TOP and len(a) > 1 and const(a[1]) is None:
                    w = (None, 1, None, False) if uncast(a[1])["k"] not in ("var", "mem", "bin", "call") else w
                return [(self.arith("+" if name == "next" else "-", vs[0][0], w, None), None, st)]
            if name in ("min", "max") and len(vs) >= 2 and obj is None:
                da, db = delta(vs[0][0]), delta(vs[1][0])
                ok = ("P", "Z", "0")
                if name == "min":
                    s = (1 if da == db == "P" else 0) if da in ok and db in ok else None
                else:
                    s = 1 if "P" in (da, db) else 0 if da in ok or db in ok else None
                return [((None, None, s if s is not None else sign_of(t), vs[0][0][3] or vs[1][0][3]), None, st)]
            if obj is not None and name.startswith(("find", "rfind")) and len(vs) > 1 and not name.startswith("rfind"):
                return [((vs[1][0][0], None, base[2], vs[1][0][3]), None, st)]
            if obj is None and name in FORWARD and vs:
                return [(vs[0][0][:1] + (None, base[2], vs[0][0][3]) if not name.startswith("move") else vs[0][0], vs[0][1], st)]
            if name in ("size", "length", "empty", "count") and obj is not None:
                v = st.get(("size", self.key(obj, st)), TOP)
                if name in ("size", "length"):
                    return [((v[0], None, 0 if v[2] is None else v[2], v[3]), None, st)]
                return [(base, None, st)]
            if obj is not None and n.get("conv") and name != "operator bool":
                return [(ov, None, st)]
            if obj is not None and name in ("get", "operator->", "operator bool", "operator*"):
                return [((None, ov[1] if ov is not None else None, None, False), None, st)]
            if obj is not None and name == "reset":
                kk = self.key(obj, st)
                v = vs[0][0] if vs else (None, 0, None, False)
                return [(base, None, self.put(st, kk, v))]
            # what an unknown function is given by reference it may change
            kk = self.key(obj, st) if obj is not None else None
            if kk is not None:
                sz = ("size", kk)
                v = st.get(sz)
                if name in GROW:
                    st = self.put1(st, sz, (self.move(v, "P" if name not in ("insert", "emplace") else "Z"), None, None, False)) if v is not None else st
                elif name in SHRINK:
                    st = self.put1(st, sz, (self.move(v, "N"), None, None, False)) if v is not None else st
                elif name == "erase" and (v is not None or len(vs) == 1 and vs[0][0][0] is not None):
                    if v is not None:
                        st = self.put1(st, sz, (self.move(v, "N"), None, None, False))
                    # what follows the erased element is nearer to the end
                    r = vs[0][0][0] if vs else None
                    return [((1 if r is not None and self.d > 0 and len(vs) == 1 else r, None, None, False), None, st)]
                elif name in MUTATE and not n.get("const"):
                    st = self.kill(st, sz)
            dep = any(v[0] == 1 or v[3] for v, _ in vs)
            std = (n.get("f") or "").startswith(("std::", "boost::")) and name not in CHANGES
            for i, e in enumerate(a):
                p = self.pointee(e, st)
                if p is not None:
                    w = st.get(p, TOP)
                    dep = dep or w[0] == 1 or w[3]
                    if not std and not (i == 0 and op_const(n)):
                        st = self.kill(st, p)
            fs = frozenset([("fed", (1, None, None, True))]) if dep else None
            return [((None, None, base[2], dep), fs, st)]
        # the program's own functions are followed when they can reach what is being followed
        res = []
        for g in project:
            if self.relevant(n, g, obj, vs, st):
                res += self.inline(n, g, obj, vs, st)
            else:
                res.append((base, None, st))
        dep = any(v[0] == 1 or v[3] for v, _ in vs)
        if dep:
            res = [((v[0], v[1], v[2], True), frozenset(list(f or ()) + [("fed", (1, None, None, True))]), x) for v, f, x in res]
        return res or [(base, None, st)]

    def whence(self, e):
        u = uncast(e)
        q = (u.get("q") or u.get("n") or "").split("::")[-1] if u["k"] in ("var", "enum", "mem") else ""
        if q in ("cur", "beg", "end"):
            return q
        c = const(u)
        return {0: "beg", 1: "cur", 2: "end"}.get(c)

    def pointee(self, e, st):
        """The place an argument lets its callee change."""
        u = uncast(e)
        if u is None:
            return None
        if u["k"] == "un" and u["op"] == "&":
            return self.key(u["e"], st)
        if e.get("rv"):
            return None
        if u["k"] in ("var", "mem") and not e["k"] == "cast" and not (u.get("vt") or u.get("t")).cst:
            kk = self.key(u, st)
            return kk
        return None

    def relevant(self, n, g, obj, vs, st):
        if isinstance(g["u"], tuple):
            return g["u"] not in self.stack
        if g["u"] in self.stack or len(self.stack) > 7:
            return False
        if any(v[0] is not None for v, _ in vs):
            return True
        for p, e in zip(g["ps"], n["a"]):
            t = p.get("t")
            if t is not None and t.k in ("ref", "rref", "ptr"):
                kk = self.key(e, st)
                if kk is not None and kk[0] == "ptr":
                    kk = kk[1]
                if self.tracked(st, kk) or kk is not None and (("pos", kk) in st) or is_stream(t) and any(x[0] == "pos" for x in st):
                    return True
        if obj is not None:
            kk = self.key(obj, st)
            if kk is not None and kk[0] == "ptr":
                kk = kk[1]
            if self.tracked(st, kk):
                return True
        for v, fs in vs:
            if v[1] is not None and g["rt"] is not None and g["rt"].k == "bool":
                return True
        return False

    def inline(self, n, g, obj, vs, st):
        s = dict(st)
        for p, e, (v, fs) in zip(g["ps"], n["a"], vs):
            t = p.get("t")
            s = self.put(s, p["id"], TOP)
            s.pop(("ref", p["id"]), None)
            if t is not None and t.k in ("ref", "rref"):
                kk = self.key(e, st)
                if kk is not None:
                    s[("ref", p["id"])] = ("k", kk)
                    continue
            if t is not None and t.k == "ptr":
                kk = self.key(e, st)
                if kk is not None and kk[0] == "ptr":
                    s[("ref", p["id"])] = ("k", kk)
                    continue
            s = self.set(s, p["id"], v, fs)
        for p in g["ps"][len(n["a"]):]:
            s = self.put(s, p["id"], TOP)
        th = ("obj", len(self.stack))
        if obj is not None:
            kk = self.key(obj, st)
            if kk is not None:
                th = kk[1] if kk[0] == "ptr" else ("*", kk) if n.get("arrow") else kk
        self.this.append(th)
        self.stack.append(g["u"])
        try:
            cur = [s]
            for i in g.get("inits") or ():
                nxt = []
                for x in cur:
                    for v, fs, y in self.ev(i.get("e"), x) if i.get("e") is not None else [(TOP, None, x)]:
                        nxt.append(self.set(y, ("f", th, i["m"]), v, fs) if i.get("m") else y)
                cur = self.few(nxt)
            o = self.seq([g.get("body")], cur)
        finally:
            self.stack.pop()
            self.this.pop()
        outs = [(TOP, None, x) for x in o.n] + o.r
        return self.trim([(v, f, self.leave(g, x)) for v, f, x in outs])

    def leave(self, g, st):
        ids = self.locals_.get(g["u"])
        if ids is None:
            ids = {p["id"] for p in g["ps"]}
            for x in fn_nodes(g):
                if x.get("k") == "decl":
                    ids |= {v["id"] for v in x["d"] if v.get("id") is not None}
                elif x.get("k") == "rfor" and x["v"].get("id") is not None:
                    ids.add(x["v"]["id"])
                elif isinstance(x.get("cv"), dict):
                    ids.add(x["cv"].get("id"))
            self.locals_[g["u"]] = ids

        def mine(k):
            if k[0] == "ref":
                return k[1] in ids
            while isinstance(k, tuple) and len(k) > 1 and k[0] in ("f", "*", "size", "pos", "read", "cleared"):
                k = k[1]
            return k in ids or k[0] == "obj" and k[1] >= len(self.stack)
        return {k: v for k, v in st.items() if not mine(k)}

    def construct(self, n, st):
        a = n["a"]
        cls = n.get("cls") or ""
        if (n.get("copy") or n.get("move")) and len(a) == 1:
            return self.ev(a[0], st)
        smart = "unique_ptr" in cls or "shared_ptr" in cls
        if smart and not a:
            return [((None, 0, None, False), None, st)]
        project = self.prog.targets(n)
        res = []
        for vs, y in self.args(a, st):
            self.note(y)
            if smart:
                res.append((vs[0][0], vs[0][1], y))
                continue
            done = False
            for g in project:
                if not (g.get("impl") or g.get("dfl")) and self.relevant(n, g, None, vs, y):
                    done = True
                    for v, f, x in self.inline(n, g, None, vs, y):
                        self.note(x)
                        res.append((TOP, None, x))
            if not done:
                v = vs[0][0] if len(a) == 1 and not project else TOP
                res.append((v, None, y))
        return self.trim(res)

    # -- statements -----------------------------------------------------------
    def seq(self, stmts, sts):
        o = Out(sts)
        for s in stmts:
            if s is None:
                continue
            if not o.n:
                break
            q = Out()
            q.take(o)
            for x in self.few(o.n):
                p = self.st(s, x)
                q.n += p.n
                q.take(p)
            q.n = self.few(q.n)
            q.b, q.c = self.few(q.b), self.few(q.c)
            q.r = self.trim(q.r)
            o = q
        return o

    def st(self, s, st):
        self.work += 1
        if self.work > 1000000:
            raise RuntimeError("too much work")
        k = s["k"]
        if k == "block":
            return self.seq(s["s"], [st])
        if k == "decl":
            cur = [st]
            for v in s["d"]:
                cur = self.few([y for x in cur for y in self.declare(v, x)])
            return Out(cur)
        if k == "if":
            cur = [st]
            q = Out()
            for pre in (s.get("init"), {"k": "decl", "d": [s["cv"]]} if s.get("cv") else None):
                if pre is not None:
                    p = self.seq([pre], cur)
                    cur = p.n
            for x in cur:
                t, f = self.cond(s["c"], x)
                for br, xs in ((s["th"], t), (s.get("el"), f)):
                    if br is None:
                        q.n += xs
                    elif xs:
                        p = self.seq([br], xs)
                        q.n += p.n
                        q.take(p)
            return q
        if k in ("while", "do", "for", "rfor"):
            return self.loop(s, st)
        if k == "switch":
            return self.switch(s, st)
        if k in ("case", "default", "label"):
            return self.seq([s["s"]], [st])
        if k == "return":
            o = Out()
            if s.get("e") is None:
                o.r.append((TOP, None, st))
            else:
                o.r += self.ev(s["e"], st)
            return o
        if k == "break":
            o = Out()
            o.b.append(st)
            return o
        if k == "continue":
            o = Out()
            o.c.append(st)
            return o
        if k == "null_s":
            return Out([st])
        if k == "try":
            self.tries.append([])
            b = self.seq([s["s"]], [st])
            at = self.few(self.tries.pop(), 12)
            if self.tries:
                self.tries[-1] += at
            o = Out(b.n)
            o.take(b)
            for h in s["h"]:
                p = self.seq([h["s"]], at)
                o.n += p.n
                o.take(p)
            return o
        if k in ("goto", "other_s"):
            return Out([{}])
        return Out(self.few([x for _, _, x in self.ev(s, st)]))

    def declare(self, v, st):
        if v.get("id") is None:
            return [st]
        t = v.get("t")
        st = self.put(st, v["id"], TOP)
        st = {k: x for k, x in st.items() if k != ("ref", v["id"])}
        if v.get("i") is None:
            return [st]
        if t is not None and t.k in ("ref", "rref", "ptr"):
            kk = self.key(v["i"], st)
            if kk is not None and (t.k != "ptr" or kk[0] == "ptr"):
                return [self.put1(x, ("ref", v["id"]), ("k", kk)) for _, _, x in self.ev(v["i"], st)]
        return [self.set(x, v["id"], y, fs) for y, fs, x in self.ev(v["i"], st)]

    def switch(self, s, st):
        o = Out()
        body = s["s"]["s"] if s["s"]["k"] == "block" else [s["s"]]
        items = []
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["s"]
            items.append((labels, x))
        dflt = any(l["k"] == "default" for ls, _ in items for l in ls)
        for _, _, x in self.ev(s["c"], st):
            live = []
            for labels, b in items:
                if labels:
                    live.append(x)
                if live and b is not None:
                    p = self.seq([b], self.few(live))
                    live = p.n
                    o.n += p.b
                    o.take(p, "cr")
            o.n += live
            if not dflt:
                o.n.append(x)
        return o

    def loop(self, s, st):
        """An inner loop, to a fixed point."""
        o = Out()
        if s["k"] == "rfor":
            work = [x for _, _, x in self.ev(s["r"], st)]
        else:
            work = [st]
            if s["k"] == "for" and s.get("init") is not None:
                work = self.seq([s["init"]], work).n
        skip = s["k"] == "do"
        seen = set()
        rounds = 0
        while work:
            rounds += 1
            if rounds > 12:
                work = [join(work)]
            if rounds > 40:
                work = [{}]
            work = [x for x in self.few(work, 12) if frozen(x) not in seen]
            seen |= {frozen(x) for x in work}
            into = []
            for x in work:
                if skip:
                    into.append(x)
                    continue
                if s["k"] == "rfor":
                    o.n.append(x)
                    into.append(self.kill(x, s["v"].get("id")))
                    continue
                if s.get("c") is None:
                    into.append(x)
                    continue
                xs = [x]
                if s.get("cv"):
                    xs = self.declare(s["cv"], x)
                for y in xs:
                    t, f = self.cond(s["c"], y)
                    o.n += f
                    into += t
            skip = False
            if not into:
                break
            b = self.seq([s["s"]], self.few(into, 12))
            o.take(b, "r")
            o.n += b.b
            work = b.n + b.c
            if s["k"] == "for" and s.get("inc") is not None and work:
                work = self.seq([s["inc"]], work).n
        o.n = self.few(o.n)
        return o

    # -- the loop under study ---------------------------------------------------
    def around(self, s, start):
        """States in which one iteration ends by going round again."""
        def test(xs):
            if s.get("c") is None or s["k"] == "rfor":
                return xs
            out = []
            for x in xs:
                for y in self.declare(s["cv"], x) if s.get("cv") else [x]:
                    out += self.cond(s["c"], y)[0]
            return out
        cur = [start]
        if s["k"] != "do":
            cur = test(cur)
        if not cur:
            return []
        b = self.seq([s["s"]], cur)
        ends = b.n + b.c
        if s["k"] == "for" and s.get("inc") is not None and ends:
            ends = self.seq([s["inc"]], ends).n
        if s["k"] == "do":
            return test(ends)
        return [x for x in self.few(ends, 400) if test([x])]


# -- measures ---------------------------------------------------------------------
def conjuncts(e, neg=False):
    u = uncast(e)
    if u["k"] == "un" and u["op"] == "!":
        return conjuncts(u["e"], not neg)
    if u["k"] == "call" and u.get("op") == "!" and len(u["a"]) == 1:
        return conjuncts(u["a"][0], not neg)
    if u["k"] == "bin" and u["op"] == ("||" if neg else "&&"):
        return conjuncts(u["a"], neg) + conjuncts(u["b"], neg)
    return [(u, neg)]


def leaves(s):
    """Does statement s always leave the loop it stands in?"""
    if s is None:
        return False
    if s["k"] == "block":
        return bool(s["s"]) and leaves(s["s"][-1])
    if s["k"] in ("break", "return"):
        return True
    return s["k"] == "throw" or s["k"] == "call" and bool(s.get("noret"))


def exits(s):
    """Conditions, tested on every iteration, that must hold to go round again."""
    out = []
    if s.get("c") is not None and s["k"] != "rfor" and const(s["c"]) is None:
        out += conjuncts(s["c"])
    body = s["s"]["s"] if s["s"] is not None and s["s"]["k"] == "block" else [s["s"]]
    for x in body:
        if x is None:
            continue
        if x["k"] == "if":
            if leaves(x["th"]):
                out += conjuncts(x["c"], True)
            elif leaves(x.get("el")):
                out += conjuncts(x["c"])
        if any(y["k"] == "continue" for y in walk(x)):
            break
    return out


def terms(e, pr):
    """Places a quantity rises (+1) or falls (-1) with."""
    u = uncast(e)
    if u is None:
        return []
    if const(u) is not None:
        return []
    k = u["k"]
    if k == "bin" and u["op"] in ("+", "-"):
        return terms(u["a"], pr) + [(x, sg if u["op"] == "+" else -sg) for x, sg in terms(u["b"], pr)]
    if k == "call" and u.get("op") in ("+", "-") and len(u["a"]) == 2:
        return terms(u["a"][0], pr) + [(x, sg if u["op"] == "+" else -sg) for x, sg in terms(u["a"][1], pr)]
    if k == "call" and last(u) == "distance" and len(u["a"]) == 2:
        return terms(u["a"][1], pr) + [(x, -sg) for x, sg in terms(u["a"][0], pr)]
    if k == "call" and last(u) in ("size", "length") and u.get("obj") is not None:
        kk = pr.key(u["obj"], {})
        return [(("size", kk), 1)] if kk is not None else []
    if k == "call" and last(u) in ("begin", "cbegin", "data", "end", "cend"):
        return []
    if k == "un" and u["op"] in ("++", "--", "p++", "p--"):
        return terms(u["e"], pr)
    if k == "call" and u.get("op") in ("++", "--"):
        return terms(u["a"][0], pr)
    if k == "bin" and u["op"] == "=":
        return terms(u["a"], pr)
    if k == "bin" and u["op"] in ("*", "/", "<<", ">>") and const(u["b"]) is not None:
        return terms(u["a"], pr)
    kk = pr.key(u, {})
    if kk is not None and kk[0] != "ptr":
        return [(kk, 1)]
    return []


def keys_in(e, pr):
    out = set()
    for x in walk(e):
        if x["k"] in ("var", "mem"):
            kk = pr.key(x, {})
            if kk is not None:
                out.add(kk)
    return out


def base_key(k):
    while isinstance(k, tuple) and k and k[0] in ("size", "f", "*", "pos") and len(k) > 1 and k[1] != ("this",):
        k = k[1]
    return k


def departing(s, inner=False):
    """Nodes of a loop's body after which the loop is always left."""
    out = set()
    if s is None:
        return out
    k = s["k"]
    if k == "block":
        end = s["s"][-1] if s["s"] else None
        if end is not None and (end["k"] == "return" or end["k"] == "break" and not inner) and \
                not any(x["k"] in ("continue", "label", "goto", "case") for x in walk(s)):
            return {id(x) for x in walk(s)}
        for x in s["s"]:
            out |= departing(x, inner)
    elif k == "if":
        out |= departing(s["th"], inner) | departing(s.get("el"), inner)
    elif k in ("while", "do", "for", "rfor", "switch"):
        out |= departing(s.get("s"), True)
    elif k == "try":
        out |= departing(s["s"], inner)
        for h in s["h"]:
            out |= departing(h["s"], inner)
    return out


def changed(s, pr):
    """Places written inside loop s, its condition and its step, containers changed among them."""
    out = set()
    gone = departing(s.get("s"))
    for part in (s.get("c"), s.get("inc"), s.get("s")):
        if part is None:
            continue
        for x in walk(part):
            if id(x) in gone:
                continue
            tgt = None
            if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in NEG:
                tgt = x["a"]
            elif x["k"] == "un" and x["op"] in ("++", "--", "p++", "p--"):
                tgt = x["e"]
            elif x["k"] == "call" and x["a"] and x.get("op") in ("=", "+=", "-=", "++", "--", "<<=", "*="):
                tgt = x["a"][0]
            elif x["k"] == "call" and last(x) in MUTATE and x.get("obj") is not None and not x.get("const"):
                kk = pr.key(x["obj"], {})
                if kk is not None:
                    out.add(("size", kk))
                continue
            elif x["k"] == "un" and x["op"] == "&":
                tgt = x["e"]
            if tgt is not None:
                kk = pr.key(tgt, {})
                if kk is not None:
                    out.add(kk)
            if x["k"] == "call" and x.get("ft") is not None:
                for p, a in zip(getattr(x["ft"], "ps", None) or (), x["a"]):
                    if p is not None and p.k == "ref" and p.to is not None and not p.to.cst:
                        kk = pr.key(a, {})
                        if kk is not None and not is_stream(p):
                            out.add(kk)
    return out


def show(e):
    u = uncast(e)
    if u is None:
        return "-"
    k = u["k"]
    if k == "var":
        return u["n"]
    if k == "mem":
        b = uncast(u["b"])
        return u["n"] if b is None or b["k"] == "this" else show(b) + "." + u["n"]
    if const(u) is not None:
        return str(const(u))
    if k == "bin":
        return show(u["a"]) + u["op"] + show(u["b"])
    if k == "un":
        return u["op"].strip("p") + show(u["e"])
    if k == "call":
        if u.get("op") and len(u["a"]) == 2:
            return show(u["a"][0]) + u["op"] + show(u["a"][1])
        if u.get("op") and len(u["a"]) == 1:
            return u["op"] + show(u["a"][0])
        if last(u).startswith("operator") and u.get("obj") is not None:
            return show(u["obj"])
        return (show(u["obj"]) + "." if u.get("obj") is not None and uncast(u["obj"])["k"] != "this" else "") + last(u) + "(" + ",".join(show(a) for a in u["a"]) + ")"
    if k == "ctor" and len(u["a"]) == 1:
        return show(u["a"][0])
    if k == "idx":
        return show(u["a"]) + "[" + show(u["b"]) + "]"
    return k


class Loop:
    def __init__(self, prog, f, s):
        self.prog, self.f, self.s = prog, f, s
        self.pr = Progress(prog, 1)
        self.wr = changed(s, self.pr)
        self.tried = []

    def name(self):
        g = self.f["n"]
        c = self.s.get("c")
        return "%s/%s" % ("::".join(g.split("::")[-2:]), show(c).replace(" ", "") if c is not None else "forever")

    def fixed(self, keys, but):
        for k in keys:
            if k == but:
                continue
            for w in self.wr:
                if w == k or w[0] == "size" and w[1] == k or self.pr.under(k, w):
                    return False
        return True

    def run(self, d, start, bounds=()):
        p = Progress(self.prog, d, bounds, self.f)
        try:
            return p.around(self.s, start)
        except RuntimeError:
            return None

    def rises(self, key, d, bounds=()):
        start = {key: (0, None, None, False)}
        if key[0] == "size":
            pass
        ends = self.run(d, start, bounds)
        self.tried.append(key)
        return ends is not None and all(x.get(key, TOP)[0] == 1 for x in ends)

    def streams(self):
        out = []
        cv = self.s.get("cv")
        for part in (self.s.get("c"), self.s.get("s"), self.s.get("inc"), cv["i"] if isinstance(cv, dict) else None):
            if part is None:
                continue
            for x in walk(part):
                if x["k"] in ("var", "mem") and is_stream(x.get("vt") or x.get("t")):
                    kk = self.pr.key(x, {})
                    if kk is not None and kk not in out:
                        out.append(kk)
        return out

    def consumes(self, s, state):
        """Does every iteration end further along stream s?"""
        pos = ("pos", s)
        self.tried.append(pos)
        cands = [pos]
        for x in walk(self.s["s"]):
            if x["k"] == "call" and last(x) == "seekg" and x["a"]:
                cands += [k for k in keys_in(x["a"][0], self.pr) if k not in cands]
        for c in cands:
            ends = self.run(1, {c: (0, None, None, False)})
            if ends is None:
                continue
            if all(x.get(pos, TOP)[0] == 1 and x.get(c, TOP)[0] == 1 and
                   not (state and ("cleared", s) in x) and (not state or ("read", s) in x) for x in ends):
                return True
        return False

    def settle(self):
        """The argument by which the loop ends, or None."""
        for u, neg in exits(self.s):
            why = self.by(u, neg)
            if why:
                return why
        return None

    def by(self, u, neg):
        pr = self.pr
        cmp = pr.comparison(u)
        if cmp:
            op, a, b = cmp
            if neg:
                op = NEG[op]
            for x, y, o in ((a, b, op), (b, a, FLIP[op])):
                spell = {pr.spell(y)}
                others = keys_in(x, pr) | keys_in(y, pr)
                for kk, sg in terms(x, pr):
                    if kk not in self.wr and kk[0] != "size":
                        continue
                    dirs = {"<": (1,), "<=": (1,), ">": (-1,), ">=": (-1,), "!=": (1, -1)}.get(o, ())
                    rest = {z for z in others if z != kk and not (kk[0] == "size" and z == kk[1])}
                    # erasing the element stood on brings the end nearer
                    shrinks = self.shrinking(y, kk)
                    if shrinks is not None:
                        rest.discard(shrinks)
                    if not self.fixed(rest, kk):
                        continue
                    for d in dirs:
                        if self.rises(kk, d * sg, spell):
                            if o == "!=" and not self.exact(kk):
                                continue
                            return "bound"
                # a container that has to have grown, with keys of which there are finitely many
                if o in (">", "!=") and self.regrown(x, y):
                    return "growth"
            for x in (a, b):
                v = uncast(x)
                if v["k"] == "idx" or v["k"] == "un" and v["op"] == "*" or v["k"] == "call" and v.get("op") in ("*", "[]"):
                    ix = v["b"] if v["k"] == "idx" else v["e"] if v["k"] == "un" else v["a"][-1]
                    if self.search(ix):
                        return "search"
            if op in ("==", "!="):
                for x in (a, b):
                    kk = pr.key(x, {})
                    if kk is not None and self.value(kk):
                        return "retry"
                    for s in self.streams():
                        if any(y["k"] in ("var", "mem") and pr.key(y, {}) == s for y in walk(x)) and self.consumes(s, False):
                            return "input"
            return None
        # a stream's own state
        for s in self.streams():
            if any(y["k"] in ("var", "mem") and pr.key(y, {}) == s for y in walk(u)) and not (u["k"] == "call" and last(u) == "eof" and not neg):
                if self.consumes(s, True):
                    return "input"
        if u["k"] == "call" and last(u) == "empty" and u.get("obj") is not None and neg:
            kk = pr.key(u["obj"], {})
            if kk is not None and self.rises(("size", kk), -1):
                return "bound"
        if not neg:
            v = u
            if v["k"] == "idx" or v["k"] == "un" and v["op"] == "*":
                if not (v["k"] == "un" and (v.get("t") is not None and v["t"].k in ("int", "uint") and v["t"].sz and v["t"].sz > 1)):
                    if self.search(v["b"] if v["k"] == "idx" else v["e"]):
                        return "search"
            t = v.get("vt") or v.get("t")
            while t is not None and t.k in ("ref", "rref"):
                t = t.to
            if t is not None and t.k in ("int", "uint"):
                for kk, sg in terms(v, pr):
                    if self.rises(kk, -sg):
                        return "bound"
        kk = pr.key(u, {})
        if kk is None and u["k"] == "call" and u.get("obj") is not None and last(u) in ("operator bool", "get"):
            kk = pr.key(u["obj"], {})
        if kk is not None and self.value(kk):
            return "retry"
        return None

    def shrinking(self, y, kk):
        """The container whose end y is, if the loop changes it only by `kk = container.erase(kk)'."""
        u = uncast(y)
        if u["k"] != "call" or last(u) not in ("end", "cend") or u.get("obj") is None:
            return None
        c = self.pr.key(u["obj"], {})
        if c is None or ("size", c) not in self.wr or c in self.wr:
            return None
        gone = departing(self.s.get("s"))
        for x in walk(self.s["s"]):
            if id(x) in gone:
                continue
            if x["k"] == "call" and last(x) in MUTATE and x.get("obj") is not None and not x.get("const") and \
                    self.pr.key(x["obj"], {}) == c:
                if last(x) != "erase" or len(x["a"]) != 1 or kk not in keys_in(x["a"][0], self.pr):
                    return None
        return c

    def exact(self, kk):
        """A bound tested with != must not be stepped over."""
        for part in (self.s.get("inc"), self.s.get("s"), self.s.get("c")):
            if part is None:
                continue
            for x in walk(part):
                op = x.get("op")
                if x["k"] == "bin" and op in ("+=", "-="):
                    a, b = x["a"], x["b"]
                elif x["k"] == "call" and op in ("+=", "-=") and len(x["a"]) == 2:
                    a, b = x["a"]
                else:
                    continue
                c = const(b)
                if self.pr.key(a, {}) == kk and c is not None and abs(c) > 1:
                    return False
        return True

    def search(self, ix):
        """Each iteration examines a later element."""
        for kk, sg in terms(ix, self.pr):
            if self.rises(kk, sg) or self.rises(kk, -sg):
                return True
        for y in walk(ix):
            if y["k"] == "var":
                kk = self.pr.key(y, {})
                if kk in self.wr and self.rises(kk, 1):
                    return True
        return False

    def regrown(self, x, y):
        u, v = uncast(x), self.pr.key(y, {})
        if u["k"] != "call" or last(u) != "size" or u.get("obj") is None or v is None:
            return False
        c = self.pr.key(u["obj"], {})
        body = self.s["s"]["s"] if self.s["s"]["k"] == "block" else [self.s["s"]]
        t = uncast(u["obj"]).get("vt") or uncast(u["obj"]).get("t")
        ta = getattr(t.deref(), "targs", None) or ()
        small = bool(ta) and getattr(ta[0], "k", None) in ("uint", "int", "enum") and (ta[0].sz or 9) <= 2
        if not small:
            return False
        for z in body:
            if z is None:
                continue
            w = uncast(z)
            if w["k"] == "bin" and w["op"] == "=" and self.pr.key(w["a"], {}) == v:
                r = uncast(w["b"])
                if r["k"] == "call" and last(r) == "size" and r.get("obj") is not None and self.pr.key(r["obj"], {}) == c:
                    return True
            if any(q["k"] in ("continue",) for q in walk(z)):
                return False
            if any(q["k"] == "call" and q.get("obj") is not None and self.pr.key(q["obj"], {}) == c and last(q) in MUTATE for q in walk(z)):
                return False
        return False

    def value(self, kk):
        """The condition looks at a value obtained anew on each iteration from something that moves on."""
        got = []
        v = self.s.get("cv")
        if isinstance(v, dict) and v.get("i") is not None and v.get("id") is not None and self.pr.under(kk, v["id"]):
            got.append((self.s, v["i"]))
        for part in (self.s.get("c"), self.s.get("s"), self.s.get("inc")):
            if part is None:
                continue
            for x in walk(part):
                a = b = None
                if x["k"] == "decl":
                    got += [(x, v["i"]) for v in x["d"] if v.get("i") is not None and v.get("id") is not None and self.pr.under(kk, v["id"])]
                if x["k"] == "bin" and x["op"] == "=":
                    a, b = x["a"], x["b"]
                elif x["k"] == "call" and x.get("op") == "=" and len(x["a"]) == 2:
                    a, b = x["a"]
                if a is not None and (self.pr.key(a, {}) == kk or self.pr.under(kk, self.pr.key(a, {}))):
                    got.append((x, b))
        if not got:
            return False
        for s in self.streams():
            if all(any(y["k"] in ("var", "mem") and self.pr.key(y, {}) == s for y in walk(b)) for _, b in got) and self.consumes(s, False):
                return True
        base = kk
        while base[0] == "f" and base[1] != ("this",):
            base = base[1]
        for w in sorted(self.wr, key=str):
            if w == kk or w == base:
                continue
            ends = self.run(1, {w: (0, None, None, False)})
            self.tried.append(w)
            if ends is not None and all(x.get(w, TOP)[0] == 1 and (x.get(base, TOP)[3] or x.get(kk, TOP)[3]) for x in ends):
                return True
        return False


def steps(prog, f):
    """Does operator++ of an iterator move one of its members on, on every path?"""
    names, todo = [], [f]
    for g in todo:
        for x in fn_nodes(g):
            if x.get("k") == "mem" and uncast(x["b"]) is not None and uncast(x["b"])["k"] == "this" and x["n"] not in names:
                names.append(x["n"])
            elif x.get("k") == "call" and len(todo) < 20:
                todo += [h for h in prog.targets(x) if h not in todo]
    for m in names:
        key = ("f", ("this",), m)
        p = Progress(prog, 1)
        o = p.seq([f["body"]], [{key: (0, None, None, False)}])
        ends = o.n + [x for _, _, x in o.r]
        if ends and all(x.get(key, TOP)[0] == 1 for x in ends):
            return True
        # or hands the step to another operator++ of the same object
    for x in fn_nodes(f):
        if x.get("k") == "call" and x.get("op") == "++" and x["a"] and not (x.get("fu") == f["u"]):
            u = uncast(x["a"][0])
            if u["k"] == "un" and u["op"] == "*" and uncast(u["e"])["k"] == "this":
                return True
    return False


def ours(f):
    p = f["l"][0]
    return ("scribbu/" in p or "/src/" in p or p.startswith("src/")) and not p.split("/")[-1].startswith("tbt-lexer") \
        and not p.split("/")[-1].startswith("tbt-parser") and "location.hh" not in p


def check(prog, rep):
    rep.rule("progress", "every path from the head of a loop back to it strictly advances a quantity that the loop's condition bounds: a counter or cursor "
             "towards an unchanged bound, the position of an input the condition tests, or the size of a retried buffer", 20)
    rep.rule("range", "a container is not lengthened while a range-based loop walks it", 3)
    rep.assumptions += ["additions to cursors and sizes do not wrap", "input streams are finite and reading past their end fails",
                        "a search for an element ends because the element is there (indices are C05's and C06's concern)"]
    rep.rule("iterator", "stepping one of the library's own iterators moves it on, on every path", 1)
    kinds = {}
    for f in prog.fns:
        if f.get("body") is not None and ours(f) and f.get("cls") and f["n"].endswith("::operator++") and not f.get("dep"):
            if steps(prog, f):
                rep.ok("iterator", (f["n"], len(f["ps"])))
            else:
                rep.bad("iterator", f["cls"].split("::")[-1] + "/%d" % len(f["ps"]), f["body"], "%s can return without having moved the iterator" % f["n"])
    for f in prog.fns:
        if f.get("body") is None or f.get("dep") or not ours(f):
            continue
        for s in fn_nodes(f):
            k = s.get("k")
            if k in ("while", "do", "for"):
                if s.get("c") is not None and const(uncast(s["c"])) == 0:
                    continue
                lp = Loop(prog, f, s)
                why = lp.settle()
                if why:
                    kinds[why] = kinds.get(why, 0) + 1
                    rep.ok("progress", (lp.name(), where(s)))
                else:
                    rep.bad("progress", lp.name(), s, "an iteration of the loop on `%s' in %s can return to its start having made no progress toward ending it" %
                            (show(s.get("c")) if s.get("c") is not None else "true", f["n"]))
            elif k == "rfor":
                pr = Progress(prog, 1)
                kk = pr.key(s["r"], {})
                bad = None
                if kk is not None:
                    for x in walk(s["s"]):
                        if x["k"] == "call" and last(x) in GROW and x.get("obj") is not None and pr.key(x["obj"], {}) == kk:
                            bad = x
                if bad is not None:
                    rep.bad("range", f["n"].split("::")[-1] + "/" + show(s["r"]), bad, "the loop over %s in %s adds to it" % (show(s["r"]), f["n"]))
                else:
                    rep.ok("range", (f["n"], where(s)))
    rep.extra["arguments"] = kinds
