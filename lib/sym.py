"""Value numbering on top of Flow.

A state is (env, facts, ext): env maps variables and members of *this to terms
(hashable tuples standing for the value, in terms of parameters, constants and
the call sites that produced them); facts is the set of conditions known on the
path, as (term, truth); ext belongs to the analysis.  At a loop every variable
the loop assigns becomes an opaque value of that loop, so terms stay finite.
"""

from flow import Flow, N, THR, ANY
from program import const, walk, uncast, where

COMPARE = {"==", "!=", "<", ">", "<=", ">="}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}

# library calls without side effects whose value depends on operands only
PURE = {"std::filesystem::path::native", "std::filesystem::path::string", "std::filesystem::path::c_str",
        "std::make_pair", "std::tie", "std::distance", "std::move", "std::forward", "std::make_tuple", "std::get", "std::min", "std::max",
        "std::filesystem::exists", "std::unique_ptr::get", "std::shared_ptr::get", "std::__shared_ptr::get"}


EMPTY_PATH = ("new", "std::filesystem::path")


class State:
    __slots__ = ("d", "facts", "ext", "_h")

    def __init__(self, env=(), facts=frozenset(), ext=None):
        self.d = env if isinstance(env, dict) else dict(env)
        self.facts = facts
        self.ext = ext
        self._h = hash((frozenset(self.d.items()), self.facts, self.ext))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self._h == o._h and self.d == o.d and self.facts == o.facts and self.ext == o.ext

    @property
    def env(self):
        return self.d.items()

    def get(self, k, d=None):
        return self.d.get(k, d)

    def set(self, k, v):
        if v is not None and self.d.get(k) == v:
            return self
        e = dict(self.d)
        if v is not None:
            e[k] = v
        else:
            e.pop(k, None)
        return State(e, self.facts, self.ext)

    def drop(self, ks):
        if not any(k in self.d for k in ks):
            return self
        return State({a: b for a, b in self.d.items() if a not in ks}, self.facts, self.ext)

    def fact(self, t, truth):
        return State(self.d, self.facts | {(t, truth)}, self.ext)

    def known(self, t):
        if (t, True) in self.facts:
            return True
        if (t, False) in self.facts:
            return False
        return None

    def with_ext(self, x):
        return State(self.d, self.facts, x)


class SymFlow(Flow):
    track_members = True

    def start(self, f, ext=None):
        env = set()
        for p in f["ps"]:
            env.add((p["id"], ("parm", p["n"])))
        return State(env, frozenset(), ext)

    # -- terms ---------------------------------------------------------------
    def key(self, e):
        """Environment key of an lvalue, if it is tracked."""
        e = uncast(e)
        if e is None:
            return None
        if e["k"] == "var":
            if e.get("g"):
                return ("g", e["q"])
            return e["id"]
        if e["k"] == "mem":
            b = uncast(e["b"])
            if b["k"] == "this":
                return ("this", e["n"])
            kb = self.key(b)
            if kb is not None:
                return (kb, e["n"])
        if e["k"] == "un" and e["op"] == "*" and uncast(e["e"])["k"] == "this":
            return ("this", "*")
        return None

    def term(self, e, st):
        if e is None:
            return ("void",)
        c = const(e)
        if c is not None:
            return ("c", c)
        k = e["k"]
        if k == "cast":
            return self.term(e["e"], st)
        if k == "str":
            return ("s", e["v"])
        if k == "var":
            key = self.key(e)
            t = st.get(key)
            if t is not None:
                return t
            if e.get("g"):
                v = self.global_const(e)
                if v is not None:
                    return ("c", v)
            return ("v",) + (key if isinstance(key, tuple) else (key,))
        if k == "this":
            return ("this",)
        if k == "null":
            return ("c", 0)
        if k == "mem":
            key = self.key(e)
            if key is not None:
                t = st.get(key)
                if t is not None:
                    return t
            return ("mem", self.term(e["b"], st), e["n"])
        if k == "fn":
            return ("fn", e["f"])
        if k == "un":
            op = e["op"]
            a = self.term(e["e"], st)
            if op == "!":
                return neg(a)
            if op in ("*", "&"):
                return (op, a) if not (isinstance(a, tuple) and a[0] == ("&" if op == "*" else "*")) else a[1]
            if op in ("++", "--"):
                return self.term(e["e"], st)   # after the effect
            if op in ("p++", "p--"):
                return ("post", where(e), e["l"][2])
            return ("un", op, a)
        if k == "bin":
            op = e["op"]
            if op in ("=",) or op.endswith("=") and op not in COMPARE:
                return self.term(e["a"], st)
            if op == ",":
                return self.term(e["b"], st)
            if op in ("&&", "||"):
                a = self.term(e["a"], st)
                v = truth_of(a, st)
                if v is not None:
                    if v == (op == "||"):
                        return ("c", int(v))
                    b = self.term(e["b"], st)
                    w = truth_of(b, st)
                    return b if w is None else ("c", int(w))
                return ("bin", op, a, self.term(e["b"], st))
            return mkbin(op, self.term(e["a"], st), self.term(e["b"], st))
        if k == "cond":
            ct = self.term(e["c"], st)
            kn = st.known(norm_cond(ct)[0])
            if kn is not None:
                t = kn == norm_cond(ct)[1]
                return self.term(e["a"] if t else e["b"], st)
            return ("ite", ct, self.term(e["a"], st), self.term(e["b"], st))
        if k == "idx":
            return ("idx", self.term(e["a"], st), self.term(e["b"], st))
        if k == "call":
            return self.call_term(e, st)
        if k == "ctor":
            if len(e["a"]) >= 1 and (e.get("copy") or e.get("move")):
                return self.term(e["a"][0], st)
            return ("new", e["cls"]) + tuple(self.term(a, st) for a in e["a"])
        if k == "new":
            return ("alloc", where(e), e["l"][2])
        if k == "init":
            return ("init",) + tuple(self.term(a, st) for a in e["a"])
        if k == "sizeof":
            return ("sizeof", e["of"].s)
        if k == "zero":
            return ("c", 0)
        if k == "float":
            return ("f", e["v"])
        if k == "lambda":
            return ("lambda", where(e), e["l"][2])
        return ("?", where(e), e.get("l", (0, 0, 0))[2])

    def global_const(self, e):
        """Value of a constant global integer."""
        for v in self.prog.gvars.get(e.get("q"), ()):
            if v.get("t") is not None and v["t"].cst and v["t"].k in ("int", "bool", "uint", "enum", "char") and v.get("i") is not None:
                return const(uncast(v["i"]))
        return None

    def is_pure(self, e):
        return e.get("const") or e.get("f") in PURE

    def call_term(self, e, st):
        r = st.get(("res", id(e)))
        if r is not None:
            return r
        f = e.get("f") or "?"
        op = e.get("op")
        if op:
            a = [self.term(x, st) for x in e["a"]]
            if op in ("*", "->") and len(a) == 1:
                return ("*", a[0])
            if op == "!" and len(a) == 1:
                return neg(a[0])
            if op in COMPARE and len(a) == 2:
                return mkbin(op, a[0], a[1])
            if op == "=":
                return a[0]
            if op == "[]":
                return ("idx", a[0], a[1])
            if op in ("+", "-", "/", "|", "&") and len(a) == 2:
                return mkbin(op, a[0], a[1])
            if op == "()" or op in ("<<", ">>"):
                return ("at", where(e), e["l"][2], op)
            return ("op", op) + tuple(a)
        o = self.term(e["obj"], st) if e.get("obj") is not None else None
        if f == "std::filesystem::path::empty" and o == EMPTY_PATH:
            return ("c", 1)
        if e.get("conv"):
            return ("conv", f.split("::")[-1], o)
        if self.is_pure(e):
            return ("call", f, o) + tuple(self.term(x, st) for x in e["a"])
        return ("at", where(e), e["l"][2], f)

    # -- effects ---------------------------------------------------------------
    def assign(self, lhs, t, st):
        k = self.key(lhs)
        if k is None:
            return st
        # dropping what was known through the old value of the variable
        if isinstance(k, tuple) and k and k[0] == "this" and not self.track_members:
            return st
        pre = [a for a, _ in st.env if isinstance(a, tuple) and len(a) == 2 and a[0] == k]
        return st.drop(set(pre) | {k}).set(k, t)

    def node(self, n, st):
        k = n["k"]
        if k == "bin" and n["op"] == "=":
            yield (N, self.assign(n["a"], self.term(n["b"], st), st))
            return
        if k == "bin" and n["op"].endswith("=") and n["op"] not in COMPARE:
            t = mkbin(n["op"][:-1], self.term(n["a"], st), self.term(n["b"], st))
            yield (N, self.assign(n["a"], t, st))
            return
        if k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            t = mkbin(n["op"][-1], self.term(n["e"], st), ("c", 1))
            yield (N, self.assign(n["e"], t, st))
            return
        yield (N, st)

    def declare(self, v, st):
        if v.get("static"):
            return st
        gone = {a for a, _ in st.env if isinstance(a, tuple) and len(a) == 2 and a[0] == v["id"]}
        if v.get("i") is None:
            return st.drop(gone).set(v["id"], ("undef", v["n"], where(v)))
        src = uncast(v["i"])
        t = self.term(v["i"], st)
        if v.get("bind"):
            whole = t[0] == "call" and t[1] in ("std::make_tuple", "std::make_pair")
            for i, b in enumerate(v["bind"]):
                st = st.set(b["id"], t[3 + i] if whole else ("get", i, t))
            return st
        if t[0] == "new":
            if t[1] == "std::filesystem::path" and src["k"] == "ctor" and src["a"]:
                # a path built from another path's text is a copy of it
                t = self.term(src["a"][0], st)
            elif t != EMPTY_PATH:
                t = ("obj", v["n"], where(v))
        return st.drop(gone).set(v["id"], t)

    def clobber(self, n, st):
        """Variables a call may change through references and pointers become opaque."""
        if n.get("f") in PURE:
            return st
        ft = n.get("ft")
        ps = ft.ps if ft is not None else ()
        args = n["a"]
        if n.get("op") and len(ps) == len(args) - 1:
            pairs = list(zip(args[1:], ps))
            if n.get("op") in ("=", "+=", "-=", "++", "--", ">>", "|=", "&=") or not n.get("const"):
                pairs.append((args[0], None))
        else:
            pairs = list(zip(args, ps)) + [(a, None) for a in args[len(ps):]]
        for a, p in pairs:
            a0 = uncast(a)
            if a0 is None:
                continue
            tgt = None
            if p is None and n.get("op"):
                tgt = a0
            elif p is not None and p.k in ("ref", "rref") and not p.cst:
                tgt = a0
            elif a0["k"] == "un" and a0["op"] == "&" and (p is None or p.k != "ptr" or not (p.to and p.to.cst)):
                tgt = a0["e"]
            if tgt is not None:
                k = self.key(tgt)
                old = st.get(k) if k is not None else None
                vt = uncast(tgt).get("vt") or uncast(tgt).get("t")
                while vt is not None and vt.k in ("ref", "rref"):
                    vt = vt.to
                scalar = vt is not None and vt.k in ("int", "uint", "bool", "enum", "float", "ptr")
                if old is not None and root_obj(old) and not scalar:
                    st = self.forget_facts(old, st)      # same object, new value
                elif old is not None:
                    st = self.assign(tgt, ("at", where(n), n["l"][2], "out"), st)
        return st

    @staticmethod
    def forget_facts(t, st):
        keep = frozenset(x for x in st.facts if not mentions(x[0], t))
        return State(st.d, keep, st.ext) if len(keep) != len(st.facts) else st

    def lambda_arg(self, n):
        for a in n["a"]:
            a = uncast(a)
            if a is not None and a["k"] == "lambda":
                return a
        return None

    def apply_lambda(self, n, lam, st):
        """A library algorithm runs the lambda any number of times."""
        seen, work, thr = set(), {st}, set()
        fn = lam["fn"]
        while work:
            self._check(seen)
            x = self.loop_head(fn, work.pop())
            if x in seen:
                continue
            seen.add(x)
            y = self.iter_begin(n, x)
            for p in fn["ps"]:
                y = y.set(p["id"], ("elem", where(n), p["n"]))
            o = self.stmts([fn["body"]], {y})
            thr |= o.t
            for z in o.n | o.r:
                work.add(self._cutres(self.iter_end(n, z.drop({p["id"] for p in fn["ps"]} | {("ret", len(self.stack))}))))
        return seen, thr

    def iter_begin(self, n, st):
        return st

    def iter_end(self, n, st):
        return st

    def default_call(self, n, st):
        if n["k"] == "call" and (n.get("f") or "").startswith("std::") and not n.get("op"):
            lam = self.lambda_arg(n)
            if lam is not None:
                ns, ts = self.apply_lambda(n, lam, st)
                for x in ns:
                    yield (N, self.after_loop(n, x))
                for x, e in ts:
                    yield (THR, x, e)
                return
        # std::tie(a, b) = f()
        if n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
            l = uncast(n["a"][0])
            if l["k"] == "call" and l.get("f") == "std::tie":
                src = self.term(n["a"][1], st)
                for i, x in enumerate(l["a"]):
                    whole = src[0] == "call" and src[1] in ("std::make_tuple", "std::make_pair")
                    st = self.assign(x, src[3 + i] if whole else ("get", i, src), st)
                yield (N, st)
                return
            yield (N, self.assign(n["a"][0], self.term(n["a"][1], st), st))
            if self.may_throw(n):
                yield (THR, st, ANY)
            return
        for o in super().default_call(n, st):
            if o[0] == N:
                yield (N, o[1])
            else:
                yield o

    def havoc(self, n, st):
        return self.clobber(n, st)

    def bind(self, n, f, st):
        env = {}
        args = n["a"]
        if n.get("op") and f.get("cls") and len(args) == len(f["ps"]) + 1:
            args = args[1:]
        for p, a in zip(f["ps"], args):
            env[p["id"]] = self.term(a, st)
        st = st.drop(set(env))
        for k, v in env.items():
            st = st.set(k, v)
        # members of *this of another object are not those of ours
        o = n.get("obj")
        if o is not None and uncast(o)["k"] != "this" or n["k"] == "ctor":
            saved = frozenset((a, b) for a, b in st.env if isinstance(a, tuple) and a and a[0] == "this")
            if saved:
                st = st.drop({a for a, _ in saved})
                st = st.set(("saved", len(self.stack)), saved)
        return st

    def ret(self, n, st):
        t = self.term(n["e"], st) if n.get("e") is not None else ("void",)
        return st.set(("ret", len(self.stack)), t)

    def unbind(self, n, f, st):
        lvl = len(self.stack) + 1
        t = st.get(("ret", lvl))
        sv = st.get(("saved", len(self.stack)))
        dead = {p["id"] for p in f["ps"]} | {("ret", lvl)}
        if sv is not None:
            dead |= {a for a, _ in st.env if isinstance(a, tuple) and a and a[0] == "this"}
            dead.add(("saved", len(self.stack)))
        # locals of the callee
        ids = f.get("_locals")
        if ids is None:
            ids = f["_locals"] = frozenset(v["id"] for x in walk(f["body"]) if x.get("k") == "decl" for v in x["d"]) if f.get("body") else frozenset()
        dead |= {a for a, _ in st.env if a in ids or (isinstance(a, tuple) and len(a) == 2 and a[0] in ids)}
        st = st.drop(dead)
        if sv is not None:
            for a, b in sv:
                st = st.set(a, b)
        if t is not None:
            st = st.set(("res", id(n)), t)
        return st

    # -- conditions ----------------------------------------------------------
    def assume(self, c, st, truth):
        k = const(c)
        if k is not None:
            return st if bool(k) == truth else None
        t, pos = norm_cond(self.term(c, st))
        if t[0] == "c":
            return st if (bool(t[1]) == pos) == truth else None
        want = truth == pos
        kn = st.known(t)
        if kn is not None:
            return st if kn == want else None
        return st.fact(t, want)

    # -- loops ----------------------------------------------------------------
    def changed(self, s):
        """What one turn of a loop (or of a lambda run repeatedly) assigns, and its call sites."""
        r = s.get("_assigned")
        if r is None:
            keys, at = set(), set()
            for n in walk(s):
                k = n.get("k")
                if k in ("call", "ctor", "un", "lambda", "new"):
                    at.add((where(n), n["l"][2]))
                if k == "bin" and n["op"].endswith("=") and n["op"] not in COMPARE:
                    keys.add(self.key(n["a"]))
                elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
                    keys.add(self.key(n["e"]))
                elif k == "call" and n.get("op") in ("=", "+=", "-=", "++", "--", ">>", "|=", "&="):
                    keys.add(self.key(n["a"][0]))
                    l = uncast(n["a"][0])
                    if l and l["k"] == "call" and l.get("f") == "std::tie":
                        keys |= {self.key(x) for x in l["a"]}
            keys.discard(None)
            r = s["_assigned"] = (frozenset(keys), frozenset(at))
        return r

    def loop_head(self, s, st):
        """Every turn starts from the same opaque values."""
        keys, at = self.changed(s)
        for k in keys:
            if not (isinstance(k, tuple) and k and k[0] in ("g",)):
                st = st.drop({a for a in st.d if isinstance(a, tuple) and len(a) == 2 and a[0] == k})
            st = st.set(k, ("loop", where(s), str(k)))
        w = where(s)

        def stale(t):
            if not isinstance(t, tuple) or not t:
                return False
            if t[0] == "loop" and t[1] == w:
                return True
            if t[0] in ("at", "post", "alloc", "lambda") and (t[1], t[2]) in at:
                return True
            return any(stale(x) for x in t if isinstance(x, tuple))
        keep = frozenset(x for x in st.facts if not stale(x[0]))
        if len(keep) != len(st.facts):
            st = State(st.d, keep, st.ext)
        return st

    def after_loop(self, s, st):
        return st

    def _leave(self, vs, o):
        r = Flow._leave(self, vs, o)
        ids = {v["id"] for v in vs if not v.get("static")}

        def cut(st):
            return st.drop({a for a, _ in st.env if a in ids or (isinstance(a, tuple) and len(a) == 2 and a[0] in ids)})
        r.n = {cut(x) for x in r.n}
        r.b = {cut(x) for x in r.b}
        r.c = {cut(x) for x in r.c}
        r.r = {cut(x) for x in r.r}
        r.t = {(cut(x), e) for x, e in r.t}
        return r

    def stmt(self, s, st):
        # results of calls are only needed within their full expression
        o = Flow.stmt(self, s, st)
        if s["k"] in ("decl", "call", "bin", "un", "ctor", "cast", "if", "while", "for", "do", "rfor", "switch", "return"):
            o.n = {self._cutres(x) for x in o.n}
        return o

    @staticmethod
    def _cutres(st):
        d = {a for a, _ in st.env if isinstance(a, tuple) and a and a[0] == "res"}
        return st.drop(d) if d else st


def neg(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "bin" and t[1] in NEG:
        return mkbin(NEG[t[1]], t[2], t[3])
    if t[0] == "c":
        return ("c", 0 if t[1] else 1)
    return ("not", t)


def mkbin(op, a, b):
    if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
        x, y = a[1], b[1]
        try:
            v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "|": lambda: x | y, "&": lambda: x & y,
                 "<<": lambda: x << y, ">>": lambda: x >> y, "==": lambda: int(x == y), "!=": lambda: int(x != y),
                 "<": lambda: int(x < y), ">": lambda: int(x > y), "<=": lambda: int(x <= y),
                 ">=": lambda: int(x >= y), "^": lambda: x ^ y}.get(op)
            if v:
                return ("c", v())
        except (ValueError, OverflowError):
            pass
    if op in ("==", "!=", "+", "*", "|", "&", "^"):
        if repr(b) < repr(a):
            a, b = b, a
    elif op in (">", ">="):
        op, a, b = SWAP[op], b, a
    if op in ("+", "|") and a == ("c", 0):
        return b
    if op in ("+", "-", "|") and b == ("c", 0):
        return a
    return ("bin", op, a, b)


def norm_cond(t):
    """(atom, polarity): so that a condition and its negation share an atom."""
    pos = True
    while t[0] == "not":
        t, pos = t[1], not pos
    if t[0] == "bin" and t[1] == "!=":
        return (("bin", "==") + t[2:], not pos)
    if t[0] == "bin" and t[1] == "<=":        # a <= b  ==  !(b < a)
        return (("bin", "<", t[3], t[2]), not pos)
    if t[0] == "conv" and t[1] == "operator bool":
        return (("truth", t[2]), pos)
    if t[0] == "call" and t[1].endswith("::fail") and len(t) == 3:
        return (("truth", t[2]), not pos)
    return (t, pos)


def truth_of(t, st):
    """Truth of a value on this path, if it is known."""
    a, pos = norm_cond(t)
    if a[0] == "c":
        return bool(a[1]) == pos
    v = st.known(a)
    return None if v is None else v == pos


def root_obj(t):
    return isinstance(t, tuple) and t and t[0] in ("obj", "parm")


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(mentions(y, x) for y in t)
    return False


class ConstFlow(SymFlow):
    """SymFlow that keeps constants only: no facts, no symbolic values."""

    def assume(self, c, st, truth):
        t, pos = norm_cond(self.term(c, st))
        if t[0] == "c":
            return st if (bool(t[1]) == pos) == truth else None
        return st

    def _cut(self, st):
        d = {k for k, v in st.d.items() if v[0] != "c" and not (isinstance(k, tuple) and k and k[0] in ("ret", "res", "saved"))}
        return st.drop(d) if d else st

    def assign(self, lhs, t, st):
        return self._cut(SymFlow.assign(self, lhs, t, st))

    def declare(self, v, st):
        return self._cut(SymFlow.declare(self, v, st))

    def start(self, f, ext=None):
        return State({}, frozenset(), ext)

    def bind(self, n, f, st):
        return self._cut(SymFlow.bind(self, n, f, st))

    def loop_head(self, s, st):
        return self._cut(SymFlow.loop_head(self, s, st))

    def ret(self, n, st):
        st = SymFlow.ret(self, n, st)
        k = ("ret", len(self.stack))
        t = st.get(k)
        if t[0] not in ("c", "ite"):
            st = st.set(k, ("?",))
        return st
