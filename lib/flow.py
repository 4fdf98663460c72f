"""Path-sensitive dataflow over the structured syntax tree.

An analysis subclasses Flow and gives transfer functions over hashable states.
Every statement maps a set of states to sets of states on five channels:
normal completion, break, continue, return and throw.  Calls that may throw put
the state on the throw channel, so every exceptional exit is covered; handlers
take what they can catch.  Loops run to a fixpoint (states are finite).
Destructors of local variables run on every way out of their scope.
"""

from facts import AnalysisBroken
from program import where, uncast, const

N, BRK, CNT, RET, THR = "n", "b", "c", "r", "t"
ANY = "?"          # an exception of unknown type


class Out:
    __slots__ = ("n", "b", "c", "r", "t")

    def __init__(self, n=()):
        self.n, self.b, self.c, self.r, self.t = set(n), set(), set(), set(), set()

    def take(self, o, chans="bcrt"):
        for ch in chans:
            getattr(self, ch).update(getattr(o, ch))


class Flow:
    max_states = 4000
    max_depth = 12

    def __init__(self, prog):
        self.prog = prog
        self.stack = []
        self.memo = {}
        self.nodes_seen = 0

    # -- to be refined by analyses --------------------------------------
    def call(self, n, st):
        """Effect of a call or constructor after its operands: yields (chan, state[, exc])."""
        yield from self.default_call(n, st)

    def default_call(self, n, st):
        tg = self.inline_targets(n)
        if tg and len(self.stack) < self.max_depth:
            for f in tg:
                if f["u"] in [x["u"] for x in self.stack]:
                    yield (N, self.havoc(n, st))
                    if self.may_throw(n):
                        yield (THR, st, ANY)
                    continue
                yield from self.inline(n, f, st)
            return
        yield (N, self.havoc(n, st))
        if self.may_throw(n):
            yield (THR, st, ANY)

    def havoc(self, n, st):
        return st

    def inline_targets(self, n):
        return []

    def bind(self, n, f, st):
        return st

    def unbind(self, n, f, st):
        return st

    def may_throw(self, n):
        if n.get("nt") or n.get("extc"):
            return False
        if n["k"] == "ctor" and n.get("triv"):
            return False
        return True

    def node(self, n, st):
        """Effect of a non-call expression after its operands."""
        yield (N, st)

    def declare(self, v, st):
        """A local variable has just been initialised."""
        return st

    def destroy(self, v, st):
        """A local variable leaves scope."""
        return st

    def assume(self, c, st, truth):
        """Refine by an atomic condition; None if the branch is impossible."""
        k = const_bool(c)
        if k is not None and k != truth:
            return None
        return st

    def ret(self, n, st):
        return st

    def enter_handler(self, h, st):
        return st

    # -- engine -----------------------------------------------------------
    def run(self, f, st):
        """Run a whole function (initialisers and body); Out with n/r merged into r."""
        self.stack.append(f)
        try:
            o = Out([st])
            for i in f.get("inits", ()):
                if i.get("e") is None:
                    continue
                nxt = set()
                for s in o.n:
                    ns, ts = self.expr(i["e"], s)
                    nxt |= {self.after_init(f, i, x) for x in ns}
                    o.t |= ts
                o.n = nxt
            if f.get("body"):
                p = self.stmts([f["body"]], o.n)
                p.t |= o.t
                o = p
            res = Out()
            res.r = o.n | o.r
            res.t = o.t
            return res
        finally:
            self.stack.pop()

    def after_init(self, f, i, st):
        return st

    def inline(self, n, f, st):
        st0 = self.bind(n, f, st)
        key = (f["u"], st0, len(self.stack) >= self.max_depth)
        o = self.memo.get(key)
        if o is None:
            o = self.memo[key] = self.run(f, st0)
        for s in o.r:
            yield (N, self.unbind(n, f, s))
        for s, e in o.t:
            yield (THR, self.unbind(n, f, s), e)

    def _check(self, s):
        if len(s) > self.max_states:
            raise AnalysisBroken("too many states in %s" % (self.stack[-1]["n"] if self.stack else "?"))

    def stmts(self, lst, states):
        o = Out(states)
        for s in lst:
            if s is None:
                continue
            if not o.n:
                break
            p = self.stmt_set(s, o.n)
            o.n = p.n
            o.take(p)
        return o

    def stmt_set(self, s, states):
        self._check(states)
        o = Out()
        for st in states:
            p = self.stmt(s, st)
            o.n |= p.n
            o.take(p)
        return o

    def expr_out(self, e, st):
        o = Out()
        ns, ts = self.expr(e, st)
        o.n, o.t = ns, ts
        return o

    def stmt(self, s, st):
        self.nodes_seen += 1
        k = s["k"]
        if k == "block":
            o = self.stmts(s["s"], {st})
            vs = [d for x in s["s"] if x and x["k"] == "decl" for d in x["d"]]
            if vs:
                o = self._leave(vs, o)
            return o
        if k == "decl":
            o = Out([st])
            for v in s["d"]:
                nxt = set()
                for x in o.n:
                    if v.get("i") is not None and not v.get("static"):
                        ns, ts = self.expr(v["i"], x)
                        o.t |= ts
                    else:
                        ns = {x}
                    nxt |= {self.declare(v, y) for y in ns}
                o.n = nxt
            return o
        if k == "if":
            o = Out([st])
            vs = []
            if s.get("init"):
                o = self.stmt(s["init"], st)
                if s["init"]["k"] == "decl":
                    vs += s["init"]["d"]
            if s.get("cv"):
                p = Out()
                for x in o.n:
                    q = self.stmt({"k": "decl", "d": [s["cv"]]}, x)
                    p.n |= q.n
                    p.t |= q.t
                p.take(o)
                o = p
                vs.append(s["cv"])
            res = Out()
            res.take(o)
            for x in o.n:
                T, F, ts = self.cond(s["c"], x)
                res.t |= ts
                if T:
                    p = self.stmts([s["th"]], T)
                    res.n |= p.n
                    res.take(p)
                if F:
                    if s.get("el"):
                        p = self.stmts([s["el"]], F)
                        res.n |= p.n
                        res.take(p)
                    else:
                        res.n |= F
            return self._leave(vs, res) if vs else res
        if k in ("while", "for", "do", "rfor"):
            return self.loop(s, st)
        if k == "switch":
            return self.switch(s, st)
        if k in ("case", "default", "label"):
            return self.stmts([s["s"]], {st})
        if k == "return":
            o = Out()
            if s.get("e") is not None:
                ns, ts = self.expr(s["e"], st)
                o.t |= ts
            else:
                ns = {st}
            o.r |= {self.ret(s, x) for x in ns}
            return o
        if k == "break":
            o = Out()
            o.b.add(st)
            return o
        if k == "continue":
            o = Out()
            o.c.add(st)
            return o
        if k == "null_s":
            return Out([st])
        if k == "try":
            return self.try_(s, st)
        if k == "goto":
            raise AnalysisBroken("goto at %s" % where(s))
        if k == "other_s":
            raise AnalysisBroken("statement %s at %s" % (s.get("cls"), where(s)))
        return self.expr_out(s, st)

    def _leave(self, vs, o):
        vs = [v for v in vs if not v.get("static")]
        r = Out()

        def kill(x):
            for v in reversed(vs):
                x = self.destroy(v, x)
            return x
        r.n = {kill(x) for x in o.n}
        r.b = {kill(x) for x in o.b}
        r.c = {kill(x) for x in o.c}
        r.r = {kill(x) for x in o.r}
        r.t = {(kill(x), e) for x, e in o.t}
        return r

    def loop(self, s, st):
        k = s["k"]
        res = Out()
        pre = Out([st])
        vs = []
        if k == "for" and s.get("init"):
            pre = self.stmt(s["init"], st)
            if s["init"]["k"] == "decl":
                vs = s["init"]["d"]
        if k == "rfor":
            ns, ts = self.expr(s["r"], st)
            pre = Out(ns)
            pre.t = ts
        res.take(pre)
        seen = set()
        work = set(pre.n)
        first_do = k == "do"
        if first_do:
            body = self.stmts([s["s"]], {self.loop_head(s, x) for x in work})
            res.take(body, "rt")
            res.n |= body.b
            work = body.n | body.c
        while work:
            self._check(seen)
            x = self.loop_head(s, work.pop())
            if x in seen:
                continue
            seen.add(x)
            if k == "rfor":
                F = {x}
                T = {self.range_step(s, x)}
                ts = {(x, ANY)} if self.range_throws(s) else set()
            elif s.get("c") is None:
                T, F, ts = {x}, set(), set()
            else:
                if s.get("cv"):
                    q = self.stmt({"k": "decl", "d": [s["cv"]]}, x)
                    ts = set(q.t)
                    T, F = set(), set()
                    for y in q.n:
                        a, b, c = self.cond(s["c"], y)
                        T |= a
                        F |= b
                        ts |= c
                else:
                    T, F, ts = self.cond(s["c"], x)
            res.t |= ts
            res.n |= F
            if T:
                b = self.stmts([s["s"]], {self.iter_begin(s, y) for y in T})
                res.take(b, "rt")
                res.n |= b.b
                nxt = {self.iter_end(s, y) for y in b.n | b.c}
                if k == "for" and s.get("inc"):
                    q = set()
                    for y in nxt:
                        ns, ts = self.expr(s["inc"], y)
                        q |= ns
                        res.t |= ts
                    nxt = q
                work |= nxt
        res.n = {self.after_loop(s, y) for y in res.n}
        return self._leave(vs, res) if vs else res

    def loop_head(self, s, st):
        """Make the states at the head of a loop finitely many."""
        return st

    def iter_begin(self, s, st):
        return st

    def iter_end(self, s, st):
        return st

    def after_loop(self, s, st):
        return st

    def range_step(self, s, st):
        return self.declare(s["v"], st)

    def range_throws(self, s):
        return False

    def switch(self, s, st):
        res = Out()
        ns, ts = self.expr(s["c"], st)
        res.t |= ts
        body = s["s"]["s"] if s["s"]["k"] == "block" else [s["s"]]
        # flatten nested case labels
        items = []
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["s"]
            items.append((labels, x))
        has_default = any(l["k"] == "default" for ls, _ in items for l in ls)
        for x in ns:
            live = set()
            for labels, b in items:
                for l in labels:
                    y = self.case_enter(s, l, x, items)
                    if y is not None:
                        live.add(y)
                if live and b is not None:
                    p = self.stmts([b], live)
                    live = p.n
                    res.n |= p.b
                    res.take(p, "crt")
            res.n |= live
            if not has_default:
                y = self.case_none(s, x, items)
                if y is not None:
                    res.n.add(y)
        vs = [d for _, x in items if x and x["k"] == "decl" for d in x["d"]]
        return self._leave(vs, res) if vs else res

    def case_enter(self, s, label, st, items):
        return st

    def case_none(self, s, st, items):
        # all enumerators covered?  or all values of a masked integer?
        c = uncast(s.get("c"))
        if c is not None and c["k"] == "bin" and c["op"] == "&":
            m = const(c["b"]) if const(c["b"]) is not None else const(c["a"])
            if m is not None and 0 <= m < 64:
                have = {l["c"].get("cv", l["c"].get("v")) for ls, _ in items for l in ls if l["k"] == "case"}
                if {v for v in range(m + 1) if v & m == v} <= have:
                    return None
        ct = s.get("ct")
        if ct is not None and ct.k == "enum":
            e = self.prog.enums.get(ct.rec)
            if e:
                have = {l["c"].get("cv", l["c"].get("v")) for ls, _ in items for l in ls if l["k"] == "case"}
                if {x["v"] for x in e["e"]} <= have:
                    return None
        return st

    def try_(self, s, st):
        b = self.stmts([s["s"]], {st})
        res = Out()
        res.n |= b.n
        res.take(b, "bcr")
        for x, e in b.t:
            caught_all = False
            for h in s["h"]:
                m = self.matches(h, e)
                if not m:
                    continue
                p = self.stmts([h["s"]], {self.enter_handler(h, x)})
                res.n |= p.n
                res.take(p, "bcr")
                for y, e2 in p.t:
                    res.t.add((y, e if e2 == "rethrow" else e2))
                if m == "all":
                    caught_all = True
                    break
            if not caught_all:
                res.t.add((x, e))
        return res

    def matches(self, h, e):
        """'all' if the handler certainly takes e, 'may', or None."""
        if "t" not in h or h["t"] is None:
            return "all"
        t = h["t"].deref()
        hs = t.rec or t.s
        if e == ANY:
            return "may"
        T = self.prog.types.get(e)
        if T is None:
            return "may"
        if T.s == t.s or (T.rec and (T.rec == t.rec or t.rec in T.bases)):
            return "all"
        return None

    # expression evaluation: returns (normal states, {(state, exc)})
    def expr(self, e, st):
        if e is None:
            return {st}, set()
        self.nodes_seen += 1
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            T, F, ts = self.cond(e, st)
            return T | F, ts
        if k == "un" and e["op"] == "!":
            T, F, ts = self.cond(e, st)
            return T | F, ts
        if k == "cond":
            T, F, ts = self.cond(e["c"], st)
            res = set()
            for x in T:
                a, b = self.expr(e["a"], x)
                res |= a
                ts |= b
            for x in F:
                a, b = self.expr(e["b"], x)
                res |= a
                ts |= b
            return self._apply(e, res, ts)
        if k == "lambda":
            return self._apply(e, {st}, set())
        if k == "stmtexpr":
            o = self.stmt(e["s"], st)
            return o.n, o.t
        if k == "sizeof" or k == "typeid":
            return {st}, set()
        kids = []
        if k == "bin" and e["op"] == "=":
            kids = [e["b"], e["a"]]
        elif k == "call":
            if e.get("fe"):
                kids.append(e["fe"])
            if e.get("obj"):
                kids.append(e["obj"])
            kids += e["a"]
        elif k == "ctor" or k == "init":
            kids = e["a"]
        elif k in ("bin", "idx"):
            kids = [e["a"], e["b"]]
        elif k in ("un", "cast", "throw", "delete"):
            kids = [e.get("e")]
        elif k == "new":
            kids = [e.get("n"), e.get("i")]
        elif k == "mem" or k == "fn":
            kids = [e.get("b")]
        elif k == "other":
            kids = e.get("ch", [])
        cur, ts = {st}, set()
        for c in kids:
            if c is None:
                continue
            nxt = set()
            for x in cur:
                a, b = self.expr(c, x)
                nxt |= a
                ts |= b
            cur = nxt
        return self._apply(e, cur, ts)

    def _apply(self, e, states, ts):
        res = set()
        k = e["k"]
        for x in states:
            if k == "throw":
                t = e.get("tt")
                if t is None:
                    ts.add((x, "rethrow"))
                else:
                    y = self.throwing(e, x)
                    ts.add((y, t.s))
                continue
            if k in ("call", "ctor"):
                outs = self.call(e, x)
            else:
                outs = self.node(e, x)
            for o in outs:
                if o[0] == THR:
                    ts.add((o[1], o[2] if len(o) > 2 else ANY))
                else:
                    res.add(o[1])
        if k == "call" and e.get("noret"):
            res = set()
        return res, ts

    def throwing(self, e, st):
        return st

    def cond(self, c, st):
        """(states where true, states where false, throws)."""
        k = c["k"]
        if k == "bin" and c["op"] == "&&":
            T1, F1, ts = self.cond(c["a"], st)
            T, F = set(), set(F1)
            for x in T1:
                a, b, t = self.cond(c["b"], x)
                T |= a
                F |= b
                ts |= t
            return T, F, ts
        if k == "bin" and c["op"] == "||":
            T1, F1, ts = self.cond(c["a"], st)
            T, F = set(T1), set()
            for x in F1:
                a, b, t = self.cond(c["b"], x)
                T |= a
                F |= b
                ts |= t
            return T, F, ts
        if k == "un" and c["op"] == "!":
            T, F, ts = self.cond(c["e"], st)
            return F, T, ts
        if k == "cast" and c.get("imp") and c["ck"] in ("IntegralToBoolean",):
            return self.cond(c["e"], st)
        ns, ts = self.expr(c, st)
        T, F = set(), set()
        for x in ns:
            a = self.assume(c, x, True)
            b = self.assume(c, x, False)
            if a is not None:
                T.add(a)
            if b is not None:
                F.add(b)
        return T, F, ts


def const_bool(c):
    if c["k"] in ("bool", "int"):
        return bool(c["v"])
    if "cv" in c:
        return bool(c["cv"])
    return None
