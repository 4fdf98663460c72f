"""Abstract interpretation of small functions over symbolic values.

An environment maps variables (by id) and members of *this (by name) to values:
("i", n) a number, enumerator or truth value, ("nil",) a null pointer, TOP an
unknown value, and whatever values an analysis adds.  Conditions on unknown
values take both branches; calls into the program are analysed in place.  Every
function maps an environment to the set of ways it can end: returning a value or
throwing a type.
"""

from facts import AnalysisBroken
from program import const, uncast

TOP = ("?",)
T, F = ("i", 1), ("i", 0)


class Env(dict):
    def put(self, k, v):
        e = Env(self)
        e[k] = v
        return e

    def key(self):
        return frozenset(self.items())


def dedupe(xs):
    seen, out = set(), []
    for x in xs:
        k = tuple(y.key() if isinstance(y, Env) else y for y in x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


class Res:
    """Ways a statement ends: lists of (env,), return (value, env), throw (type, env)."""

    def __init__(self, n=()):
        self.n, self.b, self.c, self.r, self.t = [(x,) for x in n], [], [], [], []

    def take(self, o, chans="bcrt"):
        for ch in chans:
            getattr(self, ch).extend(getattr(o, ch))

    def tidy(self):
        for ch in "nbcrt":
            setattr(self, ch, dedupe(getattr(self, ch)))
            if len(getattr(self, ch)) > 600:
                raise AnalysisBroken("too many outcomes")
        return self


class Interp:
    depth_limit = 10
    unknown_rounds = 2

    def __init__(self, prog):
        self.prog = prog
        self.stack = []
        self.steps = 0

    # -- hooks --------------------------------------------------------------
    def call(self, n, obj, args, env):
        """A call the program does not define: (outs, throws) or None for the default (unknown)."""
        return None

    def inline(self, n, g):
        return True

    def member(self, e, base, env):
        """Value of a member of something other than *this."""
        return TOP

    def truth(self, v):
        if v[0] == "i":
            return v[1] != 0
        if v[0] == "nil":
            return False
        if v[0] in ("obj", "lit"):
            return True
        return None

    def compare(self, op, a, b):
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        if a[0] == "nil" and b[0] == "nil" and op in ("==", "!="):
            return op == "=="
        if "obj" in (a[0], b[0]) and "nil" in (a[0], b[0]) and op in ("==", "!="):
            return op == "!="
        return None

    def relate(self, op, a, b, env):
        """Outcomes [(truth value, env)] of a comparison that tells something about its operands, or None."""
        return None

    def read(self, e, env):
        """A variable or member was read."""
        return env

    def declared(self, v, val, env):
        return val

    # -- functions ------------------------------------------------------------
    def run(self, f, args, env=None, this=None):
        """Outcomes of calling f: (returns [(value, env)], throws [(type, env)])."""
        e = Env(env or {})
        for p, a in zip(f["ps"], args):
            e[p["id"]] = a
        self.stack.append(f["u"])
        try:
            o = Res([e])
            for i in f.get("inits", ()):
                if i.get("e") is None:
                    continue
                q = Res()
                q.t = o.t
                for (x,) in o.n:
                    outs, th = self.ev(i["e"], x)
                    q.t += th
                    for v, y in outs:
                        q.n.append((y.put(("m", i["m"]), v) if i.get("m") else y,))
                o = q
            if f.get("body") is not None:
                p = self.seq([f["body"]], o.n)
                p.t += o.t
                o = p
        finally:
            self.stack.pop()
        o.tidy()
        return [(("void",), x) for (x,) in o.n] + o.r, o.t

    def seq(self, stmts, envs):
        o = Res()
        o.n = list(envs)
        for s in stmts:
            if s is None or not o.n:
                continue
            q = Res()
            q.take(o)
            for (x,) in dedupe(o.n):
                p = self.st(s, x)
                q.n += p.n
                q.take(p)
            o = q.tidy()
        return o

    def st(self, s, env):
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisBroken("abstract interpretation does not finish")
        k = s["k"]
        if k == "block":
            return self.seq(s["s"], [(env,)])
        if k == "decl":
            o = Res([env])
            for v in s["d"]:
                q = Res()
                q.t = o.t
                for (x,) in o.n:
                    if v.get("i") is not None:
                        outs, th = self.ev(v["i"], x)
                        q.t += th
                        q.n += [(y.put(v["id"], self.declared(v, val, y)),) for val, y in outs]
                    else:
                        q.n.append((x.put(v["id"], self.declared(v, TOP, x)),))
                o = q
            return o
        if k == "if":
            o = Res([env])
            for pre in (s.get("init"), {"k": "decl", "d": [s["cv"]]} if s.get("cv") else None):
                if pre is not None:
                    o = self.seq([pre], o.n)
            q = Res()
            q.take(o)
            for (x,) in o.n:
                t, f, th = self.cond(s["c"], x)
                q.t += th
                for envs, br in ((t, s["th"]), (f, s.get("el"))):
                    if br is None:
                        q.n += [(y,) for y in envs]
                    elif envs:
                        p = self.seq([br], [(y,) for y in envs])
                        q.n += p.n
                        q.take(p)
            return q
        if k in ("while", "do", "for"):
            return self.loop(s, env)
        if k == "rfor":
            return self.rfor(s, env)
        if k == "switch":
            return self.switch(s, env)
        if k in ("case", "default", "label"):
            return self.seq([s["s"]], [(env,)])
        if k == "return":
            o = Res()
            if s.get("e") is None:
                o.r.append((("void",), env))
            else:
                outs, th = self.ev(s["e"], env)
                o.r += outs
                o.t += th
            return o
        if k in ("break", "continue"):
            o = Res()
            (o.b if k == "break" else o.c).append((env,))
            return o
        if k == "null_s":
            return Res([env])
        if k == "try":
            b = self.seq([s["s"]], [(env,)])
            o = Res()
            o.n = b.n
            o.take(b, "bcr")
            for ty, x in b.t:
                taken = False
                for h in s["h"]:
                    m = self.catches(h, ty)
                    if not m:
                        continue
                    y = x
                    p = self.seq([h["s"]], [(y,)])
                    o.n += p.n
                    o.take(p, "bcr")
                    o.t += [(ty if t2 == "rethrow" else t2, z) for t2, z in p.t]
                    if m == "all":
                        taken = True
                        break
                if not taken:
                    o.t.append((ty, x))
            return o
        if k in ("goto", "other_s"):
            raise AnalysisBroken("statement %s" % k)
        outs, th = self.ev(s, env)
        o = Res()
        o.n = [(y,) for _, y in outs]
        o.t = th
        return o

    def catches(self, h, ty):
        if h.get("t") is None:
            return "all"
        t = h["t"].deref()
        if ty == "?":
            return "may"
        name = t.rec or t.s
        if ty == name or name in self.bases(ty):
            return "all"
        return None

    def bases(self, q):
        return self.prog.bases(q)

    def loop(self, s, env):
        o = Res()
        pre = Res([env])
        if s["k"] == "for" and s.get("init"):
            pre = self.st(s["init"], env)
            o.take(pre)
        work = list(pre.n)
        rounds = unknown = 0
        skip = s["k"] == "do"
        seen = set()
        while work:
            rounds += 1
            if rounds > 300:
                raise AnalysisBroken("loop does not settle")
            body = []
            for (x,) in work:
                if skip:
                    body.append((x,))
                    continue
                if s.get("c") is None:
                    t, f, th = [x], [], []
                else:
                    pre = self.seq([{"k": "decl", "d": [s["cv"]]}], [(x,)]) if s.get("cv") else Res([x])
                    t, f, th = [], [], list(pre.t)
                    for (y,) in pre.n:
                        a, b, c = self.cond(s["c"], y)
                        t += a
                        f += b
                        th += c
                o.t += th
                o.n += [(y,) for y in f]
                if t and f:
                    unknown += 1
                    if unknown > self.unknown_rounds:
                        continue
                body += [(y,) for y in t]
            skip = False
            body = [x for x in dedupe(body) if x[0].key() not in seen]
            seen |= {x[0].key() for x in body}
            b = self.seq([s["s"]], body)
            o.take(b, "rt")
            o.n += b.b
            work = b.n + b.c
            if s["k"] == "for" and s.get("inc") is not None and work:
                q = self.seq([s["inc"]], work)
                o.t += q.t
                work = q.n
        return o.tidy()

    def elements(self, v):
        """(values of the elements in order, is the number of them certain?)."""
        if v[0] == "list":
            return list(v[1]), True
        if v[0] == "seq":
            return ([] if v[1] is None else [v[1]]), True
        return [TOP], False

    def rfor(self, s, env):
        o = Res()
        outs, th = self.ev(s["r"], env)
        o.t += th
        for v, x in outs:
            els, sure = self.elements(v)
            cur = [(x,)]
            if not sure:
                o.n.append((x,))
            for el in els:
                b = self.seq([s["s"]], [(y.put(s["v"]["id"], el),) for (y,) in cur])
                o.take(b, "rt")
                o.n += b.b
                cur = dedupe(b.n + b.c)
            o.n += cur
        return o.tidy()

    def switch(self, s, env):
        o = Res()
        outs, th = self.ev(s["c"], env)
        o.t += th
        body = s["s"]["s"] if s["s"]["k"] == "block" else [s["s"]]
        items = []
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["s"]
            items.append((labels, x))
        vals = [l["c"].get("cv", l["c"].get("v")) for ls, _ in items for l in ls if l["k"] == "case"]
        has_default = any(l["k"] == "default" for ls, _ in items for l in ls)
        for v, x in outs:
            live = []
            for labels, b in items:
                for l in labels:
                    if l["k"] == "case":
                        hit = v[0] != "i" or v[1] == l["c"].get("cv", l["c"].get("v"))
                    else:
                        hit = v[0] != "i" or v[1] not in vals
                    if hit:
                        live.append((x,))
                if live and b is not None:
                    p = self.seq([b], dedupe(live))
                    live = p.n
                    o.n += p.b
                    o.take(p, "crt")
            o.n += live
            if not has_default and (v[0] != "i" or v[1] not in vals):
                o.n.append((x,))
        return o.tidy()

    # -- conditions ------------------------------------------------------------
    def cond(self, e, env):
        u = uncast(e)
        if u["k"] == "un" and u["op"] == "!":
            t, f, th = self.cond(u["e"], env)
            return f, t, th
        if u["k"] == "bin" and u["op"] in ("&&", "||"):
            t, f, th = self.cond(u["a"], env)
            go, stop = (t, f) if u["op"] == "&&" else (f, t)
            T_, F_ = [], []
            for x in go:
                a, b, c = self.cond(u["b"], x)
                T_ += a
                F_ += b
                th = th + c
            return (T_, stop + F_, th) if u["op"] == "&&" else (stop + T_, F_, th)
        outs, th = self.ev(e, env)
        t, f = [], []
        for v, x in outs:
            b = self.truth(v)
            if b is not False:
                t.append(self.refine(u, x, True) if b is None else x)
            if b is not True:
                f.append(self.refine(u, x, False) if b is None else x)
        return [x for x in t if x is not None], [x for x in f if x is not None], th

    def refine(self, u, env, truth):
        return env

    # -- expressions -------------------------------------------------------------
    def evs(self, es, env):
        cur, th = [((), env)], []
        for e in es:
            nxt = []
            for vs, x in cur:
                outs, t = self.ev(e, x)
                th += t
                nxt += [(vs + (v,), y) for v, y in outs]
            cur = dedupe(nxt)
        return cur, th

    def lkey(self, e):
        e = uncast(e)
        if e is None:
            return None
        if e["k"] == "var" and "id" in e:
            return e["id"]
        if e["k"] == "mem" and uncast(e["b"]) is not None and uncast(e["b"])["k"] == "this":
            return ("m", e["n"])
        return None

    def ev(self, e, env):
        if e is None:
            return [(TOP, env)], []
        k = e["k"]
        c = const(e)
        if c is not None and k not in ("call", "ctor"):
            return [(("i", c), env)], []
        if k == "str":
            return [(("lit", e["v"]), env)], []
        if k == "null":
            return [(("nil",), env)], []
        if k == "this":
            return [(("this",), env)], []
        if k == "cast":
            outs, th = self.ev(e["e"], env)
            if e.get("t") is not None and e["t"].k == "bool":
                outs = [(self.as_bool(v), x) for v, x in outs]
            return outs, th
        if k == "var":
            env = self.read(e, env)
            if e.get("id") in env:
                return [(env[e["id"]], env)], []
            return [(self.unbound(e, env), env)], []
        if k == "mem":
            if uncast(e["b"]) is not None and uncast(e["b"])["k"] == "this":
                env = self.read(e, env)
                return [(env.get(("m", e["n"]), TOP), env)], []
            outs, th = self.ev(e["b"], env)
            return [(self.member(e, v, x), x) for v, x in outs], th
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                t, f, th = self.cond(e, env)
                return [(T, x) for x in t] + [(F, x) for x in f], th
            if op == "=" or op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                outs, th = self.evs([e["a"], e["b"]] if op != "=" else [e["b"]], env)
                key = self.lkey(e["a"])
                res = []
                for vs, x in outs:
                    v = vs[-1] if op == "=" else self.arith(op[:-1], vs[0], vs[1])
                    res.append((v, x.put(key, v) if key is not None else self.store(e["a"], v, x)))
                return res, th
            cur, th = self.evs([e["a"], e["b"]], env)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                out = []
                for (a, b), x in cur:
                    r = self.relate(op, a, b, x)
                    if r is not None:
                        out += r
                        continue
                    r = self.compare(op, a, b)
                    out.append((TOP if r is None else T if r else F, x))
                return out, th
            if op == ",":
                return [(b, x) for (a, b), x in cur], th
            return [(self.arith(op, a, b), x) for (a, b), x in cur], th
        if k == "un":
            op = e["op"]
            if op == "!":
                t, f, th = self.cond(e["e"], env)
                return [(F, x) for x in t] + [(T, x) for x in f], th
            outs, th = self.ev(e["e"], env)
            if op in ("++", "--", "p++", "p--"):
                key = self.lkey(e["e"])
                res = []
                for v, x in outs:
                    w = self.arith("+" if "+" in op else "-", v, ("i", 1))
                    res.append((v if op[0] == "p" else w, x.put(key, w) if key is not None else x))
                return res, th
            if op in ("*", "&", "+"):
                return [(self.deref(v) if op == "*" else v, x) for v, x in outs], th
            return [(self.arith("-", ("i", 0), v) if op == "-" else TOP, x) for v, x in outs], th
        if k == "cond":
            t, f, th = self.cond(e["c"], env)
            outs = []
            for envs, br in ((t, e["a"]), (f, e["b"])):
                for x in envs:
                    o, t2 = self.ev(br, x)
                    outs += o
                    th = th + t2
            return dedupe(outs), th
        if k == "idx":
            cur, th = self.evs([e["a"], e["b"]], env)
            return [(self.index(vs[0], vs[1]), x) for vs, x in cur], th
        if k == "throw":
            outs, th = self.ev(e["e"], env) if e.get("e") is not None else ([(None, env)], [])
            tt = e.get("tt")
            name = "rethrow" if e.get("e") is None else tt.deref().rec or tt.s if tt is not None else "?"
            return [], th + [(name, x) for _, x in outs]
        if k == "init":
            cur, th = self.evs(e["a"], env)
            return [(("list", vs), x) for vs, x in cur], th
        if k == "new":
            if e.get("i") is not None:
                outs, th = self.ev(e["i"], env)
                return [(("obj",) + v if v[0] != "obj" else v, x) for v, x in outs], th
            return [(("obj", "new"), env)], []
        if k == "lambda":
            return [(("lambda", id(e)), env)], []
        if k in ("call", "ctor"):
            return self.invoke(e, env)
        if k == "other" and e.get("ch"):
            cur, th = self.evs([c for c in e["ch"] if c is not None], env)
            return [(vs[0] if vs else TOP, x) for vs, x in cur], th
        return [(TOP, env)], []

    def unbound(self, e, env):
        return TOP

    def as_bool(self, v):
        b = self.truth(v)
        return v if b is None else T if b else F

    def deref(self, v):
        return v

    def index(self, a, i):
        if a[0] == "list" and i[0] == "i" and 0 <= i[1] < len(a[1]):
            return a[1][i[1]]
        return TOP

    def store(self, lhs, v, env):
        return env

    def arith(self, op, a, b):
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            try:
                return ("i", {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y,
                              "/": x // y if y else 0, "%": x % y if y else 0, "<<": x << y if 0 <= y < 64 else 0,
                              ">>": x >> y if 0 <= y < 64 else 0}[op])
            except KeyError:
                return TOP
        return TOP

    def invoke(self, n, env):
        # only plain copies hand their operand on
        if n["k"] == "ctor" and (n.get("copy") or n.get("move")) and len(n["a"]) == 1:
            return self.ev(n["a"][0], env)
        outs, th = self.ev(n["obj"], env) if n.get("obj") is not None else ([(None, env)], [])
        res, thr = [], list(th)
        for obj, x in outs:
            cur, t = self.evs(n["a"], x)
            thr += t
            for args, y in cur:
                r = self.call(n, obj, args, y)
                if r is None:
                    r = self.enter(n, obj, args, y)
                res += r[0]
                thr += r[1]
        return dedupe(res), dedupe(thr)

    def enter(self, n, obj, args, env):
        gs = [g for g in self.prog.targets(n) or () if g.get("body") is not None]
        ob = uncast(n["obj"]) if n.get("obj") is not None else None
        on_this = ob is not None and ob["k"] == "this"
        free = n["k"] == "call" and (n.get("obj") is None or on_this)
        if len(gs) == 1 and free and gs[0]["u"] not in self.stack and len(self.stack) < self.depth_limit and self.inline(n, gs[0]):
            g = gs[0]
            sub = Env({k: v for k, v in env.items() if k not in {p["id"] for p in g["ps"]}})
            if n.get("op") and n["a"] and len(n["a"]) == len(g["ps"]) + 1:
                args = args[1:]
            args = list(args)
            for p in g["ps"][len(args):]:
                args.append(TOP)
            rets, th = self.run(g, args, sub)
            # what was passed by reference is updated in place
            back = []
            for p, a in zip(g["ps"], n["a"]):
                if p["t"].k == "ref" and not p["t"].to.cst and self.lkey(a) is not None:
                    back.append((self.lkey(a), p["id"]))

            def leave(x):
                for key, pid in back:
                    if pid in x:
                        x = x.put(key, x[pid])
                return x
            return [(v, leave(x)) for v, x in rets], [(t, leave(x)) for t, x in th]
        return [(TOP, env)], []
