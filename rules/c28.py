"""C28: what is written reflects the latest modification."""

from facts import AnalysisBroken
from flow import Flow, N
from program import children, const, fn_nodes, uncast, walk, where

TECHNIQUE = "typestate of the remembered serialized form (modified, discarded, rebuilt) over every member function, per concrete class"

ASSIGN = {"=", "+=", "-=", "|=", "&=", "^=", "<<=", ">>=", "*=", "/=", "%="}
LOOK = {"begin", "end", "cbegin", "cend", "front", "back", "data", "find", "at", "rbegin", "rend", "lower_bound", "upper_bound", "equal_range", "get", "c_str"}
OUTPUT = {"copy": 2, "transform": -2, "copy_n": 2, "move": 2, "fill": 0, "reverse": 0, "reverse_copy": 2, "copy_backward": 2, "iota": 0, "generate": 0, "sort": 0, "swap": 0,
          "memcpy": 0, "memset": 0, "copy_if": 2}


def own(n):
    """The member of *this an expression starts from, through indexes and iterators."""
    n = uncast(n)
    while True:
        if n["k"] == "mem" and n.get("b") is not None:
            b = uncast(n["b"])
            if b["k"] == "this":
                return (n.get("cls"), n["n"])
            n = b
        elif n["k"] == "idx":
            n = uncast(n["a"])
        elif n["k"] == "call" and n.get("op") in ("[]", "*", "->", "+", "-"):
            n = uncast((n.get("a") or [n.get("obj")])[0] if not n.get("obj") else n["obj"])
        elif n["k"] == "call" and n.get("obj") and (n.get("f") or "").split("::")[-1] in LOOK:
            n = uncast(n["obj"])
        elif n["k"] == "un" and n["op"] in ("*", "&"):
            n = uncast(n["e"])
        elif n["k"] == "bin" and n["op"] in ("+", "-"):
            n = uncast(n["a"])
        else:
            return None


def written(n):
    """Members of *this a node modifies."""
    k = n.get("k")
    if k == "bin" and n["op"] in ASSIGN:
        m = own(n["a"])
        return [m] if m else []
    if k == "un" and n["op"] in ("++", "--", "p++", "p--"):
        m = own(n["e"])
        return [m] if m else []
    if k == "call":
        f = (n.get("f") or "").split("::")[-1]
        op = n.get("op")
        if op in ASSIGN or op in ("++", "--"):
            t = n["obj"] if n.get("obj") else n["a"][0]
            m = own(t)
            return [m] if m else []
        if op:
            return []
        out = []
        if n.get("obj") is not None and not n.get("const") and f not in LOOK:
            o = uncast(n["obj"])
            if o["k"] != "this":
                m = own(o)
                if m:
                    out.append(m)
        elif n.get("obj") is None and f in OUTPUT and n.get("a"):
            i = OUTPUT[f]
            for j in ([i] if f != "swap" else [0, 1]):
                if -len(n["a"]) <= j < len(n["a"]):
                    m = own(n["a"][j])
                    if m:
                        out.append(m)
        # handing a member to something that may change it
        for a, p in zip(n.get("a", ()), (n.get("ft").ps if n.get("ft") is not None and getattr(n.get("ft"), "ps", None) else ())):
            if p is not None and p.k == "ref" and p.to is not None and not p.to.cst:
                u = uncast(a)
                if u["k"] == "mem" and u.get("b") is not None and uncast(u["b"])["k"] == "this":
                    out.append((u.get("cls"), u["n"]))
        return out
    if k == "ctor" and "insert_iterator" in (n.get("cls") or ""):
        return []
    return []


def on_this(n):
    return n.get("k") == "call" and n.get("obj") is not None and uncast(n["obj"])["k"] == "this"


class Model:
    def __init__(self, prog):
        self.prog = prog
        self.overs = {}
        for r in prog.recs.values():
            for x in r["methods"]:
                self.overs[x["u"]] = list(x.get("over", ()))

    def chain(self, cls):
        return [cls] + self.prog.bases(cls)

    def target(self, n, cls):
        """What a call on *this runs when *this is a cls."""
        if not n.get("virt") or n.get("qual"):
            return self.prog.by_usr.get(n.get("fu"))
        for c in self.chain(cls):
            for m in self.prog.methods(c):
                todo, seen = [m["u"]], set()
                while todo:
                    u = todo.pop()
                    if u == n.get("fu"):
                        return m
                    if u not in seen:
                        seen.add(u)
                        todo += self.overs.get(u, [])
        return None

    def reach(self, m, cls):
        out, todo = {}, [m]
        while todo:
            f = todo.pop()
            if f is None or f["u"] in out or not f.get("body"):
                continue
            out[f["u"]] = f
            for n in fn_nodes(f):
                if on_this(n):
                    todo.append(self.target(n, cls))
        return list(out.values())

    def flag_effects(self, m, cls, flag, depth=0):
        """How a method leaves the flag: ("c", bool) or ("p", index of parameter)."""
        out = set()
        if m is None or not m.get("body") or depth > 6:
            return out
        ps = {p["id"]: i for i, p in enumerate(m["ps"])}
        for n in fn_nodes(m):
            val = None
            if n.get("k") == "bin" and n["op"] == "=" and own(n["a"]) == flag:
                val = n["b"]
                out |= self.value(val, ps)
            elif on_this(n):
                t = self.target(n, cls)
                for e in self.flag_effects(t, cls, flag, depth + 1):
                    if e[0] == "c":
                        out.add(e)
                    elif e[1] < len(n.get("a", ())):
                        out |= self.value(n["a"][e[1]], ps)
        return out

    def value(self, e, ps):
        c = const(e)
        if c is not None:
            return {("c", bool(c))}
        u = uncast(e)
        if u["k"] == "bool":
            return {("c", bool(u.get("v")))}
        if u["k"] == "var" and u.get("id") in ps:
            return {("p", ps[u["id"]])}
        return set()


class Typestate(Flow):
    """(modified since, discarded) over one method for one dynamic class."""

    def __init__(self, prog, model, cls, flag, sources):
        super().__init__(prog)
        self.model, self.cls, self.flag, self.sources = model, cls, flag, sources
        self.summaries = {}
        self.first = {}

    def may_throw(self, n):
        return False

    def events(self, n, st):
        w, inv, at = st
        for m in written(n):
            if m == self.flag and n.get("k") == "bin":
                for e in self.model.value(n["b"], {}):
                    inv = e[1]
            elif m in self.sources:
                w = True
                at = m[1]
        return (w, inv, at)

    def node(self, n, st):
        if n.get("k") in ("bin", "un"):
            st = self.events(n, st)
        yield (N, st)

    def call(self, n, st):
        st = self.events(n, st)
        if on_this(n):
            t = self.model.target(n, self.cls)
            if t is not None and t.get("body"):
                eff = self.model.flag_effects(t, self.cls, self.flag)
                direct = {e for e in eff if e[0] == "p"}
                if direct:
                    w, inv, at = st
                    for e in direct:
                        a = n["a"][e[1]] if e[1] < len(n.get("a", ())) else None
                        for v in (self.model.value(a, {}) if a is not None else ()):
                            inv = v[1]
                    yield (N, (w, inv, at))
                    return
                if not t.get("const") or eff:
                    for (w, inv, at) in self.outcomes(t):
                        w0, inv0, at0 = st
                        yield (N, (w0 or w, inv if inv is not None else inv0, at or at0))
                    return
        yield (N, st)

    def outcomes(self, m):
        k = m["u"]
        if k in self.summaries:
            return self.summaries[k] or {(False, None, None)}
        self.summaries[k] = None
        sub = Typestate(self.prog, self.model, self.cls, self.flag, self.sources)
        sub.summaries = self.summaries
        o = sub.run(m, (False, None, None))
        res = set(o.n) | set(o.r)
        self.summaries[k] = res or {(False, None, None)}
        return self.summaries[k]


def caches(prog, model):
    """Routines that rebuild remembered data: (class, routine, flag, fields)."""
    out = []
    for cls, r in sorted(prog.recs.items()):
        if "scribbu::" not in cls or r.get("lambda"):
            continue
        mut = {(c, f["n"]): f for c in model.chain(cls) for f in prog.recs.get(c, {"fields": ()})["fields"] if f.get("mut")}
        flags = [k for k, f in mut.items() if f["t"].k == "bool"]
        if not flags:
            continue
        for m in prog.methods(cls):
            if not m.get("body") or not m.get("const") or m.get("rt") is None or m["rt"].k != "void":
                continue
            fields = set()
            for n in fn_nodes(m):
                for w in written(n):
                    if w in mut and w not in flags:
                        fields.add(w)
                # filled through an inserter
                if n.get("k") == "call" and (n.get("f") or "").split("::")[-1] in ("back_inserter", "inserter") and n.get("a"):
                    w = own(n["a"][0])
                    if w in mut:
                        fields.add(w)
            if not fields:
                continue
            for fl in flags:
                if ("c", False) in model.flag_effects(m, cls, fl):
                    out.append((cls, m, fl, fields))
    return out


def hidden(prog, model, cls, c, m):
    """Whether a frame class puts an operation of its own in place of a shared one."""
    sig = (m["fn"].split("::")[-1], tuple(p["t"].s for p in m["ps"]))
    for d in model.chain(cls):
        if d == c:
            return False
        if c not in prog.bases(d):
            continue
        for x in prog.methods(d):
            if x.get("body") and not x.get("const") and (x["fn"].split("::")[-1], tuple(p["t"].s for p in x["ps"])) == sig:
                return True
    return False


def check(prog, R):
    R.rule("discard", "on every path of a member function that changes what is serialized the remembered form is discarded", 8)
    R.rule("fresh", "every read of the remembered form is preceded by the routine that refreshes it", 6)
    R.rule("rebuild", "the refreshing routine empties what it appends to and marks the form fresh only after rebuilding it", 2)
    R.rule("foreign", "nothing computed from another object is kept behind a test of one's own state only", 1)
    model = Model(prog)
    found = caches(prog, model)
    if not found:
        raise AnalysisBroken("no remembered serialized form found")
    for cls, filler, flag, fields in found:
        readers(prog, R, model, cls, filler, fields)
        rebuild(prog, R, model, cls, filler, flag, fields)
        concrete = sorted(prog.derived(cls)) or [cls]
        seen = {}
        for k in concrete + [cls]:
            sources = set()
            for f in model.reach(filler, k):
                for n in fn_nodes(f):
                    if n.get("k") == "mem" and n.get("b") is not None and uncast(n["b"])["k"] == "this":
                        sources.add((n.get("cls"), n["n"]))
            sources -= fields
            sources.discard(flag)
            T = Typestate(prog, model, k, flag, sources)
            for c in model.chain(k):
                for m in prog.methods(c):
                    if not m.get("body") or m.get("ctor") or m.get("dtor") or m.get("impl") or m.get("static") or m.get("cpa") or m.get("mva"):
                        continue
                    if m["u"] == filler["u"] or m.get("acc") not in (None, 0):
                        continue
                    if hidden(prog, model, k, c, m):
                        continue
                    res = T.outcomes(m)
                    if not any(w for w, _, _ in res):
                        continue
                    bad = sorted({at for w, inv, at in res if w and inv is not True}, key=str)
                    key = m["fn"].split("scribbu::", 1)[-1]
                    s = seen.setdefault((key, m["u"]), [m, set(), set()])
                    if bad:
                        s[1].add(k)
                        s[2].update(bad)
        for (key, _), (m, ks, ats) in sorted(seen.items()):
            if ks:
                R.bad("discard", key, m, "%s changes %s but leaves the serialized form %s remembers in place (%s)" % (
                    m["fn"], ", ".join(sorted(ats)), cls, ", ".join(sorted(x.split("::")[-1] for x in ks)[:4])))
            else:
                R.ok("discard", (cls, key))
    foreign(prog, R, model)


class Reads(Flow):
    def __init__(self, prog, model, cls, fillers, fields):
        super().__init__(prog)
        self.model, self.cls, self.fillers, self.fields = model, cls, fillers, fields
        self.bad = []

    def may_throw(self, n):
        return False

    def node(self, n, st):
        if n.get("k") == "mem" and n.get("b") is not None and uncast(n["b"])["k"] == "this" and (n.get("cls"), n["n"]) in self.fields and not st:
            self.bad.append(n)
        yield (N, st)

    def call(self, n, st):
        if on_this(n):
            t = self.model.target(n, self.cls)
            if t is not None and self.refreshes(t, 0):
                yield (N, True)
                return
        yield (N, st)

    def refreshes(self, t, d):
        if t["u"] in self.fillers:
            return True
        if d > 3 or not t.get("body"):
            return False
        # first statement refreshes
        ss = t["body"].get("s") or ()
        for s in ss[:2]:
            for n in walk(s):
                if on_this(n):
                    u = self.model.target(n, self.cls)
                    if u is not None and u["u"] != t["u"] and self.refreshes(u, d + 1):
                        return True
        return False


def readers(prog, R, model, cls, filler, fields):
    for c in [cls] + sorted(prog.derived(cls)):
        for m in prog.methods(c):
            if not m.get("body") or m["u"] == filler["u"] or m.get("ctor") or m.get("impl") or m.get("cpa") or m.get("mva") or m.get("cpc") or m.get("mvc"):
                continue
            uses = [n for n in fn_nodes(m) if n.get("k") == "mem" and n.get("b") is not None and uncast(n["b"])["k"] == "this" and (n.get("cls"), n["n"]) in fields]
            if not uses:
                continue
            only_clears = all(any(w in fields for x in fn_nodes(m) for w in written(x) if any(y is u for y in walk(x))) for u in uses)
            if only_clears:
                continue
            if m.get("acc") not in (None, 0):
                continue
            fl = Reads(prog, model, c, {filler["u"]}, fields)
            fl.run(m, False)
            key = m["fn"].split("scribbu::", 1)[-1]
            if fl.bad:
                R.bad("fresh", key, fl.bad[0], "%s reads %s without refreshing it first" % (m["fn"], fl.bad[0]["n"]))
            else:
                R.ok("fresh", (cls, key))


class Rebuild(Flow):
    """Which remembered containers are emptied; nothing is appended before."""

    def __init__(self, prog, model, cls, flag, fields):
        super().__init__(prog)
        self.model, self.cls, self.flag, self.fields = model, cls, flag, fields
        self.early, self.stale = [], []

    def may_throw(self, n):
        return False

    def slot(self, n):
        m = own(n)
        if m not in self.fields:
            return None
        u = uncast(n)
        ix = None
        for x in walk(n):
            if x.get("k") == "idx" or (x.get("k") == "call" and x.get("op") == "[]"):
                j = x["b"] if x["k"] == "idx" else x["a"][-1]
                ix = const(j)
        return (m, ix)

    def call(self, n, st):
        emptied, filled, clean = st
        f = (n.get("f") or "").split("::")[-1]
        if n.get("obj") is not None:
            s = self.slot(n["obj"])
            if s is not None:
                if f in ("clear", "resize", "assign"):
                    emptied = emptied | {s}
                if f in ("resize", "assign"):
                    filled = filled | {s[0]}
                    if clean:
                        self.early.append(n)
                if f in ("push_back", "insert", "emplace_back", "append") and s not in emptied:
                    self.stale.append((n, s))
        elif n.get("op") == "=" and n.get("a"):
            s = self.slot(n["a"][0])
            if s is not None:
                emptied, filled = emptied | {s}, filled | {s[0]}
                if clean:
                    self.early.append(n)
        if f in ("back_inserter", "inserter") and n.get("a"):
            s = self.slot(n["a"][0])
            if s is not None:
                if s not in emptied:
                    self.stale.append((n, s))
                if clean:
                    self.early.append(n)
                filled = filled | {s[0]}
        if on_this(n):
            t = self.model.target(n, self.cls)
            for e in self.model.flag_effects(t, self.cls, self.flag):
                v = None
                if e[0] == "c":
                    v = e[1]
                elif e[1] < len(n.get("a", ())):
                    for x in self.model.value(n["a"][e[1]], {}):
                        v = x[1]
                if v is False:
                    clean = True
        yield (N, (emptied, filled, clean))

    def node(self, n, st):
        if n.get("k") == "bin" and n["op"] == "=":
            m = own(n["a"])
            if m == self.flag and ("c", False) in self.model.value(n["b"], {}):
                st = (st[0], st[1], True)
            elif m in self.fields:
                if st[2]:
                    self.early.append(n)
                st = (st[0], st[1] | {m}, st[2])
        yield (N, st)


def rebuild(prog, R, model, cls, filler, flag, fields):
    fl = Rebuild(prog, model, cls, flag, fields)
    o = fl.run(filler, (frozenset(), frozenset(), False))
    key = filler["fn"].split("scribbu::", 1)[-1]
    ok = True
    for n, s in fl.stale[:1]:
        ok = False
        R.bad("rebuild", key + "/emptied", n, "%s appends to %s without emptying it first" % (filler["fn"], s[0][1]))
    for n in fl.early[:1]:
        ok = False
        R.bad("rebuild", key + "/order", n, "%s marks the serialized form fresh before it is complete" % filler["fn"])
    for emptied, filled, clean in set(o.n) | set(o.r):
        if clean and not fields <= filled:
            ok = False
            R.bad("rebuild", key + "/filled", filler, "%s can mark the serialized form fresh without renewing %s" % (
                filler["fn"], ", ".join(sorted(x[1] for x in fields - filled))))
            break
    # whatever else is remembered beside the bytes is renewed with them
    renewed, todo, seen = set(), [filler], set()
    while todo:
        f = todo.pop()
        if f is None or f["u"] in seen or not f.get("body"):
            continue
        seen.add(f["u"])
        for n in fn_nodes(f):
            renewed |= set(written(n))
            if n.get("k") == "call" and on_this(n):
                todo.append(model.target(n, cls))
    beside = {(c, f["n"]) for c in {x[0] for x in fields} for f in prog.recs.get(c, {"fields": ()})["fields"] if f.get("mut")} - fields - {flag}
    for m in prog.methods(cls):
        if m["u"] not in seen and m.get("body") and not m.get("ctor") and not m.get("cpa") and not m.get("mva"):
            for n in fn_nodes(m):
                beside -= set(written(n))
    for x in sorted(beside - renewed):
        ok = False
        R.bad("rebuild", key + "/" + x[1], filler, "%s does not renew %s with the serialized form" % (filler["fn"], x[1]))
    if ok:
        R.ok("rebuild", key)


def foreign(prog, R, model):
    for f in prog.fns:
        if not f.get("body") or not f.get("const") or not f.get("cls") or "scribbu/" not in f["l"][0]:
            continue
        objs = {p["id"] for p in f["ps"] if p["t"].k == "ref" and p["t"].to is not None and p["t"].to.k == "rec" and (p["t"].to.rec or "").startswith("scribbu::")}
        if not objs:
            continue
        fields = {(c, x["n"]) for c in model.chain(f["cls"]) for x in prog.recs.get(c, {"fields": ()})["fields"] if x.get("mut")}
        if not fields:
            continue
        # locals computed from the other object
        dep = set(objs)
        changed = True
        nodes = list(fn_nodes(f))
        while changed:
            changed = False
            for n in nodes:
                if n.get("k") == "decl":
                    for d in n["d"]:
                        if d.get("id") not in dep and d.get("i") is not None and any(x.get("k") == "var" and x.get("id") in dep for x in walk(d["i"])):
                            dep.add(d["id"])
                            changed = True
        def visit(n, conds):
            if n.get("k") == "if":
                visit(n["c"], conds)
                visit(n["th"], conds + [n["c"]])
                if n.get("el"):
                    visit(n["el"], conds + [n["c"]])
                return
            if n.get("k") == "bin" and n["op"] == "=" or (n.get("k") == "call" and n.get("op") == "="):
                t = n["a"] if n["k"] == "bin" else n["a"][0]
                v = n["b"] if n["k"] == "bin" else n["a"][1]
                m = own(t)
                if m in fields and any(x.get("k") == "var" and x.get("id") in dep for x in walk(v)):
                    key = "%s/%s" % (f["fn"].split("scribbu::", 1)[-1], m[1])
                    bad = [c for c in conds if not any(x.get("k") == "var" and x.get("id") in dep for x in walk(c)) and any(x.get("k") == "this" for x in walk(c))]
                    if bad:
                        R.bad("foreign", key, n, "%s computes %s from its argument only when its own state asks for it, so a change of the argument goes unnoticed" % (f["fn"], m[1]))
                    else:
                        R.ok("foreign", key)
            for c in children(n):
                visit(c, conds)
        visit(f["body"], [])
