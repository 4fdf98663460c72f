"""C12: a copy of a tag or frame has all of the original's content."""

from flow import Flow, N
from program import fn_nodes, uncast, walk, where

TECHNIQUE = "member-wise provenance of hand-written copy operations, and ownership and slicing rules for the rest"

GROW = {"push_back", "emplace_back", "insert", "emplace", "push_front", "append", "operator[]"}
FROM_OTHER = {"cpc", "cpa", "mvc"}


def root_member(e):
    e = uncast(e)
    while e is not None:
        if e["k"] == "mem":
            b = uncast(e["b"])
            if b is not None and b["k"] == "this":
                return e["n"]
            e = b
        elif e["k"] == "idx":
            e = uncast(e["a"])
        elif e["k"] == "un" and e["op"] in ("*", "&"):
            e = uncast(e["e"])
        elif e["k"] == "call" and e.get("op") in ("[]", "*", "->"):
            e = uncast(e["a"][0])
        elif e["k"] == "call" and e.get("obj") is not None and e.get("const"):
            e = uncast(e["obj"])
        else:
            return None
    return None


def is_param(e, pid):
    e = uncast(e)
    while e is not None and e["k"] == "call" and e.get("f") in ("std::move", "std::forward") and e["a"]:
        e = uncast(e["a"][0])
    return e is not None and e["k"] == "var" and e.get("id") == pid


def is_self(e):
    e = uncast(e)
    return e is not None and e["k"] == "un" and e["op"] == "*" and uncast(e["e"])["k"] == "this"


class Sources:
    """Which attributes of the other object an expression reads."""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.pid = f["ps"][0]["id"]
        self.alias = {}
        for n in fn_nodes(f):
            if n.get("k") == "rfor":
                self.alias[n["v"]["id"]] = self.of(n["r"])
            elif n.get("k") == "decl":
                for v in n["d"]:
                    if v.get("i") is not None:
                        self.alias[v["id"]] = self.of(v["i"])
        for n in fn_nodes(f):      # once more, for aliases of aliases
            if n.get("k") == "decl":
                for v in n["d"]:
                    if v.get("i") is not None:
                        self.alias[v["id"]] = self.of(v["i"])

    def accessor(self, m, depth=0):
        """Attributes a method of the other object returns."""
        out = set()
        for g in self.prog.targets(m):
            if not g.get("body"):
                continue
            for n in fn_nodes(g):
                if n.get("k") == "mem" and uncast(n["b"])["k"] == "this":
                    out.add(n["n"])
                elif depth < 2 and n.get("k") == "call" and n.get("obj") is not None and uncast(n["obj"])["k"] == "this":
                    out |= self.accessor(n, depth + 1)
        return out

    def of(self, e):
        out = set()
        if e is None:
            return out
        for n in walk(e):
            k = n.get("k")
            if k == "mem" and is_param(n["b"], self.pid):
                out.add(n["n"])
            elif k == "call" and n.get("obj") is not None and is_param(n["obj"], self.pid):
                out |= self.accessor(n)
            elif k == "var" and n.get("id") in self.alias:
                out |= self.alias[n["id"]]
            elif k == "call" and any(is_param(a, self.pid) for a in n["a"]):
                out.add("*")
            elif k == "ctor" and any(is_param(a, self.pid) for a in n["a"]):
                out.add("*")
        return out


def writes(prog, f, cls, memo, depth=0):
    """Attributes a method of the class changes, directly or through other methods."""
    if f["u"] in memo:
        return memo[f["u"]]
    memo[f["u"]] = set()
    out = set()
    for n in fn_nodes(f):
        k = n.get("k")
        if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            out.add(root_member(n["a"]))
        elif k == "call":
            if n.get("op") in ("=", "+=", "-="):
                out.add(root_member(n["a"][0]))
            elif n.get("obj") is not None:
                if uncast(n["obj"])["k"] == "this":
                    if depth < 4:
                        for g in prog.targets(n):
                            out |= writes(prog, g, cls, memo, depth + 1)
                elif not n.get("const"):
                    out.add(root_member(n["obj"]))
    out.discard(None)
    memo[f["u"]] = out
    return out


class Copy(Flow):
    """State: attributes given their new value so far."""

    def __init__(self, prog, f, names):
        Flow.__init__(self, prog)
        self.f, self.names = f, frozenset(names)
        self.src = Sources(prog, f)
        self.assigns = f.get("cpa") or f.get("mva")
        self.sources = {}         # attribute -> sources seen
        self.kept = {}            # attribute -> node adding to an old value
        self.selfy = []           # nodes copying the object from itself
        self.derived = set()
        self.memo2 = {}

    def put(self, m, src, st, n, grow=False):
        if m not in self.names:
            return st
        if grow and self.assigns and m not in st:
            self.kept.setdefault(m, n)
        self.sources.setdefault(m, set()).update(src)
        return st | {m}

    def after_init(self, f, i, st):
        if i.get("m"):
            e = i.get("e")
            if not i.get("w") and e is not None and e.get("k") == "ctor" and not e["a"]:
                return st
            return self.put(i["m"], self.src.of(e), st, i)
        return st

    def node(self, n, st):
        if n["k"] == "bin" and n["op"] == "=":
            st = self.put(root_member(n["a"]), self.src.of(n["b"]), st, n)
        yield (N, st)

    def call(self, n, st):
        if n.get("op") == "=":
            st = self.put(root_member(n["a"][0]), self.src.of(n["a"][1]), st, n)
        elif n["k"] == "call" and n.get("obj") is not None:
            o = uncast(n["obj"])
            if o["k"] == "this":
                for g in self.prog.targets(n):
                    for m in sorted(writes(self.prog, g, self.f["cls"], self.memo2)):
                        if m in self.names:
                            self.derived.add(m)
                            if self.assigns and m not in st:
                                self.kept.setdefault(m, n)
                            st = st | {m}
            elif not n.get("const"):
                m = root_member(n["obj"])
                if m is not None:
                    src = set()
                    for a in n["a"]:
                        src |= self.src.of(a)
                    name = (n.get("f") or "").split("::")[-1]
                    st = self.put(m, src, st, n, name in GROW)
        for a in n["a"]:
            lam = uncast(a)
            if lam is not None and lam["k"] == "lambda":
                src = self.src.of(n)
                for m in sorted(writes(self.prog, dict(lam["fn"], u=id(lam)), self.f["cls"], self.memo2)):
                    st = self.put(m, src, st, n, True)
                    self.derived.add(m)
        yield from Flow.default_call(self, n, st)

    def assume(self, c, st, truth):
        c0 = uncast(c)
        # the branch taken when an object is copied onto itself
        ops = None
        if c0["k"] == "bin" and c0["op"] in ("==", "!="):
            ops = (c0["op"], uncast(c0["a"]), uncast(c0["b"]))
        if ops and any(x["k"] == "this" for x in ops[1:]):
            if truth == (ops[0] == "=="):
                return self.names
            return st
        if not self.assigns and not truth:
            # nothing to copy
            for m in self.src.of(c):
                if m in self.names:
                    st = st | {m}
        return Flow.assume(self, c, st, truth)

    def loop(self, s, st):
        o = Flow.loop(self, s, st)
        if self.src.of(s.get("r") or s.get("c")) and not self.assigns:
            # no turns: the source had no elements either
            best = frozenset().union(*o.n) if o.n else frozenset()
            o.n = {best}
        return o


def pairs(prog):
    for f in prog.fns + prog.uninstantiated:
        if f.get("impl") or f.get("dfl") or not f.get("cls") or f["cls"] not in prog.recs or f["l"][0].startswith("gen/"):
            continue
        if f.get("cpc") or f.get("cpa") or f.get("mvc"):
            if f.get("body") or f.get("inits"):
                yield f


def copies(prog, R):
    for f in pairs(prog):
        rec = prog.recs[f["cls"]]
        names = {x["n"] for x in rec["fields"] if not x.get("mut") and not x["t"].cst}
        kind = "copy constructor" if f.get("cpc") else "move constructor" if f.get("mvc") else "assignment"
        label = "%s %s" % (f["cls"], kind)
        a = Copy(prog, f, names)
        o = a.run(f, frozenset())
        missing = set()
        for st in o.r:
            missing |= names - st
        key = "%s/%s" % (f["cls"], kind.replace(" ", "-"))
        for m in sorted(names):
            if m in missing:
                R.bad("member", key + "/" + m, f, "the %s can finish without giving %s the source's value" % (label, m))
            elif m in a.kept:
                R.bad("member", key + "/" + m, a.kept[m], "the %s adds to the old content of %s instead of replacing it" % (label, m))
            elif m in a.derived or a.sources.get(m, set()) & {m, "*"}:
                R.ok("member", "%s %s" % (label, m))
            else:
                R.bad("member", key + "/" + m, f, "the %s does not take %s from the source's %s" % (label, m, m))
        bases(prog, R, f, rec, label, key, a.src)


def bases(prog, R, f, rec, label, key, src):
    pid = f["ps"][0]["id"]
    for b in rec["bases"]:
        br = prog.recs.get(b["t"].rec)
        if br is None or not [x for x in br["fields"] if not x.get("mut")]:
            continue
        name = b["t"].rec
        got, selfy = False, None
        if f.get("cpa"):
            for n in fn_nodes(f):
                if n.get("k") == "call" and (n.get("op") == "=" or (n.get("f") or "").endswith("operator=")) and n.get("f") == name + "::operator=":
                    arg = n["a"][-1]
                    if is_self(arg):
                        selfy = n
                    elif src.of(arg) or is_param(arg, pid):
                        got = True
        else:
            for i in f.get("inits", ()):
                if i.get("base") is not None and i["base"].rec == name and i.get("e") is not None:
                    e = uncast(i["e"])
                    if any(is_self(x) for x in (e.get("a") or [e])):
                        selfy = i
                    elif src.of(i["e"]) or is_param(i["e"], pid):
                        got = True
        if selfy is not None:
            R.bad("base", key + "/" + name, f, "the %s copies %s from the object itself" % (label, name))
        elif not got:
            R.bad("base", key + "/" + name, f, "the %s does not copy %s from the source" % (label, name))
        else:
            R.ok("base", "%s %s" % (label, name))


def clones(prog, R):
    roots = {r["n"] for r in prog.recs.values() if any(m["n"] == "clone" and m.get("virt") for m in r["methods"])}
    for r in prog.recs.values():
        if r.get("inst") or not any(b in roots for b in [r["n"]] + list(prog.bases(r["n"]))):
            continue
        own = [m for m in r["methods"] if m["n"] == "clone"]
        if own and own[0].get("pure"):
            continue
        if not own:
            if abstract(prog, r["n"]):
                continue
            R.bad("clone", r["n"], r, "%s does not say how to clone itself, so a clone loses what it adds" % r["n"])
            continue
        g = prog.by_usr.get(own[0]["u"])
        if g is None or not g.get("body"):
            R.bad("clone", r["n"], r, "clone() of %s has no body" % r["n"])
            continue
        good = True
        rets = [n for n in fn_nodes(g) if n.get("k") == "return"]
        for n in rets:
            made = [x for x in walk(n) if x.get("k") == "ctor" and x.get("cls") == r["n"]]
            if not any(x["a"] and is_self(x["a"][0]) for x in made):
                good = False
        if rets and good:
            R.ok("clone", r["n"])
        else:
            R.bad("clone", r["n"], g, "clone() of %s does not return a copy of the object as a %s" % (r["n"], r["n"]))


def abstract(prog, name):
    order, seen = [], set()

    def visit(n):
        r = prog.recs.get(n)
        if r is None or n in seen:
            return
        seen.add(n)
        for b in r["bases"]:
            visit(b["t"].rec)
        order.append(r)
    visit(name)
    pure = {}
    for r in order:
        for m in r["methods"]:
            if m.get("virt"):
                pure[m["n"]] = bool(m.get("pure"))
    return any(pure.values())


def owners(prog, R):
    """A class that deletes what a plain pointer attribute refers to must not be copied member by member."""
    for f in prog.fns + prog.uninstantiated:
        if not f.get("dtor") or f.get("cls") not in prog.recs or not f.get("body"):
            continue
        owned = set()
        for n in fn_nodes(f):
            if n.get("k") == "delete":
                owned.add(root_member(n["e"]))
            elif n.get("k") == "call" and (n.get("f") or "").split("::")[-1] == "free" and n["a"]:
                owned.add(root_member(n["a"][0]))
        owned.discard(None)
        rec = prog.recs[f["cls"]]
        plain = {x["n"] for x in rec["fields"] if x["t"].k == "ptr"} & owned
        if not plain:
            continue
        cp = [m for m in rec["methods"] if (m.get("cpc") or m.get("cpa")) and not m.get("del")]
        if any(m.get("impl") or m.get("dfl") for m in cp):
            R.bad("owner", f["cls"], f, "%s deletes %s but can be copied member by member" % (f["cls"], ", ".join(sorted(plain))))
        else:
            R.ok("owner", f["cls"])


def check(prog, R):
    R.rule("member", "every attribute (other than caches marked mutable) is replaced by the source's on every path of every hand-written copy", 20)
    R.rule("base", "every base with attributes is copied from the source, not from the object itself", 3)
    R.rule("clone", "clone() returns a copy of the object's own class", 10)
    R.rule("owner", "a class that deletes a plain pointer is not copied member by member", 0)
    copies(prog, R)
    clones(prog, R)
    owners(prog, R)
