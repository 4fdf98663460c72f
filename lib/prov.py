"""Where a value comes from: flow-insensitive provenance through variables,
parameters, members and accessors.  A source is ("opt", name) for a command-line
option, ("c", value) for a constant, ("s", text) for literal text, ("parm", fn,
name) for a parameter no visible call supplies, ("call", callee) for the result
of an external or effectful function."""

from program import const, fn_nodes, uncast, walk

TRANSPARENT_OPS = {"+", "/", "<<", "+=", "/=", "*", "->", "[]"}


class Prov:
    def __init__(self, prog, fns=None):
        """fns: the functions whose definitions and calls count (all by default)."""
        self.prog = prog
        fns = prog.fns if fns is None else fns
        self.defs = {}        # variable id -> [expr]
        self.mdefs = {}       # (class, member) -> [expr]
        self.sites = {}       # callee usr -> [(caller, node)]
        self.parm = {}        # parameter id -> (function, index)
        self.memo = {}
        for f in fns:
            for i, p in enumerate(f["ps"]):
                self.parm[p["id"]] = (f, i)
            for i in f.get("inits", ()):
                if i.get("m") and i.get("e") is not None and f.get("cls"):
                    self.mdefs.setdefault((f["cls"], i["m"]), []).append(i["e"])
            for n in fn_nodes(f):
                self._index(f, n)
        for vs in prog.gvars.values():
            for v in vs:
                if v.get("i"):
                    for n in walk(v["i"]):
                        self._index(None, n)

    def _index(self, f, n):
        k = n.get("k")
        if k == "decl":
            for v in n["d"]:
                if v.get("i") is not None:
                    self.defs.setdefault(v["id"], []).append(v["i"])
        elif k == "rfor":
            self.defs.setdefault(n["v"]["id"], []).append(n["r"])
        elif k == "bin" and n["op"] in ("=", "+=", "|="):
            self._def(n["a"], n["b"], f)
        elif k in ("call", "ctor"):
            if n.get("fu"):
                self.sites.setdefault(n["fu"], []).append((f, n))
            op = n.get("op")
            if op in ("=", "+=", "<<", "/=") and len(n["a"]) == 2:
                self._def(n["a"][0], n["a"][1], f)
                l = uncast(n["a"][0])
                while l is not None and l.get("k") == "call" and l.get("op") == "<<":
                    self._def(l["a"][0], n["a"][1], f)
                    l = uncast(l["a"][0])
                if l is not None and l.get("k") == "call" and l.get("f") == "std::tie":
                    for x in l["a"]:
                        self._def(x, n["a"][1], f)
            if k == "call" and not n.get("op") and n.get("obj") is None and n.get("fu") not in self.prog.by_usr:
                for a in n["a"]:        # an external function may fill an array it is given
                    v = uncast(a)
                    if v is not None and v.get("k") == "var" and "id" in v and v["t"].k == "arr" and not v["t"].to.cst:
                        self.defs.setdefault(v["id"], []).append(n)
            m = (n.get("f") or "").split("::")[-1]
            if m in ("push_back", "emplace_back", "assign", "append", "insert", "reset", "swap") and n.get("obj") is not None:
                for a in n["a"]:
                    self._def(n["obj"], a, f)
        elif k == "lambda":
            for p in n["fn"]["ps"]:
                self.parm.setdefault(p["id"], (n["fn"], None))
            for i, p in enumerate(n["fn"]["ps"]):
                self.parm[p["id"]] = (n["fn"], i)

    def _def(self, lhs, rhs, f):
        l = uncast(lhs)
        if l is None:
            return
        if l["k"] == "var" and "id" in l:
            self.defs.setdefault(l["id"], []).append(rhs)
        elif l["k"] == "mem":
            self.mdefs.setdefault((l.get("cls"), l["n"]), []).append(rhs)

    def of(self, e, seen=frozenset()):
        """Sources of an expression."""
        out = set()
        e = uncast(e)
        if e is None:
            return out
        c = const(e)
        if c is not None:
            return {("c", c)}
        k = e["k"]
        if k == "str":
            return {("s", e["v"])}
        if k == "null":
            return {("c", 0)}
        if k == "var":
            if e.get("g") and e["g"] == "g":
                return {("g", e["q"])}
            return self.var(e["id"], seen)
        if k == "mem":
            key = (e.get("cls"), e["n"])
            if key in seen:
                return out
            b = uncast(e["b"])
            for x in self.mdefs.get(key, ()):
                out |= self.of(x, seen | {key})
            if not self.mdefs.get(key):
                out |= self.of(b, seen | {key}) or {("mem",) + key}
            return out
        if k == "this":
            return {("this",)}
        if k == "un":
            s = self.of(e["e"], seen)
            return {("not",) + x if x[0] == "opt" else x for x in s} if e["op"] == "!" else s
        if k in ("bin",):
            return self.of(e["a"], seen) | self.of(e["b"], seen)
        if k == "cond":
            return self.of(e["a"], seen) | self.of(e["b"], seen)
        if k == "idx":
            return self.of(e["a"], seen)
        if k == "init" or k == "ctor":
            for a in e["a"]:
                out |= self.of(a, seen)
            return out
        if k == "new":
            return self.of(e.get("i"), seen)
        if k == "call":
            return self.call(e, seen)
        if k == "other":
            for a in e.get("ch", ()):
                out |= self.of(a, seen)
            return out
        return {("?", k)}

    def var(self, i, seen):
        if i in seen:
            return set()
        seen = seen | {i}
        out = set()
        for x in self.defs.get(i, ()):
            out |= self.of(x, seen)
        if i in self.parm:
            f, idx = self.parm[i]
            out |= self.param(f, idx, seen)
        return out

    def param(self, f, idx, seen=frozenset()):
        key = ("P", f.get("u"), idx)
        if key in seen:
            return set()
        out = set()
        sites = self.sites.get(f.get("u"), ()) if f.get("u") else ()
        for caller, n in sites:
            args = n["a"]
            if n.get("op") and f.get("cls") and len(args) == len(f["ps"]) + 1:
                args = args[1:]
            if idx is not None and idx < len(args):
                out |= self.of(args[idx], seen | {key})
        if not sites:
            out.add(("parm", f.get("n"), f["ps"][idx]["n"] if idx is not None else "?"))
        return out

    def call(self, e, seen):
        out = set()
        f = e.get("f") or ""
        op = e.get("op")
        if f == "boost::program_options::variables_map::operator[]":
            s = [x for x in self.of(e["a"][1], seen) if x[0] == "s"]
            return {("opt", x[1]) for x in s} or {("opt", "?")}
        if f == "boost::program_options::variables_map::count":
            return {("has", x[1]) for x in self.of(e["a"][0], seen) if x[0] == "s"}
        # accessors of the repository: what they return
        tg = self.prog.targets(e)
        if tg:
            for g in tg:
                key = ("R", g["u"])
                if key in seen:
                    continue
                rets = [n for n in fn_nodes(g, lambdas=False) if n.get("k") == "return" and n.get("e") is not None]
                if len(rets) and len(g["ps"]) == 0 or len(tg) == 1:
                    for r in rets:
                        out |= self.of(r["e"], seen | {key})
            return out or {("call", f)}
        if op in TRANSPARENT_OPS or op in ("==", "!=", "()"):
            for a in e["a"]:
                out |= self.of(a, seen)
            return out
        # external functions pass their operands on
        if e.get("obj") is not None:
            out |= self.of(e["obj"], seen)
        for a in e["a"]:
            out |= self.of(a, seen)
        return out or {("call", f)}


class Implies:
    """Decides whether a condition settles the value of a boolean option."""

    def __init__(self, prog, prov, opt, want):
        self.prog, self.prov, self.opt, self.want = prog, prov, opt, want

    def carrier(self, e):
        s = {x for x in self.prov.of(e) if x[0] != "c"}
        return s == {("opt", self.opt)}

    def __call__(self, e, truth, seen=frozenset()):
        """Does e == truth imply that the option has the wanted value?"""
        e = uncast(e)
        if e is None or id(e) in seen:
            return False
        seen = seen | {id(e)}
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return self(e["e"], not truth, seen)
        if k == "bin" and e["op"] == "&&":
            a, b = self(e["a"], truth, seen), self(e["b"], truth, seen)
            return (a or b) if truth else (a and b)
        if k == "bin" and e["op"] == "||":
            a, b = self(e["a"], truth, seen), self(e["b"], truth, seen)
            return (a and b) if truth else (a or b)
        if k == "bin" and e["op"] in ("==", "!=") and const(e["b"]) in (0, 1):
            return self(e["a"], (const(e["b"]) == 1) == (truth == (e["op"] == "==")), seen)
        if const(e) is not None:
            return bool(const(e)) != truth          # cannot happen
        if k == "var" and not e.get("g"):
            ds = self.prov.defs.get(e["id"], [])
            if e["id"] in self.prov.parm:
                f, i = self.prov.parm[e["id"]]
                ss = self.prov.sites.get(f.get("u"), [])
                ds = ds + [n["a"][i] for _, n in ss if i is not None and i < len(n["a"])]
            if ds and all(self(d, truth, seen) for d in ds):
                return True
        if k == "call":
            tg = self.prog.targets(e)
            if len(tg) == 1:
                rs = [n["e"] for n in fn_nodes(tg[0], lambdas=False) if n.get("k") == "return" and n.get("e") is not None]
                if rs and all(self(r, truth, seen) for r in rs):
                    return True
        return truth == self.want and self.carrier(e)


def handlers(prog):
    """command name -> handler function."""
    from program import calls
    out = {}
    for vs in prog.gvars.values():
        for v in vs:
            if v.get("t") is not None and v["t"].s == "register_command" and v.get("i"):
                nm = [n["v"] for n in walk(v["i"]) if n.get("k") == "str"]
                fn = [n for n in walk(v["i"]) if n.get("k") == "fn"]
                for x in fn:
                    g = prog.by_usr.get(x.get("fu"))
                    if g and g.get("body") and nm:
                        out[nm[0]] = g
    return out


def reachable(prog, roots):
    """Functions reachable in the call graph (constructors, virtual overrides and
    function references included)."""
    seen, todo, order = set(), list(roots), []
    while todo:
        f = todo.pop()
        if f["u"] in seen:
            continue
        seen.add(f["u"])
        order.append(f)
        for n in fn_nodes(f):
            k = n.get("k")
            if k in ("call", "ctor", "fn"):
                for g in prog.targets(n):
                    todo.append(g)
            if k == "ctor" and n.get("cls") in prog.recs:
                # an object of the class may have its virtual functions and call operator run
                for g in prog.methods(n["cls"]):
                    if g.get("virt") or g["n"].endswith("operator()"):
                        todo.append(g)
    return order
