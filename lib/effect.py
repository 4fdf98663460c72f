"""Does a value have any bearing on what the program does?

A value matters if it decides a branch that does something, is returned, thrown,
handed to code outside the program, stored where it is read later, or reaches a
parameter, variable, field or result that matters.  The answer is computed
flow-insensitively from the uses of each of these; a cycle of copies that
nothing else reads does not matter.
"""

from program import children, fn_nodes, uncast, walk

MUTATING = {"push_back", "emplace_back", "insert", "emplace", "operator=", "operator+=", "append", "assign", "push_front", "reset", "operator|=", "swap", "push"}


def parents(f):
    m = f.get("_parents")
    if m is None:
        m = {}

        def go(n):
            for c in children(n):
                if c is not None:
                    m[id(c)] = n
                    go(c)
        for i in f.get("inits", ()):
            if i.get("e") is not None:
                m[id(i["e"])] = {"k": "init_of", "i": i, "l": f["l"]}
                go(i["e"])
        if f.get("body") is not None:
            go(f["body"])
        f["_parents"] = m
    return m


class Effect:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.uses = {}          # id of function -> {var id: [nodes]}
        self.reads = {}         # (class, field) -> [(f, node)]
        self.sites = {}         # usr -> [(f, call node)]
        for f in prog.fns:
            if f.get("body") is None:
                continue
            for n in fn_nodes(f):
                k = n.get("k")
                if k == "mem":
                    self.reads.setdefault((n.get("cls"), n["n"]), []).append((f, n))
                elif k in ("call", "ctor"):
                    for t in prog.targets(n) or ():
                        self.sites.setdefault(t["u"], []).append((f, n))

    def vars(self, f):
        u = self.uses.get(id(f))
        if u is None:
            u = {}
            for n in fn_nodes(f):
                if n.get("k") == "var":
                    u.setdefault(n["id"], []).append(n)
            self.uses[id(f)] = u
        return u

    def guard(self, key, go):
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        r = go()
        if r:
            self.memo[key] = True
        else:
            del self.memo[key]
        return r

    def var(self, f, vid):
        return self.guard(("v", id(f), vid), lambda: any(self.node(f, n) for n in self.vars(f).get(vid, ())))

    def field(self, cls, name):
        return self.guard(("f", cls, name), lambda: any(self.node(f, n) for f, n in self.reads.get((cls, name), ())))

    def param(self, f, i):
        if i >= len(f["ps"]):
            return True
        return f.get("body") is None or self.var(f, f["ps"][i]["id"])

    def result(self, f):
        """What f returns is used by some caller."""
        def go():
            ss = self.sites.get(f["u"])
            if not ss:
                return True             # called from outside, or a lambda
            return any(self.node(g, n) for g, n in ss)
        return self.guard(("r", f["u"]), go)

    def acts(self, f, s):
        """A statement that does something."""
        for n in walk(s):
            k = n.get("k")
            if k in ("throw", "return", "break", "continue", "delete"):
                return True
            if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                if self.target(f, n["a"]):
                    return True
            if k == "un" and n["op"] in ("++", "--", "p++", "p--", "++p", "--p"):
                if self.target(f, n.get("e")):
                    return True
            if k == "call" and not n.get("const"):
                p = parents(f).get(id(n))
                if p is not None and p.get("k") in ("block", "if", "for", "while", "rfor", "do", "case", "default"):
                    return True
                if n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">=") and self.target(f, n["a"][0]):
                    return True
        return False

    def target(self, f, e):
        """Something is stored in e."""
        e = uncast(e) if e is not None else None
        if e is None:
            return True
        if e["k"] == "var" and not e.get("g"):
            return self.var(f, e["id"])
        if e["k"] == "mem":
            return self.field(e.get("cls"), e["n"])
        if e["k"] in ("idx", "call") and (e.get("op") == "[]" or e["k"] == "idx"):
            b = e["a"] if e["k"] == "idx" else e["a"][0]
            return self.target(f, b)
        return True

    def node(self, f, n):
        """The value of expression n has a bearing."""
        return self.guard(("n", id(n)), lambda: self._node(f, n))

    def _node(self, f, n):
        p = parents(f).get(id(n))
        if p is None:
            return True
        k = p.get("k")
        if k == "init_of":
            i = p["i"]
            if i.get("m"):
                return self.field(f["cls"], i["m"])
            return True
        if k in ("block", "case", "default", "label", "other_s", "null_s"):
            if k == "case" and p.get("c") is n:
                return True
            return False                # an expression statement: the value is dropped
        if k == "decl":
            return True
        if k == "if":
            return p.get("c") is not n or self.acts(f, p["th"]) or p.get("el") is not None and self.acts(f, p["el"])
        if k in ("while", "do", "for", "switch"):
            if k == "for" and n is p.get("inc"):
                return False
            return True
        if k == "rfor":
            if p.get("r") is n:
                v = p.get("v")
                return (v is not None and self.var(f, v["id"])) or self.acts(f, p["s"])
            return False
        if k in ("return", "throw"):
            return True if k == "throw" or self.in_lambda(f, p) else self.result(f)
        if k is None and "id" in p:
            return self.var(f, p["id"])
        if k == "bin" and p["op"].endswith("=") and p["op"] not in ("==", "!=", "<=", ">="):
            if p["b"] is n:
                return self.target(f, p["a"]) or self.node(f, p)
            return p["op"] != "=" and False or self.node(f, p)
        if k == "bin" and p["op"] == "," and p["a"] is n:
            return False
        if k == "lambda":
            return True
        if k in ("call", "ctor"):
            return self._arg(f, n, p)
        if k == "init":
            return self.node(f, p)
        return self.node(f, p)

    def in_lambda(self, f, n):
        m = parents(f)
        while n is not None:
            if n.get("k") == "lambda":
                return True
            n = m.get(id(n))
        return False

    def _arg(self, f, n, p):
        tg = self.prog.targets(p) or ()
        args = p.get("a") or []
        op = p.get("op")
        nm = (p.get("f") or p.get("cls") or "").split("::")[-1]
        if p.get("obj") is n:
            if tg:
                return True if not p.get("const") else self.node(f, p)
            if nm in MUTATING:
                return self.node(f, p)
            return self.node(f, p) or not p.get("const")
        if op and op.endswith("=") and op not in ("==", "!=", "<=", ">=") and args:
            return self.target(f, args[0]) if args[0] is not n else self.node(f, p)
        for i, a in enumerate(args):
            if a is n:
                off = 1 if op and p["k"] == "call" and len(args) == (len(tg[0]["ps"]) + 1 if tg else -1) else 0
                if tg:
                    return any(self.param(t, i - off) for t in tg)
                if nm in MUTATING and p.get("obj") is not None:
                    return self.target(f, p["obj"])
                if p["k"] == "ctor" or p.get("const") or op:
                    if op in ("<<", ">>"):
                        return True
                    return self.node(f, p)
                # a function of some library: it may keep or print the value
                return True
        return True
