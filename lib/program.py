"""The resolved program: functions, records, enums, globals, types."""

import re
from facts import AnalysisBroken


class Type:
    __slots__ = ("s", "k", "to", "sz", "n", "cst", "rec", "bases", "targs", "ps", "rt")

    def __init__(self, s):
        self.s = s
        self.k = None
        self.to = self.sz = self.n = self.rec = self.rt = None
        self.cst = False
        self.bases = ()
        self.targs = ()
        self.ps = ()

    def __repr__(self):
        return self.s

    def deref(self):
        return self.to if self.k in ("ref", "rref") else self

    def __reduce__(self):
        return (_mk, (self.s,), (None, {k: getattr(self, k) for k in self.__slots__}))


def _mk(s):
    return Type(s)


def strip_targs(name):
    """Drop template argument lists: std::vector<int>::push_back -> std::vector::push_back."""
    if "<" not in name:
        return name
    m = re.search(r"operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*?|<|>)(?=$|<)", name)
    tail = ""
    if m:
        tail = name[m.start():m.end()]
        name = name[:m.start()]
    out, d = [], 0
    for c in name:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out) + tail


class Program:
    def __init__(self):
        self.types = {}
        self.fns = []           # functions with bodies (and defaulted ones), one per USR
        self.patterns = []      # uninstantiated template functions
        self.recs = {}
        self.enums = {}
        self.gvars = {}
        self._seen = set()
        self._vseen = set()
        self.ntu = 0

    # -- loading ---------------------------------------------------------
    def add_tu(self, d, gen):
        if d["errors"]:
            raise AnalysisBroken("%s does not parse (%d errors)" % (d["main"], d["errors"]))
        self.ntu += 1
        tu = self.ntu
        tab = []
        for t in d["types"]:
            s = t["s"]
            T = self.types.get(s)
            if T is None:
                T = self.types[s] = Type(s)
            tab.append(T)
        for t, T in zip(d["types"], tab):
            if T.k is None or (T.k == "rec" and T.sz is None and "sz" in t):
                T.k = t["k"]
                T.sz = t.get("sz")
                T.n = t.get("n")
                T.cst = t.get("cst", False)
                T.rec = t.get("rec")
                T.bases = tuple(t.get("bases", ()))
                T.targs = tuple(tab[x] if isinstance(x, int) else None for x in t.get("targs", ()))
                T.to = tab[t["to"]] if "to" in t and t["to"] >= 0 else None
                T.ps = tuple(tab[x] for x in t.get("ps", ()))
                T.rt = tab[t["rt"]] if "rt" in t and t["rt"] >= 0 else None
        repo = self.repo.rstrip("/") + "/"
        files = []
        for f in d["files"]:
            if f.startswith(repo):
                f = f[len(repo):]
            elif f.startswith(gen):
                f = "gen" + f[len(gen):]
            files.append(f)
        TK = ("t", "vt", "ft", "rt", "at", "bt", "tt", "ot", "of", "ct", "base")

        def fix(n):
            if isinstance(n, list):
                for x in n:
                    if isinstance(x, (dict, list)):
                        fix(x)
                return
            for k, v in list(n.items()):
                if k == "l":
                    n["l"] = (files[v[0]], v[1], v[2])
                elif k in TK:
                    if isinstance(v, int):
                        n[k] = tab[v] if v >= 0 else None
                elif k == "id":
                    n["id"] = (tu, v)
                elif isinstance(v, (dict, list)):
                    fix(v)
            f = n.get("f")
            if f is not None:
                n["f"] = strip_targs(f)
                n["ff"] = f

        for f in d["functions"]:
            loc = f.get("l")
            key = (f["u"], files[loc[0]] if loc else None, loc[1] if loc else None)
            if key in self._seen:
                continue
            self._seen.add(key)
            fix(f)
            f["fn"] = f["n"]
            f["n"] = strip_targs(f["n"])
            f["tu"] = d["main"]
            (self.patterns if f.get("dep") else self.fns).append(f)
        for r in d["records"]:
            if r["n"] in self.recs or r.get("lambda"):
                continue
            fix(r)
            self.recs[r["n"]] = r
        for e in d["enums"]:
            if e["n"] not in self.enums:
                fix(e)
                self.enums[e["n"]] = e
        for v in d["vars"]:
            loc = v.get("l")
            key = (v["q"], files[loc[0]], loc[1])
            if key in self._vseen:
                continue
            self._vseen.add(key)
            fix(v)
            self.gvars.setdefault(v["q"], []).append(v)

    def finish(self):
        self.by_usr = {}
        self.by_name = {}
        for f in self.fns:
            if f["u"] not in self.by_usr or f.get("body"):
                self.by_usr[f["u"]] = f
            self.by_name.setdefault(f["n"], []).append(f)
        # A lambda kept in a variable is called like a function.
        import lambdas
        for f in self.fns:
            if f.get("body") and not f.get("dep") and any(x.get("k") == "lambda" for x in fn_nodes(f)):
                lambdas.write_out(f)
        for f in self.fns:
            for x in fn_nodes(f):
                if x.get("k") == "lambda" and x["fn"].get("u") and x["fn"].get("body") and not x["fn"].get("dep"):
                    g = x["fn"]
                    g.setdefault("fn", g.get("n"))
                    g.setdefault("tu", f.get("tu"))
                    g["lam"] = True
                    self.by_usr.setdefault(g["u"], g)
        # An uninstantiated template is analysed as such only if nothing
        # instantiates it.
        locs = {f["l"] for f in self.fns if "l" in f}
        self.uninstantiated = [f for f in self.patterns if f.get("l") not in locs]
        self.over = {}
        for f in self.fns:
            for o in f.get("over", ()):
                self.over.setdefault(o, set()).add(f["u"])
        for r in self.recs.values():
            for m in r["methods"]:
                for o in m.get("over", ()):
                    self.over.setdefault(o, set()).add(m["u"])
        self.base_of = {}
        for n, r in self.recs.items():
            self.base_of[n] = [b["t"].rec for b in r["bases"] if b["t"] is not None and b["t"].rec]

    # -- queries ----------------------------------------------------------
    def fn(self, name, pred=None, one=True):
        c = [f for f in self.by_name.get(name, []) if f.get("body") and (pred is None or pred(f))]
        if not one:
            return c
        if len(c) != 1:
            raise AnalysisBroken("expected one definition of %s, found %d" % (name, len(c)))
        return c[0]

    def methods(self, cls):
        return [f for f in self.fns if f.get("cls") == cls and f.get("body")]

    def bases(self, cls):
        """All (transitive) bases of a record of the repository."""
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            for b in self.base_of.get(c, ()):
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def derived(self, cls):
        return [n for n in self.recs if cls in self.bases(n)]

    def targets(self, call):
        """Definitions a call may reach (class-hierarchy analysis)."""
        u = call.get("fu")
        if not u:
            return []
        out = []
        f = self.by_usr.get(u)
        if f and f.get("body"):
            out.append(f)
        if call.get("virt") and not call.get("qual"):
            todo, seen = [u], {u}
            while todo:
                for o in self.over.get(todo.pop(), ()):
                    if o not in seen:
                        seen.add(o)
                        todo.append(o)
                        g = self.by_usr.get(o)
                        if g and g.get("body"):
                            out.append(g)
        return out


# -- tree utilities --------------------------------------------------------
CHILD_SKIP = {"l", "t", "vt", "ft", "rt", "at", "bt", "tt", "ot", "of", "ct", "id", "caps"}


def children(n):
    for k, v in n.items():
        if k in CHILD_SKIP:
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n, lambdas=True):
    """All nodes at or below n in source order."""
    stack = [n]
    while stack:
        x = stack.pop()
        if x is None:
            continue
        yield x
        if not lambdas and x.get("k") == "lambda":
            continue
        stack.extend(reversed(list(children(x))))


def fn_nodes(f, lambdas=True):
    for i in f.get("inits", ()):
        if i.get("e"):
            yield from walk(i["e"], lambdas)
    if f.get("body"):
        yield from walk(f["body"], lambdas)


def calls(f, lambdas=True):
    return [n for n in fn_nodes(f, lambdas) if n.get("k") in ("call", "ctor")]


def where(n):
    l = n.get("l")
    return "%s:%d" % (l[0], l[1]) if l else "?"


def const(n):
    """Integer value of a constant expression, else None."""
    if n is None:
        return None
    if "cv" in n:
        return n["cv"]
    if n.get("k") in ("int", "bool", "enum"):
        return n["v"]
    return None


def uncast(n):
    while n is not None and n.get("k") == "cast":
        n = n["e"]
    return n
