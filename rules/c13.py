"""C13: no object starts life with an indeterminate attribute."""

from facts import AnalysisBroken
from flow import Flow, N, THR
from program import fn_nodes, uncast, walk, where, const

TECHNIQUE = "definite-initialisation dataflow over every constructor and every plain local object"

SCALAR = {"int", "uint", "bool", "enum", "ptr", "float", "char", "memptr"}


def scalar(t):
    while t is not None and t.k == "arr":
        t = t.to
    return t is not None and t.k in SCALAR


def needs(prog, rec):
    """Scalar attributes of a class that nothing initialises by default."""
    return [f for f in rec.get("fields", ()) if scalar(f["t"]) and not f.get("i")]


def root_member(e):
    """Name of the member of *this an lvalue belongs to."""
    e = uncast(e)
    while e is not None:
        if e["k"] == "mem":
            b = uncast(e["b"])
            if b is not None and b["k"] == "this":
                return e["n"]
            e = b
        elif e["k"] == "idx":
            e = uncast(e["a"])
        elif e["k"] == "un" and e["op"] in ("*", "&"):
            e = uncast(e["e"])
        elif e["k"] == "call" and e.get("op") in ("[]", "*", "->"):
            e = uncast(e["a"][0])
        else:
            return None
    return None


class Init(Flow):
    """State: the set of members given a value so far."""
    max_states = 8000

    def __init__(self, prog, cls, names):
        Flow.__init__(self, prog)
        self.cls, self.names = cls, names

    def put(self, st, e):
        m = root_member(e)
        return st | {m} if m in self.names else st

    def after_init(self, f, i, st):
        if i.get("m") and len(self.stack) == 1 and not implicit_default(i):
            return st | {i["m"]}
        if i.get("deleg"):
            return frozenset(self.names)
        return st

    def inline_targets(self, n):
        o = n.get("obj")
        if n["k"] == "call" and o is not None and uncast(o)["k"] == "this":
            tg = [g for g in self.prog.targets(n) if g.get("cls") == self.cls and g.get("body")]
            return tg[:1] if len(tg) >= 1 else []
        return []

    def node(self, n, st):
        k = n["k"]
        if k == "bin" and n["op"] == "=":
            st = self.put(st, n["a"])
        yield (N, st)

    def call(self, n, st):
        ft = n.get("ft")
        ps = list(ft.ps) if ft is not None else []
        args = n["a"]
        if n.get("op") and len(ps) == len(args) - 1:
            ps = [None] + ps
        if n.get("op") == "=" and args:
            st = self.put(st, args[0])
            l = uncast(args[0])
            if l is not None and l["k"] == "call" and l.get("f") == "std::tie":
                for x in l["a"]:
                    st = self.put(st, x)
        for i, a in enumerate(args):
            p = ps[i] if i < len(ps) else None
            if p is not None and p.k in ("ref", "rref") and not (p.to and p.to.cst) and not p.cst:
                st = self.put(st, a)
            elif p is not None and p.k == "ptr" and not (p.to and p.to.cst):
                # address of a member, or a member array decaying to a pointer
                x = uncast(a)
                if x is not None and (x["k"] == "un" and x["op"] == "&" or x["k"] in ("mem", "cast", "idx", "bin")):
                    for y in walk(a):
                        if y.get("k") == "mem":
                            st = self.put(st, y)
            elif p is None and i == 0 and n.get("op") == ">>":
                pass
        if n.get("op") == ">>" and len(args) == 2:
            st = self.put(st, args[1])
        lam = [uncast(a) for a in args if uncast(a) is not None and uncast(a)["k"] == "lambda"]
        yield from Flow.default_call(self, n, st)

    def range_step(self, s, st):
        return st


def implicit_default(i):
    """An initialiser the compiler adds that leaves scalars alone."""
    if i.get("w"):
        return False
    e = i.get("e")
    return e is None or e.get("k") == "ctor" and e.get("dflt") and not e["a"]


def ctors(prog):
    for f in prog.fns + prog.patterns:
        if f.get("ctor") and f.get("cls") in prog.recs and not f.get("impl"):
            yield f


def check(prog, R):
    R.rule("constructor", "every constructor gives every scalar attribute a value on every path on which it completes", 100)
    R.rule("no-constructor", "a class without constructors is never default-constructed with scalar attributes left unset before use", 0)
    seen = set()
    for f in ctors(prog):
        rec = prog.recs[f["cls"]]
        need = needs(prog, rec)
        if not need or f.get("cpc") and not f.get("body") or f.get("mvc") and not f.get("body"):
            continue
        names = frozenset(x["n"] for x in need)
        if any(i.get("deleg") or i.get("base") is not None and i["base"].rec == f["cls"] for i in f.get("inits", ())):
            continue
        a = Init(prog, f["cls"], names)
        o = a.run(f, frozenset())
        missing = set()
        for st in o.r:
            missing |= names - st
        sig = f["ft"].s if f.get("ft") is not None else ""
        for m in sorted(missing):
            R.bad("constructor", "%s%s/%s" % (f["cls"], sig.replace("void ", ""), m), f,
                  "a constructor of %s can complete without giving %s a value" % (f["cls"], m))
        if not missing:
            R.ok("constructor", "%s %s: %d attributes" % (f["cls"], where(f), len(names)))
        seen.add(f["cls"])
    R.extra["classes"] = len(seen)
    plain(prog, R)
    R.rule("local", "a scalar local variable declared without a value is given one on every path before it is read", 10)
    locals_(prog, R)


class Plain(Flow):
    """A local object of a class without constructors: which attributes are set when it is used whole."""

    def __init__(self, prog, var, types):
        Flow.__init__(self, prog)
        self.v, self.names, self.types = var, frozenset(types), types
        self.bad = set()

    def lv(self, e):
        """(is the variable, member) of an lvalue."""
        e = uncast(e)
        m = None
        while e is not None:
            if e["k"] == "mem":
                m = e["n"]
                e = uncast(e["b"])
            elif e["k"] == "idx":
                e = uncast(e["a"])
            elif e["k"] == "un" and e["op"] == "&":
                e = uncast(e["e"])
            elif e["k"] == "var":
                return (e.get("id") == self.v["id"], m)
            else:
                return (False, None)
        return (False, None)

    def set(self, st, e, v=None):
        if st is None:
            return st
        mine, m = self.lv(e)
        if mine:
            if m is None:
                return frozenset(self.names)
            st = (st | {m}) - {("off", m)}
            if v is not None and const(v) == 0 and self.types.get(m) is not None and self.types[m].k in ("bool", "enum"):
                st = st | {("off", m)}
        return st

    def declare(self, v, st):
        return frozenset() if v["id"] == self.v["id"] else st

    def use(self, e, st, n):
        """A whole read of the object."""
        if st is None:
            return
        mine, m = self.lv(e)
        if mine and m is None and not (self.names <= st):
            # a result whose flag says "nothing here" may carry nothing else
            if not any(isinstance(x, tuple) for x in st):
                self.bad |= self.names - st
        elif mine and m is not None and m in self.names and m not in st:
            self.bad.add(m)

    def node(self, n, st):
        if n["k"] == "bin" and n["op"] == "=":
            st = self.set(st, n["a"], n["b"])
        yield (N, st)

    def call(self, n, st):
        ft = n.get("ft")
        ps = list(ft.ps) if ft is not None else []
        args = n["a"]
        if n.get("op") and len(ps) == len(args) - 1:
            ps = [None] + ps
        if n["k"] == "ctor" and (n.get("copy") or n.get("move")):
            self.use(args[0], st, n)
        else:
            for i, a in enumerate(args):
                p = ps[i] if i < len(ps) else None
                if p is None and n.get("op") == "=" and i == 0:
                    st = self.set(st, a)
                elif p is not None and (p.k in ("ref", "rref") and not p.cst and not (p.to and p.to.cst) or p.k == "ptr" and not (p.to and p.to.cst)):
                    st = self.set(st, a)
                else:
                    self.use(a, st, n)
        yield from Flow.default_call(self, n, st)

    def ret(self, n, st):
        if n.get("e") is not None:
            self.use(n["e"], st, n)
        return st


def plain(prog, R):
    has = {f["cls"] for f in ctors(prog)}
    count = 0
    for f in prog.fns:
        for n in fn_nodes(f, lambdas=False):
            if n.get("k") != "decl":
                continue
            for v in n["d"]:
                t = v["t"]
                if t is None or t.k != "rec" or t.rec not in prog.recs or t.rec in has or v.get("static"):
                    continue
                i = v.get("i")
                if i is not None and not (i.get("k") == "ctor" and i.get("dflt") and not i["a"]):
                    continue
                need = needs(prog, prog.recs[t.rec])
                if not need:
                    continue
                a = Plain(prog, v, {x["n"]: x["t"] for x in need})
                a.run(f, None)
                count += 1
                for m in sorted(a.bad):
                    R.bad("no-constructor", "%s/%s/%s" % (f["n"], v["n"], m), v, "%s.%s can be used in %s before it has a value" % (v["n"], m, f["n"]))
                if not a.bad:
                    R.ok("no-constructor", "%s %s" % (f["n"], v["n"]))
    R.extra["plain_locals"] = count


class Locals(Flow):
    """State: the scalar locals that have no value yet."""
    max_states = 4000

    def __init__(self, prog):
        Flow.__init__(self, prog)
        self.bad = {}
        self.vars = {}

    def declare(self, v, st):
        if v.get("id") is None:
            return st
        if v.get("i") is None and not v.get("static") and v.get("t") is not None and v["t"].k in SCALAR:
            self.vars[v["id"]] = v
            return st | {v["id"]}
        return st - {v["id"]}

    def destroy(self, v, st):
        return st - {v["id"]} if v.get("id") in st else st

    def put(self, st, e):
        e = uncast(e)
        while e is not None and (e["k"] == "un" and e["op"] == "&" or e["k"] == "cast"):
            e = uncast(e["e"])
        return st - {e["id"]} if e is not None and e["k"] == "var" and e.get("id") in st else st

    def read(self, n, st):
        if n is not None and n["k"] == "var" and n.get("id") in st:
            self.bad.setdefault(n["id"], n)

    def node(self, n, st):
        k = n["k"]
        if k == "var" and n.get("rv"):
            self.read(n, st)
        elif k == "bin" and n["op"] == "=":
            st = self.put(st, n["a"])
        elif k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            self.read(uncast(n["a"]), st)
        elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            self.read(uncast(n["e"]), st)
        elif k == "un" and n["op"] == "&":
            st = self.put(st, n["e"])
        elif k == "lambda":
            for c in walk(n):
                if c.get("k") == "var":
                    st = self.put(st, c)
        yield (N, st)

    def call(self, n, st):
        ft = n.get("ft")
        ps = list(ft.ps) if ft is not None else []
        if n.get("op") and len(ps) == len(n["a"]) - 1:
            ps = [None] + ps
        for i, a in enumerate(n["a"]):
            p = ps[i] if i < len(ps) else None
            if n.get("f") in READERS or p is not None and p.k == "ref" and p.to is not None and p.to.cst:
                self.read(uncast(a), st)
            else:
                st = self.put(st, a)
        yield from Flow.default_call(self, n, st)


# these take anything by reference but only ever read it
READERS = {"std::make_tuple", "std::make_pair", "std::move", "std::forward", "std::min", "std::max", "std::make_unique", "std::make_shared", "std::to_string"}


def locals_(prog, R):
    for f in prog.fns:
        if not f.get("body") or f["l"][0].startswith("gen/"):
            continue
        if not any(n.get("k") == "decl" and any(v.get("i") is None and v.get("t") is not None and v["t"].k in SCALAR and not v.get("static") for v in n["d"])
                   for n in fn_nodes(f, lambdas=False)):
            continue
        a = Locals(prog)
        a.run(f, frozenset())
        for i, v in a.vars.items():
            if i in a.bad:
                R.bad("local", "%s/%s" % (f["n"], v["n"]), a.bad[i], "%s can be used in %s before it has a value" % (v["n"], f["n"]))
            else:
                R.ok("local", "%s %s" % (f["n"], v["n"]))
