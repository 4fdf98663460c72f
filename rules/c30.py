"""C30: no object is used after its ownership was given away."""

from flow import Flow, N, THR
from program import fn_nodes, uncast, where

TECHNIQUE = "typestate of handles over every path: given away, deleted or still owned"

RESET = {"reset", "clear", "assign", "swap", "operator="}
SMART = ("std::unique_ptr", "std::shared_ptr", "boost::shared_ptr", "boost::scoped_ptr", "boost::shared_array", "std::auto_ptr")


def moved(e):
    """The lvalue std::move is applied to."""
    e = uncast(e)
    if e is not None and e["k"] == "call" and e.get("f") == "std::move" and len(e["a"]) == 1:
        return uncast(e["a"][0])
    return None


def scalar(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t is None or t.k not in ("rec",)


class Handles(Flow):
    """State: {(key, how)} handles that no longer own anything."""
    max_states = 4000

    def __init__(self, prog):
        Flow.__init__(self, prog)
        self.bad = {}
        self.transfers = set()

    def key(self, e):
        e = uncast(e)
        if e is None:
            return None
        if e["k"] == "var":
            return e.get("id") or ("g", e.get("q"))
        if e["k"] == "mem":
            b = uncast(e["b"])
            if b["k"] == "this":
                return ("this", e["n"])
            k = self.key(b)
            return (k, e["n"]) if k is not None else None
        return None

    def gone(self, st, k):
        for x, how in st:
            if x == k:
                return how
        return None

    def give(self, st, e, how, n):
        k = self.key(e)
        if k is None:
            return st
        self.transfers.add((where(n), n["l"][2]))
        return st | {(k, how)}

    def back(self, st, e):
        k = self.key(e)
        return frozenset(x for x in st if x[0] != k and not (isinstance(x[0], tuple) and x[0][0] == k)) if k is not None else st

    def use(self, e, st, n, what):
        k = self.key(e)
        how = self.gone(st, k) if k is not None else None
        if how is not None:
            x = uncast(e)
            self.bad.setdefault((x.get("n"), how, what), n)

    def declare(self, v, st):
        if v.get("id") is None:
            return st
        return frozenset(x for x in st if x[0] != v["id"])

    def node(self, n, st):
        k = n["k"]
        if k == "delete":
            self.use(n["e"], st, n, "deleted again")
            st = self.give(st, n["e"], "deleted", n)
        elif k == "un" and n["op"] == "*":
            self.use(n["e"], st, n, "dereferenced")
        elif k == "mem" and n.get("arrow"):
            self.use(n["b"], st, n, "dereferenced")
        elif k == "bin" and n["op"] == "=":
            st = self.back(st, n["a"])
        elif k == "idx":
            self.use(n["a"], st, n, "indexed")
        yield (N, st)

    def call(self, n, st):
        name = (n.get("f") or "").split("::")[-1]
        args = n["a"]
        if n.get("f") == "std::move":
            # giving away twice is as bad as using
            if args and not scalar(args[0].get("t")):
                self.use(args[0], st, n, "given away again")
            yield (N, st)
            return
        o = n.get("obj")
        pre = st
        if n["k"] == "call" and o is not None:
            if name in RESET:
                st = self.back(st, o)
            elif name == "release" and (n.get("ot") is None or True) and smart(o):
                st = self.give(st, o, "released", n)
            else:
                self.use(o, st, n, "used")
        ft = n.get("ft")
        ps = list(ft.ps) if ft is not None else []
        if n.get("op") and len(ps) == len(args) - 1:
            ps = [None] + ps
        if n.get("op") == "=" and args:
            st = self.back(st, args[0])
        elif n.get("op") in ("*", "->", "[]", "()", "<<", ">>") and args:
            self.use(args[0], st, n, "dereferenced" if n["op"] in ("*", "->") else "used")
        for i, a in enumerate(args):
            m = moved(a)
            p = ps[i] if i < len(ps) else None
            if m is not None:
                # passing an rvalue to something that only looks at it gives nothing away
                if p is not None and p.k == "ref" or scalar(m.get("t")):
                    continue
                st = self.give(st, m, "moved from", n)
            elif i > 0 or not n.get("op"):
                x = uncast(a)
                if x is not None and x["k"] in ("var", "mem") and not scalar(x.get("t")) and not (p is not None and p.k in ("ref",) and not (p.to and p.to.cst)):
                    self.use(a, pre, n, "passed on")
        if (n.get("f") or "") in ("free", "::free") and args:
            self.use(args[0], st, n, "freed again")
            st = self.give(st, args[0], "freed", n)
        yield from Flow.default_call(self, n, st)

    def ret(self, n, st):
        if n.get("e") is not None:
            x = uncast(n["e"])
            if x["k"] == "var" and not scalar(x.get("t")):
                self.use(x, st, n, "returned")
        return st


def smart(o):
    t = o.get("t")
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t is not None and t.rec is not None and t.rec.startswith(SMART)


def interesting(f):
    for n in fn_nodes(f, lambdas=False):
        k = n.get("k")
        if k == "delete" or k == "call" and ((n.get("f") in ("std::move", "free", "::free")) or (n.get("f") or "").endswith("::release")):
            return True
    return False


def untyped(prog, R):
    """What a class keeps behind an untyped pointer is always treated as the same type."""
    use = {}
    for f in prog.fns:
        if not f.get("cls") or f["l"][0].startswith("gen/"):
            continue
        for n in fn_nodes(f):
            if n.get("k") == "cast" and pointee(n.get("t")) and pointee((uncast(n["e"]) or {}).get("t")) == "void":
                use.setdefault(f["cls"], {}).setdefault(pointee(n["t"]), n)
            elif n.get("k") == "bin" and n["op"] == "=" and pointee(n["a"].get("t")) == "void":
                t = pointee((uncast(n["b"]) or {}).get("t"))
                if t and t != "void":
                    use.setdefault(f["cls"], {}).setdefault(t, n)
    for c, ts in sorted(use.items()):
        root = {t for t in ts if not any(t != u and u in prog.bases(t) for u in ts)}
        if len(root) == 1:
            R.ok("one-type", c)
        else:
            R.bad("one-type", c, list(ts.values())[-1], "%s treats what it keeps behind an untyped pointer as %s" % (c, " and as ".join(sorted(ts))))


def pointee(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    if t is None or t.k != "ptr" or t.to is None:
        return None
    return t.to.rec or t.to.k if t.to.k in ("rec", "void") else t.to.s


def check(prog, R):
    R.rule("one-type", "an object stored behind an untyped pointer is created, copied and deleted as one type", 1)
    untyped(prog, R)
    R.rule("handed-over", "a handle that was moved from, released, deleted or freed is not used again before it is given a new value", 20)
    total = 0
    for f in prog.fns:
        if not f.get("body") or f["l"][0].startswith("gen/") or not interesting(f):
            continue
        todo = [f] + [dict(n["fn"], n=f["n"], u=f["u"], inits=()) for n in fn_nodes(f) if n.get("k") == "lambda" and n.get("fn")]
        bad, tr = {}, set()
        for g in todo:
            a = Handles(prog)
            a.run(g, frozenset())
            bad.update(a.bad)
            tr |= a.transfers
        total += len(tr)
        for (v, how, what), n in sorted(bad.items(), key=lambda x: str(x[0])):
            R.bad("handed-over", "%s/%s/%s" % (f["n"], v, how.replace(" ", "-")), n, "%s is %s in %s after it was %s" % (v, what, f["n"], how))
        if not bad and tr:
            R.ok("handed-over", "%s: %d transfers" % (f["n"] + (f["ft"].s if f.get("ft") is not None else ""), len(tr)))
    R.extra["transfers"] = total
