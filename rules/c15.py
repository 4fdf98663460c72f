"""C15: mutable state shared by the whole process is only touched under its lock."""

from facts import AnalysisBroken
from flow import Flow, N, THR, ANY
from program import children, fn_nodes, uncast, walk, where

TECHNIQUE = "lock-set analysis over every access to a mutable static variable of the library"

LOCKS = {"std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock"}
READS = {"begin", "end", "cbegin", "cend", "find", "at", "count", "size", "empty", "contains", "data", "front", "back",
         "lower_bound", "upper_bound", "equal_range", "get", "c_str", "rbegin", "rend", "operator bool"}
SYNC = {"std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::atomic", "std::once_flag", "std::condition_variable", "std::atomic_flag"}


def links(root):
    """node -> parent for a tree."""
    up, todo = {}, [root]
    while todo:
        x = todo.pop()
        for c in children(x):
            up[id(c)] = x
            todo.append(c)
    return up


def target(t):
    return t.to if t is not None and t.k in ("ref", "rref") else t


class Shared:
    def __init__(self, prog):
        self.prog = prog
        self.refs = {}        # function usr -> variables/functions it mentions
        self.callers = {}     # usr -> set of caller usr or None (start-up)
        self.made = {}        # class -> set of caller usr or None
        self.define = set()
        for f in prog.fns:
            for n in fn_nodes(f):
                self._ref(n, f["u"])
                if n.get("k") == "call" and n.get("f", "").startswith("scm_c_define_gsubr"):
                    self.define.add(f["u"])
        for vs in prog.gvars.values():
            for v in vs:
                for n in walk(v["i"]) if v.get("i") else ():
                    self._ref(n, None)
        self.startup = {}

    def _ref(self, n, u):
        if n.get("k") in ("call", "ctor", "fn") and n.get("fu"):
            self.callers.setdefault(n["fu"], set()).add(u)
        if n.get("k") == "ctor":
            self.made.setdefault(n["cls"], set()).add(u)

    def is_startup(self, f, seen=()):
        """Runs only while static variables are initialised or destroyed, or while the
        Scheme module is being set up."""
        u = f["u"]
        if u in self.startup:
            return self.startup[u]
        if u in seen:
            return True
        if u in self.define:
            r = True
        else:
            cs = self.made.get(f["cls"], set()) if (f.get("ctor") or f.get("dtor")) else self.callers.get(u, set())
            r = bool(cs) and all(c is None or (c in self.prog.by_usr and self.is_startup(self.prog.by_usr[c], seen + (u,))) for c in cs)
        self.startup[u] = r
        return r

    def writes_itself(self, cls):
        """Does any method of the class change the object?"""
        cs = {cls} | set(self.prog.bases(cls))
        for f in self.prog.fns:
            if f.get("cls") in cs and not f.get("ctor") and not f.get("dtor") and not f.get("cpa") and not f.get("mva") and f.get("body") and not f.get("const"):
                up = None
                for n in fn_nodes(f):
                    if n.get("k") == "mem" and uncast(n["b"]).get("k") == "this":
                        up = up or links({"k": "root", "s": f["body"]})
                        if self.access(n, up) != "read":
                            return True
        return False

    def access(self, n, up):
        """How an expression naming a variable is used: read, write, or escape."""
        if n.get("rv"):
            return "read"
        x, p = n, up.get(id(n))
        while p is not None:
            k = p.get("k")
            if p.get("rv") and k in ("mem", "idx", "cast"):
                return "read"
            if k == "cast":
                t = p.get("t")
                if t is not None and t.cst:
                    return "read"
            elif k == "mem" and p.get("b") is x:
                pass
            elif k == "idx" and p.get("a") is x:
                pass
            elif k == "un":
                if p["op"] in ("++", "--", "p++", "p--"):
                    return "write"
                if p["op"] == "&":
                    t = p.get("t")
                    if t is not None and t.k == "ptr" and t.to is not None and t.to.cst:
                        return "read"
                    return "escape"
                if p["op"] != "*":
                    return "read"
            elif k == "bin":
                if p["op"].endswith("=") and p["op"] not in ("==", "!=", "<=", ">=") and p.get("a") is x:
                    return "write"
                return "read"
            elif k in ("call", "ctor"):
                if p.get("obj") is x:
                    m = (p.get("f") or "").split("::")[-1]
                    return "read" if p.get("const") or m in READS else "write"
                ps = p["ft"].ps if p.get("ft") is not None else ()
                args = p["a"]
                if p.get("op") and len(ps) == len(args) - 1:
                    if args[0] is x:
                        return "read" if p.get("const") else "write"
                    args = args[1:]
                for a, t in zip(args, ps):
                    if a is x:
                        if t.k in ("ref", "rref"):
                            return "read" if t.to.cst or t.cst else "escape"
                        if t.k == "ptr":
                            return "read" if t.to is not None and t.to.cst else "escape"
                return "read"
            elif k == "return":
                return "ret"
            elif k == "decl":
                return "read"
            elif "i" in p and p.get("i") is x and p.get("t") is not None:
                t = p["t"]
                if t.k in ("ref", "rref") and not t.to.cst or t.k == "ptr" and t.to is not None and not t.to.cst:
                    return "escape"
                return "read"
            else:
                return "read"
            x, p = p, up.get(id(p))
        return "read"


class LockFlow(Flow):
    """State: the set of (holder, mutex) pairs held."""

    def __init__(self, prog, names):
        Flow.__init__(self, prog)
        self.names = names
        self.at = {}           # id(var node) -> intersection of held mutexes
        self.calls = {}        # callee usr -> intersection over call sites

    def mutex(self, e):
        e = uncast(e)
        while e is not None and e["k"] in ("un", "ctor") and (e["k"] == "un" or len(e["a"]) == 1):
            e = uncast(e["e"] if e["k"] == "un" else e["a"][0])
        if e is None or e["k"] != "var" or not e.get("g"):
            return None            # a mutex nobody else can see protects nothing
        return (e["q"], e["l"][0] if e["g"] == "g" else "")

    def declare(self, v, st):
        t = v.get("t")
        i = uncast(v.get("i"))
        if t is not None and t.rec in LOCKS and i is not None and i["k"] == "ctor" and i["a"]:
            if any("defer_lock" in str(x.get("q", "")) or "try_to_lock" in str(x.get("q", "")) for a in i["a"] for x in walk(a)):
                return st
            ms = {self.mutex(a) for a in i["a"]} - {None}
            return st | {(v["id"], m) for m in ms}
        return st

    def destroy(self, v, st):
        return frozenset(x for x in st if x[0] != v["id"])

    def node(self, n, st):
        self.see(n, st)
        if n["k"] == "lambda" and n.get("fn", {}).get("body"):
            self.stmts([n["fn"]["body"]], {st})
        yield (N, st)

    def see(self, n, st):
        if n["k"] == "var" and id(n) in self.names:
            held = frozenset(m for _, m in st)
            self.at[id(n)] = self.at[id(n)] & held if id(n) in self.at else held

    def call(self, n, st):
        held = frozenset(m for _, m in st)
        for g in self.prog.targets(n):
            self.calls[g["u"]] = self.calls[g["u"]] & held if g["u"] in self.calls else held
        m = (n.get("f") or "").split("::")[-1]
        o = uncast(n.get("obj"))
        if o is not None and m in ("lock", "unlock") and o.get("t") is not None:
            if o["t"].rec in LOCKS and o["k"] == "var":
                if m == "unlock":
                    st = frozenset(x for x in st if x[0] != o["id"])
            elif o["t"].rec in SYNC:
                mu = self.mutex(o)
                if mu:
                    st = st | {("raw", mu)} if m == "lock" else frozenset(x for x in st if x[1] != mu)
        yield (N, st)
        if self.may_throw(n):
            yield (THR, st, ANY)


def check(prog, R):
    R.rule("locked", "a static variable that changes after start-up is only touched while its lock is held", 3)
    R.rule("constant", "any other static variable does not change after start-up, or every thread has its own", 5)
    sh = Shared(prog)
    stat = {}              # key -> {"v": decl, "uses": [(f, node, kind)]}

    def lib(l):
        return l[0].startswith("scribbu/")

    for q, vs in prog.gvars.items():
        for v in vs:
            t = target(v["t"])
            if t is None or not lib(v["l"]) or t.cst or t.rec in SYNC or t.k == "arr" and t.to is not None and t.to.cst:
                continue
            stat[(q, "" if v.get("sm") else v["l"][0])] = {"v": v, "uses": [], "n": q}
    for f in prog.fns:
        if not f.get("body") or not lib(f["l"]):
            continue
        for n in fn_nodes(f):
            for v in n["d"] if n.get("k") == "decl" else ():
                if v.get("static") and v.get("t") is not None and not v["t"].cst and target(v["t"]).rec not in SYNC:
                    if v["t"].k == "arr" and v["t"].to is not None and v["t"].to.cst:
                        continue
                    stat[("local", f["u"], v["n"])] = {"v": v, "uses": [], "n": "%s::%s" % (f["n"], v["n"])}
    if not stat:
        raise AnalysisBroken("no static variables found")
    fns = [f for f in prog.fns if f.get("body") and not f["l"][0].startswith("gen/")]
    names, work = {}, []
    for f in fns:
        hit = []
        for n in fn_nodes(f):
            if n.get("k") == "var" and n.get("g") and not n.get("tls"):
                key = ("local", f["u"], n["n"]) if n["g"] == "sl" else (n["q"], "" if n["g"] == "sm" else None)
                if key[-1] is None:
                    key = (n["q"], f["l"][0])
                    if key not in stat:
                        c = [k for k in stat if k[0] == n["q"] and k[0] != "local"]
                        key = c[0] if len(c) == 1 else key
                if key in stat:
                    hit.append((key, n))
        if hit:
            up = links({"k": "root", "s": f["body"], "i": [i["e"] for i in f.get("inits", ()) if i.get("e")]})
            for key, n in hit:
                stat[key]["uses"].append((f, n, sh.access(n, up)))
                names[id(n)] = key
            work.append(f)
    lf = LockFlow(prog, names)
    # callers of those functions too, so that a lock taken by every caller counts
    near = {f["u"] for f in work}
    for f in fns:
        if f["u"] in near or any(g["u"] in near for n in fn_nodes(f) if n.get("k") in ("call", "ctor") for g in prog.targets(n)):
            if not f["l"][0].startswith("gen/"):
                lf.run(f, frozenset())
    for key, s in sorted(stat.items(), key=lambda x: str(x[0])):
        v, name = s["v"], s["n"] + ("" if key[0] == "local" or key[1] == "" else "@" + key[1])
        if v.get("tls"):
            R.ok("constant", name)
            continue
        changing = None
        for f, n, how in s["uses"]:
            if sh.is_startup(f):
                continue
            if how in ("escape", "ret"):
                t = target(n.get("t"))
                if t is not None and t.rec in prog.recs and not sh.writes_itself(t.rec):
                    how = "read"
                elif how == "ret":
                    rt = f.get("rt")
                    how = "escape" if rt is not None and (rt.k == "ref" and not rt.to.cst or rt.k == "ptr" and not (rt.to and rt.to.cst)) else "read"
            if how != "read":
                changing = changing or (f, n)
        if changing is None:
            R.ok("constant", name)
            continue
        common, bad = None, False
        for f, n, how in s["uses"]:
            if sh.is_startup(f):
                continue
            held = lf.at.get(id(n), frozenset()) | lf.calls.get(f["u"], frozenset())
            common = held if common is None else common & held
            k = "%s in %s" % (name, f["n"])
            rt = f.get("rt")
            if how == "ret" and rt is not None and rt.k in ("ref", "ptr"):
                R.bad("locked", k.replace(" ", "_"), n, "%s hands out %s, which changes after start-up, beyond the protection of any lock" % (f["n"], s["n"]))
                bad = True
            elif not held:
                R.bad("locked", k.replace(" ", "_"), n, "%s touches %s without holding a lock, and it changes after start-up (%s at %s)"
                      % (f["n"], s["n"], changing[0]["n"], where(changing[1])))
                bad = True
            else:
                R.ok("locked", k)
        if not bad and not common:
            R.bad("locked", name + "/mutex", v, "accesses to %s are protected by different locks" % s["n"])
    R.assumptions.append("the command-line program itself (src/) runs on one thread; the Scheme module is set up once")
