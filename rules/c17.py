"""C17: failures surface as standard exceptions and a non-zero exit status."""

from facts import AnalysisBroken
from flow import N, THR, ANY
from program import calls, const, fn_nodes, uncast, walk, where
from prov import handlers
from sym import ConstFlow

TECHNIQUE = "type check of every throw expression; path-sensitive exit-status analysis of every command"

USAGE = 2


def std_exception(t):
    return t is not None and t.rec is not None and (t.rec == "std::exception" or "std::exception" in t.bases)


def can_throw(prog):
    """Functions from which a throw expression can be reached (handlers are not considered)."""
    s = {f["u"] for f in prog.fns if any(n.get("k") == "throw" for n in fn_nodes(f))}
    while True:
        k = len(s)
        for f in prog.fns:
            if f["u"] not in s and any(g["u"] in s for n in calls(f) for g in prog.targets(n)):
                s.add(f["u"])
        if len(s) == k:
            return s


class Status(ConstFlow):
    def __init__(self, prog, throwers):
        ConstFlow.__init__(self, prog)
        self.throwers = throwers
        self.depth = 0
        self.sites = {}

    def inline_targets(self, n):
        # helpers that turn an exception into a status
        return [g for g in self.prog.targets(n) if g["l"][0].startswith("src/") and g.get("rt") is not None and g["rt"].k in ("int", "bool")
                and any(x.get("k") == "try" for x in fn_nodes(g))] if n["k"] == "call" and not n.get("virt") else []

    def may_throw(self, n):
        if n.get("f", "").startswith("boost::program_options"):
            return n["f"].split("::")[-1] in ("store", "notify", "run", "as") or "parse" in n["f"].split("::")[-1]
        tg = self.prog.targets(n)
        if tg:
            return any(g["u"] in self.throwers for g in tg)
        if n["k"] == "call" and n.get("fe") is not None:
            return True                     # through a function pointer
        return n.get("f", "").startswith("std::for_each") or n.get("f", "").startswith("std::filesystem::") and not n.get("nt")

    def matches(self, h, e):
        # by the first rule whatever is thrown is a standard exception
        t = h.get("t")
        if e == ANY and t is not None and t.deref().rec == "std::exception":
            return "all"
        return ConstFlow.matches(self, h, e)

    def enter_handler(self, h, st):
        t = h.get("t")
        rec = t.deref().rec if t is not None else None
        usage = bool(rec) and rec.startswith("boost::program_options::")
        return st.with_ext("usage" if usage else "failed")

    def apply_lambda(self, n, lam, st):
        ns, ts = ConstFlow.apply_lambda(self, n, lam, st)
        return ns, ts | {(st, ANY)}


def nonzero(t, st):
    if t is None:
        return None
    if t[0] == "c":
        return t[1] != 0
    if t[0] == "ite":
        a, b = nonzero(t[2], st), nonzero(t[3], st)
        return a if a == b else None
    return None


def check(prog, R):
    R.rule("throw-type", "what is thrown is an object derived from std::exception, by value", 60)
    R.rule("status", "a command that catches an exception returns a non-zero status; wrong usage gives the usage status", 8)
    R.rule("contained", "no exception leaves a command's entry point", 8)
    R.rule("diagnosed", "a command that carries on after an error reports it on the error stream or through its result", 1)

    for f in prog.fns + prog.patterns:
        for n in fn_nodes(f):
            if n.get("k") == "throw" and n.get("tt") is not None:
                t = n["tt"]
                if t.k == "dep":
                    continue
                if std_exception(t):
                    R.ok("throw-type", "%s %s" % (where(n), t.s))
                else:
                    R.bad("throw-type", "%s/%s" % (f["n"], t.s), n, "%s throws %s, which is not derived from std::exception" % (f["n"], t.s))

    H = handlers(prog)
    mains = [f for f in prog.fns if f["n"] == "main" and f["l"][0].startswith("src/")]
    if not H or not mains:
        raise AnalysisBroken("commands or main not found")
    throwers = can_throw(prog)
    for name, h in sorted(list(H.items()) + [("main", mains[0])]):
        a = Status(prog, throwers)
        o = a.run(h, a.start(h))
        bad = False
        for st in o.r:
            if st.ext is None:
                continue
            t = st.get(("ret", 1)) or st.get(("ret", 0))
            v = nonzero(t, st)
            if v is not True:
                R.bad("status", name + "/" + st.ext, h, "`%s' can return success after catching an error" % name)
                bad = True
            elif st.ext == "usage" and t != ("c", USAGE):
                R.bad("status", name + "/usage-status", h, "`%s' does not return the usage status for wrong usage" % name)
                bad = True
            elif st.ext == "failed" and t == ("c", USAGE):
                R.bad("status", name + "/failure-status", h, "`%s' returns the usage status for a failure" % name)
                bad = True
        if not any(st.ext for st in o.r):
            R.bad("status", name + "/none", h, "`%s' catches nothing" % name)
            bad = True
        if not bad:
            R.ok("status", name)
        esc = [(st, e) for st, e in o.t]
        if esc:
            e = esc[0][1]
            R.bad("contained", name, h, "an exception (%s) can leave `%s'" % ("any" if e == ANY else e, name))
        else:
            R.ok("contained", name)

    for f in prog.fns:
        if not f["l"][0].startswith("src/") or f["u"] in {h["u"] for h in list(H.values()) + mains}:
            continue
        for n in fn_nodes(f):
            if n.get("k") != "try":
                continue
            for h in n["h"]:
                t = h.get("t")
                rec = t.deref().rec if t is not None else None
                if rec not in (None, "std::exception"):
                    continue
                ok = False
                for x in walk(h["s"]):
                    if x.get("k") == "throw" or x.get("k") == "var" and x.get("q") in ("std::cerr", "std::clog"):
                        ok = True
                    if x.get("k") == "call" and any("ostream" in (a.get("t").s if a.get("t") is not None else "") for a in x["a"]):
                        ok = True
                    if x.get("k") == "return" and x.get("e") is not None:
                        ok = True
                if ok:
                    R.ok("diagnosed", "%s %s" % (f["n"], where(n)))
                else:
                    R.bad("diagnosed", f["n"], n, "%s swallows an exception without reporting it" % f["n"])
