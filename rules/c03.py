"""C03: dry runs, queries and no-op edits never modify a file."""

import fsops
from c01 import roots
from facts import AnalysisBroken
from flow import Flow, N, THR
from program import calls, const, fn_nodes, uncast, walk, where
from prov import Implies, Prov, handlers, reachable
from sym import SymFlow, State, mkbin, norm_cond, truth_of

TECHNIQUE = "call-graph reachability, option provenance and path-sensitive guard analysis"

QUERIES = ("dump", "report", "m3u", "encodings", "split")
TAGS = ("scribbu::id3v1_tag", "scribbu::id3v2_tag", "scribbu::id3v2_frame")


def declared(prog, h):
    """Names of the options a handler (with its helpers) declares."""
    out = set()
    for f in reachable(prog, [h]):
        if f["l"][0] != h["l"][0]:
            continue
        for n in calls(f):
            if "options_description_easy_init" in (n.get("f") or ""):
                for a in n["a"][1:2]:
                    a = uncast(a)
                    if a and a["k"] == "str":
                        out.add(a["v"].split(",")[0])
    return out


class Guard(Flow):
    """Is it known, at each site of interest, that this is not a dry run?"""

    def __init__(self, prog, prov, sites):
        Flow.__init__(self, prog)
        self.off = Implies(prog, prov, "dry-run", False)
        self.sites = sites
        self.seen = {}

    def assume(self, c, st, truth):
        st = Flow.assume(self, c, st, truth)
        if st is not None and self.off(c, truth):
            return True
        return st

    def call(self, n, st):
        if id(n) in self.sites:
            k = self.seen.setdefault(id(n), set())
            k.add(st)
        lam = [uncast(a) for a in n["a"] if uncast(a) is not None and uncast(a)["k"] == "lambda"]
        for l in lam:
            # the lambda runs, if at all, under what is known here
            self.stmts([l["fn"]["body"]], {st})
        yield from Flow.default_call(self, n, st)


def gate(prog, R, muts):
    R.rule("dry-run-gate", "in a command with a dry-run option, every call that changes files is reached only when that option is off", 3)
    R.rule("dry-run-passed", "the dry-run option's value is handed on wherever it is received", 3)
    H = handlers(prog)
    if not H:
        raise AnalysisBroken("no command handlers found")
    for name, h in sorted(H.items()):
        if "dry-run" not in declared(prog, h):
            continue
        fns = reachable(prog, [h])
        src = [f for f in fns if f["l"][0].startswith("src/")]
        prov = Prov(prog, src)
        sites = {}
        for f in src:
            for n in calls(f):
                o = fsops.op(n)
                if o and not all(own_temp(prov, a) for a in o[1]):
                    sites[id(n)] = (f, n, o[0])
                elif any(g["u"] in muts for g in prog.targets(n)):
                    sites[id(n)] = (f, n, n["f"].split("::")[-1])
        R.extra["mutating_sites_" + name] = len(sites)
        # walk outwards: a site not guarded in its own function must be guarded at every call of that function
        todo = [(i, ()) for i in sites]
        done = set()
        nodes = {id(n): (f, n) for f in src for n in fn_nodes(f) if n.get("k") in ("call", "ctor")}
        encl = {i: f for i, (f, n) in nodes.items()}
        while todo:
            i, chain = todo.pop()
            if i in done:
                continue
            done.add(i)
            f = encl[i]
            g = Guard(prog, prov, {i})
            g.run(f, False)
            got = g.seen.get(i)
            top = sites[chain[0]] if chain else sites[i]
            if got is None or got == {True}:
                R.ok("dry-run-gate", "%s: %s" % (name, where(top[1])))
                continue
            callers = prov.sites.get(f["u"], [])
            if f["u"] == h["u"] or not callers and not f.get("virt"):
                # library callbacks (std::for_each over a functor) run functors of the handler
                if f["u"] != h["u"] and f["n"].endswith("operator()"):
                    cs = [(c, m) for c in src for m in calls(c) if m["k"] == "ctor" and m.get("cls") == f.get("cls")]
                    if cs:
                        todo += [(id(m), (chain or (i,))) for c, m in cs]
                        continue
                R.bad("dry-run-gate", "%s/%s" % (name, top[2]), top[1],
                      "%s is reached by `%s' without the dry-run option being known to be off" % (top[2], name))
                continue
            if not callers:
                # reached through its base class
                for b in src:
                    for m in calls(b):
                        if any(t["u"] == f["u"] for t in prog.targets(m)):
                            callers.append((b, m))
            for c, m in callers:
                if c is not None:
                    todo.append((id(m), chain or (i,)))
        # parameters that carry the option must be used
        for f in src:
            for i, p in enumerate(f["ps"]):
                if p["t"].deref().k != "bool" or not f.get("u") or not prov.sites.get(f["u"]):
                    continue
                s = {x for x in prov.param(f, i)}
                if ("opt", "dry-run") not in s:
                    continue
                used = any(n.get("k") == "var" and n.get("id") == p["id"] for n in fn_nodes(f))
                used = used or any(n.get("k") == "var" and n.get("id") == p["id"] for x in f.get("inits", ()) if x.get("e") for n in walk(x["e"]))
                if not used:
                    R.bad("dry-run-passed", "%s/%s" % (name, f["n"]), f, "the dry-run flag given to %s is ignored" % f["n"])
                else:
                    R.ok("dry-run-passed", "%s: %s" % (name, f["n"]))
                # constants for it may only come from a constructor's own delegation
                for c, m in prov.sites.get(f["u"], ()):
                    if c is not None and i < len(m["a"]) and const(uncast(m["a"][i])) is not None and not c.get("ctor"):
                        if m["a"][i].get("k") != "dflt":
                            R.bad("dry-run-passed", "%s/%s/constant" % (name, f["n"]), m,
                                  "`%s' has a dry-run option but passes a constant for it here" % name)
    return H


def own_temp(prov, e):
    """A fresh name in the temporary directory."""
    s = prov.of(e)
    return any(x[0] == "call" and x[1].endswith("tmpnam") for x in s) and not any(x[0] in ("opt", "parm") for x in s)


def queries(prog, R, H, muts):
    R.rule("query", "a command that only reports changes no file named by its arguments and reaches no tag-writing routine", 5)
    for name in QUERIES:
        h = H.get(name)
        if h is None:
            raise AnalysisBroken("no handler for the %s command" % name)
        fns = reachable(prog, [h])
        bad = False
        prov = Prov(prog, [f for f in fns if f["l"][0].startswith("src/")])
        prov.restrict_unknown = True
        for f in fns:
            for n in calls(f):
                if any(g["u"] in muts for g in prog.targets(n)):
                    R.bad("query", "%s/%s" % (name, n["f"].split("::")[-1]), n,
                          "`%s' only reports, but reaches %s" % (name, n["f"]))
                    bad = True
                o = fsops.op(n)
                if not o or not f["l"][0].startswith("src/"):
                    continue
                for a in o[1]:
                    s = prov.of(a)
                    if own_temp(prov, a):
                        continue
                    if not any(x[0] == "opt" for x in s) or any(x[0] == "opt" and x[1] in ("arguments", "argument", "file") for x in s) or any(x[0] == "parm" for x in s):
                        R.bad("query", "%s/%s" % (name, o[0]), n, "`%s' only reports, but may %s a file given as an argument (%s)" % (
                            name, o[0], ", ".join(sorted(str(x) for x in s if x[0] != "c"))))
                        bad = True
        if not bad:
            R.ok("query", name)


class Dirty(SymFlow):
    """Does a processing routine report a change exactly when it made one?"""
    max_states = 20000

    def __init__(self, prog, root, dry):
        SymFlow.__init__(self, prog)
        self.root = root
        self.dry = dry

    def is_tag(self, t):
        t = t.deref() if t is not None else None
        if t is None or t.k == "ptr" and t.to is not None:
            t = t.to if t is not None else None
        if t is None or not t.rec:
            return False
        b = {t.rec} | set(t.bases)
        return bool(b & set(TAGS)) or t.rec in self.mixins

    @property
    def mixins(self):
        m = getattr(self, "_mix", None)
        if m is None:
            m = set()
            for r in self.prog.recs:
                if "scribbu::id3v2_frame" in self.prog.bases(r):
                    m |= {b for b in self.prog.bases(r)}
            self._mix = m
        return m

    def inline_targets(self, n):
        tg = self.prog.targets(n)
        return [g for g in tg if g["l"][0].startswith("src/")] if n["k"] == "call" and len(tg) == 1 else []

    def call(self, n, st):
        mut = False
        if n["k"] == "call":
            ft = n.get("ft")
            o = n.get("obj")
            m = (n.get("f") or "").split("::")[-1]
            if o is not None and self.is_tag(n.get("ot")) and not n.get("const") and not n.get("conv") and m not in ("begin", "end", "get"):
                mut = True
            elif n.get("op") in ("=", "+=", "++", "--") and n["a"] and self.is_tag(n["a"][0].get("t")):
                mut = True
            elif n.get("op") == "=" and n["a"] and "frame_proxy" in str(n["a"][0].get("t")):
                mut = True
        for r in SymFlow.default_call(self, n, st):
            if r[0] == N and mut:
                yield (N, r[1].with_ext("changed"))
            else:
                yield r

    def term(self, e, st):
        return SymFlow.term(self, e, st)

    def loop_head(self, s, st):
        keep = {}
        for k in self.changed(s)[0]:
            t = st.get(k)
            if t is None:
                continue
            if t == ("c", 0):
                keep[k] = t
            elif t[0] == "c" and isinstance(t[1], int) and t[1] > 0 or positive(t):
                keep[k] = ("pos", str(k))
        st = SymFlow.loop_head(self, s, st)
        for k, t in keep.items():
            st = st.set(k, t)
        return st

    def declare(self, v, st):
        st = SymFlow.declare(self, v, st)
        return st

    def assume(self, c, st, truth):
        t, pos = norm_cond(self.term(c, st))
        v = value(t)
        if v is not None:
            return st if (v == pos) == truth else None
        return SymFlow.assume(self, c, st, truth)

    def apply_lambda(self, n, lam, st):
        # a list of edits kept by the command is not empty when the command runs
        seen, thr = SymFlow.apply_lambda(self, n, lam, st)
        if any(x.get("k") == "mem" and uncast(x["b"])["k"] == "this" for a in n["a"] for x in walk(a) if uncast(a)["k"] != "lambda"):
            seen = seen - {self.loop_head(lam["fn"], st)} or seen
        return seen, thr


def positive(t):
    if t[0] == "pos":
        return True
    if t[0] == "c":
        return isinstance(t[1], int) and t[1] > 0
    if t[0] == "bin" and t[1] == "+":
        a, b = t[2], t[3]
        return positive(a) and nonneg(b) or positive(b) and nonneg(a)
    if t[0] == "bin" and t[1] in ("|", "||"):
        return positive(t[2]) or positive(t[3])
    return False


def nonneg(t):
    return positive(t) or t == ("c", 0)


def value(t):
    """Truth of a counter term, when its sign settles it."""
    if positive(t):
        return True
    if t[0] == "bin" and t[1] == "==" and ("c", 0) in (t[2], t[3]):
        o = t[3] if t[2] == ("c", 0) else t[2]
        if positive(o):
            return False
        if o == ("c", 0):
            return True
    if t[0] == "bin" and t[1] == "<" and t[2] == ("c", 0) and positive(t[3]):
        return True
    return None


def known_dry(st, dry):
    for t, truth in st.facts:
        if t[0] == "mem" and t[1] == ("this",) and t[2] in dry and truth:
            return True
    return False


def truth3(t, st):
    a, pos = norm_cond(t)
    v = value(a)
    if v is None and a[0] == "bin" and a[1] in ("||", "&&"):
        l, r = truth3(a[2], st), truth3(a[3], st)
        if a[1] == "||":
            v = True if True in (l, r) else False if l is False and r is False else None
        else:
            v = False if False in (l, r) else True if l and r else None
    if v is None:
        return truth_of(t, st)
    return v == pos


def dirty(prog, R, dry):
    R.rule("dirty-honest", "a routine that processes a tag reports a change on exactly the paths on which it changed it (or would have, in a dry run)", 10)
    base = [r for r in prog.recs if any(f["n"].endswith("::process_file") and f.get("cls") == r for f in prog.fns)
            and any(f.get("virt") and f["n"].split("::")[-1] == "process_v1" or "process_v1" in str(prog.recs[r].get("ms", "")) for f in prog.fns)]
    fns = [f for f in prog.fns if f.get("virt") and f.get("body") and f["l"][0].startswith("src/") and f.get("rt") is not None
           and f["rt"].k == "bool" and len(f["ps"]) == 1 and (f["ps"][0]["t"].deref().rec or "").startswith("scribbu::id3v")]
    for f in fns:
        d = Dirty(prog, f, dry)
        o = d.run(f, d.start(f))
        bad = False
        for st in o.r:
            t = st.get(("ret", 1)) or st.get(("ret", 0))
            v = truth3(t, st) if t is not None else None
            if st.ext != "changed" and v is not False and not known_dry(st, dry):
                R.bad("dirty-honest", f["n"] + "/" + f["ps"][0]["t"].deref().rec.split("::")[-1] + "/idle", f,
                      "%s can report a change without having changed the tag, so the file is rewritten" % f["n"])
                bad = True
            if st.ext == "changed" and v is not True:
                R.bad("dirty-honest", f["n"] + "/" + f["ps"][0]["t"].deref().rec.split("::")[-1] + "/lost", f,
                      "%s can change the tag without reporting it, so the change is never written" % f["n"])
                bad = True
        if not bad:
            R.ok("dirty-honest", "%s(%s): %d exits" % (f["n"], f["ps"][0]["t"].s, len(o.r)))
    return fns


class Whole(Dirty):
    """Does the file get written exactly when some tag changed?"""

    def __init__(self, prog, root, dry, procs, muts, R):
        Dirty.__init__(self, prog, root, dry)
        self.procs = {f["u"] for f in procs}
        self.names = {f["n"].split("::")[-1] for f in procs}
        self.muts = muts
        self.R = R

    def call(self, n, st):
        if n["k"] == "call" and n.get("virt"):
            m = (n.get("f") or "").split("::")[-1]
            tg = self.prog.targets(n)
            if m in self.names and tg and any(g["u"] in self.procs for g in tg):
                yield (N, st.set(("res", id(n)), ("c", 1)).with_ext(("changed", False)))
                yield (N, st.set(("res", id(n)), ("c", 0)))
                return
            if m.startswith("create_"):
                yield (N, st.with_ext(("changed", False)))
                return
        if n["k"] == "call" and any(g["u"] in self.muts for g in self.prog.targets(n)):
            if st.ext is None:
                self.R.bad("write-iff-changed", "unchanged/" + n["f"].split("::")[-1], n,
                           "%s is reached although no tag of the file was changed" % n["f"])
            yield (N, st.with_ext(("changed", True) if st.ext else st.ext))
            return
        yield from SymFlow.default_call(self, n, st)

    def may_throw(self, n):
        return False


def whole(prog, R, procs, dry, muts):
    R.rule("write-iff-changed", "a file is written exactly when some tag of it was changed or created, unless this is a dry run", 1)
    names = {f["n"].split("::")[-1] for f in procs}
    roots_ = [f for f in prog.fns if f.get("body") and f["l"][0].startswith("src/") and
              any(n.get("virt") and (n.get("f") or "").split("::")[-1] in names and any(g["u"] in {p["u"] for p in procs} for g in prog.targets(n)) for n in calls(f))]
    # outermost callers only: the function that also writes
    tops = []
    for f in roots_:
        top = f
        if not any(g["u"] in muts for h in reachable(prog, [f]) for g in [h]):
            ups = [c for c in prog.fns if c.get("body") and any(f["u"] in [t["u"] for t in prog.targets(n)] for n in calls(c))]
            tops += ups
        else:
            tops.append(top)
    for f in tops:
        w = Whole(prog, f, dry, procs, muts, R)
        before = len(R.violations) if hasattr(R, "violations") else None
        o = w.run(f, w.start(f))
        bad = False
        for st in o.r:
            if st.ext == ("changed", False) and not known_dry(st, dry):
                R.bad("write-iff-changed", f["n"] + "/lost", f, "%s can finish without writing a tag that was changed" % f["n"])
                bad = True
        if not bad:
            R.ok("write-iff-changed", "%s: %d exits" % (f["n"], len(o.r)))


def check(prog, R):
    muts = {f["u"] for f, _ in roots(prog)}
    if not muts:
        raise AnalysisBroken("no file-writing library routines found")
    H = gate(prog, R, muts)
    queries(prog, R, H, muts)
    allsrc = Prov(prog, [f for f in prog.fns if f["l"][0].startswith("src/")])
    dry = set()
    for (c, m), es in allsrc.mdefs.items():
        s = set()
        for e in es:
            s |= {x for x in allsrc.of(e) if x[0] != "c"}
        if s == {("opt", "dry-run")}:
            dry.add(m)
    R.extra["dry_run_carriers"] = sorted(dry)
    procs = dirty(prog, R, dry)
    whole(prog, R, procs, dry, muts)
    R.assumptions += ["an edit list kept in a command object is not empty when the command processes a file",
                      "calling a modifying operation on a tag or frame counts as changing it"]
