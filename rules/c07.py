"""C07: the exception mask of a caller's stream is handed back unchanged on every way out."""

from flow import N, THR, ANY
from program import fn_nodes, uncast, where
from sym import SymFlow

TECHNIQUE = "typestate of the exception mask of every stream a function does not own, over normal and exceptional exits"

STREAMS = ("std::basic_ios", "std::ios_base", "std::basic_istream", "std::basic_ostream", "std::basic_iostream")


def is_mask(n):
    return n.get("k") == "call" and (n.get("f") or "").endswith("basic_ios::exceptions") and n.get("obj") is not None


def setter(n):
    return is_mask(n) and len(n["a"]) == 1


class Guards:
    """Classes whose destructor puts a saved mask back: class -> (stream ctor parameter index)."""

    def __init__(self, prog):
        self.prog, self.of = prog, {"boost::io::basic_ios_exception_saver": 0}
        for f in prog.fns:
            if not f.get("dtor") or not f.get("body"):
                continue
            for n in fn_nodes(f):
                if setter(n):
                    s, m = member(n["obj"]), member(n["a"][0])
                    if s and m:
                        i = self.saved(f["cls"], s, m)
                        if i is not None:
                            self.of[f["cls"]] = i

    def saved(self, cls, s, m):
        """The constructor parameter bound to member s, when m gets that stream's mask at construction."""
        for c in self.prog.fns:
            if c.get("cls") != cls or not c.get("ctor") or c.get("cpc") or c.get("mvc") or not c["ps"]:
                continue
            idx = ok = None
            for i in c.get("inits", ()):
                e = uncast(i.get("e")) if i.get("e") is not None else None
                if e is None:
                    continue
                if i.get("m") == s and e["k"] == "var":
                    idx = next((k for k, p in enumerate(c["ps"]) if p["id"] == e.get("id")), None)
                if i.get("m") == m and is_mask(e) and not e["a"]:
                    ok = True
            for n in fn_nodes(c):
                if n.get("k") == "bin" and n["op"] == "=" and member(n["a"]) == m:
                    b = uncast(n["b"])
                    ok = ok or is_mask(b) and not b["a"]
            if idx is not None and ok:
                return idx
        return None


def member(e):
    e = uncast(e)
    while e is not None and e["k"] == "un" and e["op"] == "*":
        e = uncast(e["e"])
    if e is not None and e["k"] == "mem" and uncast(e["b"])["k"] == "this":
        return e["n"]
    return None


class Mask(SymFlow):
    """ext: frozenset of (stream term, mask term) for masks that differ from the one found."""

    def __init__(self, prog, guards, helpers):
        SymFlow.__init__(self, prog)
        self.guards, self.helpers = guards, helpers
        self.sets = set()

    def stream(self, e, st):
        o = uncast(e)
        t = o.get("vt") if o["k"] in ("var", "mem") else None
        if t is not None and t.k == "rec":
            return None             # a stream object of its own
        t = self.term(e, st)
        while t[0] in ("*", "&"):
            t = t[1]
        return None if t[0] in ("obj", "undef", "new") else t

    @staticmethod
    def mask(s, st):
        return dict(st.ext).get(s, ("mask", s))

    @staticmethod
    def put(s, m, st):
        d = dict(st.ext)
        d.pop(s, None)
        if m != ("mask", s):
            d[s] = m
        return st.with_ext(frozenset(d.items()))

    def call_term(self, e, st):
        if is_mask(e) and not e["a"]:
            s = self.stream(e["obj"], st)
            if s is not None:
                return self.mask(s, st)
        return SymFlow.call_term(self, e, st)

    def inline_targets(self, n):
        if n["k"] in ("call", "ctor"):
            return [f for f in self.prog.targets(n) if f["u"] in self.helpers]
        return []

    def call(self, n, st):
        if is_mask(n):
            s = self.stream(n["obj"], st)
            if s is None or not n["a"]:
                yield (N, st)
                if s is None and n["a"]:
                    yield (THR, st, ANY)
                return
            self.sets.add(where(n))
            x = self.put(s, self.term(n["a"][0], st), st)
            yield (N, x)
            yield (THR, x, ANY)     # raised by the new mask, which is in force
            return
        yield from self.default_call(n, st)

    def guarded(self, v, st):
        e = uncast(v["i"]) if v.get("i") is not None else None
        t = v.get("t")
        cls = t.rec if t is not None else None
        if e is None or e["k"] != "ctor" or e.get("cls") not in self.guards.of and cls not in self.guards.of:
            return None
        i = self.guards.of.get(e.get("cls"), self.guards.of.get(cls))
        if i >= len(e["a"]):
            return None
        return self.stream(e["a"][i], st)

    def declare(self, v, st):
        s = self.guarded(v, st)
        st = SymFlow.declare(self, v, st)
        if s is not None:
            st = st.set(("guard", v["id"]), ("pair", s, self.mask(s, st)))
        return st

    def destroy(self, v, st):
        g = st.get(("guard", v["id"]))
        if g is not None:
            st = self.put(g[1], g[2], st.drop({("guard", v["id"])}))
        return st

    def _leave(self, vs, o):
        return SymFlow._leave(self, vs, o)

    def assume(self, c, st, truth):
        x = SymFlow.assume(self, c, st, truth)
        if x is None or x is st:
            return x
        # only what is said about variables matters here: facts about call results multiply states
        return x if any(f[0][0] in ("parm", "c") for f in x.facts - st.facts) else st


def internal(f):
    return f.get("acc") in (1, 2) or "(anonymous" in f["n"] or f.get("static")


def check(prog, R):
    R.rule("handed-back", "a function that sets the exception mask of a stream it does not own has the mask it found in force "
           "again on every normal and exceptional way out", 8)
    R.assumptions.append("a call made with a caller's stream leaves its mask alone unless its target is in this repository, where it is checked itself")
    guards = Guards(prog)
    direct = [f for f in prog.fns if f.get("body") and not f["l"][0].startswith("gen/") and
              any(setter(n) for n in fn_nodes(f)) and not (f.get("dtor") and f.get("cls") in guards.of)]
    R.extra["restoring_classes"] = sorted(guards.of)
    helpers = {f["u"] for f in direct if internal(f) and not f.get("ctor")}
    callers = {}
    for f in prog.fns:
        if f.get("body"):
            for n in fn_nodes(f):
                if n.get("k") in ("call", "ctor"):
                    for g in prog.targets(n):
                        if g["u"] in helpers:
                            callers.setdefault(g["u"], []).append(f)
    todo, seen = list(direct), set()
    verdict = {}
    while todo:
        f = todo.pop()
        if f["u"] in seen:
            continue
        seen.add(f["u"])
        a = Mask(prog, guards, helpers - {f["u"]})
        o = a.run(f, a.start(f, frozenset()))
        bad = []
        for s in o.r:
            bad += [("return", x[0]) for x in s.ext]
        for s, e in o.t:
            bad += [("exception", x[0]) for x in s.ext]
        verdict[f["u"]] = (f, a.sets, sorted(set(bad), key=str))
        if bad and f["u"] in helpers:
            todo += callers.get(f["u"], [])
    for u, (f, sets, bad) in sorted(verdict.items(), key=lambda x: x[1][0]["n"]):
        if bad and u in helpers and callers.get(u):
            R.ok("handed-back", "%s (judged in its callers)" % f["n"])
            continue
        name = "%s(%s)" % (f["n"], ",".join(p["t"].s.split("::")[-1].split("<")[0].strip(" &*") for p in f["ps"]))
        for how, s in bad:
            R.bad("handed-back", "%s/%s" % (name.replace(" ", ""), how), f,
                  "%s can leave by %s with the exception mask of %s changed" % (f["n"], "returning" if how == "return" else "an exception", s[-1]))
        if not bad and sets:
            R.ok("handed-back", "%s: %d settings" % (name, len(sets)))
