"""C16: a parser cannot be registered for an identifier the library handles itself."""

from facts import AnalysisBroken
from flow import N
from program import calls, const, fn_nodes, uncast, walk, where
from sym import SymFlow, mentions

TECHNIQUE = "path-sensitive guard analysis of every insertion into a parser table; agreement of the reserved list with the parser's own cases"

ADD = {"insert", "emplace", "insert_or_assign", "try_emplace"}


def id_type(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t is not None and t.rec is not None and "frame_id" in t.rec.split("::")[-1]


def table_type(t):
    """A map from frame identifiers to functions."""
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t is not None and t.rec in ("std::unordered_map", "std::map") and len(t.targs) >= 2 and id_type(t.targs[0]) \
        and t.targs[1] is not None and t.targs[1].rec == "std::function"


def table(e):
    """Name of the parser table an expression denotes."""
    e = uncast(e)
    if e is None or not table_type(e.get("vt") or e.get("t")):
        return None
    if e["k"] == "mem":
        return "%s::%s" % (e["cls"], e["n"])
    if e["k"] == "var" and e.get("g"):
        return e["q"]
    return None


class Guard(SymFlow):
    def __init__(self, prog, preds):
        SymFlow.__init__(self, prog)
        self.preds = preds
        self.adds = []          # (node, table, key term, facts)
        self.finds = []

    def is_pure(self, e):
        return SymFlow.is_pure(self, e) or e.get("fu") in self.preds

    def may_throw(self, n):
        return False

    def inline_targets(self, n):
        return [g for g in self.prog.targets(n) if g["u"] not in self.preds
                and any(x.get("fu") in self.preds for x in calls(g))] if not n.get("virt") else []

    def call(self, n, st):
        m = (n.get("f") or "").split("::")[-1]
        o = n.get("obj")
        if n.get("op") == "[]" and not n.get("const"):
            o, m = n["a"][0], "insert"
        tb = table(o) if o is not None else None
        if tb and m in ADD and n["a"]:
            a = n["a"][-1 if n.get("op") else 0]
            self.adds.append((n, tb, self.term(a, st), st))
        elif tb and m in ("find", "count", "at", "contains") and n["a"]:
            self.finds.append((n, tb, self.term(n["a"][0], st), st))
        yield from self.default_call(n, st)


def literals(prog, f, depth=0):
    """Identifiers spelt out in a function, or in the constants it refers to."""
    out = set()
    for n in fn_nodes(f):
        if n.get("k") == "str":
            out.add(n["v"])
        elif n.get("k") == "var" and n.get("g") and n.get("q") in prog.gvars:
            for v in prog.gvars[n["q"]]:
                if v.get("i"):
                    out |= {x["v"] for x in walk(v["i"]) if x.get("k") == "str"}
        elif n.get("k") == "call" and depth < 2:
            for g in prog.targets(n):
                if g["l"][0] == f["l"][0]:
                    out |= literals(prog, g, depth + 1)
    return out


def inverted(f):
    """The predicate answers true for what is not in its list."""
    rs = [n["e"] for n in fn_nodes(f, lambdas=False) if n.get("k") == "return" and n.get("e") is not None]
    if len(rs) != 1:
        return False
    e, neg = uncast(rs[0]), False
    while e["k"] == "un" and e["op"] == "!":
        e, neg = uncast(e["e"]), not neg
    op = e.get("op") if e["k"] in ("bin", "call") else None
    if op not in ("==", "!="):
        return neg
    sides = e["a"] if e["k"] == "call" else [e["a"], e["b"]]
    names = {(uncast(x).get("f") or "").split("::")[-1] for x in sides if uncast(x) is not None}
    # "x == end" means not found; "0 == count" likewise
    absent = bool(names & {"end", "cend"}) or ("count" in names and any(const(x) == 0 for x in sides))
    if absent:
        return (op == "==") != neg
    return neg if op == "==" else not neg


def check(prog, R):
    R.rule("listed", "every identifier the parser handles itself, before looking for a registered parser, is on the reserved list", 6)
    R.rule("refused", "nothing is entered into a parser table for an identifier given by a caller unless it was found not to be reserved", 4)
    # predicates over identifiers that guard a throw
    preds = {}
    for f in prog.fns:
        if f.get("body") and f.get("cls") and f.get("rt") is not None and f["rt"].k == "bool" and len(f["ps"]) == 1 and id_type(f["ps"][0]["t"]) \
                and any(len(s) in (3, 4) and s.isalnum() and s.isupper() for s in literals(prog, f)):
            preds[f["u"]] = f
    adders, finders = [], []
    for f in prog.fns:
        if not f.get("body") or f["l"][0].startswith("gen/"):
            continue
        for n in calls(f, lambdas=True):
            m = (n.get("f") or "").split("::")[-1]
            o = n["a"][0] if n.get("op") == "[]" else n.get("obj")
            if o is None or not table(o):
                continue
            if m in ADD or n.get("op") == "[]":
                adders.append(f)
            elif m in ("find", "count", "at", "contains"):
                finders.append(f)
    uniq = {f["u"]: f for f in adders}
    if not finders:
        raise AnalysisBroken("no function consults a parser table")
    if not preds:
        raise AnalysisBroken("no test for reserved identifiers found")
    handled = {}
    for f in {g["u"]: g for g in finders}.values():
        g = Guard(prog, preds)
        g.run(f, g.start(f))
        lits = {}
        for n in fn_nodes(f):
            for v in n["d"] if n.get("k") == "decl" else ():
                if v.get("i") is not None and id_type(v["t"]):
                    s = [x["v"] for x in walk(v["i"]) if x.get("k") == "str"]
                    if len(s) == 1:
                        lits[("v", "g", v["n"])] = lits[("obj", v["n"], where(v))] = s[0]
        for n, tb, key, st in g.finds:
            ex = set()
            for t, truth in st.facts:
                if truth or not mentions(t, key):
                    continue
                if t[0] == "bin" and t[1] == "==":
                    o = t[2] if t[3] == key else t[3]
                    if o in lits:
                        ex.add(lits[o])
                    else:
                        ss = strings(o, prog)
                        if len(ss) == 1:
                            ex |= ss
                elif t[0] == "call" and t[1] in {p["n"] for p in preds.values()}:
                    ex |= {"@" + t[1]}
            k = f["cls"]
            handled[k] = handled[k] & ex if k in handled else ex
    for cls, ids in sorted(handled.items()):
        ps = [p for p in preds.values() if p["cls"] == cls]
        if not ps:
            R.bad("listed", cls, "?", "%s looks parsers up but has no test for reserved identifiers" % cls)
            continue
        for p in ps:
            have = literals(prog, p)
            if inverted(p):
                R.bad("listed", p["n"] + "/sense", p, "%s answers true for identifiers that are not reserved" % p["n"])
            for i in sorted(ids):
                if i in have or i == "@" + p["n"]:
                    R.ok("listed", "%s: %s" % (cls, i))
                else:
                    R.bad("listed", "%s/%s" % (cls, i), p, "%s handles %s itself, but %s does not list it, so a parser for it can be registered and is silently never used"
                          % (cls, i, p["n"]))
    for f in uniq.values():
        if f.get("ctor") and not any(id_type(p["t"]) for p in f["ps"]):
            continue
        g = Guard(prog, preds)
        g.run(f, g.start(f))
        for n, tb, key, st in g.adds:
            ids = [("parm", p["n"]) for p in f["ps"] if id_type(p["t"]) and mentions(key, ("parm", p["n"]))]
            if not ids:
                if id_parm(f):
                    R.bad("refused", "%s/%s/key" % (f["n"], tb), n, "%s enters something other than the identifier it was given" % f["n"])
                continue
            cl = tb.rsplit("::", 1)[0]
            ok = any(not truth and t[0] == "call" and t[1] in {p["n"] for p in preds.values() if p["cls"] == cl} and mentions(t, ids[0])
                     for t, truth in st.facts)
            if ok:
                R.ok("refused", "%s into %s" % (f["n"], tb))
            else:
                R.bad("refused", "%s/%s" % (f["n"], tb), n, "%s enters a parser into %s without having checked that the identifier is not reserved" % (f["n"], tb))


def id_parm(f):
    return any(id_type(p["t"]) for p in f["ps"])


def strings(t, prog):
    if not isinstance(t, tuple) or not t:
        return set()
    if t[0] == "s":
        return {t[1]}
    if t[0] == "v" and len(t) > 1 and t[1] == "g":
        return {x["v"] for v in prog.gvars.get(t[2], ()) if v.get("i") for x in walk(v["i"]) if x.get("k") == "str"}
    out = set()
    for x in t:
        if isinstance(x, tuple):
            out |= strings(x, prog)
    return out
