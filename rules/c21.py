"""C21: every frame and tag class is printed by the routine written for it."""

from facts import AnalysisBroken
from program import fn_nodes, uncast, walk, where

TECHNIQUE = "agreement of the class hierarchy with the dispatch tables, read from the type-checked program"


def bare(t):
    while t is not None and t.k in ("ref", "rref", "ptr"):
        t = t.to
    return t.rec if t is not None else None


def keyed_by_type(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t is not None and t.rec in ("std::unordered_map", "std::map") and t.targs and t.targs[0] is not None and t.targs[0].rec == "std::type_index"


def abstract(prog, cls):
    chain = [cls] + prog.bases(cls)
    over = {o for c in chain for m in prog.recs.get(c, {"methods": ()})["methods"] if not m.get("pure") for o in m.get("over", ())}
    # overriding is transitive
    todo = list(over)
    up = {m["u"]: m.get("over", ()) for c in chain for m in prog.recs.get(c, {"methods": ()})["methods"]}
    while todo:
        for o in up.get(todo.pop(), ()):
            if o not in over:
                over.add(o)
                todo.append(o)
    return any(m.get("pure") and m["u"] not in over for c in chain for m in prog.recs.get(c, {"methods": ()})["methods"])


def check(prog, R):
    R.rule("registered", "every concrete class is registered in the table that is consulted for objects of its version", 20)
    R.rule("own-routine", "what is registered for a class is the operation taking exactly that class", 20)
    R.rule("implemented", "every output format overrides every printing operation", 60)
    stores, sites = {}, {}
    ops = set()
    for f in prog.fns:
        if not f.get("body"):
            continue
        for n in fn_nodes(f):
            k = n.get("k")
            lhs = rhs = None
            if k == "bin" and n["op"] == "=":
                lhs, rhs = uncast(n["a"]), n["b"]
            elif k == "call" and (n.get("f") or "").split("::")[-1] in ("insert", "emplace", "insert_or_assign", "try_emplace") and n.get("obj") is not None \
                    and keyed_by_type(n["obj"].get("t")):
                lhs, rhs = {"k": "call", "op": "[]", "a": [n["obj"]] + n["a"]}, {"k": "block", "s": n["a"]}
            if lhs is None or lhs.get("k") != "call" or lhs.get("op") != "[]" or not keyed_by_type(lhs["a"][0].get("t")):
                continue
            m = uncast(lhs["a"][0])
            T = [bare(x.get("of")) for a in lhs["a"][1:] for x in walk(a) if x.get("k") == "typeid" and x.get("of") is not None]
            fs = [x for x in walk(rhs) if x.get("k") == "fn"]
            lam = [x for x in walk(rhs) if x.get("k") == "lambda"]
            if len(T) != 1:
                continue
            bodies = [prog.by_usr[x["fu"]] for x in fs if x.get("fu") in prog.by_usr] + [x["fn"] for x in lam]
            for g in bodies:
                for c in fn_nodes(g):
                    if c.get("k") == "call" and c.get("virt") and c.get("ft") is not None and c["ft"].ps and c["a"]:
                        stores.setdefault((m.get("n"), T[0]), []).append((n, c))
                        ops.add(c["fu"])
    if not stores:
        raise AnalysisBroken("no dispatch table keyed by type found")
    # which table is consulted for which static type
    getters = {}
    for f in prog.fns:
        for n in fn_nodes(f) if f.get("body") else ():
            if n.get("k") == "call" and n.get("obj") is not None and (n.get("f") or "").split("::")[-1] in ("at", "find") and keyed_by_type(n["obj"].get("t")):
                getters.setdefault(f["u"], set()).add(uncast(n["obj"]).get("n"))
    for f in prog.fns:
        for n in fn_nodes(f) if f.get("body") else ():
            if n.get("k") != "call":
                continue
            tb = set()
            for g in prog.targets(n):
                tb |= getters.get(g["u"], set())
            if f["u"] in getters and n.get("obj") is not None and keyed_by_type(n["obj"].get("t")):
                tb |= getters[f["u"]]
            ty = [bare(x["e"].get("t")) for a in n["a"] for x in walk(a) if x.get("k") == "typeid" and x.get("e") is not None]
            for t in ty:
                for m in tb:
                    sites.setdefault(t, {}).setdefault(m, n)
    if not sites:
        raise AnalysisBroken("no place consults a dispatch table by dynamic type")
    for b, tables in sorted(sites.items()):
        for m, n in tables.items():
            for cls in sorted([b] + prog.derived(b)):
                if cls not in prog.recs or not prog.recs[cls]["l"][0].startswith("scribbu/") or abstract(prog, cls):
                    continue
                if (m, cls) in stores:
                    R.ok("registered", "%s in %s" % (cls, m))
                else:
                    other = sorted({x for x, c in stores if c == cls})
                    R.bad("registered", cls, n, "printing a %s consults %s, where it is not registered%s, so printing one throws"
                          % (cls, m, " (it is in %s)" % ", ".join(other) if other else ""))
    for (m, cls), lst in sorted(stores.items()):
        for n, c in lst:
            want = bare(c["ft"].ps[0])
            if want == cls:
                R.ok("own-routine", "%s: %s" % (cls, c["f"]))
            else:
                R.bad("own-routine", "%s/%s" % (m, cls), c, "%s is registered with %s, which prints a %s" % (cls, c["f"], want))
        if len({c["fu"] for _, c in lst}) > 1:
            R.bad("own-routine", "%s/%s/twice" % (m, cls), lst[-1][0], "%s is registered with two different operations" % cls)
    # formats
    base = {c["f"].rsplit("::", 1)[0] for v in stores.values() for _, c in v}
    for b in base:
        names = {m["u"]: m["n"] for m in prog.recs[b]["methods"] if m.get("virt") and (m["u"] in ops or m.get("pure"))}
        for cls in sorted(prog.derived(b)):
            chain = [c for c in [cls] + prog.bases(cls) if c != b]
            got = {o for c in chain if c in prog.recs for m in prog.recs[c]["methods"] for o in m.get("over", ())}
            for u, nm in sorted(names.items(), key=lambda x: x[1]):
                if u in got:
                    R.ok("implemented", "%s::%s" % (cls, nm.split("::")[-1]))
                else:
                    R.bad("implemented", "%s/%s" % (cls, nm.split("::")[-1]), prog.recs[cls], "%s does not implement %s" % (cls, nm))
