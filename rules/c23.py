"""C23: no C++ exception and no leaked memory crosses into Scheme."""

import re

from effect import parents
from facts import AnalysisBroken
from flow import ANY, Flow, N, THR
from program import fn_nodes, uncast, walk, where

TECHNIQUE = "interprocedural exception analysis of every primitive handed to Guile; typestate analysis of memory handed out by Guile and of the unwinding scopes it is tied to"

TAKES = re.compile(r"scm_(to_(locale|utf8|utf32|latin1|port)_stringn?|to_stringn|malloc|calloc|strdup|strndup|realloc)$")
DEFINES = ("scm_c_define_gsubr", "scm_c_define_gsubr_with_generic", "scm_c_make_gsubr", "scm_c_make_gsubr_with_generic")
REPORTS = ("scm_error", "scm_error_scm", "scm_misc_error", "scm_throw", "scm_syserror", "scm_memory_error", "scm_wrong_type_arg", "scm_out_of_range", "scm_throw")
QUIET = ("free", "memcpy", "strlen", "strcmp", "memset")


def name(n):
    return (n.get("f") or n.get("cls") or "").split("::")[-1]


class Throws:
    """Which functions of the program can let an exception out."""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.never = {}

    def call(self, n):
        if n.get("nt") or n.get("extc") or n.get("triv"):
            return False
        tg = self.prog.targets(n)
        if tg:
            return any(self.fn(g) for g in tg)
        if n["k"] == "ctor" and n.get("dflt") and n["cls"].startswith("std::"):
            return False
        return True

    def ends(self, n):
        """Does the call never come back in the normal way?"""
        tg = self.prog.targets(n)
        if not tg:
            return False
        for g in tg:
            u = g["u"]
            if u not in self.never:
                self.never[u] = False
                if g.get("body") is not None and any(name(x) in REPORTS for x in fn_nodes(g) if x.get("k") == "call"):
                    o = Escapes(self.prog, self).run(g, None)
                    self.never[u] = not o.n and not o.r
            if not self.never[u]:
                return False
        return True

    def fn(self, f):
        u = f["u"]
        if u in self.memo:
            return self.memo[u]
        if f.get("nt") or f.get("body") is None and not f.get("inits"):
            r = not f.get("nt")
            self.memo[u] = r
            return r
        self.memo[u] = False            # a cycle lets out what its other members let out
        if any(n.get("k") == "try" for n in fn_nodes(f)):
            r = bool(Escapes(self.prog, self).out(f)[0])
        else:
            r = any(n.get("k") == "throw" or n.get("k") in ("call", "ctor") and self.call(n) or n.get("k") == "new" or n.get("k") == "cast" and n.get("dyn") and n["t"].k in ("rec", "ref")
                    for n in fn_nodes(f, lambdas=True))
        self.memo[u] = r
        return r


class Escapes(Flow):
    """Exceptions that leave a function, and handlers from which it returns as if nothing had happened."""

    def __init__(self, prog, throws):
        Flow.__init__(self, prog)
        self.throws = throws
        self.at = {}
        self.quiet = {}

    def out(self, f):
        o = self.run(f, None)
        esc = sorted({s for s, e in o.t}, key=str)
        swallowed = {s for s in set(o.n) | set(o.r) if isinstance(s, tuple) and s[0] == "handler"}
        return [self.at.get(s, f) for s in esc], [self.quiet[s] for s in sorted(swallowed, key=str)]

    def call(self, n, st):
        if n.get("noret"):
            return
        if name(n) in REPORTS and n.get("extc"):
            return
        if not self.throws.ends(n):
            yield (N, st)
        if self.throws.call(n):
            k = ("at",) + tuple(n["l"])
            self.at[k] = n
            yield (THR, k, ANY)

    def node(self, n, st):
        yield (N, st)
        if n.get("k") == "new":
            k = ("at",) + tuple(n["l"])
            self.at[k] = n
            yield (THR, k, ANY)

    def matches(self, h, e):
        t = h.get("t")
        if e == ANY and t is not None and t.deref().rec == "std::exception":
            return "all"
        return Flow.matches(self, h, e)

    def enter_handler(self, h, st):
        k = ("handler",) + tuple((h.get("l") or h["s"]["l"]))
        self.quiet[k] = h if h.get("l") else h["s"]
        return k


def releasing(prog):
    """(function, parameter) pairs that tie a pointer to the current unwinding scope or free it."""
    rel = {("scm_dynwind_free", 0), ("free", 0), ("scm_remember_upto_here_1", -1)}
    changed = True
    while changed:
        changed = False
        for f in prog.fns:
            if f.get("body") is None or len(f["ps"]) == 0:
                continue
            for n in fn_nodes(f):
                if n.get("k") != "call":
                    continue
                for i, a in enumerate(n.get("a") or ()):
                    if any((x, i) in rel for x in {n.get("fu"), n.get("f")}):
                        v = uncast(a)
                        for j, p in enumerate(f["ps"]):
                            if v["k"] == "var" and v["id"] == p["id"] and (f["u"], j) not in rel:
                                rel.add((f["u"], j))
                                changed = True
    return rel


class Owned(Flow):
    """Memory obtained from Guile and not yet tied to anything."""

    def __init__(self, prog, throws, rel, f):
        Flow.__init__(self, prog)
        self.throws, self.rel, self.f = throws, rel, f
        self.pa = parents(f)
        self.bad = []
        self.seen = []

    def frees(self, n):
        for i, a in enumerate(n.get("a") or ()):
            if any((x, i) in self.rel for x in {n.get("fu"), n.get("f")}):
                v = uncast(a)
                yield v
        if n["k"] == "ctor" and n["cls"] in ("std::unique_ptr", "std::shared_ptr") and n.get("a"):
            yield uncast(n["a"][0])

    def holder(self, n):
        """What the result of n is put in."""
        p = self.pa.get(id(n))
        while p is not None and p.get("k") == "cast":
            n, p = p, self.pa.get(id(p))
        if p is None:
            return None
        if p.get("k") is None and "id" in p:
            return p["id"]
        if p.get("k") == "bin" and p["op"] == "=" and uncast(p["a"])["k"] == "var":
            return uncast(p["a"])["id"]
        if p.get("k") in ("call", "ctor") and any(v is uncast(n) for v in self.frees(p)):
            return "freed"
        return None

    def call(self, n, st):
        nm = name(n)
        rel = {v["id"] for v in self.frees(n) if v["k"] == "var"}
        st = st - {x for x in st if x[0] in rel}
        if TAKES.match(nm) and n.get("extc"):
            h = self.holder(n)
            self.seen.append(n)
            if h is None:
                self.bad.append((n, "is never freed", nm))
            elif h != "freed":
                st = st | {(h, nm, n["l"])}
            yield (N, st)
            return
        if st and not rel and (self.throws.call(n) or n.get("extc") and nm.startswith("scm_")):
            for x in st:
                self.bad.append((n, "is not freed if %s leaves the function" % nm, x[1]))
        if n.get("noret"):
            return
        yield (N, st)

    def ret(self, n, st):
        if st:
            for x in st:
                self.bad.append((n, "is not freed on this path", x[1]))
        return frozenset()


class Scopes(Flow):
    def __init__(self, prog, throws):
        Flow.__init__(self, prog)
        self.throws = throws

    def call(self, n, st):
        nm = name(n)
        if nm == "scm_dynwind_begin":
            st = st + 1 if st < 3 else st
        elif nm == "scm_dynwind_end":
            st = st - 1
        if n.get("noret"):
            return
        yield (N, st)
        if self.throws.call(n):
            yield (THR, st, ANY)


def scopes_of(f):
    """Variable -> the block it lives in, and block -> the blocks around it."""
    home, up = {}, {}

    def go(n, blk):
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "block" or k in ("for", "rfor", "while", "if", "try"):
            up[id(n)] = blk
            blk = id(n)
        if k == "decl":
            for v in n["d"]:
                home[v["id"]] = blk
        if k == "lambda":
            return
        from program import children
        for c in children(n):
            if c is not None:
                go(c, blk)
    if f.get("body") is not None:
        go(f["body"], None)
    for p in f["ps"]:
        home[p["id"]] = None
    return home, up


def inside(blk, outer, up):
    while blk is not None:
        if blk == outer:
            return True
        blk = up.get(blk)
    return outer is None


def check(prog, R):
    R.rule("boundary", "no C++ exception leaves a primitive, or a callback a primitive hands to Guile", 4)
    R.rule("standard", "whatever is thrown in code a primitive reaches is a standard exception", 20)
    R.rule("reported", "a primitive that stops an exception raises a Scheme error", 4)
    R.rule("memory", "memory obtained from Guile is tied to an unwinding scope, or freed, before anything can leave the function", 2)
    R.rule("scope", "every unwinding scope that is begun is ended on every path", 1)
    R.rule("lifetime", "nothing refers to memory after the unwinding scope it is tied to has ended", 20)
    T = Throws(prog)
    prims = {}
    for f in prog.fns:
        if f.get("body") is None:
            continue
        for n in fn_nodes(f):
            if n.get("k") == "call" and name(n) in DEFINES:
                for a in n["a"]:
                    for x in walk(a):
                        if x.get("k") == "fn":
                            for g in as_list(prog.by_usr.get(x["fu"])):
                                prims[g["u"]] = g
    if len(prims) < 3:
        raise AnalysisBroken("no primitives handed to Guile found")
    # callbacks of primitives, and what they reach
    reach, work, back = {}, list(prims.values()), {}
    while work:
        f = work.pop()
        if f["u"] in reach:
            continue
        reach[f["u"]] = f
        if f.get("body") is None and not f.get("inits"):
            continue
        for n in fn_nodes(f):
            if n.get("k") in ("call", "ctor"):
                for g in prog.targets(n) or ():
                    work.append(g)
                if n.get("extc") and name(n).startswith("scm_") and name(n) not in DEFINES:
                    for a in n.get("a") or ():
                        v = uncast(a)
                        if v is not None and v["k"] == "un" and v["op"] == "&":
                            v = uncast(v["e"])
                        if v is not None and v["k"] == "fn":
                            for g in as_list(prog.by_usr.get(v["fu"])):
                                back[g["u"]] = g
                                work.append(g)
            elif n.get("k") == "fn":
                for g in as_list(prog.by_usr.get(n["fu"])):
                    work.append(g)
    for u, f in sorted({**back, **prims}.items()):
        key = f["fn"].split("scribbu::")[-1]
        E = Escapes(prog, T)
        esc, quiet = E.out(f)
        if esc:
            n = esc[0]
            R.bad("boundary", key, n, "an exception raised by %s leaves %s, which is called by Guile" % (name(n) or n.get("k"), f["fn"]))
        else:
            R.ok("boundary", key)
        if u in prims:
            if quiet:
                R.bad("reported", key, quiet[0], "%s stops an exception without raising a Scheme error" % f["fn"])
            else:
                R.ok("reported", key)
    for u, f in sorted(reach.items()):
        if "scribbu/" not in f["l"][0] and "src/" not in f["l"][0]:
            continue
        for n in fn_nodes(f):
            if n.get("k") == "throw" and n.get("e") is not None:
                t = n["e"]["t"].deref() if hasattr(n["e"]["t"], "deref") else n["e"]["t"]
                if t.rec and (t.rec == "std::exception" or "std::exception" in (t.bases or ())) or t.rec and t.rec in prog.recs and "std::exception" in prog.bases(t.rec) or t.rec and t.rec.startswith("std::"):
                    R.ok("standard", (f["fn"], n["l"][1], n["l"][2]))
                else:
                    R.bad("standard", "%s/%s" % (f["fn"].split("scribbu::")[-1], t.s.replace(" ", "_")), n, "%s throws a %s, which the handlers of primitives do not stop" % (f["fn"], t.s))
    # memory
    rel = releasing(prog)
    for f in prog.fns:
        if f.get("body") is None or "gen/" in f["l"][0]:
            continue
        has = [n for n in fn_nodes(f) if n.get("k") == "call"]
        key = f["fn"].split("scribbu::")[-1]
        if any(TAKES.match(name(n)) and n.get("extc") for n in has):
            O = Owned(prog, T, rel, f)
            o = O.run(f, frozenset())
            if O.bad:
                n, why, what = O.bad[0]
                R.bad("memory", "%s/%s" % (key, what), n, "what %s returns in %s %s" % (what, f["fn"], why))
            elif any(o.n):
                R.bad("memory", key, f, "%s can end without freeing what it obtained from Guile" % f["fn"])
            else:
                for n in {x["l"] for x in O.seen}:
                    R.ok("memory", (key, n))
        begins = [n for n in has if name(n) == "scm_dynwind_begin"]
        ends = [n for n in has if name(n) == "scm_dynwind_end"]
        if begins and f.get("ctor"):
            d = [m for m in prog.methods(f["cls"]) if m.get("dtor") and m.get("body") is not None]
            good = False
            for m in d:
                o = Scopes(prog, T).run(m, 1)
                good = not o.t and set(o.n) | set(o.r) == {0}
            o = Scopes(prog, T).run(f, 0)
            if not good:
                R.bad("scope", key, f, "%s begins an unwinding scope which the destructor does not end" % f["fn"])
            elif set(o.n) | set(o.r) != {1}:
                R.bad("scope", key, f, "%s does not begin exactly one unwinding scope" % f["fn"])
            else:
                R.ok("scope", key)
        elif begins or ends and not f.get("dtor"):
            o = Scopes(prog, T).run(f, 0)
            left = {s for s in set(o.n) | set(o.r)} | {s for s, _ in o.t}
            if left - {0}:
                R.bad("scope", key, (begins or ends)[0], "%s leaves an unwinding scope open, or ends one it did not begin" % f["fn"])
            else:
                R.ok("scope", key)
    # lifetime
    ctxs = {f["cls"] for f in prog.fns if f.get("ctor") and f.get("body") is not None and any(n.get("k") == "call" and name(n) == "scm_dynwind_begin" for n in fn_nodes(f))}
    for f in prog.fns:
        if f.get("body") is None or f.get("cls") in ctxs:
            continue
        uses = [n for n in fn_nodes(f) if n.get("k") == "call" and n.get("obj") is not None and n["obj"].get("t") is not None and n["obj"]["t"].rec in ctxs]
        if not uses:
            continue
        home, up = scopes_of(f)
        pa = parents(f)
        for n in uses:
            o = uncast(n["obj"])
            key = "%s/%s" % (f["fn"].split("scribbu::")[-1], name(n))
            if o["k"] != "var":
                R.bad("lifetime", key, n, "%s ties memory to an unwinding scope that ends at once" % f["fn"])
                continue
            p, c = pa.get(id(n)), n
            while p is not None and p.get("k") == "cast":
                c, p = p, pa.get(id(p))
            tgt = None
            if p is not None and p.get("k") == "bin" and p["op"] == "=" and uncast(p["a"])["k"] == "var":
                tgt = uncast(p["a"])
            if tgt is not None and tgt["vt"].k == "ptr" and tgt["id"] in home and o["id"] in home and not inside(home[tgt["id"]], home[o["id"]], up):
                R.bad("lifetime", key, n, "%s keeps in %s memory that is freed with a scope inside its own" % (f["fn"], tgt["n"]))
            elif p is not None and p.get("k") == "return" and o["id"] in home and not o.get("parm") and f["rt"] is not None and f["rt"].k == "ptr":
                R.bad("lifetime", key, n, "%s returns memory that is freed as it returns" % f["fn"])
            else:
                R.ok("lifetime", (key, n["l"]))


def as_list(x):
    return [] if x is None else x if isinstance(x, list) else [x]
