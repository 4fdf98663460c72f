"""C35: nothing that is not there is read as though it were."""

import mem
from flow import N, THR, ANY
from program import fn_nodes, uncast, walk, where
from sym import COMPARE, SymFlow, State, mkbin, mentions, neg, norm_cond

TECHNIQUE = ("path-sensitive facts about presence (optional engaged, search result not the end, sequence not empty) "
             "required at every place that reads the value")

OPTIONAL = ("boost::optional", "std::optional")
ITERATOR = ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
            "std::__detail::_Node_const_iterator", "std::_List_iterator", "std::_List_const_iterator",
            "std::_Deque_iterator", "std::filesystem::directory_iterator",
            "std::filesystem::recursive_directory_iterator")
OWN = ("frame_iterator", "const_frame_iterator")
NONE = ("boost::none_t", "std::nullopt_t", "boost::none_t::init_tag")
PLACED = {"insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"}
SEARCH = {"find", "begin", "end", "cbegin", "cend", "lower_bound", "upper_bound", "rbegin", "rend"}
ENDS = {"end", "cend"}
STARTS = {"begin", "cbegin"}


def record(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    if t is None:
        return ""
    return (t.rec or t.s or "").split("<")[0].replace("const ", "").strip()


def is_optional(t):
    return record(t) in OPTIONAL


def is_none(t):
    return record(t) in NONE


def is_iterator(t):
    r = record(t)
    return r in ITERATOR or r.split("::")[-1] in OWN


def method(n):
    return (n.get("f") or "").split("::")[-1]


def subject(n):
    """(kind, expression) of which a call reads the value, if it does."""
    if n.get("k") != "call":
        return None
    if n.get("op") in ("*", "->") and len(n["a"]) == 1:
        e = n["a"][0]
    elif method(n) in ("get", "operator*", "operator->") and n.get("obj") is not None and not n["a"]:
        e = n["obj"]
    elif method(n) == "erase" and n.get("obj") is not None and len(n["a"]) == 1:
        e = n["a"][0]
        while e["k"] in ("cast", "ctor") and (e["k"] == "cast" or len(e["a"]) == 1):
            e = e["e"] if e["k"] == "cast" else e["a"][0]
        if e["k"] in ("var", "mem") and (is_iterator(e.get("t")) or record(e.get("t")) == "__gnu_cxx::__normal_iterator"):
            return ("iterator", e)
        return None
    else:
        return None
    t = e.get("t")
    if t is None:
        return None
    if t.k == "ptr":
        t = t.to
    if is_optional(t):
        return ("optional", e)
    if is_iterator(t) and n.get("op"):
        return ("iterator", e)
    return None


class Present(SymFlow):
    max_states = 3000

    def __init__(self, prog, inlined):
        SymFlow.__init__(self, prog)
        self.inlined = inlined
        self.sites = {}
        self.given = {}           # variable -> largest values it is given, None where unknown

    # -- terms ---------------------------------------------------------------
    def term(self, e, st):
        if e is None:
            return ("void",)
        r = st.get(("res", id(e)))
        if r is not None:
            return r
        if e["k"] == "ctor" and is_optional(e.get("t")) and not (e.get("copy") or e.get("move")):
            a = [x for x in e["a"] if uncast(x) is not None]
            if not a or is_none(uncast(a[0]).get("t")) or is_none(a[0].get("t")):
                return ("none",)
            if is_optional(uncast(a[0]).get("t")):
                return self.term(a[0], st)
            if len(a) == 1 or uncast(a[0]).get("k") != "bool":
                return ("some", self.term(a[-1], st))
        return SymFlow.term(self, e, st)

    def is_pure(self, e):
        return SymFlow.is_pure(self, e) or not e.get("obj") and not e.get("op") and self.pure_fn(e)

    def pure_fn(self, e):
        """Functions of the repository that answer with an optional, or not at all."""
        return is_optional(e.get("t")) and any(f["l"][0].startswith("scribbu/") or "/scribbu/" in f["l"][0] for f in self.prog.targets(e)) \
            and all(p.k not in ("ref", "rref", "ptr") or p.cst or p.to is not None and p.to.cst for p in (e["ft"].ps if e.get("ft") is not None else ()))

    def accessor(self, e):
        """The expression a call of a one-line accessor of this object stands for."""
        if "_accessor" not in e:
            e["_accessor"] = None
            o = e.get("obj")
            if o is not None and uncast(o)["k"] == "this" and not e["a"] and e.get("const"):
                tg = self.prog.targets(e)
                if len(tg) == 1 and tg[0].get("body"):
                    b = [x for x in tg[0]["body"].get("s", ()) if x["k"] != "null_s"]
                    if len(b) == 1 and b[0]["k"] == "return" and b[0].get("e") is not None:
                        e["_accessor"] = b[0]["e"]
        return e["_accessor"]

    @staticmethod
    def engagement(t):
        return ("c", 1) if t[0] == "some" else ("c", 0) if t[0] == "none" else ("conv", "operator bool", t)

    def call_term(self, e, st):
        r = st.get(("res", id(e)))
        if r is not None:
            return r
        op, m = e.get("op"), method(e)
        if op == "!" and len(e["a"]) == 1 and is_optional(e["a"][0].get("t")):
            return neg(self.engagement(self.term(e["a"][0], st)))
        if op in ("==", "!=") and len(e["a"]) == 2:
            a, b = e["a"]
            for x, y in ((a, b), (b, a)):
                if is_optional(x.get("t")) and is_none(uncast(y).get("t")):
                    t = self.engagement(self.term(x, st))
                    return t if op == "!=" else neg(t)
        o = e.get("obj")
        if o is not None and is_optional(o.get("t")) and m in ("is_initialized", "has_value", "operator bool", "operator!"):
            t = self.engagement(self.term(o, st))
            return neg(t) if m == "operator!" else t
        if not op and m in SEARCH and o is not None and is_iterator(e.get("t")):
            t = ("iter", "end" if m in ENDS else "begin" if m in STARTS else m, self.term(o, st))
            return t + tuple(self.term(x, st) for x in e["a"])
        if not op and f_in(e, ("std::begin", "std::end", "std::cbegin", "std::cend")) and is_iterator(e.get("t")):
            return ("iter", m[-5:] if m.endswith("begin") else "end", self.term(e["a"][0], st))
        g = self.accessor(e)
        if g is not None:
            return self.term(g, st)
        if op in ("+", "-") and len(e["a"]) == 2 and is_iterator(e.get("t")):
            return ("at", where(e), e["l"][2], op)
        return SymFlow.call_term(self, e, st)

    # -- effects ---------------------------------------------------------------
    def inline_targets(self, n):
        f = self.prog.by_usr.get(n.get("fu")) if n.get("fu") in self.inlined else None
        return [f] if f is not None and f.get("body") else []

    def assign(self, lhs, t, st):
        st = SymFlow.assign(self, lhs, t, st)
        return st

    def value_for(self, lhs, rhs, st):
        lt, rt = lhs.get("vt") or lhs.get("t"), uncast(rhs).get("t")
        if is_optional(lt):
            if is_none(rt) or uncast(rhs)["k"] == "init" and not uncast(rhs)["a"]:
                return ("none",)
            if not is_optional(rt):
                return ("some", self.term(rhs, st))
        return self.term(rhs, st)

    def call(self, n, st):
        s = subject(n)
        if s is not None:
            self.need(n, s, st)
            if s[0] == "optional" and n.get("op") in ("*", "->"):
                yield (N, st)         # whether there is a value does not change by using it
                return
        if n.get("op") == "=" and len(n["a"]) == 2 and is_optional(n["a"][0].get("t")):
            yield (N, self.assign(n["a"][0], self.value_for(n["a"][0], n["a"][1], st), st))
            yield (THR, st, ANY)
            return
        o = n.get("obj")
        if o is not None and is_optional(o.get("t")) and not n.get("const"):
            m = method(n)
            if m in ("reset", "emplace"):
                yield (N, self.assign(o, ("none",) if m == "reset" and not n["a"] else ("some", ("at", where(n), n["l"][2], m)), st))
                yield (THR, st, ANY)
                return
        if n.get("op") in ("++", "--") and len(n["a"]) == 2 and is_iterator(n["a"][0].get("t")):
            old = self.term(n["a"][0], st)
            st2 = self.assign(n["a"][0], ("at", where(n), n["l"][2], "out"), st)
            yield (N, st2.set(("res", id(n)), old))
            return
        if n.get("op") in ("--", "-=") and is_iterator(n["a"][0].get("t")) and (n["op"] == "--" or self.term(n["a"][1], st) == ("c", 1)):
            old = self.term(n["a"][0], st)
            yield (N, self.assign(n["a"][0], ("prev" if self.apart(old, st) else "before", old), st))
            return
        if n.get("op") in ("++", "--", "+=", "-=") and n["a"] and is_iterator(n["a"][0].get("t")):
            yield (N, self.assign(n["a"][0], ("at", where(n), n["l"][2], "out"), st))
            return
        yield from self.default_call(n, st)

    def clobber(self, n, st):
        st = SymFlow.clobber(self, n, st)
        # a changed container may have lost what was known to be in it
        o = n.get("obj")
        if o is not None and not n.get("const") and not n.get("op") and method(n) not in SEARCH | {"at", "front", "back", "data", "get", "size", "empty", "count"}:
            t = self.term(o, st)
            if t != ("this",) and st.facts:
                st = self.forget_facts(t, st)
        return st

    def stmt_set(self, s, states):
        if len(states) > 60:
            states = {join(states)}
        return SymFlow.stmt_set(self, s, states)

    # -- facts ---------------------------------------------------------------
    def watch(self, f):
        """Which conditions of the function say anything about presence."""
        r = f.get("_presence")
        if r is None:
            r = set()
            grown = True
            ns = [n for n in fn_nodes(f) if n.get("k")]
            for n in ns:          # numbers a search depends on, positions something is erased at
                x = subject(n) if method(n) == "erase" else None
                if x is not None and x[1]["k"] == "var":
                    r.add(x[1]["id"])
                if n["k"] == "call" and is_optional(n.get("t")) and n.get("a") and not n.get("op"):
                    for a in n["a"]:
                        a = uncast(a)
                        if a is not None and a["k"] == "var":
                            r.add(a["id"])
            while grown:
                grown = False
                for n in ns:
                    if n["k"] == "decl":
                        for v in n["d"]:
                            if v["id"] not in r and v.get("i") is not None and self.telling(v["i"], r):
                                r.add(v["id"])
                                grown = True
                    elif n["k"] == "bin" and n["op"] == "=" and uncast(n["a"])["k"] == "var":
                        i = uncast(n["a"])["id"]
                        b = uncast(n["b"])
                        if i not in r and self.telling(n["b"], r):
                            r.add(i)
                            grown = True
                        elif i in r and b is not None and b["k"] == "var" and b["id"] not in r:
                            r.add(b["id"])
                            grown = True
            f["_presence"] = r
        return r

    def telling(self, e, names):
        for n in walk(e):
            if n.get("k") == "var" and n.get("id") in names:
                return True
            t = n.get("t")
            if t is not None and (is_optional(t) or is_iterator(t)):
                return True
            if n.get("k") == "call" and method(n) in ("empty", "size", "count") and n.get("obj") is not None:
                return True
            if n.get("k") == "call" and self.accessor(n) is not None and self.telling(self.accessor(n), names):
                return True
        return False

    def assume(self, c, st, truth):
        keep = any(self.telling(c, self.watch(f)) for f in self.stack)
        x = SymFlow.assume(self, c, st, truth)
        if x is None or keep:
            return x
        return st

    def case_enter(self, s, label, st, items):
        t = self.term(s["c"], st)
        if label["k"] == "case":
            v = label["c"].get("cv", label["c"].get("v"))
            if v is None:
                return st
            if t[0] == "c":
                return st if t[1] == v else None
            return st.fact(mkbin("==", t, ("c", v)), True) if self.telling(s["c"], ()) else st
        return st

    # -- obligations ---------------------------------------------------------
    def need(self, n, s, st):
        kind, e = s
        if method(n) == "erase":
            o = uncast(n["obj"])
            if o["k"] == "mem" and uncast(o["b"])["k"] == "this" and o["n"] in complete(self.prog, self.stack[-1]):
                return            # every frame has its entry there (C11)
        t = self.term(e, st)
        while t[0] in ("*", "&") and e.get("t") is not None and e["t"].k == "ptr":
            t = t[1]
        ok = self.engaged(t, st, n) if kind == "optional" else self.found(t, st)
        k = (kind, where(n), n["l"][2])
        old = self.sites.get(k)
        root = bool(roots(t)) and not ok
        if old is None:
            self.sites[k] = [n, ok, t, root, self.stack[-1], e]
        elif not ok:
            old[1] = False
            old[3] = root if old[1] else old[3] and root or root
            old[2] = t

    def engaged(self, t, st, n):
        if t[0] == "some":
            return True
        if t[0] == "none":
            return False
        if t[0] == "ite":
            return self.engaged(t[2], self.with_(t[1], True, st), n) and self.engaged(t[3], self.with_(t[1], False, st), n)
        if st.known(("truth", t)) is True:
            return True
        for a, truth in st.facts:
            # equal to a value: there is one
            if truth and a[0] == "bin" and a[1] == "==" and t in a[2:] and any(x[0] in ("c", "s") for x in a[2:]):
                return True
        return self.promised(t, st)

    @staticmethod
    def with_(c, truth, st):
        a, pos = norm_cond(c)
        return st.fact(a, truth == pos)

    def promised(self, t, st):
        """The call that gave the value always has one for such arguments."""
        if t[0] not in ("at", "call"):
            return False
        name = t[3] if t[0] == "at" else t[1]
        p = self.prog.__dict__.setdefault("_promises", {})
        if name not in p:
            p[name] = promise(self.prog, name)
        lim = p[name]
        if lim is None:
            return False
        i, bound = lim
        return t[0] == "call" and self.below(t[3 + i], bound, st)

    def below(self, t, bound, st):
        if below(t, bound, st):
            return True
        # a variable given only such values
        return t[0] == "loop" and t[2] in self.given and all(x is not None and x < bound for x in self.given[t[2]])

    def note(self, k, t, st):
        self.given.setdefault(str(k), set()).add(upper(t, st))

    def node(self, n, st):
        if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in COMPARE or n["k"] == "un" and n["op"] in ("++", "--", "p++", "p--"):
            e = n["a"] if n["k"] == "bin" else n["e"]
            k = self.key(e)
            if k is not None:
                self.note(k, self.term(n["b"], st) if n.get("op") == "=" else ("?",), st)
        yield from SymFlow.node(self, n, st)

    def declare(self, v, st):
        st = SymFlow.declare(self, v, st)
        t = v.get("t")
        if t is not None and t.k in ("int", "uint", "char", "enum", "bool") and v.get("i") is not None:
            self.note(v["id"], st.get(v["id"]) or ("?",), st)
        elif is_optional(t) and v.get("i") is None:
            st = st.set(v["id"], ("none",))
        return st

    @staticmethod
    def apart(t, st):
        """Something lies before the position."""
        return any(not truth and a[0] == "bin" and a[1] == "==" and t in a[2:] for a, truth in st.facts)

    def found(self, t, st):
        if t[0] == "prev":
            return True
        for a, truth in st.facts:
            if truth and a[0] == "bin" and a[1] == "==" and t in a[2:] and any(x[0] == "prev" for x in a[2:]):
                return True
        if t[0] == "mem" and t[2] == "first" and t[1][0] == "at" and t[1][3].split("::")[-1] in PLACED:
            return True
        if t[0] == "get" and t[1] == 0 and t[2][0] == "at" and t[2][3].split("::")[-1] in PLACED:
            return True
        if t[0] == "at" and t[3].split("::")[-1] in ("insert", "emplace", "emplace_hint"):
            return True
        for a, truth in st.facts:
            if truth or a[0] != "bin" or a[1] != "==" or t not in a[2:]:
                continue
            x = a[3] if a[2] == t else a[2]
            if t[0] == "iter" and x[0] == "iter" and (x[1] != "end" or x[2] != t[2]):
                continue
            return True
        if t[0] == "iter" and t[1] == "begin":
            return nonempty(t[2], st)
        return False


def join(states):
    """What holds in all of them."""
    states = list(states)
    d = dict(states[0].d)
    facts = states[0].facts
    for x in states[1:]:
        d = {k: v for k, v in d.items() if x.d.get(k) == v}
        facts = facts & x.facts
    return State(d, facts, states[0].ext)


def f_in(e, names):
    return (e.get("f") or "") in names


def roots(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "parm":
        return True
    if t[0] in ("v", "mem", "this") and (t == ("this",) or t[0] == "mem" and t[1] == ("this",)):
        return True
    return any(roots(x) for x in t if isinstance(x, tuple))


def nonempty(o, st):
    for a, truth in st.facts:
        if a[0] == "call" and len(a) >= 3 and a[2] == o:
            m = a[1].split("::")[-1]
            if m == "empty" and not truth or m in ("size", "length") and truth:
                return True
        if a[0] == "bin" and any(isinstance(x, tuple) and x and x[0] == "call" and x[1].split("::")[-1] in ("size", "length") and x[2] == o for x in a[2:]):
            l, r = a[2:]
            if a[1] == "==":
                c = l if l[0] == "c" else r
                if c[0] == "c" and (c[1] > 0 if truth else c[1] == 0):
                    return True
            if a[1] == "<" and truth and r[0] == "call" and (l[0] == "c" and l[1] >= 0 or l[0] != "c"):
                return True
            if a[1] == "<" and not truth and l[0] == "call" and r[0] == "c" and r[1] > 0:
                return True
    return False


def upper(t, st):
    """Largest value of a term on this path, if known."""
    if t[0] == "c":
        return t[1]
    best = None
    for a, truth in st.facts:
        if a[0] != "bin" or a[1] != "<":
            continue
        u = a[3][1] - 1 if truth and a[2] == t and a[3][0] == "c" else a[2][1] if not truth and a[3] == t and a[2][0] == "c" else None
        if u is not None and (best is None or u < best):
            best = u
    return best


def below(t, bound, st):
    if t[0] == "c":
        return 0 <= t[1] < bound
    for a, truth in st.facts:
        if a[0] == "bin" and a[1] == "<":
            if truth and a[2] == t and a[3][0] == "c" and a[3][1] <= bound:
                return True
            if not truth and a[3] == t and a[2][0] == "c" and a[2][1] < bound:
                return True
    return False


def promise(prog, name):
    """(parameter, bound): the function returns a value whenever that parameter is below the bound."""
    fs = [f for f in prog.fns if f["n"] == name and f.get("body") and not f.get("dep")]
    if len(fs) != 1:
        return None
    f = fs[0]
    best = None
    for i, p in enumerate(f["ps"]):
        for n in fn_nodes(f):
            if n.get("k") != "if":
                continue
            pass
        flow = Returns(prog, p["id"])
        try:
            flow.run(f, flow.start(f))
        except Exception:
            return None
        if flow.bad or not flow.bounds:
            continue
        best = (i, min(flow.bounds))
    return best


class Returns(SymFlow):
    """On which side of a bound on one parameter nothing is returned."""

    def call_term(self, e, st):
        o = uncast(e.get("obj"))
        if o is not None and o["k"] == "var" and o.get("g") and method(e) == "size":
            for v in self.prog.gvars.get(o.get("q"), ()):
                i = uncast(v.get("i"))
                if v.get("cst") and i is not None and i["k"] == "ctor" and i["a"] and uncast(i["a"][0])["k"] == "init":
                    return ("c", len(uncast(i["a"][0])["a"]))
        return SymFlow.call_term(self, e, st)

    def __init__(self, prog, pid):
        SymFlow.__init__(self, prog)
        self.pid, self.bad, self.bounds = pid, False, set()

    def start(self, f, ext=None):
        st = SymFlow.start(self, f, ext)
        self.me = st.get(self.pid)
        return st

    def ret(self, n, st):
        e = n.get("e")
        gives = any(is_none(x.get("t")) for x in walk(e)) if e is not None else True
        e0 = uncast(e)
        if not gives and e0 is not None and e0["k"] == "ctor" and is_optional(e0.get("t")):
            gives = not e0["a"] or not (e0.get("copy") or e0.get("move")) and is_optional(uncast(e0["a"][0]).get("t"))
        if gives:
            lows = [a[2][1] + 1 for a, truth in st.facts if not truth is False and a[0] == "bin" and a[1] == "<" and a[3] == self.me and a[2][0] == "c"]
            lows += [a[3][1] for a, truth in st.facts if truth is False and a[0] == "bin" and a[1] == "<" and a[2] == self.me and a[3][0] == "c"]
            if lows:
                self.bounds.add(max(lows))
            else:
                self.bad = True
        return SymFlow.ret(self, n, st)


def complete(prog, f):
    """Members of f's class into which one of its functions puts an entry whatever it is given."""
    out = set()
    for g in prog.fns:
        if g.get("cls") != f.get("cls") or not g.get("body") or g.get("ctor") or not g["ps"]:
            continue
        for s in g["body"].get("s", ()):
            e = uncast(s) if s["k"] not in ("if", "for", "while", "do", "rfor", "switch", "try", "decl") else None
            if e is not None and e["k"] == "call" and method(e) in PLACED | {"push_back", "emplace_back"} and e.get("obj") is not None:
                o = uncast(e["obj"])
                if o["k"] == "mem" and uncast(o["b"])["k"] == "this":
                    out.add(o["n"])
    return out


def check(prog, R):
    R.rule("optional", "an optional's value is taken only on paths where it is known to have one", 30)
    R.rule("iterator", "what a search or a walk gave is read only on paths where it is known not to be the end", 20)
    R.rule("element", "the first or last element of a sequence is read or removed only on paths where it is known not to be empty", 5)
    fns = [f for f in prog.fns if f.get("body") and not f.get("dep")]
    has, callers = [], {}
    for f in fns:
        hit = False
        for n in fn_nodes(f):
            if n.get("k") in ("call", "ctor") and n.get("fu"):
                callers.setdefault(n["fu"], []).append(f)
            if subject(n) is not None:
                hit = True
        if hit:
            has.append(f)
    inlined, done = set(), {}
    for f in has:
        done[f["u"]] = run(prog, f, inlined)
    # a lambda that is kept, or given to a function that is not followed, is judged by itself
    judged = {k for _, sites in done.values() for k in sites}
    for f in has:
        for x in fn_nodes(f):
            if x.get("k") == "lambda" and x["fn"].get("body"):
                g = x["fn"]
                for n in walk(g["body"]):
                    s = subject(n)
                    if s is not None and (s[0], where(n), n["l"][2]) not in judged:
                        done[g["u"]] = run(prog, g, inlined)
                        g.setdefault("fn", g["n"])
                        break
    # what a function's own parameters must be is for its callers to see to
    for _ in range(4):
        more = set()
        for f, sites in done.values():
            for k, s in sites.items():
                g = s[4]
                if not s[1] and s[3] and g["u"] not in inlined and g["u"] in callers and not g.get("virt"):
                    more.add(g["u"])
        if not more:
            break
        inlined |= more
        todo = {c["u"]: c for u in more for c in callers[u]}
        for f in todo.values():
            done[f["u"]] = run(prog, f, inlined)
    verdict = {}
    for u, (f, sites) in done.items():
        for k, s in sites.items():
            if s[4]["u"] in inlined and u == s[4]["u"] and not s[1] and s[3]:
                continue          # judged where it is called
            v = verdict.setdefault(k, [s, True, f])
            if not s[1] and v[1]:
                verdict[k] = [s, False, f]
    names = {}
    for k in sorted(verdict):
        (n, _, t, _, g, e), ok, f = verdict[k]
        kind = k[0]
        if ok:
            R.ok(kind, "%s:%d" % (where(n), n["l"][2]))
        else:
            key = "%s/%s" % (g["n"], label(e))
            i = names[key] = names.get(key, 0) + 1
            R.bad(kind, (key + ("/%d" % i if i > 1 else "")).replace(" ", "-"), n,
                  "%s reads %s on a path where it is not known to be there%s" % (
                      g["n"], label(e), "" if f is g or f["u"] == g["u"] else " (called by %s)" % f["n"]))
    out, _ = mem.analyse(prog)
    for f, results, _ in sorted(out.values(), key=lambda x: (x[0]["l"][0], x[0]["l"][1], x[0]["u"])):
        for k, (n, ok, info) in sorted(results.items(), key=lambda x: (x[1][0]["l"], x[0])):
            if k[0] != "element" or info["tag"] == "[]":
                continue
            if ok:
                R.ok("element", "%s:%d %s" % (where(n), n["l"][2], info["tag"]))
            else:
                key = "%s/%s/%s" % (f["n"], info.get("what"), info["tag"])
                i = names[key] = names.get(key, 0) + 1
                R.bad("element", (key + ("/%d" % i if i > 1 else "")).replace(" ", "-"), n,
                      "%s: %s() of %s, which is not known to have an element" % (f["n"], info["tag"], info.get("what")))
    R.extra["functions analysed"] = len(done)
    R.extra["functions judged at their callers"] = len(inlined)


def run(prog, f, inlined):
    fl = Present(prog, inlined)
    fl.run(f, fl.start(f))
    return f, fl.sites


def label(e):
    e = uncast(e)
    if e is None:
        return "?"
    if e["k"] in ("var", "mem"):
        return e["n"]
    if e["k"] == "call":
        if e.get("op") and e["a"]:
            return label(e["a"][0])
        return method(e) + "()"
    if e["k"] == "un":
        return label(e["e"])
    return e["k"]
