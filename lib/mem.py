"""Memory regions on top of the value analysis.

Every pointer or iterator value is a linear form over one region (a fixed-size
object, a container's elements, an allocation, or the range a function is
given); every access must be shown to lie inside its region from the
conditions on the path.  Functions are analysed one by one: a parameter that is
a pointer with a length, or a pair of iterators, stands for a valid range
inside the function and is an obligation at each of its call sites; a pointer
given alone needs as many elements as its function touches.
"""

from math import gcd
from facts import AnalysisBroken
from flow import Out, N, THR, ANY
from lin import lin, sub
from program import const, fn_nodes, uncast, walk, where
from sym import COMPARE, SymFlow, State, mkbin, norm_cond

SEQ = ("std::vector", "std::array", "std::basic_string", "std::deque", "std::basic_string_view", "std::span")
CONTIG = ("std::vector", "std::array", "std::basic_string", "std::basic_string_view", "std::span", "std::deque")
SMART = ("std::unique_ptr", "boost::shared_array", "boost::scoped_array", "std::shared_ptr")
FIRST = {"begin", "data", "cbegin", "c_str", "rbegin", "crbegin"}
LAST = {"end", "cend"}
FIND = {"std::find", "std::find_if", "std::find_if_not", "std::search", "std::adjacent_find", "std::find_first_of",
        "std::lower_bound", "std::upper_bound", "std::search_n", "std::find_end", "std::mismatch"}
KEEP = FIRST | LAST | {"size", "length", "empty", "at", "front", "back", "operator[]", "capacity", "reserve", "rend",
                       "operator*", "operator->", "get", "swap_", "find", "substr", "compare", "fill", "max_size", "shrink_to_fit"}


def rec_of(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t.rec if t is not None and t.k == "rec" else None


def bare(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t


def seq_type(t):
    t = bare(t)
    if t is not None and t.k == "rec" and t.rec:
        r = t.rec.split("<")[0]
        if r in SEQ:
            return t
    return None


def array_n(t):
    """Element count of a std::array type."""
    s = t.s.rstrip(" &")
    try:
        return int(s[s.rindex(",") + 1:s.rindex(">")].strip(" UL"))
    except ValueError:
        return None


def elem_size(t):
    t = bare(t)
    if t is None:
        return None
    if t.k in ("ptr", "arr", "varr"):
        return t.to.sz if t.to is not None and t.to.k != "void" else 1
    if t.k == "rec" and t.targs:
        a = t.targs[0]
        if (t.rec or "").startswith("__gnu_cxx::__normal_iterator"):
            return elem_size(a)
        return a.sz if a is not None and a.k != "void" else None
    return None


def is_ptr(t):
    t = bare(t)
    return t is not None and (t.k in ("ptr", "arr", "varr") or t.k == "rec" and (t.rec or "").startswith(("__gnu_cxx::__normal_iterator", "std::_Deque_iterator")))


def rebuild(form):
    """Term of a linear form, in one order."""
    out = None
    for a, k in sorted(form[0], key=repr):
        x = a if k == 1 else ("bin", "*", ("c", k), a)
        out = x if out is None else ("bin", "+", out, x)
    if out is None:
        return ("c", form[1])
    return out if form[1] == 0 else ("bin", "+", out, ("c", form[1]))


def canon(t):
    if t[0] == "bin" and t[1] in ("+", "-", "*"):
        return rebuild(lin(t))
    return t


def scaled(f, k):
    return frozenset((a, c * k) for a, c in f[0]), f[1] * k


NAMES = {}


def name_of(a):
    r = NAMES.get(a)
    if r is None:
        r = NAMES[a] = repr(a)
    return r


def prove(forms, goal, failed, depth=4):
    """goal >= 0 as a non-negative combination of forms >= 0."""
    if not goal[0]:
        return goal[1] >= 0
    if depth == 0 or failed.get(goal, 0) >= depth:
        return False
    # eliminate the atom with fewest candidates
    best = None
    for a, k in goal[0]:
        c = forms.get((a, k > 0), ())
        if not c:
            failed[goal] = 9
            return False
        if best is None or (len(c), k, name_of(a)) < best[0]:
            best = ((len(c), k, name_of(a)), a, k, c)
    _, a, k, c = best
    for fk, f in c:
        k1, k2 = abs(k), abs(fk)
        g = gcd(k1, k2)
        x = sub(goal if k2 == g else scaled(goal, k2 // g), f if k1 == g else scaled(f, k1 // g))
        if prove(forms, x, failed, depth - 1):
            return True
    failed[goal] = depth
    return False


class Ctx:
    """What is known to be >= 0 on a path."""

    def __init__(self, facts, ranges):
        out, neq = [], []
        for t, truth in facts:
            if t[0] != "bin" or t[1] in ("&", "|", "+", "-", "%", ">>", "<<", "*"):
                if isinstance(t, tuple) and t[0] not in ("un", "c", "s"):
                    if truth:
                        neq.append(lin(t))
                    else:
                        out += [lin(t), scaled(lin(t), -1)]
                continue
            if t[1] == "<":
                a, b = lin(t[2]), lin(t[3])
                if truth:
                    s, c = sub(b, a)
                    out.append((s, c - 1))
                else:
                    out.append(sub(a, b))
            elif t[1] == "==":
                x = sub(lin(t[2]), lin(t[3]))
                if truth:
                    out += [x, scaled(x, -1)]
                else:
                    neq.append(x)
        self.idx = {}
        self.memo = {}
        seen = set()
        out.sort(key=lambda f: (len(f[0]), f[1], sorted((name_of(a), k) for a, k in f[0])))
        for f in out:
            self.add(f)
        atoms = set()
        for f in out + neq:
            atoms |= {a for a, _ in f[0]}
        self.ranges = ranges
        self.done = set()
        for a in sorted(atoms, key=name_of):
            self.atom(a)
        for _ in range(2):
            for x in neq:
                if x in seen:
                    continue
                for s in (x, scaled(x, -1)):
                    self.need(s)
                    if prove(self.idx, s, {}, 3):
                        self.add((s[0], s[1] - 1))
                        seen.add(x)
                        break

    def add(self, f):
        for a, k in f[0]:
            l = self.idx.setdefault((a, k > 0), [])
            if (k, f) not in l:
                l.append((k, f))

    def atom(self, a):
        if a in self.done:
            return
        self.done.add(a)
        for f in self.ranges(a):
            self.add(f)
            for b, _ in f[0]:
                self.atom(b)

    def need(self, f):
        for a, _ in f[0]:
            self.atom(a)

    def entails(self, f):
        r = self.memo.get(f)
        if r is None:
            self.need(f)
            r = self.memo[f] = prove(self.idx, f, {})
        return r


def members_changed(prog, n, busy=()):
    """Members of its object a call may change; None if that cannot be told."""
    tg = prog.targets(n)
    if not tg:
        return None
    out = set()
    for g in tg:
        if g["u"] in busy:
            continue
        r = g.get("_members_changed", 0)
        if r == 0:
            r = _members_changed(prog, g, busy + (g["u"],))
            if not busy:
                g["_members_changed"] = r
        if r is None:
            return None
        out |= r
    return out


def member_names(l):
    out = set()
    while isinstance(l, tuple) and l and l[0] == "M":
        out.add(l[2])
        l = l[1]
    return out


def _members_changed(prog, g, busy):
    out = set()

    def own(e):
        e = uncast(e)
        while e is not None:
            if e["k"] == "mem":
                b = uncast(e["b"])
                if b is not None and b["k"] == "this":
                    return e["n"]
                e = b
            elif e["k"] == "idx":
                e = uncast(e["a"])
            elif e["k"] == "un" and e["op"] in ("*", "&"):
                e = uncast(e["e"])
                if e is not None and e["k"] == "this":
                    return "*"
            elif e["k"] == "call" and e.get("op") in ("[]", "*", "->", "=") and e["a"]:
                e = uncast(e["a"][0])
            elif e["k"] == "call" and e.get("obj") is not None:
                e = uncast(e["obj"])
            else:
                return "*" if e["k"] == "this" else None
        return None
    for x in fn_nodes(g):
        k = x.get("k")
        if k == "bin" and x["op"].endswith("=") and x["op"] not in COMPARE:
            out.add(own(x["a"]))
        elif k == "un" and x["op"] in ("++", "--", "p++", "p--", "&"):
            out.add(own(x["e"]))
        elif k == "decl":
            for v in x["d"]:
                t = v.get("t")
                if t is not None and t.k == "ref" and not t.cst and v.get("i") is not None:
                    out.add(own(v["i"]))
        elif k == "call" and x.get("obj") is not None and uncast(x["obj"])["k"] == "this":
            if not x.get("const"):
                r = members_changed(prog, x, busy)
                if r is None:
                    return None
                out |= r
        elif k in ("call", "ctor"):
            ft = x.get("ft")
            ps = ft.ps if ft is not None else ()
            args = x["a"]
            if x.get("op") and len(ps) == len(args) - 1:
                if not x.get("const"):
                    out.add(own(args[0]))
                args = args[1:]
            if x.get("obj") is not None and not x.get("const"):
                out.add(own(x["obj"]))
            for i, a in enumerate(args):
                p = ps[i] if i < len(ps) else None
                if p is None or p.k == "ref" and not p.cst:
                    out.add(own(a))
    out.discard(None)
    return None if "*" in out else out


class Mem(SymFlow):
    max_states = 3000

    def __init__(self, prog, needs, posts=None):
        SymFlow.__init__(self, prog)
        self.needs = needs        # usr -> {param index: elements}
        self.posts = posts or {}  # usr -> parameters the result never exceeds
        self.my_posts = None
        self.my_needs = {}
        self.rng = {}             # atom -> (lo, hi)
        self.reg = {}             # pointer atom -> (lo term, hi term, element size)
        self.ctxs = {}
        self.results = {}

    # -- set-up -------------------------------------------------------------
    def contracts(self, f):
        """[(kind, i, j)] for the parameters of a function."""
        c = f.get("_contracts")
        if c is not None:
            return c
        c, ps, i = [], f["ps"], 0
        while i < len(ps):
            t = ps[i]["t"]
            nx = ps[i + 1]["t"] if i + 1 < len(ps) else None
            b = bare(t)
            itr = is_ptr(t) or b is not None and b.k == "dep"
            if itr and nx is not None and bare(nx).s == b.s and (b.k != "ptr" or b.to.k not in ("rec", "func", "ptr")) and not (b.k == "dep" and not looks_range(f, i)):
                c.append(("range", i, i + 1))
                i += 2
                continue
            if b is not None and b.k in ("ptr", "varr") and b.to is not None and (b.to.k in ("int", "uint", "void")):
                n = bare(nx) if nx is not None else None
                if n is not None and n.k in ("uint", "int") and n.sz == 8 and elem_size(t) == 1 and t.k not in ("ref", "rref"):
                    c.append(("sized", i, i + 1))
                    i += 2
                    continue
                if t.k not in ("ref", "rref"):
                    c.append(("alone", i, None))
            elif b is not None and b.k == "arr":
                c.append(("array", i, b.n))
            i += 1
        f["_contracts"] = c
        return c

    def start(self, f, ext=None):
        st = SymFlow.start(self, f, ext)
        self.fn = f
        for kind, i, j in self.contracts(f):
            p = ("parm", f["ps"][i]["n"])
            es = elem_size(f["ps"][i]["t"])
            if kind == "range":
                q = ("parm", f["ps"][j]["n"])
                self.reg[p] = (p, q, es)
                self.reg[q] = (p, q, es)
                st = self.ge(q, p, st)
            elif kind == "sized":
                q = ("parm", f["ps"][j]["n"])
                self.reg[p] = (p, ("bin", "+", p, q), es)
            elif kind == "array":
                self.reg[p] = (p, ("bin", "+", p, ("c", j)), es)
            else:
                self.reg[p] = ("alone", i, es)
        for p in f["ps"]:
            self.typed(("parm", p["n"]), p["t"])
        return st

    # -- numeric knowledge ---------------------------------------------------
    def typed(self, t, ty):
        ty = bare(ty)
        if ty is None or t[0] == "c" or t in self.rng:
            return
        if ty.k == "uint" or ty.k == "bool":
            self.rng[t] = (0, (1 << (8 * ty.sz)) - 1 if ty.k == "uint" and ty.sz < 8 else 1 if ty.k == "bool" else None)
        elif ty.k == "int" and ty.sz and ty.sz < 4:
            self.rng[t] = (-(1 << (8 * ty.sz - 1)), (1 << (8 * ty.sz - 1)) - 1)
        elif ty.k == "enum":
            e = self.prog.enums.get(ty.rec)
            if e and e["e"]:
                v = [x["v"] for x in e["e"]]
                self.rng[t] = (min(v), max(v))

    def interval(self, t):
        """(lo, hi) of an integer term; None for unknown."""
        if t[0] == "c" and isinstance(t[1], int):
            return (t[1], t[1])
        if t[0] == "bin":
            op = t[1]
            a, b = self.interval(t[2]), self.interval(t[3])
            if op == "&":
                best = [x[1] for x in (a, b) if x[0] is not None and x[0] >= 0 and x[1] is not None]
                return (0, min(best)) if best else (None, None)
            if op == ">>" and b[0] is not None and b[0] == b[1] and a[0] is not None and a[0] >= 0:
                return (a[0] >> b[0], None if a[1] is None else a[1] >> b[0])
            if op == "<<" and b[0] is not None and b[0] == b[1] and a[0] is not None and a[0] >= 0:
                return (a[0] << b[0], None if a[1] is None else a[1] << b[0])
            if op == "|" and None not in a and None not in b and a[0] >= 0 and b[0] >= 0:
                return (max(a[0], b[0]), (1 << max(a[1].bit_length(), b[1].bit_length())) - 1)
            if op == "+":
                return (None if None in (a[0], b[0]) else a[0] + b[0], None if None in (a[1], b[1]) else a[1] + b[1])
            if op == "*" and a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
                return (a[0] * b[0], None if None in (a[1], b[1]) else a[1] * b[1])
            if op == "%" and b[0] is not None and b[0] == b[1] and b[0] > 0 and a[0] is not None and a[0] >= 0:
                return (0, b[0] - 1)
            if op == "/" and b[0] is not None and b[0] == b[1] and b[0] > 0 and a[0] is not None and a[0] >= 0:
                return (a[0] // b[0], None if a[1] is None else a[1] // b[0])
            if op in COMPARE:
                return (0, 1)
        if t[0] == "ite":
            a, b = self.interval(t[2]), self.interval(t[3])
            return (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
        if t[0] == "len":
            return (0, None)
        r = self.rng.get(t)
        return r if r is not None else (None, None)

    def ranges(self, a):
        lo, hi = self.interval(a)
        if lo is not None:
            yield (frozenset({(a, 1)}), -lo)
        if hi is not None:
            yield (frozenset({(a, -1)}), hi)
        if a[0] == "call" and a[1] in ("std::min", "std::max") and len(a) == 5:
            for x in a[3:]:
                f = sub(lin(x), lin(a))
                yield f if a[1] == "std::min" else scaled(f, -1)
        if a[0] == "bin" and a[1] == ">>" and a[3][0] == "c":
            # 2^k * a <= x
            yield sub(lin(a[2]), scaled(lin(a), 1 << a[3][1]))
        if a[0] == "bin" and a[1] == "<<" and a[3][0] == "c" and 0 <= a[3][1] < 32:
            x = sub(lin(a), scaled(lin(a[2]), 1 << a[3][1]))
            yield x
            yield scaled(x, -1)
        if a[0] == "ite":
            # both arms below a common term
            x, y = lin(a[2]), lin(a[3])
            if a[1][0] == "bin" and a[1][1] == "<":
                p, q = a[1][2], a[1][3]
                if {p, q} == {a[2], a[3]}:
                    if a[2] == p:       # p < q ? p : q
                        yield sub(x, lin(a))
                        yield sub(y, lin(a))
                    else:
                        yield sub(lin(a), x)
                        yield sub(lin(a), y)

    def ctx(self, st):
        c = self.ctxs.get(st.facts)
        if c is None:
            if len(self.ctxs) > 20000:
                self.ctxs.clear()
            c = self.ctxs[st.facts] = Ctx(st.facts, self.ranges)
        return c

    def entails(self, st, form):
        if not form[0]:
            return form[1] >= 0
        return self.ctx(st).entails(form)

    @staticmethod
    def ge(a, b, st):
        """a >= b holds from here on."""
        if a == b:
            return st
        return st.fact(("bin", "<", a, b), False)

    @staticmethod
    def eq(a, b, st):
        if a == b:
            return st
        return Mem.ge(a, b, Mem.ge(b, a, st))

    # -- places ---------------------------------------------------------------
    def loc(self, e, st):
        """Identity of the object an lvalue names."""
        e = uncast(e)
        k = e["k"]
        if k == "var":
            t = e.get("vt")
            if t is not None and t.k in ("ref", "rref"):
                x = st.get(e["id"])
                if x is not None and x[0] == "ref":
                    return x[1]
                return ("R", e["n"], e.get("id"))
            return ("L", e["n"], e.get("id") if not e.get("g") else e["q"])
        if k == "mem":
            return ("M", self.loc(e["b"], st), e["n"])
        if k == "this":
            return ("this",)
        if k == "un" and e["op"] == "*":
            return ("D", self.term(e["e"], st))
        if k == "call" and e.get("op") in ("*", "->") and len(e["a"]) == 1:
            return ("D", self.loc(e["a"][0], st))
        if k == "idx":
            return ("E", self.loc(e["a"], st), self.term(e["b"], st))
        if k == "call" and e.get("op") == "[]":
            return ("E", self.loc(e["a"][0], st), self.term(e["a"][1], st))
        return ("X", self.term(e, st))

    def length(self, e, st):
        """Number of elements of a container expression."""
        t = seq_type(e.get("t") or e.get("vt"))
        e0 = uncast(e)
        t = seq_type(e0.get("vt") or e0.get("t")) or t
        if t is not None and t.rec.startswith("std::array"):
            n = array_n(t)
            if n is not None:
                return ("c", n)
        if e0["k"] == "str":
            return ("c", len(e0["v"]))
        return self.len_at(self.loc(e0, st), st)

    def len_at(self, l, st):
        x = st.get(("len", l))
        return x if x is not None else ("len", l)

    def data(self, e, st):
        return ("data", self.loc(e, st))

    def region(self, t, st):
        """(lo, hi, element size, form) of a pointer value."""
        f = lin(t)
        for a, k in f[0]:
            if k != 1:
                continue
            r = self.region_of(a, st)
            if r is not None:
                return r + (f,)
        return None

    def region_of(self, a, st):
        if a[0] == "data":
            es = self.esz.get(a) if hasattr(self, "esz") else None
            n = self.fixed.get(a)
            return (a, ("bin", "+", a, ("c", n) if n is not None else self.len_at(a[1], st)), es)
        r = self.reg.get(a)
        if r is None and a[0] == "loop":
            return None
        return r

    esz = {}
    fixed = {}
    text = set()

    # -- terms ----------------------------------------------------------------
    def term(self, e, st):
        if e is None:
            return ("void",)
        k = e["k"]
        if const(e) is not None:
            return SymFlow.term(self, e, st)
        if k == "cast":
            return self.term(e["e"], st)
        if k in ("var", "mem"):
            vt = e.get("vt") or e.get("t")
            b = bare(vt)
            if b is not None and b.k == "arr":
                if k == "var" and e.get("parm"):
                    return st.get(e["id"]) or ("parm", e["n"])
                a = ("arr", self.loc(e, st))
                self.reg[a] = (a, ("bin", "+", a, ("c", b.n)), elem_size(b))
                return a
            t = SymFlow.term(self, e, st)
            if t[0] == "ref":
                t = ("val", t[1])
            if k == "mem" and t[0] != "c" and t not in self.rng:
                r = field_range(self.prog, e.get("cls"), e["n"])
                if r is not None:
                    self.rng[t] = r
            self.typed(t, b)
            return t
        if k == "un":
            op = e["op"]
            if op == "&":
                return self.address(e["e"], st)
            if op in ("p++", "p--"):
                if self.key(e["e"]) is not None:
                    return canon(mkbin("-" if op == "p++" else "+", self.term(e["e"], st), ("c", 1)))
                return SymFlow.term(self, e, st)
            t = SymFlow.term(self, e, st)
            self.typed(t, e.get("t"))
            return t
        if k == "bin" and e["op"] == "-" and bare(e.get("t")) is not None and bare(e["t"]).k == "uint":
            a, b = self.term(e["a"], st), self.term(e["b"], st)
            if self.entails(st, sub(lin(a), lin(b))):
                return canon(mkbin("-", a, b))
            w = ("wrap", a, b)
            self.rng[w] = (0, None)
            return w
        if k == "bin":
            t = SymFlow.term(self, e, st)
            if e["op"] in ("+", "-", "*"):
                t = canon(t)
            return t
        if k == "idx":
            b = bare(e.get("t"))
            if b is not None and b.k == "arr":
                a = ("arr", self.loc(e, st))
                self.reg[a] = (a, ("bin", "+", a, ("c", b.n)), elem_size(b))
                return a
            t = ("*", canon(mkbin("+", self.term(e["a"], st), self.term(e["b"], st))))
            self.typed(t, b)
            return t
        if k == "new":
            t = ("alloc", where(e), e["l"][2])
            return t
        if k in ("ctor", "call"):
            t = SymFlow.term(self, e, st)
            self.typed(t, e.get("t"))
            return t
        return SymFlow.term(self, e, st)

    def address(self, e, st):
        e = uncast(e)
        k = e["k"]
        if k == "idx":
            return canon(mkbin("+", self.term(e["a"], st), self.term(e["b"], st)))
        if k == "call" and e.get("op") == "[]" and seq_type((uncast(e["a"][0])).get("vt") or e["a"][0].get("t")):
            return canon(mkbin("+", self.begin(e["a"][0], st), self.term(e["a"][1], st)))
        if k == "call" and (e.get("f") or "").endswith("::front") and e.get("obj") is not None and seq_type(e["obj"].get("t")):
            return self.begin(e["obj"], st)
        if k == "un" and e["op"] == "*":
            return self.term(e["e"], st)
        if k == "call" and e.get("op") == "*" and len(e["a"]) == 1:
            return self.term(e["a"][0], st)
        t = e.get("vt") or e.get("t")
        b = bare(t)
        if b is not None and b.k == "arr":
            return self.term(e, st)
        a = ("addr", self.loc(e, st))
        if b is not None and b.sz:
            self.reg[a] = (a, ("bin", "+", a, ("c", 1)), b.sz)
        return a

    def begin(self, o, st):
        a = self.data(o, st)
        o0 = uncast(o)
        t = seq_type(o0.get("vt") or o0.get("t")) or seq_type(o.get("t"))
        if t is not None:
            if t.rec.split("<")[0] == "std::basic_string":
                Mem.text.add(a)
            Mem.esz[a] = t.targs[0].sz if t.targs and t.targs[0] is not None else None
            if t.rec.startswith("std::array"):
                Mem.fixed[a] = array_n(t)
        return a

    def call_term(self, e, st):
        r = st.get(("res", id(e)))
        if r is not None:
            return r
        f = e.get("f") or "?"
        m = f.split("::")[-1]
        o = e.get("obj")
        if o is not None:
            t = seq_type((uncast(o)).get("vt")) or seq_type(o.get("t"))
            if t is not None:
                if m in FIRST:
                    return self.begin(o, st)
                if m in LAST:
                    return canon(mkbin("+", self.begin(o, st), self.length(o, st)))
                if m in ("size", "length"):
                    return self.length(o, st)
                if m == "empty":
                    return mkbin("==", self.length(o, st), ("c", 0))
            if m == "get" and f.split("::get")[0].startswith(SMART):
                x = st.get(("pt", self.loc(o, st)))
                if x is not None:
                    return x
                return ("pt", self.loc(o, st))
        if f == "std::distance" and len(e["a"]) == 2:
            return canon(mkbin("-", self.term(e["a"][1], st), self.term(e["a"][0], st)))
        if f in ("std::begin", "std::cbegin", "std::data") and e["a"] and seq_type(e["a"][0].get("t")):
            return self.begin(e["a"][0], st)
        if f in ("std::end", "std::cend") and e["a"] and seq_type(e["a"][0].get("t")):
            return canon(mkbin("+", self.begin(e["a"][0], st), self.length(e["a"][0], st)))
        if f in ("std::begin", "std::end", "std::cbegin", "std::cend") and e["a"] and bare(e["a"][0].get("t")) is not None and bare(e["a"][0]["t"]).k == "arr":
            a = self.term(e["a"][0], st)
            return a if m.endswith("begin") else canon(mkbin("+", a, ("c", bare(e["a"][0]["t"]).n)))
        if f == "std::size" and e["a"]:
            b = bare(e["a"][0].get("t"))
            if b is not None and b.k == "arr":
                return ("c", b.n)
            if seq_type(b):
                return self.length(e["a"][0], st)
        if f in ("std::next", "std::prev") and e["a"]:
            n = self.term(e["a"][1], st) if len(e["a"]) > 1 else ("c", 1)
            return canon(mkbin("+" if m == "next" else "-", self.term(e["a"][0], st), n))
        op = e.get("op")
        if op in ("+", "-") and len(e["a"]) == 2 and (is_ptr(e["a"][0].get("t")) or is_ptr(e["a"][1].get("t"))):
            return canon(SymFlow.call_term(self, e, st))
        if op == "[]" and is_ptr(e["a"][0].get("t")):
            return ("*", canon(mkbin("+", self.term(e["a"][0], st), self.term(e["a"][1], st))))
        if op == "++" or op == "--":
            if self.key(e["a"][0]) is not None and is_ptr(e["a"][0].get("t")):
                t = self.term(e["a"][0], st)
                return t if len(e["a"]) == 1 else canon(mkbin("-" if op == "++" else "+", t, ("c", 1)))
        g = self.formula(e)
        if g is not None:
            return self.term(g[1], self.bind(e, g[0], st))
        if f in ("strlen", "std::strlen", "wcslen"):
            t = ("strlen", self.term(e["a"][0], st))
            self.rng[t] = (0, None)
            return t
        return SymFlow.call_term(self, e, st)

    def formula(self, n):
        """(callee, expression) of a call to a function or lambda that only computes with its arguments."""
        if "_formula" not in n:
            n["_formula"] = self._formula(n)
        return n["_formula"]

    def _formula(self, n):
        if n["k"] != "call":
            return None
        g = None
        own_obj = n.get("obj") is not None and uncast(n["obj"])["k"] == "this"
        if n.get("virt") and not own_obj:
            return None
        if n.get("op") == "()" and n["a"]:
            u = uncast(n["a"][0])
            if u["k"] == "lambda":
                g = u.get("fn")
            elif u["k"] == "var" and not u.get("parm"):
                for x in fn_nodes(self.fn):
                    if x.get("k") == "decl":
                        for v in x["d"]:
                            if v.get("id") == u.get("id") and v.get("i") is not None:
                                for y in walk(v["i"]):
                                    if y.get("k") == "lambda":
                                        g = y.get("fn")
            args = n["a"][1:]
            if g is not None:
                g = dict(g, cls="lambda")
        else:
            tg = self.prog.targets(n)
            args = n["a"]
            if len(tg) == 1 and (n.get("obj") is None or own_obj and n.get("const")) and not n.get("op"):
                g = tg[0]
        if g is None or not g.get("body") or len(args) != len(g["ps"]):
            return None
        b = g["body"]["s"] if g["body"]["k"] == "block" else [g["body"]]
        b = [x for x in b if x["k"] != "null_s"]
        if len(b) != 1 or b[0]["k"] != "return" or b[0].get("e") is None:
            return None
        own = {p["id"] for p in g["ps"]}
        for x in walk(b[0]["e"]):
            k = x.get("k")
            if k == "var" and (x["id"] in own or g.get("cls") == "lambda" and not x.get("g")) or k in ("int", "bool", "cast", "sizeof", "cond"):
                continue
            if k == "bin" and not (x["op"].endswith("=") and x["op"] not in COMPARE):
                continue
            if k == "call" and x.get("op") in ("+", "-", "==", "!=", "<", ">", "<=", ">="):
                continue
            if k == "un" and x["op"] in ("-", "!", "+"):
                continue
            if k == "ctor" and (x.get("copy") or x.get("move")):
                continue
            if own_obj and (k == "this" or k == "mem" and uncast(x["b"])["k"] == "this"):
                continue
            if own_obj and k == "call" and not x["a"] and x.get("const") and x.get("obj") is not None and (x.get("f") or "").split("::")[-1] in ("size", "empty", "length"):
                continue
            if k is None:
                continue
            return None
        return (g, b[0]["e"])

    # -- accesses ---------------------------------------------------------------
    def record(self, kind, n, ok, info):
        if kind == "pass":
            info["mut"] = self.mut
        k = (kind, where(n), n["l"][2], info.get("tag"))
        old = self.results.get(k)
        if old is None or old[1] and not ok:
            self.results[k] = (n, ok, info)

    def access(self, kind, n, ptr, count, es, st, tag=""):
        """count elements at ptr are read or written."""
        if isinstance(count, tuple) and count and count[0] == "c" and count[1] == 0:
            return
        if ptr[0] == "s":           # a string literal, with its terminator
            self.record(kind, n, self.entails(st, sub(lin(("c", len(ptr[1]) + 1)), lin(count))), {"tag": tag, "what": "a string literal"})
            return
        r = self.region(ptr, st)
        if r is None:
            self.record("unknown", n, True, {"tag": tag})
            return
        if r[0] == "alone":
            f = r[3]
            c = sub(f, lin(self.parm_of(f)))
            e = lin(count)
            if not c[0] and not e[0]:
                i = r[1]
                self.my_needs[i] = max(self.my_needs.get(i, 0), c[1] + e[1])
                if c[1] < 0:
                    self.record(kind, n, False, {"tag": tag, "what": self.name(ptr)})
            else:
                self.record("unknown", n, True, {"tag": tag})
            return
        lo, hi, rs, f = r
        if kind != "write" and lo in Mem.text:
            hi = mkbin("+", hi, ("c", 1))       # a string's terminator may be read
        off = sub(f, lin(lo))
        cnt = lin(count)
        if es is not None and rs is not None and es != rs:
            ext = sub(lin(hi), lin(lo))
            if off[0] or off[1]:
                self.record("unknown", n, True, {"tag": tag})
                return
            ok = self.entails(st, sub(scaled(ext, rs), scaled(cnt, es)))
            self.record(kind, n, ok, {"tag": tag, "what": self.name(lo), "need": "%s bytes" % show(scaled(cnt, es)), "has": show(scaled(ext, rs))})
            return
        a = self.entails(st, off)
        b = self.entails(st, sub(sub(lin(hi), f), cnt))
        self.record(kind, n, a and b, {"tag": tag, "open": self.open_(lo, hi), "what": self.name(lo), "need": show((off[0] | frozenset(), off[1])) + " .. +" + show(cnt),
                                        "has": show(sub(lin(hi), lin(lo)))})

    def span(self, kind, n, a, b, es, st, tag=""):
        """The range [a, b) is read or written."""
        ra, rb = self.region(a, st), self.region(b, st)
        if ra is None or rb is None or ra[0] == "alone" or rb[0] == "alone":
            self.record("unknown", n, True, {"tag": tag})
            if ra is not None and ra[0] == "alone":
                d = sub(lin(b), lin(a))
                if not d[0]:
                    self.access(kind, n, a, ("c", d[1]), es, st, tag)
            return
        lo, hi, rs, f = ra
        ok = self.entails(st, sub(f, lin(lo))) and self.entails(st, sub(lin(b), f)) and self.entails(st, sub(lin(hi), lin(b)))
        self.record(kind, n, ok, {"tag": tag, "open": self.open_(lo, hi), "what": self.name(lo), "need": "%s .. %s" % (show(sub(f, lin(lo))), show(sub(lin(b), lin(lo)))),
                                  "has": show(sub(lin(hi), lin(lo)))})

    @staticmethod
    def open_(lo, hi):
        """The region is a container of which nothing but its having a length is known."""
        d = sub(lin(hi), lin(lo))
        return lo[0] == "data" and any(a[0] == "len" or a[0] in ("at", "join", "loop") and "len" in a for a, _ in d[0])

    def parm_of(self, f):
        return next(a for a, k in f[0] if k == 1 and self.reg.get(a, (None,))[0] == "alone")

    @staticmethod
    def name(t):
        while isinstance(t, tuple) and t and t[0] in ("data", "arr", "addr", "M", "L", "R", "D", "parm", "*", "pt"):
            if t[0] == "M":
                return t[2]
            if t[0] in ("L", "R", "parm"):
                return str(t[1])
            t = t[1]
        return str(t[0]) if t[0] != "alloc" else "an allocation"

    # -- results ---------------------------------------------------------------
    def ret(self, n, st):
        e = n.get("e")
        if e is not None and self.depth_ == 0:
            t = self.term(e, st)
            rt = bare(self.fn.get("rt"))
            if rt is not None and rt.k == "uint":
                ok = frozenset(i for i, p in enumerate(self.fn["ps"]) if bare(p["t"]) is not None and bare(p["t"]).k == "uint"
                               and self.entails(st, sub(lin(("parm", p["n"])), lin(t))))
                self.my_posts = ok if self.my_posts is None else self.my_posts & ok
            # a position in a range it was given
            for kind, i, j in self.contracts(self.fn):
                if kind == "range" and rt is not None and rt.s == bare(self.fn["ps"][i]["t"]).s:
                    r = self.region(t, st)
                    if r is not None and r[0] == ("parm", self.fn["ps"][i]["n"]):
                        ok = self.entails(st, sub(lin(t), lin(r[0]))) and self.entails(st, sub(lin(r[1]), lin(t)))
                        self.record("return", n, ok, {"tag": "return", "what": self.fn["ps"][i]["n"], "need": show(sub(lin(t), lin(r[0]))), "has": show(sub(lin(r[1]), lin(r[0])))})
        return SymFlow.ret(self, n, st)

    depth_ = 0

    # -- effects ---------------------------------------------------------------
    def node(self, n, st):
        k = n["k"]
        if k == "idx" and not n.get("_addr"):
            self.access("write" if n.get("_lhs") else "index" if bare(uncast(n["a"]).get("vt") or uncast(n["a"]).get("t")).k in ("arr",) else "read",
                        n, canon(mkbin("+", self.term(n["a"], st), self.term(n["b"], st))), ("c", 1), elem_size(n["a"].get("t")), st, "idx")
        elif k == "un" and n["op"] == "*" and not n.get("_addr") and is_ptr(n["e"].get("t")):
            t = bare(n["e"]["t"])
            if t.k in ("arr",) or t.k == "ptr" and t.to.k in ("int", "uint") or t.k == "rec":
                self.access("write" if n.get("_lhs") else "read", n, self.term(n["e"], st), ("c", 1), elem_size(t), st, "deref")
        elif k == "un" and n["op"] == "*" and not n.get("_addr") and bare(n["e"].get("t")) is not None and bare(n["e"]["t"]).k == "dep":
            if self.region(self.term(n["e"], st), st):
                self.access("read", n, self.term(n["e"], st), ("c", 1), None, st, "deref")
        if k == "bin" and n["op"].endswith("=") and n["op"] not in COMPARE and n["op"] != "=":
            if n["op"] == "-=" and bare(n["a"].get("t")) is not None and bare(n["a"]["t"]).k == "uint":
                a, b = self.term(n["a"], st), self.term(n["b"], st)
                if self.entails(st, sub(lin(a), lin(b))):
                    t = mkbin("-", a, b)
                else:
                    t = ("wrap", a, b)
                    self.rng[t] = (0, None)
            else:
                t = mkbin(n["op"][:-1], self.term(n["a"], st), self.term(n["b"], st))
            yield (N, self.assign(n["a"], t, st))
            return
        if k == "un" and n["op"] in ("--", "p--") and bare(n["e"].get("t")) is not None and bare(n["e"]["t"]).k == "uint":
            a = self.term(n["e"], st)
            t = mkbin("-", a, ("c", 1))
            if not self.entails(st, sub(lin(a), lin(("c", 1)))):
                t = ("wrap", a, ("c", 1))
                self.rng[t] = (0, None)
            yield (N, self.assign(n["e"], t, st))
            return
        if k == "new" and n.get("n") is not None:
            a = ("alloc", where(n), n["l"][2])
            c = self.term(n["n"], st)
            at = n.get("at")
            self.reg[a] = (a, ("bin", "+", a, ("ext", a)), at.sz if at is not None else None)
            st = self.forget_facts(("ext", a), st)
            yield (N, self.eq(("ext", a), c, st))
            return
        yield from SymFlow.node(self, n, st)

    def assign(self, lhs, t, st):
        l = uncast(lhs)
        if l["k"] == "var" and l.get("vt") is not None and l["vt"].k in ("ref", "rref") and seq_type(l["vt"]):
            return st
        if seq_type(l.get("vt") or l.get("t")):
            return st
        return SymFlow.assign(self, lhs, canon(t), st)

    def set_len(self, o, n, st):
        return st.set(("len", self.loc(o, st)), canon(n))

    def declare(self, v, st):
        t = v.get("t")
        src = uncast(v["i"]) if v.get("i") is not None else None
        b = bare(t)
        if v.get("static"):
            return st
        if t is not None and t.k in ("ref", "rref") and src is not None and src["k"] in ("var", "mem", "un", "idx", "call", "this") and b is not None and b.k == "rec":
            st = SymFlow.declare(self, v, st)
            if src["k"] != "call" or src.get("op") in ("*", "->", "[]"):
                return st.set(v["id"], ("ref", self.loc(src, st)))
            return st
        q = seq_type(t)
        if q is not None and t.k not in ("ref", "rref"):
            l = ("len", ("L", v["n"], v["id"]))
            n = None
            if src is not None and src["k"] == "ctor":
                n = self.ctor_len(src, st)
            elif src is not None and src["k"] in ("var", "mem") and seq_type(src.get("t")):
                n = self.length(src, st)
            elif src is not None and src["k"] == "init" or src is not None and src["k"] == "call":
                n = None
            st = SymFlow.declare(self, v, st)
            if n is None:
                n = ("at", where(v), v["n"], "len")
                self.rng[n] = (0, None)
            return st.set(l, canon(n))
        st = SymFlow.declare(self, v, st)
        if b is not None and b.k == "rec" and (b.rec or "").startswith(SMART) and src is not None and src["k"] == "ctor" and src["a"]:
            a = self.term(src["a"][0], st)
            if a[0] == "alloc":
                st = st.set(("pt", ("L", v["n"], v["id"])), a)
        x = st.get(v["id"])
        if x is not None:
            st = st.set(v["id"], canon(x))
            self.typed(canon(x), t)
        return st

    def ctor_len(self, e, st):
        """Length of a container built by a constructor call."""
        a = [x for x in e["a"] if x is not None and x.get("k") != "other" or True]
        a = [x for x in a if not (rec_of(x.get("t")) or "").startswith("std::allocator") and not x.get("dflt")]
        if not a:
            return ("c", 0)
        t0 = bare(a[0].get("t"))
        if e.get("copy") or e.get("move") or seq_type(t0) and len(a) == 1:
            return self.length(a[0], st) if seq_type(t0) else None
        if t0 is not None and t0.k in ("uint", "int") and not (len(a) > 1 and is_ptr(a[1].get("t"))):
            return self.term(a[0], st)
        if is_ptr(t0) or t0 is not None and t0.k == "dep":
            if len(a) >= 2 and bare(a[1].get("t")) is not None and bare(a[1]["t"]).k in ("uint", "int"):
                return self.term(a[1], st)
            if len(a) >= 2:
                return mkbin("-", self.term(a[1], st), self.term(a[0], st))
            x = uncast(a[0])
            if x["k"] == "str":
                return ("c", len(x["v"]))
        return None

    within = frozenset()          # helpers that are entered where they are called

    def inline_targets(self, n):
        f = self.prog.by_usr.get(n.get("fu")) if n.get("fu") in self.within else None
        return [f] if f is not None and f.get("body") else []

    def call(self, n, st):
        if self.inline_targets(n):
            yield from self.default_call(n, st)
            return
        self.check_call(n, st)
        yield from self.effects(n, st)

    def effects(self, n, st):
        f = n.get("f") or "?"
        m = f.split("::")[-1]
        o = n.get("obj")
        op = n.get("op")
        # iterators
        if n["k"] == "call" and op in ("++", "--", "+=", "-=") and is_ptr(n["a"][0].get("t")) and self.key(n["a"][0]) is not None:
            b = self.term(n["a"][1], st) if op in ("+=", "-=") else ("c", 1)
            yield (N, self.assign(n["a"][0], mkbin(op[0], self.term(n["a"][0], st), b), st))
            return
        if n["k"] == "call" and op == "=" and len(n["a"]) == 2:
            q = seq_type(uncast(n["a"][0]).get("vt") or n["a"][0].get("t"))
            if q is not None:
                src = uncast(n["a"][1])
                if seq_type(src.get("vt") or src.get("t")) and src["k"] in ("var", "mem"):
                    ln = self.length(src, st)
                elif src["k"] == "ctor":
                    ln = self.ctor_len(src, st)
                else:
                    ln = None
                yield (N, self.set_len(n["a"][0], ln if ln is not None else self.fresh(n, "len"), st))
                if self.may_throw(n):
                    yield (THR, st, ANY)
                return
        if n["k"] == "call" and o is not None:
            q = seq_type(uncast(o).get("vt")) or seq_type(o.get("t"))
            if q is not None and not n.get("const") and m not in KEEP:
                old = self.length(o, st)
                a = n["a"]
                if m == "resize" and a:
                    ln = self.term(a[0], st)
                elif m in ("push_back", "emplace_back", "push_front"):
                    ln = mkbin("+", old, ("c", 1))
                elif m in ("pop_back", "pop_front"):
                    ln = mkbin("-", old, ("c", 1)) if self.entails(st, sub(lin(old), lin(("c", 1)))) else None
                elif m == "clear":
                    ln = ("c", 0)
                elif m == "assign" and len(a) == 2:
                    ln = self.term(a[0], st) if bare(a[0].get("t")).k in ("int", "uint") else mkbin("-", self.term(a[1], st), self.term(a[0], st))
                elif m == "insert" and len(a) == 3 and is_ptr(a[1].get("t")):
                    ln = mkbin("+", old, mkbin("-", self.term(a[2], st), self.term(a[1], st)))
                else:
                    ln = None
                x = self.set_len(o, ln if ln is not None else self.fresh(n, "len"), self.clobber(n, st))
                yield (N, x)
                if self.may_throw(n):
                    yield (THR, st, ANY)
                return
            if m == "reset" and f.startswith(SMART):
                a = self.term(n["a"][0], st) if n["a"] else ("c", 0)
                yield (N, st.set(("pt", self.loc(o, st)), a))
                return
        if f in FIND and len(n["a"]) >= 2:
            a, b = self.term(n["a"][0], st), self.term(n["a"][1], st)
            r = self.fresh(n, "found")
            ra = self.region(a, st)
            if ra is not None and ra[0] != "alone":
                self.reg[r] = ra[:3]
            st = self.forget_facts(r, st)
            x = self.ge(b, r, self.ge(r, a, self.havoc(n, st)))
            yield (N, x.set(("res", id(n)), r))
            if self.may_throw(n):
                yield (THR, st, ANY)
            return
        if f in ("std::copy", "std::copy_n", "std::transform", "std::fill_n", "std::copy_backward") and len(n["a"]) >= 3:
            d = n["a"][1] if f == "zz" else n["a"][2] if f != "std::fill_n" else n["a"][0]
            if is_ptr(d.get("t")):
                cnt = mkbin("-", self.term(n["a"][1], st), self.term(n["a"][0], st)) if f in ("std::copy", "std::transform") else self.term(n["a"][1], st)
                yield (N, self.clobber(n, st).set(("res", id(n)), canon(mkbin("+", self.term(d, st), cnt))))
                return
            # appended to a container
            st2 = st
            lam = self.lambda_arg(n)
            i = uncast(d)
            if i["k"] == "call" and (i.get("f") or "").startswith("std::back_inserter") and i["a"] and seq_type(i["a"][0].get("t")) and f in ("std::copy", "std::copy_n"):
                cnt = mkbin("-", self.term(n["a"][1], st), self.term(n["a"][0], st)) if f == "std::copy" else self.term(n["a"][1], st)
                st2 = self.set_len(i["a"][0], mkbin("+", self.length(i["a"][0], st), cnt), st)
                yield (N, st2)
                if self.may_throw(n):
                    yield (THR, st, ANY)
                return
        if f == "iconv" and len(n["a"]) == 5:
            x = self.clobber(n, st)
            for p, c in ((n["a"][1], n["a"][2]), (n["a"][3], n["a"][4])):
                p, c = uncast(p), uncast(c)
                if p["k"] == "un" and p["op"] == "&" and c["k"] == "un" and c["op"] == "&":
                    before, at = self.term(c["e"], st), self.term(p["e"], st)
                    left = self.fresh(n, "left" + str(p["l"][2]))
                    self.rng[left] = (0, None)
                    x = self.forget_facts(left, x)
                    x = self.assign(c["e"], left, x)
                    x = self.assign(p["e"], mkbin("+", at, mkbin("-", before, left)), x)
                    x = self.ge(before, left, x)
            yield (N, x)
            return
        tg = self.prog.targets(n)
        if tg and n["k"] == "call":
            g = tg[0]
            rt = bare(g.get("rt"))
            r = None
            x = st
            for kind, i, j in self.contracts(g):
                if kind == "range" and rt is not None and rt.s == bare(g["ps"][i]["t"]).s and j < len(n["a"]) and len(n["a"]) == len(g["ps"]):
                    a, b = self.term(n["a"][i], st), self.term(n["a"][j], st)
                    ra = self.region(a, st)
                    if ra is not None and ra[0] != "alone":
                        r = self.fresh(n, "position")
                        self.reg[r] = ra[:3]
                        x = self.ge(b, r, self.ge(r, a, self.forget_facts(r, x)))
            common = frozenset.intersection(*[self.posts.get(h["u"], frozenset()) for h in tg])
            if common and len(n["a"]) == len(g["ps"]):
                r = self.fresh(n, "result")
                self.rng[r] = (0, None)
                x = self.forget_facts(r, x)
                for i in common:
                    x = self.ge(self.term(n["a"][i], st), r, x)
            if r is not None:
                yield (N, self.havoc(n, x).set(("res", id(n)), r))
                if self.may_throw(n):
                    yield (THR, st, ANY)
                return
        yield from self.default_call(n, st)

    def fresh(self, n, what):
        t = ("at", where(n), n["l"][2], what)
        if what == "len":
            self.rng[t] = (0, None)
        return t

    def havoc(self, n, st):
        st = self.clobber(n, st)
        # containers handed over by non-const reference, or belonging to the object called
        ft = n.get("ft")
        ps = ft.ps if ft is not None else ()
        args = n["a"]
        if n.get("op") and len(ps) == len(args) - 1:
            args = args[1:]
        for a, p in zip(args, ps):
            if p is not None and p.k == "ref" and not p.cst and seq_type(p):
                st = self.set_len(a, self.fresh(n, "len"), st)
        o = n.get("obj")
        if o is not None and uncast(o)["k"] == "this" and not n.get("const"):
            hit = members_changed(self.prog, n)
            for k in [k for k, _ in st.env if isinstance(k, tuple) and k[0] == "len" and k[1][0] == "M"]:
                if hit is not None and not hit & member_names(k[1]):
                    continue
                st = st.set(k, ("at", where(n), n["l"][2], "len", k[1]))
        for a in n["a"]:
            x = uncast(a)
            if x is not None and x["k"] == "lambda":
                for y in walk(x["fn"]["body"]):
                    if y.get("k") == "call" and y.get("op") == "=" and seq_type(y["a"][0].get("t")):
                        st = self.set_len(y["a"][0], self.fresh(n, "len"), st)
                    if y.get("k") == "call" and y.get("obj") is not None and not y.get("const") and seq_type(y["obj"].get("t")):
                        st = self.set_len(y["obj"], self.fresh(n, "len"), st)
        return st

    def check_call(self, n, st):
        f = n.get("f") or (n.get("cls") or "")
        m = f.split("::")[-1]
        a = n["a"]
        o = n.get("obj")
        op = n.get("op")
        T = lambda x: self.term(x, st)
        if n["k"] == "call" and m in ("read", "readsome", "get", "getline") and o is not None and len(a) >= 2 and is_ptr(a[0].get("t")) and "stream" in f:
            self.access("write", n, T(a[0]), T(a[1]), 1, st, m)
        elif n["k"] == "call" and m == "write" and o is not None and len(a) == 2 and "ostream" in f:
            self.access("read", n, T(a[0]), T(a[1]), 1, st, m)
        elif f in ("memcpy", "memmove", "std::memcpy", "std::memmove", "strncpy", "memset", "std::memset") and len(a) == 3:
            self.access("write", n, T(a[0]), T(a[2]), 1, st, "dst")
            if not f.endswith("memset") and f != "strncpy":
                self.access("read", n, T(a[1]), T(a[2]), 1, st, "src")
        elif f in ("memcmp", "std::memcmp") and len(a) == 3:
            self.access("read", n, T(a[0]), T(a[2]), 1, st, "a")
            self.access("read", n, T(a[1]), T(a[2]), 1, st, "b")
        elif f in ("std::copy", "std::transform") and len(a) >= 3:
            x, y = T(a[0]), T(a[1])
            self.span("read", n, x, y, elem_size(a[0].get("t")), st, "src")
            if is_ptr(a[2].get("t")):
                self.access("write", n, T(a[2]), mkbin("-", y, x), elem_size(a[2].get("t")), st, "dst")
        elif f == "std::copy_n" and len(a) == 3:
            if is_ptr(a[0].get("t")):
                self.access("read", n, T(a[0]), T(a[1]), elem_size(a[0].get("t")), st, "src")
            if is_ptr(a[2].get("t")):
                self.access("write", n, T(a[2]), T(a[1]), elem_size(a[2].get("t")), st, "dst")
        elif f == "std::fill_n" and len(a) == 3 and is_ptr(a[0].get("t")):
            self.access("write", n, T(a[0]), T(a[1]), elem_size(a[0].get("t")), st, "dst")
        elif f in ("std::fill", "std::find", "std::find_if", "std::find_if_not", "std::count", "std::count_if", "std::accumulate", "std::equal",
                   "std::for_each", "std::all_of", "std::any_of", "std::none_of", "std::search", "std::adjacent_find") and len(a) >= 2:
            if is_ptr(a[0].get("t")) and is_ptr(a[1].get("t")):
                self.span("write" if m == "fill" else "read", n, T(a[0]), T(a[1]), elem_size(a[0].get("t")), st, "range")
        elif f in ("uncompress", "compress", "compress2") and len(a) >= 4:
            d = uncast(a[1])
            if d["k"] == "un" and d["op"] == "&":
                self.access("write", n, T(a[0]), self.term(d["e"], st), 1, st, "dst")
            self.access("read", n, T(a[2]), T(a[3]), 1, st, "src")
        elif f == "iconv" and len(a) == 5:
            for p, c, kind in ((a[1], a[2], "read"), (a[3], a[4], "write")):
                p, c = uncast(p), uncast(c)
                if p["k"] == "un" and p["op"] == "&" and c["k"] == "un" and c["op"] == "&":
                    self.access(kind, n, self.term(p["e"], st), self.term(c["e"], st), 1, st, kind)
        elif f == "EVP_DigestFinal_ex" and len(a) == 3:
            self.access("write", n, T(a[1]), ("c", 16), 1, st, "dst")
        elif f == "EVP_DigestUpdate" and len(a) == 3:
            self.access("read", n, T(a[1]), T(a[2]), 1, st, "src")
        elif op == "*" and len(a) == 1 and is_ptr(a[0].get("t")) and not n.get("_addr"):
            self.access("write" if n.get("_lhs") else "read", n, T(a[0]), ("c", 1), elem_size(a[0].get("t")), st, "deref")
        elif op == "[]" and len(a) == 2 and not n.get("_addr"):
            q = seq_type(uncast(a[0]).get("vt") or a[0].get("t"))
            if q is not None:
                i = T(a[1])
                fixed = q.rec.startswith("std::array")
                # a string may be read at its length
                extra = 1 if q.rec.startswith("std::basic_string") else 0
                ok = self.entails(st, lin(i)) and self.entails(st, sub(sub(lin(self.length(a[0], st)), lin(i)), (frozenset(), 1 - extra)))
                self.record("index" if fixed else "element", n, ok, {"tag": "[]", "what": self.name(self.loc(a[0], st)), "need": show(lin(i)), "has": show(lin(self.length(a[0], st)))})
        elif n["k"] == "call" and m in ("front", "back", "pop_back", "pop_front") and o is not None and (seq_type(uncast(o).get("vt")) or seq_type(o.get("t"))):
            ok = self.entails(st, sub(lin(self.length(o, st)), lin(("c", 1))))
            self.record("element", n, ok, {"tag": m, "what": self.name(self.loc(o, st)), "need": "1", "has": show(lin(self.length(o, st)))})
        elif n["k"] == "ctor" and seq_type(n.get("t")) and len(a) >= 2 and is_ptr(a[0].get("t")):
            if is_ptr(a[1].get("t")):
                self.span("read", n, T(a[0]), T(a[1]), elem_size(a[0].get("t")), st, "src")
            elif bare(a[1].get("t")) is not None and bare(a[1]["t"]).k in ("uint", "int"):
                self.access("read", n, T(a[0]), T(a[1]), elem_size(a[0].get("t")), st, "src")
        elif n["k"] == "call" and m in ("assign", "insert", "append") and o is not None and seq_type(o.get("t")):
            i = 0 if m != "insert" else 1
            if len(a) == i + 2 and is_ptr(a[i].get("t")):
                if is_ptr(a[i + 1].get("t")):
                    self.span("read", n, T(a[i]), T(a[i + 1]), elem_size(a[i].get("t")), st, "src")
                elif bare(a[i + 1].get("t")).k in ("uint", "int") and m != "insert":
                    self.access("read", n, T(a[i]), T(a[i + 1]), elem_size(a[i].get("t")), st, "src")
        # this repository's own functions
        tg = self.prog.targets(n) if self.formula(n) is None else ()
        for g in tg:
            args = a
            if op and g.get("cls") and len(args) == len(g["ps"]) + 1:
                args = args[1:]
            for kind, i, j in self.contracts(g):
                if i >= len(args) or j is not None and kind in ("range", "sized") and j >= len(args):
                    continue
                tag = "%s/%d" % (g["n"].split("::")[-1], i)
                pt = bare(g["ps"][i]["t"])
                self.mut = pt is not None and pt.k in ("ptr", "arr", "varr") and not pt.to.cst
                es = elem_size(g["ps"][i]["t"])
                if kind == "range":
                    self.span("pass", n, T(args[i]), T(args[j]), es, st, tag)
                elif kind == "sized":
                    self.access("pass", n, T(args[i]), T(args[j]), es if es else 1, st, tag)
                else:
                    k = j if kind == "array" else self.needs.get(g["u"], {}).get(i)
                    if k:
                        self.access("pass", n, T(args[i]), ("c", k), es, st, tag)
            break

    def clobber(self, n, st):
        # a container is not a value: its length is tracked apart
        return SymFlow.clobber(self, n, st)

    # -- conditions -------------------------------------------------------------
    def assume(self, c, st, truth):
        x = SymFlow.assume(self, c, st, truth)
        if x is None or x is st:
            return x
        new = x.facts - st.facts
        for t, tr in new:
            if t[0] == "bin" and t[1] in ("<", "=="):
                d = sub(lin(t[2]), lin(t[3]))
                if t[1] == "<":
                    # the opposite already known?
                    if tr and self.entails(st, d) or not tr and self.entails(st, (scaled(d, -1)[0], -d[1] - 1)):
                        return None
                elif tr:
                    if self.entails(st, (d[0], d[1] - 1)) or self.entails(st, (scaled(d, -1)[0], -d[1] - 1)):
                        return None
        return x

    def case_enter(self, s, label, st, items):
        t = self.term(s["c"], st)
        if label["k"] == "case":
            v = label["c"].get("cv", label["c"].get("v"))
            if v is None:
                return st
            if t[0] == "c":
                return st if t[1] == v else None
            a, pos = norm_cond(mkbin("==", t, ("c", v)))
            kn = st.known(a)
            if kn is not None and kn != pos:
                return None
            lo, hi = self.interval(t)
            return st.fact(a, pos)
        for ls, _ in items:
            for l in ls:
                if l["k"] == "case":
                    v = l["c"].get("cv", l["c"].get("v"))
                    if v is not None and t[0] != "c":
                        a, pos = norm_cond(mkbin("==", t, ("c", v)))
                        if st.known(a) is not None and st.known(a) == pos:
                            return None
                        st = st.fact(a, not pos)
                    elif t == ("c", v):
                        return None
        return st

    # -- joins --------------------------------------------------------------------
    coarse = False

    def merge(self, states, at=None):
        """Paths that differ only in what was tested become one."""
        if len(states) < 2:
            return states
        if self.coarse and at is not None:
            # one path, of what they all agree on
            xs = list(states)
            d = {k: v if all(x.d.get(k) == v for x in xs) else ("join", where(at), str(k)) for k, v in xs[0].d.items()
                 if all(k in x.d for x in xs)}
            for k, v in d.items():
                if v[0] == "join" and isinstance(k, tuple) and k[0] == "len":
                    self.rng[v] = (0, None)
            f = xs[0].facts
            for x in xs[1:]:
                f = f & x.facts
            return {State(d, frozenset(y for y in f if not any(mentions_term(y[0], v) for v in d.values() if v[0] == "join")), xs[0].ext)}
        g = {}
        for x in states:
            g.setdefault((frozenset(x.d.items()), x.ext), []).append(x)
        if len(g) == len(states):
            return states
        out = set()
        for xs in g.values():
            f = xs[0].facts
            for x in xs[1:]:
                f = f & x.facts
            out.add(State(xs[0].d, f, xs[0].ext))
        return out

    def stmt(self, s, st):
        o = SymFlow.stmt(self, s, st)
        if s["k"] in ("if", "switch", "try") or len(o.n) > 1:
            o.n = self.merge(o.n, s)
        if len(o.t) > 8:
            g = {}
            for x, t in o.t:
                g.setdefault(t, set()).add(x)
            o.t = {(x, t) for t, xs in g.items() for x in self.merge(xs)}
        return o

    def expr(self, e, st):
        ns, ts = SymFlow.expr(self, e, st)
        if e is not None and e["k"] == "bin" and len(ns) > 1:
            ns = self.merge(ns)
        return ns, ts

    # -- loops --------------------------------------------------------------------
    def loop_head(self, s, st):
        keys, at = self.changed(s)
        old = {k: st.get(k) for k in keys}
        x = SymFlow.loop_head(self, s, st)
        for k in keys:
            L = ("loop", where(s), str(k))
            t0 = old[k]
            if t0 is not None and t0 != L:
                r = self.region(t0, st)
                if r is not None and L not in self.reg:
                    self.reg[L] = r[:3]
                b = self.rng.get(t0)
                if L not in self.rng:
                    ty = self.key_type(s, k)
                    if ty is not None:
                        self.typed(L, ty)
        for l in self.mutated(s, st):
            x = x.set(("len", l), ("loop", where(s), "len", l))
            self.rng[("loop", where(s), "len", l)] = (0, None)
        for l in self.renewed(s, st):
            t0 = st.get(("pt", l))
            L, n = ("loop", where(s), "pt", l), ("loop", where(s), "ext", l)
            if t0 is not None:
                self.rng[n] = (0, None)
                self.reg[L] = (L, ("bin", "+", L, n), self.reg.get(t0, (0, 0, None))[2])
                x = x.set(("pt", l), L)
        return x

    def renewed(self, s, st):
        """Owning pointers given something else in a loop."""
        es = s.get("_renewed")
        if es is None:
            es = s["_renewed"] = [n["obj"] for n in walk(s) if n.get("k") == "call" and n.get("obj") is not None
                                  and (n.get("f") or "").split("::")[-1] == "reset" and n["f"].startswith(SMART)]
        return {self.loc(o, st) for o in es}

    def extent(self, l, st):
        t = st.get(("pt", l))
        if t is None:
            return None
        if t[0] == "loop":
            return ("loop", t[1], "ext", l)
        return ("ext", t) if t[0] == "alloc" else None

    def key_type(self, s, k):
        m = s.get("_ktypes")
        if m is None:
            m = s["_ktypes"] = {}
            for n in walk(s):
                e = None
                if n.get("k") == "bin" and n["op"].endswith("=") and n["op"] not in COMPARE:
                    e = n["a"]
                elif n.get("k") == "un" and n["op"] in ("++", "--", "p++", "p--"):
                    e = n["e"]
                if e is not None:
                    kk = self.key(e)
                    if kk is not None:
                        m[kk] = uncast(e).get("vt") or uncast(e).get("t")
        return m.get(k)

    def mutated(self, s, st):
        es = s.get("_mutated")
        if es is None:
            es = s["_mutated"] = []
            for n in walk(s):
                if n.get("k") != "call":
                    continue
                o = n.get("obj")
                if o is not None and not n.get("const") and (n.get("f") or "").split("::")[-1] not in KEEP and (seq_type(uncast(o).get("vt")) or seq_type(o.get("t"))):
                    es.append(o)
                elif n.get("op") == "=" and seq_type(uncast(n["a"][0]).get("vt") or n["a"][0].get("t")):
                    es.append(n["a"][0])
                elif (n.get("f") or "").startswith("std::back_inserter") and n["a"]:
                    es.append(n["a"][0])
        return {self.loc(o, st) for o in es}

    def candidates(self, s, st):
        """Inequalities true on entry, to be kept through the loop: functions of the loop's values."""
        keys, _ = self.changed(s)
        vals = {k: st.get(k) for k in keys}
        vals = {k: t for k, t in vals.items() if t is not None and t[0] != "undef"}
        for l in self.mutated(s, st):
            vals[("len", l)] = self.len_at(l, st)
        for l in self.renewed(s, st):
            if self.extent(l, st) is not None:
                vals[("ext", l)] = self.extent(l, st)
        out = []
        for k, t in vals.items():
            out.append(("ge0", ((k, 1),), scaled(lin(t), -1)))      # never below its start
            out.append(("ge0", ((k, -1),), lin(t)))                 # never above
            r = self.region(t, st)
            if r is not None and r[0] != "alone":
                out.append(("ge0", ((k, -1),), lin(r[1])))
                out.append(("ge0", ((k, 1),), scaled(lin(r[0]), -1)))
        ks = [k for k in vals if self.countable(s, k, vals[k], st)]
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                for sg in (1, -1):
                    c = lin(vals[a])
                    d = scaled(lin(vals[b]), sg)
                    tot = (frozenset(), 0)
                    tot = sub(tot, c)
                    tot = sub(tot, d)
                    out.append(("eq0", ((a, 1), (b, sg)), tot))
                out.append(("ge0", ((a, 1), (b, -1)), (frozenset(), 0)))
                out.append(("ge0", ((a, -1), (b, 1)), (frozenset(), 0)))
                out.append(("eq0", ((a, 1), (b, -1)), (frozenset(), 0)))
        # the bounds of the loop's own condition
        for n in walk(s["c"]) if s.get("c") is not None else ():
            if n.get("k") == "bin" and n["op"] in ("<", ">", "<=", ">=", "!="):
                for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
                    k = self.key(uncast(x))
                    if k in vals and self.key(uncast(y)) not in vals:
                        b = lin(self.term(y, st))
                        out.append(("ge0", ((k, -1),), b))
                        out.append(("ge0", ((k, 1),), scaled(b, -1)))
        # bounds already known for the starting values
        for t, truth in st.facts:
            if t[0] == "bin" and t[1] == "<":
                f = sub(lin(t[3]), lin(t[2]))
                f = (f[0], f[1] - 1) if truth else scaled(f, -1)
                d = dict(f[0])
                for k, v in vals.items():
                    fv = lin(v)
                    if len(fv[0]) == 1:
                        (a, c), = fv[0]
                        if c == 1 and a in d and abs(d[a]) == 1:
                            rest = (frozenset((x, y) for x, y in f[0] if x != a), f[1] - d[a] * fv[1])
                            out.append(("ge0", ((k, d[a]),), rest))
        seen, res = set(), []
        for c in out:
            if c not in seen:
                seen.add(c)
                if self.holds(c, st):
                    res.append(c)
        return res

    def countable(self, s, k, t, st):
        if isinstance(k, tuple) and k[0] in ("len", "ext") or self.region(t, st) is not None:
            return True
        ty = bare(self.key_type(s, k))
        return ty is not None and ty.k in ("int", "uint") and ty.sz >= 4

    def value(self, k, st):
        if isinstance(k, tuple) and k[0] == "len":
            return self.len_at(k[1], st)
        if isinstance(k, tuple) and k[0] == "ext":
            return self.extent(k[1], st)
        return st.get(k)

    def form(self, c, st):
        f = c[2]
        for k, s in c[1]:
            t = self.value(k, st)
            if t is None:
                return None
            f = sub(f, scaled(lin(t), -s))
        return f

    def holds(self, c, st):
        f = self.form(c, st)
        if f is None:
            return False
        if c[0] == "eq0":
            return (not f[0] and f[1] == 0) or self.entails(st, f) and self.entails(st, scaled(f, -1))
        return self.entails(st, f)

    def with_inv(self, c, st):
        f = self.form(c, st)
        if f is None or not f[0]:
            return st
        pos = rebuild((frozenset((a, k) for a, k in f[0] if k > 0), max(f[1], 0)))
        neg = rebuild((frozenset((a, -k) for a, k in f[0] if k < 0), max(-f[1], 0)))
        st = self.ge(pos, neg, st)
        if c[0] == "eq0":
            st = self.ge(neg, pos, st)
        return st

    def loop(self, s, st):
        k = s["k"]
        res = Out()
        pre, vs = Out([st]), []
        if k == "for" and s.get("init"):
            pre = self.stmt(s["init"], st)
            if s["init"]["k"] == "decl":
                vs = s["init"]["d"]
        if k == "rfor":
            ns, ts = self.expr(s["r"], st)
            pre = Out(ns)
            pre.t = ts
        res.take(pre)
        for y in pre.n:
            res2 = self.turns(s, y)
            res.n |= res2.n
            res.take(res2, "rt")
        res.n = {self.after_loop(s, y) for y in res.n}
        return self._leave(vs, res) if vs else res

    def turns(self, s, y):
        cands = self.candidates(s, y)
        while True:
            saved, needs = dict(self.results), dict(self.my_needs)
            res, broken = self.attempt(s, y, cands)
            if not broken:
                return res
            self.results, self.my_needs = saved, needs
            cands = [c for c in cands if c not in broken]

    def attempt(self, s, y, cands):
        k = s["k"]
        res, broken = Out(), set()

        def head(x):
            x = self.loop_head(s, x)
            for c in cands:
                x = self.with_inv(c, x)
            return x

        def back(states):
            out = set()
            for x in states:
                for c in cands:
                    if c not in broken and not self.holds(c, x):
                        broken.add(c)
                out.add(head(x))
            return out
        heads, work = {}, {head(y)}
        while work and not broken:
            self._check(heads)
            x = work.pop()
            kx = (frozenset(x.d.items()), x.ext)
            old = heads.get(kx)
            if old is not None:
                if old <= x.facts:
                    continue
                x = State(x.d, old & x.facts, x.ext)
            heads[kx] = x.facts
            if k == "do":
                b = self.stmts([s["s"]], {x})
                res.take(b, "rt")
                res.n |= b.b
                for z in b.n | b.c:
                    T, F, ts = self.cond(s["c"], z)
                    res.t |= ts
                    res.n |= F
                    work |= back(T)
                continue
            if k == "rfor":
                F, T, ts = {x}, {self.range_step(s, x)}, set()
            elif s.get("c") is None:
                T, F, ts = {x}, set(), set()
            elif s.get("cv"):
                q = self.stmt({"k": "decl", "d": [s["cv"]]}, x)
                ts, T, F = set(q.t), set(), set()
                for z in q.n:
                    a, b, c = self.cond(s["c"], z)
                    T |= a
                    F |= b
                    ts |= c
            else:
                T, F, ts = self.cond(s["c"], x)
            res.t |= ts
            res.n |= F
            if T:
                b = self.stmts([s["s"]], {self.iter_begin(s, z) for z in T})
                res.take(b, "rt")
                res.n |= b.b
                nxt = {self.iter_end(s, z) for z in b.n | b.c}
                if k == "for" and s.get("inc"):
                    q = set()
                    for z in nxt:
                        ns, ts = self.expr(s["inc"], z)
                        q |= ns
                        res.t |= ts
                    nxt = q
                work |= back(nxt)
        return res, broken


def const_values(e):
    e = uncast(e)
    if e is None:
        return None
    c = const(e)
    if c is not None and isinstance(c, (int, bool)):
        return {int(c)}
    if e["k"] == "cond":
        a, b = const_values(e["a"]), const_values(e["b"])
        return a | b if a is not None and b is not None else None
    if e["k"] == "init" and len(e.get("a") or []) == 1:
        return const_values(e["a"][0])
    return None


def field_range(prog, cls, name):
    """Interval of an integer field only ever given constants; None if it takes other values."""
    m = prog.__dict__.get("_field_ranges")
    if m is None:
        vals = {}

        def note(c, n, e):
            v = const_values(e)
            x = uncast(e) if e is not None else None
            if v is None and x is not None and x["k"] == "mem" and x["n"] == n and x.get("cls") == c:
                return
            old = vals.get((c, n), set())
            vals[(c, n)] = None if v is None or old is None else old | v

        for f in prog.fns:
            for i in f.get("inits") or []:
                if "m" in i:
                    note(f.get("cls"), i["m"], i.get("e"))
            if not f.get("body"):
                continue
            for n in fn_nodes(f):
                k = n.get("k")
                e = v = None
                if k == "bin" and n["op"] == "=":
                    e, v = n["a"], n["b"]
                elif k == "bin" and n["op"].endswith("=") and n["op"] not in COMPARE or k == "un" and n["op"] in ("++", "--", "p++", "p--", "&"):
                    e = n.get("a") or n.get("e")
                if e is not None:
                    e = uncast(e)
                    if e["k"] == "mem":
                        note(e.get("cls"), e["n"], v)
                if k in ("call", "ctor"):
                    ft = n.get("ft")
                    ps = ft.ps if ft is not None else ()
                    a = n["a"][1:] if n.get("op") and len(ps) == len(n["a"]) - 1 else n["a"]
                    for x, p in zip(a, ps):
                        x = uncast(x)
                        if x is not None and x["k"] == "mem" and p is not None and p.k == "ref" and not p.to.cst:
                            note(x.get("cls"), x["n"], None)
        m = prog._field_ranges = {k: (min(v), max(v)) for k, v in vals.items() if v}
    return m.get((cls, name))


def mentions_term(t, x):
    return t == x or isinstance(t, tuple) and any(mentions_term(y, x) for y in t)


def looks_range(f, i):
    """Two parameters of a template's iterator type."""
    return f["ps"][i]["t"].s == f["ps"][i + 1]["t"].s and ("iter" in f["ps"][i]["t"].s or f["ps"][i]["n"] and f["ps"][i]["n"][0] in "pfb")


def show(f):
    p = []
    for a, k in sorted(f[0], key=repr):
        n = Mem.name(a) if a[0] in ("parm", "data", "arr") else a[1] if a[0] == "v" else "len(%s)" % Mem.name(a[1]) if a[0] == "len" else "?"
        p.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + str(n))
    if f[1] or not p:
        p.append(str(f[1]))
    return "+".join(p).replace("+-", "-")


def mark(f):
    """Note which accesses only form an address and which store."""
    if f.get("_marked"):
        return
    f["_marked"] = True
    for n in fn_nodes(f):
        k = n.get("k")
        if k == "un" and n["op"] == "&":
            e = uncast(n["e"])
            if e is not None:
                e["_addr"] = True
        elif k == "bin" and n["op"].endswith("=") and n["op"] not in COMPARE:
            e = uncast(n["a"])
            if e is not None:
                e["_lhs"] = True
        elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            e = uncast(n["e"])
            if e is not None:
                e["_lhs"] = True


_done = {}


def analyse(prog):
    """{(usr): (function, results, needs)} for every function of the tree."""
    if id(prog) in _done:
        return _done[id(prog)]
    needs, posts, out = {}, {}, {}
    fns = [f for f in list(prog.fns) + list(prog.uninstantiated) if f.get("body") and not f.get("impl") and not f.get("dfl") and not f["l"][0].startswith("gen/")]
    callers = {}
    for f in fns:
        mark(f)
        for n in fn_nodes(f):
            if n.get("k") in ("call", "ctor"):
                for g in prog.targets(n):
                    callers.setdefault(g["u"], set()).add(f["u"])
    by = {f["u"]: f for f in fns}
    todo = list(by)
    rounds = {}
    while todo:
        u = todo.pop(0)
        f = by[u]
        rounds[u] = rounds.get(u, 0) + 1
        if rounds[u] > 6:
            continue
        a = Mem(prog, needs, posts)
        try:
            a.run(f, a.start(f))
        except AnalysisBroken:
            a = Mem(prog, needs, posts)
            a.coarse = True
            a.run(f, a.start(f))
        out[u] = (f, a.results, None)
        if a.my_needs != needs.get(u, {}) or (a.my_posts or frozenset()) != posts.get(u, frozenset()):
            needs[u] = dict(a.my_needs)
            posts[u] = a.my_posts or frozenset()
            todo += [c for c in callers.get(u, ()) if c in by and c not in todo]
    local(prog, by, callers, out, needs, posts)
    _done[id(prog)] = (out, needs)
    return _done[id(prog)]


def local(prog, by, callers, out, needs, posts):
    """What a helper of one file needs of its arguments is for the calls of it to see to."""
    for u, (f, results, x) in list(out.items()):
        failed = {k for k, r in results.items() if not r[1] and k[0] != "unknown"}
        if not failed or not ("@aN@" in u or not u.startswith("c:@")) or f.get("virt") or u in callers.get(u, ()) or not callers.get(u):
            continue
        good = set(failed)
        for c in callers[u]:
            if c not in by:
                good = set()
                break
            a = Mem(prog, needs, posts)
            a.within = frozenset([u])
            try:
                a.run(by[c], a.start(by[c]))
            except AnalysisBroken:
                good = set()
                break
            good = {k for k in good if k in a.results and a.results[k][1]}
        for k in good:
            results[k] = (results[k][0], True, results[k][2])
