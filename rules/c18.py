"""C18: what zlib, iconv, OpenSSL and the system report is never ignored."""

import re

from c23 import Throws
from facts import AnalysisBroken
from flow import ANY, Flow, N, THR
from program import const as const_, fn_nodes, uncast

TECHNIQUE = "path-sensitive typestate analysis of every result of a fallible foreign call: unexamined, succeeded or failed; and of the handles such calls hand out, through normal and exceptional exits"

M64 = (1 << 64) - 1
ZLIB = ((0,), (-1, -2, -3, -4, -5))
TRUE = ((1,), (0,))
PTR = ((1,), (0,))
MINUS1 = ((0, 1, 3), (M64,))
INT0 = ((0,), (-1,))

# name -> (results on success, results on failure, is failure an error?, arguments written on success)
HARD = {}
for _n in ("compress", "compress2", "uncompress", "uncompress2"):
    HARD[_n] = ZLIB + ((0, 1),)
for _n in ("deflateInit_", "deflateInit2_", "inflateInit_", "inflateInit2_"):
    HARD[_n] = ZLIB + ((0,),)
for _n in ("deflate", "inflate"):
    HARD[_n] = ((0, 1), (-2, -3, -5)) + ((0,),)
HARD["EVP_DigestInit_ex"] = HARD["EVP_DigestInit"] = TRUE + ((),)
HARD["EVP_DigestUpdate"] = TRUE + ((),)
HARD["EVP_DigestFinal_ex"] = HARD["EVP_DigestFinal"] = TRUE + ((1, 2),)
HARD["EVP_Digest"] = TRUE + ((2, 3),)
HARD["EVP_MD_CTX_new"] = PTR + ((),)
HARD["iconv_open"] = ((1, 2), (M64,)) + ((),)
HARD["iconv"] = MINUS1 + ((1, 2, 3, 4),)
for _n in ("execl", "execlp", "execle", "execv", "execvp", "execvpe"):
    HARD[_n] = ((), (-1,)) + ((),)
for _n in ("sigaction", "setrlimit", "rename", "truncate", "ftruncate", "fsync"):
    HARD[_n] = INT0 + ((),)
# the parser generated by bison hands out its result only if it succeeds
PARSERS = ("tbtparse", "yyparse")
for _n in PARSERS:
    HARD[_n] = ((0,), (1, 2)) + ((0,),)
SOFT = {}
for _n in ("getenv", "secure_getenv", "malloc", "calloc", "strdup", "strndup", "tmpnam", "localtime", "gmtime", "fopen", "opendir", "popen", "setlocale", "realpath"):
    SOFT[_n] = PTR + ((),)
for _n in ("stat", "lstat", "fstat", "gethostname", "getrlimit"):
    SOFT[_n] = INT0 + ((1,),)
ACQUIRE = {"EVP_MD_CTX_new": "EVP_MD_CTX_free", "iconv_open": "iconv_close", "fopen": "fclose", "opendir": "closedir", "popen": "pclose"}
CLEANUP = {"std::filesystem::remove", "std::filesystem::remove_all"}


def const(e):
    c = const_(e)
    if c == (1 << 63) - 1 and e.get("t") is not None and e["t"].k == "uint":
        return M64              # the extractor stops at the largest signed number
    return c


def name(n):
    return (n.get("f") or n.get("cls") or "").split("::")[-1]


def signed(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


class Tok:
    __slots__ = ("site", "what", "rem", "hold", "outs", "res", "kind")

    def __init__(self, site, what, rem, hold, outs, res, kind):
        self.site, self.what, self.rem, self.hold, self.outs, self.res, self.kind = site, what, rem, hold, outs, res, kind

    def key(self):
        return (self.site, self.what, self.rem, self.hold, self.outs, self.res, self.kind)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def but(self, **kw):
        d = {k: getattr(self, k) for k in Tok.__slots__}
        d.update(kw)
        return Tok(**d)


def cell(e):
    e = uncast(e)
    if e is None:
        return None
    if e["k"] == "var":
        return e["id"]
    if e["k"] == "mem":
        b = uncast(e["b"])
        if b is not None and b["k"] == "this":
            return ("this", e["n"])
        c = cell(b) if b is not None else None
        return (c, e["n"]) if c is not None else None
    return None


def base_cell(e):
    """The variable an out-argument writes to."""
    e = uncast(e)
    while e is not None:
        k = e["k"]
        if k == "var":
            return e["id"]
        if k == "un" and e["op"] in ("&", "*"):
            e = uncast(e["e"])
        elif k == "idx":
            e = uncast(e["a"])
        elif k == "mem":
            c = cell(e)
            if c is not None:
                return c
            e = uncast(e["b"])
        elif k == "call" and e.get("obj") is not None:
            e = uncast(e["obj"])
        elif k == "call" and e.get("op") in ("[]", "*", "->"):
            e = uncast(e["a"][0])
        else:
            return None
    return None


class Results(Flow):
    def __init__(self, prog, throws, contracts, f):
        Flow.__init__(self, prog)
        self.throws, self.contracts, self.f = throws, contracts, f
        self.within = frozenset((f["u"],))
        self.bad = []
        self.sites = {}
        self.derived = {}       # sample kind -> values returned
        self.unclear = False
        # names for a condition: variables that are set once, where they are declared
        self.named = {}
        for n in fn_nodes(f) if f.get("body") is not None else ():
            if n.get("k") == "decl":
                for v in n["d"]:
                    if v.get("i") is not None and v["t"].k == "bool":
                        self.named[v["id"]] = v["i"]
        for n in fn_nodes(f) if f.get("body") is not None and self.named else ():
            if n.get("k") == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and uncast(n["a"])["k"] == "var":
                self.named.pop(uncast(n["a"])["id"], None)

    # -- which contract a call has ------------------------------------------
    def contract(self, n):
        if n["k"] != "call":
            return None
        nm = name(n)
        if n.get("extc") or nm in PARSERS:
            if nm in HARD:
                return ("hard",) + HARD[nm] + (nm,)
            if nm in SOFT:
                return ("soft",) + SOFT[nm] + (nm,)
        if n.get("f") in ("std::tmpnam", "std::getenv", "std::malloc", "std::localtime", "std::gmtime"):
            return ("soft",) + SOFT[nm] + (nm,)
        ft = n.get("ft")
        if (n.get("f") or "").startswith("std::filesystem::") and n["f"] not in CLEANUP and ft is not None and ft.ps and ft.ps[-1].k == "ref" and not ft.ps[-1].to.cst and ft.ps[-1].to.rec == "std::error_code":
            return ("ec", (0,), (1, 18), (), nm)
        for g in self.prog.targets(n) or ():
            if g["u"] in self.contracts:
                return self.contracts[g["u"]]
        return None

    def say(self, rule, t, n, msg):
        self.bad.append((rule, t.what, n, msg))

    def settled(self, t):
        ok, ko = self.sites[t.site][1:3]
        return not (set(t.rem) & set(ok) and set(t.rem) & set(ko))

    def succeeded(self, t):
        return not set(t.rem) & set(self.sites[t.site][2])

    def failed(self, t):
        return not set(t.rem) & set(self.sites[t.site][1])

    # -- calls --------------------------------------------------------------
    def call(self, n, st):
        c = self.contract(n)
        args = list(n.get("a") or ())
        if n.get("obj") is not None and not (n.get("op") or n.get("conv")):
            args = args + ([n["obj"]] if n.get("arrow") else [])
        for a in args:
            st = self.used(a, st, n)
        # handles given back
        rel = set()
        for a in n.get("a") or ():
            x = cell(a)
            if x is None:
                u = uncast(a)
                if u is not None and u["k"] == "call" and u.get("obj") is not None and name(u) in ("get", "release"):
                    x = cell(u["obj"])
            if x is not None:
                rel.add(x)
        out = set()
        for t in st:
            if t.res and t.hold & rel and name(n) in (t.res, "unique_ptr", "shared_ptr", "reset"):
                t = t.but(res="")
            out.add(t)
        st = frozenset(out)
        if c is not None:
            kind, ok, ko, outs, what = c
            site = tuple(n["l"])
            self.sites[site] = (n, tuple(ok), tuple(ko), kind)
            keep = set()
            for t in st:
                if t.site == site or t.what == what:
                    if not self.settled(t) and t.kind != "soft":
                        self.say("examined", t, self.sites[t.site][0], "what %s reports is overwritten by another call before it is examined" % t.what)
                        continue
                    if t.res and not self.failed(t):
                        keep.add(t)
                    continue
                if kind == "ec" and t.kind == "ec" and t.hold & {cell(n["a"][-1])}:
                    if not self.settled(t):
                        self.say("examined", t, self.sites[t.site][0], "what %s reports is overwritten by another call before it is examined" % t.what)
                    continue
                keep.add(t)
            oc = frozenset(x for x in (base_cell(n["a"][i]) for i in outs if i < len(n["a"])) if x is not None)
            hold = frozenset()
            if kind == "ec":
                x = cell(n["a"][-1])
                hold = frozenset((x,)) if x is not None else hold
            keep.add(Tok(site, what, tuple(ok) + tuple(ko), hold, oc, ACQUIRE.get(what, ""), kind))
            st = frozenset(keep)
            # never comes back when it succeeds
            if not ok:
                yield (N, st)
                return
        elif n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
            st = self.put(n["a"][0], n["a"][1], st)
        if n.get("noret"):
            return
        if c is None and self.throws.call(n):
            yield (THR, st, ANY)
            st = self.vetted(n, st)
            if st is None:
                return
        yield (N, st)

    def vetted(self, n, st):
        """The results that remain possible after a function that throws for the others has returned."""
        if n["k"] != "call" or not n.get("a"):
            return st
        for g in self.prog.targets(n) or ():
            if g.get("body") is None or g["u"] in self.within or len(g["ps"]) < len(n["a"]):
                return st
        out = set()
        for t in st:
            for i, a in enumerate(n["a"]):
                gs = self.prog.targets(n) or ()
                if not gs or not any(self.value(a, t, v) is not None for v in t.rem) or const(a) is not None:
                    continue
                rem = tuple(v for v in t.rem if self.value(a, t, v) is None or any(self.returns(g, g["ps"][i]["id"], self.value(a, t, v)) for g in gs))
                if not rem:
                    return None
                t = t.but(rem=rem)
            out.add(t)
        return frozenset(out)

    def returns(self, g, param, v):
        R2 = Results(self.prog, self.throws, {}, g)
        R2.within = self.within | {g["u"]}
        site = ("given",)
        R2.sites[site] = (g, (v,), (), "hard")
        o = R2.run(g, frozenset((Tok(site, "given", (v,), frozenset((param,)), frozenset(), "", "hard"),)))
        return bool(o.n or o.r)

    def used(self, e, st, n):
        """A pointer that may be null is handed on."""
        u = uncast(e)
        if u is None or name(n) in ("free", "operator bool"):
            return st
        out = set(st)
        for t in st:
            if t.kind != "soft" or t.outs or self.succeeded(t):
                continue
            if u["k"] == "call" and tuple(u["l"]) == t.site or cell(u) is not None and cell(u) in t.hold:
                self.say("null", t, n, "what %s returns is used without regard to its failing" % t.what)
                out.discard(t)
        return frozenset(out)

    def node(self, n, st):
        k = n["k"]
        if k == "bin" and n["op"] == "=":
            st = self.put(n["a"], n["b"], st)
        elif k == "un" and n["op"] == "*":
            st = self.used(n["e"], st, n)
        elif k == "idx":
            st = self.used(n["a"], st, n)
        elif k == "mem" and n.get("arrow"):
            st = self.used(n["b"], st, n)
        elif k == "var":
            scalar = n["vt"].k not in ("rec", "arr", "ref", "rref") if n.get("vt") is not None else True
            if n.get("rv") or not scalar:
                out = set(st)
                for t in st:
                    if n["id"] in t.outs and not self.succeeded(t):
                        self.say("output", t, n, "%s is read though %s may have failed to set it" % (n["n"], t.what))
                        out.discard(t)
                st = frozenset(out)
        yield (N, st)
        if k == "new":
            yield (THR, st, ANY)

    def put(self, lhs, rhs, st):
        c = cell(lhs)
        if c is None:
            return st
        u = uncast(rhs)
        while u is not None and u["k"] in ("bin",) and u["op"] == "=":
            u = uncast(u["a"])
        src = cell(u) if u is not None else None
        site = tuple(u["l"]) if u is not None and u["k"] == "call" else None
        out = set()
        for t in st:
            h = t.hold
            if t.kind != "ec":
                h = h - {c}
            if site == t.site and t.kind != "ec" or src is not None and src in t.hold:
                h = h | {c}
            out.add(t.but(hold=h, outs=t.outs - {c}))
        return frozenset(out)

    def declare(self, v, st):
        if v.get("i") is None:
            return st
        u = uncast(v["i"])
        site = src = None
        handed = False
        if u["k"] == "ctor" and u["cls"] in ("std::unique_ptr", "std::shared_ptr") and u.get("a"):
            handed = True
            u = uncast(u["a"][0])
        if u["k"] == "call":
            site = tuple(u["l"])
        src = cell(u)
        out = set()
        for t in st:
            if site == t.site and t.kind != "ec" or src is not None and src in t.hold:
                t = t.but(hold=t.hold | {v["id"]})
                if handed:
                    t = t.but(res="")
            out.add(t)
        return frozenset(out)

    # -- conditions ---------------------------------------------------------
    def value(self, e, t, v):
        """What e is if the result is v; None if that is not known."""
        c = const(e)
        if c is not None:
            return c
        e = uncast(e)
        if e is None:
            return None
        c = const(e)
        if c is not None:
            return c
        k = e["k"]
        if k == "null":
            return 0
        x = cell(e)
        if x is not None:
            if x not in t.hold and x in self.named:
                return self.value(self.named[x], t, v)
            return v if x in t.hold and t.kind != "ec" else None
        if k == "call":
            if tuple(e["l"]) == t.site and t.kind != "ec":
                return v
            o = e.get("obj")
            if o is not None and cell(o) in t.hold and (e.get("conv") or name(e) in ("value", "get", "operator bool")):
                return v if not e.get("conv") else int(bool(v))
            if e.get("op") == "!" and len(e["a"]) == 1:
                r = self.value(e["a"][0], t, v)
                return None if r is None else int(not r)
            if e.get("op") in ("==", "!=") and len(e["a"]) == 2 and t.kind == "ec":
                if any(cell(a) in t.hold for a in e["a"]) and v == 0:
                    return int(e["op"] == "!=")
                return None
            if e.get("op") in ("==", "!=") and len(e["a"]) == 2:
                a, b = (v if cell(x) in t.hold else self.value(x, t, v) for x in e["a"])
                return None if a is None or b is None else int((signed(a) == signed(b)) == (e["op"] == "=="))
            return None
        if k == "un" and e["op"] in ("!", "~", "-"):
            r = self.value(e["e"], t, v)
            if r is None:
                return None
            return int(not r) if e["op"] == "!" else ~r if e["op"] == "~" else -r
        if k == "bin":
            if e["op"] == "=":
                return self.value(e["a"], t, v)
            a, b = self.value(e["a"], t, v), self.value(e["b"], t, v)
            if e["op"] in ("&&", "||"):
                s = (0 if e["op"] == "&&" else 1)
                if a is not None and int(bool(a)) == s or b is not None and int(bool(b)) == s:
                    return s
                return None if a is None or b is None else 1 - s
            if a is None or b is None:
                return None
            ty = uncast(e["a"]).get("t")
            un = e["a"]["t"].k in ("uint", "ptr")
            if un:
                a, b = a & M64, b & M64
            else:
                a, b = signed(a), signed(b)
            op = e["op"]
            if op == "==":
                return int(a == b)
            if op == "!=":
                return int(a != b)
            if op == "<":
                return int(a < b)
            if op == ">":
                return int(a > b)
            if op == "<=":
                return int(a <= b)
            if op == ">=":
                return int(a >= b)
        return None

    def assume(self, c, st, truth):
        k = const(c)
        if k is not None:
            return st if bool(k) == truth else None
        out = set()
        for t in st:
            rem = tuple(v for v in t.rem if self.value(c, t, v) in (None, int(truth)) or (self.value(c, t, v) not in (None, 0) and truth))
            if not rem:
                return None
            out.add(t.but(rem=rem))
        return frozenset(out)

    def case_enter(self, s, label, st, items):
        have = {const(l["c"]) for ls, _ in items for l in ls if l["k"] == "case"}
        return self.among(s, st, (lambda v: v == const(label["c"])) if label["k"] == "case" else (lambda v: v not in have))

    def case_none(self, s, st, items):
        have = {const(l["c"]) for ls, _ in items for l in ls if l["k"] == "case"}
        st = Flow.case_none(self, s, st, items)
        return None if st is None else self.among(s, st, lambda v: v not in have)

    def among(self, s, st, fits):
        out = set()
        for t in st:
            rem = tuple(v for v in t.rem if self.value(s["c"], t, v) is None or fits(self.value(s["c"], t, v)))
            if not rem:
                return None
            out.add(t.but(rem=rem))
        return frozenset(out)

    # -- leaving ------------------------------------------------------------
    def ret(self, n, st):
        e = n.get("e")
        out = set()
        for t in st:
            if e is not None and t.res:
                x = cell(e)
                if x is not None and x in t.hold:
                    t = t.but(res="")
            if e is None or t.kind == "ec" and False:
                out.add(t)
                continue
            ok, ko = self.sites[t.site][1:3]
            vals = {v: self.value(e, t, v) for v in t.rem}
            u = uncast(e)
            if None not in vals.values() and u is not None:
                c = const(e)
                a = {vals[v] for v in t.rem if v in ok}
                b = {vals[v] for v in t.rem if v in ko}
                if c is None and a and b and not a & b:
                    self.derived.setdefault((t.kind, t.what), [set(), set()])
                    self.derived[(t.kind, t.what)][0] |= a
                    self.derived[(t.kind, t.what)][1] |= b
                    continue
            if self.failed(t) and t.kind != "soft" and self.an_error(e):
                out.add(t.but(rem=tuple(ok) or t.rem))      # reported by the value returned
                if not ok:
                    out.discard(t)
                continue
            out.add(t)
        return frozenset(out)

    def an_error(self, e):
        t = e["t"]
        c = const(e)
        u = uncast(e)
        if t.k == "bool":
            return c == 0
        if t.k in ("int", "uint"):
            return c is not None and c != 0
        if t.k == "ptr":
            return u["k"] == "null" or c == 0
        if t.rec in ("std::optional", "boost::optional", "boost::none_t"):
            return True if u["k"] == "ctor" and not u["a"] or "none" in str(u.get("n") or "") or u["k"] == "ctor" and any("none" in str(uncast(a).get("n") or "") for a in u["a"]) else False
        return False


def check(prog, R):
    R.rule("examined", "on every path the result of a fallible call is examined, and its failure ends in an exception or an error return", 10)
    R.rule("output", "what a fallible call computes is read only where it is known to have succeeded", 10)
    R.rule("null", "a pointer the system may return as null is used only where it is known not to be", 4)
    R.rule("released", "a handle obtained from such a library is given back on every path, including when an exception is thrown", 2)
    T = Throws(prog)
    contracts = {}
    final = {}
    for turn in range(4):
        before = dict(contracts)
        final = {}
        for f in prog.fns:
            if f.get("body") is None or "gen/" in f["l"][0] or re.search(r"tbt-(parser|lexer|scanner)\.(cc|hh|yy|ll)$", f["l"][0]):
                continue
            F = Results(prog, T, contracts, f)
            if not any(n.get("k") == "call" and F.contract(n) for n in fn_nodes(f)):
                continue
            o = F.run(f, frozenset())
            final[f["u"]] = (f, F, o)
            if len(F.derived) == 1 and not f.get("virt"):
                (kind, what), (a, b) = next(iter(F.derived.items()))
                if not a & b and kind != "ec":
                    contracts[f["u"]] = (kind, tuple(sorted(a)), tuple(sorted(b)), (), f["fn"].split("::")[-1])
                elif kind == "ec" and not a & b:
                    contracts[f["u"]] = ("hard", tuple(sorted(a)), tuple(sorted(b)), (), f["fn"].split("::")[-1])
        if contracts == before:
            break
    if len(final) < 5:
        raise AnalysisBroken("no calls into zlib, iconv, OpenSSL or the system found")
    for f, F, o in final.values():
        key = f["fn"].split("scribbu::")[-1]
        # endings
        for st in set(o.n) | set(o.r):
            for t in st:
                n = F.sites[t.site][0]
                if t.kind != "soft":
                    if not F.settled(t):
                        F.say("examined", t, n, "%s can return without anyone examining what %s reports" % (f["fn"], t.what))
                    elif F.failed(t) and not (t.kind == "ec" and 1 not in t.rem):      # a particular error is provided for
                        F.say("examined", t, n, "%s can return as if nothing had happened after %s has failed" % (f["fn"], t.what))
                if t.res and not F.failed(t) and not kept(prog, f, t):
                    F.say("released", t, n, "%s can return without giving back what %s returned" % (f["fn"], t.what))
        for st, e in o.t:
            for t in st:
                n = F.sites[t.site][0]
                if t.res and not F.failed(t) and not (kept(prog, f, t) and not f.get("ctor")):
                    F.say("released", t, n, "an exception can leave %s without what %s returned being given back" % (f["fn"], t.what))
        seen = set()
        for rule, what, n, msg in F.bad:
            if (rule, what) not in seen:
                seen.add((rule, what))
                R.bad(rule, "%s/%s" % (key, what), n, msg)
        for site, (n, ok, ko, kind) in F.sites.items():
            what = name(n)
            for rule in ("examined", "output", "null", "released"):
                if (rule, what) in seen:
                    continue
                if rule == "examined" and kind == "soft" or rule == "null" and (kind != "soft") or rule == "released" and what not in ACQUIRE:
                    continue
                R.ok(rule, (key, site))
    R.extra["functions_with_fallible_calls"] = len(final)
    R.extra["wrappers_recognised"] = sorted(c[4] for c in contracts.values())


def kept(prog, f, t):
    """The handle is in a member of an object whose destructor gives it back."""
    cls = f.get("cls")
    if not cls or not any(isinstance(h, tuple) and h and h[0] == "this" for h in t.hold):
        return False
    for m in prog.methods(cls):
        if m.get("dtor") and m.get("body") is not None:
            for n in fn_nodes(m):
                if n.get("k") == "call" and name(n) == t.res and any(cell(a) in t.hold for a in n["a"]):
                    return True
    return False
