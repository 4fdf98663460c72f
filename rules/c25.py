"""C25: encodings, languages and genres have one consistent, total table."""

import codecs
import re

from facts import AnalysisBroken
from flow import Flow, N
from genres import GENRES
from iso639 import ISO
from program import const, fn_nodes, uncast, walk

TECHNIQUE = "extraction of every name table from the typed syntax tree, and decision of totality, inverse and agreement over all their entries"

SENTINEL = re.compile(r"(MAX_\w+|from_locale)$")
BOMS = {(0xef, 0xbb, 0xbf): ("8", ""), (0xfe, 0xff): ("16", "BE"), (0xff, 0xfe): ("16", "LE"), (0, 0, 0xfe, 0xff): ("32", "BE"), (0xff, 0xfe, 0, 0): ("32", "LE")}
UNI = re.compile(r"(UTF|UCS)(8|16|2|32|4)(BE|LE)?$")
WIDTH = {"8": "8", "16": "16", "2": "16", "32": "32", "4": "32"}
# the byte an ID3v2 text field begins with
BYTE = {"ISO88591": 0, "UTF16BOM": 1, "UCS2": 1, "UTF16": 1, "UTF16BE": 2, "UTF8": 3}


def norm(s):
    return re.sub(r"[^A-Z0-9]", "", s.split("::")[-1].upper())


def leaf(e):
    """A constant: ("e", enumerator), ("s", text) or ("i", number)."""
    e = uncast(e)
    while e is not None and e["k"] == "ctor" and len([a for a in e["a"] if uncast(a)["k"] not in ("ctor", "zero")]) == 1 and ("string" in e["cls"] or e.get("copy") or e.get("move")):
        e = uncast([a for a in e["a"] if uncast(a)["k"] not in ("ctor", "zero")][0])
    if e is None:
        return None
    if e["k"] == "enum":
        return ("e", e["n"])
    if e["k"] == "str":
        return ("s", e["v"])
    c = const(e)
    return ("i", c) if c is not None else None


def pairs(root):
    """(key, value, node) of every constant pair below a node."""
    out = []
    for n in walk(root):
        a = None
        if n.get("k") == "ctor" and n["cls"] == "std::pair" and len(n["a"]) == 2:
            a = n["a"]
        elif n.get("k") == "call" and n.get("f") == "std::make_pair" and len(n["a"]) == 2:
            a = n["a"]
        elif n.get("k") == "init" and len(n["a"]) == 2 and not any(uncast(x) is None or uncast(x)["k"] in ("init",) for x in n["a"]):
            a = n["a"]
        if a is not None:
            x, y = leaf(a[0]), leaf(a[1])
            if x is not None and y is not None and "e" in (x[0], y[0]):
                out.append((x, y, n))
    return out


def tables(prog, f):
    """Name -> pairs of each table a function declares."""
    out = {}
    for n in fn_nodes(f):
        if n.get("k") == "decl":
            for v in n["d"]:
                if v.get("i") is not None and any(x in v["t"].s for x in ("map<", "pair<", "map ")):
                    i = uncast(v["i"])
                    ps = pairs(v["i"])
                    if not ps:
                        for m in walk(v["i"]):
                            if m.get("k") == "lambda":
                                ps += pairs(m["fn"]["body"])
                        for m in walk(v["i"]):          # a table made by a helper
                            if m.get("k") == "call":
                                for g in prog.targets(m) or ():
                                    if g.get("body") is not None:
                                        ps += pairs(g["body"])
                            if m.get("k") == "var" and m.get("g"):
                                for g in prog.gvars.get(m.get("q"), ()):
                                    if g.get("i") is not None:
                                        ps += pairs(g["i"])
                    if ps:
                        out[v["id"]] = (v, ps)
    return out


class Names(Flow):
    """What a function prints or yields when its enumeration argument is one particular member, or its text one
    particular name."""

    def __init__(self, prog, f, what, value):
        Flow.__init__(self, prog)
        self.what, self.value = what, value
        self.tabs = {}
        self.tabs.update(tables(prog, f))
        self.env_text = None
        self.f = f

    def table(self, e):
        e = uncast(e)
        if e is None or e["k"] != "var":
            return None
        if e["id"] in self.tabs:
            return self.tabs[e["id"]][1]
        if e.get("g"):
            for g in self.prog.gvars.get(e.get("q"), ()):
                if g.get("i") is not None:
                    return pairs(g["i"])
        return None

    def lookup(self, tab, key):
        for a, b, n in tab:
            if a == key:
                return b
        return "missing"

    def val(self, e, st):
        """Constant value of an expression, "missing" for a failed look-up, None when unknown."""
        e = uncast(e)
        if e is None:
            return None
        l = leaf(e)
        if l is not None:
            return l
        if e["k"] == "var":
            if e["id"] == self.what:
                return self.value
            return dict(st[0]).get(e["id"])
        if e["k"] == "ctor" and len(e["a"]) >= 1 and (e.get("copy") or e.get("move") or "string" in e["cls"]):
            return self.val(e["a"][0], st)
        if e["k"] == "call":
            nm = (e.get("f") or "").split("::")[-1]
            if nm == "at" and e.get("obj") is not None and self.table(e["obj"]) is not None:
                k = self.val(e["a"][0], st)
                return None if k is None else self.lookup(self.table(e["obj"]), k)
            if e.get("op") == "[]" and self.table(e["a"][0]) is not None:
                k = self.val(e["a"][1], st)
                return None if k is None else self.lookup(self.table(e["a"][0]), k)
            if nm == "find" and e.get("obj") is not None and self.table(e["obj"]) is not None:
                k = self.val(e["a"][0], st)
                if k is None:
                    return None
                r = self.lookup(self.table(e["obj"]), k)
                return ("it", r)
            if nm in ("end", "cend") and e.get("obj") is not None:
                return ("it", "missing")
            if nm == "count" and e.get("obj") is not None and self.table(e["obj"]) is not None:
                k = self.val(e["a"][0], st)
                return None if k is None else ("i", int(self.lookup(self.table(e["obj"]), k) != "missing"))
            if nm == "regex_match" and len(e["a"]) >= 2:
                s, rx = self.val(e["a"][0], st), self.regex(e["a"][1])
                if s is not None and s[0] == "s" and rx is not None:
                    return ("i", int(re.fullmatch(rx, s[1]) is not None))
            if e.get("op") in ("==", "!=") and len(e["a"]) == 2:
                return self.cmp(e["op"], e["a"][0], e["a"][1], st)
            if nm in ("c_str", "data", "str") and e.get("obj") is not None:
                return self.val(e["obj"], st)
            gs = list(self.prog.targets(e) or ())
            if len(gs) == 1 and gs[0].get("body") is not None and len(gs[0]["ps"]) == 1 and len(e["a"]) == 1 and gs[0]["u"] != self.f["u"]:
                v = self.val(e["a"][0], st)
                if v is not None and v[0] in ("e", "s"):
                    o = Names(self.prog, gs[0], gs[0]["ps"][0]["id"], v).run(gs[0], ((), ()))
                    got = {dict(x[0]).get("ret") for x in o.r}
                    if not got:
                        return "missing"
                    if len(got) == 1:
                        return got.pop()
        if e["k"] == "mem" and e["n"] == "second":
            b = uncast(e["b"])
            if b["k"] == "call" and b.get("op") in ("->", "*"):
                b = uncast(b["a"][0])
            it = self.val(b, st)
            if it is not None and it[0] == "it":
                return it[1]
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            return self.cmp(e["op"], e["a"], e["b"], st)
        if e["k"] == "un" and e["op"] == "!":
            v = self.val(e["e"], st)
            return ("i", int(not v[1])) if v is not None and v[0] == "i" else None
        if e["k"] == "cond":
            c = self.val(e["c"], st)
            if c is not None and c[0] == "i":
                return self.val(e["a"] if c[1] else e["b"], st)
        return None

    def cmp(self, op, a, b, st):
        x, y = self.val(a, st), self.val(b, st)
        if x is None or y is None:
            return None
        if x[0] == "it" and y[0] == "it":
            same = (x[1] == "missing") == (y[1] == "missing") and "missing" in (x[1], y[1])
            return ("i", int(same == (op == "==")))
        if x[0] != y[0]:
            return None
        return ("i", int((x == y) == (op == "==")))

    def regex(self, e):
        e = uncast(e)
        if e["k"] == "var":
            for n in fn_nodes(self.f):
                if n.get("k") == "decl":
                    for v in n["d"]:
                        if v["id"] == e["id"] and v.get("i") is not None:
                            s = [x["v"] for x in walk(v["i"]) if x.get("k") == "str"]
                            if len(s) == 1:
                                return s[0]
        s = [x["v"] for x in walk(e) if x.get("k") == "str"]
        return s[0] if len(s) == 1 else None

    # state: (environment, printed)
    def call(self, n, st):
        if n.get("noret"):
            return
        if n["k"] == "call" and n.get("op") == "<<" and len(n["a"]) == 2:
            v = self.val(n["a"][1], st)
            if v == "missing":
                return
            t = n["a"][1]["t"]
            st = (st[0], st[1] + ((v,) if v is not None else (("?", str(n["l"])),)))
        elif n["k"] == "call" and n.get("op") == ">>" and len(n["a"]) == 2:
            pass
        elif n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
            st = self.store(n["a"][0], n["a"][1], st)
            if st is None:
                return
        elif n["k"] == "call" and (n.get("f") or "").endswith("::at") and self.val(n, st) == "missing":
            return
        yield (N, st)

    def store(self, lhs, rhs, st):
        l = uncast(lhs)
        if l is not None and l["k"] == "var":
            v = self.val(rhs, st)
            if v == "missing":
                return None
            d = dict(st[0])
            d.pop(l["id"], None)
            if v is not None:
                d[l["id"]] = v
            return (tuple(sorted(d.items(), key=str)), st[1])
        return st

    def node(self, n, st):
        if n["k"] == "bin" and n["op"] == "=":
            st = self.store(n["a"], n["b"], st)
            if st is None:
                return
        yield (N, st)

    def declare(self, v, st):
        if v.get("i") is not None and v["id"] not in self.tabs:
            x = self.val(v["i"], st)
            if x is not None and x != "missing":
                d = dict(st[0])
                d[v["id"]] = x
                return (tuple(sorted(d.items(), key=str)), st[1])
        return st

    def ret(self, n, st):
        if n.get("e") is not None:
            v = self.val(n["e"], st)
            return (tuple(sorted({**dict(st[0]), "ret": v}.items(), key=str)), st[1])
        return st

    def assume(self, c, st, truth):
        v = self.val(c, st)
        if v is None or v[0] not in ("i",):
            return st
        return st if bool(v[1]) == truth else None

    def case_enter(self, s, label, st, items):
        v = self.val(s["c"], st)
        if v is None:
            return st
        if label["k"] == "default":
            return st if not any(leaf(l["c"]) == v for ls, _ in items for l in ls if l["k"] == "case") else None
        return st if leaf(label["c"]) == v else None

    def case_none(self, s, st, items):
        v = self.val(s["c"], st)
        if v is not None:
            return None if any(leaf(l["c"]) == v for ls, _ in items for l in ls if l["k"] == "case") else st
        return Flow.case_none(self, s, st, items)


def enum_of(t):
    t = t.deref() if t.k in ("ref", "rref") else t
    return re.sub(r"^const ", "", t.s) if t.k == "enum" else None


def text_param(f):
    """The local a >> operator reads its text into."""
    for n in fn_nodes(f):
        if n.get("k") == "call" and n.get("op") == ">>" and len(n["a"]) == 2:
            v = uncast(n["a"][1])
            if v["k"] == "var":
                return v["id"]
        if n.get("k") == "call" and (n.get("f") or "") == "std::getline" and len(n["a"]) >= 2:
            v = uncast(n["a"][1])
            if v["k"] == "var":
                return v["id"]
    return None


class Bytes(Flow):
    """The bytes a function stores in an array for one member of an enumeration."""

    def __init__(self, prog, f, what, value, arr):
        Flow.__init__(self, prog)
        self.what, self.value, self.arr = what, value, arr

    def node(self, n, st):
        if n["k"] == "bin" and n["op"] == "=":
            l = uncast(n["a"])
            if l["k"] == "idx" and uncast(l["a"])["k"] == "var" and uncast(l["a"])["id"] == self.arr:
                i = const(l["b"])
                r = uncast(n["b"])
                v = const(r)
                if v is None and r["k"] == "idx":
                    b, j = uncast(r["a"]), const(r["b"])
                    if b["k"] == "str" and j is not None:
                        v = ord((b["v"] + "\0")[j])
                d = dict(st)
                d[i] = v
                st = tuple(sorted(d.items(), key=str))
        yield (N, st)

    def call(self, n, st):
        if (n.get("f") or "").split("::")[-1] in ("memcpy", "copy", "copy_n", "strncpy") and len(n["a"]) == 3:
            dst = [a for a in n["a"] if any(x.get("k") == "var" and x["id"] == self.arr for x in walk(a))]
            src = [x["v"] for a in n["a"] for x in walk(a) if x.get("k") == "str"]
            if dst and src:
                st = tuple((i, ord(c)) for i, c in enumerate(src[0][:3]))
        if n.get("noret"):
            return
        yield (N, st)

    def case_enter(self, s, label, st, items):
        c = uncast(s["c"])
        if c["k"] == "var" and c["id"] == self.what:
            if label["k"] == "default":
                return st if not any(leaf(l["c"]) == ("e", self.value) for ls, _ in items for l in ls if l["k"] == "case") else None
            return st if leaf(label["c"]) == ("e", self.value) else None
        return st

    def case_none(self, s, st, items):
        return None if any(leaf(l["c"]) == ("e", self.value) for ls, _ in items for l in ls if l["k"] == "case") else st

    def assume(self, c, st, truth):
        c = uncast(c)
        if c["k"] == "bin" and c["op"] in ("==", "!="):
            a, b = uncast(c["a"]), uncast(c["b"])
            if a["k"] != "var":
                a, b = b, a
            if a["k"] == "var" and a["id"] == self.what and b["k"] == "enum":
                return st if ((b["n"] == self.value) == (c["op"] == "==")) == truth else None
        return st


def conj(e):
    e = uncast(e)
    if e is not None and e["k"] == "bin" and e["op"] == "&&":
        return conj(e["a"]) + conj(e["b"])
    return [e]


def bom_of(terms):
    """The byte sequence a conjunction compares the start of a buffer with."""
    got = {}
    for t in terms:
        if t is None or t["k"] != "bin" or t["op"] != "==":
            continue
        for x, y in ((t["a"], t["b"]), (t["b"], t["a"])):
            c, v = const(x), uncast(y)
            if c is not None and v["k"] == "idx" and const(v["b"]) is not None:
                b = uncast(v["a"])
                if b["k"] in ("var", "mem"):
                    got.setdefault(b.get("id") or b.get("n"), {})[const(v["b"])] = c & 0xff
    for g in got.values():
        if set(g) == set(range(len(g))) and len(g) >= 2:
            s = tuple(g[i] for i in range(len(g)))
            if set(s) <= {0xef, 0xbb, 0xbf, 0xfe, 0xff, 0} and any(s):
                return s
    return None


def distance(a, b):
    d = list(range(len(b) + 1))
    for i, x in enumerate(a):
        p, d[0] = d[0], i + 1
        for j, y in enumerate(b):
            p, d[j + 1] = d[j + 1], min(d[j + 1] + 1, d[j] + 1, p + (x != y))
    return d[-1]


def check(prog, R):
    R.rule("total", "every member of an enumeration has exactly one printed name", 600)
    R.rule("single", "no two members have the same name, and no table has two entries for one key", 600)
    R.rule("inverse", "reading the printed name of a member gives that member back", 600)
    R.rule("agree", "an entry whose name is that of a member belongs to that member", 600)
    R.rule("converter", "a converter is opened by the name that belongs to the encoding, and there is one for each", 99)
    R.rule("reach", "every name in a table can be looked up", 30)
    R.rule("code", "a language is written as its own ISO 639-2 code, and found by its own ISO 639-1 code", 500)
    R.rule("mark", "a byte order mark is the one that belongs to the encoding it stands for", 8)
    R.rule("genre", "the genre names are those of ID3v1 & Winamp, in order, and the same in every table", 192)
    ops = {}
    for f in prog.fns:
        nm = f["fn"].split("::")[-1]
        if nm in ("operator<<", "operator>>") and len(f["ps"]) == 2 and f.get("body") is not None and enum_of(f["ps"][1]["t"]) in prog.enums:
            ops.setdefault(enum_of(f["ps"][1]["t"]), {})[nm[-2:]] = f
    if "scribbu::encoding" not in ops or "scribbu::language" not in ops:
        raise AnalysisBroken("the operators that print and read encodings and languages were not found")
    seen_tabs = set()
    for en, d in sorted(ops.items()):
        members = [e["n"].split("::")[-1] for e in prog.enums[en]["e"]]
        mem = ["%s::%s" % (en, m) for m in members]
        short = en.split("::")[-1]
        printed = {}
        if "<<" in d:
            f = d["<<"]
            for m, q in zip(members, mem):
                if SENTINEL.match(m):
                    continue
                F = Names(prog, f, f["ps"][1]["id"], ("e", q))
                o = F.run(f, ((), ()))
                outs = {s[1] for s in set(o.n) | set(o.r)}
                texts = {"".join(str(x[1]) for x in p) for p in outs}
                if len(texts) != 1 or any(x[0] == "?" for p in outs for x in p) or "" in texts:
                    R.bad("total", "%s/%s" % (short, m), f, "%s has %s" % (q, "no printed name" if not texts or texts == {""} else "no single printed name"))
                    continue
                R.ok("total", q)
                t = texts.pop()
                if t in printed:
                    R.bad("single", "%s/%s" % (short, m), f, "%s and %s are both printed as %s" % (printed[t], q, t))
                else:
                    R.ok("single", (q, "printed"))
                    printed[t] = q
        if ">>" in d and "<<" in d:
            f = d[">>"]
            tv = text_param(f)
            for t, q in sorted(printed.items()):
                if re.search(r"\s", t) or tv is None:
                    if tv is None:
                        raise AnalysisBroken("%s reads its text in an unknown way" % f["fn"])
                    R.bad("inverse", "%s/%s" % (short, q.split("::")[-1]), f, "%s is printed as '%s', which is not read as one word" % (q, t))
                    continue
                F = Names(prog, f, tv, ("s", t))
                o = F.run(f, ((), ()))
                x = f["ps"][1]["id"]
                got = {dict(s[0]).get(x) for s in set(o.n) | set(o.r)}
                if got == {("e", q)}:
                    R.ok("inverse", q)
                else:
                    g = "nothing" if not got else "/".join(sorted(str(v[1]).split("::")[-1] if v else "something unknown" for v in got))
                    R.bad("inverse", "%s/%s" % (short, q.split("::")[-1]), f, "%s is printed as %s, which is read as %s" % (q, t, g))
    # every table: keys unique, entries that agree with their names
    ntab = 0
    for f in prog.fns:
        if f.get("body") is None or "gen/" in f["l"][0]:
            continue
        for vid, (v, ps) in tables(prog, f).items():
            if (f["l"], v["n"]) in seen_tabs:
                continue
            seen_tabs.add((f["l"], v["n"]))
            ntab += 1
            key = "%s/%s" % (f["fn"].split("scribbu::")[-1], v["n"])
            keys = {}
            for a, b, n in ps:
                if a in keys and keys[a] != b and not twins(a, keys[a], b):
                    R.bad("single", "%s/%s" % (key, str(a[1]).split("::")[-1].replace(" ", "_")), n, "%s has two entries for %s" % (v["n"], a[1]))
                else:
                    R.ok("single", (key, a))
                keys[a] = b
            agree(prog, R, key, ps)
        for n in fn_nodes(f):
            if n.get("k") == "switch":
                agree(prog, R, f["fn"].split("scribbu::")[-1] + "/switch", switch_pairs(n))
        reach(prog, R, f)
    # the converter's names
    conv = [(f, n) for f in prog.fns if f.get("body") is not None for n in fn_nodes(f) if n.get("k") == "call" and n.get("f") == "iconv_open"]
    if not conv:
        raise AnalysisBroken("no converter is opened")
    done = set()
    for f, n in conv:
        for a in n["a"]:
            for c in walk(a):
                if c.get("k") != "call":
                    continue
                for g in prog.targets(c) or ():
                    if g["u"] in done or not g["ps"] or enum_of(g["ps"][0]["t"]) != "scribbu::encoding":
                        continue
                    done.add(g["u"])
                    used = {}
                    for e in prog.enums["scribbu::encoding"]["e"]:
                        m = e["n"].split("::")[-1]
                        if SENTINEL.match(m):
                            continue
                        q = "scribbu::encoding::" + m
                        names = {b[1] for v, ps in tables(prog, g).values() for x, b, _ in ps if x == ("e", q) and b[0] == "s"} or switch_names(g, q)
                        if len(names) != 1:
                            R.bad("converter", m, g, "there is %s converter name for %s" % ("no" if not names else "more than one", q))
                            continue
                        t = names.pop()
                        others = [x["n"].split("::")[-1] for x in prog.enums["scribbu::encoding"]["e"] if norm(x["n"]) == norm(t)]
                        if others and m not in others:
                            R.bad("converter", m, g, "text in %s is converted as %s" % (q, t))
                        elif not others and not names_it(t, m):
                            R.bad("converter", m, g, "text in %s is converted as %s" % (q, t))
                        elif t in used:
                            R.bad("converter", m, g, "%s and %s have the same converter name, %s" % (q, used[t], t))
                        else:
                            R.ok("converter", m)
                            used[t] = q
    # which encoding goes where
    for f, n in conv:
        R.ok("converter", ("open", f["fn"], n["l"]))
    maps(prog, R)
    codes(prog, R)
    marks(prog, R)
    genres(prog, R)
    R.extra["tables"] = ntab
    R.extra["enumerations_printed"] = sorted(ops)


def twins(a, b, c):
    """Two ISO 639-2 codes of one language: some have a bibliographic and a terminological one."""
    if a[0] != "i" or b[0] != "e" or c[0] != "e":
        return False
    return {x[1].split("::")[-1].lower() for x in (b, c)} <= ISO.get(chr(a[1] >> 8 & 0xff) + chr(a[1] & 0xff), set())


def maps(prog, R):
    """Functions from an enumeration to another one, or to the byte that stands for it in a frame."""
    for f in prog.fns:
        if f.get("body") is None or len(f["ps"]) != 1 or f["rt"] is None or "/gen/" in f["l"][0]:
            continue
        en, to = enum_of(f["ps"][0]["t"]), enum_of(f["rt"])
        if en not in prog.enums or to == en or to is None and f["rt"].k not in ("int", "uint"):
            continue
        for e in prog.enums[en]["e"]:
            q = "%s::%s" % (en, e["n"].split("::")[-1])
            F = Names(prog, f, f["ps"][0]["id"], ("e", q))
            o = F.run(f, ((), ()))
            got = {dict(s[0]).get("ret") for s in o.r}
            if len(got) != 1 or None in got:
                continue
            v = got.pop()
            key = f["fn"].split("scribbu::")[-1]
            if v[0] == "e" and to in prog.enums:
                agree(prog, R, key, [(("e", q), v, f)])
            elif v[0] == "i" and norm(q) in BYTE and "encoding" in en:
                if BYTE[norm(q)] != v[1]:
                    R.bad("agree", "%s/%s" % (key, norm(q)), f, "%s stands for %s, not %d" % (BYTE[norm(q)], q, v[1]))
                else:
                    R.ok("agree", (key, q, v))


def names_it(t, m):
    """Is t a name of the encoding called m, or a registered alias of it?"""
    if norm(t) == norm(m):
        return True
    try:
        return codecs.lookup(t).name == codecs.lookup(m.replace("_", "-")).name
    except LookupError:
        return False


def switch_names(g, q):
    out = set()
    for n in fn_nodes(g):
        if n.get("k") == "switch":
            out |= {b[1] for a, b, _ in switch_pairs(n) if a == ("e", q) and b[0] == "s"}
    return out


def switch_pairs(n):
    """(case, constant it yields) where a case does no more than return or assign a constant."""
    out = []
    body = n["s"]["s"] if n["s"]["k"] == "block" else [n["s"]]
    labels = []
    for s in body:
        if s["k"] in ("case", "default"):
            if labels and last not in ("case", "default"):
                labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append(s)
                s = s["s"]
            if s is None:
                last = "case"
                continue
        last = s["k"]
        v = None
        if s["k"] == "return" and s.get("e") is not None:
            v = leaf(s["e"])
        elif s["k"] == "bin" and s["op"] == "=":
            v = leaf(s["b"])
        if v is not None:
            for l in labels:
                if l["k"] == "case" and leaf(l["c"]) is not None:
                    out.append((leaf(l["c"]), v, s))
        if s["k"] in ("break", "return"):
            labels = []
    return out


def agree(prog, R, key, ps):
    for a, b, n in ps:
        for x, y in ((a, b), (b, a)):
            if y[0] != "e" or x[0] not in ("e", "s"):
                continue
            en = "::".join(y[1].split("::")[:-1])
            if en not in prog.enums or x[0] == "e" and x[1].startswith(en + "::"):
                continue
            same = [e["n"].split("::")[-1] for e in prog.enums[en]["e"] if norm(e["n"]) == norm(x[1]) and norm(x[1])]
            if x[0] == "s" and en == "scribbu::encoding" and not same and not re.search(r"operator(<<|>>)$", key.split("/")[0]) and not names_it(x[1], y[1].split("::")[-1]):
                R.bad("agree", "%s/%s" % (key, norm(y[1])), n, "%s is looked up by '%s', which is not a name of it" % (y[1], x[1]))
            elif same and y[1].split("::")[-1] not in same:
                R.bad("agree", "%s/%s" % (key, norm(x[1])), n, "%s is paired with %s rather than with %s" % (x[1], y[1], same[0]))
            else:
                R.ok("agree", (key, a, b))


def reach(prog, R, f):
    """Look-ups whose key always starts with a character none of the table's keys starts with, and keys that are not names."""
    tabs = tables(prog, f)
    if not tabs:
        return
    inits = {}
    for n in fn_nodes(f):
        if n.get("k") == "decl":
            for v in n["d"]:
                if v.get("i") is not None:
                    inits[v["id"]] = uncast(v["i"])
    for n in fn_nodes(f):
        if n.get("k") != "call" or (n.get("f") or "").split("::")[-1] not in ("at", "find", "count", "contains") or n.get("obj") is None:
            continue
        o = uncast(n["obj"])
        if o["k"] != "var" or o["id"] not in tabs:
            continue
        ps = tabs[o["id"]][1]
        k = uncast(n["a"][0])
        while k is not None and (k["k"] == "var" and k["id"] in inits or k["k"] == "ctor" and (k.get("copy") or k.get("move"))):
            k = inits[k["id"]] if k["k"] == "var" else uncast(k["a"][0])
            k = uncast(k)
        if k is not None and k["k"] == "call" and (k.get("f") or "").endswith("::substr") and k["a"]:
            i = uncast(k["a"][0])
            if i["k"] == "var" and i["id"] in inits:
                i = uncast(inits[i["id"]])
            if i["k"] == "call" and (i.get("f") or "").split("::")[-1] in ("find", "rfind") and i["a"]:
                c = const(i["a"][0])
                if c is None:
                    l = leaf(i["a"][0])
                    c = ord(l[1][0]) if l and l[0] == "s" and l[1] else None
                if c is not None and not any(a[0] == "s" and a[1].startswith(chr(c)) for a, _, _ in ps):
                    R.bad("reach", "%s/%s" % (f["fn"].split("scribbu::")[-1], tabs[o["id"]][0]["n"]), n, "every name looked up in %s begins with '%s', and no entry does" % (tabs[o["id"]][0]["n"], chr(c)))
                    continue
        R.ok("reach", (f["fn"], n["l"]))
    for vid, (v, ps) in tabs.items():
        for a, b, n in ps:
            for x in (a, b):
                if x[0] == "s" and x[1] and not x[1].startswith("//"):
                    if re.search(r"[,;\s]", x[1]):
                        R.bad("reach", "%s/%s" % (f["fn"].split("scribbu::")[-1], norm(x[1])), n, "the name '%s' in %s cannot be one that is looked up" % (x[1], v["n"]))
                    else:
                        R.ok("reach", (f["fn"], v["n"], x[1]))


def codes(prog, R):
    lang = "scribbu::language"
    low = {e["n"].split("::")[-1] for e in prog.enums[lang]["e"]}
    done = 0
    for f in prog.fns:
        if f.get("body") is None:
            continue
        if len(f["ps"]) == 2 and enum_of(f["ps"][0]["t"]) == lang and f["ps"][1]["t"].k == "ptr":
            done += 1
            for m in sorted(low):
                if SENTINEL.match(m):
                    continue
                F = Bytes(prog, f, f["ps"][0]["id"], "%s::%s" % (lang, m), f["ps"][1]["id"])
                o = F.run(f, ())
                got = set(o.n) | set(o.r)
                want = tuple((i, ord(c)) for i, c in enumerate(m.lower()))
                if got == {want}:
                    R.ok("code", m)
                else:
                    txt = "/".join("".join(chr(v) if isinstance(v, int) else "?" for _, v in g) for g in got) or "nothing"
                    R.bad("code", m, f, "the language %s is written as '%s'" % (m, txt))
        elif f["rt"] is not None and enum_of(f["rt"]) == lang and len(f["ps"]) == 1:
            for vid, (v, ps) in tables(prog, f).items():
                have = {}
                for a, b, n in ps:
                    if b[0] != "e" or not b[1].startswith(lang):
                        continue
                    two = chr(a[1] >> 8 & 0xff) + chr(a[1] & 0xff) if a[0] == "i" else a[1]
                    m = b[1].split("::")[-1].lower()
                    have[two] = m
                    if len(two) != 2:
                        continue
                    if two not in ISO or m not in ISO[two]:
                        R.bad("code", "639-1/%s" % two, n, "the ISO 639-1 code %s is taken for %s" % (two, m))
                    else:
                        R.ok("code", ("639-1", two))
                if len(have) > 100:
                    done += 1
                    for two in sorted(set(ISO) - set(have)):
                        R.bad("code", "639-1/%s" % two, f, "the ISO 639-1 code %s is not known" % two)
    if done < 2:
        raise AnalysisBroken("the functions that convert language codes were not found")


def marks(prog, R):
    for f in prog.fns:
        if f.get("body") is None or "gen/" in f["l"][0]:
            continue
        key = f["fn"].split("scribbu::")[-1]
        arrays = {}
        for n in fn_nodes(f):
            if n.get("k") == "decl":
                for v in n["d"]:
                    if v.get("i") is not None and v["t"].k == "arr" and uncast(v["i"])["k"] == "init":
                        a = [const(x) for x in uncast(v["i"])["a"]]
                        if None not in a and 2 <= len(a) <= 4:
                            arrays[v["id"]] = (v["n"], tuple(x & 0xff for x in a))
        inner = {id(uncast(x)) for n in fn_nodes(f) if n.get("k") == "bin" and n["op"] == "&&" for x in (n["a"], n["b"])}
        for n in fn_nodes(f):
            k = n.get("k")
            if k == "switch":
                body = n["s"]["s"] if n["s"]["k"] == "block" else [n["s"]]
                labels, cur = [], []
                for s in list(body) + [{"k": "break"}]:
                    if s["k"] in ("case", "default"):
                        ls = []
                        while s is not None and s["k"] in ("case", "default"):
                            ls.append(s)
                            s = s["s"]
                        labels = labels + ls if not cur else ls
                        if s is None:
                            continue
                    cur.append(s)
                    if s["k"] in ("break", "return"):
                        mark(R, key, labels, cur, arrays)
                        labels, cur = [], []
            elif k == "bin" and n["op"] == "&&" and id(n) not in inner:
                s = bom_of(conj(n))
                if s is not None:
                    if s not in BOMS:
                        # a longer conjunction holds it
                        R.bad("mark", "%s/%s" % (key, "".join("%02x" % b for b in s)), n, "%s takes %s for a byte order mark" % (f["fn"], " ".join("%02x" % b for b in s)))
                    else:
                        R.ok("mark", (key, s, n["l"]))
            elif k == "if":
                s = bom_of(conj(n["c"]))
                if s in BOMS and n.get("th") is not None:
                    w, o = BOMS[s]
                    for x in walk(n["th"]):
                        if x.get("k") == "enum":
                            m = UNI.match(norm(x["n"]))
                            if m:
                                if WIDTH[m[2]] != w or m[3] and m[3] != o:
                                    R.bad("mark", "%s/%s" % (key, norm(x["n"])), x, "text that begins with %s is taken to be in %s" % (" ".join("%02x" % b for b in s), x["n"]))
                                else:
                                    R.ok("mark", (key, "means", x["n"], n["l"]))


def mark(R, key, labels, stmts, arrays):
    encs = [leaf(l["c"])[1] for l in labels if l["k"] == "case" and leaf(l["c"]) and leaf(l["c"])[0] == "e"]
    encs = [(e, UNI.match(norm(e))) for e in encs]
    used, size = [], None
    for s in stmts:
        for x in live(s):
            if x.get("k") == "var" and x["id"] in arrays:
                used.append((x, arrays[x["id"]]))
            if x.get("k") == "bin" and x["op"] == "=" and const(x["b"]) is not None and uncast(x["a"])["k"] == "var" and uncast(x["a"])["t"].k in ("uint", "int"):
                size = const(x["b"])
    for x, (nm, b) in used:
        for e, m in encs:
            if m is None:
                R.bad("mark", "%s/%s" % (key, norm(e)), x, "%s has no byte order mark" % e)
                continue
            want = [s for s, (w, o) in BOMS.items() if w == WIDTH[m[2]] and (o == (m[3] or "LE") or w == "8")]
            if b not in want:
                R.bad("mark", "%s/%s" % (key, norm(e)), x, "%s is marked with %s" % (e, " ".join("%02x" % c for c in b)))
            elif size is not None and size != len(b):
                R.bad("mark", "%s/%s/size" % (key, norm(e)), x, "the byte order mark of %s is taken to have %d bytes" % (e, size))
            else:
                R.ok("mark", (key, e, b))


def live(s):
    """Nodes of a statement, without the branches a constant condition excludes."""
    if s.get("k") == "if" and const(s["c"]) is not None:
        b = s.get("th") if const(s["c"]) else s.get("el")
        if b is not None:
            yield from live(b)
        return
    if s.get("k") == "block":
        for x in s["s"]:
            yield from live(x)
        return
    yield from walk(s)


def genres(prog, R):
    lists = {}
    for q, gs in prog.gvars.items():
        for g in gs:
            if g.get("i") is not None:
                s = [n["v"] for n in walk(g["i"]) if n.get("k") == "str"]
                if len(s) >= 80 and norm(s[0]) == "BLUES":
                    lists[q] = (g, s)
    if not lists:
        raise AnalysisBroken("no table of genres found")
    for q, (g, s) in sorted(lists.items()):
        short = q.split("::")[-1]
        if len(s) != len(GENRES):
            R.bad("genre", "%s/size" % short, g, "%s has %d genres, not %d" % (q, len(s), len(GENRES)))
            continue
        for i, (x, y) in enumerate(zip(s, GENRES)):
            a, b = norm(x), norm(y)
            best = min(range(len(GENRES)), key=lambda j: (distance(a, norm(GENRES[j])), j != i))
            if best != i and not a.startswith(b):
                R.bad("genre", "%s/%d" % (short, i), g, "genre %d is %s rather than %s" % (i, x, y))
            else:
                R.ok("genre", (q, i))
    ls = sorted(lists.items())
    for (q1, (g1, s1)), (q2, (g2, s2)) in zip(ls, ls[1:]):
        for i, (x, y) in enumerate(zip(s1, s2)):
            if x.lower() != y.lower():
                R.bad("genre", "pair/%d" % i, g2, "genre %d is %s in %s and %s in %s" % (i, x, q1, y, q2))
            else:
                R.ok("genre", ("pair", i))
    # how many each generation has
    for f in prog.fns:
        if f.get("body") is None or not f["ps"] or enum_of(f["ps"][0]["t"]) != "scribbu::id3v1_genre_generation":
            continue
        for e in prog.enums["scribbu::id3v1_genre_generation"]["e"]:
            m = e["n"].split("::")[-1]
            want = {"standard": 80, "winamp": 142, "winamp_1_91": 148, "winamp_5_6": 192}.get(m)
            if want is None:
                continue
            F = Names(prog, f, f["ps"][0]["id"], ("e", "scribbu::id3v1_genre_generation::" + m))
            got = []

            def head(s, st, F=F, got=got):
                if s.get("k") == "for":
                    got.append(F.bound(s, st))
                return st
            F.bound = lambda s, st, F=F: F.val(uncast(s["c"])["b"], st) if s.get("c") is not None and uncast(s["c"])["k"] == "bin" else None
            F.loop_head = head
            F.run(f, ((), ()))
            vals = {v[1] for v in got if v is not None}
            if not got or any(v is None for v in got):
                continue
            if vals != {want}:
                R.bad("genre", "count/%s" % m, f, "%d genres are listed for %s, not %d" % (min(vals), m, want))
            else:
                R.ok("genre", ("count", m, f["u"]))
