"""C22: every attribute has one slot in Scheme, every frame symbol one identifier."""

import os
import re

import facts
import id3ids
from facts import AnalysisBroken
from flow import N
from program import const, fn_nodes, uncast, walk
from sym import SymFlow

TECHNIQUE = "dependence analysis of every slot written and read against the declared slots of the Scheme classes; path-sensitive constant propagation for flags; agreement of the symbol and registration tables"

ACC = {"tag_alter_preserve": {"tap"}, "file_alter_preserve": {"fap"}, "readonly": {"ro"}, "unsynchronised": {"unsync"},
       "id": {"id", "id-text"}, "description": {"dsc"}, "as_str": {"text"}, "email": {"e-mail", "owner"}, "begin": {"tags", "frames"},
       "end": {"tags", "frames"}, "contentsb": {"data"}, "write": {"data"}, "track_number": {"track-no"}, "cbegin": {"tags", "frames"}, "cend": {"tags", "frames"}}
PARM = {"own": {"owner", "e-mail"}, "owner": {"owner", "e-mail"}, "email": {"e-mail", "owner"}, "n": {"count"}, "count": {"count"}, "unsynch": {"unsync"},
        "unsync": {"unsync"}, "id": {"id", "id-text"}, "p0": {"tags", "data"}, "p1": {"tags", "data"}, "txt": {"text"}, "description": {"dsc"},
        "language": {"lang"}, "tag_alter_preserve": {"tap"}, "file_alter_preserve": {"fap"}, "read_only": {"ro"},
        "cbpad": {"padding"}, "cb_padding": {"padding"}, "padding": {"padding"}, "fexp": {"experimental"}, "experimental": {"experimental"}}
ENUM = {"tag_alter_preservation": "tap", "file_alter_preservation": "fap", "read_only": "ro"}
YES = {"preserve", "set"}
SCM_F, SCM_T = 0x4, 0x404


# -- the Scheme side ----------------------------------------------------------

def sexps(text):
    toks = re.findall(r'"(?:\\.|[^"\\])*"|;[^\n]*|#\\.|#vu8|[()\[\]\']|[^\s()\[\]\'";]+', text)
    pos = 0

    def read():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t in "([":
            out = []
            while pos < len(toks) and toks[pos] not in (")", "]"):
                if toks[pos].startswith(";"):
                    pos += 1
                    continue
                out.append(read())
            pos += 1
            return out
        if t == "'":
            return ["quote", read()]
        return t
    out = []
    while pos < len(toks):
        if toks[pos].startswith(";") or toks[pos] in (")", "]"):
            pos += 1
            continue
        out.append(read())
    return out


def scheme(root):
    """(class -> slot names, exported names, symbol -> documented identifiers)."""
    p = os.path.join(root, "scheme", "scribbu.scm")
    text = open(p, errors="replace").read()
    cls, exported = {}, set()
    for s in sexps(text):
        if not isinstance(s, list) or not s:
            continue
        if s[0] == "define-class":
            slots = []
            for b in s[2]:
                slots += cls.get(b, [])
            cls[s[1]] = slots + [x[0] if isinstance(x, list) else x for x in s[3:]]
        if s[0] == "define-module":
            for i, x in enumerate(s):
                if x in ("#:export", ":export"):
                    exported |= {y for y in s[i + 1] if isinstance(y, str)}
    doc = {}
    for m in re.finditer(r'\(make-symbol\s+"([^"]+)"\)[ \t]*;+[ \t]*([A-Z0-9]{3,4})(?:/([A-Z0-9]{4}))?', text):
        doc[m.group(1)] = {x for x in m.groups()[1:] if x}
    return cls, exported, doc


# -- the C++ side -------------------------------------------------------------

def slot(e):
    """(object, index) if e designates a slot of a Scheme object."""
    e = uncast(e)
    if e is None or e.get("k") != "idx" or const(e["b"]) is None:
        return None
    a = uncast(e["a"])
    if a["k"] != "un" or a["op"] != "&":
        return None
    b = uncast(a["e"])
    if b["k"] != "idx" or const(b["b"]) != 1 or "scm" not in b["t"].s:
        return None
    o = uncast(b["a"])
    while o is not None and o["k"] == "cond":
        o = uncast(o["b"])
    return o, const(e["b"])


def symbol_slots(f, e):
    """Slots the symbol comes from, directly or by way of a local variable."""
    s = slot(e)
    if s is not None:
        return {s[1]}
    e = uncast(e)
    out = set()
    if e is not None and e["k"] == "var" and not e.get("parm"):
        for n in fn_nodes(f):
            for v in n["d"] if n.get("k") == "decl" else ():
                if v["id"] == e["id"] and v.get("i") is not None and slot(v["i"]) is not None:
                    out.add(slot(v["i"])[1])
    return out


def enum_slot(t):
    s = t.s.replace("const ", "").rstrip(" &").split("::")[-1]
    return ENUM.get(s)


def literal(e):
    for x in walk(e):
        if x.get("k") == "str":
            return x["v"]
    return None


def root(e):
    e = uncast(e)
    while e is not None:
        if e["k"] == "var":
            return e
        if e["k"] == "mem":
            e = uncast(e["b"])
        elif e["k"] == "idx":
            e = uncast(e["a"])
        elif e["k"] == "un" and e["op"] in ("*", "&"):
            e = uncast(e["e"])
        elif e["k"] == "call" and e.get("obj") is not None:
            e = uncast(e["obj"])
        elif e["k"] == "call" and e.get("a"):
            e = uncast(e["a"][0])
        else:
            return None
    return None


class Deps:
    """What the locals of a function are computed from."""

    def __init__(self, prog, f, sites):
        self.prog, self.f, self.sites = prog, f, sites
        self.defs = {}          # variable -> [expression or ready item]
        self.writes = []        # (object, index, value, node)
        self.params = {p["id"]: i for i, p in enumerate(f["ps"])}
        self.memo = {}
        if f.get("body"):
            self.stmt(f["body"], ())

    def add(self, v, *es):
        if v is not None and not v.get("g"):
            self.defs.setdefault(v["id"], []).extend(es)

    def stmt(self, s, ctrl):
        if s is None:
            return
        k = s.get("k")
        if k == "block":
            for x in s["s"]:
                self.stmt(x, ctrl)
        elif k == "decl":
            for d in s["d"]:
                if d.get("i") is not None:
                    self.defs.setdefault(d["id"], []).append(d["i"])
                    self.expr(d["i"], ctrl)
        elif k == "if":
            self.expr(s["c"], ctrl)
            self.stmt(s["th"], ctrl + (s["c"],))
            self.stmt(s.get("el"), ctrl + (s["c"],))
        elif k == "rfor":
            v = s.get("v")
            if v is not None:
                r = root(s["r"])
                self.defs.setdefault(v["id"], []).append(s["r"])
                if r is not None and uncast(s["r"])["k"] == "var" and r["id"] in self.params:
                    self.defs[v["id"]].append(("acc", "begin"))
            self.stmt(s["s"], ctrl)
        elif k in ("while", "do", "for"):
            self.stmt(s.get("init"), ctrl)
            self.expr(s.get("c"), ctrl)
            self.expr(s.get("inc"), ctrl)
            self.stmt(s.get("s"), ctrl)
        elif k == "try":
            self.stmt(s["s"], ctrl)
            for h in s.get("h", ()):
                self.stmt(h.get("s"), ctrl)
        elif k in ("return",):
            self.expr(s.get("e"), ctrl)
        elif k in ("case", "default", "label", "switch"):
            self.stmt(s.get("s"), ctrl)
        else:
            self.expr(s, ctrl)

    def expr(self, e, ctrl):
        if e is None:
            return
        for n in self.local(e):
            k = n.get("k")
            if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                w = slot(n["a"])
                if w is not None:
                    self.writes.append((w[0], w[1], n["b"], n))
                else:
                    self.add(root(n["a"]), n["b"], *ctrl)
            elif k == "call":
                a, op, nm = n.get("a") or [], n.get("op"), (n.get("f") or "").split("::")[-1]
                if op == "=" and a:
                    t = uncast(a[0])
                    if t["k"] == "call" and (t.get("f") or "") == "std::tie":
                        src = uncast(a[1])
                        for i, x in enumerate(t["a"]):
                            self.add(root(x), ("element", i, src), *ctrl)
                    else:
                        self.add(root(a[0]), a[1], *ctrl)
                elif op == ">>" and len(a) == 2:
                    self.add(root(a[1]), a[0], *ctrl)
                elif op == "<<" and len(a) == 2:
                    self.add(root(a[0]), a[1], *ctrl)
                elif nm in ("memcpy", "memmove", "strcpy", "copy") and a:
                    d = a[-1] if nm == "copy" else a[0]
                    self.add(root(d), *[x for x in a if x is not d])
                elif not op:
                    for x in a:
                        y = uncast(x)
                        if y is not None and y["k"] == "call" and (y.get("f") or "").split("::")[-1] in ("back_inserter", "inserter", "ref") and y.get("a"):
                            self.add(root(y["a"][0]), *([z for z in a if z is not x] + ([n] if n.get("obj") is not None else [])))
                        elif y is not None and y["k"] == "un" and y["op"] == "&":
                            self.add(root(y), *[z for z in a if z is not x])
                        elif y is not None and y["k"] == "var" and self.source(n.get("obj")) and "scm_" not in y["vt"].s and y["vt"].k not in ("bool", "int", "uint"):
                            self.add(y, n)
                    if n.get("obj") is not None and not n.get("const") and nm in ("push_back", "insert", "emplace_back", "emplace", "append", "assign"):
                        self.add(root(n["obj"]), *list(a) + list(ctrl))

    def local(self, e):
        """e and what is below it, but not the bodies of lambdas."""
        if not isinstance(e, dict):
            return
        yield e
        if e.get("k") == "lambda":
            return
        from program import children
        for c in children(e):
            if c is not None:
                yield from self.local(c)

    def source(self, o):
        """The tag or frame the function reads."""
        o = uncast(o) if o is not None else None
        while o is not None and (o["k"] == "call" and o.get("op") in ("*", "->") or o["k"] == "un" and o["op"] == "*"):
            o = uncast(o["a"][0] if o["k"] == "call" else o["e"])
        if o is None or o["k"] != "var" or o.get("g"):
            return False
        s = o["vt"].s
        return "scribbu::" in s and "dynwind" not in s and "dispatcher" not in s and "frame_id" not in s

    def of(self, e, seen=frozenset()):
        out = set()
        if isinstance(e, tuple):
            if e[0] == "element":
                return self.element(e, seen)
            return {e}
        if e is None:
            return out
        w = slot(e)
        if w is not None:
            return {("slot", w[1])}
        k = e.get("k")
        if k == "lambda":
            return out
        if k == "str":
            if re.fullmatch(r"<[\w-]+>", e["v"]):
                out.add(("lit", e["v"]))
            return out
        if k == "var":
            t = enum_slot(e["vt"])
            if t:
                out.add(("type", t))
            if e.get("g"):
                out.add(("sym", e["n"]))
            elif e["id"] not in seen:
                if e["id"] in self.params:
                    out.add(("parm", self.params[e["id"]]))
                for d in self.defs.get(e["id"], ()):
                    out |= self.of(d, seen | {e["id"]})
            return out
        if k == "call" and n_source(self, e):
            out.add(("acc", (e.get("f") or "").split("::")[-1]))
            return out
        from program import children
        for c in children(e):
            if c is not None and c.get("k") != "decl":
                out |= self.of(c, seen)
        return out

    def element(self, e, seen):
        """One element of the tuple a function returns."""
        _, i, src = e
        out = set()
        src = uncast(src)
        tg = self.prog.targets(src) if src["k"] == "call" else None
        done = False
        for g in tg or ():
            if g.get("body") is None or g.get("cls"):
                continue
            d = deps(self.prog, g, self.sites)
            for n in fn_nodes(g):
                if n.get("k") == "return":
                    for m in walk(n):
                        if m.get("k") == "call" and (m.get("f") or "") == "std::make_tuple" and i < len(m["a"]):
                            done = True
                            for x in d.of(m["a"][i]):
                                if x[0] == "parm":
                                    if x[1] < len(src["a"]):
                                        out |= {y for y in self.of(src["a"][x[1]], seen) if y[0] not in ("parm", "lit")}
                                else:
                                    out.add(x)
        return out if done else self.of(src, seen)


def n_source(d, e):
    return e.get("obj") is not None and d.source(e["obj"])


def deps(prog, f, sites):
    if "_c22" not in f:
        f["_c22"] = Deps(prog, f, sites)
    return f["_c22"]


def through(prog, f, items, sites, depth=0):
    """Items with parameters replaced by what callers hand in."""
    out = set()
    for x in items:
        if x[0] != "parm" or depth > 3:
            out.add(x)
            continue
        for g, n in sites.get(f["u"], ()):
            if x[1] < len(n.get("a") or ()):
                out |= through(prog, g, deps(prog, g, sites).of(n["a"][x[1]]), sites, depth + 1)
    return out


def classes_of(prog, f, e, sites):
    return {x[1] for x in through(prog, f, deps(prog, f, sites).of(e), sites) if x[0] == "lit"}


# -- flags --------------------------------------------------------------------

class Hyp(SymFlow):
    """Constants under an assumption on one slot or one attribute."""

    def __init__(self, prog, slot_is=None, attr_is=None):
        SymFlow.__init__(self, prog)
        self.slot_is = slot_is or {}
        self.attr_is = attr_is or {}
        self.ends = []
        self.sets = {}

    def term(self, e, st):
        if e is not None:
            w = slot(e)
            if w is not None:
                return ("c", self.slot_is[w[1]]) if w[1] in self.slot_is else ("slot", w[1])
            k = e.get("k")
            if k == "call" and e.get("obj") is not None and not e.get("op"):
                a = ACC.get((e.get("f") or "").split("::")[-1], set()) | {(e.get("f") or "").split("::")[-1]}
                for s in a:
                    if s in self.attr_is:
                        return ("c", self.attr_is[s])
            if k == "var" and e.get("parm"):
                s = enum_slot(e["vt"]) or (e["n"] if e["vt"].k == "bool" else None)
                if s in self.attr_is:
                    return ("c", self.attr_is[s])
            if k == "cond":
                t = self.term(e["c"], st)
                if t[0] == "c":
                    return self.term(e["a"] if t[1] else e["b"], st)
            if k == "call" and (e.get("f") or "").split("::")[-1] in ("scm_from_bool",) and e.get("a"):
                t = self.term(e["a"][0], st)
                if t[0] == "c":
                    return ("c", SCM_T if t[1] else SCM_F)
        return SymFlow.term(self, e, st)

    def node(self, n, st):
        if n["k"] == "bin" and n["op"] == "=":
            w = slot(n["a"])
            if w is not None:
                self.sets.setdefault(w[1], []).append((self.term(n["b"], st), n))
        yield from SymFlow.node(self, n, st)

    def ret(self, n, st):
        if len(self.stack) <= 1:
            self.ends.append(st)
        return SymFlow.ret(self, n, st)


def enumerators(prog, t):
    """{value: is it the affirmative one} of an enumeration of a frame flag."""
    s = t.s.replace("const ", "").rstrip(" &")
    for q, e in prog.enums.items():
        if q == s or q.endswith("::" + s.split("::")[-1]) and s.split("::")[-1] in ENUM:
            return {c["v"]: c["n"].split("::")[-1] in YES for c in e["e"]}
    return None


# -- tables -------------------------------------------------------------------

class Tables:
    def __init__(self, prog):
        self.sym = {}           # global -> symbol text
        self.fwd = {}           # table -> {identifier: symbol text}
        self.rev = {}           # table -> {symbol text: identifier}
        self.prog = prog
        self.dup = []

    def ident(self, e, env):
        e = uncast(e)
        if e["k"] == "var":
            if e["id"] in env:
                return self.ident(env[e["id"]], {})
            if e.get("g"):
                for v in self.prog.gvars.get(e.get("q"), ()):
                    if v.get("i") is not None:
                        return literal(v["i"])
        return literal(e)

    def symbol(self, e, env):
        e = uncast(e)
        if e["k"] == "var":
            if e["id"] in env:
                return self.symbol(env[e["id"]], {})
            return self.sym.get(e.get("n")) if e.get("g") else None
        if e["k"] == "bin" and e["op"] == "=":
            return self.symbol(e["b"], env)
        if e["k"] == "call":
            for a in e.get("a") or ():
                s = self.text(a, env)
                if s is not None:
                    return s
        return None

    def text(self, e, env):
        for x in walk(e):
            if x.get("k") == "str":
                return x["v"]
            if x.get("k") == "var" and x["id"] in env:
                return self.text(env[x["id"]], {})
        return None

    def run(self, s, env=None, depth=0):
        env = env or {}
        for n in walk(s):
            k = n.get("k")
            if k == "decl":
                for d in n["d"]:
                    if d.get("i") is not None:
                        env[d["id"]] = d["i"]
            lhs = rhs = None
            if k == "bin" and n["op"] == "=":
                lhs, rhs = uncast(n["a"]), n["b"]
            elif k == "call" and n.get("op") == "=" and len(n.get("a") or ()) == 2:
                lhs, rhs = uncast(n["a"][0]), n["a"][1]
            elif k == "call" and (n.get("f") or "").split("::")[-1] in ("emplace", "insert_or_assign", "try_emplace") and n.get("obj") is not None and len(n["a"]) == 2:
                self.entry(uncast(n["obj"]), n["a"][0], n["a"][1], env, n)
                continue
            elif k == "call" and depth < 3 and not n.get("op"):
                for g in self.prog.targets(n) or ():
                    if g.get("body") is not None and g["l"][0] == self.file and not g.get("cls"):
                        b = dict(env)
                        for p, a in zip(g["ps"], n["a"]):
                            a = uncast(a)
                            b[p["id"]] = env.get(a["id"], a) if a["k"] == "var" and not a.get("g") else a
                        self.alias = dict(getattr(self, "alias", {}), **{p["id"]: uncast(a)["n"] for p, a in zip(g["ps"], n["a"]) if uncast(a)["k"] == "var" and uncast(a).get("g")})
                        self.run(g["body"], b, depth + 1)
                continue
            if lhs is None:
                continue
            if lhs["k"] == "var" and "scm_" in lhs["vt"].s:
                nm = lhs["n"] if lhs.get("g") else getattr(self, "alias", {}).get(lhs["id"])
                s2 = self.symbol(rhs, env)
                if nm and s2 and not s2.startswith("<"):
                    self.sym[nm] = s2
            elif lhs["k"] == "call" and lhs.get("op") == "[]" or lhs["k"] == "idx":
                a = lhs["a"] if lhs["k"] == "call" else [lhs["a"], lhs["b"]]
                self.entry(uncast(a[0]), a[1], rhs, env, n)

    def entry(self, table, key, val, env, n):
        if table["k"] == "var" and table["id"] in env:
            table = uncast(env[table["id"]])
        if table["k"] != "var":
            return
        if "frame_id" in key_type(table):
            i, s = self.ident(key, env), self.symbol(val, env)
            if i and s:
                self.fwd.setdefault(table["n"], {}).setdefault(i, []).append((s, n))
        elif "frame_id" in table["vt"].s:
            i, s = self.ident(val, env), self.text(key, env)
            if i and s:
                self.rev.setdefault(table["n"], {}).setdefault(s, []).append((i, n))


def key_type(v):
    m = re.search(r"map<\s*([^,]+),", v["vt"].s)
    return m.group(1) if m else ""


# -- the check ----------------------------------------------------------------

def short(f):
    return f["fn"].split("scribbu::")[-1]


def check(prog, R):
    R.rule("written", "every slot of a Scheme object is given the attribute the Scheme class declares it for", 40)
    R.rule("complete", "what makes a Scheme object sets every slot its class declares and its version has", 40)
    R.rule("read", "every attribute of a frame or tag made from a Scheme object is taken from the slot declared for it", 40)
    R.rule("flag", "flags keep their meaning both ways: true for preserve, read-only and set", 10)
    R.rule("symbol", "each frame symbol stands for the same identifier both ways, the one documented for it", 60)
    R.rule("register", "what is registered for an identifier (or symbol) makes the class and symbol belonging to it", 80)
    R.rule("exported", "every Scheme class that is looked up by name is exported by the module", 6)
    R.rule("element", "lists are indexed with Scheme integers", 4)
    root_dir = os.environ.get("SCRIBBU_REPO", "/repo")
    cls, exported, doc = scheme(root_dir)
    if len(cls) < 5:
        raise AnalysisBroken("no classes found in scheme/scribbu.scm")
    lib = [f for f in prog.fns if f.get("body") is not None and re.search(r"scribbu/scheme[\w-]*\.(cc|hh)$", f["l"][0])]
    if not lib:
        raise AnalysisBroken("no Scheme bindings found")
    sites = {}
    for f in lib:
        for n in fn_nodes(f):
            if n.get("k") == "call":
                for g in prog.targets(n) or ():
                    sites.setdefault(g["u"], []).append((f, n))
    allslots = {s for c in cls.values() for s in c}

    def acc_slots(a):
        if a in ACC:
            return ACC[a]
        s = a.replace("_", "-")
        return {s} if s in allslots else set()

    makes = {}          # function -> Scheme classes it makes
    symof = {}          # function -> symbols it gives
    for f in lib:
        d = deps(prog, f, sites)
        for o, i, v, n in d.writes:
            cs = classes_of(prog, f, o, sites)
            names = {cls[c][i] if i < len(cls[c]) else None for c in cs if c in cls}
            if not names:
                continue
            key = "%s/%d" % (short(f), i)
            if None in names or len(names) > 1:
                R.bad("written", key, n, "%s sets slot %d, which %s" % (f["fn"], i, "does not exist in every one of " + ", ".join(sorted(cs)) if None in names else "means different things in " + ", ".join(sorted(cs))))
                continue
            name = names.pop()
            it = through(prog, f, d.of(v), sites)
            wrong = sorted(x[1] for x in it if x[0] == "acc" and acc_slots(x[1]) and name not in acc_slots(x[1]))
            wrong += sorted(x[1] for x in it if x[0] == "type" and x[1] != name)
            right = [x for x in it if x[0] == "acc" and name in acc_slots(x[1]) or x == ("type", name) or x[0] == "sym" and name == "id"]
            if wrong:
                R.bad("written", key, n, "%s puts %s in slot %d of %s, which is declared for %s" % (f["fn"], ", ".join(wrong), i, ", ".join(sorted(cs)), name))
            elif right:
                R.ok("written", (key, name))
        for n in fn_nodes(f):
            if n.get("k") == "call" and (n.get("f") or "").split("::")[-1] == "scm_symbol_to_string":
                for i in symbol_slots(f, n["a"][0]):
                    names = {cls[c][i] if i < len(cls[c]) else None for c in cls if c.endswith("-frame>")}
                    if names == {"id"}:
                        R.ok("read", ("%s/symbol" % short(f), "id"))
                    else:
                        R.bad("read", "%s/symbol" % short(f), n, "%s takes the symbol of a frame from slot %d, which is declared for %s" % (f["fn"], i, ", ".join(sorted(str(x) for x in names))))
            if n.get("k") == "call" and (n.get("f") or "").split("::")[-1] == "scm_list_ref" and len(n["a"]) == 2:
                key = "%s/%s" % (short(f), (n.get("f") or ""))
                a = uncast(n["a"][1])
                if a["k"] in ("int", "null") or const(a) == 0:
                    R.bad("element", key, n, "%s indexes a list with a bare integer, which is not a Scheme object" % f["fn"])
                else:
                    R.ok("element", (key, n["l"]))
    # everything there is a slot for is handed over
    for f in lib:
        d = deps(prog, f, sites)
        if not d.writes or f["fn"].split("::")[-1] == "init_frame":
            continue
        for o in {root(w[0])["id"] for w in d.writes if root(w[0]) is not None}:
            ws = [w for w in d.writes if root(w[0]) is not None and root(w[0])["id"] == o]
            cs = classes_of(prog, f, ws[0][0], sites) & set(cls)
            if len(cs) != 1:
                continue
            c = next(iter(cs))
            have = {w[1] for w in ws} | helper_slots(prog, f, o, sites)
            need = set(range(len(cls[c])))
            if "<id3v2-frame>" in cls and cls[c][:5] == cls["<id3v2-frame>"]:
                src = [p["t"].s.replace("const ", "").rstrip(" &*") for p in f["ps"]]
                meths = {m["fn"].split("::")[-1] for x in src for b in [x] + list(prog.bases(x)) for m in prog.methods(b)}
                need -= {i for i, a in ((1, "tag_alter_preserve"), (2, "file_alter_preserve"), (3, "readonly"), (4, "unsynchronised")) if a not in meths}
            for i in sorted(need):
                key = "%s/%s" % (short(f), cls[c][i])
                if i in have:
                    R.ok("complete", key)
                else:
                    R.bad("complete", key, f, "%s leaves the slot for %s of %s unset" % (f["fn"], cls[c][i], c))
    # reading
    for f in lib:
        d = deps(prog, f, sites)
        reads = {}
        for n in fn_nodes(f):
            w = slot(n) if n.get("k") == "idx" else None
            if w is not None and not any(w2 is n or uncast(n2["a"]) is n for _, _, w2, n2 in d.writes):
                reads.setdefault(w[1], n)
        sinks = []
        for n in fn_nodes(f):
            if n.get("k") == "ctor" and n["cls"].startswith("scribbu::") and ("frame" in n["cls"] or any("frame" in b for b in prog.bases(n["cls"])) or n["cls"].endswith("_tag")) \
                    and not n.get("copy") and not n.get("move") and "frame_id" not in n["cls"]:
                for g in prog.targets(n) or ():
                    for p, a in zip(g["ps"], n["a"]):
                        sinks.append((n["cls"].split("::")[-1], p["n"] or "", p["t"], a, n))
            elif n.get("k") == "call" and n.get("obj") is not None and (n.get("f") or "").split("::")[-1].startswith("set_") and "scribbu::" in (n.get("f") or ""):
                if n["a"]:
                    sinks.append((n["f"].split("::")[-2], n["f"].split("::")[-1][4:], None, n["a"][0], n))
        if not reads or not sinks:
            continue
        cs = set()
        for n in fn_nodes(f):
            if n.get("k") == "call":
                ls = {x["v"] for a in n.get("a") or () for x in walk(a) if x.get("k") == "str" and x["v"] in cls}
                if ls and any(uncast(a)["k"] in ("var", "cond", "bin") or "scm_" in a["t"].s for a in n["a"]):
                    cs |= ls
        if not cs and any(s[0].startswith("unknown") for s in sinks):
            cs = {"<unk-frame>"} & set(cls)
        base = {"<id3v2-frame>"} if len(cs) > 1 else set()
        cs = {c for c in cs - base}
        for c, pn, pt, a, n in sinks:
            it = {x for x in d.of(a)}
            want = PARM.get(pn) or acc_slots(pn)
            t = enum_slot(pt) if pt is not None else None
            if t:
                want = {t}
            sl = {x[1] for x in it if x[0] == "slot"}
            key = "%s/%s" % (short(f), pn)
            names = {cls[x][i] if i < len(cls[x]) else "nothing" for i in sl for x in cs}
            if not want or not cs:
                continue
            bad = names - want
            if sl and bad:
                R.bad("read", key, n, "%s takes %s of %s from slot %s, which is declared for %s" % (f["fn"], pn, c, ", ".join(map(str, sorted(sl))), ", ".join(sorted(bad))))
            elif not sl and want & {x for y in cs for x in cls[y]} and "id" not in want:
                R.bad("read", key, n, "%s does not take %s of %s from the slot declared for it" % (f["fn"], pn, c))
            elif sl:
                R.ok("read", (key, sorted(names)[0]))
    # flags
    for f in lib:
        d = deps(prog, f, sites)
        frame_slots = cls.get("<id3v2-frame>", [])
        rd = set()
        for n in fn_nodes(f):
            if n.get("k") == "idx":
                w = slot(n)
                if w is not None and not any(uncast(n2["a"]) is n for _, _, _, n2 in d.writes):
                    rd.add(w[1])
        locs = {v["id"]: v for n in fn_nodes(f) if n.get("k") == "decl" for v in n["d"]}
        taken = set()
        for i in sorted(rd):
            name = frame_slots[i] if i < len(frame_slots) else None
            if name not in ("tap", "fap", "ro", "unsync") or f["l"][0].endswith("scheme.cc"):
                continue
            got = {}
            for v in (SCM_T, SCM_F):
                h = Hyp(prog, slot_is={i: v})
                h.run(f, h.start(f))
                got[v] = h.ends
            key = "%s/%s" % (short(f), name)
            verdict, n_seen = None, 0
            for vid, v in locs.items():
                t = enum_slot(v["t"])
                if t is None and v["t"].k != "bool" or t is not None and t != name or t is None and name != "unsync":
                    continue
                vals = {h: {st.get(vid) for st in got[h]} for h in got}
                if any(len(x) != 1 or None in x or next(iter(x))[0] != "c" for x in vals.values()):
                    continue
                a, b = next(iter(vals[SCM_T]))[1], next(iter(vals[SCM_F]))[1]
                if t is not None:
                    en = enumerators(prog, v["t"])
                    if en is None:
                        continue
                    a, b = en.get(a), en.get(b)
                n_seen += 1
                if not (bool(a) and not b):
                    verdict = (v["n"], a, b)
            if verdict:
                R.bad("flag", key, f, "%s makes %s of slot %d %s" % (f["fn"], verdict[0], i, "the wrong way round" if verdict[2] and not verdict[1] else "the same whether the slot holds true or false"))
            elif n_seen:
                R.ok("flag", key)
        for o, i, v, n in d.writes:
            name = None
            cs = classes_of(prog, f, o, sites)
            names = {cls[c][i] for c in cs if c in cls and i < len(cls[c])}
            if len(names) != 1:
                continue
            name = names.pop()
            if name not in ("tap", "fap", "ro", "unsync", "experimental"):
                continue
            en = None
            for x in fn_nodes(f):
                if x.get("k") in ("call", "var") and x.get("t") is not None and enum_slot(x["t"]) == name:
                    en = enumerators(prog, x["t"])
                    break
            if en is None:
                en = {1: True, 0: False}
            out = {}
            for val, yes in en.items():
                h = Hyp(prog, attr_is={name: val})
                h.run(f, h.start(f))
                out[yes] = {t for t, m in h.sets.get(i, ()) if m is n}
            want = {True: {("c", SCM_T)}, False: {("c", SCM_F)}}
            key = "%s/%s" % (short(f), name)
            for yes in (True, False):
                if any(t[0] == "c" and t not in want[yes] for t in out.get(yes, ())):
                    R.bad("flag", key, n, "%s sets the slot for %s to %s when the flag is %s" % (f["fn"], name, "false" if yes else "true", "set" if yes else "clear"))
                    break
            else:
                if all(out.get(y) and all(t[0] == "c" for t in out[y]) for y in (True, False)):
                    R.ok("flag", key)
    # tables
    T = Tables(prog)
    inits = [f for f in lib if any(n.get("k") == "call" and n.get("op") == "[]" and "frame_id" in n["a"][0]["t"].s for n in fn_nodes(f))
             and sum(1 for n in fn_nodes(f) if n.get("k") == "str") > 20]
    for f in inits:
        T.file = f["l"][0]
        T.run(f["body"])
    if not T.fwd or not T.rev:
        raise AnalysisBroken("no symbol tables found")
    fwd, rev = {}, {}
    for tb in T.fwd.values():
        for i, ss in tb.items():
            names = {s for s, _ in ss}
            if len(names) > 1:
                R.bad("symbol", "twice/" + i, ss[-1][1], "the identifier %s is given the symbols %s" % (i, ", ".join(sorted(names))))
            fwd[i] = ss[-1]
    for tb in T.rev.values():
        for s, ii in tb.items():
            names = {i for i, _ in ii}
            if len(names) > 1:
                R.bad("symbol", "twice/" + s, ii[-1][1], "the symbol %s is given the identifiers %s" % (s, ", ".join(sorted(names))))
            rev.setdefault(s, {})[len(ii[-1][0])] = ii[-1]
    for i, (s, n) in sorted(fwd.items()):
        back = rev.get(s, {}).get(len(i))
        std = id3ids.ids(s[:-6] if s.endswith("-frame") else s)
        if back is None:
            R.bad("symbol", "forward/" + i, n, "%s is read as %s but %s is not written as anything of that version" % (i, s, s))
        elif back[0] != i:
            R.bad("symbol", "forward/" + i, n, "%s is read as %s but %s is written as %s" % (i, s, s, back[0]))
        elif s in doc and i not in doc[s]:
            R.bad("symbol", "documented/" + s, n, "%s stands for %s but is documented to stand for %s" % (s, i, "/".join(sorted(doc[s], key=len))))
        elif std and i not in std:
            R.bad("symbol", "standard/" + s, n, "%s stands for %s, which is another field" % (s, i))
        else:
            R.ok("symbol", i)
    for s, m in sorted(rev.items()):
        for i, n in m.values():
            if i not in fwd:
                R.bad("symbol", "backward/" + s, n, "%s is written as %s, which is not read as any symbol" % (s, i))
    # registration
    byname = {}
    for f in lib:
        byname.setdefault(f["fn"].split("::")[-1], []).append(f)
    de, ser = {}, {}
    for f in lib:
        for n in fn_nodes(f):
            if n.get("k") != "call" or not re.match(r"reg_(de|ser)_2_[234]$", (n.get("f") or "").split("::")[-1]) or not n.get("a"):
                continue
            nm = n["f"].split("::")[-1]
            ver = nm[-1]
            what = literal(n["a"][0])
            if what is None:
                continue
            if "_de_" in nm:
                h = [g for x in re.findall(r"@F@(\w+)#", n["fu"]) for g in byname.get(x, ()) if x != nm]
                de.setdefault(ver, {})[what] = (h[0] if h else None, n)
            else:
                h = [prog.by_usr.get(x["fu"]) for x in walk(n["a"][1]) if x.get("k") == "fn"]
                h = [(x[0] if isinstance(x, list) else x) for x in h if x]
                ser.setdefault(ver, {})[what] = (h[0] if h else None, n)
    fixed = class_ids(prog)
    for ver, m in sorted(de.items()):
        w = 3 if ver == "2" else 4
        for i, (h, n) in sorted(m.items()):
            key = "2.%s/%s" % (ver, i)
            if len(i) != w or i not in fwd:
                R.bad("register", key, n, "a reader is registered for %s, for which there is no symbol" % i)
                continue
            s = fwd[i][0]
            if s not in ser.get(ver, {}):
                R.bad("register", key, n, "%s is read as %s in ID3v2.%s tags but nothing writes %s" % (i, s, ver, s))
                continue
            if h is not None:
                ss = given(prog, h, sites, T)
                if ss and s not in ss:
                    R.bad("register", key, n, "frames %s are given the symbol %s rather than %s" % (i, ", ".join(sorted(ss)), s))
                    continue
                fc = h["ps"][0]["t"].s.replace("const ", "").rstrip(" &").split("::")[-1] if h["ps"] else ""
                if fc in fixed and i not in fixed[fc]:
                    R.bad("register", key, n, "%s reads %s frames but is registered for %s" % (h["fn"], fc, i))
                    continue
                # the counterpart makes the same class
                g = ser[ver][s][0]
                made = frame_classes(prog, g) if g is not None else set()
                if made and fc and fc not in made:
                    R.bad("register", key, n, "%s reads %s but what is registered for %s writes %s" % (h["fn"], fc, s, ", ".join(sorted(made))))
                    continue
            R.ok("register", key)
    for f in lib:
        fc = f["ps"][0]["t"].s.replace("const ", "").rstrip(" &").split("::")[-1] if f["ps"] else ""
        if fc in fixed and f["rt"] is not None and "scm_" in f["rt"].s:
            for s in sorted(given(prog, f, sites, T)):
                ids = {i[0] for i in rev.get(s, {}).values()}
                if ids & fixed[fc]:
                    R.ok("register", short(f))
                else:
                    R.bad("register", short(f), f, "%s gives %s frames the symbol %s" % (f["fn"], fc, s))
    for ver, m in sorted(ser.items()):
        w = 3 if ver == "2" else 4
        for s, (h, n) in sorted(m.items()):
            key = "2.%s/%s" % (ver, s)
            i = rev.get(s, {}).get(w)
            if i is None:
                R.bad("register", key, n, "a writer is registered for %s, which stands for nothing in ID3v2.%s" % (s, ver))
                continue
            if i[0] not in de.get(ver, {}):
                R.bad("register", key, n, "%s is written as %s in ID3v2.%s tags but nothing reads %s" % (s, i[0], ver, i[0]))
                continue
            made = frame_classes(prog, h) if h is not None else set()
            for c in made:
                if c in fixed and i[0] not in fixed[c]:
                    R.bad("register", key, n, "%s is written as a %s frame rather than %s" % (s, c, i[0]))
                    break
            else:
                R.ok("register", key)
    # classes looked up
    live = {id(h) for m in list(de.values()) + list(ser.values()) for h, _ in m.values() if h is not None}
    for f in lib:
        regd = id(f) in live or not re.match(r"(de|ser)_\w+_2_[234]$", f["fn"].split("::")[-1])
        for n in fn_nodes(f):
            if n.get("k") == "call" and regd:
                for a in n.get("a") or ():
                    a = uncast(a)
                    v = a["v"] if a["k"] == "str" else literal(a) if a["k"] == "ctor" else None
                    if v and re.fullmatch(r"<[\w-]+>", v):
                        if v in exported:
                            R.ok("exported", (short(f), v))
                        else:
                            R.bad("exported", "%s/%s" % (short(f), v), n, "%s looks up the class %s, which the module does not export" % (f["fn"], v))


def helper_slots(prog, f, vid, sites, depth=0):
    """Slots set by the functions a local Scheme object comes from."""
    out = set()
    for n in fn_nodes(f):
        for v in n["d"] if n.get("k") == "decl" else ():
            if v["id"] == vid and v.get("i") is not None and depth < 4:
                c = uncast(v["i"])
                for g in (prog.targets(c) or ()) if c["k"] == "call" else ():
                    if g.get("body") is None:
                        continue
                    d = deps(prog, g, sites)
                    for w in d.writes:
                        r = root(w[0])
                        if r is not None:
                            out.add(w[1])
                            out |= helper_slots(prog, g, r["id"], sites, depth + 1)
    return out


def given(prog, h, sites, T):
    """Symbols a reader gives the frames it makes."""
    out = set()
    d = deps(prog, h, sites)
    for n in fn_nodes(h):
        if n.get("k") == "var" and n.get("g") and n["n"] in T.sym:
            out.add(T.sym[n["n"]])
    return out


def frame_classes(prog, h):
    return {n["cls"].split("::")[-1] for n in fn_nodes(h) if n.get("k") == "ctor" and n["cls"].startswith("scribbu::")
            and any(b.endswith("_frame") for b in prog.bases(n["cls"])) and "frame_id" not in n["cls"]}


def class_ids(prog):
    """Frame class -> identifiers its constructors hard-wire."""
    out = {}
    for f in prog.fns:
        if not f.get("ctor") or not (f.get("cls") or "").startswith("scribbu::") or f.get("cpc") or f.get("mvc"):
            continue
        for i in f.get("inits") or ():
            if i.get("base") and i.get("e") is not None and "frame" in str(i["base"]):
                for x in walk(i["e"]):
                    if x.get("k") == "str" and re.fullmatch(r"[A-Z0-9]{3,4}", x["v"]):
                        out.setdefault(f["cls"].split("::")[-1], set()).add(x["v"])
    return out
