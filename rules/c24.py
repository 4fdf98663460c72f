"""C24: every command-line option does what it is declared to do."""

import re

from effect import Effect, parents
from facts import AnalysisBroken
from flow import Flow, N, THR, ANY
from program import fn_nodes, uncast, walk, where

TECHNIQUE = "agreement of declared, mapped and consulted options, forward influence of each option's value, and must-analysis of presence over the type-checked program"

PO = "boost::program_options::"


def text_of(prog, e):
    """The literal text of an option name."""
    strs = [n["v"] for n in walk(e) if n.get("k") == "str"]
    if len(strs) == 1:
        return strs[0]
    if not strs:
        for n in walk(e):
            if n.get("k") == "var" and n.get("g"):
                g = prog.gvars.get(n.get("q") or n["n"])
                if g is not None and g.get("i") is not None:
                    v = [x["v"] for x in walk(g["i"]) if x.get("k") == "str"]
                    if len(v) == 1:
                        return v[0]
    return None


def root(e):
    """The variable a chain of method calls starts from."""
    while e is not None:
        e = uncast(e)
        if e["k"] == "call":
            if e.get("obj") is not None:
                e = e["obj"]
                continue
            if e.get("op") and e.get("a"):
                e = e["a"][0]
                continue
            return e
        if e["k"] == "ctor" and e.get("a"):
            e = e["a"][0]
            continue
        if e["k"] == "un" and e["op"] in ("*", "&"):
            e = e["e"]
            continue
        return e
    return None


def shown(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return None if t is None else t.s.replace("const ", "").strip()


class Opt:
    def __init__(self, name, letter, node):
        self.name, self.letter, self.node = name, letter, node
        self.type = None
        self.default = self.required = self.switch = False


FRAME = re.compile(r"\b[TW][A-Z0-9]{3}\b")


def spec(prog, n):
    """One (name, semantics, description) declaration."""
    args = n["a"][1:] if n.get("op") else n["a"]
    t = text_of(prog, args[0])
    if t is None:
        raise AnalysisBroken("%s: the name of this option is not literal" % where(n))
    name, _, letter = t.partition(",")
    o = Opt(name, letter, n)
    o.frames = {m.lower() for a in args[1:] for x in walk(a) if x.get("k") == "str" for m in FRAME.findall(x["v"])}
    for a in args[1:]:
        for x in walk(a):
            if x.get("k") != "call":
                continue
            f = x.get("f") or ""
            if f == PO + "value":
                ty = x["t"]
                ty = ty.to if ty.k == "ptr" else ty
                o.type = shown(ty.targs[0]) if ty.targs else None
            elif f == PO + "bool_switch":
                o.type, o.switch = "bool", True
            elif f.startswith(PO + "typed_value"):
                m = f.split("::")[-1]
                o.default |= m in ("default_value",)
                o.required |= m == "required"
    return o


def declared(prog, f, vid, seen=None):
    """The options a description holds: declared in it, by helpers it is handed to, or added from others."""
    seen = set() if seen is None else seen
    if (id(f), vid) in seen:
        return []
    seen.add((id(f), vid))
    out = []
    for n in fn_nodes(f):
        k = n.get("k")
        if k == "call":
            nm = n.get("f") or ""
            if nm.endswith("options_description_easy_init::operator()"):
                r = root(n)
                if r is not None and r["k"] == "var" and r["id"] == vid:
                    out.append(spec(prog, n))
            elif nm == PO + "options_description::add":
                r = root(n)
                if r is not None and r["k"] == "var" and r["id"] == vid:
                    for a in n["a"]:
                        x = root(a)
                        if x is not None and x["k"] == "var":
                            out += declared(prog, f, x["id"], seen)
                        elif x is not None and x["k"] == "call":
                            out += returned(prog, x, seen)
            else:
                for i, a in enumerate(n.get("a") or ()):
                    x = uncast(a)
                    if x.get("k") == "var" and x["id"] == vid:
                        for t in prog.targets(n):
                            if i < len(t["ps"]):
                                out += declared(prog, t, t["ps"][i]["id"], seen)
        elif k == "decl":
            for v in n["d"]:
                if v["id"] == vid and v.get("i") is not None:
                    x = root(v["i"])
                    if x is not None and x["k"] == "call":
                        out += returned(prog, x, seen)
    return out


def returned(prog, call, seen):
    out = []
    for t in prog.targets(call):
        for n in fn_nodes(t):
            if n.get("k") == "return" and n.get("e") is not None:
                x = root(n["e"])
                if x is not None and x["k"] == "var":
                    out += declared(prog, t, x["id"], seen)
    return out


def norm(s):
    return s.replace("-", "_").strip("_")


class Present(Flow):
    """Which options are known to have a value where one is read."""

    def __init__(self, prog, opts, vm_ids):
        Flow.__init__(self, prog)
        self.opts = opts
        self.bad = {}
        self.seen = set()
        self.order = {}

    def call(self, n, st):
        nm = n.get("f") or ""
        known, notified = st
        if nm == PO + "notify":
            st = (known, True)
        if nm == PO + "variable_value::as":
            x = uncast(n["obj"])
            if x["k"] == "call" and x.get("op") == "[]":
                o = self.opts.get(text_of(self.prog, x["a"][1]))
                if o is not None:
                    self.seen.add(id(n))
                    ok = o.default or o.switch or o.required and notified or o.name in known
                    if not ok:
                        self.bad[id(n)] = (n, o)
        yield (N, st)
        if self.may_throw(n):
            yield (THR, st, ANY)

    def assume(self, c, st, truth):
        c = uncast(c)
        o, pos = self.counted(c)
        if o is not None:
            known, notified = st
            if truth == pos:
                return (known | {o}, notified)
            return st if o not in known else None
        return Flow.assume(self, c, st, truth)

    def counted(self, c):
        pos = True
        while True:
            c = uncast(c)
            if c["k"] == "un" and c["op"] == "!":
                c, pos = c["e"], not pos
                continue
            if c["k"] == "bin" and c["op"] in ("==", "!=", ">", "<", ">=", "<="):
                a, b = uncast(c["a"]), uncast(c["b"])
                for x, y, op in ((a, b, c["op"]), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(c["op"], c["op"]))):
                    if y["k"] == "int" and x["k"] == "call":
                        v = y["v"]
                        if (op, v) in (("!=", 0), (">", 0), (">=", 1), ("==", 1)):
                            r = self.counted(x)
                            return r[0], r[1] == pos
                        if (op, v) in (("==", 0), ("<", 1), ("<=", 0)):
                            r = self.counted(x)
                            return r[0], r[1] != pos
                return None, True
            break
        if c["k"] == "call":
            m = (c.get("f") or "").split("::")[-1]
            if m in ("count", "contains") and vm_like(c.get("obj")):
                return text_of(self.prog, c["a"][0]), pos
            if m == "empty" and c.get("obj") is not None:
                x = uncast(c["obj"])
                if x["k"] == "call" and x.get("op") == "[]" and vm_like(x["a"][0]):
                    return text_of(self.prog, x["a"][1]), not pos
        return None, True


def vm_like(e):
    if e is None:
        return False
    e = uncast(e)
    t = e.get("vt") or e.get("t")
    while t is not None and t.k in ("ref", "rref", "ptr"):
        t = t.to
    return t is not None and (t.rec or "").startswith(PO) and (t.rec or "").endswith("variables_map")


def check(prog, R):
    R.rule("declared", "every option a command consults, maps an environment variable to or takes as positional is one it declares", 90)
    R.rule("type", "an option's value is taken with the type it was declared with", 60)
    R.rule("present", "an option's value is taken only where it is known to have one: a default, required and notified, or counted", 60)
    R.rule("consulted", "every declared option is consulted", 60)
    R.rule("effect", "the value of every option consulted has a bearing on what the command does", 60)
    R.rule("named", "no option's value is handed to a variable, parameter or member named for another option of the command", 60)
    R.rule("frame", "an option documented to set a text frame sets that frame", 3)
    R.rule("unique", "no two options of a command share a name or letter", 8)
    R.rule("precedence", "the command line is stored before the environment, and both before the values are finalised", 8)
    eff = Effect(prog)
    help_keys = set()
    for f in prog.fns:
        if f.get("body") is not None and any(shown(p["t"]) and shown(p["t"]).endswith("parsed_options") or "basic_parsed_options" in (shown(p["t"]) or "") for p in f["ps"]):
            help_keys |= {n["v"].lstrip("-") for n in fn_nodes(f) if n.get("k") == "str"}
            for c in fn_nodes(f):
                if c.get("k") == "call":
                    for t in prog.targets(c):
                        help_keys |= {n["v"].lstrip("-") for n in fn_nodes(t) if n.get("k") == "str"}
    commands = 0
    for f in sorted(prog.fns, key=lambda f: f["n"]):
        if f.get("body") is None:
            continue
        run = [n for n in fn_nodes(f) if n.get("k") == "call" and (n.get("f") or "").startswith(PO) and (n.get("f") or "").endswith("command_line_parser::options")]
        if not run:
            continue
        commands += 1
        one(prog, R, eff, f, run, help_keys)
    if commands < 8:
        raise AnalysisBroken("only %d commands parse options" % commands)
    R.extra["commands"] = commands


def one(prog, R, eff, f, run, help_keys):
    cmd = f["n"].split("::")[-1]
    opts = []
    for n in run:
        r = root(n["a"][0])
        if r is None or r["k"] != "var":
            raise AnalysisBroken("%s: where the options come from is not understood" % where(n))
        opts += declared(prog, f, r["id"])
    if not opts:
        raise AnalysisBroken("%s: no options found for %s" % (where(f), cmd))
    table = {}
    letters = {}
    dup = []
    for o in opts:
        if o.name in table and table[o.name].node is not o.node:
            dup.append((o, "the name", o.name))
        table.setdefault(o.name, o)
        if o.letter:
            if o.letter in letters and letters[o.letter].name != o.name:
                dup.append((o, "the letter", o.letter))
            letters.setdefault(o.letter, o)
    for o, what, x in dup:
        R.bad("unique", "%s/%s" % (cmd, o.name), o.node, "%s: %s %s is already another option's" % (cmd, what, x))
    if not dup:
        R.ok("unique", cmd)

    # functions the variables map is handed to
    fns, todo = [], [f]
    while todo:
        g = todo.pop()
        if any(g is h for h in fns):
            continue
        fns.append(g)
        for n in fn_nodes(g):
            if n.get("k") == "call" and any(vm_like(a) for a in n.get("a") or ()):
                todo += prog.targets(n)
    consulted, open_keys, reads = {}, False, []
    for g in fns:
        for n in fn_nodes(g):
            if n.get("k") != "call":
                continue
            m = (n.get("f") or "").split("::")[-1]
            key = None
            if n.get("op") == "[]" and vm_like(n["a"][0]):
                key = n["a"][1]
            elif m in ("count", "find", "contains", "at") and vm_like(n.get("obj")):
                key = n["a"][0]
            elif n.get("f") == PO + "positional_options_description::add":
                o = text_of(prog, n["a"][0])
                if o is not None:
                    judge_declared(R, cmd, table, o, n, "positional")
                continue
            if key is None:
                continue
            o = text_of(prog, key)
            if o is None:
                open_keys = True
                continue
            judge_declared(R, cmd, table, o, n, "consulted")
            consulted.setdefault(o, []).append((g, n))
            p = parents(g).get(id(n))
            while p is not None and p.get("k") == "cast":
                p = parents(g).get(id(p))
            if p is not None and p.get("f") == PO + "variable_value::as" and o in table:
                got, want = shown(p["t"]), table[o].type
                reads.append((g, p, o))
                if got == want:
                    R.ok("type", (cmd, o, where(p)))
                else:
                    R.bad("type", "%s/%s" % (cmd, o), p, "%s: option %s is declared with %s but read as %s" % (cmd, o, want or "no value", got))
    if open_keys:
        for g in fns:
            for n in fn_nodes(g):
                if n.get("k") == "str" and n["v"] in table and not any(x is n for x, in ()):
                    consulted.setdefault(n["v"], [])
    # environment
    env = []
    for g in fns:
        for n in fn_nodes(g):
            if n.get("k") in ("ctor", "call", "init"):
                ss = [x["v"] for a in n.get("a") or () for x in walk(a) if x.get("k") == "str"]
                if len(ss) == 2 and ss[0].startswith("SCRIBBU_") and (n.get("k") != "call" or (n.get("f") or "").endswith("make_pair")) \
                        and not any(len([y for b in x.get("a") or () for y in walk(b) if y.get("k") == "str"]) == 2 for a in n["a"] for x in walk(a) if x.get("k") in ("ctor", "call", "init")):
                    env.append((ss, n))
    for (var, o), n in env:
        judge_declared(R, cmd, table, o, n, "environment")
        if o in table:
            w = norm(var[len("SCRIBBU_"):].lower())
            other = [x for x in table if x != o and norm(x.lower()) == w]
            if other and norm(o.lower()) != w:
                R.bad("named", "%s/%s" % (cmd, var), n, "%s: %s is mapped to option %s, though there is an option %s" % (cmd, var, o, other[0]))
            else:
                R.ok("named", (cmd, var))
    for o in table.values():
        if o.type in ("unsigned char", "signed char"):
            R.bad("type", "%s/%s/char" % (cmd, o.name), o.node, "%s: option %s is parsed as a single character, not as a number" % (cmd, o.name))
        if o.name in consulted:
            R.ok("consulted", (cmd, o.name))
        elif o.name in help_keys and any(n.get("k") == "call" and any((uncast(a).get("t") is not None and "parsed_options" in (shown(uncast(a)["t"]) or "")) for a in n.get("a") or ())
                                         and prog.targets(n) for n in fn_nodes(f)):
            R.ok("consulted", (cmd, o.name))
            continue
        else:
            R.bad("consulted", "%s/%s" % (cmd, o.name), o.node, "%s: option %s is declared but never consulted" % (cmd, o.name))
            continue
        rs = [(g, p) for g, p, x in reads if x == o.name] + [(g, n) for g, n in consulted[o.name] if (n.get("f") or "").split("::")[-1] in ("count", "contains")]
        if not rs or any(eff.node(g, p) for g, p in rs if p.get("f") == PO + "variable_value::as") \
                or not any(p.get("f") == PO + "variable_value::as" for _, p in rs) and any(eff.node(g, p) for g, p in rs):
            R.ok("effect", (cmd, o.name))
        else:
            R.bad("effect", "%s/%s" % (cmd, o.name), rs[0][1], "%s: the value of option %s has no bearing on anything" % (cmd, o.name))
    # names along direct copies
    for g, p, o in reads:
        # (an option of another kind could not be meant)
        names = {norm(x): x for x in table if table[x].type == table[o].type}
        bad = follow(prog, g, p, names, norm(o), set())
        if bad is None:
            R.ok("named", (cmd, o, where(p)))
        else:
            n, what = bad
            R.bad("named", "%s/%s/%s" % (cmd, o, what), n, "%s: the value of option %s is handed to %s" % (cmd, o, what))
    # the frame an option is documented to set
    for g, p, o in reads:
        if not table[o].frames:
            continue
        x, m = p, parents(g)
        while x is not None and x.get("k") not in ("block", "decl", "if", "rfor", "for", "while", None):
            y, x = x, m.get(id(x))
        ids = {e["n"].split("::")[-1].lower() for e in walk(y) if e.get("k") == "enum"}
        ids = {e for e in ids if FRAME.fullmatch(e.upper())}
        if not ids:
            continue
        if ids & table[o].frames:
            R.ok("frame", (cmd, o))
        else:
            R.bad("frame", "%s/%s" % (cmd, o), p, "%s: option %s is documented to set %s but sets %s" % (cmd, o, "/".join(sorted(table[o].frames)).upper(), "/".join(sorted(ids)).upper()))
    # presence
    for g in fns:
        a = Present(prog, table, None)
        a.run(g, (frozenset(), g is not f))
        for i in a.seen:
            if i not in a.bad:
                R.ok("present", (cmd, i))
        for n, o in a.bad.values():
            R.bad("present", "%s/%s" % (cmd, o.name), n, "%s: option %s may have no value here: it has no default, and it is not %s" % (
                cmd, o.name, "known that it was given" if not o.required else "known that required options were enforced"))
    # precedence
    seq = []
    for n in fn_nodes(f):
        if n.get("k") == "call":
            m = n.get("f") or ""
            if m.endswith("command_line_parser::run") or m.startswith(PO + "parse_command_line"):
                seq.append("parse")
            elif m == PO + "parse_environment":
                seq.append("env")
            elif m == PO + "store":
                seq.append("store")
            elif m == PO + "notify":
                seq.append("notify")
    want = ["parse", "store"] + (["env", "store"] if "env" in seq else []) + ["notify"]
    mine = [x for i, x in enumerate(seq) if not (x == "notify" and i and seq[i - 1] == "notify")]
    if "store" not in mine:
        return                  # nothing but help
    if mine == want or mine == want[:-1] and not any(o.required for o in table.values()):
        R.ok("precedence", cmd)
    else:
        R.bad("precedence", cmd, f, "%s: options are parsed, stored and finalised in the order %s, not %s" % (cmd, " ".join(mine), " ".join(want)))


def judge_declared(R, cmd, table, o, n, how):
    if o in table:
        R.ok("declared", (cmd, o, how, where(n)))
    else:
        R.bad("declared", "%s/%s/%s" % (cmd, how, o), n, "%s: there is no option %s (%s)" % (cmd, o, how))


def follow(prog, f, n, names, own, seen):
    """Follow plain copies of a value; (node, what) where one lands under another option's name."""
    def wrong(name):
        x = norm(name)
        return x != own and x in names

    def of_var(g, vid):
        if (id(g), vid) in seen:
            return None
        seen.add((id(g), vid))
        for x in fn_nodes(g):
            if x.get("k") == "var" and x["id"] == vid:
                r = follow(prog, g, x, names, own, seen)
                if r is not None:
                    return r
        return None
    p = parents(f).get(id(n))
    while p is not None and (p.get("k") == "cast" or p.get("k") == "ctor" and (p.get("copy") or p.get("move") or len(p.get("a") or ()) == 1) and not prog.targets(p)):
        n = p
        p = parents(f).get(id(p))
    if p is None:
        return None
    k = p.get("k")
    if k is None and "id" in p:
        if wrong(p["n"]):
            return p, "variable " + p["n"]
        return of_var(f, p["id"])
    if k == "init_of":
        m = p["i"].get("m")
        if m and wrong(m):
            return n, "member " + m
        return None
    if k == "bin" and p["op"] == "=" and p["b"] is n or k == "call" and p.get("op") == "=" and p["a"][-1] is n:
        t = uncast(p["a"] if k == "bin" else p["a"][0])
        if t["k"] in ("var", "mem"):
            if wrong(t["n"]):
                return p, ("variable " if t["k"] == "var" else "member ") + t["n"]
            if t["k"] == "var":
                return of_var(f, t["id"])
        return None
    if k in ("call", "ctor"):
        for t in prog.targets(p):
            off = 1 if p.get("op") and len(p["a"]) == len(t["ps"]) + 1 else 0
            for i, a in enumerate(p.get("a") or ()):
                if a is n and 0 <= i - off < len(t["ps"]):
                    q = t["ps"][i - off]
                    if q.get("n") and wrong(q["n"]):
                        return p, "parameter %s of %s" % (q["n"], t["n"].split("::")[-1])
                    r = of_var(t, q["id"])
                    if r is not None:
                        return r
    return None
