"""C26: template directives evaluate to what they are named after."""

import os
import re

from facts import REPO, AnalysisBroken
from interp import F, Env, Interp, T, TOP
from program import const, fn_nodes, uncast, walk

TECHNIQUE = "composition of the lexer's start-state table with the grammar's productions, and abstract interpretation of every directive's evaluation over all combinations of present and absent sources and all option values"

NS = "scribbu::tbt_support::"

# the template language, as the manual describes it: names, one-letter form, what the directive shows
DIRECTIVES = {
    "album": (("album",), "L", ("album",), "album"),
    "artist": (("artist",), "A", ("artist",), "artist"),
    "content type": (("content-type", "genre"), "G", ("enh_genre", "genre"), "content_type"),
    "encoded by": (("encoded-by",), "e", (), "encoded_by"),
    "title": (("title",), "T", ("title",), "title"),
    "year": (("year",), "Y", ("year",), "year"),
    "basename": (("basename", "file-basename"), "b", "fi:stem", None),
    "extension": (("extension", "file-extension"), "E", "fi:extension", None),
    "md5": (("md5",), "5", "md5", None),
    "size": (("size",), "S", "size", None),
}
TAGOPTS = {
    "prefer-v2": "all_source_preference::prefer_id3v2", "prefer-v1": "all_source_preference::prefer_id3v1",
    "v2-only": "all_source_preference::id3v2_only", "v1-only": "all_source_preference::id3v1_only",
    "v1-encoding=auto": "v1_encoding::automatic", "v1-encoding=iso-8859-1": "v1_encoding::iso8859_1",
    "v1-encoding=ascii": "v1_encoding::ascii", "v1-encoding=cp1252": "v1_encoding::cp1252",
    "v1-encoding=utf-8": "v1_encoding::utf_8", "v1-encoding=utf-16-be": "v1_encoding::utf_16_be",
    "v1-encoding=utf-16-le": "v1_encoding::utf_16_le", "v1-encoding=utf-32": "v1_encoding::utf_32",
    "output=utf-8": "output_encoding::utf_8", "output=ascii": "output_encoding::ascii",
    "output=cp1252": "output_encoding::cp1252", "output=iso-8859-1": "output_encoding::iso8859_1",
}
TEXTOPTS = {
    "the": "the_xform::make_suffix", "the=suffix": "the_xform::make_suffix", "the=prefix": "the_xform::make_prefix",
    "cap=all-upper": "capitalization::all_upper", "cap=all-lower": "capitalization::all_lower",
    "cap=capitalize": "capitalization::capitalize", "compress": "ws_xform::compress", "ws=<text>": "ws_xform::replace",
}
NUMOPTS = {"base=decimal": "base::decimal", "base=hex": "base::hex", "hex-case=U": "hex_case::upper", "hex-case=L": "hex_case::lower"}
YEAROPTS = {"yy": "year_format::two_digits", "yyyy": "year_format::four_digits"}
OPTIONS = {"album": (TAGOPTS, TEXTOPTS), "artist": (TAGOPTS, TEXTOPTS), "content type": (TAGOPTS, TEXTOPTS), "title": (TAGOPTS, TEXTOPTS),
           "year": (YEAROPTS,), "basename": (TEXTOPTS,), "extension": (TEXTOPTS,), "md5": (NUMOPTS,), "size": (NUMOPTS,), "encoded by": ()}


# ---------------------------------------------------------------------------
# lexer and grammar
# ---------------------------------------------------------------------------
def no_comments(s):
    return re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: "\n" * m.group(0).count("\n"), s, flags=re.S)


class Lexer:
    def __init__(self, path):
        self.path = path
        src = open(os.path.join(REPO, path)).read()
        parts = re.split(r"^%%\s*$", src, flags=re.M)
        if len(parts) < 2:
            raise AnalysisBroken("%s is not a lexer description" % path)
        head = re.sub(r"^%\{.*?^%\}", "", parts[0], flags=re.S | re.M)
        self.defs, self.states, self.excl = {}, ["INITIAL"], set()
        for ln in head.split("\n"):
            m = re.match(r"(\w+)\s+(\S.*?)\s*$", ln)
            if m:
                self.defs[m.group(1)] = m.group(2)
            m = re.match(r"%([xs])\s+(.*)", ln)
            if m:
                self.states += m.group(2).split()
                if m.group(1) == "x":
                    self.excl |= set(m.group(2).split())
        self.rules = []         # (states, pattern, action, line)
        body, base = parts[1], src[:src.index(parts[1])].count("\n")
        i = 0
        for m in re.finditer(r"^(?=\S)(<[\w,*]+>)?((?:\"[^\"\n]*\"|\[(?:\\.|[^\]\\\n])*\]|\{\w+\}|\\.|[^\s\"\[{])+)[ \t]+(\{)", body, flags=re.M):
            if m.start() < i:
                continue
            j, d = m.end(), 1
            while d and j < len(body):
                d += {"{": 1, "}": -1}.get(body[j], 0)
                j += 1
            i = j
            st = m.group(1)
            st = st[1:-1].split(",") if st else [s for s in self.states if s not in self.excl]
            if "*" in st:
                st = list(self.states)
            self.rules.append((set(st), m.group(2), body[m.end():j - 1], base + body[:m.start()].count("\n") + 1))
        self.tail = parts[2] if len(parts) > 2 else ""
        if len(self.rules) < 10:
            raise AnalysisBroken("lexer rules not understood")

    def expand(self, p):
        return re.sub(r"\{(\w+)\}", lambda m: "(%s)" % self.defs[m.group(1)] if m.group(1) in self.defs else m.group(0), p)

    def spellings(self, p):
        """The texts a pattern matches if they are finitely many, else None."""
        return words(self.expand(p))

    def regex(self, p):
        p = self.expand(p)
        return re.sub(r'"([^"]*)"', lambda m: re.escape(m.group(1)), p)

    def token(self, action):
        m = re.search(r"return\s+(\w+)\s*;", action)
        return m.group(1) if m else None

    def next_state(self, action, state):
        m = re.findall(r"BEGIN\s*\(?\s*(\w+)", action)
        return m[-1] if m else state

    def find(self, token, state):
        """Rules that return a token in a start state: (spellings or None, next state, line)."""
        out = []
        for k, (st, p, act, line) in enumerate(self.rules):
            if state in st and self.token(act) == token:
                ws = self.spellings(p)
                if ws is not None:
                    ws = [w for w in ws if not self.shadowed(k, w, state)]
                    if not ws:
                        continue
                out.append((ws, self.next_state(act, state), line))
        return out

    def shadowed(self, k, w, state):
        for st, p, act, line in self.rules[:k]:
            if state in st and re.fullmatch(self.regex(p), w):
                return True
        return False


def words(p):
    """Language of a regular expression without repetition; None if infinite or not understood."""
    pos = 0

    def alt():
        nonlocal pos
        out = seq()
        while out is not None and pos < len(p) and p[pos] == "|":
            pos += 1
            r = seq()
            out = None if r is None else out + r
        return out

    def seq():
        nonlocal pos
        out = [""]
        while pos < len(p) and p[pos] not in "|)":
            a = atom()
            if a is None:
                return None
            if pos < len(p) and p[pos] == "?":
                pos += 1
                a = a + [""]
            elif pos < len(p) and p[pos] in "*+{":
                return None
            out = [x + y for x in out for y in a]
        return out

    def atom():
        nonlocal pos
        c = p[pos]
        if c == "(":
            pos += 1
            r = alt()
            if r is None or pos >= len(p) or p[pos] != ")":
                return None
            pos += 1
            return r
        if c == '"':
            j = p.index('"', pos + 1)
            r = [p[pos + 1:j]]
            pos = j + 1
            return r
        if c == "[":
            m = re.match(r"\[((?:\\.|[^\]\\^-])+)\]", p[pos:])
            if not m:
                return None
            pos += m.end()
            return re.findall(r"\\?(.)", m.group(1))
        if c == ".":
            return None
        if c == "\\":
            pos += 2
            return [p[pos - 1]]
        pos += 1
        return [c]
    try:
        r = alt()
    except (IndexError, ValueError):
        return None
    return r if r is not None and pos == len(p) else None


class Grammar:
    def __init__(self, path):
        self.path = path
        src = open(os.path.join(REPO, path)).read()
        parts = re.split(r"^%%\s*$", src, flags=re.M)
        if len(parts) < 2:
            raise AnalysisBroken("%s is not a grammar" % path)
        self.tokens = set()
        for m in re.finditer(r"^%token\s*(?:<\w+>)?\s*([^\n]*)", parts[0], flags=re.M):
            self.tokens |= set(re.findall(r"[A-Z]\w*", m.group(1)))
        self.prods = {}         # nonterminal -> [(symbols, action, line)]
        body = no_comments(parts[1])
        base = src[:src.index(parts[1])].count("\n")
        i, lhs, rhs, start, order = 0, None, [], None, []
        tok = re.compile(r"\s+|(\w+)\s*:|(\w+)|(\|)|(;)|(\{)|('.')|%\w+")
        while i < len(body):
            m = tok.match(body, i)
            if not m:
                raise AnalysisBroken("grammar not understood at line %d" % (base + body[:i].count("\n") + 1))
            line = base + body[:i].count("\n") + 1
            i = m.end()
            if m.group(1):
                if lhs is not None and rhs:
                    self.prods[lhs].append((tuple(rhs), "", line))
                lhs, rhs = m.group(1), []
                self.prods.setdefault(lhs, [])
                order.append(lhs)
                done = False
            elif m.group(2):
                rhs.append(m.group(2))
                done = False
            elif m.group(3) or m.group(4):
                if not done:
                    self.prods[lhs].append((tuple(rhs), "", line))
                rhs = []
                done = bool(m.group(4))
                if m.group(4):
                    lhs = None
                    done = True
            elif m.group(5):
                j, d = i, 1
                while d:
                    d += {"{": 1, "}": -1}.get(body[j], 0)
                    j += 1
                self.prods[lhs].append((tuple(rhs), body[i:j - 1], line))
                i, rhs, done = j, [], True
        self.start = order[0]
        for ps in self.prods.values():
            for rhs, _, line in ps:
                for s in rhs:
                    if s not in self.prods and s not in self.tokens:
                        raise AnalysisBroken("unknown grammar symbol %s" % s)


def value_of(action, vals):
    """What an action builds: (class of the new term, enumerators named), and the operands it uses."""
    used = {int(x) for x in re.findall(r"\$(\d+)", action)}
    cls = None
    m = re.search(r"\$\$\s*=\s*new\s+((?:\w+::)*)(\w+)\s*\(", action)
    if m and m.group(2) not in ("pair", "map", "vector", "pair_type"):
        cls = m.group(2)
    enums = set()
    for m in re.finditer(r"((?:\w+::)*)(\w+)::(\w+)(?!\s*(?:::|[(<]))", action):
        if m.group(2) not in ("std", "boost", "scribbu", "tbt_support") and not m.group(3) in ("iterator", "value_type"):
            enums.add("%s::%s" % (m.group(2), m.group(3)))
    for n in sorted(used):
        if n - 1 < len(vals) and vals[n - 1] is not None:
            c, es = vals[n - 1]
            if cls is None:
                cls = c
            enums |= es
    return (cls, frozenset(enums)), used


class Phrases:
    """Texts the grammar derives from a symbol, with what they build, given the lexer's start state."""

    def __init__(self, lex, gram, R):
        self.lex, self.gram, self.R = lex, gram, R
        self.lost = set()
        self.memo = {}
        # symbols that contain themselves through others: one level is enough
        reach = {s: {x for rhs, a, l in ps for x in rhs if x in gram.prods} for s, ps in gram.prods.items()}
        far = {s: set(r) for s, r in reach.items()}
        for _ in far:
            for s in far:
                far[s] |= set().union(set(), *[far[x] for x in far[s]])
        self.nested = {s for s in far if any(x != s and s in far[x] for x in far[s])}

    def of(self, sym, state, stack=()):
        if sym in self.gram.tokens:
            out = []
            for ws, nxt, line in self.lex.find(sym, state):
                for w in (ws if ws is not None else ["<text>"]):
                    out.append((w, nxt, (None, frozenset()), {sym: nxt}))
            return out
        if stack.count(sym) >= (1 if sym in self.nested else 2):
            return []
        key = (sym, state, stack)
        if key in self.memo:
            return self.memo[key]
        out = []
        for rhs, act, line in self.gram.prods[sym]:
            cur = [("", state, ())]
            for s in rhs:
                nxt = []
                for text, st, vals in cur:
                    for w, st2, v, _ in self.of(s, st, stack + (sym,)):
                        nxt.append((text + w, st2, vals + (v,)))
                cur = nxt
            for text, st, vals in cur:
                v, used = value_of(act, vals)
                for i, x in enumerate(vals):
                    if (x[0] or x[1]) and i + 1 not in used:
                        self.lost.add((sym, rhs, i, line))
                out.append((text, st, v, None))
        self.memo[key] = out
        return out


def states(lex, gram):
    """Lexer start states in which each occurrence of a token can be expected: {(token, state): line}."""
    ins = {gram.start: {"INITIAL"}}
    outs = {}
    need = {}
    changed = True
    while changed:
        changed = False
        for nt, ps in gram.prods.items():
            for st0 in list(ins.get(nt, ())):
                for rhs, act, line in ps:
                    cur = {st0}
                    for s in rhs:
                        nxt = set()
                        for st in cur:
                            if s in gram.tokens:
                                need.setdefault((s, st), line)
                                nxt |= {n for ws, n, l in lex.find(s, st)}
                            else:
                                if st not in ins.setdefault(s, set()):
                                    ins[s].add(st)
                                    changed = True
                                nxt |= outs.get((s, st), set())
                        cur = nxt
                    o = outs.setdefault((nt, st0), set())
                    if not cur <= o:
                        o |= cur
                        changed = True
    return need


def language(prog, R):
    R.rule("expected", "every token the grammar can expect is recognised by the lexer in each start state it can be in at that point", 40)
    R.rule("spelling", "every documented directive, in its long and its one-letter form, builds the term that shows it", 18)
    R.rule("option", "every documented option can be written for its directives and selects the value it names", 60)
    R.rule("kept", "what a part of a template builds is used by the production it occurs in", 30)
    R.rule("escape", "each character with a meaning in templates can be escaped, and escaping it removes the backslash", 7)
    lex, gram = Lexer("scribbu/tbt-lexer.ll"), Grammar("scribbu/tbt-parser.yy")
    for (tok, st), line in sorted(states(lex, gram).items()):
        if lex.find(tok, st):
            R.ok("expected", "%s in %s" % (tok, st))
        else:
            R.bad("expected", "%s/%s" % (tok, st), "%s:%d" % (gram.path, line),
                  "the grammar expects %s where the lexer is in state %s, but no rule of the lexer recognises it there" % (tok, st))
    ph = Phrases(lex, gram, R)
    table = {}
    for text, st, v, _ in ph.of("replacement" if "replacement" in gram.prods else gram.start, "INITIAL"):
        table.setdefault(text, []).append((v, st))
    n = 0
    for rhs in [r for ps in gram.prods.values() for r in ps]:
        n += 1
    bad = {(s, r, i) for s, r, i, l in ph.lost}
    for sym, rhs, i, line in sorted(ph.lost):
        R.bad("kept", "%s/%s" % (sym, rhs[i]), "%s:%d" % (gram.path, line), "the production of %s ignores what its operand %s builds" % (sym, rhs[i]))
    for sym, ps in gram.prods.items():
        for rhs, act, line in ps:
            for i, s in enumerate(rhs):
                if s in gram.prods and (sym, rhs, i) not in bad:
                    R.ok("kept", "%s: %s" % (sym, s))
    classes = {}
    for d, (names, letter, v1, v2) in DIRECTIVES.items():
        for text in ["%%(%s)" % x for x in names] + ["%" + letter]:
            got = table.get(text)
            if not got:
                R.bad("spelling", "%s/%s" % (d.replace(" ", "_"), text), gram.path, "the template %s is not accepted" % text)
                continue
            cs = {v[0] for v, st in got}
            if {st for v, st in got} != {"INITIAL"}:
                R.bad("spelling", "%s/%s/state" % (d.replace(" ", "_"), text), lex.path, "after %s the lexer does not return to plain text" % text)
            for c in cs:
                classes.setdefault(d, {}).setdefault(c, []).append(text)
    for d, cs in classes.items():
        for c, texts in cs.items():
            for t in texts:
                R.ok("spelling", t)
    # options
    for d, tabs in OPTIONS.items():
        name = DIRECTIVES[d][0][0]
        for tab in tabs:
            for opt, want in tab.items():
                got = table.get("%%(%s:%s)" % (name, opt))
                key = "%s/%s" % (name, opt)
                if not got:
                    R.bad("option", key, gram.path, "the option %s cannot be given for %s" % (opt, name))
                    continue
                ok = True
                for v, st in got:
                    es = {e for e in v[1] if not e.split("::")[0].endswith("_opt")}
                    if opt.startswith("ws=") or opt == "compress":
                        es -= {e for e in es if e.split("::")[1] in ("ws_xform", "ws_xforms")}
                    if es != {want}:
                        ok = False
                        R.bad("option", key, gram.path, "the option %s of %s selects %s, not %s" % (opt, name, ", ".join(sorted(es)) or "nothing", want))
                    elif v[0] not in classes.get(d, {v[0]: 1}):
                        ok = False
                        R.bad("option", key + "/term", gram.path, "with the option %s, %s builds the term %s" % (opt, name, v[0]))
                if ok:
                    R.ok("option", key)
                # two options
        for a, b in (("the=prefix", "compress"), ("base=hex", "hex-case=U")):
            if any(a in t for t in tabs) and not table.get("%%(%s:%s&%s)" % (name, a, b)):
                R.bad("option", "%s/%s&%s" % (name, a, b), gram.path, "the options %s and %s cannot be combined for %s" % (a, b, name))
    if not table.get("(<text>)?"):
        R.bad("option", "optional", gram.path, "an optional group cannot be written")
    # escapes
    pats = [lex.expand(p) for st, p, act, line in lex.rules if "INITIAL" in st and "TEXT" == lex.token(act)]
    special = {p[1] for st, p, act, line in lex.rules if re.fullmatch(r'"[^"]"', p)} | {"\\"}
    esc = set()
    for p in pats:
        for m in re.finditer(r"\\\\\[((?:\\.|[^\]\\])*)\]", p):
            esc |= set(re.findall(r"\\?(.)", m.group(1)))
    removed = unescaped(prog)
    for c in sorted(special):
        key = "0x%02x" % ord(c)
        if c not in esc:
            R.bad("escape", key, lex.path, "the character %s has a meaning in templates but cannot be escaped" % c)
        elif removed is not None and c not in removed:
            R.bad("escape", key + "/kept", lex.path, "the backslash of an escaped %s stays in the text" % c)
        else:
            R.ok("escape", c)
    R.extra["lexer_rules"] = len(lex.rules)
    R.extra["productions"] = n
    R.extra["template_phrases_derived"] = len(table)
    return classes


def unescaped(prog):
    """Characters whose backslash the lexer's copying function drops."""
    for f in prog.fns:
        if f["n"].split("::")[-1] == "unescape_and_copy" or ("tbt-lexer" in f["l"][0] and f.get("body") is not None and f["ps"] and any(
                x.get("k") == "switch" for x in fn_nodes(f)) and "basic_string" in f["rt"].s):
            for s in fn_nodes(f):
                if s.get("k") != "switch":
                    continue
                out, live = set(), []
                body = s["s"]["s"] if s["s"]["k"] == "block" else [s["s"]]
                for x in body:
                    while x is not None and x["k"] in ("case", "default"):
                        live.append(x)
                        x = x["s"]
                    adds = x is not None and any(y.get("k") in ("call",) for y in walk(x))
                    if not adds and x is not None:
                        out |= {chr(l["c"].get("cv", l["c"].get("v")) & 0xff) for l in live if l["k"] == "case"}
                    if x is not None and any(y.get("k") == "break" for y in walk(x)):
                        live = []
                if out:
                    return out
    return None


# ---------------------------------------------------------------------------
# evaluation
# ---------------------------------------------------------------------------
def txt(origin, empty=False, ops=()):
    return ("txt", origin, empty, ops)


def is_char(t):
    t = t.deref()
    return t.k in ("int", "uint") and t.sz == 1


class Eval(Interp):
    """A directive's evaluation with given sources."""

    def __init__(self, prog, v1=None, v2=None, fails=False):
        Interp.__init__(self, prog)
        self.v1, self.v2, self.fails = v1 or {}, v2 or {}, fails
        self.bytes = None
        self.asked = set()

    def read(self, e, env):
        if e["k"] == "mem":
            return env.put("#read", env.get("#read", frozenset()) | {e["n"]})
        return env

    def inline(self, n, g):
        return "tbt-" in g["l"][0] or "tbt_support" in g["n"]

    def truth(self, v):
        if v == ("pos",):
            return True
        if v[0] == "opt":
            return v[1] is not None
        return Interp.truth(self, v)

    def compare(self, op, a, b):
        if a[0] == "it" and b[0] == "it" and op in ("==", "!="):
            same = a[2] == b[2] or a[1] is None
            return same if op == "==" else not same
        if a[0] == "itl" and b[0] == "itl" and op in ("==", "!="):
            return (a[2] == b[2]) == (op == "==")
        if a[0] == "lit" and b[0] == "txt" or a[0] == "txt" and b[0] == "lit":
            t, l = (b, a) if a[0] == "lit" else (a, b)
            if l[1] == "" and t[2] is not None and op in ("==", "!="):
                return t[2] == (op == "==")
        if ("pos",) in (a, b) and ("i", 0) in (a, b):
            if op in ("==", "!="):
                return op == "!="
            return (op in (">", ">=")) == (a == ("pos",))
        return Interp.compare(self, op, a, b)

    def ev(self, e, env):
        if e is not None and e["k"] == "fn":
            return [(("fn", e["f"].split("::")[-1]), env)], []
        return Interp.ev(self, e, env)

    def unbound(self, e, env):
        if e["t"].deref().rec == "boost::none_t" or e.get("n") in ("none", "nullopt"):
            return ("none",)
        for g in self.prog.gvars.get(e.get("q") or "", ()):
            if g.get("i") is not None:
                outs, th = Interp.ev(self, g["i"], Env())
                if len(outs) == 1:
                    return outs[0][0]
        return TOP

    def deref(self, v):
        return v[1] if v[0] == "opt" and v[1] is not None else v

    def elements(self, v):
        if v[0] == "txt" and v[2] is not None:
            return ([] if v[2] else [v]), True
        return Interp.elements(self, v)

    def index(self, a, i):
        if a[0] == "txt":
            bs = self.bytes
            return ("i", bs[i[1]]) if bs is not None and i[0] == "i" and 0 <= i[1] < len(bs) else TOP
        return Interp.index(self, a, i)

    def member(self, e, base, env):
        if base[0] == "pair":
            return base[1] if e["n"] == "first" else base[2]
        if base[0] == "obj":
            return self.attr(base[1], e["n"])
        return TOP

    def attr(self, which, name):
        return txt("%s:%s" % (which, name)) if which == "fi" else TOP

    def put(self, dst, v, env):
        if dst[0] == "bi":
            return env.put(dst[1], ("seq", v))
        return env

    def call(self, n, obj, args, env):
        f = n.get("f") or n.get("cls") or ""
        nm = f.split("::")[-1]
        op = n.get("op")

        def one(v, e=None):
            return [(v, env if e is None else e)], []
        # containers and optionals
        if n["k"] == "ctor":
            if f in ("std::vector", "std::list", "std::deque", "std::map", "std::unordered_map", "std::initializer_list"):
                if args and args[0][0] == "list":
                    return one(args[0])
                if args and args[0][0] == "it" and len(args) >= 2:
                    return one(("seq", args[0][1]))
                return one(("seq", None) if not args or f == "std::vector" and n.get("dflt") else args[0] if args[0][0] in ("seq", "list") else TOP)
            if f == "std::pair" and len(args) == 2:
                return one(("pair", args[0], args[1]))
            if f in ("boost::optional", "std::optional"):
                if not args or args[0] == ("none",):
                    return one(("opt", None))
                return one(args[0] if args[0][0] == "opt" else ("opt", args[0]))
            if f == "boost::none_t":
                return one(("none",))
            if "basic_string" in f and "stream" not in f:
                if not args:
                    return one(("lit", ""))
                if args[0][0] == "it":
                    return one(args[0][1] if args[0][1] is not None else ("lit", ""))
                ts = [a for a in args if a[0] in ("txt", "lit", "cat")]
                return one(ts[0] if ts else TOP)
            if "stream" in f:
                return one(("stream", 10, False, ()))
            if f.startswith("std::unique_ptr"):
                return one(args[0] if args else TOP)
            ts = [a for a in args if a[0] in ("txt", "cat")]
            return one(ts[0] if ts else TOP)
        if nm == "back_inserter":
            return one(("bi", self.lkey(n["a"][0])))
        # the tags
        if obj is not None and obj[0] == "obj" and obj[1] in ("v1", "v2", "fi", "ti"):
            return self.query(n, obj[1], nm, args, env)
        if obj == ("nil",):
            return [], [("null pointer", env)]
        if obj is not None and obj[0] in ("seq", "list") or obj is not None and obj[0] == "it":
            c = obj[1]
            if nm in ("begin", "cbegin"):
                return one(("itl" if obj[0] == "list" else "it", c, 0))
            if nm in ("end", "cend"):
                return one(("itl", c, len(c)) if obj[0] == "list" else ("it", c, 1))
            if nm == "size":
                return one(("i", len(c)) if obj[0] == "list" else ("i", 0) if c is None else ("pos",))
            if nm == "empty":
                return one(T if c is None or c == () else F)
            if nm == "at" and obj[0] == "list" and args[0][0] == "i":
                hit = [p[2] for p in c if p[0] == "pair" and p[1] == args[0]]
                return one(hit[0]) if hit else ([], [("std::out_of_range", env)])
            if nm == "find" and obj[0] == "list" and args and args[0][0] == "i":
                hit = [i for i, p in enumerate(c) if p[0] == "pair" and p[1] == args[0]]
                return one(("itl", c, hit[0] if hit else len(c)))
            if nm in ("push_back", "emplace_back", "insert"):
                key = self.lkey(n["obj"])
                v = args[-1]
                if key is not None and v[0] in ("txt", "num"):
                    return one(TOP, env.put(key, ("seq", v)))
                return one(TOP)
            if nm == "data":
                return one(c if c is not None else TOP)
            return one(TOP)
        if op == "[]" and args and args[0][0] == "seq":
            return one(args[0][1] if args[0][1] is not None else TOP)
        if op in ("++", "--") and args and args[0][0] in ("it", "itl"):
            v = args[0][:2] + (args[0][2] + (1 if op == "++" else -1),)
            key = self.lkey(n["a"][0])
            return one(args[0] if len(args) > 1 else v, env.put(key, v) if key is not None else env)
        if op == "[]" and args and args[0][0] == "list":
            if args[1][0] == "i":
                hit = [p[2] for p in args[0][1] if p[0] == "pair" and p[1] == args[1]]
                return one(hit[0] if hit else self.index(args[0], args[1]))
            return one(TOP)
        if op in ("==", "!=") and len(args) == 2:
            r = self.compare(op, args[0], args[1])
            return one(TOP if r is None else T if r else F)
        if op == "!" and args:
            b = self.truth(args[0])
            return one(TOP if b is None else F if b else T)
        o = obj if obj is not None else (args[0] if args else None)
        if o is not None and o[0] == "opt":
            if op in ("*", "->") or nm in ("get", "value", "get_ptr"):
                return one(o[1]) if o[1] is not None else ([], [("empty optional", env)])
            if nm in ("has_value", "is_initialized") or n.get("conv"):
                return one(T if o[1] is not None else F)
            if nm in ("value_or", "get_value_or"):
                return one(o[1] if o[1] is not None else args[-1])
            if op == "=" or nm in ("emplace", "reset"):
                key = self.lkey(n["obj"] if obj is not None else n["a"][0])
                v = args[-1] if args and args[-1] is not o else None
                v = ("opt", None) if v in (None, ("none",)) else v if v[0] == "opt" else ("opt", v)
                return one(v, env.put(key, v) if key is not None else env)
        if op in ("*", "->") and o is not None and o[0] == "itl":
            return one(o[1][o[2]] if 0 <= o[2] < len(o[1]) else TOP)
        if op in ("*", "->") and o is not None and o[0] == "it":
            return one(o[1] if o[1] is not None else TOP)
        if op == "=" and len(args) == 2:
            key = self.lkey(n["a"][0])
            return one(args[1], env.put(key, args[1]) if key is not None else env)
        if op in ("+", "+=") and len(args) == 2 and args[0][0] in ("txt", "lit", "cat", "?"):
            v = self.cat(args[0], args[1])
            key = self.lkey(n["a"][0]) if op == "+=" else None
            return one(v, env.put(key, v) if key is not None else env)
        if op == "<<" and args and args[0][0] == "stream":
            s = self.insert(args[0], args[1], n["a"][1])
            l = n["a"][0]
            while uncast(l)["k"] == "call" and uncast(l)["a"]:
                l = uncast(l)["a"][0]
            key = self.lkey(l)
            return one(s, env.put(key, s) if key is not None else env)
        if obj is not None and obj[0] == "stream":
            if nm == "str":
                return one(("out",) + obj[3])
            key = self.lkey(n["obj"])
            s = obj
            if nm == "setf" and args:
                s = self.insert(obj, ("mani", "setiosflags", args[0]), None)
            return one(s, env.put(key, s) if key is not None else env)
        if nm in ("setiosflags", "setbase", "resetiosflags", "setw", "setfill", "setprecision"):
            return one(("mani", nm, args[0] if args else TOP))
        # text
        if nm == "convert_encoding":
            t = next((a for a in args if a[0] in ("txt", "cat")), None)
            es = [uncast(a) for a, v in zip(n["a"], args) if a["t"].deref().k == "enum" and v[0] == "i"]
            encs = tuple(v[1] for a, v in zip(n["a"], args) if (a["t"].deref().rec or "").endswith("scribbu::encoding") and v[0] == "i")
            thr = [("scribbu::iconv_error", env)] if self.fails else []
            if t is None:
                return [(TOP, env)], thr
            return [(self.carry(t, ("convert",) + encs), env)], thr
        if nm == "copy" and len(args) == 3 and args[0][0] == "it":
            if args[2][0] == "bi":
                return one(TOP, env.put(args[2][1], ("seq", args[0][1])))
            d = uncast(n["a"][2])
            while d["k"] == "call" and (d.get("obj") is not None or d["a"]):
                d = uncast(d["obj"] if d.get("obj") is not None else d["a"][0])
            key = self.lkey(d)
            if key is not None and args[0][1] is not None:
                return one(TOP, env.put(key, args[0][1]))
            return one(TOP)
        if nm in ("begin", "end", "cbegin", "cend") and obj is None and args and args[0][0] in ("seq", "list"):
            c = args[0][1]
            return one(("itl", c, len(c) if "end" in nm else 0) if args[0][0] == "list" else ("it", c, 1 if "end" in nm else 0))
        if nm in ("make_pair",) and len(args) == 2:
            return one(("pair",) + args)
        if nm == "text_for_genre":
            if args and args[0] == ("gen",):
                return one(("opt", self.v1.get("genre")))
            return one(TOP)
        if nm == "accumulate" and len(args) >= 3:
            return [(txt("terms", None), env)], [(NS + "missing_source_text", env)]
        if nm == "distance" or nm in ("size", "length", "capacity") and obj is not None:
            return one(self.length(args[0] if obj is None else obj))
        if nm == "empty" and obj is not None:
            b = self.emptiness(obj)
            return one(TOP if b is None else T if b else F)
        if nm in ("to_upper", "to_lower", "trim", "trim_left", "trim_right", "replace_all") and args:
            key = self.lkey(n["a"][0])
            v = self.carry(args[0], (nm,))
            return one(TOP, env.put(key, v) if key is not None else env)
        if nm == "split" and len(args) >= 2:
            mode = args[3] if len(args) > 3 else ("i", 1)
            v = ("seq", self.carry(args[1], ("split", mode)))
            key = self.lkey(n["a"][0])
            return one(v, env.put(key, v) if key is not None else env)
        if nm == "join" and len(args) == 2 and args[0][0] == "seq" and args[0][1] is not None:
            return one(self.carry(args[0][1], ("join", args[1])))
        if nm == "substr" and obj is not None:
            return one(self.carry(obj, ("substr",) + args[:2]))
        if nm in ("c_str", "data", "get", "string", "native", "move", "forward", "u8string", "generic_string") and (obj is not None or args):
            return one(obj if obj is not None else args[0])
        if obj is not None and obj[0] == "txt" and obj[1].startswith("fi:") and nm in ("stem", "extension", "filename", "parent_path"):
            return one(txt("fi:" + nm))
        gs = [g for g in self.prog.targets(n) or () if g.get("body") is not None]
        if len(gs) == 1 and self.inline(n, gs[0]):
            return None
        t = next((a for a in ((obj,) if obj is not None else ()) + tuple(args) if a[0] in ("txt", "cat", "num")), None)
        if t is not None and n.get("t") is not None and n["t"].deref().k not in ("bool", "void"):
            return one(self.carry(t, (nm,)))
        return one(TOP)

    def length(self, v):
        if v[0] == "lit":
            return ("i", len(v[1]))
        e = self.emptiness(v)
        return TOP if e is None else ("i", 0) if e else ("pos",)

    def emptiness(self, v):
        if v[0] == "txt":
            return v[2]
        if v[0] == "lit":
            return v[1] == ""
        if v[0] == "cat":
            es = [self.emptiness(x) for x in v[1]]
            return False if False in es else True if all(e is True for e in es) else None
        return None

    def cat(self, a, b):
        if a == ("lit", ""):
            return b
        if b == ("lit", ""):
            return a
        if TOP in (a, b):
            t = b if a == TOP else a
            return self.carry(t, ("+",)) if t[0] == "txt" else t
        xs = (a[1] if a[0] == "cat" else (a,)) + (b[1] if b[0] == "cat" else (b,))
        return ("cat", xs)

    def carry(self, t, op):
        if t[0] == "txt":
            e = t[2]
            if op[0] == "convert" and t[1] in self.v1.get("vanish", ()):
                e = True
            if op[0] in ("substr", "split", "trim"):
                e = None if e is False else e
            ops = t[3] if op in t[3] else t[3] + (op,)
            return ("txt", t[1], e, ops)
        if t[0] == "cat":
            return ("cat", tuple(self.carry(x, op) for x in t[1]))
        return t

    def insert(self, s, v, e):
        _, base, up, out = s
        if v[0] == "fn":
            return ("stream", {"hex": 16, "dec": 10, "oct": 8}.get(v[1], base), {"uppercase": True, "nouppercase": False}.get(v[1], up), out)
        if v[0] == "mani":
            if v[1] == "setbase" and v[2][0] == "i":
                return ("stream", v[2][1], up, out)
            if v[1] == "setiosflags" and v[2][0] == "i":
                fl = v[2][1]                       # std::ios_base flags of this library
                return ("stream", 16 if fl & 8 else base, up or bool(fl & (1 << 14)), out)
            return s
        if v[0] == "num":
            item = ("num", v[1], "raw" if is_char(e["t"]) else base, up)
        else:
            item = v
        if item in out:
            return s
        return ("stream", base, up, out + (item,))

    def query(self, n, which, nm, args, env):
        self.asked.add((which, nm))
        if which == "v1":
            v = self.v1.get(nm)
            if nm == "genre" and not args:
                return [(("gen",), env)], []
            for a in args:
                if a[0] == "bi":
                    return [(TOP, env.put(a[1], ("seq", v)))], []
            return [(v if v is not None else ("lit", ""), env)], []
        if which == "v2":
            if nm.startswith("has_"):
                return [(T if self.v2.get(nm[4:]) is not None else F, env)], []
            v = self.v2.get(nm)
            if v is None:
                return [], [("absent field read", env)]
            return [(v, env)], []
        if which == "fi":
            if nm == "size":
                return [(("num", "size"), env)], []
            return [(txt("fi:" + nm), env)], []
        if nm == "get_md5":
            for a in args:
                if a[0] == "bi":
                    return [(TOP, env.put(a[1], ("seq", ("num", "md5"))))], []
        return [(("num", nm), env)], []


def origins(v):
    if v[0] == "txt":
        return {v[1]}
    if v[0] in ("cat",):
        return set().union(*[origins(x) for x in v[1]]) if v[1] else set()
    if v[0] == "out":
        return set().union(set(), *[origins(x) for x in v[1:]])
    if v[0] == "num":
        return {v[1]}
    return set()


def fields(prog, q):
    out, todo, seen = [], [q], set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        for r in prog.recs.get(c, ()) if isinstance(prog.recs.get(c), list) else [prog.recs[c]] if c in prog.recs else []:
            out += [(c, x) for x in r["fields"]]
        todo += [b for b in prog.bases(c) if b.startswith(NS)]
    return out


def enum_vals(prog, name):
    e = prog.enums.get(NS + name)
    if e is None:
        raise AnalysisBroken("no enumeration %s" % name)
    return {x["n"].split("::")[-1]: x["v"] for x in e["e"]}


def default_fields(prog, q, over=None):
    env = Env()
    for c, fl in fields(prog, q):
        t = fl["t"].deref()
        if t.k == "enum":
            nm = t.rec.split("::")[-1]
            v = (over or {}).get(nm)
            if v is None:
                vals = enum_vals(prog, nm)
                v = vals[sorted(vals, key=lambda k: (k != "nil", k != "automatic", vals[k]))[0]]
            env[("m", fl["n"])] = ("i", v)
        elif t.k == "bool":
            env[("m", fl["n"])] = ("i", int((over or {}).get("compress", 0)))
        elif "basic_string" in t.s:
            env[("m", fl["n"])] = (over or {}).get("replace", ("lit", ""))
    return env


def expected(pref, v1, v2):
    """Which source must be used: v1/v2 are truth values for text being there."""
    order = {"prefer_id3v2": "21", "prefer_id3v1": "12", "id3v2_only": "2", "id3v1_only": "1"}[pref]
    for o in order:
        if o == "2" and v2 or o == "1" and v1:
            return o
    return None


def evaluation(prog, R, classes):
    R.rule("source", "whichever tags and fields are present, a directive shows its own attribute from the source its options select, and fails with a template error when there is none", 150)
    R.rule("modified", "every option value stored in a term is consulted when the term is evaluated", 20)
    prefs = enum_vals(prog, "all_source_preference")
    encs = enum_vals(prog, "v1_encoding")
    runs = 0
    term_of = {}
    for d, (names, letter, v1attrs, v2attr) in DIRECTIVES.items():
        cs = classes.get(d, {})
        if len(cs) != 1:
            for c, texts in cs.items():
                pass
        for c in sorted(x for x in cs if x):
            q = NS + c
            fs = [f for f in prog.methods(q) if f["n"].split("::")[-1] == "evaluate" and f.get("body") is not None]
            if len(fs) != 1:
                raise AnalysisBroken("no evaluation of %s" % c)
            f = fs[0]
            term_of[d] = (q, f)
            if v2attr is None:
                continue
            flds = fields(prog, q)
            has_pref = any(fl["t"].deref().k == "enum" and fl["t"].deref().rec.endswith("all_source_preference") for _, fl in flds)
            bad = {}
            for pref, pv in sorted(prefs.items()):
                if not has_pref and pref != ("id3v2_only" if not v1attrs else "prefer_id3v2"):
                    continue
                for s1 in ("null", "blank", "vanishing") + tuple("text:" + a for a in v1attrs):
                    for s2 in ("null", "absent", "empty", "text"):
                        v1 = {"vanish": ()}
                        if s1 == "vanishing":
                            v1 = {a: txt("v1:" + a) for a in v1attrs}
                            v1["vanish"] = tuple("v1:" + a for a in v1attrs)
                        elif s1.startswith("text:"):
                            v1[s1[5:]] = txt("v1:" + s1[5:])
                            if s1[5:] == "enh_genre":
                                v1["genre"] = txt("v1:genre")
                        # decoy fields: everything else in the tag is there
                        for a in ("album", "artist", "title", "year", "comment", "enh_genre"):
                            if a not in v1attrs:
                                v1[a] = txt("v1:" + a)
                        v2 = {a: txt("v2:" + a) for a in ("album", "artist", "title", "year", "content_type", "encoded_by") if a != v2attr}
                        if s2 in ("empty", "text"):
                            v2[v2attr] = txt("v2:" + v2attr, s2 == "empty")
                        E = Eval(prog, v1, v2)
                        env = default_fields(prog, q, {"all_source_preference": pv, "v1_encoding": encs["iso8859_1"]})
                        args = [("obj", "fi"), ("nil",) if s2 == "null" else ("obj", "v2"), ("obj", "ti"), ("nil",) if s1 == "null" else ("obj", "v1")]
                        if len(f["ps"]) != 4:
                            raise AnalysisBroken("evaluate has %d parameters" % len(f["ps"]))
                        rets, thr = E.run(f, args, env)
                        runs += 1
                        want = expected(pref, s1.startswith("text:"), s2 == "text" or s2 == "empty" and not v1attrs)
                        what = "%s with %s, ID3v1 %s, ID3v2 %s" % (names[0], pref, s1.replace("text:", "with "), s2)
                        key = "%s/%s/%s/%s" % (names[0], pref, s1.replace(":", "-"), s2)
                        msg = None
                        org = {"1": "v1:" + s1[5:], "2": "v2:" + v2attr}.get(want)
                        for v, x in rets:
                            o = origins(v)
                            if want is None:
                                if s2 == "empty" and not v1attrs:
                                    continue
                                msg = "shows %s though there is no such text" % (", ".join(sorted(o)) or "something")
                            elif o != {org}:
                                msg = "shows %s, not %s" % (", ".join(sorted(o)) or "nothing", org)
                        for t, x in thr:
                            if want is not None:
                                msg = "fails (%s) though %s is there" % (t, org)
                            elif NS + "error" not in list(prog.bases(t)) + [t]:
                                msg = "fails with %s, which is no template error" % t
                        if not rets and not thr:
                            msg = "has no outcome"
                        if msg:
                            bad.setdefault(msg.split(" though")[0], []).append((key, what + " " + msg))
                        else:
                            R.ok("source", what)
            for m, items in bad.items():
                for key, what in items[:3]:
                    R.bad("source", key, f, what)
            R.extra["evaluations_" + c] = runs
    R.extra["abstract_evaluations"] = runs
    # fields are consulted
    for d, (q, f) in term_of.items():
        names, letter, v1attrs, v2attr = DIRECTIVES[d]
        v1 = {a: txt("v1:" + a) for a in v1attrs} if v2attr else {}
        v1["vanish"] = ()
        v2 = {v2attr: txt("v2:" + v2attr)} if v2attr else {}
        read = set()
        for pref, pv in prefs.items():
            for b in (0, 1):
                E = Eval(prog, v1, v2)
                over = {"all_source_preference": pv, "compress": 1, "base": enum_vals(prog, "base")["hex"]}
                rets, thr = E.run(f, [("obj", "fi"), ("obj", "v2"), ("obj", "ti"), ("obj", "v1")], default_fields(prog, q, over))
                for v, x in rets:
                    read |= x.get("#read", frozenset())
                # a single returning path that skips a transformation is a miss
                common = None
                for v, x in rets:
                    r = x.get("#read", frozenset())
                    common = r if common is None else common & r
        for c, fl in fields(prog, q):
            if fl["n"] in read:
                R.ok("modified", "%s: %s" % (names[0], fl["n"]))
            else:
                R.bad("modified", "%s/%s" % (names[0], fl["n"]), f, "evaluating %s never looks at its option %s" % (names[0], fl["n"]))
    return term_of


def numbers(prog, R, term_of):
    R.rule("number", "sizes and checksums are printed as digits in the base and case asked for", 8)
    R.rule("file", "file-based directives show the part of the file name they are named after", 2)
    base, case = enum_vals(prog, "base"), enum_vals(prog, "hex_case")
    for d in ("size", "md5"):
        if d not in term_of:
            continue
        q, f = term_of[d]
        for bn, bv in base.items():
            for cn, cv in case.items():
                E = Eval(prog)
                rets, thr = E.run(f, [("obj", "fi"), ("nil",), ("obj", "ti"), ("nil",)], default_fields(prog, q, {"base": bv, "hex_case": cv}))
                want = ("num", d, 16 if bn == "hex" else 10)
                key = "%s/%s/%s" % (d, bn, cn)
                msg = None
                for v, x in rets:
                    items = [i for i in v[1:] if i[0] == "num"] if v[0] == "out" else [v] if v[0] == "num" else []
                    if v[0] != "out":
                        if v[0] == "txt" and v[1] == d or v[0] == "num":
                            continue
                        msg = "does not show the number"
                    elif not items:
                        msg = "does not show the number"
                    elif items[0][:3] != want:
                        msg = "is shown %s" % ("as raw characters" if items[0][2] == "raw" else "in base %s" % items[0][2] if items[0][1] == d else "as the " + items[0][1])
                    elif bn == "hex" and bool(items[0][3]) != (cn == "upper"):
                        msg = "is shown in the wrong case"
                if thr and not rets:
                    msg = "always fails"
                if msg:
                    R.bad("number", key, f, "with base %s and %s-case digits, the %s %s" % (bn, cn, d, msg))
                else:
                    R.ok("number", key)
    if "year" in term_of:
        q, f = term_of["year"]
        for fn, fv in sorted(enum_vals(prog, "year_format").items()):
            E = Eval(prog, {"vanish": ()}, {"year": txt("v2:year")})
            rets, thr = E.run(f, [("obj", "fi"), ("obj", "v2"), ("obj", "ti"), ("nil",)], default_fields(prog, q, {"year_format": fv}))
            cut = {bool(v[3]) for v, x in rets if v[0] == "txt"}
            if cut == {fn == "two_digits"}:
                R.ok("number", "year/" + fn)
            else:
                R.bad("number", "year/" + fn, f, "with %s the year is shown in the other format" % fn)
    for d in ("basename", "extension"):
        if d not in term_of:
            continue
        q, f = term_of[d]
        E = Eval(prog)
        rets, thr = E.run(f, [("obj", "fi"), ("nil",), ("obj", "ti"), ("nil",)], default_fields(prog, q))
        os_ = set().union(set(), *[origins(v) for v, x in rets])
        if os_ == {DIRECTIVES[d][2]}:
            R.ok("file", d)
        else:
            R.bad("file", d, f, "%s shows %s" % (d, ", ".join(sorted(os_)) or "nothing"))


NORM = {"utf_16_be": "utf_16be", "utf_16_le": "utf_16le", "iso8859_1": "iso_8859_1"}


def transforms(prog, R):
    R.rule("decode", "ID3v1 text is decoded from the encoding asked for, and guessing uses the first encoding that works", 8)
    R.rule("transform", "each transformation does what its option says", 9)
    enc = {x["v"]: x["n"].split("::")[-1].lower() for x in prog.enums["scribbu::encoding"]["e"]}

    def funcs(*types):
        out = []
        for f in prog.fns:
            if f.get("body") is None or "tbt_support" not in f["n"] or "basic_string" not in f["rt"].s:
                continue
            ts = [p["t"].deref() for p in f["ps"]]
            if len(ts) == len(types) and all((t.rec or t.s).endswith(x) or x in t.s for t, x in zip(ts, types)):
                out.append(f)
        return out
    # decoding
    fs = [f for f in prog.fns if f.get("body") is not None and "tbt_support" in f["n"] and f["ps"] and (f["ps"][-1]["t"].deref().rec or "") == NS + "v1_encoding" and
          any(x.get("k") == "call" and (x.get("f") or "").endswith("convert_encoding") for x in fn_nodes(f))]
    for f in fs[:1]:
        for en, ev in sorted(enum_vals(prog, "v1_encoding").items()):
            E = Eval(prog, {"vanish": ()}, fails=False)
            args = [txt("v1") if i == 0 else TOP for i in range(len(f["ps"]))]
            args[-1] = ("i", ev)
            rets, thr = E.run(f, args, Env())
            got = set()
            for v, x in rets:
                if v[0] != "txt":
                    got.add(None)
                else:
                    got |= {o[1] for o in v[3] if o[0] == "convert" and len(o) > 1}
                    if any(o[0] == "convert" and len(o) > 2 and enc.get(o[2]) != "utf_8" for o in v[3]):
                        got.add(-1)
            names = {enc.get(g, "?") if g is not None else None for g in got}
            if thr:
                R.bad("decode", en, f, "with v1-encoding %s, text that converts is rejected (%s)" % (en, thr[0][0]))
            elif None in names or not names or "?" in names:
                R.bad("decode", en, f, "with v1-encoding %s the text shown is not what was converted to UTF-8" % en)
            elif en != "automatic" and names != {NORM.get(en, en)}:
                R.bad("decode", en, f, "with v1-encoding %s the text is decoded as %s" % (en, ", ".join(sorted(names))))
            else:
                R.ok("decode", en)
        E = Eval(prog, {"vanish": ()}, fails=True)
        args = [txt("v1") if i == 0 else TOP for i in range(len(f["ps"]))]
        args[-1] = ("i", enum_vals(prog, "v1_encoding")["automatic"])
        rets, thr = E.run(f, args, Env())
        if any(v[0] == "txt" for v, x in rets):
            R.ok("decode", "guessing goes on after a failure")
        else:
            R.bad("decode", "guess", f, "guessing the encoding gives up at the first failure")
        for want, bs in (("utf_8", (0xef, 0xbb, 0xbf, 0x41)), ("utf_16be", (0xfe, 0xff, 0, 0x41)), ("utf_16le", (0xff, 0xfe, 0x41, 0))):
            E = Eval(prog, {"vanish": ()})
            E.bytes = bs
            args = [txt("v1") if i == 0 else ("i", 4) for i in range(len(f["ps"]))]
            args[-1] = ("i", enum_vals(prog, "v1_encoding")["automatic"])
            rets, thr = E.run(f, args, Env())
            got = {enc.get(o[1]) for v, x in rets if v[0] == "txt" for o in v[3] if o[0] == "convert" and len(o) > 2}
            if got == {want} or not got:
                R.ok("decode", "byte-order mark of " + want)
            else:
                R.bad("decode", "mark/" + want, f, "text that starts with the byte-order mark of %s is decoded as %s" % (want, ", ".join(sorted(map(str, got)))))
    if not fs:
        raise AnalysisBroken("nothing decodes ID3v1 text")
    # encoding
    for f in funcs("basic_string", "output_encoding"):
        for en, ev in sorted(enum_vals(prog, "output_encoding").items()):
            rets, thr = Eval(prog).run(f, [txt("t"), ("i", ev)], Env())
            got = {enc.get(o[2]) for v, x in rets if v[0] == "txt" for o in v[3] if o[0] == "convert" and len(o) > 2}
            frm = {enc.get(o[1]) for v, x in rets if v[0] == "txt" for o in v[3] if o[0] == "convert" and len(o) > 2}
            want = {NORM.get(en, en)}
            if got in (want, set() if en == "utf_8" else want) and frm <= {"utf_8"} and rets and all(v[0] == "txt" for v, x in rets):
                R.ok("transform", "output " + en)
            else:
                R.bad("transform", "output/" + en, f, "output=%s encodes as %s" % (en, ", ".join(sorted(str(g) for g in got)) or "nothing"))
    # capitalisation
    for f in funcs("basic_string", "capitalization"):
        for cn, cv in sorted(enum_vals(prog, "capitalization").items()):
            rets, thr = Eval(prog).run(f, [txt("t"), ("i", cv)], Env())
            ops = set()
            kept = True
            for v, x in rets:
                for w in (v[1] if v[0] == "cat" else (v,)):
                    if w[0] == "txt":
                        ops |= {o[0] for o in w[3]}
                kept = kept and "t" in origins(v)
            called = {(y.get("f") or "").split("::")[-1] for y in fn_nodes(f) if y.get("k") == "call"}
            up, low = bool(ops & {"to_upper", "to_upper_copy"}), bool(ops & {"to_lower", "to_lower_copy"})
            ok = {"nil": not ops, "all_upper": up and not low, "all_lower": low and not up, "capitalize": not up and not low and bool(ops)}.get(cn, True)
            if not (called & {"to_upper", "to_upper_copy", "to_lower", "to_lower_copy"}) and cn.startswith("all"):
                ok = True           # written in some other way: not judged here
            if ok and kept:
                R.ok("transform", "cap " + cn)
            else:
                R.bad("transform", "cap/" + cn, f, "cap=%s does not do that" % cn)
    # the article
    for f in funcs("basic_string", "the_xform"):
        lits = the_tests(f)
        for tn, tv in sorted(enum_vals(prog, "the_xform").items()):
            rets, thr = Eval(prog).run(f, [txt("t"), ("i", tv)], Env())
            ok = all("t" in origins(v) for v, x in rets) and bool(rets)
            cats = [v[1] for v, x in rets if v[0] == "cat"]
            if tn == "nil":
                ok = ok and not cats
            elif tn == "make_prefix":
                ok = ok and cats and all(c[0][0] == "lit" and c[0][1].strip().lower() == "the" and c[-1][0] == "txt" for c in cats)
            elif tn == "make_suffix":
                ok = ok and cats and all(c[-1][0] == "lit" and c[-1][1].lower() == ", the" and c[0][0] == "txt" for c in cats)
            if ok:
                R.ok("transform", "the " + tn)
            else:
                R.bad("transform", "the/" + tn, f, "the %s transformation does not give that" % tn)
        for lit, n, node in lits:
            if n is None or n == len(lit):
                R.ok("transform", "compares %r with as many characters" % lit)
            else:
                R.bad("transform", "the/length/" + lit.strip(", ").lower(), node, "%r is compared with %d characters" % (lit, n))
    # white space
    for f in funcs("basic_string", "bool", "basic_string"):
        for comp in (0, 1):
            for rep in ("", "_"):
                rets, thr = Eval(prog).run(f, [txt("t"), ("i", comp), ("lit", rep)], Env())
                key = "ws/%s%s" % ("compress" if comp else "keep", "/replace" if rep else "")
                msg = None
                for v, x in rets:
                    if v[0] != "txt" or v[1] != "t":
                        msg = "loses the text"
                        continue
                    sp = [o for o in v[3] if o[0] == "split"]
                    jn = [o for o in v[3] if o[0] == "join"]
                    if not comp and not rep:
                        if sp and sp[0][1] != ("i", 1):
                            msg = "changes white space though not asked to"
                    elif not sp and not jn and not v[3]:
                        msg = "leaves white space as it is"
                    elif sp and sp[0][1] != ("i", 0):
                        msg = "does not merge consecutive white space"
                    elif jn and jn[0][1][0] == "lit" and jn[0][1][1] != (rep or " "):
                        msg = "puts %r between words" % jn[0][1][1]
                if msg or not rets:
                    R.bad("transform", key, f, "with compress=%d and ws=%r the white space transformation %s" % (comp, rep, msg))
                else:
                    R.ok("transform", key)


def the_tests(f):
    """Literals compared, regardless of case, with a part of the text, and the length of that part."""
    out = []
    for x in fn_nodes(f):
        if x.get("k") == "call" and (x.get("f") or "").split("::")[-1] in ("iequals", "equals") and len(x["a"]) >= 2:
            lit = sub = None
            for a in x["a"][:2]:
                for y in walk(a):
                    if y.get("k") == "str":
                        lit = y["v"]
                    if y.get("k") == "call" and (y.get("f") or "").endswith("substr"):
                        sub = y
            if lit is None or sub is None:
                continue
            a = [z for z in sub["a"] if z.get("k") != "dflt"]
            n = None
            if len(a) >= 2 and const(a[0]) == 0 and const(a[1]) is not None:
                n = const(a[1])
            else:
                u = uncast(a[0])
                if u["k"] == "bin" and u["op"] == "-" and const(u["b"]) is not None:
                    n = const(u["b"])
            if n is not None and (n < 0 or n > 1000):
                n = None
            out.append((lit, n, x))
    return out


class Setter(Interp):
    """One step of a term taking its options."""

    def __init__(self, prog, key, wskey=None):
        Interp.__init__(self, prog)
        self.k, self.ws = key, wskey
        self.got = {}
        self.unknown_rounds = 1

    def compare(self, op, a, b):
        return Interp.compare(self, op, a, b)

    def member(self, e, base, env):
        if e["n"] == "first":
            k = self.ws if base == ("ws",) else self.k
            return TOP if k is None else ("i", k)
        if e["n"] == "second":
            return ("any", "ws" if base == ("ws",) else "opt")
        return TOP

    def elements(self, v):
        if v[0] == "any":
            return [("ws",)], True
        return Interp.elements(self, v)

    def deref(self, v):
        return v

    def call(self, n, obj, args, env):
        nm = (n.get("f") or n.get("cls") or "").split("::")[-1]
        if nm == "any_cast" and args:
            a = args[0]
            return [(("cast", a[1] if a[0] == "any" else "?", n["t"].deref().s) if n["t"].deref().k != "ptr" else ("any", "map"), env)], []
        if n.get("op") in ("->", "*") and args:
            return [(args[0], env)], []
        if n.get("op") == "=" and len(args) == 2:
            key = self.lkey(n["a"][0])
            return [(args[1], env.put(key, args[1]) if key is not None else env)], []
        return [(TOP, env)], []


def options(prog, R):
    R.rule("stored", "each option a term accepts is stored in a member of its own, as the type the grammar hands over", 10)
    # what the grammar hands over: key enumerator -> type in the any
    given = {}
    for f in prog.fns:
        if f["n"].split("::")[-1] != "tbtparse":
            continue
        for x in fn_nodes(f):
            if x.get("k") == "ctor" and x.get("cls") == "std::pair" and len(x["a"]) >= 2:
                k = uncast(x["a"][0])
                a = uncast(x["a"][1])
                while a is not None and a["k"] == "ctor" and a.get("cls") == "boost::any" and len(a["a"]) >= 1:
                    a = uncast(a["a"][0])
                if k is not None and k["k"] == "enum" and a is not None and a.get("t") is not None and k["n"].startswith(NS):
                    given.setdefault(k["n"], set()).add(a["t"].deref().s.replace("const ", ""))
    if len(given) < 8:
        raise AnalysisBroken("the grammar's options were not found")
    setters = {}
    for f in prog.fns:
        if f.get("body") is None or not (f.get("cls") or "").startswith(NS) or not f.get("inst") or len(f["ps"]) != 2:
            continue
        keys = set()
        for x in fn_nodes(f):
            if x.get("k") == "enum" and x["n"].rsplit("::", 1)[0].endswith("_opt"):
                keys.add(x["n"].rsplit("::", 1)[0])
        if len(keys) == 1:
            setters.setdefault((f["cls"], keys.pop()), f)
    if len(setters) < 2:
        raise AnalysisBroken("no term takes options")
    wsx = enum_vals(prog, "ws_xform")
    for (cls, en), f in sorted(setters.items()):
        short = cls.split("::")[-1]
        used = {}
        for x in prog.enums[en]["e"]:
            q = x["n"] if x["n"].startswith("scribbu") else en + "::" + x["n"]
            if q not in given:
                R.bad("stored", "%s/%s/never" % (short, q.split("::")[-1]), f, "no template sets the option %s" % q)
                continue
            for wn, wv in (sorted(wsx.items()) if "ws_" in q.rsplit("::", 1)[1] else [(None, None)]):
                S = Setter(prog, x["v"], wv)
                rets, thr = S.run(f, [TOP, TOP], Env())
                sets = set()
                for v, e in rets:
                    for k, val in e.items():
                        if isinstance(k, tuple) and k and k[0] == "m" and val[0] == "cast":
                            sets.add((k[1], val[2].replace("const ", "")))
                key = "%s/%s%s" % (short, q.split("::")[-1], "/" + wn if wn else "")
                if len(sets) != 1:
                    R.bad("stored", key, f, "the option %s of %s is %s" % (key.split("/", 1)[1], short, "stored nowhere" if not sets else "stored in several members"))
                    continue
                m, ty = sets.pop()
                want = given.get(NS + "ws_xform::" + wn) if wn else given[q]
                if m in used:
                    R.bad("stored", key, f, "the options %s and %s of %s share the member %s" % (used[m], key.split("/", 1)[1], short, m))
                elif want and not any(same(ty, w) for w in want):
                    R.bad("stored", key, f, "the option %s is handed over as %s but taken as %s" % (key, ", ".join(want), ty))
                else:
                    used[m] = key.split("/", 1)[1]
                    R.ok("stored", key)
                if thr:
                    R.bad("stored", key + "/throws", f, "the option %s of %s is rejected" % (key.split("/", 1)[1], short))
    # constructor arguments
    R.rule("argument", "each argument of a term's constructor reaches the term", 20)
    for f in prog.fns:
        if not f.get("ctor") or f.get("impl") or f.get("inst") or not (f.get("cls") or "").startswith(NS) or f.get("cpc") or f.get("mvc"):
            continue
        used = {y.get("id") for i in f.get("inits", ()) if i.get("e") is not None for y in walk(i["e"]) if y.get("k") == "var"}
        used |= {y.get("id") for y in fn_nodes(f) if y.get("k") == "var"}
        for p in f["ps"]:
            if not p["n"]:
                continue
            key = "%s/%s" % (f["cls"].split("::")[-1], p["n"])
            if p["id"] in used:
                R.ok("argument", key)
            else:
                R.bad("argument", key, f, "the constructor of %s ignores its argument %s" % (f["cls"], p["n"]))


def same(a, b):
    return a == b or {a, b} <= {"bool", "_Bool"} or "basic_string" in a and "basic_string" in b


def optional_groups(prog, R):
    R.rule("group", "an optional group is empty when a directive in it fails, and a failure outside a group is passed on", 2)
    n = 0
    for f in prog.fns:
        if f.get("body") is None or not any(x.get("k") == "call" and (x.get("f") or "") == "std::accumulate" for x in fn_nodes(f)):
            continue
        if f.get("cls") == NS + "subclause":
            n += 1
            rets, thr = Eval(prog).run(f, [("obj", "fi"), TOP, ("obj", "ti"), TOP], Env())
            kinds = {v[0] if v != ("lit", "") else "empty" for v, x in rets}
            if thr or kinds != {"txt", "empty"}:
                R.bad("group", "subclause", f, "an optional group %s" % ("passes on the failure of a directive in it" if thr else "does not show its terms, or nothing if one fails"))
            else:
                R.ok("group", "subclause")
        elif (f.get("cls") or "").endswith("template_processor"):
            n += 1
            if any(x.get("k") == "try" for x in fn_nodes(f)):
                rets, thr = Eval(prog).run(f, [TOP] * len(f["ps"]), Env())
                if not any(t.startswith(NS) for t, x in thr):
                    R.bad("group", "template", f, "the failure of a directive outside an optional group is swallowed")
                    continue
            R.ok("group", "template")
    if n == 0:
        raise AnalysisBroken("no evaluation of term lists found")


def check(prog, R):
    classes = language(prog, R)
    for d, cs in classes.items():
        if len(cs) > 1:
            for c, texts in sorted(cs.items(), key=lambda x: -len(x[1]))[1:]:
                R.bad("spelling", "%s/%s" % (d.replace(" ", "_"), texts[0]), "scribbu/tbt-parser.yy", "%s builds the term %s" % (texts[0], c))
            classes[d] = dict(sorted(cs.items(), key=lambda x: -len(x[1]))[:1])
    term_of = evaluation(prog, R, classes)
    numbers(prog, R, term_of)
    transforms(prog, R)
    options(prog, R)
    optional_groups(prog, R)
    R.assumptions.append("templates and the manual use the option names listed in the rule; text conversion keeps non-empty text non-empty except where stated")
