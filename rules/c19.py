"""C19: JSON output is well-formed whatever the tags contain."""

from facts import AnalysisBroken
from flow import ANY, Flow, N, THR
from program import const, fn_nodes, uncast, walk, where

TECHNIQUE = "typestate: every path through the printer drives a JSON push-down recogniser; provenance of every string printed; conditional constant propagation through the escaping routine"

CAP = 60


# -- the recogniser: (stack, mode, base, printer) ---------------------------------
def begin():
    return ((), "val", "?", "json")


def done(s):
    return not s[0] and s[1] == "after"


def after(s):
    return (s[0], "after") + s[2:]


def char(s, c):
    stack, mode = s[0], s[1]
    rest = s[2:]
    if mode in ("str", "kstr"):
        if c == "\\":
            return (stack, mode + "\\") + rest
        if c == '"':
            return (stack, "after" if mode == "str" else "colon") + rest
        return s if ord(c) >= 0x20 else None
    if mode in ("str\\", "kstr\\"):
        return (stack, mode[:-1]) + rest if c in '"\\/bfnrtu' else None
    if mode.startswith("lit:"):
        if mode[4] != c:
            return None
        return (stack, "lit:" + mode[5:] if mode[5:] else "after") + rest
    if mode == "num":
        if c in "0123456789.eE+-":
            return s
        return char((stack, "after") + rest, c)
    if c in " \t\r\n":
        return s
    if mode in ("val", "val]"):
        if c == "{":
            return (stack + ("{",), "key}") + rest
        if c == "[":
            return (stack + ("[",), "val]") + rest
        if c == '"':
            return (stack, "str") + rest
        if c in "-0123456789":
            return (stack, "num") + rest
        for w in ("true", "false", "null"):
            if c == w[0]:
                return (stack, "lit:" + w[1:]) + rest
        if c == "]" and mode == "val]":
            return (stack[:-1], "after") + rest
        return None
    if mode in ("key", "key}"):
        if c == '"':
            return (stack, "kstr") + rest
        if c == "}" and mode == "key}":
            return (stack[:-1], "after") + rest
        return None
    if mode == "colon":
        return (stack, "val") + rest if c == ":" else None
    if mode == "after" and stack:
        if c == ",":
            return (stack, "key" if stack[-1] == "{" else "val") + rest
        if c == "}" and stack[-1] == "{" or c == "]" and stack[-1] == "[":
            return (stack[:-1], "after") + rest
    return None


def feed(s, piece):
    """The states after one piece of output; or a message."""
    k = piece[0]
    if k == "lit":
        for i, c in enumerate(piece[1]):
            t = char(s, c)
            if t is None:
                return "the text %r does not continue well-formed JSON at %r" % (piece[1], piece[1][i:])
            s = t
        return [s]
    instr = s[1] in ("str", "kstr")
    if s[1] == "num" and k != "num":
        s = after(s)
    isval = s[1] in ("val", "val]")
    if k == "base":
        return [s[:2] + (piece[1],) + s[3:]]
    if k == "printer":
        return [s[:3] + (piece[1],)]
    if k == "nothing":
        return [s]
    if k == "num":
        if instr or s[1] == "num":
            return [s]
        if isval:
            if s[2] != "dec":
                return "a number is printed as a JSON value in a base that is not known to be ten"
            return [(s[0], "num") + s[2:]]
        return "a number is printed where JSON allows no value"
    if k == "esc":
        return [s] if instr else "text is printed outside of a JSON string"
    if k == "object":
        if s[3] != "json":
            return "a frame or tag is printed on a stream that was not told to print JSON"
        return [after(s)] if isval else "a JSON value is printed where none is allowed"
    if k == "val":
        return [after(s)] if isval else "a JSON value is printed where none is allowed"
    if k == "vals":
        if s[1] != "val]":
            return "a list of JSON values is printed outside of an array"
        return [s, after(s)]
    if k == "vals1":
        if s[1] == "val]" or s[1] == "val" and s[0][-1:] == ("[",):
            return [after(s)]
        return "a list of JSON values is printed outside of an array"
    if k == "raw":
        return "%s is printed without having been escaped" % piece[1] if instr else "%s is printed outside of a JSON string" % piece[1]
    return None


def value(seq):
    """A sequence of pieces forms one JSON value."""
    S = [begin()]
    for p in seq:
        T = []
        for s in S:
            r = feed(s, p)
            if not isinstance(r, list):
                return r or "unknown text"
            T += r
        S = list(dict.fromkeys(T))
    S = [after(s) if s[1] == "num" else s for s in S]
    return None if all(done(s) for s in S) else "the text ends before the JSON value does"


def fold(seq):
    """A sequence of pieces, lists of JSON values made one piece."""
    if len(seq) > 1 and seq[-1][0] == "val":
        if len(seq) == 3 and seq[0][0] in ("val", "vals1") and seq[1] == ("lit", ","):
            return (("vals1",),)
        return seq
    if seq and (seq[0][0] == "lit" and seq[0][1][:1] in ('{', '[', '"') or ("object",) in seq) and value(seq) is None:
        return (("val",),)
    return seq


def bare(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    return t


def is_stream(t):
    t = bare(t)
    return t is not None and t.rec in STREAMS


STREAMS = {"std::basic_ostream", "std::basic_ostringstream", "std::basic_stringstream", "std::ostrstream", "std::strstream", "std::basic_ofstream", "std::basic_iostream"}


def is_string(t):
    t = bare(t)
    return t is not None and t.rec == "std::basic_string"


def is_text(t):
    if is_string(t):
        return True
    t = bare(t)
    return t is not None and (t.k == "ptr" and t.to is not None and t.to.k in ("int", "uint") and t.to.sz == 1 or (t.rec or "").endswith("string_view"))


class St:
    """Variables: strings and local streams as sequences of pieces, the output as a recogniser state."""
    __slots__ = ("d", "h")

    def __init__(self, d):
        self.d = d
        self.h = hash(frozenset(d.items()))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.d == o.d

    def set(self, k, v):
        d = dict(self.d)
        d[k] = v
        return St(d)


class Json(Flow):
    def __init__(self, prog, R, escapers, manips, objects, root):
        Flow.__init__(self, prog)
        self.R, self.escapers, self.manips, self.objects, self.root = R, escapers, manips, objects, root
        self.pieces = 0
        self.msgs = {}
        self.undecided = False
        self.returns = set()

    # -- what an expression prints ------------------------------------------
    def seqs(self, e, st):
        """Alternatives of piece sequences of a string-like expression."""
        e0 = e
        e = uncast(e)
        k = e["k"]
        if k == "str":
            return [(("lit", e["v"]),)]
        c = const(e0)
        t = bare(e0.get("t"))
        if t is not None and t.k in ("int", "uint") and t.sz == 1 and c is not None:
            return [(("lit", chr(c & 0xff)),)]
        if k == "cond":
            return self.seqs(e["a"], st) + self.seqs(e["b"], st)
        if k == "ctor" and is_string(e.get("t")):
            a = [x for x in e.get("a") or () if bare(x.get("t")) is None or bare(x["t"]).rec != "std::allocator"]
            if not a:
                return [()]
            if len(a) == 1:
                return self.seqs(a[0], st)
            return [(("raw", "text"),)]
        if k == "init" and len(e.get("a") or ()) == 1:
            return self.seqs(e["a"][0], st)
        if k == "var":
            v = self.get(e, st)
            if v is not None and v[0] == "seq":
                return [v[1]]
            if v is not None and v[0] == "esc":
                return [(("esc",),)]
        if k == "call":
            f = e.get("f") or ""
            m = f.split("::")[-1]
            if e.get("op") == "+" and is_string(e.get("t")):
                out = []
                for a in self.seqs(e["a"][0], st):
                    for b in self.seqs(e["a"][1], st):
                        out.append(a + b)
                return out
            if e.get("fu") in self.escapers:
                return [(("esc",),)]
            if m in ("move", "forward") and e.get("a"):
                return self.seqs(e["a"][0], st)
            if m == "to_string" and f.startswith("std::"):
                return [(("num",),)]
            if m == "join" and len(e.get("a") or ()) >= 2:
                return self.joined(e, st)
            if m == "str" and e.get("obj") is not None:
                v = self.get(uncast(e["obj"]), st)
                if v is not None and v[0] == "seq":
                    return [self.unterminated(e, v[1])]
            if m in ("c_str", "data", "str") and e.get("obj") is not None:
                return self.seqs(e["obj"], st)
            if is_string(e.get("t")) and e.get("fu") in self.prog.by_usr and self.local(e):
                r = self.helper(e, st)
                if r is not None:
                    return r
        return [(("raw", "text from the tag" if k != "var" else "%s" % e["n"]),)]

    def local(self, e):
        f = self.prog.by_usr[e["fu"]]
        return f.get("body") is not None and (f.get("cls") == self.root or f["l"][0].endswith("json-pprinter.cc") or "json" in f["l"][0])

    def unterminated(self, e, seq):
        """str() of an old-style string stream takes the text up to a terminator that must have been put there."""
        t = bare(uncast(e["obj"]).get("t"))
        old = t is not None and "strstream" in (t.rec or "")
        out = tuple(p for p in seq if p != ("ends",))
        if old and ("ends",) not in seq:
            return (("raw", "text of an unterminated string stream"),)
        return out

    def helper(self, e, st):
        """Strings a function of the printer returns."""
        f = self.prog.by_usr[e["fu"]]
        if len(self.stack) > 6 or any(x is f for x in self.stack):
            return None
        d = {}
        for p, a in zip(f["ps"], e.get("a") or ()):
            if is_text(p["t"]):
                s = self.seqs(a, st)
                d[p["id"]] = ("seq", s[0] if len(s) == 1 else (("raw", "text"),))
        return self.sub(f, St(d))

    def sub(self, f, st):
        a = Json(self.prog, None, self.escapers, self.manips, self.objects, self.root)
        a.stack = list(self.stack)
        a.want_returns = True
        a.run(f, st)
        self.undecided |= a.undecided
        self.msgs.update(a.msgs)
        r = sorted(a.returns, key=repr)
        return r or None

    def lambda_of(self, e):
        for x in walk(e):
            if x.get("k") == "lambda":
                return x["fn"]
            if x.get("k") == "fn" and x.get("fu") in self.prog.by_usr:
                return self.prog.by_usr[x["fu"]]
        return None

    def joined(self, e, st):
        x = uncast(e["a"][0])
        v = self.get(x, st) if x["k"] == "var" else None
        sep = self.seqs(e["a"][1], st)
        if v is None or v[0] != "vec":
            return [(("raw", "text from the tag"),)]
        if all(value(s) is None for s in v[1]) and sep == [(("lit", ","),)]:
            return [(("vals",),)]
        for s in v[1]:
            m = value(s)
            if any(p[0] in ("lit", "val", "vals", "object") for p in s) and m is not None:
                self.msgs.setdefault(("join", where(e)), (e, "the values joined here: " + m))
        if all(all(p[0] == "esc" for p in s) for s in v[1]) and all(p[0] == "lit" for s in sep for p in s):
            return [(("esc",),)]
        return [(("raw", "text from the tag"),)]

    def get(self, e, st):
        if e.get("k") != "var":
            return None
        v = st.d.get(e["id"])
        n = 0
        while v is not None and v[0] == "alias" and n < 8:
            v = st.d.get(v[1])
            n += 1
        return v

    def key(self, e, st):
        e = uncast(e)
        while e["k"] == "call" and e.get("op") == "<<":
            e = uncast(e["a"][0])
        if e["k"] == "call" and (e.get("f") or "").split("::")[-1] in ("put", "write", "flush") and e.get("obj") is not None:
            return self.key(e["obj"], st)
        if e["k"] == "call" and is_stream(e.get("t")):
            for a in e.get("a") or ():
                if is_stream(a.get("t")):
                    return self.key(a, st)
        if e["k"] != "var":
            return None
        k = e["id"]
        v = st.d.get(k)
        while v is not None and v[0] == "alias":
            k = v[1]
            v = st.d.get(k)
        return k if v is not None else None

    def item(self, e, st):
        """Alternatives of pieces for one inserted operand."""
        x = uncast(e)
        t = bare(e.get("t"))
        if x["k"] == "fn":
            m = (x.get("f") or "").split("::")[-1]
            if m in ("hex", "dec", "oct"):
                return [(("base", m),)]
            if m == "ends":
                return [(("ends",),)]
            if m == "endl":
                return [(("lit", "\n"),)]
            return [(("nothing",),)]
        if x["k"] == "call" and (x.get("f") or "").startswith("std::"):
            m = x["f"].split("::")[-1]
            if m == "setbase":
                c = const(x["a"][0])
                return [(("base", {10: "dec", 16: "hex", 8: "oct"}.get(c, "?")),)]
            if m in ("setw", "setfill", "setprecision", "setiosflags", "resetiosflags"):
                return [(("nothing",),)]
        if t is None:
            return [(("raw", "something"),)]
        if t.k == "rec":
            if t.rec in self.manips:
                return [(("printer", self.manips[t.rec]),)]
            if t.rec in self.objects or any(b in self.objects for b in self.prog.bases(t.rec)):
                return [(("object",),)]
            if is_string(t):
                return self.seqs(e, st)
            return [(("raw", "a %s" % t.rec.split("::")[-1]),)]
        if t.k in ("ptr", "arr"):
            return self.seqs(e, st)
        if t.k in ("int", "uint") and t.sz == 1:
            if const(e) is not None:
                return [(("lit", chr(const(e) & 0xff)),)]
            return [(("raw", "a single byte, as a character,"),)]
        if t.k in ("int", "uint", "bool", "float", "enum"):
            return [(("num",),)]
        return [(("raw", "something"),)]

    # -- flow -------------------------------------------------------------------
    def emit(self, n, key, alts, st):
        v = st.d[key]
        out = []
        if v[0] == "seq":
            for s in alts:
                z = v[1] + tuple(p for p in s if p[0] not in ("nothing",))
                if len(z) > CAP:
                    self.undecided = True
                    z = z[:CAP]
                out.append(st.set(key, ("seq", z)))
            return out
        for s in alts:
            S = [v[1]]
            for p in s:
                self.pieces += 1
                T = []
                for x in S:
                    if x is None:
                        T.append(None)
                        continue
                    r = feed(x, p)
                    if isinstance(r, list):
                        T += r
                    else:
                        self.msgs.setdefault((self.stack[0]["n"], where(n), r), (n, r or "unknown text"))
                        T.append(None)
                S = list(dict.fromkeys(T))
            out += [st.set(key, ("out", x)) for x in S]
        return out

    def call(self, n, st):
        outs = [st]
        f = n.get("f") or ""
        m = f.split("::")[-1]
        if n["k"] == "call":
            if n.get("op") == "<<" and len(n.get("a") or ()) == 2 and is_stream(n["a"][0].get("t")):
                k = self.key(n["a"][0], st)
                if k is not None:
                    outs = self.emit(n, k, self.item(n["a"][1], st), st)
            elif m in ("put", "write") and n.get("obj") is not None and is_stream(n["obj"].get("t")):
                k = self.key(n["obj"], st)
                if k is not None:
                    outs = self.emit(n, k, self.item(n["a"][0], st) if m == "put" else [(("raw", "a block of bytes"),)], st)
            elif n.get("op") in ("+=", "=") and n.get("a") and is_string(n["a"][0].get("t")):
                x = uncast(n["a"][0])
                if x["k"] == "var":
                    old = self.get(x, st)
                    base = old[1] if n["op"] == "+=" and old is not None and old[0] == "seq" else ()
                    outs = []
                    for s in self.seqs(n["a"][1], st):
                        z = fold(base + fold(s))
                        if len(z) > CAP:
                            self.undecided, z = True, z[:CAP]
                        outs.append(st.set(x["id"], ("seq", z)))
            elif m in ("push_back", "emplace_back") and n.get("obj") is not None:
                x = uncast(n["obj"])
                v = self.get(x, st)
                if v is not None and v[0] == "vec":
                    outs = [st.set(x["id"], ("vec", v[1] | frozenset(self.seqs(n["a"][0], st))))]
                elif v is not None and v[0] == "seq":
                    outs = [st.set(x["id"], ("seq", (v[1] + s)[:CAP])) for s in self.seqs(n["a"][0], st)]
            elif m == "transform" and f.startswith("std::") and len(n["a"]) == 4:
                x = [y for y in walk(n["a"][2]) if y.get("k") == "var"]
                g = self.lambda_of(n["a"][3])
                if len(x) == 1 and g is not None:
                    v = self.get(x[0], st)
                    if v is not None and v[0] == "vec":
                        r = self.sub(g, st) if g.get("body") is not None else None
                        if g.get("u") in self.escapers:
                            r = [(("esc",),)]
                        outs = [st.set(x[0]["id"], ("vec", v[1] | frozenset(r or [(("raw", "text"),)])))]
            else:
                tg = self.prog.targets(n)
                os = [(i, a) for i, a in enumerate(n.get("a") or ()) if is_stream(a.get("t")) and self.key(a, st) is not None]
                if tg and os and len(self.stack) < 8 and not any(t is x for t in tg for x in self.stack):
                    for t in tg:
                        z = st
                        for i, a in os:
                            if i < len(t["ps"]):
                                z = z.set(t["ps"][i]["id"], ("alias", self.key(a, st)))
                        for p, a in zip(t["ps"], n["a"]):
                            if is_text(p["t"]):
                                s = self.seqs(a, st)
                                z = z.set(p["id"], ("seq", s[0] if len(s) == 1 else (("raw", "text"),)))
                        yield from self.inline(n, t, z)
                    return
        for x in outs:
            yield (N, x)
        if self.may_throw(n):
            yield (THR, st, ANY)

    def declare(self, v, st):
        t = bare(v["t"])
        if t is None:
            return st
        if is_stream(v["t"]):
            i = v.get("i")
            x = uncast(i) if i is not None else None
            if v["t"].k in ("ref", "rref") and x is not None:
                k = self.key(x, st)
                return st.set(v["id"], ("alias", k)) if k is not None else st
            return st.set(v["id"], ("seq", ()))
        if t.k == "bool":
            c = const(v["i"]) if v.get("i") is not None else None
            return st.set(v["id"], ("bool", c)) if c is not None else st
        if is_string(t):
            s = self.seqs(v["i"], st) if v.get("i") is not None else [()]
            if len(s) == 1:
                return st.set(v["id"], ("seq", s[0]))
            if all(value(q) is None for q in s):
                return st.set(v["id"], ("seq", (("val",),)))
            if all(all(p[0] == "esc" or p[0] == "lit" and plain(p[1]) for p in q) for q in s):
                return st.set(v["id"], ("seq", (("esc",),)))
            return st.set(v["id"], ("seq", (("raw", v["n"]),)))
        if t.rec == "std::vector" and t.targs and is_string(t.targs[0]):
            return st.set(v["id"], ("vec", frozenset()))
        if t.k == "ptr" and v.get("i") is not None and t.to is not None and t.to.k in ("int", "uint") and t.to.sz == 1:
            s = self.seqs(v["i"], st)
            return st.set(v["id"], ("seq", s[0])) if len(s) == 1 else st.set(v["id"], ("seq", (("raw", v["n"]),)))
        return st

    def node(self, n, st):
        if n["k"] == "bin" and n["op"] == "=":
            x = uncast(n["a"])
            t = bare(x.get("t"))
            if x["k"] == "var" and t is not None and t.k == "bool":
                st = st.set(x["id"], ("bool", const(n["b"])))
        yield (N, st)

    def assume(self, c, st, truth):
        x = uncast(c)
        if x["k"] == "un" and x["op"] == "!":
            return self.assume(x["e"], st, not truth)
        if x["k"] == "var":
            v = st.d.get(x["id"])
            if v is not None and v[0] == "bool":
                if v[1] is not None and bool(v[1]) != truth:
                    return None
                return st
        if x["k"] == "call" and (x.get("f") or "").endswith("::empty") and x.get("obj") is not None:
            v = self.get(uncast(x["obj"]), st)
            if v is not None and v[0] == "seq":
                if not v[1] and not truth:
                    return None
                if truth and any(p[0] in ("val", "vals1", "num", "object") or p[0] == "lit" and p[1] for p in v[1]):
                    return None
            if v is not None and v[0] == "vec" and not v[1] and not truth:
                return None
        return Flow.assume(self, c, st, truth)

    def ret(self, n, st):
        if getattr(self, "want_returns", False) and len(self.stack) >= 1 and n.get("e") is not None:
            for s in self.seqs(n["e"], st):
                self.returns.add(s)
        return st


def plain(s):
    return all(ord(c) >= 0x20 and c not in '"\\' for c in s)


# -- the escaping routine -------------------------------------------------------------
class Esc(Flow):
    """What the routine emits for one character value: constants propagated through its tests."""

    def __init__(self, prog, v):
        Flow.__init__(self, prog)
        self.v = v
        self.alts = set()

    def val(self, e):
        c = const(e)
        if c is not None:
            return c
        x = uncast(e)
        if x["k"] == "var" and x["id"] in self.ids:
            t = bare(e.get("t"))
            if t is not None and t.k == "uint":
                return self.v & ((1 << 8 * t.sz) - 1)
            return self.v if self.v < 128 else self.v - 256
        if x["k"] == "cast" or e["k"] == "cast":
            return self.val(x.get("e") or e["e"])
        if x["k"] == "bin":
            a, b = self.val(x["a"]), self.val(x["b"])
            if a is None or b is None:
                if x["op"] == "&&" and (a == 0 or b == 0):
                    return 0
                if x["op"] == "||" and (a or b):
                    return 1
                return None
            try:
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b, "&&": bool(a and b), "||": bool(a or b),
                        "&": a & b, "|": a | b, "+": a + b, "-": a - b, ">>": a >> b if 0 <= b < 64 else 0}.get(x["op"])
            except TypeError:
                return None
        if x["k"] == "un" and x["op"] == "!":
            a = self.val(x["e"])
            return None if a is None else int(not a)
        if x["k"] == "call":
            m = (x.get("f") or "").split("::")[-1]
            a = self.val(x["a"][0]) if x.get("a") else None
            if a is not None and m == "iscntrl":
                return int(a < 32 or a == 127)
            if a is not None and m == "isprint":
                return int(32 <= a < 127)
        return None

    def assume(self, c, st, truth):
        v = self.val(c)
        if v is not None and bool(v) != truth:
            return None
        return st

    def labels(self, items):
        return [const(l["c"]) for ls, _ in items for l in ls if l["k"] == "case"]

    def case_enter(self, s, label, st, items):
        v = self.val(s["c"])
        if v is None:
            return st
        labels = self.labels(items)
        if label.get("k") == "default":
            return st if v not in labels else None
        return st if const(label["c"]) == v else None

    def case_none(self, s, st, items):
        v = self.val(s["c"])
        if v is not None and v in self.labels(items):
            return None
        return st

    def text(self, e):
        x = uncast(e)
        if x["k"] == "str":
            return x["v"]
        t = bare(e.get("t"))
        v = self.val(e)
        if t is not None and t.k in ("int", "uint") and t.sz == 1 and v is not None:
            return chr(v & 0xff)
        if t is not None and t.k in ("int", "uint") and t.sz > 1:
            return "#"
        if x["k"] == "ctor" and is_string(x.get("t")) and len(x.get("a") or ()) in (1, 2):
            return self.text(x["a"][0])
        if x["k"] == "call" and x.get("op") == "+" and is_string(x.get("t")):
            a, b = self.text(x["a"][0]), self.text(x["a"][1])
            return None if a is None or b is None else a + b
        return None

    def call(self, n, st):
        out = None
        tg = self.prog.targets(n) if n["k"] == "call" else ()
        if tg and len(self.stack) < 5 and not any(t is x for t in tg for x in self.stack) and any(self.val(a) is not None and const(a) is None for a in n.get("a") or ()):
            for t in tg:
                for p, a in zip(t["ps"], n["a"]):
                    if self.val(a) is not None and const(a) is None:
                        self.ids.add(p["id"])
                yield from self.inline(n, t, st)
            return
        m = (n.get("f") or "").split("::")[-1]
        if n["k"] == "call":
            if n.get("op") in ("<<", "+=") and len(n["a"]) == 2:
                out = self.text(n["a"][1])
            elif m in ("push_back", "put", "append") and n.get("a"):
                out = self.text(n["a"][0])
        if out is not None:
            st = st + out
            if len(st) > 40:
                st = st[:40]
        yield (N, st)


SHORT = {8: "b", 9: "t", 10: "n", 12: "f", 13: "r", 0x22: '"', 0x5c: "\\"}


def escaper_ok(prog, f):
    """Characters the routine lets through unescaped; None if it is not understood."""
    loops = [n for n in fn_nodes(f) if n.get("k") in ("rfor", "for", "while", "do")]
    rf = [n for n in loops if n["k"] == "rfor"]
    if len(rf) == 1:
        ids, body = {rf[0]["v"]["id"]}, rf[0]["s"]
    elif len(loops) == 1:
        # the character taken from the text in the loop
        ids, body = set(), loops[0]["s"]
        for n in walk(body):
            if n.get("k") == "decl":
                for v in n["d"]:
                    t = bare(v["t"])
                    if t is not None and t.k in ("int", "uint") and t.sz == 1:
                        ids.add(v["id"])
        if not ids:
            return None
    else:
        return None
    bad = []
    for v in list(range(0x20)) + [0x22, 0x5c]:
        a = Esc(prog, v)
        a.ids = ids
        a.stack = [f]
        o = a.stmts([body], {""})
        outs = o.n | o.c | o.b
        good = {"\\u00#", "\\u#", "\\u%04x" % v, "\\u%04X" % v} | ({"\\" + SHORT[v]} if v in SHORT else set())
        if not outs or any(x not in good for x in outs):
            bad.append(v)
    return bad


def check(prog, R):
    R.rule("well-formed", "on every path what a JSON printing operation writes is one complete JSON value, tag-derived text only inside strings and escaped", 20)
    R.rule("escape", "the escaping routine escapes quotation marks, backslashes and every control character", 1)
    classes = [c for c in prog.recs if "json" in c.lower() and any("pprinter" in b for b in prog.bases(c))]
    if not classes:
        raise AnalysisBroken("there is no JSON pretty-printer")
    base = [b for b in prog.bases(classes[0])][-1]
    manips, objects = {}, set()
    for c in prog.recs:
        if any(b.endswith("pprint_manipulator") for b in prog.bases(c)) or c.endswith("pprint_manipulator"):
            makes = {x["cls"] for f in prog.methods(c) if f.get("body") is not None for x in fn_nodes(f) if x.get("k") == "ctor" and x.get("cls") in prog.recs}
            manips[c] = "json" if makes & set(classes) else "other"
    for f in prog.fns:
        if f["n"].split("::")[-1] == "operator<<" and len(f["ps"]) == 2 and is_stream(f["ps"][0]["t"]):
            t = bare(f["ps"][1]["t"])
            if t is not None and t.rec in prog.recs and f.get("body") is not None and dispatches(f):
                objects.add(t.rec)
    if len(objects) < 4:
        raise AnalysisBroken("the insertion operators of tags and frames were not found")
    for cls in classes:
        escapers = {}
        for f in prog.methods(cls) + [f for f in prog.fns if f.get("cls") is None and "json" in f["l"][0]]:
            if "escape" in f["n"].split("::")[-1] and f.get("body") is not None and len(f["ps"]) == 1:
                if not is_string(f["ps"][0]["t"]):
                    # a form for another type: made of the one for text, or of its own
                    inner = [x for x in fn_nodes(f) if x.get("k") == "call" and "escape" in (x.get("f") or "")]
                    if inner:
                        escapers[f["u"]] = f
                        continue
                r = escaper_ok(prog, f)
                if r is None:
                    inner = [x for x in fn_nodes(f) if x.get("k") == "call" and "escape" in (x.get("f") or "")]
                    if inner:
                        continue
                    raise AnalysisBroken("%s: the escaping routine is not understood" % where(f))
                escapers[f["u"]] = f
                if r:
                    R.bad("escape", f["n"], f, "%s lets %s through unescaped" % (f["n"], ", ".join("0x%02x" % v for v in r[:40])))
                else:
                    R.ok("escape", f["n"])
        if not escapers:
            raise AnalysisBroken("%s has no escaping routine" % cls)
        npieces = 0
        for f in sorted(prog.methods(cls), key=lambda f: f["n"]):
            if f.get("body") is None or not f.get("over") or not f["ps"]:
                continue
            os = [p for p in f["ps"] if is_stream(p["t"])]
            if not os:
                continue
            a = Json(prog, R, escapers, manips, objects, cls)
            o = a.run(f, St({os[0]["id"]: ("out", begin())}))
            npieces += a.pieces
            name = f["n"].split("::")[-1]
            for s in o.n | o.r:
                v = s.d[os[0]["id"]][1]
                if v is not None and v[1] == "num":
                    v = after(v)
                if v is not None and not done(v):
                    a.msgs.setdefault((f["n"], "end"), (f, "the JSON value is not complete when printing ends"))
            if a.undecided and not a.msgs:
                R.extra.setdefault("undecided", []).append(name)
                continue
            if a.msgs:
                for i, (n, msg) in enumerate(a.msgs.values()):
                    R.bad("well-formed", name + ("/%d" % i if i else ""), n, "%s: %s" % (name, msg))
            else:
                R.ok("well-formed", name)
        R.extra["pieces"] = npieces


def dispatches(f):
    """The operator picks a printing operation by the object's type."""
    return any(n.get("k") == "typeid" for n in fn_nodes(f)) or any(
        n.get("k") == "call" and (n.get("f") or "").split("::")[-1].startswith("pprint_") for n in fn_nodes(f))
