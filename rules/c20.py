"""C20: separated output has the same columns on every row."""

import re

from facts import AnalysisBroken
from flow import ANY, Flow, N, Out
from program import const, fn_nodes, uncast, walk

TECHNIQUE = "abstract interpretation of the printing code over the number of separators printed, as a linear form in the number of comments"

V23 = {"TP1": "TPE1", "TT2": "TIT2", "TAL": "TALB", "TCO": "TCON", "TEN": "TENC", "TYE": "TYER", "TYR": "TYER", "TLA": "TLAN", "CNT": "PCNT", "COM": "COMM",
       "UFI": "UFID", "TXX": "TXXX", "POP": "POPM", "XTG": "XTAG"}
# what a column of that name shows
LABELS = [(r"directory", r"parent"), (r"file$", r"filename"), (r"file size", r"size"), (r"version", r"version"), (r"revision", r"revision"), (r"flags", r"flags"), (r"unsync", r"unsynchroni[sz]ed"),
          (r"artist", r"artist|get_frame:TPE1"), (r"title", r"title|get_frame:TIT2"), (r"album", r"album|get_frame:TALB"), (r"content type", r"content_type|get_frame:TCON"),
          (r"encoded by", r"encoded_by|get_frame:TENC"), (r"year", r"year|get_frame:(TYER|TDRC)"), (r"lang", r"languages|get_frame:TLAN"), (r"# .*play count", r"has_frame:PCNT"),
          (r"play count", r"play_count"), (r"# .*comment", r"has_frame:COMM"), (r"comment #", r"text|comments"), (r"size", r"size"), (r"md5", r"get_md5|md5"), (r"v1\.1", r"v1_1"), (r"extended", r"extended"),
          (r"comment", r"comment"), (r"genr", r"genre")]


def is_stream(t):
    t = t.deref() if t.k in ("ref", "rref", "ptr") else t
    return "basic_ostream" in t.s or "basic_ofstream" in t.s or re.search(r"\bo(f|string)?stream\b", t.s) is not None


def rec_of(t):
    t = t.deref() if t.k in ("ref", "rref") else t.to if t.k == "ptr" and t.to is not None else t
    return t.rec if t.k == "rec" else None


def is_byte(t):
    t = t.deref() if t.k in ("ref", "rref") else t
    return t.k in ("int", "uint") and t.sz == 1


def is_int(t):
    t = t.deref() if t.k in ("ref", "rref") else t
    return t.k in ("int", "uint") and t.sz > 1


def is_text(t):
    t = t.deref() if t.k in ("ref", "rref") else t
    return t.k == "rec" and "basic_string" in (t.rec or t.s) or t.k == "ptr" and t.to is not None and t.to.k in ("int", "uint") and t.to.sz == 1


class Unclear(Exception):
    pass


class S:
    """What has been printed so far: a + b*n separators, and the stream's number base."""
    __slots__ = ("a", "b", "hex", "pre", "ended", "env")

    def __init__(self, a=0, b=0, hex=False, pre=False, ended=False, env=frozenset()):
        self.a, self.b, self.hex, self.pre, self.ended, self.env = a, b, hex, pre, ended, env

    def key(self):
        return (self.a, self.b, self.hex, self.pre, self.ended, self.env)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def but(self, **kw):
        d = {k: getattr(self, k) for k in S.__slots__}
        d.update(kw)
        return S(**d)

    def get(self, i):
        for k, v in self.env:
            if k == i:
                return v
        return None

    def put(self, i, v):
        e = frozenset((k, x) for k, x in self.env if k != i)
        return self.but(env=e | {(i, v)} if v is not None else e)


class Cols(Flow):
    def __init__(self, ctx, f, case, flags):
        Flow.__init__(self, ctx.prog)
        self.ctx, self.f, self.case, self.flags = ctx, f, case, flags
        self.cols = {}
        self.subs = {}
        self.raw = []           # text printed as it is
        self.based = []         # integers printed in a base that is not apparent
        self.ints = self.texts = 0
        self.uneven = []
        self.depth = 0
        self.sepfield = ctx.sepfield(f.get("cls"))

    # -- linear forms in the number of comments -----------------------------
    def lin(self, e, st):
        c = const(e)
        if c is not None:
            return (c, 0)
        e = uncast(e)
        c = const(e)
        if c is not None:
            return (c, 0)
        if e["k"] == "mem" and uncast(e["b"]) is not None and uncast(e["b"])["k"] == "this" and e["t"].k in ("uint", "int") and e["t"].sz > 1:
            return (0, 1) if self.case == "m" else (int(self.case), 0)
        if e["k"] == "var":
            v = st.get(e["id"])
            if v is not None and v[0] == "lin":
                return v[1]
        if e["k"] == "bin" and e["op"] in ("+", "-"):
            x, y = self.lin(e["a"], st), self.lin(e["b"], st)
            if x is not None and y is not None:
                s = 1 if e["op"] == "+" else -1
                return (x[0] + s * y[0], x[1] + s * y[1])
        return None

    # -- what is printed ----------------------------------------------------
    def seps(self, e, st):
        """Number of separators an expression prints, None if it is no constant text."""
        u = uncast(e)
        while u is not None and u["k"] == "ctor" and len(u["a"]) >= 1 and ("basic_string" in u["cls"] or u.get("copy") or u.get("move")):
            if len(u["a"]) >= 2 and self.seps(u["a"][1], st) == (1, 0):
                n = self.lin(u["a"][0], st)
                if n is None:
                    raise Unclear()
                return n
            u = uncast(u["a"][0])
        if u is None:
            return None
        if u["k"] == "mem" and uncast(u["b"]) is not None and uncast(u["b"])["k"] == "this" and u["n"] == self.sepfield:
            return (1, 0)
        if u["k"] in ("var", "mem") and (u.get("q") or u.get("cls")):
            q = u.get("q") or "%s::%s" % (u["cls"], u["n"])
            for g in self.prog.gvars.get(q, ()):
                if g.get("i") is not None:
                    s = [x for x in walk(g["i"]) if x.get("k") == "str"]
                    if len(s) == 1:
                        return self.seps(s[0], st)
        if u["k"] == "var":
            v = st.get(u["id"])
            if v == ("sep",):
                return (1, 0)
            if v is not None and v[0] == "str":
                return (0, 0)
        if u["k"] == "cond":
            x, y = self.seps(u["a"], st), self.seps(u["b"], st)
            if x is not None and x == y:
                return x
        if u["k"] == "str":
            return (u["v"].count(",") if self.sepfield is None else 0, 0)
        c = const(u)
        if c is not None and is_byte(u["t"]):
            return (int(c == ord(",")) if self.sepfield is None else 0, 0)
        return None

    def desc(self, e, st):
        """What an expression shows: the query it comes from."""
        for x in walk(e):
            if x.get("k") == "var":
                v = st.get(x["id"])
                if v is not None and v[0] == "desc":
                    return v[1]
            if x.get("k") == "call" and x.get("obj") is not None and not x.get("conv"):
                r = rec_of(x["obj"]["t"]) or x.get("ot") and rec_of(x["ot"])
                if r and r.startswith("scribbu::") and r != self.f.get("cls"):
                    nm = (x.get("f") or "").split("::")[-1]
                    if nm in ("begin", "end"):
                        continue
                    arg = ""
                    for a in x["a"]:
                        for y in walk(a):
                            t = None
                            if y.get("k") == "str":
                                t = y["v"]
                            elif y.get("k") == "var":
                                v = st.get(y["id"])
                                if v is not None and v[0] == "str":
                                    t = v[1]
                            if t is not None:
                                arg = ":" + V23.get(t, t)
                    return nm + arg
        return None

    def show(self, st, d):
        if d is not None:
            self.cols.setdefault((st.a, st.b), set()).add(d)

    def add(self, st, n):
        return st.but(a=st.a + n[0], b=st.b + n[1])

    def call(self, n, st):
        if n.get("noret"):
            return
        nm = (n.get("f") or "").split("::")[-1]
        if n["k"] == "call" and n.get("op") == "<<" and len(n["a"]) == 2 and is_stream(n["a"][0]["t"]):
            for x in self.printed(n, n["a"][1], st):
                yield (N, x)
            return
        if n["k"] == "call" and nm in ("put", "write") and n.get("obj") is not None and is_stream(n["obj"]["t"]) and n["a"]:
            for x in self.printed(n, n["a"][0], st):
                yield (N, x)
            return
        if n["k"] == "call" and nm == "fill_n" and len(n["a"]) == 3:
            if self.seps(n["a"][2], st) == (1, 0) and any("ostream" in x["t"].s for x in walk(n["a"][0]) if x.get("t") is not None):
                c = self.lin(n["a"][1], st)
                if c is None:
                    raise Unclear()
                yield (N, self.add(st, c))
                return
        if n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
            yield (N, self.assign(n["a"][0], n["a"][1], st))
            return
        # bytes obtained through an inserter
        for a in n.get("a") or ():
            for x in walk(a):
                if x.get("k") == "call" and (x.get("f") or "").split("::")[-1] == "back_inserter" and uncast(x["a"][0])["k"] == "var":
                    d = self.desc(n, st)
                    if d is not None:
                        st = st.put(uncast(x["a"][0])["id"], ("desc", d))
        # helpers that print
        if n["k"] == "call" and (any(is_stream(a["t"]) for a in n["a"]) or n.get("obj") is not None and uncast(n["obj"])["k"] == "this"):
            gs = [g for g in self.prog.targets(n) or () if g.get("body") is not None]
            if len(gs) == 1 and self.depth < 4 and self.prints(gs[0]):
                g = gs[0]
                env = st
                for p, a in zip(g["ps"], n["a"]):
                    s = self.seps(a, st) if not is_stream(a["t"]) else None
                    l = self.lin(a, st) if a["t"].k in ("int", "uint") else None
                    u = uncast(a)
                    if s == (1, 0):
                        env = env.put(p["id"], ("sep",))
                    elif l is not None:
                        env = env.put(p["id"], ("lin", l))
                    elif u["k"] == "str":
                        env = env.put(p["id"], ("str", u["v"]))
                    elif self.strings(a, st) is not None:
                        env = env.put(p["id"], ("strs", tuple(self.strings(a, st))))
                    elif u["k"] == "var" and st.get(u["id"]) is not None:
                        env = env.put(p["id"], st.get(u["id"]))
                    elif not is_stream(a["t"]) and self.desc(a, st) is not None:
                        env = env.put(p["id"], ("desc", self.desc(a, st)))
                self.depth += 1
                o = self.stmts([g["body"]], {env})
                self.depth -= 1
                for x in o.n | o.r:
                    yield (N, x.but(env=st.env))
                return
        yield (N, st)

    def prints(self, g):
        return any(x.get("k") == "call" and x.get("op") == "<<" and len(x["a"]) == 2 and is_stream(x["a"][0]["t"]) for x in fn_nodes(g))

    def strings(self, e, st):
        """The literals in a braced list."""
        u = uncast(e)
        while u is not None and u["k"] == "ctor" and len(u["a"]) >= 1:
            u = uncast(u["a"][0])
        if u is not None and u["k"] == "var":
            v = st.get(u["id"])
            return list(v[1]) if v is not None and v[0] == "strs" else None
        if u is not None and u["k"] == "init" and u["a"]:
            out = []
            for a in u["a"]:
                s = [x["v"] for x in walk(a) if x.get("k") == "str"]
                if len(s) != 1:
                    return None
                out += s
            return out
        if u is not None and u["k"] == "other" and u.get("ch"):
            return self.strings(u["ch"][0], st)
        return None

    def printed(self, n, e, st):
        u = uncast(e)
        t = e["t"]
        if u["k"] == "fn" or u["k"] == "un" and u["op"] == "&" and uncast(u["e"])["k"] == "fn":
            nm = (u.get("f") or uncast(u["e"]).get("f") if u["k"] == "un" else u["f"]).split("::")[-1]
            if nm in ("hex", "oct"):
                st = st.but(hex=True)
            elif nm == "dec":
                st = st.but(hex=False)
            elif nm == "endl":
                st = st.but(ended=True)
            return [st]
        if re.search(r"_Set(w|fill|precision|base)|_Resetios|pprint_manipulator|print_as_", t.s):
            return [st]
        s = self.seps(e, st)
        if s is not None:
            c = leaf_text(u)
            if c is not None and s == (0, 0) and c not in ("\n", "*"):
                self.show(st, "label:" + c)
            if c is not None and c.endswith("\n"):
                return [st.but(ended=True)]
            return [self.add(st, s).but(pre=c is not None and c.endswith("0x"))]
        r = rec_of(t)
        if r is not None and not is_text(t) and "filesystem" not in r:
            k = self.ctx.sub(self, u, r, st)
            self.subs[(st.a, st.b)] = (r, self.case)
            self.show(st, self.desc(e, st))
            if k is not None:
                return [self.add(st, k).but(pre=False)]
            return [st.but(pre=False)]
        self.show(st, self.desc(e, st))
        if is_text(t) or is_byte(t):
            self.texts += 1
            if not self.escaped(u, st):
                self.raw.append((n, e))
        elif is_int(t):
            self.ints += 1
            byte = e["k"] == "cast" and is_byte(u["t"])
            if st.hex and not st.pre and not byte:
                self.based.append((n, e))
        return [st.but(pre=False)]

    def escaped(self, u, st):
        u = uncast(u)
        while u["k"] == "ctor" and len(u["a"]) == 1:
            u = uncast(u["a"][0])
        if u["k"] == "call":
            if u.get("op") == "[]":
                return False
            gs = [g for g in self.prog.targets(u) or () if g.get("body") is not None]
            return bool(gs) and all(self.ctx.escaper(g) for g in gs)
        if u["k"] == "var":
            v = st.get(u["id"])
            return v is not None and v[0] in ("esc", "str") or u["id"] in self.ctx.escaped_locals(self.f)
        if u["k"] == "cond":
            return all(self.escaped(x, st) or self.seps(x, st) is not None for x in (u["a"], u["b"]))
        return const(u) is not None

    # -- variables ----------------------------------------------------------
    def value(self, e, st):
        l = self.lin(e, st) if e["t"].k in ("int", "uint") else None
        if l is not None:
            return ("lin", l)
        if self.strings(e, st) is not None:
            return ("strs", tuple(self.strings(e, st)))
        if not is_stream(e["t"]):
            d = self.desc(e, st)
            if d is not None:
                return ("desc", d)
        return None

    def assign(self, lhs, rhs, st):
        l = uncast(lhs)
        if l["k"] == "var":
            return st.put(l["id"], self.value(rhs, st))
        if l["k"] == "call" and (l.get("f") or "").split("::")[-1] == "tie":
            d = self.desc(rhs, st)
            for a in l["a"]:
                for x in walk(a):
                    if x.get("k") == "var":
                        st = st.put(x["id"], ("desc", d) if d else None)
        return st

    def node(self, n, st):
        if n["k"] == "bin" and n["op"] == "=":
            st = self.assign(n["a"], n["b"], st)
        yield (N, st)

    def declare(self, v, st):
        if v.get("i") is not None and not is_stream(v["t"]):
            x = self.value(v["i"], st)
            if x is not None:
                return st.put(v["id"], x)
        return st

    # -- conditions ---------------------------------------------------------
    def assume(self, c, st, truth):
        c = uncast(c)
        if c["k"] == "un" and c["op"] == "!":
            return self.assume(c["e"], st, not truth)
        if c["k"] == "mem" and c["t"].k == "bool" and uncast(c["b"]) is not None and uncast(c["b"])["k"] == "this":
            v = self.flags.get(c["n"])
            return st if v is None or v == truth else None
        if c["k"] == "bin" and c["op"] in ("==", "!=", "<", ">", "<=", ">="):
            v = self.compare(c, st)
            if v is not None:
                return st if v == truth else None
        if c["k"] == "var":
            v = st.get(c["id"])
            if v is not None and v[0] == "pos":
                r = {"first": False, "only": False, "mid": True, "last": True}[v[1]]
                return st if r == truth else None
        if c["k"] == "mem" and self.lin(c, st) is not None:
            x = self.lin(c, st)
            return st if (x != (0, 0)) == truth else None
        return st

    def compare(self, c, st):
        a, b, op = uncast(c["a"]), uncast(c["b"]), c["op"]
        if self.pos(b, st) is not None and self.pos(a, st) is None:
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        p = self.pos(a, st)
        l = self.lin(b, st)
        if l is None:
            return None
        if p is not None:
            where, off = p
            # the position is where + off; compare with 0 or with n
            n = (0, 1) if self.case == "m" else (int(self.case), 0)
            d = (l[0] - off, l[1])
            last = (n[0] - 1, n[1])
            if d == (0, 0) or d == (1, 0) and op in ("<", ">="):
                z = where in ("first", "only")
                if d == (1, 0):
                    return {"<": z, ">=": not z}[op]
                return {"==": z, "!=": not z, ">": not z, "<": False, "<=": z, ">=": True}[op]
            if d == last:
                z = where in ("last", "only")
                return {"==": z, "!=": not z, "<": not z, ">": False, ">=": z, "<=": True}[op]
            if d == n:
                return {"==": False, "!=": True, "<": True, ">": False, ">=": False, "<=": True}[op]
            return None
        x = self.lin(a, st)
        if x is None:
            return None
        d = (x[0] - l[0], x[1] - l[1])
        if d[1] == 0:
            return {"==": d[0] == 0, "!=": d[0] != 0, "<": d[0] < 0, ">": d[0] > 0, "<=": d[0] <= 0, ">=": d[0] >= 0}[op]
        lo = d[0] + 2 * d[1]        # n is two or more
        if d[1] > 0 and lo > 0:
            return {"==": False, "!=": True, "<": False, ">": True, "<=": False, ">=": True}[op]
        return None

    def pos(self, e, st):
        e = uncast(e)
        if e["k"] == "var":
            v = st.get(e["id"])
            return (v[1], 0) if v is not None and v[0] == "pos" else None
        if e["k"] == "bin" and e["op"] in ("+", "-") and const(e["b"]) is not None:
            p = self.pos(e["a"], st)
            return None if p is None else (p[0], p[1] + (const(e["b"]) if e["op"] == "+" else -const(e["b"])))
        return None

    # -- loops --------------------------------------------------------------
    def loop(self, s, st):
        body = s["s"]
        if s["k"] == "while" and body["k"] == "block" and body["s"] and not any(x.get("k") == "continue" for x in walk(body)):
            last = uncast(body["s"][-1])
            if last.get("k") == "un" and "++" in last["op"]:
                s = dict(s, k="for", init=None, inc=last, s=dict(body, s=body["s"][:-1]))
                body = s["s"]
        if s["k"] == "rfor":
            ss = self.strings(s["r"], st)
            if ss is None:
                u = uncast(s["r"])
                if u["k"] == "var":
                    ss = self.ctx.local_strings(self.f, u["id"])
            if ss is not None:
                o, cur = Out(), {st}
                for t in ss:
                    b = self.stmts([body], {x.put(s["v"]["id"], ("str", t)) for x in cur})
                    o.r |= b.r
                    o.n |= b.b
                    cur = b.n | b.c
                o.n |= cur
                return o
            d = self.desc(s["r"], st)
            return self.even(s, st.put(s["v"]["id"], ("desc", d) if d else None), st)
        if s["k"] == "for" and s.get("c") is not None:
            c = uncast(s["c"])
            if c["k"] == "bin" and c["op"] in ("<", "!=", ">"):
                a, b = uncast(c["a"]), c["b"]
                if a["k"] != "var" or c["op"] == ">":
                    a, b = uncast(c["b"]), c["a"]
                if a["k"] == "var":
                    pre = self.stmt(s["init"], st) if s.get("init") else Out([st])
                    o = Out()
                    for x in pre.n:
                        n = self.lin(b, x)
                        i0 = x.get(a["id"])
                        if n is None or i0 != ("lin", (0, 0)) or uncast(s["inc"])["k"] != "un" or "++" not in uncast(s["inc"])["op"]:
                            p = self.even(s, x, x)
                        else:
                            p = self.counted(s, x, a["id"], n)
                        o.n |= {y.put(a["id"], None) for y in p.n}
                        o.r |= p.r
                        o.t |= p.t
                    return o
        return self.even(s, st, st)

    def even(self, s, st, out):
        """A loop whose number of iterations depends on the data prints no separators."""
        b = self.stmts([s["s"]], {st})
        o = Out()
        o.r |= b.r
        for x in b.n | b.c | b.b:
            if (x.a, x.b) != (st.a, st.b):
                self.uneven.append(s)
                continue
            o.n.add(x.but(env=out.env))
        o.n.add(out)
        return o

    def counted(self, s, st, i, n):
        o = Out()
        full = (0, 1) if self.case == "m" else (int(self.case), 0)

        def once(states, kind):
            b = self.stmts([s["s"]], {x.put(i, ("pos", kind)) for x in states})
            if b.b:
                raise Unclear()
            o.r.update(b.r)
            return b.n | b.c
        if n[1] == 0:
            cur = {st}
            if n == full:
                for k in range(n[0]):
                    cur = once(cur, "only" if n[0] == 1 else "first" if k == 0 else "last" if k == n[0] - 1 else "mid")
            else:
                for k in range(max(n[0], 0)):
                    if k > 64:
                        raise Unclear()
                    b = self.stmts([s["s"]], {x.put(i, ("lin", (k, 0))) for x in cur})
                    if b.b:
                        raise Unclear()
                    cur = b.n | b.c
            o.n = cur
            return o
        if n != full:
            raise Unclear()
        for x in once({st}, "first"):
            mids = once({x}, "mid")
            ds = {(y.a - x.a, y.b - x.b) for y in mids}
            if len(ds) > 1:
                self.uneven.append(s)
                continue
            for y in mids:
                d = y.a - x.a
                z = y.but(a=x.a - 2 * d, b=x.b + d)
                o.n |= once({z}, "last")
        return o


def leaf_text(u):
    u = uncast(u)
    while u is not None and u["k"] == "ctor" and u["a"]:
        u = uncast(u["a"][0])
    if u is not None and u["k"] == "str":
        return u["v"]
    if u is not None and u["k"] != "mem" and const(u) is not None and is_byte(u["t"]):
        return chr(const(u) & 0xff)
    return None


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.esc = {}
        self.printers = {}
        for q, rs in prog.recs.items():
            if "scribbu::pprinter" in prog.bases(q) and self.sepfield(q):
                self.printers[q] = {}
        for f in prog.fns:
            if f.get("cls") in self.printers and f.get("body") is not None and f["fn"].split("::")[-1].startswith("pprint_") and f["ps"]:
                self.printers[f["cls"]][f["fn"].split("::")[-1]] = f
        self.via = {}           # reporter class -> printer class

    def rec(self, q):
        r = self.prog.recs.get(q)
        return r[0] if isinstance(r, list) and r else r

    def sepfield(self, q):
        r = self.rec(q) if q else None
        if not r:
            return None
        c = [f["n"] for f in r.get("fields") or () if f["t"].k in ("int", "uint") and f["t"].sz == 1]
        return c[0] if len(c) == 1 else None

    def escaper(self, g, seen=()):
        """A function that is given text and looks at the separator (or leaves that to one that does)."""
        if g["u"] in self.esc:
            return self.esc[g["u"]]
        r = False
        if g["rt"] is not None and is_text(g["rt"]) and any(is_text(p["t"]) for p in g["ps"]) and g["u"] not in seen:
            chars = {p["id"] for p in g["ps"] if is_byte(p["t"])}
            for n in fn_nodes(g):
                if n.get("k") == "var" and n["id"] in chars:
                    r = True
                if n.get("k") == "mem" and n["n"] == self.sepfield(g.get("cls")) and n.get("cls") == g.get("cls"):
                    r = True
        self.esc[g["u"]] = r
        return r

    def escaped_locals(self, f):
        if ("el", f["u"]) not in self.cache:
            out = set()
            for n in fn_nodes(f):
                if n.get("k") == "decl":
                    for v in n["d"]:
                        u = uncast(v["i"]) if v.get("i") is not None else None
                        while u is not None and u["k"] == "ctor" and len(u["a"]) == 1:
                            u = uncast(u["a"][0])
                        if u is not None and u["k"] == "call":
                            gs = [g for g in self.prog.targets(u) or () if g.get("body") is not None]
                            if gs and all(self.escaper(g) for g in gs):
                                out.add(v["id"])
            for n in fn_nodes(f):
                if n.get("k") == "call" and n.get("op") in ("=", "+=") and uncast(n["a"][0])["k"] == "var":
                    out.discard(uncast(n["a"][0])["id"])
            self.cache[("el", f["u"])] = out
        return self.cache[("el", f["u"])]

    def local_strings(self, f, vid):
        for n in fn_nodes(f):
            if n.get("k") == "decl":
                for v in n["d"]:
                    if v["id"] == vid and v.get("i") is not None:
                        s = [x["v"] for x in walk(v["i"]) if x.get("k") == "str"]
                        return s or None
        return None

    def count(self, f, case):
        """Separators one printer prints: (form, Cols), or None."""
        k = (f["u"], case)
        if k not in self.cache:
            C = Cols(self, f, case, {})
            try:
                o = C.run(f, S())
                ends = set(o.n) | set(o.r)
                self.cache[k] = ({(x.a, x.b) for x in ends}, C, {x.hex for x in ends})
            except Unclear:
                self.cache[k] = (None, C, set())
        return self.cache[k]

    def sub(self, C, u, r, st):
        """Separators printed by inserting an object of class r."""
        p = C.f.get("cls") if C.f.get("cls") in self.printers else self.via.get(C.f.get("cls"))
        if p is None:
            return None
        fs = []
        if r.endswith("_frame") and r.startswith("scribbu::id3v2_"):
            d = C.desc(u, st) or ""
            i = d.split(":")[-1]
            if i.startswith("T") and i != "TXXX":
                fs = [f for nm, f in self.printers[p].items() if nm.endswith("_text_frame")]
            else:
                fs = [f for nm, f in self.printers[p].items() if nm == "pprint_" + i]
        else:
            for nm, f in self.printers[p].items():
                q = rec_of(f["ps"][0]["t"])
                if q == r or q and r in self.prog.bases(q):
                    fs.append(f)
        got = set()
        for f in fs:
            c = self.count(f, C.case)[0]
            got |= c if c is not None else {None}
        if len(got) == 1 and None not in got:
            return got.pop()
        return None


def short(f):
    return re.sub(r"scribbu::", "", f["fn"])


def family(nm):
    nm = nm[len("pprint_"):]
    m = re.match(r"(unk_)?id3v2_\d_(text_)?frame$", nm)
    if m:
        return "unk_frame" if m[1] else "text_frame"
    if re.match(r"unk_id3v2_\d_frame$", nm):
        return "unk_frame"
    m = re.match(r"v2_\d_tag$", nm)
    if m:
        return "v2_tag"
    nm = re.sub(r"_2_4$", "", nm)
    return V23.get(nm, nm)


def check(prog, R):
    R.rule("columns", "a function prints the same number of separators on every path", 60)
    R.rule("siblings", "the same thing has the same columns in every version of ID3v2, and in every format", 30)
    R.rule("order", "the columns of a tag come in the same order in every version, and in that of the header", 60)
    R.rule("header", "a row has as many columns as the header, whichever tags are present", 8)
    R.rule("escaped", "text from a tag is escaped before it is printed", 60)
    R.rule("quote", "everything that would end a field or a row is escaped", 3)
    R.rule("base", "a number is decimal unless marked otherwise, and the stream is left that way", 40)
    ctx = Ctx(prog)
    if len(ctx.printers) < 2:
        raise AnalysisBroken("the printers of separated output were not found")
    cases = ("0", "1", "m")
    said = {"0": "no comments are", "1": "one comment is", "m": "several comments are"}
    fams = {}
    for p, fs in sorted(ctx.printers.items()):
        for nm, f in sorted(fs.items()):
            for case in cases:
                got, C, bases = ctx.count(f, case)
                if got is None:
                    continue
                bad = C.uneven or len(got) > 1
                if bad:
                    R.bad("columns", short(f), C.uneven[0] if C.uneven else f, "%s does not always print the same number of columns" % f["fn"])
                else:
                    R.ok("columns", (short(f), case))
                    fams.setdefault((family(nm), case), []).append((f, got.copy().pop(), C))
                if case != "m":
                    continue
                for n, e in C.raw:
                    R.bad("escaped", "%s/%s" % (short(f), C.desc(e, S()) or "text"), n, "text from the tag is printed as it is")
                for i in range(C.texts - len(C.raw)):
                    R.ok("escaped", (short(f), i))
                for n, e in C.based:
                    R.bad("base", "%s/%s" % (short(f), C.desc(e, S()) or "number"), n, "a number is printed in hexadecimal, without saying so")
                if True in bases:
                    R.bad("base", "%s/left" % short(f), f, "%s leaves the stream printing numbers in hexadecimal" % f["fn"])
                else:
                    R.ok("base", (short(f), "left"))
                for i in range(C.ints - len(C.based)):
                    R.ok("base", (short(f), i))
    for (fam, case), l in sorted(fams.items(), key=str):
        forms = {}
        for f, c, C in l:
            forms.setdefault(c, []).append((f, C))
        if len(forms) > 1:
            f = min(forms.values(), key=len)[0][0]
            R.bad("siblings", fam, f, "%s prints another number of columns than its counterparts when %s shown" % (f["fn"], said[case]))
            continue
        R.ok("siblings", (fam, case))
        if case != "m" or len(l) < 2:
            continue
        allc = sorted({k for f, c, C in l for k in C.cols})
        for k in allc:
            kinds = {}
            for f, c, C in l:
                d = frozenset(x for x in C.cols.get(k, ()) if not x.startswith("label:"))
                kinds.setdefault(d, []).append(f)
            if len(kinds) > 1 and fam in ("v2_tag", "v1_tag", "track_data"):
                f = min(kinds.values(), key=len)[0]
                R.bad("order", "%s/%d" % (short(f), k[0] + 3 * k[1]), f, "column %s of %s shows %s, where others show %s" % (k[0] + 1, f["fn"], "/".join(sorted(min(kinds.items(), key=lambda x: len(x[1]))[0])) or "nothing", "/".join(sorted(max(kinds.items(), key=lambda x: len(x[1]))[0])) or "nothing"))
            else:
                R.ok("order", (fam, k))
    quotes(prog, R, ctx)
    reporters(prog, R, ctx, cases, said)


def quotes(prog, R, ctx):
    """What an escaping function takes to need escaping."""
    n = 0
    for f in prog.fns:
        if f.get("body") is None or not (f.get("cls") in ctx.printers) or not ctx.escaper(f):
            continue
        sets = []
        for x in fn_nodes(f):
            if x.get("k") == "call" and (x.get("f") or "").split("::")[-1] in ("find_first_of", "find_first_not_of", "strpbrk", "replace_if", "count_if", "find_if", "any_of", "none_of", "transform"):
                sets.append(x)
        tests = [x for x in fn_nodes(f) if x.get("k") == "bin" and x["op"] == "||"]
        outer = [x for x in tests if not any(x is uncast(y) for t in tests for y in (t["a"], t["b"]))]
        sets += [{"k": "call", "l": x["l"], "a": [x]} for x in outer]
        if not sets:
            continue
        parms = [p for p in f["ps"] if is_byte(p["t"])]
        inits = {}
        for x in fn_nodes(f):
            if x.get("k") == "decl":
                for v in x["d"]:
                    if v.get("i") is not None:
                        inits[v["id"]] = v["i"]
        for x in sets:
            have, names = set(), set()

            def look(e, depth=0):
                for y in walk(e):
                    c = const(y) if y.get("k") not in ("call",) and y.get("t") is not None and is_byte(y["t"]) else None
                    if c is not None:
                        have.add(c & 0xff)
                    if y.get("k") == "str":
                        have.update(ord(ch) for ch in y["v"])
                    if y.get("k") == "var" and y["id"] in inits and depth < 3:
                        look(inits[y["id"]], depth + 1)
                    if y.get("k") == "var":
                        names.add(y["id"])
                    if y.get("k") == "mem":
                        names.add(y["n"])
                    if y.get("k") == "lambda" and y["fn"].get("body") is not None:
                        for z in fn_nodes(y["fn"]):
                            if z.get("k") == "var":
                                names.add(z["id"])
                            if z.get("k") == "mem":
                                names.add(z["n"])
                            c = const(z) if z.get("t") is not None and z.get("k") in ("int", "cast", "char") else None
                            if c is not None:
                                have.add(c & 0xff)
            for a in x["a"]:
                look(a)
            n += 1
            want = [("the separator", (parms[0]["id"] in names) if parms else ctx.sepfield(f["cls"]) in names), ("newline", 10 in have), ("carriage return", 13 in have)]
            if len(parms) > 1:
                want.append(("the quote", parms[1]["id"] in names))
            for w, ok in want:
                key = "%s/%s" % (short(f), w.replace("the ", "").replace(" ", "_"))
                if ok:
                    R.ok("quote", key)
                else:
                    R.bad("quote", key, x, "text with %s in it (and nothing else that is special) is printed as it is" % w)
        doubled(R, f, parms)
    R.extra["escaping_functions"] = sum(1 for v in ctx.esc.values() if v)


def doubled(R, f, parms):
    """Inside quoted text, every quote is written twice."""
    if len(parms) < 2:
        return
    esc = parms[1]["id"]
    loops = [x for x in fn_nodes(f) if x.get("k") in ("for", "while", "do", "rfor")]
    if not any(y.get("k") == "var" and y["id"] == esc for x in loops for y in walk(x)):
        return
    n = 0
    for x in loops:
        for y in walk(x):
            m = (y.get("f") or "").split("::")[-1]
            if y.get("k") != "call":
                continue
            vals = y["a"][1:] if y.get("op") == "+=" else y["a"] if m in ("push_back", "append") else ()
            if vals and is_byte(vals[-1]["t"]):
                n += max(1, const(vals[0]) or 1) if len(vals) == 2 else 1
            for z in vals:
                for w in walk(z):
                    if w.get("k") == "call" and (w.get("f") or "").split("::")[-1] == "substr" and any(const(v) == 1 for v in walk(w["a"][-1]) if v.get("t") is not None):
                        n += 1
    key = "%s/doubled" % short(f)
    if n >= 2:
        R.ok("quote", key)
    else:
        R.bad("quote", key, f, "a quote inside quoted text is not written twice")


def reporters(prog, R, ctx, cases, said):
    made = {}
    for f in prog.fns:
        if f.get("ctor") and f.get("cls"):
            for i in f.get("inits") or ():
                for x in walk(i.get("e") or {"k": "null"}):
                    if x.get("k") == "new":
                        q = rec_of(x["t"])
                        if q in ctx.printers and "manipulator" in " ".join(prog.bases(f["cls"])) and not f.get("cpc"):
                            made.setdefault(f["cls"], q)
    done = 0
    for f in prog.fns:
        if not f.get("ctor") or f.get("body") is None or not f.get("cls"):
            continue
        p = None
        for x in fn_nodes(f):
            if x.get("k") == "ctor" and x["cls"] in made:
                p = (made[x["cls"]], x)
        if p is None:
            continue
        ctx.via[f["cls"]] = p[0]
        sep = ctx.sepfield(f["cls"])
        flags = sorted({n["n"] for g in prog.fns if g.get("cls") == f["cls"] and g.get("body") is not None for n in fn_nodes(g) if n.get("k") == "mem" and n.get("t") is not None and n["t"].k == "bool" and n.get("cls") == f["cls"]})
        rows = [g for g in prog.fns if g.get("cls") == f["cls"] and g.get("body") is not None and not g.get("ctor") and not g.get("dtor") and any(x.get("k") == "call" and x.get("op") == "<<" and len(x["a"]) == 2 and is_stream(x["a"][0]["t"]) for x in fn_nodes(g)) and any(rec_of(q["t"]) for q in g["ps"])]
        if not any(x.get("k") == "str" and len(x["v"]) > 3 for x in fn_nodes(f)):
            continue
        # comments: both go by the same number
        a0 = uncast(p[1]["a"][0]) if p[1]["a"] else None
        if a0 is None or a0["k"] not in ("mem", "var"):
            R.bad("header", "%s/comments" % f["cls"], p[1], "the number of comments in a row is not that in the header")
        else:
            R.ok("header", (f["cls"], "comments"))
        for m in range(1 << len(flags)):
            fl = {x: bool(m >> i & 1) for i, x in enumerate(flags)}
            for case in cases:
                H = Cols(ctx, f, case, fl)
                try:
                    o = H.run(f, S())
                except Unclear:
                    continue
                hs = {(x.a, x.b) for x in set(o.n) | set(o.r)}
                key = short(f).split("::")[0]
                if len(hs) != 1:
                    R.bad("header", "%s/header" % key, f, "the header has no fixed number of columns")
                    continue
                h = hs.pop()
                if h[0] < 3:
                    continue        # no header
                for g in rows:
                    C = Cols(ctx, g, case, fl)
                    try:
                        o = C.run(g, S())
                    except Unclear:
                        continue
                    gs = {(x.a, x.b) for x in set(o.n) | set(o.r)}
                    if not gs:
                        continue
                    done += 1
                    if gs != {h}:
                        w = sorted(gs - {h})[0]
                        n = {"0": 0, "1": 1, "m": 4}[case]
                        R.bad("header", "%s/%s" % (key, case), g, "a row has %d columns where the header has %d, when %s shown" % (w[0] + w[1] * n + 1, h[0] + h[1] * n + 1, said[case]))
                    else:
                        R.ok("header", (key, g["fn"], case, m))
                    if C.uneven:
                        R.bad("columns", short(g), C.uneven[0], "%s does not always print the same number of columns" % g["fn"])
                    for x, e in C.raw:
                        R.bad("escaped", "%s/%s" % (short(g), C.desc(e, S()) or "text"), x, "text is printed as it is")
                    if gs != {h} or case != "m":
                        continue
                    names(R, ctx, key, f, g, H, C, p[0])
    if not done:
        raise AnalysisBroken("no report with a header found")


def names(R, ctx, key, f, g, H, C, printer):
    cols = {k: set(v) for k, v in C.cols.items()}
    for pos, (q, case) in C.subs.items():
        for h in ctx.printers[printer].values():
            r = rec_of(h["ps"][0]["t"])
            if r == q or r and q in ctx.prog.bases(r):
                _, D, _ = ctx.count(h, case)
                for k, v in D.cols.items():
                    cols.setdefault((pos[0] + k[0], pos[1] + k[1]), set()).update(v)
    for k, v in sorted(H.cols.items()):
        label = " ".join(x[6:] for x in sorted(v) if x.startswith("label:")).strip()
        show = sorted(x for x in cols.get(k, ()) if not x.startswith("label:"))
        for rx, want in LABELS:
            if re.search(rx, label, re.I):
                if show and not all(re.fullmatch(want, s) for s in show):
                    R.bad("order", "%s/%s" % (key, re.sub(r"\W+", "_", label)), f, "the column headed '%s' shows %s" % (label, "/".join(show)))
                elif show:
                    R.ok("order", (key, label))
                break
