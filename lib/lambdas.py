"""Local lambdas that are only ever called are written out where they are called."""

from program import uncast, walk

SIMPLE = {"var", "int", "bool", "enum", "this", "str", "null", "float"}


def clone(n):
    if isinstance(n, dict):
        return {k: clone(v) if isinstance(v, (dict, list)) else v for k, v in n.items() if not k.startswith("_")}
    if isinstance(n, list):
        return [clone(x) for x in n]
    return n


def simple(e):
    e = uncast(e)
    if e["k"] == "mem":
        return simple(e["b"])
    if e["k"] == "un" and e["op"] in ("*", "&", "-"):
        return simple(e["e"])
    if e["k"] == "bin" and e["op"] in ("+", "-"):
        return simple(e["a"]) and simple(e["b"])
    if e["k"] == "ctor" and (e.get("copy") or e.get("move")) and len(e["a"]) == 1:
        return simple(e["a"][0])
    return e["k"] in SIMPLE


def body_of(lam):
    """(statements, value) of a lambda with no return but a last one, else None"""
    b = lam["fn"]["body"]
    ss = [s for s in b.get("s", ()) if s["k"] != "null_s"]
    rets = [x for x in walk(b, lambdas=False) if x.get("k") == "return"]
    if any(x.get("k") in ("label", "goto") for x in walk(b)):
        return None
    if not rets:
        return ss, None
    if len(rets) == 1 and ss and ss[-1] is rets[0]:
        return ss[:-1], rets[0].get("e")
    return None


def changed(f):
    out = {}
    for n in walk(f["body"]):
        k = n.get("k")
        e = None
        if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            e = n["a"]
        elif k == "un" and n["op"] in ("++", "--", "p++", "p--", "&"):
            e = n["e"]
        elif k == "call" and n.get("op") in ("=", "+=", "-=", "++", "--", "<<=", "|="):
            e = n["a"][0] if n["a"] else None
        if e is not None:
            e = uncast(e)
            if e is not None and e["k"] == "var":
                out[e.get("id")] = True
    return out


def candidates(f):
    """Variable -> lambda, for lambdas that can be written out."""
    decl, uses, calls, known = {}, {}, {}, {p["id"] for p in f["ps"]}
    for n in walk(f["body"]):
        k = n.get("k")
        if k == "decl":
            for v in n["d"]:
                known.add(v["id"])
                i = uncast(v["i"]) if v.get("i") is not None else None
                while i is not None and i["k"] in ("ctor", "init") and len(i.get("a") or ()) == 1:
                    i = uncast(i["a"][0])
                if i is not None and i["k"] == "lambda" and i["fn"].get("body") and not i["fn"].get("dep"):
                    decl[v["id"]] = i
        elif k == "rfor":
            known.add(n["v"]["id"]) if isinstance(n.get("v"), dict) and "id" in n["v"] else None
        elif k == "lambda":
            known |= {p["id"] for p in n["fn"].get("ps", ())}
        elif k == "var":
            uses[n.get("id")] = uses.get(n.get("id"), 0) + 1
        elif k == "call" and n.get("op") == "()" and n["a"]:
            e = uncast(n["a"][0])
            if e["k"] == "var":
                calls[e.get("id")] = calls.get(e.get("id"), 0) + 1
    if not decl:
        return {}
    mod = changed(f)
    out = {}
    for v, lam in decl.items():
        if not calls.get(v) or calls[v] != uses.get(v) or calls[v] > 6 or body_of(lam) is None:
            continue
        if any(c.get("id") is not None and (c["id"] not in known or not c.get("ref") and c["id"] in mod) for c in lam.get("caps", ())):
            continue
        out[v] = lam
    return out


class Writer:
    def __init__(self, f, lams):
        self.f = f
        self.lams = lams
        self.left = set()

    def called(self, e):
        """The lambda an expression is a call of."""
        while e is not None and e["k"] in ("cast", "ctor") and (e["k"] == "cast" or (e.get("copy") or e.get("move")) and len(e["a"]) == 1):
            e = e["e"] if e["k"] == "cast" else e["a"][0]
        if e is None or e["k"] != "call" or e.get("op") != "()" or not e["a"]:
            return None
        v = uncast(e["a"][0])
        return (e, v["id"]) if v["k"] == "var" and v.get("id") in self.lams else None

    def expand(self, c, v):
        lam = self.lams[v]
        ss, val = body_of(lam)
        ps = [{"k": "decl", "l": c["l"], "d": [{"n": p["n"], "id": p["id"], "t": p["t"], "i": a, "l": c["l"]}]}
              for p, a in zip(lam["fn"]["ps"], c["a"][1:])]
        if len(c["a"]) - 1 != len(ps) or len(ps) != len(lam["fn"]["ps"]):
            return None
        return ps + clone(ss), clone(val)

    def value(self, e):
        """Calls of lambdas that are one expression are replaced by it."""
        if isinstance(e, list):
            for i, x in enumerate(e):
                if isinstance(x, dict):
                    e[i] = self.value(x)
            return e
        if not isinstance(e, dict):
            return e
        for k, x in list(e.items()):
            if k in ("t", "vt", "ft", "l", "id", "caps", "rt", "at", "bt", "tt", "ot", "of", "ct") or not isinstance(x, (dict, list)):
                continue
            e[k] = self.value(x)
        if e.get("k") == "call" and e.get("op") == "()" and e["a"]:
            v = uncast(e["a"][0])
            if v["k"] == "var" and v.get("id") in self.lams:
                lam = self.lams[v["id"]]
                ss, val = body_of(lam)
                ps = lam["fn"]["ps"]
                if not ss and val is not None and len(ps) == len(e["a"]) - 1 and all(simple(a) for a in e["a"][1:]):
                    sub = {p["id"]: a for p, a in zip(ps, e["a"][1:])}
                    wr = {uncast(x["a"] if x["k"] == "bin" else x["e"]).get("id") for x in walk(val)
                          if x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") or x.get("k") == "un" and x["op"] in ("++", "--", "p++", "p--")}
                    if not wr & set(sub):
                        return self.subst(clone(val), sub)
        return e

    def subst(self, e, sub):
        if isinstance(e, list):
            return [self.subst(x, sub) if isinstance(x, (dict, list)) else x for x in e]
        if e.get("k") == "var" and e.get("id") in sub:
            return clone(sub[e["id"]])
        for k, x in list(e.items()):
            if k not in ("t", "vt", "ft", "l", "id", "caps", "rt", "at", "bt", "tt", "ot", "of", "ct") and isinstance(x, (dict, list)):
                e[k] = self.subst(x, sub)
        return e

    def one(self, s):
        """A statement as the list of statements it becomes."""
        k = s["k"]
        if k in ("call", "cast"):
            c = self.called(s)
            if c is not None:
                r = self.expand(*c)
                if r is not None:
                    ss, val = r
                    return [{"k": "block", "l": s["l"], "s": ss + ([val] if val is not None else [])}]
        spot = None
        if k == "decl" and len(s["d"]) == 1 and s["d"][0].get("i") is not None:
            spot = (s["d"][0], "i")
        elif k == "return" and s.get("e") is not None:
            spot = (s, "e")
        elif k == "bin" and s["op"].endswith("=") and s["op"] not in ("==", "!=", "<=", ">="):
            spot = (s, "b")
        elif k == "call" and s.get("op") in ("=", "+=", "-=") and len(s["a"]) == 2:
            spot = (s["a"], 1)
        if spot is not None:
            c = self.called(spot[0][spot[1]])
            if c is not None:
                r = self.expand(*c)
                plain = r is not None and not any(x.get("k") == "decl" and any(v["t"] is not None and v["t"].k == "rec" for v in x["d"]) for x in r[0][len(c[0]["a"]) - 1:])
                if r is not None and r[1] is not None and (plain or k != "decl"):
                    ss, val = r
                    spot[0][spot[1]] = val
                    out = ss + [s]
                    return out if k == "decl" else [{"k": "block", "l": s["l"], "s": out}]
        return [s]

    def stmts(self, n):
        """Rewrite every list of statements at or below n."""
        if isinstance(n, list):
            for x in n:
                if isinstance(x, (dict, list)):
                    self.stmts(x)
            return
        for k, x in list(n.items()):
            if k in ("t", "vt", "ft", "l", "id", "caps", "rt", "at", "bt", "tt", "ot", "of", "ct"):
                continue
            if isinstance(x, (dict, list)):
                self.stmts(x)
        k = n.get("k")
        if k == "block":
            n["s"] = [y for s in n["s"] for y in self.one(s)]
        for w in {"if": ("th", "el"), "while": ("s",), "do": ("s",), "for": ("s",), "rfor": ("s",)}.get(k, ()):
            s = n.get(w)
            if s is not None and s["k"] != "block":
                r = self.one(s)
                if len(r) != 1 or r[0] is not s:
                    n[w] = r[0] if len(r) == 1 else {"k": "block", "l": s["l"], "s": r}


def drop(n, gone):
    """Declarations of lambdas nothing refers to any more."""
    if isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                drop(x, gone)
        return
    if n.get("k") == "block":
        for s in n["s"]:
            if s["k"] == "decl":
                s["d"] = [v for v in s["d"] if v["id"] not in gone]
        n["s"] = [s for s in n["s"] if s["k"] != "decl" or s["d"]]
    for k, x in list(n.items()):
        if isinstance(x, (dict, list)) and k not in ("t", "vt", "ft", "l", "id", "caps", "rt", "at", "bt", "tt", "ot", "of", "ct"):
            drop(x, gone)


def write_out(f):
    for _ in range(3):
        lams = candidates(f)
        if not lams:
            return
        w = Writer(f, lams)
        w.value(f["body"])
        w.stmts(f["body"])
        used = {x.get("id") for x in walk(f["body"]) if x.get("k") == "var"}
        drop(f["body"], {v for v in lams if v not in used})
        if all(v in used for v in lams):
            return
