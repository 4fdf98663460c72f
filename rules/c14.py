"""C14: a named field means the same standard frame to every operation."""

import os
import re

from facts import AnalysisBroken
from program import calls, const, fn_nodes, uncast, walk, where
from prov import Prov
import id3ids

TECHNIQUE = "agreement of every identifier in accessors, name tables, parser tables and constructors with the ID3v2 standards"


def idlen(t):
    while t is not None and t.k in ("ref", "rref"):
        t = t.to
    m = re.match(r"scribbu::frame_id(\d)$", t.rec or "") if t is not None else None
    return int(m.group(1)) if m else None


def id_ctor(n):
    """(length, argument) if the node builds a frame identifier from text."""
    if n.get("k") != "ctor" or not n.get("a") or n.get("copy") or n.get("move"):
        return None
    m = re.match(r"scribbu::frame_id(\d)$", n["cls"])
    if not m or len(n["a"]) != 1 or n.get("ft") is None or not n["ft"].ps or n["ft"].ps[0].k != "ptr":
        return None
    return int(m.group(1)), n["a"][0]


def named(prog, n):
    """Identifier text a node stands for: a constructed identifier or a constant one."""
    out = set()
    for x in walk(n):
        c = id_ctor(x)
        if c:
            out |= {y["v"] for y in walk(c[1]) if y.get("k") == "str"}
        elif x.get("k") == "var" and x.get("g") and idlen(x.get("vt")):
            for v in prog.gvars.get(x["q"], ()):
                if v.get("i"):
                    out |= {y["v"] for y in walk(v["i"]) if y.get("k") == "str"}
    return out


def check(prog, R):
    R.rule("accessor", "the query, presence test and setter of a field use the identifier the standard gives it", 40)
    R.rule("name", "a text-frame name stands for the identifier of that name", 60)
    R.rule("parser", "the parser registered for an identifier builds the frame of that identifier, and every text frame has one", 80)
    R.rule("own-id", "a frame class always carries its own identifier", 20)
    R.rule("spelling", "identifiers spelt out in the program are ones the standard (or this library) defines", 60)
    R.rule("symbol", "a Scheme symbol stands for the same field in every version", 60)
    R.rule("class", "a frame is taken for one of a class after its identifier was found to be that class's", 0)
    casts(prog, R)
    R.rule("whole", "identifiers are compared and copied in full", 4)
    prov = Prov(prog)
    tags = [c for c in prog.recs if re.match(r"scribbu::id3v2_\d_tag$", c)]
    if len(tags) < 3:
        raise AnalysisBroken("tag classes not found")

    # accessors ----------------------------------------------------------
    for cls in sorted(tags):
        for f in prog.methods(cls):
            nm = f["n"].split("::")[-1]
            fld = re.sub(r"^(has|set)_", "", nm)
            std = id3ids.ids(fld)
            if not std or len(f["ps"]) > 4 and not nm.startswith("set_"):
                if not std:
                    continue
            lits = set()
            n3 = 4
            for n in fn_nodes(f):
                c = id_ctor(n)
                if c:
                    n3 = c[0]
                    lits |= {y["v"] for y in walk(c[1]) if y.get("k") == "str"}
                elif n.get("k") == "var" and n.get("g") and idlen(n.get("vt")):
                    n3 = idlen(n["vt"])
                    lits |= named(prog, n)
            if not lits:
                continue
            want = std[0] if n3 == 3 else std[1]
            key = "%s::%s" % (cls, nm)
            if lits == {want}:
                R.ok("accessor", "%s uses %s" % (key, want))
            else:
                R.bad("accessor", key, f, "%s uses %s; the standard's identifier for %s is %s" % (key, "/".join(sorted(lits)), fld, want))
        # a typed lookup of the right frame class
        for f in prog.methods(cls):
            nm = f["n"].split("::")[-1]
            std = id3ids.ids(re.sub(r"^(has|set)_", "", nm))
            if not std:
                continue
            for n in fn_nodes(f):
                if n.get("k") == "mem" and uncast(n["b"])["k"] == "this" and n.get("vt") is not None and n["vt"].rec == "std::vector":
                    for c in frame_classes(n["vt"], prog):
                        i = class_id(prog, c)
                        if i and i in std:
                            R.ok("accessor", "%s::%s looks at its %s frames" % (cls, nm, i))
                        elif i:
                            R.bad("accessor", "%s::%s/frames" % (cls, nm), n, "%s::%s looks at the %s frames" % (cls, nm, i))

    # names of text frames ------------------------------------------------
    enum = next((e for n, e in prog.enums.items() if n.endswith("id3v2_text_frames")), None)
    if enum is None:
        raise AnalysisBroken("enumeration of text frames not found")
    names = {e["v"]: e["n"].split("::")[-1] for e in enum["e"]}
    for f in prog.fns:
        if not f.get("body"):
            continue
        if f.get("ctor") and len(f["ps"]) == 1 and f["ps"][0]["t"].s.endswith("id3v2_text_frames") and idlen_name(f["cls"]):
            n = idlen_name(f["cls"])
            got = case_text(f, names)
            for v, nm in sorted(names.items()):
                want = nm.upper() if n == 4 else id3ids.TO3.get(nm.upper())
                have = got.get(v)
                key = "%s/%s" % (f["cls"], nm)
                if want is None:
                    if have is not None:
                        R.bad("name", key, f, "%s has no identifier in this version but %s gives it %s" % (nm, f["cls"], have))
                    continue
                if have == want:
                    R.ok("name", "%s(%s) is %s" % (f["cls"], nm, want))
                else:
                    R.bad("name", key, f, "%s(%s) is %s; the standard's identifier is %s" % (f["cls"], nm, have or "rejected", want))
        # tables pairing text with an enumerator
        for n in fn_nodes(f):
            if n.get("k") in ("init", "ctor") and len(n.get("a", ())) == 2:
                a, b = uncast(n["a"][0]), uncast(n["a"][1])
                for s, e in ((a, b), (b, a)):
                    txt = text_of(s)
                    if txt is not None and e.get("k") == "enum" and e["n"].rsplit("::", 1)[0] == enum["n"]:
                        u, nm = txt.upper(), e["n"].split("::")[-1]
                        if u in id3ids.NAME or re.match(r"^[A-Z]{2}[A-Z0-9]{1,2}$", u) and u[0] == "T" and len(u) in (3, 4) and txt.isupper():
                            want = nm.upper()
                            ok = u == want or id3ids.TO4.get(u) == want
                            key = "%s/%s" % (f["n"], txt)
                            if ok:
                                R.ok("name", "%s: %s is %s" % (f["n"], txt, nm))
                            else:
                                R.bad("name", key, n, "%s takes %s to mean %s" % (f["n"], txt, nm))

    # parser tables ---------------------------------------------------------
    reg = {}
    for f in prog.fns:
        if not f.get("body") or not f["l"][0].startswith("scribbu/"):
            continue
        for n in calls(f):
            if (n.get("f") or "").split("::")[-1] not in ("insert", "emplace") or n.get("obj") is None:
                continue
            t = n["obj"].get("t")
            while t is not None and t.k in ("ref", "rref"):
                t = t.to
            if t is None or t.rec != "std::unordered_map" or len(t.targs) < 2 or idlen(t.targs[0]) is None or t.targs[1].rec != "std::function":
                continue
            fs = [x for a in n["a"] for x in walk(a) if x.get("k") == "fn" and x["f"].endswith("::create")]
            ids = set()
            for a in n["a"]:
                ids |= named(prog, a)
            if len(fs) == 1 and len(ids) == 1:
                i = next(iter(ids))
                cls = fs[0]["f"].rsplit("::", 1)[0]
                o = uncast(n["obj"])
                owner = (o.get("q") or o.get("cls") or "").rsplit("::", 1)[0]
                reg.setdefault(owner, {})[i] = (cls, n)
    if len(reg) < 3:
        raise AnalysisBroken("parser registrations not found")
    for owner, tab in sorted(reg.items()):
        n3 = min(len(i) for i in tab)
        for i, (cls, n) in sorted(tab.items()):
            own = class_id(prog, cls)
            text = id3ids.NAME.get(i) in {x[0] for x in id3ids.TEXT}
            if text and "text_frame" in cls or own == i:
                R.ok("parser", "%s: %s by %s" % (owner, i, cls))
            else:
                R.bad("parser", "%s/%s" % (owner, i), n, "%s parses %s frames as %s" % (owner, i, cls))
        for nm, a, b in id3ids.TEXT:
            want = a if n3 == 3 else b
            if want and want not in tab:
                R.bad("parser", "%s/%s" % (owner, want), next(iter(tab.values()))[1], "%s has no parser for the text frame %s (%s)" % (owner, want, nm))

    # identifiers carried by frame classes ------------------------------------
    for f in prog.fns + prog.uninstantiated:
        if not f.get("ctor") or not f.get("cls") or not f["l"][0].startswith("scribbu/"):
            continue
        for i in f.get("inits", ()):
            if i.get("base") is None or i.get("e") is None:
                continue
            lits = named(prog, i["e"]) or {y["v"] for y in walk(i["e"]) if y.get("k") == "str" and re.match(r"^[A-Z][A-Z0-9]{2,3}$", y["v"])}
            if not lits:
                continue
            cls = f["cls"].split("::")[-1]
            want = re.sub(r"_2_4$", "", cls)
            key = "%s(%s)" % (f["cls"], f["ft"].s if f.get("ft") is not None else "")
            if want not in id3ids.NAME:
                continue
            if lits == {want}:
                R.ok("own-id", key)
            else:
                R.bad("own-id", key.replace(" ", ""), f, "a constructor of %s gives its frames the identifier %s" % (f["cls"], "/".join(sorted(lits))))

    # spelling ------------------------------------------------------------------
    def spell(n, c, ctx, f):
        for s in prov.of(c[1]):
            if s[0] != "s":
                continue
            known = id3ids.KNOWN3 if c[0] == 3 else id3ids.KNOWN4
            if s[1] in known or not s[1].strip("\0"):
                R.ok("spelling", "%s in %s" % (s[1], ctx))
            else:
                at = n if "l" in n else f
                R.bad("spelling", "%s/%s" % (os.path.basename(at["l"][0]) if "l" in at else ctx, s[1]), n, "%s uses the frame identifier %s, which no version of the standard defines" % (ctx, s[1]))
    for f in prog.fns:
        if f.get("body"):
            for n in fn_nodes(f):
                c = id_ctor(n)
                if c:
                    spell(n, c, f["n"], f)
    for q, vs in prog.gvars.items():
        for v in vs:
            for n in walk(v["i"]) if v.get("i") else ():
                c = id_ctor(n)
                if c:
                    spell(n, c, q, v)

    # Scheme symbols ----------------------------------------------------------------
    sym = {}
    for f in prog.fns:
        if not f.get("body") or not f["l"][0].startswith("scribbu/scheme"):
            continue
        last = None
        for n in fn_nodes(f):
            if n.get("k") in ("bin", "call") and n.get("op") == "=":
                l, r = (n["a"], n["b"]) if n["k"] == "bin" else (n["a"][0], n["a"][1])
                l, r = uncast(l), uncast(r)
                if l.get("k") == "var" and l.get("g") and any(x.get("k") == "str" for x in walk(r)):
                    last = [x["v"] for x in walk(r) if x.get("k") == "str"]
                    sym.setdefault(l["q"], {"txt": last[0], "ids": {}, "n": n})["txt"] = last[0]
                elif l.get("k") == "call" and l.get("op") == "[]":
                    key, val = l["a"][1], r
                    i = named(prog, key)
                    if len(i) == 1 and uncast(val).get("k") == "var":
                        sym.setdefault(uncast(val)["q"], {"txt": None, "ids": {}, "n": n})["ids"][next(iter(i))] = n
                    t = [x["v"] for x in walk(key) if x.get("k") == "str"]
                    i = named(prog, val)
                    if t and len(i) == 1 and not id3ids.NAME.get(t[0]):
                        sym.setdefault(("r", t[0]), {"txt": t[0], "ids": {}, "n": n})["ids"][next(iter(i))] = n
    for q, d in sorted(sym.items(), key=lambda x: str(x[0])):
        if not d["txt"]:
            continue
        fld = re.sub(r"-frame$", "", d["txt"])
        std = id3ids.ids(fld)
        for i, n in sorted(d["ids"].items()):
            key = "%s/%s" % (d["txt"], i)
            if std is None:
                continue
            if i in std:
                R.ok("symbol", "%s%s is %s" % (d["txt"], " (by name)" if isinstance(q, tuple) else "", i))
            else:
                R.bad("symbol", key, n, "the symbol %s stands for %s; the standard's identifier is %s" % (d["txt"], i, "/".join(x for x in std if x)))

    # comparing and copying -------------------------------------------------------------
    for f in prog.fns:
        if not f.get("body"):
            continue
        ln = None
        if f["n"].split("::")[-1] in ("operator==",) and len(f["ps"]) == 2 and idlen(f["ps"][0]["t"]) and idlen(f["ps"][1]["t"]):
            ln = idlen(f["ps"][0]["t"])
        elif f["n"].split("::")[-1] == "copy" and f.get("cls") and idlen_name(f["cls"]):
            ln = idlen_name(f["cls"])
        if ln is None:
            continue
        idx = {const(n["b"]) for n in fn_nodes(f) if n.get("k") == "idx" and const(n["b"]) is not None}
        whole = any(const(a) == ln for n in calls(f) for a in n["a"]) or any(n.get("k") == "bin" and n["op"] == "<" and const(n["b"]) == ln for n in fn_nodes(f)) \
            or any(n.get("k") == "bin" and n["op"] == "+" and const(n["b"]) == ln for n in fn_nodes(f))
        key = f["n"] + "/" + str(ln)
        if whole and not idx or idx >= set(range(ln)):
            R.ok("whole", key)
        elif not idx:
            R.ok("whole", key)
        else:
            R.bad("whole", key, f, "%s looks at only %d of the %d characters of an identifier" % (f["n"], len(idx), ln))


def casts(prog, R):
    for f in prog.fns:
        if not f.get("body"):
            continue
        for n in fn_nodes(f):
            if n.get("k") != "if":
                continue
            c = uncast(n["c"])
            if c is None or c.get("op") not in ("==", "!="):
                continue
            ids = named(prog, c)
            side = n.get("th") if c["op"] == "==" else n.get("el")
            if not ids or side is None:
                continue
            for x in walk(side):
                if x.get("k") != "cast" or not x.get("dyn"):
                    continue
                t = x.get("t")
                while t is not None and t.k in ("ref", "rref", "ptr"):
                    t = t.to
                w = class_id(prog, t.rec) if t is not None and t.rec else None
                if w is None:
                    continue
                key = "%s/%s" % (f["n"], t.rec.split("::")[-1])
                if w in ids:
                    R.ok("class", "%s %s" % (key, where(x)))
                else:
                    R.bad("class", key, x, "%s takes a frame with identifier %s for a %s" % (f["n"], ", ".join(sorted(ids)), t.rec.split("::")[-1]))


def idlen_name(c):
    m = re.match(r"scribbu::frame_id(\d)$", c or "")
    return int(m.group(1)) if m else None


def text_of(e):
    if e is None:
        return None
    if e.get("k") == "str":
        return e["v"]
    if e.get("k") in ("ctor", "init") and e.get("a"):
        s = [x["v"] for x in walk(e) if x.get("k") == "str"]
        if len(s) == 1 and not any(x.get("k") == "enum" for x in walk(e)):
            return s[0]
    return None


def case_text(f, names):
    """enumerator value -> the characters stored for it."""
    out, pre = {}, {}
    sw = [n for n in walk(f["body"]) if n.get("k") == "switch"]
    if len(sw) != 1:
        # a table instead of a switch
        for n in fn_nodes(f):
            if n.get("k") in ("init", "ctor") and len(n.get("a", ())) == 2:
                a, b = uncast(n["a"][0]), uncast(n["a"][1])
                for s, e in ((a, b), (b, a)):
                    if e.get("k") == "enum" and text_of(s) is not None:
                        out[e["v"]] = text_of(s)
        return out

    def stores(n):
        r = {}
        for x in walk(n):
            if x.get("k") == "bin" and x["op"] == "=" and uncast(x["a"]).get("k") == "idx" and const(x["b"]) is not None:
                i = const(uncast(x["a"])["b"])
                if i is not None:
                    r[i] = chr(const(x["b"]))
        return r
    inside = {id(x) for x in walk(sw[0])}
    for n in walk(f["body"]):
        if id(n) not in inside and n.get("k") == "bin" and n["op"] == "=":
            pre.update(stores(n))
    body = sw[0]["s"]["s"] if sw[0]["s"]["k"] == "block" else [sw[0]["s"]]
    cur, live = {}, []
    for s in body:
        while s is not None and s["k"] in ("case", "default"):
            if s["k"] == "case":
                if not live:
                    cur = {}
                live.append(const(s["c"]))
            elif not live:
                live = [None]
            s = s["s"]
        if s is None:
            continue
        cur.update(stores(s))
        if any(x.get("k") in ("break", "throw", "return") for x in walk(s)):
            if not any(x.get("k") == "throw" for x in walk(s)):
                for v in live:
                    if v is not None:
                        d = dict(pre)
                        d.update(cur)
                        out[v] = "".join(d[i] for i in sorted(d))
            live, cur = [], {}
    for v in live:
        if v is not None:
            d = dict(pre)
            d.update(cur)
            out[v] = "".join(d[i] for i in sorted(d))
    return out


def class_id(prog, cls):
    c = cls.split("::")[-1]
    c = re.sub(r"_2_4$", "", c)
    return c if c in id3ids.NAME else None


def frame_classes(t, prog):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x is None:
            continue
        if x.rec in prog.recs:
            out.add(x.rec)
        if x.to is not None:
            todo.append(x.to)
        todo += [y for y in x.targs if y is not None]
    return out
