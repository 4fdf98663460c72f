"""C08: the size reported equals the number of bytes written."""

from facts import AnalysisBroken
from program import walk, where
from count import Count, Unknown, add, domains, is_lin, is_stream, lin, mentions, num, subst, summed, value, ZERO, stripped

TECHNIQUE = "symbolic byte counting of the size and write routines, compared as linear forms on every pair of compatible paths"


def param(t):
    return ("param", t)


def final(prog, cls, name, pred):
    for c in [cls] + prog.bases(cls):
        for m in prog.methods(c):
            if m["fn"].split("::")[-1] == name and pred(m) and m.get("body"):
                return m
    return None


def ints(t):
    return t is not None and t.k in ("int", "uint")


def sizer(m):
    return m.get("const") and ints(m.get("rt")) and all(p["t"].k == "bool" or p.get("d") is not None for p in m["ps"])


def writer(m):
    return m["ps"] and is_stream(m["ps"][0]["t"]) and m["ps"][0]["t"].k == "ref"


def zeroed(form, facts, dom):
    """Apply what a path knows: constants of atoms, empty containers."""
    m = {}
    for t, b in facts.items():
        if t[0] == "eq" and b:
            m[t[1]] = num(t[2])
        elif t[0] == "eq" and not b:
            d = dom(t[1])
            if d is not None:
                left = {v for v in d if facts.get(("eq", t[1], v)) is not False}
                if len(left) == 1:
                    m[t[1]] = num(next(iter(left)))
    empty = {a[1] for a, v in m.items() if a[0] == "size" and value(v) == 0}
    r = ZERO
    for a, c in lin(form)[1]:
        if a and a[0] in ("sum", "csum") and a[1] in empty:
            continue
        if a and mentions(a, lambda x: isinstance(x, tuple) and x[:1] == ("last",) and x[1] in empty):
            continue
        r = add(r, num(1) if a == () else subst(a, m), c)
    return r


def merge(fa, fb, count):
    """The facts of two paths taken together, None if they exclude each other."""
    f = dict(fa)
    for t, b in fb.items():
        if f.get(t, b) != b:
            return None
        f[t] = b
    eqs = {}
    for t, b in f.items():
        if t[0] == "eq" and b:
            if eqs.setdefault(t[1], t[2]) != t[2]:
                return None
    for t, b in f.items():
        if t[0] == "eq":
            d = count.domain(t[1])
            if d is not None:
                left = {v for v in d if f.get(("eq", t[1], v)) is not False}
                if t[1] in eqs:
                    left &= {eqs[t[1]]}
                if not left:
                    return None
    return f


def show(t, top=True):
    if is_lin(t):
        ps = []
        for a, c in sorted(t[1], key=lambda x: repr(x[0])):
            s = str(c) if a == () else (show(a) if c == 1 else "%d*%s" % (c, show(a)))
            ps.append(s)
        return " + ".join(ps) or "0"
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "f":
        b = show(t[1])
        return t[2] if b == "this" else b + "." + t[2]
    if t[0] == "this":
        return "this"
    if t[0] == "size":
        return show(t[1]) + ".size()"
    if t[0] == "it":
        return "each"
    if t[0] == "last":
        return "last of " + show(t[1])
    if t[0] == "sum":
        return "sum over %s of %s" % (show(t[1]), show(t[2]))
    if t[0] == "param":
        return str(t[1])
    if t[0] == "call":
        return t[1].split("::")[-1] + "()"
    if t[0] == "bytes":
        return "bytes of " + show(t[1])
    if t[0] in ("*", "&"):
        return show(t[1])
    if t[0] == "idx":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    return str(t[0])


def facts_text(f):
    out = []
    for t, b in f.items():
        if t[0] == "eq":
            out.append("%s %s %s" % (show(t[1]), "==" if b else "!=", t[2]))
        else:
            out.append(("" if b else "not ") + show(t))
    return "; ".join(out[:6])


def footer(facts):
    """Whether a path writes the trailer ID3v2.4 keeps out of the size."""
    def named(x):
        return isinstance(x, tuple) and ((x[:1] == ("f",) and "footer" in x[2]) or (x[:1] == ("call",) and isinstance(x[1], str) and "footer" in x[1]))
    return any(mentions(t, named) and (b if t[0] != "eq" else b != (t[2] == 0)) for t, b in facts.items())


def check(prog, R):
    R.rule("pair", "on every pair of compatible paths the size routine's result equals the bytes the write routine emits", 25)
    R.rule("result", "what a write routine returns is the number of bytes it emitted", 25)
    R.rule("field", "the size put into a header is the number of bytes that follow the header", 5)
    dom = domains(prog)
    undecided = []
    seen = set()
    OS = param("os")

    def arg(p):
        return OS if is_stream(p["t"]) else param(p["n"] or "_")

    def paths(C, m):
        return C.run(m, [param("unsync") if p["t"].k == "bool" else arg(p) for p in m["ps"]])

    classes = sorted({c for c in prog.recs if "scribbu::" in c and not prog.recs[c].get("lambda")})
    npaths = 0
    for cls in classes:
        own = {m["fn"].split("::")[-1] for c in [cls] + prog.bases(cls) for m in prog.methods(c) if m.get("body")}
        pairs = []
        for wn in ("serialize", "write"):
            w = final(prog, cls, wn, lambda m: writer(m) and m.get("const"))
            if w is None:
                continue
            nb = [p for p in w["ps"][1:] if p["t"].k == "bool"]
            bools = len(nb)
            cand = None
            if bools:
                cand = final(prog, cls, "serialized_size", lambda m: sizer(m) and m["ps"] and m["ps"][0]["t"].k == "bool") or \
                    final(prog, cls, "size", lambda m: sizer(m) and m["ps"])
            elif len(w["ps"]) == 1:
                cand = final(prog, cls, "size", lambda m: sizer(m) and not m["ps"])
            else:
                cand = final(prog, cls, "serialized_size", sizer) or final(prog, cls, "size", sizer)
            pairs.append((wn, w, cand))
        for wn, w, s in pairs:
            key = "%s::%s" % (cls, wn)
            ident = (w["u"], s["u"] if s else None)
            # an inherited pair is the same obligation unless it calls virtual methods
            C = Count(prog, cls, dom)
            try:
                wp = paths(C, w)
            except Unknown as x:
                undecided.append((key, str(x)))
                continue
            if not wp:
                undecided.append((key, "no path"))
                continue
            npaths += len(wp)
            if (w["u"], "ret") not in seen or w.get("cls") == cls:
                if ints(w.get("rt")):
                    seen.add((w["u"], "ret"))
                    bad = None
                    for r, st in wp:
                        a = zeroed(r if r is not None else ZERO, st.facts, C.domain)
                        b = zeroed(st.w.get(OS, ZERO), st.facts, C.domain)
                        if a != b:
                            bad = (a, b, st.facts)
                            break
                    if bad:
                        R.bad("result", "%s" % w["fn"].split("scribbu::", 1)[-1], w, "%s returns %s but emits %s%s" % (
                            w["fn"], show(bad[0]), show(bad[1]), (" when " + facts_text(bad[2])) if bad[2] else ""))
                    else:
                        R.ok("result", key)
            if s is None:
                continue
            C2 = Count(prog, cls, dom)
            try:
                sp = paths(C2, s)
            except Unknown as x:
                undecided.append((key + "/size", str(x)))
                continue
            npaths += len(sp)
            tag = any("id3v2_tag" in b for b in prog.bases(cls)) and s["ps"]
            bad, n = {}, 0
            for sr, ss in sp:
                for wr, ws in wp:
                    f = merge(ss.facts, ws.facts, C)
                    if f is None:
                        continue
                    n += 1
                    a = zeroed(sr, f, C.domain)
                    b = zeroed(ws.w.get(OS, ZERO), f, C.domain)
                    if tag:
                        b = add(b, num(10), -1)
                    if a != b:
                        bad.setdefault(show(add(a, b, -1)), (a, b, f))
            if not n:
                undecided.append((key, "no compatible paths"))
                continue
            for diff, (a, b, f) in sorted(bad.items()):
                R.bad("pair", "%s/%s" % (key.split("scribbu::", 1)[-1], diff.replace(" ", "")), s, "%s reports %s but %s emits %s%s%s" % (
                    s["fn"], show(a), w["fn"], show(b), " after the header" if tag else "", (" when " + facts_text(f)) if f else ""))
            if not bad:
                R.ok("pair", key)
            if tag:
                fields(R, cls, w, wp, C, OS, key, True)
        # headers of frames
        h = final(prog, cls, "write_header", lambda m: writer(m) and len(m["ps"]) >= 2 and m.get("const"))
        if h is not None and h.get("cls") == cls and any(c.endswith("id3v2_frame") for c in prog.bases(cls)):
            C = Count(prog, cls, dom)
            try:
                hp = paths(C, h)
            except Unknown as x:
                undecided.append((cls + "::write_header", str(x)))
                continue
            npaths += len(hp)
            for r, st in hp:
                if ints(h.get("rt")):
                    a, b = zeroed(r, st.facts, C.domain), zeroed(st.w.get(OS, ZERO), st.facts, C.domain)
                    if a != b:
                        R.bad("result", h["fn"].split("scribbu::", 1)[-1], h, "%s returns %s but emits %s when %s" % (h["fn"], show(a), show(b), facts_text(st.facts)))
                        break
            else:
                R.ok("result", cls + "::write_header")
            payload = param(h["ps"][1]["n"] or "_")
            header = 6 if any("2_2" in c for c in [cls]) else 10
            fields(R, cls, h, hp, C, OS, cls + "::write_header", False, payload, header)
    R.extra["paths"] = npaths
    R.extra["undecided"] = ["%s: %s" % x for x in undecided]


def fields(R, cls, w, wp, C, OS, key, tag, payload=None, header=10):
    bad = None
    n = 0
    for r, st in wp:
        total = zeroed(st.w.get(OS, ZERO), st.facts, C.domain)
        vals = []
        for b, v in st.fields:
            if payload is None or True:
                vals.append(zeroed(v, st.facts, C.domain))
        if not vals:
            continue
        if tag:
            want = add(total, num(20 if footer(st.facts) else 10), -1)
            got = vals[0]
        else:
            want = add(add(total, lin(payload)), num(header), -1)
            got = vals[0]
        n += 1
        if want != got:
            bad = bad or (got, want, st.facts)
    if bad:
        R.bad("field", key.split("scribbu::", 1)[-1], w, "%s puts %s into the size field where %s bytes follow the header%s" % (
            w["fn"], show(bad[0]), show(bad[1]), (" when " + facts_text(bad[2])) if bad[2] else ""))
    elif n:
        R.ok("field", key)
