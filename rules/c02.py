"""C02: in-place edits touch only the bytes of the tags they replace."""

from program import calls, const, uncast, walk, where
from sym import SymFlow, mkbin
from flow import N, THR, ANY
from lin import lin, sub, entails_nonneg
import fsops
from c01 import roots, appends

TECHNIQUE = "path-sensitive value numbering of sizes, with linear normal forms and loop deltas"
LOOK = "scribbu::looking_at_id3v2"
FIND_V1 = ("scribbu::process_id3v1",)
INFO_V1 = ("scribbu::ends_in_id3v1",)


def tag_method(prog, n, name):
    if n.get("k") != "call" or not n.get("f"):
        return False
    c, _, m = n["f"].rpartition("::")
    return m == name and (c == "scribbu::id3v2_tag" or "scribbu::id3v2_tag" in prog.bases(c))


def reaches(prog, f, memo):
    u = f["u"]
    if u in memo:
        return memo[u]
    memo[u] = False
    if f["n"] in (LOOK,) + FIND_V1 + INFO_V1 or (f.get("cls") or "").startswith("scribbu::id3v"):
        return False
    r = False
    for n in calls(f):
        if fsops.op(n) or n.get("f") == LOOK or any(tag_method(prog, n, m) for m in ("size", "write", "padding", "needs_unsynchronisation")):
            r = True
        elif n.get("k") == "call" and not n.get("virt") and any(reaches(prog, g, memo) for g in prog.targets(n)):
            r = True
    memo[u] = r
    return r


def strip(t):
    """Element-of-the-loop terms are all alike."""
    if isinstance(t, tuple) and t:
        if t[0] in ("loop", "elem", "obj"):
            return ("E",)
        if t[0] == "*":
            return strip(t[1])
        return tuple(strip(x) for x in t)
    return t


class InPlace(SymFlow):
    def __init__(self, prog, root, target, memo):
        super().__init__(prog)
        self.root, self.target, self.memo_r = root, target, memo
        self.deltas = {}         # loop term -> set of values at the end of a turn
        self.bad = []
        self.good = []
        self.size_dec, self.write_dec = {}, {}

    def inline_targets(self, n):
        if n["k"] != "call" or n.get("virt"):
            return []
        return [f for f in self.prog.targets(n) if reaches(self.prog, f, self.memo_r)]

    def P(self, t):
        return fsops.pnorm(t) == ("parm", self.target)

    def call_term(self, e, st):
        f = e.get("f") or ""
        if st.get(("res", id(e))) is None and (f == LOOK or f in FIND_V1 + INFO_V1 or f == "std::filesystem::file_size"):
            return ("at", where(e), e["l"][2], f) + tuple(self.term(a, st) for a in e["a"])
        if st.get(("res", id(e))) is None and any(tag_method(self.prog, e, m) for m in ("size", "needs_unsynchronisation", "padding")):
            return ("tag", f.split("::")[-1], self.term(e["obj"], st)) + tuple(self.term(a, st) for a in e["a"])
        return super().call_term(e, st)

    # what a loop turn adds to its variables
    def iter_end(self, n, st):
        for k, v in st.env:
            if isinstance(v, tuple) and v and v[0] == "bin":
                for a, c in lin(v)[0]:
                    if a[0] == "loop" and a[2] == str(k) and c == 1:
                        self.deltas.setdefault(a, set()).add(sub(lin(v), lin(a)))
        return st

    def prov(self, t, seen=()):
        """Names of the quantities a value is computed from."""
        out = set()
        if not isinstance(t, tuple) or not t:
            return out
        if t[0] == "mem" and t[2] == "size_":
            out.add("disk")
        if t[0] == "tag" and t[1] == "size":
            out.add("new")
        if t[0] == "loop" and t not in seen:
            for form in self.deltas.get(t, ()):
                for a, _ in form[0]:
                    out |= self.prov(a, seen + (t,))
            return out
        for x in t:
            out |= self.prov(x, seen)
        return out

    def decide(self, table, arg, n, st):
        """For each way of asking for unsynchronisation, the choice made."""
        p = [x for x in self.root["ps"] if (x["t"].rec or "").endswith("apply_unsync")]
        if not p:
            return
        pt = ("parm", p[0]["n"])
        en = self.prog.enums.get(p[0]["t"].rec)
        v0 = strip(self.term(arg, st))
        if v0[0] == "loop":
            return
        need = [(strip(t), truth) for t, truth in st.facts if t[0] == "tag" and t[1] == "needs_unsynchronisation"]
        for e in en["e"]:
            c = ("c", e["v"])
            ok = True
            for t, truth in st.facts:
                if t[0] == "bin" and t[1] == "==" and pt in t[2:]:
                    o = t[3] if t[2] == pt else t[2]
                    if o[0] == "c" and (o == c) != truth:
                        ok = False
            if not ok:
                continue
            # the choice as a function of whether the tag needs it
            for nd in (True, False):
                if any(truth != nd for _, truth in need):
                    continue
                v = fold(v0, pt, c)
                w = int(nd) if v[:2] == ("tag", "needs_unsynchronisation") else v[1] if v[0] == "c" else v
                table.setdefault((e["n"], nd), {}).setdefault(w, n)

    def call(self, n, st):
        if tag_method(self.prog, n, "size") and len(n["a"]) == 1:
            self.decide(self.size_dec, n["a"][0], n, st)
        if tag_method(self.prog, n, "write") and len(n["a"]) == 2 and st.ext == "mapped":
            self.decide(self.write_dec, n["a"][1], n, st)
        if tag_method(self.prog, n, "padding") and len(n["a"]) == 1:
            self.padding(n, st)
        op = fsops.op(n)
        if op:
            t = [self.term(a, st) for a in op[1]]
            if op[0] == "map" or op[0] == "open" and in_place(n):
                if self.P(t[0]):
                    self.mapping(n, st)
                    yield (N, st.with_ext("mapped"))
                    yield (THR, st, ANY)
                    return
            if op[0] == "resize" and self.P(t[0]):
                self.resize(n, st)
                yield (N, st.with_ext("cut"))
                yield (THR, st, ANY)
                return
            if op[0] == "open" and self.P(t[0]) and appends(n):
                if st.ext == "cut" or st.ext == "nov1":
                    self.good.append(("append-after-cut", n, "appends after the old ID3v1 tag is gone"))
                else:
                    self.bad.append(("append-after-cut", "append", n, "an ID3v1 tag is appended on a path where an existing one was neither removed nor found absent"))
        yield from self.default_call(n, st)

    def assume(self, c, st, truth):
        r = super().assume(c, st, truth)
        if r is None or r.ext is not None:
            return r
        for t, tr in r.facts:
            if t[0] == "truth" and isinstance(t[1], tuple) and t[1] and t[1][0] == "at" and t[1][3] in FIND_V1 and tr is False:
                return r.with_ext("nov1")
            if t[0] == "bin" and t[1] == "==" and tr is True and ("c", 0) in t[2:] and \
                    any(isinstance(x, tuple) and x[0] == "at" and x[3] in FIND_V1 for x in t[2:]):
                return r.with_ext("nov1")
            if t[0] == "bin" and t[1] == "==" and tr is True and any(isinstance(x, tuple) and x[0] == "mem" and x[2] == "type_" for x in t[2:]) and ("c", self.none()) in t[2:]:
                return r.with_ext("nov1")
        return r

    def enter_handler(self, h, st):
        # the file could not be opened: there is no tag in it
        return st.with_ext("nov1") if st.ext is None else st

    def none(self):
        e = self.prog.enums.get("scribbu::id3_v1_tag_type") or {"e": []}
        return next((x["v"] for x in e["e"] if x["n"] == "none"), 0)

    def mapping(self, n, st):
        for t, truth in st.facts:
            if t[0] == "bin" and t[1] == "==" and truth:
                a, b = self.prov(t[2]), self.prov(t[3])
                if t[2] == ("c", 0):
                    a = {"disk"}
                if t[3] == ("c", 0):
                    b = {"disk"}
                if "disk" in a and "new" in b or "disk" in b and "new" in a:
                    self.good.append(("emplace-equal", n, "opened for writing only where the sizes are equal"))
                    for x in (t[2], t[3]):
                        self.account(x)
                    return
        self.bad.append(("emplace-equal", "open-for-writing", n,
                         "the file is opened for writing in place on a path where the size of the new tags is not known to equal that of the old ones"))

    def account(self, x):
        for a, _ in lin(x)[0]:
            if a[0] != "loop":
                continue
            for form in self.deltas.get(a, ()):
                pr = set()
                for y, _ in form[0]:
                    pr |= self.prov(y)
                if not pr & {"disk", "new"}:
                    continue
                what = "tag on disk" if "disk" in pr else "new tag"
                if form[1] == 10 and [c for _, c in form[0]] == [1]:
                    self.good.append(("size-accounting", a[1], "each %s counts for its size and a ten-byte header" % what))
                else:
                    self.bad.append(("size-accounting", what.replace(" ", "-"), a[1],
                                     "a %s is counted as %s bytes plus %d, not its size plus a ten-byte header" %
                                     (what, "+".join("%d*%s" % (c, y[1] if y[0] == "tag" else "size") for y, c in form[0]), form[1])))

    def resize(self, n, st):
        L = lin(self.term(n["a"][1], st))
        atoms = dict(L[0])
        msg = None
        if len(atoms) == 2 and L[1] == 0:
            fs = [a for a, c in atoms.items() if c == 1 and a[0] == "at" and a[3] == "std::filesystem::file_size" and self.P(a[4])]
            sz = [a for a, c in atoms.items() if c == -1 and a[0] in ("call", "at") and "id3v1_tag::size" in repr(a[:4])]
            if fs and sz:
                tagt = sz[0][2] if sz[0][0] == "call" else None
                while isinstance(tagt, tuple) and tagt and tagt[0] == "*":
                    tagt = tagt[1]
                if any(t[0] == "truth" and t[1] == tagt and tr for t, tr in st.facts) or \
                        any(t[0] == "bin" and t[1] == "==" and tagt in t[2:] and tr is False for t, tr in st.facts):
                    self.good.append(("truncate", n, "file size less the size of the tag that was found"))
                    return
                msg = "the file is truncated on a path where no ID3v1 tag was found"
        if len(atoms) == 1 and L[1] == 0:
            a = next(iter(atoms))
            if a[0] == "mem" and a[2] == "start_" or a[0] == "conv":
                if any("type_" in repr(t) for t, tr in st.facts):
                    self.good.append(("truncate", n, "start of the tag that was found"))
                    return
                msg = "the file is truncated on a path where no ID3v1 tag was found"
        self.bad.append(("truncate", "length", n, msg or "the new length is not the start of the ID3v1 tag that was found in the file"))

    def padding(self, n, st):
        A = lin(self.term(n["a"][0], st))
        pads = [a for a, c in A[0] if a[0] == "tag" and a[1] == "padding" and c == 1]
        if not pads:
            return
        rest = sub(A, lin(pads[0]))
        if entails_nonneg(st.facts, A) or entails_nonneg(st.facts, rest):
            self.good.append(("padding", n, "the adjusted padding cannot become negative"))
        else:
            self.bad.append(("padding", "underflow", n, "padding is reduced on a path where it was not compared with the amount to take away"))


def fold(t, x, v):
    """t with x replaced by v."""
    if t == x:
        return v
    if isinstance(t, tuple):
        t = tuple(fold(y, x, v) for y in t)
        if t and t[0] == "bin" and len(t) == 4:
            return mkbin(*t[1:])
    return t


def in_place(n):
    IN, TRUNC, APP = 8, 32, 1
    m = [const(uncast(a)) for a in n["a"][1:]]
    return bool(m) and m[0] is not None and m[0] & IN and not m[0] & (TRUNC | APP)


def check(prog, R):
    R.rule("emplace-equal", "a file is opened for in-place writing only where old and new tag sizes were found equal", 1)
    R.rule("size-accounting", "both sizes count each tag's body and its ten-byte header", 1)
    R.rule("same-choice", "sizes are computed with the unsynchronisation choice used when writing", 1)
    R.rule("padding", "padding never goes below zero when it is adjusted", 1)
    R.rule("truncate", "a file is cut only at the start of an ID3v1 tag found in it", 1)
    R.rule("append-after-cut", "an ID3v1 tag is appended only once any old one is gone", 1)
    memo = {}
    for f, tgt in roots(prog):
        fl = InPlace(prog, f, tgt, memo)
        # twice: the first pass learns what loops add to their counters
        fl.run(f, fl.start(f, None))
        fl.bad, fl.good, fl.memo = [], [], {}
        fl.size_dec, fl.write_dec = {}, {}
        fl.run(f, fl.start(f, None))
        short = f["n"].split("::")[-1]
        for rule, w, what in fl.good:
            R.ok(rule, "%s: %s (%s)" % (f["n"], what, w if isinstance(w, str) else where(w)))
        for rule, key, w, msg in fl.bad:
            R.bad(rule, "%s/%s" % (short, key), w, msg)
        for (e, nd), d in fl.write_dec.items():
            s = fl.size_dec.get((e, nd), {})
            if set(d) == set(s):
                R.ok("same-choice", "%s: %s, %sneeded" % (f["n"], e, "" if nd else "not "))
            else:
                n = next(iter(d.values()))
                R.bad("same-choice", "%s/%s" % (short, e), n,
                      "for %s the tags are written with a choice the sizes were not computed with" % e)
