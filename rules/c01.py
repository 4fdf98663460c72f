"""C01: the target keeps its content until a complete, closed, checked copy exists."""

from facts import AnalysisBroken
from program import calls, const, uncast, walk, where
from sym import SymFlow, State, mentions, norm_cond
from flow import N, THR, ANY
import fsops

TECHNIQUE = "path-sensitive typestate over replacement routines with exceptional exits"

BAD, EOFB, FAIL = 1, 2, 4
OUT_STREAMS = ("std::basic_ofstream", "std::basic_fstream")
IN_STREAMS = ("std::basic_ifstream",)
TAG_WRITE = "write"


def is_tag_write(prog, n):
    """A call that serializes an ID3v2 tag to a stream."""
    if n.get("k") != "call" or not n.get("f"):
        return False
    c, _, m = n["f"].rpartition("::")
    if m != "write":
        return False
    return c == "scribbu::id3v2_tag" or "scribbu::id3v2_tag" in prog.bases(c)


class S(tuple):
    """ext: immutable mapping"""


def ext(**kw):
    return frozenset(kw.items())


class Replace(SymFlow):
    def __init__(self, prog, root, R, target):
        super().__init__(prog)
        self.root = root
        self.R = R
        self.target = target
        self.events = []
        self.mut = 0

    # ext is a frozenset of (key, value)
    def g(self, st, k, d=None):
        for a, b in st.ext:
            if a == k:
                return b
        return d

    def s(self, st, k, v):
        return st.with_ext(frozenset({(a, b) for a, b in st.ext if a != k} | {(k, v)}))

    def inline_targets(self, n):
        if n["k"] != "call":
            return []
        out = []
        for f in self.prog.targets(n):
            if f.get("virt"):
                return []
            if self.reaches(f):
                out.append(f)
        return out

    _reach = {}

    def reaches(self, f):
        """Does f touch files, or streams handed to it for writing?"""
        u = f["u"]
        if u in self._reach:
            return self._reach[u]
        self._reach[u] = False
        r = False
        for p in f["ps"]:
            t = p["t"].deref()
            if p["t"].k == "ref" and not p["t"].cst and t.rec and (
                    fsops._base(t.rec) in ("std::basic_ostream", "std::basic_ofstream") or
                    "std::basic_ostream" in [fsops._base(b) for b in t.bases]):
                r = True
            if t.rec and fsops._base(t.rec) in ("std::basic_ifstream",) and p["t"].k == "ref":
                r = True
        for n in calls(f):
            if fsops.op(n) or any(self.reaches(g) for g in self.prog.targets(n) if not n.get("virt")):
                r = True
        # never descend into tag serialization
        if (f.get("cls") or "").startswith("scribbu::id3v2_"):
            r = False
        self._reach[u] = r
        return r

    # -- streams
    def declare(self, v, st):
        st = super().declare(v, st)
        return self.new_stream(v, st)

    def new_stream(self, v, st):
        t = v["t"]
        b = fsops._base(t.rec or "")
        src = uncast(v.get("i")) if v.get("i") else None
        if b in OUT_STREAMS:
            pth = None
            if src is not None and src["k"] == "ctor" and src["a"]:
                pth = fsops.pnorm(self.term(src["a"][0], st))
            obj = st.get(v["id"])
            st = self.s(st, ("out", obj), (pth, False, False, False))   # path, exceptions, written-unchecked, closed
        elif b in IN_STREAMS:
            pth = None
            if src is not None and src["a" if src["k"] in ("ctor", "call") else "l"]:
                pth = fsops.pnorm(self.term(src["a"][0], st)) if src["k"] in ("ctor", "call") else None
            # a stream made by a function is an object of its own
            obj = ("obj", v["n"], where(v))
            st = st.set(v["id"], obj)
            st = self.s(st, ("in", obj), pth)
        return st

    def stream(self, e, st):
        t = self.term(e, st)
        while isinstance(t, tuple) and t and t[0] in ("&", "*"):
            t = t[1]
        o = self.g(st, ("out", t))
        return (t, o) if o is not None else (None, None)

    def instream(self, e, st):
        t = self.term(e, st)
        p = self.g(st, ("in", t), 0)
        return (t, p) if p != 0 else (None, None)

    def P(self, t):
        return fsops.pnorm(t) == ("parm", self.target)

    def call(self, n, st):
        # events on streams
        if n["k"] == "call":
            f = n.get("f") or ""
            m = f.split("::")[-1]
            if n.get("obj") is not None:
                t, o = self.stream(n["obj"], st)
                if o is not None:
                    pth, exc, dirty, closed = o
                    if m == "exceptions" and n["a"]:
                        mask = const(uncast(n["a"][0]))
                        if mask is None:
                            tm = self.term(n["a"][0], st)
                            mask = tm[1] if tm[0] == "c" else None
                        on = mask is not None and (mask & (BAD | FAIL)) == (BAD | FAIL)
                        yield (N, self.s(st, ("out", t), (pth, on, dirty and not on, closed)))
                        yield (THR, st, ANY)
                        return
                    if m == "open" and n["a"]:
                        np = fsops.pnorm(self.term(n["a"][0], st))
                        st2 = self.s(st, ("out", t), (np, exc, not exc, False))
                        yield from self.mutation(n, "open", [n["a"][0]], st2)
                        if exc:
                            yield (THR, st, ANY)
                        return
                    if m == "close":
                        st2 = self.s(st, ("out", t), (pth, exc, dirty or not exc, True))
                        yield (N, self.forget_facts(t, st2))
                        if exc:
                            yield (THR, st, ANY)
                        return
                    if m in ("write", "put", "flush", "seekp"):
                        st2 = self.s(st, ("out", t), (pth, exc, dirty or not exc, False))
                        st2 = self.forget_facts(t, st2)
                        if m in ("write", "put"):
                            st2 = self.data_written(n, t, st2)
                        yield (N, st2)
                        if exc:
                            yield (THR, st, ANY)
                        return
                ti, pi = self.instream(n["obj"], st)
                if ti is not None and m == "read":
                    a = n["a"]
                    st2 = st
                    if len(a) == 2:
                        st2 = self.s(st, ("lastread", ti), self.term(a[1], st))
                    if pi is not None and self.P(pi):
                        st2 = self.s(st2, "read", self.term(a[1], st) if len(a) == 2 else None)
                    yield (N, st2)
                    yield (THR, st, ANY)
                    return
            if n.get("op") == "<<" and n["a"]:
                t, o = self.stream(n["a"][0], st)
                if o is not None:
                    pth, exc, dirty, closed = o
                    st2 = self.s(st, ("out", t), (pth, exc, dirty or not exc, False))
                    r = uncast(n["a"][1]) if len(n["a"]) > 1 else None
                    if r is not None and r["k"] == "call" and (r.get("f") or "").endswith("::rdbuf") and r.get("obj") is not None:
                        ti, pi = self.instream(r["obj"], st)
                        if ti is not None and pi is not None and self.P(pi):
                            st2 = self.s(st2, ("rest", t), True)
                    yield (N, st2)
                    if exc:
                        yield (THR, st, ANY)
                    return
            if is_tag_write(self.prog, n):
                for a in n["a"]:
                    t, o = self.stream(a, st)
                    if o is not None:
                        pth, exc, dirty, closed = o
                        st2 = self.s(st, ("out", t), (pth, exc, dirty or not exc, False))
                        st2 = self.s(st2, "iterwrote", t)
                        yield (N, st2)
                        yield (THR, st, ANY)
                        return
        op = fsops.op(n)
        if op is not None and not (n["k"] == "ctor" and op[0] == "open"):
            yield from self.mutation(n, op[0], op[1], st)
            return
        if op is not None:
            yield from self.mutation(n, "open", op[1], st)
            return
        yield from self.default_call(n, st)

    # Each turn of a loop that writes tags has to write one.
    def iter_begin(self, n, st):
        st = self.s(st, ("savew", len(self.stack), id(n)), self.g(st, "iterwrote"))
        return self.s(st, "iterwrote", None)

    def iter_end(self, n, st):
        w = self.g(st, "iterwrote")
        old = self.g(st, ("savew", len(self.stack), id(n)))
        if n.get("_tagloop") is None:
            n["_tagloop"] = any(is_tag_write(self.prog, x) or any(is_tag_write(self.prog, y)
                                for g in self.prog.targets(x) if x.get("k") == "call" and not x.get("virt") for y in calls(g))
                                for x in walk(n) if x.get("k") == "call")
        if n["_tagloop"] and w is None:
            st = self.s(st, "skipped", where(n))
        st = self.s(st, "iterwrote", w or old)
        return st

    def after_loop(self, n, st):
        if n.get("_tagloop"):
            # which stream did it write to?  (a loop run zero times writes all of no tags)
            t = self.g(st, "iterwrote")
            st = self.s(st, "tags", True)
        st = st.with_ext(frozenset((a, b) for a, b in st.ext if not (isinstance(a, tuple) and a[0] == "savew")))
        return self.s(st, "iterwrote", None)

    def data_written(self, n, t, st):
        r = self.g(st, "read", 0)
        if r == 0:
            return st
        if len(n["a"]) == 2:
            w = self.term(n["a"][1], st)
            if r is not None and w != r and not (isinstance(w, tuple) and "gcount" in repr(w)):
                st = self.s(st, "short", "%s writes a different number of bytes than were read" % where(n))
            st = self.s(st, "amount", w)
        return self.s(st, ("rest", t), True)

    # -- mutations
    def assume(self, c, st, truth):
        r = super().assume(c, st, truth)
        if r is None:
            return None
        # testing a stream or an error code
        t, pos = norm_cond(self.term(c, st))
        if t[0] == "truth" and truth == pos:
            o = self.g(r, ("out", t[1]))
            if o is not None:
                r = self.s(r, ("out", t[1]), (o[0], o[1], False, o[3]))
        if t[0] == "truth" and self.g(r, ("ec", t[1]), None):
            # error_code converts to true on failure
            if truth == pos:
                r = self.s(r, ("ec", t[1]), "failed")
            else:
                r = self.s(r, ("ec", t[1]), "ok")
            r = self.settle(r)
        return r

    def settle(self, st):
        return st

    def ec_of(self, n):
        for a in n["a"]:
            if a.get("t") is not None and (a["t"].deref().rec or "") == "std::error_code" and a["t"].s.find("const") < 0:
                a0 = uncast(a)
                if a0["k"] in ("var", "mem"):
                    return a0
        return None

    def mutation(self, n, op, paths, st):
        terms = [fsops.pnorm(self.term(p, st)) for p in paths]
        roles = ["P" if self.P(t) else "X" for t in terms]
        ec = self.ec_of(n)
        st2 = self.havoc(n, st)
        if ec is not None:
            et = self.term(ec, st2)
            st2 = self.s(st2, ("ec", et), "pending")
        touches_P = (op in ("remove", "resize", "open", "map", "fopen", "chmod") and roles[0] == "P") or \
                    (op == "rename" and ("P" in roles)) or (op == "copy" and len(roles) > 1 and roles[1] == "P")
        if op == "copy" and roles[0] == "P" and roles[1] == "X":
            # a backup; it counts once its error code is known to be clear
            if ec is not None:
                st2 = self.s(st2, ("backup", terms[1]), ("ec", self.term(ec, st2)))
            else:
                st2 = self.s(st2, ("backup", terms[1]), "made")
            self.backup_copy(n, terms[1], st)
        if op == "remove" and roles[0] == "X":
            self.removal(n, terms[0], st)
        if touches_P:
            self.check_P(n, op, terms, roles, st)
        if op == "open" and roles[0] == "P":
            st2 = self.s(st2, "opened", True)
        if op == "rename" and roles == ["X", "P"] and ec is None:
            st2 = self.s(st2, "done", True)
        yield (N, st2)
        if ec is None:
            yield (THR, st, ANY)

    def backup_ok(self, st):
        for a, b in st.ext:
            if isinstance(a, tuple) and a[0] == "backup":
                if b == "made":
                    return True
                if isinstance(b, tuple) and self.g(st, ("ec", b[1])) == "ok":
                    return True
                # the error code was cleared and then reused: the check before counts
                if isinstance(b, tuple) and self.g(st, ("okd", a)):
                    return True
        return False

    def bad(self, rule, key, n, msg):
        self.events.append((rule, key, n, msg))

    def removal(self, n, t, st):
        own = any(isinstance(a, tuple) and a[0] == "out" and b[0] == t for a, b in st.ext)
        self.mut += 1
        if not own:
            self.bad("touch-only-own", "remove", n,
                     "removes a file that is neither the target nor the temporary file it created")

    def backup_copy(self, n, t, st):
        for a in n["a"]:
            c = const(uncast(a))
            if c is not None and a.get("t") is not None and "copy_options" in a["t"].s and c & 2:
                self.bad("touch-only-own", "overwrite-backup", n, "the backup copy may overwrite an existing file")

    def check_P(self, n, op, terms, roles, st):
        self.mut += 1
        W = where(n)
        if op in ("open", "fopen") and self.absent(st):
            return            # nothing there to lose
        if op == "open" and appends(n):
            return            # adds to the end, changing nothing that is there
        if op == "map":
            return            # in-place editing is C02's subject
        if op == "resize":
            return
        # the replacement
        src = terms[0] if op in ("rename", "copy") and roles[-1] == "P" else None
        outs = [(a[1], b) for a, b in st.ext if isinstance(a, tuple) and a[0] == "out" and b[0] is not None and not self.P(b[0])]
        restore = src is not None and self.g(st, ("backup", src))
        if op in ("rename", "copy") and roles[0] == "P" and roles[-1] != "P":
            src = None
        if op in ("rename", "copy") and src is not None and not restore:
            outs = [(t, o) for t, o in outs if o[0] == src]
            if not outs:
                self.bad("complete-first", op, n, "the target is replaced by a file this routine did not write")
                return
        if restore:
            return
        if not outs:
            self.bad("complete-first", op, n, "the target is changed before any complete replacement has been written")
            return
        for t, (pth, exc, dirty, closed) in outs:
            if not closed:
                self.bad("complete-first", op + "-unclosed", n, "the target is changed while the replacement is still open")
            elif dirty:
                self.bad("complete-first", op + "-unchecked", n, "the target is changed although a write error on the replacement would go unnoticed")
            if not self.g(st, "tags"):
                self.bad("complete-first", op + "-notags", n, "the target is changed before the new tags have been written")
            if self.g(st, "skipped"):
                self.bad("complete-first", op + "-skips", n, "the loop at %s can skip a tag" % self.g(st, "skipped"))
            if not self.g(st, ("rest", t)) and not self.empty_rest(st):
                self.bad("complete-first", op + "-norest", n, "the target is changed on a path where the rest of the file was not copied")
            if self.g(st, "short"):
                self.bad("complete-first", op + "-short", n, self.g(st, "short"))
            am = self.g(st, "amount")
            if am is not None and not self.amount_ok(am):
                self.bad("complete-first", op + "-amount", n, "the number of bytes copied is not the distance from the end of the tags to the end of the file")
        if op == "remove" and not self.backup_ok(st):
            self.bad("backup-first", "remove", n, "the original is removed on a path without a completed backup")
        kb = self.keep_backup_term()
        if kb is not None and st.known(kb) is not False and not self.backup_ok(st) and not self.g(st, "replaced"):
            self.bad("backup-first", op, n, "the original is replaced on a path where a backup was asked for but has not been completed")

    def amount_ok(self, t):
        return t[0] == "bin" and t[1] == "-" and t[2][0] == "at" and t[3][0] == "at" or t[0] in ("at", "loop", "call", "obj")

    def empty_rest(self, st):
        for t, truth in st.facts:
            # not (0 < there - here), or there - here == 0
            if t[0] == "bin" and t[1] == "<" and t[2] == ("c", 0) and self.amount_ok(t[3]) and not truth:
                return True
            if t[0] == "bin" and t[1] == "==" and ("c", 0) in t[2:] and truth:
                return True
            if t[0] == "bin" and t[1] == "==" and t[2][0] == "at" and t[3][0] == "at" and truth:
                return True
        return False

    def absent(self, st):
        return any(t[0] == "call" and t[1] == "std::filesystem::exists" and self.P(t[3]) and truth is False for t, truth in st.facts)

    def keep_backup_term(self):
        for p in self.root["ps"]:
            if p["t"].k == "bool" and "backup" in p["n"]:
                return ("parm", p["n"])
        return None


def appends(n):
    """Is this an open for appending only?"""
    APP, TRUNC = 1, 32
    m = [const(uncast(a)) for a in n["a"][1:]]
    return bool(m) and m[0] is not None and m[0] & APP and not m[0] & TRUNC


def roots(prog):
    """Library functions that are given a path and end up changing the file system."""
    out = []
    for f in prog.fns:
        if not f.get("body") or not f["l"][0].startswith("scribbu/"):
            continue
        ps = [p for p in f["ps"] if (p["t"].deref().rec or "") == "std::filesystem::path"]
        if not ps:
            continue
        if any(fsops.op(n) for n in calls(f)) or any(fsops.op(x) for n in calls(f) for g in prog.targets(n) for x in calls(g)):
            out.append((f, ps[0]["n"]))
    return out


def check(prog, R):
    R.rule("complete-first", "the target path is only changed after a complete, closed, error-checked replacement exists elsewhere", 3)
    R.rule("backup-first", "where a backup is asked for, or the original is removed, a completed backup exists", 2)
    R.rule("touch-only-own", "only the target and the routine's own temporary file are ever removed or overwritten", 2)
    R.rule("tag-skip", "track data starts after the header and body of every leading tag", 2)
    R.rule("new-file-errors", "a file written where none existed has its write errors detected before success is reported", 1)
    rs = roots(prog)
    seen = set()
    for f, tgt in rs:
        short = f["n"].split("::")[-1]
        fl = Replace(prog, f, R, tgt)
        st = fl.start(f, frozenset())
        o = fl.run(f, st)
        # what is left open at a normal return must have been checked
        for s in o.r:
            for a, b in s.ext:
                pass
        R.extra.setdefault("routines", []).append({"routine": f["n"], "at": where(f), "states_at_exit": len(o.r) + len(o.t),
                                                   "mutations": fl.mut})
        for rule in ("complete-first", "backup-first", "touch-only-own"):
            evs = [e for e in fl.events if e[0] == rule]
            if evs:
                for _, key, n, msg in evs:
                    fnm = short
                    R.bad(rule, "%s/%s" % (fnm, key), n, msg)
            elif fl.mut:
                R.ok(rule, "%s at %s: %d file-changing operations on all paths" % (f["n"], where(f), fl.mut))
    new_file(prog, R)
    tag_skip(prog, R)


class NewFile(Replace):
    """Streams opened directly on the target: errors must be detected by the time we return."""

    def check_P(self, n, op, terms, roles, st):
        self.mut += 1

    def removal(self, n, t, st):
        pass

    def backup_copy(self, n, t, st):
        pass

    def __init__(self, *a):
        super().__init__(*a)
        self.left = []

    def destroy(self, v, st):
        obj = ("obj", v["n"], where(v))
        o = self.g(st, ("out", obj))
        if o is not None and o[0] is not None:
            pth, exc, dirty, closed = o
            self.left.append((v, pth, dirty, closed, exc, st))
            st = st.with_ext(frozenset((a, b) for a, b in st.ext if a != ("out", obj)))
        return st

    def _leave(self, vs, o):
        self.throwing_out = False
        # only normal exits matter here: on a throw the caller is told
        keep = o.t
        o.t = set()
        r = super()._leave(vs, o)
        r.t = keep
        return r


def new_file(prog, R):
    for f, tgt in roots(prog):
        fl = NewFile(prog, f, R, tgt)
        fl.run(f, fl.start(f, frozenset()))
        seen = {}
        for v, pth, dirty, closed, exc, st in fl.left:
            if not fl.P(pth):
                continue
            k = (v["n"], where(v))
            ok = closed and not dirty
            seen[k] = seen.get(k, True) and ok
        for (nm, w), ok in seen.items():
            if ok:
                R.ok("new-file-errors", "%s: stream at %s" % (f["n"], w))
            else:
                R.bad("new-file-errors", "%s/unchecked-stream" % f["n"].split("::")[-1], w,
                      "a stream writing the target goes out of scope with write errors undetected")


class Skip(SymFlow):
    """Relative seeks over a tag that was just detected."""

    def __init__(self, prog):
        super().__init__(prog)
        self.found = []

    def call(self, n, st):
        f = n.get("f") or ""
        if f.endswith("::seekg") and len(n["a"]) == 2:
            t = self.term(n["a"][0], st)
            sizes = sizes_in(t)
            for var in sizes:
                self.found.append((n, t, st.ext))
        if n["k"] == "call" and f == "scribbu::looking_at_id3v2":
            r = n["a"][1] if len(n["a"]) > 1 else None
            c = const(uncast(r)) if r is not None else 1
            st = st.with_ext(("restore", c))
        yield from self.default_call(n, st)


def sizes_in(t):
    out = []
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "mem" and t[2] == "size_":
            out.append(t)
        else:
            for x in t:
                out += sizes_in(x)
    return out


def tag_skip(prog, R):
    for f in prog.fns:
        if not f.get("body"):
            continue
        cs = calls(f)
        if not any(n.get("f") == "scribbu::looking_at_id3v2" for n in cs):
            continue
        if not any((n.get("f") or "").endswith("::seekg") and "size_" in repr([x.get("n") for x in walk(n)]) for n in cs if n["k"] == "call"):
            continue
        fl = Skip(prog)
        fl.run(f, fl.start(f, None))
        for n, t, e in fl.found:
            if e is None:
                continue
            restore = e[1]
            off = None
            if t[0] == "mem":
                off = 0
            elif t[0] == "bin" and t[1] == "+" and t[2][0] == "c" and t[3][0] == "mem":
                off = t[2][1]
            elif t[0] == "bin" and t[1] == "+" and t[3][0] == "c" and t[2][0] == "mem":
                off = t[3][1]
            want = 10 if restore else 0
            if restore is None or off is None:
                continue
            if off == want:
                R.ok("tag-skip", "%s seeks %d + size after looking (position %s)" % (where(n), off, "restored" if restore else "past the header"))
            else:
                R.bad("tag-skip", "%s/seek" % f["n"].split("::")[-1], n,
                      "skips %d + size bytes where the tag ends %d + size bytes ahead" % (off, want))
