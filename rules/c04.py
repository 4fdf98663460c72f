"""C04: renaming never loses a track."""

import fsops
from facts import AnalysisBroken
from flow import N, THR, ANY
from program import calls, const, uncast, where
from prov import Implies, Prov, handlers, reachable
from sym import SymFlow

TECHNIQUE = "path-sensitive typestate of source and destination paths with exceptional exits"

SKIP, OVERWRITE, UPDATE = 1, 2, 4


class Rename(SymFlow):
    def __init__(self, prog, root, R, prov, reach):
        SymFlow.__init__(self, prog)
        self.R, self.root, self.reach = R, root, reach
        self.asked = Implies(prog, prov, "rename", True)
        self.in_handler = 0

    def inline_targets(self, n):
        return [g for g in self.prog.targets(n) if g["u"] in self.reach]

    def add(self, st, x):
        return st.with_ext((st.ext or frozenset()) | {x})

    def has(self, st, x):
        return x in (st.ext or ())

    def assume(self, c, st, truth):
        st = SymFlow.assume(self, c, st, truth)
        if st is not None and self.asked(c, truth):
            st = self.add(st, "asked")
        return st

    def enter_handler(self, h, st):
        return self.add(st, "failed")

    def iter_begin(self, n, st):
        # what was done for the previous file says nothing about this one
        return st.with_ext(frozenset(x for x in st.ext or () if x == "asked"))

    def options(self, n, st):
        for a in n["a"][2:]:
            if "copy_options" in (a.get("t").s if a.get("t") is not None else ""):
                return const(uncast(a))
        return 0

    def error_code(self, n):
        for a in n["a"]:
            t = a.get("t")
            if t is not None and "error_code" in t.s:
                return a
        return None

    def absent(self, st, t):
        """Known not to exist yet."""
        p = fsops.pnorm(t)
        return any(truth is False and x[0] == "call" and x[1].endswith("::exists") and p in [fsops.pnorm(y) for y in x[2:] if y]
                   for x, truth in st.facts)

    def call(self, n, st):
        o = fsops.op(n)
        if not o:
            yield from SymFlow.default_call(self, n, st)
            return
        op, paths = o
        ts = [fsops.pnorm(self.term(a, st)) for a in paths]
        f = n.get("f") or n.get("cls")
        if self.has(st, "failed"):
            self.R.bad("after-failure", op, n, "%s is called after the new name could not be computed or copied" % f)
        if op == "copy":
            opts = self.options(n, st)
            if opts is None or opts & (OVERWRITE | UPDATE):
                if not self.absent(st, ts[1]):
                    self.R.bad("no-overwrite", "copy", n, "the copy may overwrite an existing file")
            else:
                self.R.ok("no-overwrite", where(n))
            ec = self.error_code(n)
            if ec is None and not (opts or 0) & SKIP:
                yield (N, self.add(self.clobber(n, st), ("copied", ts[0], ts[1])))
                yield (THR, st, ANY)
                return
            # success is only known from the result
            res = ("at", where(n), n["l"][2], f)
            yield (N, self.add(self.clobber(n, st).set(("res", id(n)), res), ("copied-if", ts[0], ts[1], res)))
            if ec is None:
                yield (THR, st, ANY)
            return
        if op == "remove":
            ok = False
            for x in st.ext or ():
                if x[0] == "copied" and x[1] == ts[0] and x[2] != ts[0]:
                    ok = True
                if x[0] == "copied-if" and x[1] == ts[0] and x[2] != ts[0] and st.known(x[3]) is True:
                    ok = True
            if not ok:
                self.R.bad("copied-first", "remove", n, "a source file is removed on a path where its copy has not been completed")
            else:
                self.R.ok("copied-first", where(n))
            if not self.has(st, "asked"):
                self.R.bad("removal-requested", "remove", n, "a source file is removed on a path where the rename option is not known to be set")
            else:
                self.R.ok("removal-requested", where(n))
        elif op == "rename":
            if not self.absent(st, ts[1]):
                self.R.bad("no-overwrite", "rename", n, "renaming may replace an existing file")
            else:
                self.R.ok("no-overwrite", where(n))
            if not self.has(st, "asked"):
                self.R.bad("removal-requested", "rename", n, "a source file is moved on a path where the rename option is not known to be set")
            else:
                self.R.ok("removal-requested", where(n))
                self.R.ok("copied-first", where(n))
        elif op in ("open", "fopen", "map"):
            if not self.absent(st, ts[0]):
                self.R.bad("no-overwrite", op, n, "opening the destination for writing may destroy an existing file")
        elif op == "resize":
            self.R.bad("no-overwrite", op, n, "the rename command truncates a file")
        yield (N, self.clobber(n, st))
        if self.may_throw(n):
            yield (THR, st, ANY)


def check(prog, R):
    R.rule("copied-first", "a source is removed only after its copy to a different path has completed", 1)
    R.rule("removal-requested", "a source is removed or moved only when the rename option is set", 1)
    R.rule("no-overwrite", "nothing the command writes can replace an existing file", 1)
    R.rule("after-failure", "no file operation follows a failed computation of the new name", 0)
    h = handlers(prog).get("rename")
    if h is None:
        raise AnalysisBroken("no handler for the rename command")
    fns = [f for f in reachable(prog, [h]) if f["l"][0].startswith("src/")]
    prov = Prov(prog, fns)
    reach = set()
    while True:
        n0 = len(reach)
        for f in fns:
            if any(fsops.op(n) or any(g["u"] in reach for g in prog.targets(n)) for n in calls(f)):
                reach.add(f["u"])
        if len(reach) == n0:
            break
    called = {g["u"] for f in fns if f["u"] in reach for n in calls(f) for g in prog.targets(n) if f["u"] != g["u"]}
    roots = [f for f in fns if f["u"] in reach and f["u"] not in called]
    if not roots:
        raise AnalysisBroken("the rename command performs no file operation")
    for f in roots:
        a = Rename(prog, f, R, prov, reach)
        a.run(f, a.start(f))
        R.extra["nodes_" + f["n"]] = a.nodes_seen
    # the option must exist
    R.assumptions.append("copying without an overwrite option fails when the destination exists (std::filesystem)")
