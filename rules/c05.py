"""C05: nothing is stored outside the object it is stored in."""

import mem
from memrule import judge

TECHNIQUE = ("Region analysis over the typed AST: every pointer and iterator is a linear form over one region (fixed-size "
             "object, allocation, container or parameter range); every store and every index of a fixed-size object must be "
             "entailed by the conditions of each path, loops by inferred invariants that are verified at the back edge.")


def check(prog, rep):
    rep.rule("store", "every store through a pointer, iterator or library call lies inside the object written", 150)
    rep.rule("index", "every index of a fixed-size object is below its extent", 100)
    rep.rule("hand-over", "every writable buffer handed to a function is as large as the function is told or needs", 5)

    def pick(kind, n, info):
        if kind == "write":
            return "store"
        if kind == "index":
            return "index"
        if kind == "pass" and info.get("mut"):
            return "hand-over"
        return None
    judge(prog, rep, pick)
