"""C06: parsing never reads outside the bytes it was given."""

import mem
from memrule import judge

TECHNIQUE = ("Region analysis over the typed AST: every pointer and iterator is a linear form over one region; every read, "
             "and every range handed to a function, must be entailed by the conditions of each path; functions are analysed "
             "one by one against the ranges they are given, and each call site must supply such a range.")


def check(prog, rep):
    rep.rule("read", "every read through a pointer or iterator lies inside the range it belongs to", 150)
    rep.rule("hand-over", "every range handed to a function lies inside the bytes at hand", 150)
    rep.rule("position", "a position returned for a range lies inside it", 1)

    def pick(kind, n, info):
        if kind == "read":
            return "read"
        if kind == "pass" and not info.get("mut"):
            return "hand-over"
        if kind == "return":
            return "position"
        return None
    judge(prog, rep, pick)
