"""Obligations of the region analysis, as a rule's instances."""

import mem
from program import where


def judge(prog, rep, pick):
    out, _ = mem.analyse(prog)
    undecided = 0
    names = {}
    for f, results, _ in sorted(out.values(), key=lambda x: (x[0]["l"][0], x[0]["l"][1], x[0]["u"])):
        for k, (n, ok, info) in sorted(results.items(), key=lambda x: (x[1][0]["l"], x[0])):
            if k[0] == "unknown" or info.get("open") and not ok:
                undecided += 1
                continue
            rule = pick(k[0], n, info)
            if rule is None:
                continue
            if ok:
                rep.ok(rule, "%s:%d %s" % (where(n), n["l"][2], info["tag"]))
            else:
                key = "%s/%s/%s" % (f["n"], info.get("what"), info["tag"])
                i = names[key] = names.get(key, 0) + 1
                rep.bad(rule, (key + ("/%d" % i if i > 1 else "")).replace(" ", "-"), n,
                        "%s: %s of %s, which has %s element(s): not shown to be inside (%s)" % (
                            f["n"], {"write": "a store into", "index": "an index", "read": "a read", "pass": "a range", "return": "a position"}[k[0]].replace(" into", ""),
                            info.get("what"), info.get("has"), info.get("need")))
    rep.extra["functions analysed"] = len(out)
    rep.extra["accesses without a known extent (not decided)"] = undecided
