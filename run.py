#!/usr/bin/env python3
"""run.py C01 [C02 ...]: decide properties of /repo's current tree by static analysis."""

import importlib
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") is None:     # the same order of sets on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "rules")]
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)

import facts  # noqa: E402
import report  # noqa: E402


def one(prog, pid):
    mod = importlib.import_module(pid.lower())
    R = report.Report(pid, mod.TECHNIQUE)
    R.extra = {"translation_units": prog.ntu, "functions_in_program": len(prog.fns)}
    mod.check(prog, R)
    return R.finish()


def main():
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "rules")) if f[0] == "c" and f.endswith(".py"))
    rc = 0
    try:
        prog = facts.load()
    except facts.AnalysisBroken as e:
        print("ANALYSIS-BROKEN:", e)
        return 3
    for pid in ids:
        try:
            r = one(prog, pid)
        except facts.AnalysisBroken as e:
            print("ANALYSIS-BROKEN: %s: %s" % (pid, e))
            r = 3
        except Exception:
            traceback.print_exc()
            r = 4
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
