"""Obligations, findings, evidence and exit status of one check."""

import json
import os
import re
import time

from facts import VERIF, AnalysisBroken
from program import where

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, prop, technique):
        self.prop = prop
        self.technique = technique
        self.t0 = time.time()
        self.rules = {}          # rule -> {"text", "instances", "held", "samples"}
        self.findings = []       # (key, rule, where, message)
        self.assumptions = []
        self.extra = {}
        self._keys = set()
        self._seen = set()

    def rule(self, name, text, minimum=1):
        self.rules[name] = {"text": text, "instances": 0, "held": 0, "samples": [], "minimum": minimum}

    def ok(self, rule, what):
        r = self.rules[rule]
        if (rule, what) in self._seen:
            return
        self._seen.add((rule, what))
        r["instances"] += 1
        r["held"] += 1
        if len(r["samples"]) < 6:
            r["samples"].append(what)

    def bad(self, rule, key, node_or_where, message):
        """key identifies the construct (never a line number)."""
        r = self.rules[rule]
        w = node_or_where if isinstance(node_or_where, str) else where(node_or_where)
        full = "%s/%s" % (rule, key)
        if full in self._keys:
            return
        r["instances"] += 1
        self._keys.add(full)
        self.findings.append((full, rule, w, message))

    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", ln)
                if m and m.group(1) == self.prop:
                    known[m.group(2)] = m.group(3).strip()
        new = [f for f in self.findings if f[0] not in known]
        for n, r in self.rules.items():
            if r["instances"] < r["minimum"] and not new:
                raise AnalysisBroken("rule %s matched %d instances, expected at least %d" %
                                     (n, r["instances"], r["minimum"]))
        old = [f for f in self.findings if f[0] in known]
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        ob = sum(r["instances"] for r in self.rules.values())
        dis = sum(r["held"] for r in self.rules.values())
        cov = {
            "explanation": "Static analysis of the current tree; each obligation is one construct examined under one rule.",
            "obligations": ob,
            "discharged": dis,
            "known_findings": len(old),
            "rules": {n: {"rule": r["text"], "instances": r["instances"], "held": r["held"],
                          "samples": r["samples"]} for n, r in self.rules.items()},
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": self.assumptions,
            "violations": [{"key": k, "rule": r, "where": w, "message": m} for k, r, w, m in new],
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d known findings, %d violations" %
              (self.prop, ob, dis, len(old), len(new)))
        for n, r in self.rules.items():
            print("  rule %-28s instances %4d held %4d" % (n, r["instances"], r["held"]))
        for k, r, w, m in old:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.prop, k, w, m))
        if new:
            rp = os.path.join(d, "replay-%s.txt" % self.prop)
            with open(rp, "w") as f:
                for k, r, w, m in new:
                    f.write("%s\n  rule: %s\n  at: %s\n  %s\n" % (k, self.rules[r]["text"], w, m))
            for k, r, w, m in new:
                print("  %s: %s: %s" % (w, k, m))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
