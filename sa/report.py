"""Findings, obligations, evidence."""
import json, os
from model import VERIF, AnalysisBroken


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = []      # dict(rule,key,where,msg)
        self.obl = {}           # rule -> list of instance texts
        self.facts = {}         # free-form numbers for the evidence
        self.rules = {}         # rule -> one-line statement
        self.notes = []
        self.trusted = []
        self.assume = []

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, inst):
        self.obl.setdefault(rule, []).append((inst, True))

    def bad(self, rule, key, where, msg):
        """key: stable identity (function, construct), no line numbers."""
        self.obl.setdefault(rule, []).append((key, False))
        for f in self.findings:
            if f["rule"] == rule and f["key"] == key:
                return
        self.findings.append({"rule": rule, "key": key, "where": where, "msg": msg})

    def check(self, cond, rule, key, where, msg):
        if cond:
            self.ok(rule, key)
        else:
            self.bad(rule, key, where, msg)

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def finish_checks(self, minimum):
        if self.findings:       # a violation may be what removed the instances
            return
        for r, n in minimum.items():
            c = len(self.obl.get(r, []))
            if c < n:
                raise AnalysisBroken("rule %s has %d instances, fewer than the %d confirmed by hand" % (r, c, n))
        if not self.obl:
            raise AnalysisBroken("no rule instance at all")

    def emit(self, wall, verbose=False):
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        known = {(k["rule"], k["key"]): k for k in kf["known"] if k["property"] == self.pid}
        new, old = [], []
        for f in self.findings:
            (old if (f["rule"], f["key"]) in known else new).append(f)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        total = sum(len(v) for v in self.obl.values())
        good = sum(1 for v in self.obl.values() for x in v if x[1])
        for r in sorted(self.obl):
            v = self.obl[r]
            print("rule %-28s %5d instances, %d failing" % (r, len(v), sum(1 for x in v if not x[1])))
            if verbose:
                for i, o in v:
                    print("   ", "ok " if o else "BAD", i)
        for f in old:
            print("KNOWN-FINDING: property=%s %s %s: %s" % (self.pid, f["where"], f["key"], known[(f["rule"], f["key"])]["what"]))
        rep = None
        if new:
            rep = os.path.join(ev, "replay_%s.json" % self.pid)
            json.dump({"property": self.pid, "rerun": "python3 /verif/check.py %s --list" % self.pid, "rules": self.rules, "violations": new}, open(rep, "w"), indent=1)
            for f in new:
                print("  %s: [%s] %s\n      instance: %s" % (f["where"], f["rule"], f["msg"], f["key"]))
            for f in new[:20]:
                print("VIOLATION property=%s replay=%s rule=%s at %s" % (self.pid, rep, f["rule"], f["where"]))
        cov = {"explanation": "Static analysis of the resolved program (clang AST + CFG of every unit the build compiles, parsed from /repo's working tree on this run). Rules: " + " | ".join("%s: %s" % x for x in sorted(self.rules.items())),
               "obligations": total, "discharged": good, "known_findings": len(old),
               "instances_per_rule": {r: len(v) for r, v in sorted(self.obl.items())},
               "samples": {r: [i for i, _ in v[:6]] for r, v in sorted(self.obl.items())},
               "analysed": self.facts, "trusted_base": self.trusted + ["clang 18 front end and CFG builder", "the effect tables in /verif/sa"], "notes": self.notes}
        e = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
             "coverage": cov, "wall_s": round(wall, 2),
             "assumptions": self.assume, "violations": len(new)}
        if new:
            cov["violations"] = [{"rule": f["rule"], "where": f["where"], "what": f["msg"], "instance": f["key"]} for f in new]
        json.dump(e, open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d known, %d violations (%.1fs)" % (self.pid, total, good, len(old), len(new), wall))
        return 1 if new else 0
