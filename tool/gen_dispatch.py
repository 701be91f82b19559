"""Discovery aid (not a check): enumerates option-dependent operations and prints the table that was
then read against the headers and frozen as sa/tables/dispatch.json."""
import sys, os, json, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
from model import *
from options import *
m = Model.load()
en = {e["name"]: {v["n"]: v["v"] for v in e["vals"]} for e in m.enums.values() if e["name"].startswith(NS)}
OPT = ("metric", "retraction", "retr", "VecTran", "RCGmethod", "LineSearch_LS", "InitSteptype", "Stop_Criterion")
out = {}
for f in sorted(m.repo_fns(("Solvers/", "Manifolds/")), key=lambda f: f.qual()):
    mem = {}
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "MemberExpr" and n["mn"] in OPT and is_this_member(f, x):
            t = (n.get("t") or "").replace("enum ", "").replace("const ", "")
            if t in en:
                mem[n["mn"]] = en[t]
    if not mem or f.short in ("CheckParams", "SetDefaultParams", "SetParams", "CheckMembers") or f.short.startswith("ChooseParams") or not f.blocks or f.short == f.cls.split("::")[-1]:
        continue
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "MemberExpr" and n["mn"] in ("HasHHR", "IsIntrApproach") and is_this_member(f, x) and f.rel().startswith("Manifolds"):
            mem[n["mn"]] = {"0": 0, "1": 1}
    hier = set(c.replace(NS, "") for c in m.bases(f.cls))
    doms = [[(k, a, v) for a, v in d.items() if "LENGTH" not in a] for k, d in mem.items()]
    res = {}
    for c in itertools.product(*doms):
        env = {k: v for k, a, v in c}
        calls = {x for x in this_calls(m, f, env, lambda n: False) if x.rsplit("::", 1)[0] in hier}
        warn = any(isinstance(s, int) and f.nodes[s]["k"] == "StringLiteral" and any(w in f.nodes[s].get("v", "").lower() for w in ("warning", "error", "not been done")) for b in reach(f, env) for s in f.blocks[b]["s"])
        res[" ".join("%s=%s" % (k, a) for k, a, v in c)] = None if warn else sorted(calls)
    got = [tuple(v) for v in res.values() if v is not None]
    if len(set(got)) > 1:
        com = set.intersection(*[set(g) for g in got])
        out[f.qual()] = {k: sorted(set(v) - com) for k, v in res.items() if v is not None}
json.dump(out, sys.stdout, indent=1)
