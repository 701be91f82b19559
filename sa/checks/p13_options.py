"""Selected options take effect: enumerated options, presets, status names."""
import json, os
from model import NS, AnalysisBroken, VERIF
from util import *
from options import *

MINIMUM = {"P13.dispatch": 98, "P13.names": 20, "P13.valid": 3, "P13.preset": 15, "P13.stop": 3}

# Documented presets (class headers): option member -> enumerator
PRESETS = {
 "Stiefel": {1: dict(metric="STIE_EUCLIDEAN", retraction="STIE_QF", VecTran="STIE_PARALLELIZATION", IsIntrApproach=1),
             2: dict(metric="STIE_EUCLIDEAN", retraction="STIE_QF", VecTran="STIE_PROJECTION", IsIntrApproach=0),
             3: dict(metric="STIE_EUCLIDEAN", retraction="STIE_POLAR", VecTran="STIE_PARALLELIZATION", IsIntrApproach=1),
             4: dict(metric="STIE_EUCLIDEAN", retraction="STIE_POLAR", VecTran="STIE_PROJECTION", IsIntrApproach=0),
             5: dict(metric="STIE_EUCLIDEAN", retraction="STIE_CAYLEYR", VecTran="STIE_CAYLEYVT", IsIntrApproach=0)},
 "CStiefel": {1: dict(metric="CSTIE_EUCLIDEAN", retraction="CSTIE_QF", VecTran="CSTIE_PARALLELIZATION", IsIntrApproach=1),
              2: dict(metric="CSTIE_EUCLIDEAN", retraction="CSTIE_QF", VecTran="CSTIE_PROJECTION", IsIntrApproach=0),
              3: dict(metric="CSTIE_EUCLIDEAN", retraction="CSTIE_POLAR", VecTran="CSTIE_PARALLELIZATION", IsIntrApproach=1),
              4: dict(metric="CSTIE_EUCLIDEAN", retraction="CSTIE_POLAR", VecTran="CSTIE_PROJECTION", IsIntrApproach=0)},
 "Sphere": {1: dict(retraction="STIE_QF", VecTran="STIE_PARALLELIZATION", IsIntrApproach=1, HasHHR=0),
            2: dict(retraction="STIE_EXP", VecTran="STIE_PARALLELTRANSLATION", IsIntrApproach=0, HasHHR=0),
            3: dict(retraction="STIE_QF", VecTran="STIE_PARALLELTRANSLATION", IsIntrApproach=0, HasHHR=0),
            4: dict(retraction="STIE_QF", VecTran="STIE_PARALLELTRANSLATION", IsIntrApproach=0)},
 "SymFixedRankQ": {1: dict(metric="SFRANKQEUC", VecTran="SFRANKQPARALLELIZATION"), 2: dict(metric="SFRANKQHGZ", VecTran="SFRANKQPARALLELIZATION"),
                   3: dict(metric="SFRANKQQEUC", VecTran="SFRANKQPARALLELIZATION"), 4: dict(metric="SFRANKQEUC", VecTran="SFRANKQPROJECTION"),
                   5: dict(metric="SFRANKQHGZ", VecTran="SFRANKQPROJECTION"), 6: dict(metric="SFRANKQQEUC", VecTran="SFRANKQPROJECTION")},
 "CSymFixedRankQ": {1: dict(metric="CSFRANKQEUC", VecTran="CSFRANKQPARALLELIZATION"), 2: dict(metric="CSFRANKQHGZ", VecTran="CSFRANKQPARALLELIZATION"),
                    3: dict(metric="CSFRANKQEUC", VecTran="CSFRANKQPROJECTION"), 4: dict(metric="CSFRANKQHGZ", VecTran="CSFRANKQPROJECTION")},
 # representation and metric only: the header and the code disagree on the retraction of sets 3 and 4
 "SPDManifold": {1: dict(metric="SPDAFFINEINVARIANCE", retr="SPDSECONDORDER", VecTran="SPDVTPARA", IsIntrApproach=1),
                 2: dict(metric="SPDEUCLIDEAN", retr="SPDSECONDORDER", VecTran="SPDVTPARA", IsIntrApproach=1),
                 3: dict(metric="SPDAFFINEINVARIANCE", IsIntrApproach=0), 4: dict(metric="SPDEUCLIDEAN", IsIntrApproach=0)},
}
# Quantities each stopping criterion is defined by (Solvers headers): relative change of f; |gf|; |gf|/|gf0|.
STOP = {"SolversSM": {"SM_FUN_REL": {"f1", "f2", "Tolerance"}, "SM_GRAD_F": {"ngf2", "Tolerance"}, "SM_GRAD_F_0": {"ngf2", "ngf0", "Tolerance"}},
        "SolversNSM": {"NSM_FUN_REL": {"f1", "f2", "Tolerance"}, "NSM_DIR_F": {"ndir1", "Tolerance"}, "NSM_DIR_F_0": {"ndir1", "ndir0", "Tolerance"}}}
QUANT = {"f1", "f2", "ngf1", "ngf2", "ngf0", "ndir1", "ndir0", "Tolerance"}


def run(m, ctx):
    ec = enum_consts(m)
    ctx.rule("P13.dispatch", "under every assignment of the option members that selects a supported variant, exactly the implementations of that variant are reached (CFG restricted by the assignment, helpers of the same object followed)")
    ctx.rule("P13.preset", "ChooseParamsSet<k> leaves every option member with the value its header documents, on every path")
    ctx.rule("P13.stop", "each stopping criterion is decided by exactly the quantities it is named after")
    ctx.rule("P13.names", "entry i of a name table of an enumeration spells enumerator i, and every enumerator below the LENGTH sentinel has an entry")
    ctx.rule("P13.valid", "an enumerated parameter is reported valid exactly for the values 0..LENGTH-1")
    tab = json.load(open(os.path.join(VERIF, "sa", "tables", "dispatch.json")))
    virt = {me["name"] for c in (NS + "Manifold",) for me in m.need_class("Manifold")["methods"]}
    for q in sorted(tab):
        cls, nm = q.rsplit("::", 1)
        fs = m.find(q)
        if not fs:
            if not m.classes.get(NS + cls):
                raise AnalysisBroken("class %s vanished" % cls)
            ctx.bad("P13.dispatch", q, "%s:%d" % (cls, m.classes[NS + cls]["line"]), "%s no longer has its own %s: the option variants it selected are unreachable" % (cls, nm))
            continue
        f = fs[0]
        fam = {x for v in tab[q].values() for x in v}
        famn = {x.split("::")[-1] for x in fam}

        def follow(x, famn=famn):
            n = x.split("::")[-1]
            return n not in famn and n not in virt and not x.startswith("Element::") and not n.startswith("~")
        for envt, want in sorted(tab[q].items()):
            env = {}
            for a in envt.split():
                k, v = a.split("=")
                env[k] = ec[v] if v in ec else int(v) if v.isdigit() else None
                if env[k] is None:
                    raise AnalysisBroken("enumerator %s vanished" % v)
            got = this_calls(m, f, env, follow) & fam
            ctx.check(got == set(want), "P13.dispatch", "%s[%s]" % (q, envt), f.loc(), "with %s, %s runs %s instead of %s" % (envt, q, sorted(got) or "none of its variants", want or "no other variant"))
    for cls, sets in PRESETS.items():
        for k, want in sets.items():
            fs = m.find("%s::ChooseParamsSet%d" % (cls, k))
            if not fs:
                raise AnalysisBroken("%s::ChooseParamsSet%d vanished" % (cls, k))
            f = fs[0]
            fin = final_values(m, f)
            for mem, v in want.items():
                w = ec[v] if isinstance(v, str) else v
                g = fin.get(mem)
                ctx.check(g == {w}, "P13.preset", "%s::ChooseParamsSet%d.%s" % (cls, k, mem), f.loc(), "parameter set %d of %s must choose %s=%s; it leaves %s" % (k, cls, mem, v, sorted(map(str, g)) if g else "it unchanged"))
    stops(m, ctx, ec)
    names(m, ctx)
    valid(m, ctx, ec)
    ctx.facts["option-dependent operations"] = len(tab)


def final_values(m, f, depth=0, start=None):
    """member -> set of constant values at exit (None: unknown or unchanged on some path)"""
    st = {b: None for b in f.blocks}
    st[f.entry] = dict(start or {})
    work = [f.entry]
    while work:
        b = work.pop(0)
        s = dict(st[b])
        for x in f.blocks[b]["s"]:
            if not isinstance(x, int):
                continue
            n = f.nodes[x]
            if n["k"] == "BinaryOperator" and n["op"] == "=":
                q = is_this_member(f, n["c"][0])
                if q:
                    r = strip(f, n["c"][1])
                    if f.nodes[r]["k"] == "BinaryOperator" and f.nodes[r]["op"] == "=":
                        r = strip(f, f.nodes[r]["c"][1])
                    s[q.split("::")[-1]] = frozenset([ev(f, r, {k: list(v)[0] for k, v in s.items() if len(v) == 1})])
            elif n["k"] == "CXXMemberCallExpr" and n.get("obj", -1) >= 0 and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr" and depth < 3:
                nm = n.get("fn", "").split("::")[-1]
                if nm in ("SetIsIntrApproach", "SetHasHHR"):
                    s["IsIntrApproach" if nm == "SetIsIntrApproach" else "HasHHR"] = frozenset([ev(f, n["args"][0], {})])
                else:
                    g = m.fns.get(n["usr"])
                    if g and g.blocks:
                        env = {}
                        for k, p in enumerate(g.params):
                            if k < len(n["args"]):
                                v = ev(f, n["args"][k], {})
                                if v is not None:
                                    env["P%d:%s" % (k, p["n"])] = frozenset([v])
                        fin = final_values(m, g, depth + 1, {**s, **env})
                        s = {k: frozenset(v) for k, v in fin.items() if not k.startswith("P")}
        for t in f.blocks[b]["succ"]:
            if t is None or t < 0:
                continue
            if st[t] is None:
                st[t] = dict(s)
                work.append(t)
            else:
                mg = {k: st[t].get(k, frozenset([None])) | s.get(k, frozenset([None])) for k in set(st[t]) | set(s)}
                if mg != st[t]:
                    st[t] = mg
                    work.append(t)
    return {k: set(v) for k, v in (st[f.exit] or {}).items()}


def reads_under(m, f, env, depth=0):
    out = set()
    for b in reach(f, env):
        for x in f.blocks[b]["s"]:
            if isinstance(x, int):
                n = f.nodes[x]
                if n["k"] == "MemberExpr" and is_this_member(f, x):
                    out.add(n["mn"])
                if n["k"] == "CXXMemberCallExpr" and depth < 3 and n.get("obj", -1) >= 0 and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr":
                    g = m.fns.get(n["usr"])
                    if g and g.blocks:
                        out |= reads_under(m, g, env, depth + 1)
    return out


def stops(m, ctx, ec):
    for cls, t in STOP.items():
        f = m.need(cls + "::IsStopped")[0]
        for v, want in t.items():
            env = {"Stop_Criterion": ec[v]}
            # the caller-supplied test and the time bound come first: look at the blocks only this value reaches
            other = [reach(f, {"Stop_Criterion": ec[o]}) for o in t if o != v]
            # quantities read under v, less those read under an invalid criterion (time bound, user test)
            inv = quantities(f, reach(f, {"Stop_Criterion": -1}))
            got = quantities(f, reach(f, env))
            g = set(got)
            for k, c in inv.items():
                if k in g and got[k] <= c:
                    g.discard(k)
            hf = reads_under(m, f, env) & QUANT
            need = want - {"Tolerance"}
            extra = (g & QUANT) - want
            ctx.check(need <= (g | hf) and not extra and "Tolerance" in (g | hf), "P13.stop", "%s[%s]" % (cls, v), f.loc(), "criterion %s must be decided by %s; it reads %s" % (v, sorted(want), sorted(g & QUANT)))


def quantities(f, blocks):
    """member -> number of reads in the blocks"""
    c = {}
    for b in blocks:
        for x in f.blocks[b]["s"]:
            if isinstance(x, int) and f.nodes[x]["k"] == "MemberExpr" and is_this_member(f, x):
                c[f.nodes[x]["mn"]] = c.get(f.nodes[x]["mn"], 0) + 1
    return c


def names(m, ctx):
    en = {}
    for e in m.enums.values():
        vals = [v for v in e["vals"]]
        if e["name"].startswith(NS) and vals and vals[-1]["n"].endswith("LENGTH"):
            en[vals[-1]["n"]] = (e["name"], vals)
    val = {v["n"]: (k, v["v"]) for k, (e, vs) in en.items() for v in vs}
    for f in m.repo_fns(("Solvers/", "Manifolds/")):
        # T names[LENGTH] = { "a", "b" }
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    t = v.get("t", "")
                    if "[" not in t or "string" not in t or "i" not in v:
                        continue
                    lits = literals(f, v["i"])
                    ks = [k for k, (e, vs) in en.items() if sum(1 for w in vs[:-1] if w["n"] in lits) * 2 >= max(len(lits), 1)]
                    if len(ks) != 1:
                        continue
                    vs = en[ks[0]][1][:-1]
                    for i, w in enumerate(vs):
                        ctx.check(i < len(lits) and lits[i] == w["n"], "P13.names", "%s.%s[%s]" % (f.qual(), v["n"], w["n"]), f.loc(x), "entry %d of the name table is %s, the value %d is %s" % (i, lits[i] if i < len(lits) else "missing", w["v"], w["n"]))
        # table[ENUM].assign("name")  /  table[ENUM] = "name"
        tabs = {}
        for x in f.walk():
            n = f.nodes[x]
            tgt = None
            if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("::assign") and n.get("obj", -1) >= 0:
                tgt, lits = strip(f, n["obj"]), literals(f, n["args"][0]) if n["args"] else []
            elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and "obj" in n:
                tgt, lits = strip(f, n["obj"]), [l for a in n["args"] for l in literals(f, a)]
            if tgt is None or f.nodes[tgt]["k"] != "ArraySubscriptExpr" or len(lits) != 1:
                continue
            ix = strip(f, f.nodes[tgt]["c"][1])
            en_name = None
            if f.nodes[ix]["k"] == "DeclRefExpr":
                en_name = f.nodes[ix]["d"].split(":")[-1]
            base = f.txt(f.nodes[tgt]["c"][0])
            if en_name in val:
                tabs.setdefault((base, val[en_name][0]), {})[en_name] = (lits[0], x)
        for (base, k), got in tabs.items():
            for w in en[k][1][:-1]:
                g = got.get(w["n"])
                ctx.check(g is not None and g[0] == w["n"], "P13.names", "%s.%s[%s]" % (f.qual(), base, w["n"]), f.loc(g[1]) if g else f.loc(), "value %s is printed as %s" % (w["n"], g[0] if g else "an empty string"))


def valid(m, ctx, ec):
    en = {e["name"]: [v for v in e["vals"]] for e in m.enums.values() if e["name"].startswith(NS)}
    for f in m.repo_fns(("Solvers/",)):
        if f.short != "CheckParams":
            continue
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] != "ConditionalOperator":
                continue
            mem = set()
            for y in f.walk(n["c"][0]):
                k = f.nodes[y]
                if k["k"] == "MemberExpr" and is_this_member(f, y):
                    mem.add((k["mn"], (k.get("t") or "").replace("enum ", "")))
            if len(mem) != 1:
                continue
            name, t = next(iter(mem))
            vals = en.get(t)
            arms = [f.txt(c).split(":")[-1] for c in n["c"][1:]]
            if arms != ["YES", "NO"]:
                continue
            if vals is None:
                continue
            L = len(vals) - 1
            res = [ev(f, n["c"][0], {name: v}) for v in range(-1, L + 2)]
            if None in res:
                continue
            want = [0] + [1] * L + [0, 0]
            ctx.check(res == want, "P13.valid", "%s.%s" % (f.qual(), name), f.loc(x), "the values of %s accepted as valid are not exactly 0..%d" % (name, L - 1))
