"""Named run-time parameters."""
from model import NS, AnalysisBroken
from util import *

# Public parameter names and the solver attribute each one stands for, confirmed by reading
# the headers of Solvers/ (the class that declares the attribute is the one whose SetParams owns the name).
TABLE = {
 "Solvers": {k: k for k in "Tolerance TimeBound Max_Iteration Min_Iteration OutputGap Verbose".split()},
 "SolversSM": {k: k for k in "Stop_Criterion Accuracy".split()},
 "SolversSMLS": {k: k for k in "LineSearch_LS LS_alpha LS_beta Minstepsize Maxstepsize LS_ratio1 LS_ratio2 Initstepsize Finalstepsize Num_pre_funs InitSteptype IsPureLSInput PreFunsAccuracy Num_pre_BB BBratio".split()},
 "SolversSMTR": {k: k for k in "Acceptence_Rho Shrinked_tau Magnified_tau minimum_Delta maximum_Delta useRand Max_Inner_Iter Min_Inner_Iter theta kappa initial_Delta".split()},
 "SolversNSM": {"Stop_Criterion": "Stop_Criterion"},
 "SolversNSMSub": {k: k for k in "Diffx NumExtraGF".split()},
 "SolversNSMSubLS": {k: k for k in "Eps Theta_eps Min_Eps Del Theta_del LS_alpha LS_beta Minstepsize Maxstepsize lambdaLower lambdaUpper".split()},
 "SolversNSMPGLS": {"RPGLSVariant": "Variant", "LS_ratio": "LS_ratio", "LS_alpha": "LS_alpha", "Minstepsize": "Minstepsize"},
 "RNewton": {k: k for k in "useRand Max_Inner_Iter Min_Inner_Iter theta kappa".split()},
 "RCG": {"RCGmethod": "RCGmethod"},
 "RBFGS": {k: k for k in "isconvex nu mu".split()},
 "RWRBFGS": {k: k for k in "isconvex nu mu".split()},
 "RBroydenFamily": {k: k for k in "isconvex nu mu".split()},
 "LRBFGS": {k: k for k in "isconvex LengthSY LMrestart nu mu".split()},
 "LRTRSR1": {k: k for k in "LengthSY LMrestart".split()},
 "LRBFGSSub": {"LengthSY": "LengthSY"},
 "AManPG": {"SGIterGap": "SGIterGap"},
}
MANI = {"Manifold": {"HasHHR": ("SetHasHHR",)},
        "Stiefel": {"ParamSet": ("ChooseParamsSet1", "ChooseParamsSet2", "ChooseParamsSet3", "ChooseParamsSet4", "ChooseParamsSet5")},
        }
MINIMUM = {"P12.value": 38, "P12.chain": 10, "P12.mani-set": 5}


def atom(f, i):
    """(literal, polarity) when condition node i tests the parameter name against a literal."""
    i = unfold(f, i)
    n = f.nodes[i]
    if n["k"] == "UnaryOperator" and n["op"] == "!":
        a = atom(f, n["c"][0])
        return (a[0], not a[1]) if a else None
    if n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
        return None
    ls = literals(f, i)
    if len(ls) != 1:
        return None
    op = n.get("op")
    if n["k"] == "CXXOperatorCallExpr" and op == "==":
        return ls[0], True
    if n["k"] == "CXXOperatorCallExpr" and op == "!=":
        # find("K") != end()
        return ls[0], any(f.nodes[x].get("fn", "").endswith("::find") for x in f.walk(i))
    if n["k"] == "BinaryOperator" and op in ("==", "!="):      # compare(...) == 0 ; count(...) == 0
        cnt = any(f.nodes[x].get("fn", "").endswith(("::count", "::find")) for x in f.walk(i))
        return ls[0], (op == "==") != cnt
    if n["k"] in ("CallExpr", "CXXMemberCallExpr"):
        if n.get("fn", "").endswith("::compare"):
            return ls[0], False
        return ls[0], True
    return None


def under_key(f, key):
    def decide(o):
        if "cond" in o and len(o["succ"]) == 2:
            a = atom(f, o["cond"])
            if a:
                eq = a[0] == key
                return [0] if eq == a[1] else [1]
        return None
    return reach_blocks(f, decide)


def member_types(m, cls):
    t = {}
    for c in m.bases(cls):
        for fd in m.classes[c]["fields"]:
            t.setdefault(fd["n"], (fd["q"], fd["t"]))
    return t


def truncates(f, rhs):
    """a floating value goes through an integer on its way"""
    return any(f.nodes[x].get("ck") == "FloatingToIntegral" for x in f.walk(rhs))


def value_assigns(m, f, blocks, depth=0):
    """members assigned from the parameter value in the given blocks (one level of helpers)"""
    for b in blocks:
        for s in f.blocks[b]["s"]:
            if not isinstance(s, int):
                continue
            n = f.nodes[s]
            if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                q = is_this_member(f, n["c"][0])
                if q:
                    yield q, s, truncates(f, n["c"][1]), n["op"]
            elif n["k"] == "CXXMemberCallExpr" and depth < 2 and n.get("obj", -1) >= 0 and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr" and n.get("fn", "").split("::")[-1] != "SetParams":
                g = m.fns.get(n["usr"])
                if g:
                    tr = any(truncates(f, a) for a in n["args"])
                    for q, _, t2, op in value_assigns(m, g, g.blocks.keys(), depth + 1):
                        yield q, s, tr or t2, op


def run(m, ctx):
    ctx.rule("P12.value", "under the name K, every path of the owning SetParams stores the value into exactly the attribute K stands for, without passing a real-valued attribute through an integer")
    ctx.rule("P12.chain", "every SetParams override forwards the whole parameter map to its base class on every path")
    ctx.rule("P12.inherit", "the attribute a name sets is the one the solver reads (declared once in the hierarchy of the class that owns the name)")
    ctx.rule("P12.mani-set", "ParamSet=k selects the k-th parameter set; every set the class defines is selectable")
    solv = [c for c in m.derived(NS + "Solvers")]
    ctx.need(len(solv) > 15, "solver classes vanished")
    for c in sorted(solv):
        own = [me for me in m.cls_methods(c, "SetParams")]
        sc = c.replace(NS, "")
        want = TABLE.get(sc, {})
        if not own:
            for k in want:
                ctx.bad("P12.value", "%s.%s" % (sc, k), "%s:%d" % (sc, m.classes[c]["line"]), "%s no longer accepts the parameter name \"%s\" (its SetParams is gone)" % (sc, k))
            continue
        f = m.fns.get(own[0]["usr"])
        if f is None:
            raise AnalysisBroken("SetParams of %s has no body" % sc)
        types = member_types(m, c)
        keys = set(want)
        for x in f.walk():
            n = f.nodes[x]
            a = atom(f, x) if is_call(n) or n["k"] == "BinaryOperator" else None
            if a and n["k"] in ("CXXOperatorCallExpr",) and n.get("t") == "bool":
                keys.add(a[0])
        base_blocks = under_key(f, "\0none")
        base_assigned = {q for q, *_ in value_assigns(m, f, base_blocks)}
        for k in sorted(keys):
            inst = "%s.SetParams[%s]" % (sc, k)
            bl = under_key(f, k)
            got = {}
            for q, s, tr, op in value_assigns(m, f, bl):
                if q not in base_assigned:
                    got.setdefault(q, []).append((s, tr, op))
            attr = want.get(k, k)
            t = types.get(attr)
            if k not in want and not t:
                # a name with no attribute of that name: exactly one attribute must receive it
                ctx.check(len(got) == 1, "P12.value", inst, f.loc(), "the name \"%s\" sets %s" % (k, sorted(got) or "nothing"))
                continue
            if t is None:
                raise AnalysisBroken("attribute %s::%s vanished" % (sc, attr))
            if set(got) != {t[0]}:
                ctx.bad("P12.value", inst, f.loc(), "the name \"%s\" must store into %s, but it stores into %s" % (k, attr, ", ".join(x.split("::")[-1] for x in sorted(got)) or "nothing"))
                continue
            isf = t[1] in ("double", "float", "long double")
            for s, tr, op in got[t[0]]:
                if isf and tr:
                    ctx.bad("P12.value", inst, f.loc(s), "the real-valued parameter \"%s\" is truncated to an integer before being stored" % k)
                    break
                if op != "=":
                    ctx.bad("P12.value", inst, f.loc(s), "the value of \"%s\" is combined with the old one (%s) instead of stored" % (k, op))
                    break
            else:
                ctx.ok("P12.value", inst)
            dup = [cc for cc in m.bases(c) for fd in m.classes[cc]["fields"] if fd["n"] == attr]
            ctx.check(len(dup) == 1, "P12.inherit", inst, f.loc(), "attribute %s is declared in %s: the name sets one of them only" % (attr, dup))
        chain(m, ctx, c, f)
    for c in sorted(m.derived(NS + "Manifold")):
        for me in m.cls_methods(c, "SetParams"):
            f = m.fns.get(me["usr"])
            if not f:
                continue
            if c != NS + "Manifold":
                chain(m, ctx, c, f)
                sets(m, ctx, c, f)
            else:
                bl = under_key(f, "HasHHR")
                called = {f.nodes[s].get("fn", "").split("::")[-1] for b in bl for s in f.blocks[b]["s"] if isinstance(s, int)}
                ctx.check("SetHasHHR" in called or any(q.endswith("HasHHR") for q, *_ in value_assigns(m, f, bl)), "P12.mani-set", "Manifold.HasHHR", f.loc(), "the name \"HasHHR\" no longer sets the locking-condition flag")
    ctx.facts["solver classes"] = len(solv)


def chain(m, ctx, c, f):
    sc = c.replace(NS, "")
    base = [b for b in m.bases(c)[1:] if m.cls_methods(b, "SetParams")]
    if not base:
        return
    good = set()
    for b, o in f.blocks.items():
        for s in o["s"]:
            if isinstance(s, int):
                n = f.nodes[s]
                if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("::SetParams") and n["cls"] in m.bases(c)[1:] and not n.get("virt"):
                    # nearest base that defines it
                    if n["cls"] == base[0]:
                        a = n["args"][0]
                        if any(f.nodes[x]["k"] == "DeclRefExpr" and f.nodes[x]["d"].startswith("P0") for x in f.walk(a)):
                            good.add(b)
    ctx.check(bool(good) and must_pass(f, good), "P12.chain", sc + ".SetParams", f.loc(),
              "SetParams of %s does not forward the parameters to %s on every path: inherited parameters set by name are dropped" % (sc, base[0].replace(NS, "")))


def sets(m, ctx, c, f):
    sc = c.replace(NS, "")
    avail = sorted(int(x["name"][15:]) for x in m.classes[c]["methods"] if x["name"].startswith("ChooseParamsSet") and x["name"][15:].isdigit())
    bl = under_key(f, "ParamSet")
    sw = [b for b in bl if "term" in f.blocks[b] and f.nodes[f.blocks[b]["term"]]["k"] == "SwitchStmt"]
    for k in avail:
        inst = "%s.ParamSet=%d" % (sc, k)
        called = set()
        if sw:
            b0 = f.blocks[sw[0]]
            tgt = None
            for s in b0["succ"]:
                lab = f.blocks[s].get("label") if s is not None and s >= 0 else None
                if lab is not None and f.nodes[lab]["k"] == "CaseStmt" and f.nodes[strip(f, f.nodes[lab]["val"])].get("v") == k:
                    tgt = s
            if tgt is None:
                ctx.bad("P12.mani-set", inst, f.loc(), "parameter set %d of %s is not selectable" % (k, sc))
                continue
            st, seen = [tgt], set()
            while st:       # until the switch is left
                b = st.pop()
                if b in seen or b == f.exit:
                    continue
                seen.add(b)
                for s in f.blocks[b]["s"]:
                    if isinstance(s, int) and f.nodes[s]["k"] == "CXXMemberCallExpr" and f.nodes[s].get("fn", "").split("::")[-1].startswith("ChooseParamsSet"):
                        called.add(f.nodes[s]["fn"].split("::")[-1])
                t = f.blocks[b].get("term")
                if t is not None and f.nodes[t]["k"] == "BreakStmt":
                    continue
                st.extend(s for s in f.blocks[b]["succ"] if s is not None and s >= 0)
        else:               # if-chain: follow the branch for value k
            def decide(o):
                if "cond" in o and len(o["succ"]) == 2:
                    a = atom(f, o["cond"])
                    if a:
                        return [0] if (a[0] == "ParamSet") == a[1] else [1]
                    n = f.nodes[strip(f, o["cond"])]
                    if n["k"] == "BinaryOperator" and n["op"] in ("==", "!="):
                        vs = [f.nodes[strip(f, x)].get("v") for x in n["c"]]
                        if any(isinstance(v, (int, float)) for v in vs):
                            return [0] if (k in vs) == (n["op"] == "==") else [1]
                return None
            for b in reach_blocks(f, decide):
                for s in f.blocks[b]["s"]:
                    if isinstance(s, int) and f.nodes[s].get("fn", "").split("::")[-1].startswith("ChooseParamsSet"):
                        called.add(f.nodes[s]["fn"].split("::")[-1])
        ctx.check(called == {"ChooseParamsSet%d" % k}, "P12.mani-set", inst, f.loc(), "ParamSet=%d of %s selects %s" % (k, sc, sorted(called) or "nothing"))
