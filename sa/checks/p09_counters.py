"""Operation counters equal the operations performed."""
from model import NS, AnalysisBroken
from util import *
import walk, runs

MINIMUM = {"balance": 32, "fixture": 2}
FIXTURES = ("walk.cpp",)
# counters that are summed before they are compared, and the operations they stand for
GROUPS = {"nf": (("nf",), {("Problem", "f")}), "ng": (("ng",), {("Problem", "Grad"), ("Problem", "RieGrad")}),
          "nR": (("nR",), {("Manifold", "Retraction")}),
          "nV+nVp": (("nV", "nVp"), {("Manifold", "VectorTransport"), ("Manifold", "InverseVectorTransport"), ("Manifold", "DiffRetraction"), ("Manifold", "coTangentVector")}),
          "nH": (("nH",), {("Problem", "HessianEta"), ("Problem", "RieHessianEta")})}
LIMIT = 4


class Count:
    """Set of differences (increments - operations) possible at the exit of a function, per counter group."""

    def __init__(self, m, cls, group):
        self.m, self.cls = m, cls
        self.members, self.ops = GROUPS[group]
        self.w = walk.Walk(m, cls, lambda *a: None)
        self.memo, self.stack = {}, []
        self.origin = {}        # function -> loop or exit where a difference first appears
        self.nops = 0
        self.ninc = 0

    def delta(self, f, x, n):
        """Differences one CFG element adds."""
        k = n["k"]
        if k == "UnaryOperator" and n["op"] in ("++", "post++") or k == "CompoundAssignOperator" and n["op"] == "+=":
            mm = f.nodes[strip(f, n["c"][0])]
            if mm["k"] == "MemberExpr" and mm["mn"] in self.members and f.nodes[strip(f, mm["c"][0])]["k"] == "CXXThisExpr":
                self.ninc += 1
                if k == "UnaryOperator":
                    return {1}
                v = f.nodes[strip(f, n["c"][1])].get("v")
                return {int(v)} if v is not None else None
            return {0}
        if k in ("CXXMemberCallExpr", "CallExpr"):
            sp = walk.spec_of(n)
            if sp:
                if (sp[0], sp[1]) in self.ops:
                    self.nops += 1
                    return {-1}
                return {0}
            if n["k"] == "CallExpr" and n.get("fn", "").split("::")[-1] in walk.SPECIAL:
                return {0}
            tg = self.w.targets_of(f, walk.Env(f, 0, {}, self.cls), n)
            if tg:
                out = set()
                for g in tg:
                    r = self.fn(g)
                    if r is None:
                        return None
                    out |= r
                return out
        return {0}

    def fn(self, f):
        if f.usr in self.memo:
            return self.memo[f.usr]
        if f.usr in self.stack or f.entry is None:
            return {0}
        self.stack.append(f.usr)
        ins = {f.entry: {0}}
        work = [f.entry]
        el = {}
        bad = None
        while work and bad is None:
            b = work.pop()
            cur = set(ins[b])
            o = f.blocks[b]
            if b not in el:
                el[b] = [d for d in (self.delta(f, x, f.nodes[x]) for x in o["s"] if isinstance(x, int)) if d != {0}]
            for d in el[b]:
                if d is None:
                    bad = ("call", b)
                    break
                cur = {p + q for p in cur for q in d}
            if any(abs(c) > LIMIT for c in cur):
                bad = ("loop", b)
                break
            for s in o["succ"]:
                if s is not None and s >= 0 and not cur <= ins.get(s, set()):
                    ins[s] = ins.get(s, set()) | cur
                    work.append(s)
        self.stack.pop()
        r = None if bad else ins.get(f.exit, {0})
        if r != {0}:
            self.origin[f.usr] = r
        self.memo[f.usr] = r
        return r


def analyse(m, cls):
    run = next(m.fns[x["usr"]] for c in m.bases(cls) for x in m.classes[c]["methods"] if x["name"] == "Run" and x["usr"] in m.fns)
    out = {}
    for g in GROUPS:
        c = Count(m, cls, g)
        r = c.fn(run)
        # deepest functions whose own body is unbalanced
        where = [m.fns[u] for u in c.origin]
        out[g] = (r, where, c.nops, c.ninc, run)
    return out


def run(m, ctx):
    ctx.rule("balance", "on every path through a solver's Run, the number of increments of each operation counter (nf, ng, nR, nV+nVp, nH) equals the number of calls of the operations it counts")
    ctx.rule("fixture", "the fixture class that counts all operations balances, the ones that do not are reported")
    cs = runs.solver_classes(m)
    ctx.need(len(cs) >= 10, "fewer than ten solver classes")
    for c in cs:
        for g, (r, where, nops, ninc, me) in analyse(m, c).items():
            if g == "nH" and not nops:
                continue        # quasi-Newton methods count applications of their own approximation there
            if not nops and not ninc:
                continue
            key = "%s: %s" % (c.replace(NS, ""), g)
            if r == {0}:
                ctx.ok("balance", "%s (%d operations, %d increments in the functions reached)" % (key, nops, ninc))
            else:
                w = where[0] if where else me
                ctx.bad("balance", "%s in %s" % (g, w.qual().replace(NS, "")), w.loc(0), "counter %s and the operations it counts differ on some path: %s (running %s)" % (g, "without bound in a loop" if r is None else "by " + "/".join("%+d" % v for v in sorted(r)), c.replace(NS, "")))
    for c in runs.solver_classes(m.fixture):
        n = c.split("::")[-1]
        if n in ("SelfTestGood", "SelfTestBadExit"):
            bad = any(r != {0} for g, (r, w, a, b, me) in analyse(m.fixture, c).items() if g != "nH")
            ctx.check(bad == (n != "SelfTestGood"), "fixture", n, "sa/fixtures/walk.cpp", "the rule does not behave as expected on its fixture")
    ctx.assume.append("The transport of operators (TranHInvTran) is not a counted operation; applications of a quasi-Newton approximation counted in nH are not judged.")
