"""Every concrete solver's Run, interpreted once (walk.py); the events are shared by the checks of the iterates."""
import multiprocessing, os
from model import NS, AnalysisBroken
import walk

# options outside the claims: the extrinsic Barzilai-Borwein step works in the ambient space on purpose; a subgradient bundle has room
# for at least two vectors
ASSUME = {"(ROPTLIB::LSSM_EXTRBBSTEP == this.InitSteptype)": False, "((this.Lengthgfs - 1) <= 0)": False}
NOTES = ["The extrinsic Barzilai-Borwein initial step (LSSM_EXTRBBSTEP), which works in the ambient space, is assumed not to be selected.",
         "The bundle of a subgradient method is assumed to hold at least two vectors.",
         "A recomputed step size is taken to differ from the stored initial one (the code tells first trials from later ones by comparing them).",
         "Vectors reached through a run-time index into an array (limited-memory pairs, gradient bundles) are followed only while the index is unchanged."]
_m = None


def solver_classes(m, prefix=""):
    """Leaf classes below Solvers that have a Run to interpret."""
    root = NS + "Solvers"
    m.need_class("Solvers")
    out = []
    for c in sorted(m.classes):
        if c == root or root not in m.bases(c) or len(m.derived(c)) > 1:
            continue
        out.append(c)
    return out


def one(c):
    m = _m
    ev, ex = {}, []

    def rep(kind, f, node, ok, det, s, extra=None):
        if kind == "enter":
            if det == "IsStopped":
                stopped(f, node, s)
            return
        if kind == "callback":
            if extra != "StopPtr" or len(det) < 5:
                return
            pt = det[0][0]
            good = ("n", pt) in det[3][1]
            add(kind, f, node, good, (pt, det[3][0]))
            return
        if kind == "base":
            add(kind, f, node, ok, det[:4], describe(det))
        else:
            add(kind, f, node, ok, det)

    def add(kind, f, node, ok, det, why=None):
        k = (kind, f.usr, node, det if isinstance(det, tuple) else (det,))
        a = ev.setdefault(k, [0, 0, None])
        if ok is False:
            a[1] += 1
            a[2] = a[2] or why
        elif ok:
            a[0] += 1
        else:
            a[0] += 0

    def stopped(f, node, s):
        add("stop", f, node, ("f", "this.x2") in s.sc.get("this.f2", ()), ("f2",))
        add("stop", f, node, ("n", "this.x2") in s.sc.get("this.ngf2", ()), ("ngf2",))

    def describe(det):
        b = det[4]
        if b is walk.ORPHAN:
            return "the point it belonged to has been overwritten"
        return "it belongs to the tangent space at " + "/".join(sorted(x.split("#")[-1].replace("this.", "") for x in b))

    w, me, exits = walk.solve(m, c, rep, facts=ASSUME)
    for s, p, ret, tv in exits:
        fs, gs = s.sc.get("this.funSeries#last", ()), s.sc.get("this.gradSeries#last", ())
        ex.append({"funSeries": None if not fs else ("f", "this.x1") in fs, "gradSeries": None if not gs else ("n", "this.x1") in gs, "f1": ("f", "this.x1") in s.sc.get("this.f1", ()), "ngf1": ("n", "this.x1") in s.sc.get("this.ngf1", ()),
                   "gf1": "this.x1" in s.vec.get("this.gf1", ((), ()))[1]})
    return c, ev, ex, {"blocks": w.blocks, "activations": len(w.memo), "functions": sorted(w.fns), "capped": w.capped, "run": me.usr}


def interpret(m, only=None):
    """{class: (events, exits, statistics)}"""
    global _m
    _m = m
    cs = [c for c in solver_classes(m) if only is None or only(c)]
    if not cs:
        raise AnalysisBroken("no concrete solver class")
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        rs = pool.map(one, cs, chunksize=1)
    return {c: (ev, ex, st) for c, ev, ex, st in rs}


def label(f, node):
    return "%s: %s" % (f.qual().replace(NS, ""), " ".join(f.txt(node).split())[:110])


def harvest(m, ctx):
    """Results for the solvers of the tree; the interpreter is tried on the fixture classes first."""
    tests = interpret(m.fixture, lambda c: c.split("::")[-1].startswith("SelfTest"))
    real = interpret(m)
    ctx.need(len(real) >= 10, "fewer than ten concrete solver classes (%d)" % len(real))
    st = [r[2] for r in real.values()]
    ctx.facts.update({"solver_classes": sorted(c.replace(NS, "") for c in real), "blocks_interpreted": sum(x["blocks"] for x in st),
                      "activations": sum(x["activations"] for x in st), "functions": len(set().union(*[set(x["functions"]) for x in st])),
                      "states_merged_at_the_cap": sum(x["capped"] for x in st)})
    ctx.notes += NOTES
    ctx.assume += NOTES
    return real, tests


def self_test(ctx, tests, kind, bad):
    """Fixture classes: `bad` names report the rule, the others do not."""
    for c, (ev, ex, st) in tests.items():
        n = c.split("::")[-1]
        hit = any(a[1] for k, a in ev.items() if k[0] == kind) if kind != "exit" else any(v is False for e in ex for v in e.values())
        if n in bad or n == "SelfTestGood":
            ctx.check(hit == (n in bad), "fixture", n, "sa/fixtures/walk.cpp", "the rule does not behave as expected on its fixture")


def judge(m, ctx, real, kind, rule, msg):
    for c, (ev, ex, st) in sorted(real.items()):
        for (k, usr, node, det), a in sorted(ev.items(), key=lambda x: (x[0][1], x[0][2], str(x[0][3]))):
            if k != kind:
                continue
            f = m.fns[usr]
            t = msg(f, node, det, a)
            key = "%s [%s]" % (label(f, node), t[0])
            if a[1]:
                ctx.bad(rule, key, f.loc(node), "%s (on %d of %d states reaching it when running %s)" % (t[1], a[1], a[0] + a[1], c.replace(NS, "")))
            else:
                ctx.ok(rule, "%s %s" % (c.replace(NS, ""), key))
