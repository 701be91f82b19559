"""What a solver reports belongs to the iterate it reports."""
from model import NS
from util import *
import runs

FIXTURES = ("walk.cpp",)
MINIMUM = {"final": 25, "stopping": 24, "callback": 5, "accessor": 4, "fixture": 2}
FINAL = {"f1": "the final function value is not the objective at the final iterate", "ngf1": "the final gradient norm is not the norm of the gradient at the final iterate",
         "gf1": "the stored gradient is not the gradient at the final iterate", "funSeries": "the last entry of the function value series is not the objective at the final iterate",
         "gradSeries": "the last entry of the gradient norm series is not the gradient norm at the final iterate"}
# accessor -> members its value is made of
ACCESS = {("Solvers", "GetXopt"): {"x1"}, ("Solvers", "Getfinalfun"): {"f1"}, ("SolversSM", "Getnormgf"): {"ngf1"}, ("SolversSM", "Getnormgfgf0"): {"ngf1", "ngf0"},
          ("SolversNSM", "Getnormnd"): {"ndir1"}, ("SolversNSM", "Getnormndnd0"): {"ndir1", "ndir0"}, ("Solvers", "GetfunSeries"): {"funSeries"}, ("Solvers", "GettimeSeries"): {"timeSeries"},
          ("SolversSM", "GetgradSeries"): {"gradSeries"}, ("SolversNSM", "GetdirSeries"): {"dirSeries"}, ("Solvers", "GetlengthSeries"): {"lengthSeries"}, ("Solvers", "GetIter"): {"iter"},
          ("Solvers", "Getnf"): {"nf"}, ("Solvers", "Getng"): {"ng"}, ("Solvers", "GetnR"): {"nR"}, ("Solvers", "GetnV"): {"nV"}, ("Solvers", "GetnVp"): {"nVp"}, ("Solvers", "GetnH"): {"nH"},
          ("Solvers", "GetComTime"): {"ComTime"}}


def run(m, ctx):
    ctx.rule("final", "at every exit of Run, f1 is the objective at x1; for smooth solvers ngf1 is the norm of the gradient at x1, gf1 is that gradient, and the last entries of the recorded series belong to x1")
    ctx.rule("stopping", "whenever the stopping test is evaluated, f2 is the objective at the candidate x2 and (smooth solvers) ngf2 the norm of the gradient there")
    ctx.rule("callback", "the user's stopping function gets a point together with the gradient norm at that point (smooth solvers)")
    ctx.rule("accessor", "a result accessor returns the member it is named after")
    ctx.rule("fixture", "the interpreter reports the mismatch of the fixture and nothing on its correct class")
    real, tests = runs.harvest(m, ctx)
    runs.self_test(ctx, tests, "exit", ("SelfTestBadExit",))
    smooth = {c for c in real if NS + "SolversSM" in m.bases(c)}
    for c, (ev, ex, st) in sorted(real.items()):
        me = m.fns[st["run"]]
        ctx.need(ex, "no exit of Run of %s was reached" % c)
        for v, t in FINAL.items():
            if c not in smooth and v != "f1":
                continue
            vals = [e[v] for e in ex if e[v] is not None]
            if not vals:
                continue
            key = "%s::Run: %s" % (c.replace(NS, ""), v)
            n = sum(1 for x in vals if not x)
            ctx.check(not n, "final", key, me.loc(0), "%s on %d of %d ways out of Run" % (t, n, len(vals)))
    runs.judge(m, ctx, {c: r for c, r in real.items() if c in smooth}, "callback", "callback",
               lambda f, n, d, a: ("%s with %s" % tuple(str(x).replace("this.", "") for x in d[:2]), "the value passed as gradient norm does not belong to the point passed with it"))
    for c in real:
        if c in smooth or NS + "SolversNSMPGLS" in m.bases(c):
            ev, ex, st = real[c]
            sub = {k: a for k, a in ev.items() if k[0] == "stop" and (c in smooth or k[3] == ("f2",))}
            runs.judge(m, ctx, {c: (sub, ex, st)}, "stop", "stopping", lambda f, n, d, a: (d[0], "%s does not belong to the candidate x2 when the stopping test runs" % d[0]))
    for (cls, name), want in ACCESS.items():
        for f in m.find("%s::%s" % (cls, name)):
            got = {n["mn"] for n in f.nodes if n["k"] == "MemberExpr"}
            ctx.check(got == want, "accessor", "%s::%s" % (cls, name), f.loc(0), "returns %s instead of %s" % (sorted(got), sorted(want)))
