"""Objective, gradient and Hessian action are evaluated in the order the Problem interface documents."""
import runs

FIXTURES = ("walk.cpp",)
MINIMUM = {"order": 33, "fixture": 2}


def run(m, ctx):
    ctx.rule("order", "on every path of every solver's Run, the gradient is asked for only at a point object whose objective has been evaluated since it got its value, and the Hessian action only where the gradient has")
    ctx.rule("fixture", "the interpreter reports the wrong order of the fixture and nothing on its correct class")
    real, tests = runs.harvest(m, ctx)
    runs.self_test(ctx, tests, "order", ("SelfTestBadOrder",))
    runs.judge(m, ctx, real, "order", "order", lambda f, n, d, a: ("%s at %s" % (d[0], d[1].split("#")[-1].replace("this.", "")),
               "%s is evaluated at a point object where %s has not been evaluated, so what it left with the point is missing or stale" % (d[0], "the objective" if d[2] == "f" else "the gradient")))
