"""Tangent vectors are used at the point whose tangent space contains them."""
from model import NS
import runs

FIXTURES = ("walk.cpp",)
MINIMUM = {"base-point": 350, "along": 33, "fixture": 3}


def along(d):
    x, v, y = [z.split("#")[-1].replace("this.", "") for z in d[1:4]]
    return "%s from %s along %s to %s" % (d[0], x, v, y), "%s is not the retraction of %s at %s" % (y, v, x)


def run(m, ctx):
    ctx.rule("base-point", "on every path of every solver's Run, each tangent vector handed to an operation of Manifold or Problem belongs to the tangent space at the point the operation is told, or at an equal point")
    ctx.rule("along", "every transport of a vector or operator from one point to another is told a direction whose retraction at the first point is the second")
    ctx.rule("fixture", "the interpreter reports wrong and overwritten base points of the fixture and nothing on its correct class")
    real, tests = runs.harvest(m, ctx)
    runs.self_test(ctx, tests, "base", ("SelfTestBadBase", "SelfTestBadStale"))

    def msg(f, node, det, a):
        name, pos, vec, base = det[:4]
        v, b = [x.split("#")[-1].replace("this.", "") if x else "?" for x in (vec, base)]
        return "%s, argument %d %s at %s" % (name, pos + 1, v, b), "%s is used as a tangent vector at %s, but %s" % (v, b, a[2])
    runs.judge(m, ctx, real, "base", "base-point", msg)
    runs.judge(m, ctx, real, "along", "along", lambda f, n, d, a: along(d))
    ctx.facts["vector_uses_not_followed"] = sum(1 for c, (ev, ex, st) in real.items() for k in ev if k[0] == "untracked")
