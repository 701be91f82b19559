"""A solver never moves to a point whose objective is not a number."""
from model import NS
import runs

FIXTURES = ("walk.cpp",)
MINIMUM = {"adopt": 8, "fixture": 2}


def run(m, ctx):
    ctx.rule("adopt", "on every path of every solver's Run, the iterate x1 is given a new point only when the objective there has been found to be neither NaN nor infinite")
    ctx.rule("fixture", "the interpreter reports the missing test of the fixture and nothing on its correct class")
    real, tests = runs.harvest(m, ctx)
    runs.self_test(ctx, tests, "adopt", ("SelfTestBadAdopt",))
    runs.judge(m, ctx, real, "adopt", "adopt", lambda f, n, d, a: ("from " + d[0].split("#")[-1].replace("this.", ""),
               "the iterate is replaced by a point whose objective may be NaN or infinite"))
