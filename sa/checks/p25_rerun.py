"""Running a solver again starts from its current iterate and from nothing else of the earlier run."""
import multiprocessing, os, re
from model import NS
from util import *
import fresh
import runs

FIXTURES = ("fresh.cpp",)
MINIMUM = {"carried-over": 300, "hidden-state": 150, "fixture": 3}
KEPT = {"H": "the inverse Hessian approximation, which a further run continues", "B": "the Hessian approximation, which a further run continues",
        "funSeries": "handed to a user-defined stopping criterion together with the number of its entries, which starts at 0"}
_m = None


def one(c):
    m = _m
    r = fresh.run(m, c)
    if r is None:
        return c, None
    reads, written, w = r
    return c, ({q: sorted(v) for q, v in reads.items()}, dict(written), sorted(w.fns), w.blocks)


def interpret(m, cs):
    global _m
    _m = m
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        return dict(pool.map(one, cs, chunksize=1))


def parameters(m):
    """Members a SetParams assigns: options, some of which a run adapts."""
    out = set()
    for f in m.repo_fns():
        if f.short == "SetParams":
            for x, l, v, op in assigns(f):
                n = f.nodes[strip(f, l)]
                if n["k"] == "MemberExpr":
                    out.add(n["mn"])
    return out


def counters(m, fns):
    """Members a run only increments and otherwise only prints or returns."""
    inc, other = set(), set()
    for f in fns:
        p = f.parent()
        printed = {y for x in f.walk() if f.nodes[x]["k"] == "CallExpr" and f.nodes[x].get("fn", "").split("::")[-1] == "printf" for y in f.walk(x)}
        returned = {strip(f, f.nodes[x]["c"][0]) for x in f.walk() if f.nodes[x]["k"] == "ReturnStmt" and f.nodes[x].get("c")}
        silent = f.short.startswith("Print") or f.short in fresh.SETTERS
        steps = set()
        for x, l, v, op in assigns(f):
            n = f.nodes[strip(f, l)]
            if n["k"] == "MemberExpr" and (op == "+=" or "++" in op):
                inc.add(n["m"])
                steps.add(strip(f, l))
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "MemberExpr" and "m" in n and x not in steps and x not in printed and x not in returned and not silent:
                other.add(n["m"])
    return {q.split("::")[-1] for q in inc - other}


def shared(m, fns):
    """(function, node, variable): variables outside the solver that running code writes and that code of the library reads."""
    wr = {}
    for f in fns:
        st = {v["d"] for x in f.walk() if f.nodes[x]["k"] == "DeclStmt" for v in f.nodes[x]["vars"] if v.get("static") and "const" not in v["t"]}

        def note(x, l):
            n = f.nodes[strip(f, l)]
            while n["k"] in ("ArraySubscriptExpr", "ParenExpr") or n["k"] == "UnaryOperator" and n["op"] == "*":
                n = f.nodes[strip(f, n["c"][0])]
            if n["k"] == "DeclRefExpr" and (n["d"] in st or n["d"].startswith("G:")):
                wr.setdefault(n["d"] if n["d"].startswith("G:") else f.usr + n["d"], []).append((f, x, n["d"]))
        for x, l, v, op in assigns(f):
            note(x, l)
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "CXXMemberCallExpr" and n.get("obj") is not None and not n.get("const"):
                note(x, n["obj"])
            elif n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("=", "+=", "-=", "[]"):
                note(x, n["obj"] if "obj" in n else n["args"][0])
    rd = set()
    for f in m.repo_fns():
        lhs = {strip(f, l) for x, l, v, op in assigns(f) if op == "="}
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "DeclRefExpr" and x not in lhs:
                rd.add(n["d"] if n["d"].startswith("G:") else f.usr + n["d"])
    return [w for d, ws in wr.items() if d in rd for w in ws]


def judge(m, ctx, res, allfns):
    par = parameters(m)
    cnt = counters(m, allfns)
    fields = {fd["n"]: fd["t"] for c in m.classes for fd in m.classes[c]["fields"] if NS + "Solvers" in m.bases(c)}
    for c, r in sorted(res.items()):
        reads, written, fns, nb = r
        for q, (u, x) in sorted(written.items()):
            key = "%s: %s" % (c.replace(NS, ""), q)
            if q not in reads or q in KEPT or q in par or q in cnt or "(" in fields.get(q, ""):
                ctx.ok("carried-over", key)
                continue
            ru, rx = reads[q][0]
            f, g = m.fns[ru], m.fns[u]
            ctx.bad("carried-over", key, f.loc(rx), "'%s' uses %s before the run gives it a value; it holds what an earlier run of the same solver left (%s)" % (" ".join(f.txt(rx).split())[:90], q, g.loc(x)))


def run(m, ctx):
    ctx.rule("carried-over", "every attribute a solver's Run writes is given a value before it is used, on every path from the start of Run, unless it is the iterate, an option, an operation counter or the quasi-Newton operator")
    ctx.rule("hidden-state", "no function a run of a solver may call keeps data in static or namespace-scope variables that the library reads")
    ctx.rule("fixture", "the analysis reports an attribute kept between runs and nothing on a solver that resets it")
    test = interpret(m.fixture, [c for c in m.fixture.classes if c.split("::")[-1].startswith("RerunTest")])
    for c, r in test.items():
        n = c.split("::")[-1]
        if n in ("RerunTestBad", "RerunTestGood", "RerunTestCopy"):
            ctx.check(("kept" in r[0] and "kept" in r[1]) == (n != "RerunTestGood"), "fixture", n, "sa/fixtures/fresh.cpp", "the rule does not behave as expected on its fixture")
    cs = runs.solver_classes(m)
    ctx.need(len(cs) >= 10, "fewer than ten concrete solver classes (%d)" % len(cs))
    res = {c: r for c, r in interpret(m, cs).items() if r is not None}
    solvers = [f for f in m.repo_fns() if f.cls and NS + "Solvers" in m.bases(f.cls)]
    judge(m, ctx, res, solvers)
    scope = [f for f in m.repo_fns(("Solvers/", "Manifolds/", "Problems/", "Others/")) if f.name.startswith(NS) and "randgen" not in f.rel()]
    bad = {}
    for f, x, d in shared(m, scope):
        bad.setdefault(f.usr, []).append((x, d))
    for f in scope:
        for x, d in bad.get(f.usr, ()):
            ctx.bad("hidden-state", "%s: %s" % (f.qual(), re.sub(r"^[A-Z][0-9]*:|.*::", "", d)), f.loc(x), "'%s' keeps data outside the object that later runs of this or another solver read" % " ".join(f.txt(x).split())[:90])
        if f.usr not in bad:
            ctx.ok("hidden-state", f.qual())
    ctx.facts.update({"solver_classes": sorted(c.replace(NS, "") for c in res), "blocks_interpreted": sum(r[3] for r in res.values()), "functions": len(set().union(*[set(r[2]) for r in res.values()])),
                      "options": sorted(parameters(m)), "counters": sorted(counters(m, solvers)), "kept": KEPT})
    ctx.notes += ["The first loop over a range that is not known to be empty is taken to run.", "Elements of arrays (limited-memory pairs, bundles) are not followed; the lengths and indices that guard them are."]

