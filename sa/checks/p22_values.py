"""No attribute or local variable is used before it has a value."""
import multiprocessing, os
from model import NS
from util import *
import fresh
import runs

FIXTURES = ("fresh.cpp",)
MINIMUM = {"constructed": 129, "run": 150, "local": 100, "fixture": 5}
_m = None


def scalar(m, t):
    t = t.replace("const ", "").strip()
    return t in fresh.INT + ("double", "float", "realdp", "ROPTLIB::realdp") or t.endswith("*") or t in m.enums or t.split("::")[-1] in {e.split("::")[-1] for e in m.enums} \
        or "(*)" in t or "(*" in t


def ctors(m, c):
    n = c.split("::")[-1]
    return [m.fns[q["usr"]] for q in m.classes[c]["methods"] if q["name"] == n and q["usr"] in m.fns and m.fns[q["usr"]].entry is not None and not copies(m.fns[q["usr"]], c)]


def copies(g, c):
    return len(g.params) == 1 and g.params[0]["t"].replace("const ", "").rstrip("& ").split("::")[-1] == c.split("::")[-1]


def built(m, c, g):
    """Members certainly set by constructor g of class c."""
    w = fresh.Fresh(m, c, lambda *a: None)
    early = {}
    w.out = lambda kind, q, f, x: early.setdefault(q, (f.usr, x))
    have0 = {fd["n"] for b in m.bases(c) for fd in m.classes.get(b, {}).get("fields", ()) if fd.get("hasinit")}
    ends = w.build(g.usr, [frozenset(have0), {}])
    have = frozenset.intersection(*[frozenset(e[0]) for e in ends]) if ends else frozenset()
    return have | have0, early, w.blocks


def attributes(m, c):
    return [fd for b in m.bases(c) for fd in m.classes.get(b, {}).get("fields", ()) if scalar(m, fd["t"])]


def read_members(m, fns):
    w = fresh.Fresh(m, None, lambda *a: None)
    out = {}
    for f in fns:
        if f.short == "CheckParams":
            continue
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "MemberExpr" and "m" in n and n["m"] not in out and w.role(f, x) == "read" and not w.null_test(f, x):
                out[n["m"]] = (f, x)
    return out


def one(a):
    c, kind = a
    m = _m
    if kind == "object":
        return a, [(g.usr,) + built(m, c, g) for g in ctors(m, c)]
    have = [built(m, c, g)[0] for g in ctors(m, c)]
    h = frozenset.intersection(*have) if have else frozenset()
    r = fresh.run(m, c, start=tuple(h | {"x1"}))
    return a, None if r is None else (h, {q: sorted(v) for q, v in r[0].items()}, sorted(r[2].fns), r[2].blocks)


def pool(m, work):
    global _m
    _m = m
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(one, work, chunksize=1)


def judge_objects(m, res, reads, out):
    """out(ok, key, where, message)"""
    for (c, kind), rs in res:
        for usr, have, early, nb in rs:
            g = m.fns[usr]
            for fd in attributes(m, c):
                key = "%s(%d): %s" % (c.replace(NS, ""), len(g.params), fd["n"])
                if fd["n"] in early:
                    f, x = m.fns[early[fd["n"]][0]], early[fd["n"]][1]
                    out(False, key, f.loc(x), "the constructor reads %s in '%s' before it gives it a value" % (fd["n"], " ".join(f.txt(x).split())[:80]))
                elif fd["n"] in have or fd["q"] not in reads:
                    out(True, key, None, None)
                else:
                    f, x = reads[fd["q"]]
                    out(False, key, g.loc(), "this constructor leaves %s without a value on some path; %s reads it (%s)" % (fd["n"], f.qual(), f.loc(x)))


def locals_of(f):
    """(name, key, exposed read or None) for every local scalar of f that is declared without an initial value."""
    vs = {}
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                t = v["t"].replace("const ", "").strip()
                if v.get("i", -1) in (None, -1) and not v.get("static") and (t in fresh.INT + ("double", "float", "realdp", "ROPTLIB::realdp") or t.endswith("*")):
                    vs[v["d"]] = v
    return vs


def use_before_value(m, f, w):
    """({variable: first read without a value}, number of reads) for the locals of f declared without a value; branches on the same text agree."""
    vs = locals_of(f)
    if not vs or f.entry is None:
        return vs, {}, 0
    lhs = {}
    for x, l, v, op in assigns(f):
        lhs[strip(f, l)] = (x, op)
    done = {x: l for l, (x, op) in lhs.items()}
    conds = {}
    for b, o in f.blocks.items():
        if o.get("cond") is not None and len(o["succ"]) == 2:
            conds.setdefault(" ".join(f.txt(fresh.last_cond(f, o)).split()), []).append(b)
    same = {b: t for t, bs in conds.items() if len(bs) > 1 for b in bs}
    bad, reads = {}, set()

    def step(b, s, val):
        for x in f.blocks[b]["s"]:
            if not isinstance(x, int):
                continue
            n = f.nodes[x]
            if n["k"] == "DeclRefExpr" and n["d"] in vs:
                r = w.role(f, x)
                if r == "read" or r == "lhs" and lhs.get(x, (0, "="))[1] != "=":
                    reads.add(x)
                    if n["d"] not in s:
                        bad.setdefault(n["d"], x)
                elif r in ("arg", "obj"):
                    s = s | {n["d"]}
            if x in done:
                t = f.nodes[done[x]]
                if t["k"] == "DeclRefExpr":
                    s = s | {t["d"]}
                nm = t.get("mn") or t.get("d", "").split(":")[-1]
                if nm and any(nm in c for c, v in val):
                    val = frozenset(q for q in val if nm not in q[0])
            if n["k"] == "DeclStmt":
                s = s - {v["d"] for v in n["vars"] if v["d"] in vs}
        return s, val
    seen, work = {}, [(f.entry, frozenset(), frozenset())]
    while work:
        b, s, val = work.pop()
        d = seen.setdefault(b, {})
        if val not in d and len(d) >= 64:
            val = frozenset()
        if val in d:
            if d[val] <= s:
                continue
            s = s & d[val]
        d[val] = s
        s, val = step(b, s, val)
        o = f.blocks[b]
        for j, t in enumerate(o["succ"]):
            if t is None or t < 0:
                continue
            v2 = val
            if b in same:
                if (same[b], j == 1) in val:
                    continue
                v2 = val | {(same[b], j == 0)}
            work.append((t, s, v2))
    return vs, bad, len(reads)


def run(m, ctx):
    ctx.rule("constructed", "every constructor of a manifold, a problem or a solver gives each scalar attribute of the object that a method reads a value on every path (for solvers: each that Run reads first)")
    ctx.rule("run", "every scalar attribute a solver reads during Run has got its value from the constructor or earlier in the run, on every path")
    ctx.rule("local", "every local scalar declared without a value is assigned before it is read, on every path that is feasible with respect to the branches it depends on")
    ctx.rule("fixture", "the analysis reports attributes without a value in the fixture and nothing on its correct class")
    fx = m.fixture
    fr = read_members(fx, list(fx.fns.values()))
    for (c, kind), rs in pool(fx, [(c, "object") for c in fx.classes if c.split("::")[-1].startswith("InitTest")]):
        hits = []
        judge_objects(fx, [((c, kind), rs)], fr, lambda ok, *a: hits.append(ok))
        n = c.split("::")[-1]
        ctx.check(bool(hits) and (all(hits) == (n == "InitTestGood")), "fixture", n, "sa/fixtures/fresh.cpp", "the rule does not behave as expected on its fixture")
    reads = read_members(m, m.repo_fns())
    objs = [c for r in ("Manifold", "Problem") for c in sorted(m.derived(NS + r))]
    solvers = runs.solver_classes(m)
    ctx.need(len(objs) >= 15 and len(solvers) >= 10, "too few manifold, problem or solver classes")
    res = pool(m, [(c, "object") for c in objs] + [(c, "run") for c in solvers])

    def out(ok, key, where, msg):
        if ok:
            ctx.ok("constructed", key)
        else:
            ctx.bad("constructed", key, where, msg)
    judge_objects(m, [r for r in res if r[0][1] == "object"], reads, out)
    blocks = 0
    for (c, kind), r in res:
        if kind != "run" or r is None:
            continue
        have, exposed, fns, nb = r
        blocks += nb
        for fd in attributes(m, c):
            key = "%s: %s" % (c.replace(NS, ""), fd["n"])
            if "::*" in fd["t"] or fd["n"] not in exposed:
                ctx.ok("run", key)
                continue
            u, x = exposed[fd["n"]][0]
            f = m.fns[u]
            ctx.bad("run", key, f.loc(x), "'%s' reads %s, which neither the constructors nor the run so far have given a value on some path" % (" ".join(f.txt(x).split())[:80], fd["n"]))
    w, total = fresh.Fresh(m, None, lambda *a: None), 0
    for f in m.repo_fns():
        vs, bad, k = use_before_value(m, f, w)
        total += k
        for d, v in vs.items():
            ctx.check(d not in bad, "local", "%s: %s" % (f.qual(), v["n"]), f.loc(bad.get(d)), "%s is read here on a path that has not assigned it" % v["n"])
    hits = {f.short: use_before_value(fx, f, w)[1] for f in fx.fns.values() if f.short.startswith("LocalTest")}
    for n, b in hits.items():
        ctx.check(bool(b) == (n == "LocalTestBad"), "fixture", n, "sa/fixtures/fresh.cpp", "the rule does not behave as expected on its fixture")
    ctx.facts.update({"reads_of_locals_without_initial_value": total, "classes": sorted(c.replace(NS, "") for c in objs + solvers), "blocks_interpreted": blocks})
    ctx.notes += ["The first loop over a range that is not known to be empty is taken to run.", "Pointers to member functions (the chosen line search) are left to P13, which decides that each option selects its variant."]
