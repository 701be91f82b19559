"""Inside every operation of the manifolds and problems, vectors are at the right point and in the right representation."""
import multiprocessing, os
from model import NS
import rep

FIXTURES = ("repr.cpp",)
MINIMUM = {"argument": 60, "base": 50, "result": 80, "fixture": 6}
# operations that treat both representations by the same formula, and the default stubs that only report that they are missing
SAME = {"Metric", "LinearOPEEta", "HaddScaledRank1OPE", "ObtainEtaxFlat", "ScalarTimesVector", "ScalarVectorAddVector", "VectorLinearCombination",
        "HInvTran", "TranH", "TranHInvTran", "LCHInvTran", "LCTranH", "LCTranHInvTran"}
WORD = {"I": "coefficients (intrinsic)", "E": "an ambient matrix (extrinsic)"}
_w = None


def stub(m, cls, name):
    """The class has no own body for the operation."""
    q = [q for q in m.classes[NS + "Manifold"]["methods"] if q["name"] == name][0]
    f = m.resolve(q["usr"], cls)
    return f is None or f.cls == NS + "Manifold"


def one(job):
    m, = _w
    cls, root, flags = job
    ev, raws = {}, {}
    ops = 0
    for nm in sorted({k[1] for k in rep.SIG if k[0] == root}):
        if root == "Manifold" and nm in ("ObtainIntr", "ObtainExtr") and stub(m, cls, nm):
            continue
        for fl in flags:
            def report(kind, f, x, ok, d, w):
                if kind == "raw":
                    if nm not in SAME and not f.cls.endswith("MultiManifolds"):
                        raws.setdefault((f.usr, x, d[2]), set()).add((fl, d[1]))
                    return
                ev.setdefault((kind, f.usr, x, ok), set()).add((nm, fl) + tuple(str(z) for z in d))
            for w, f, s, res in rep.operation(m, cls, root, nm, fl, report):
                ops += 1
                if not res or not res[2] or "#w" in s:
                    continue
                b, r = s.get(res[0], (None, None))
                if r:
                    ev.setdefault(("exit", f.usr, f.entry, r == res[2]), set()).add((nm, fl, r, res[2]))
                if b and not b.startswith("this.") and res[1]:
                    ev.setdefault(("exitbase", f.usr, f.entry, b == res[1]), set()).add((nm, fl, b, res[1]))
    return cls, ev, raws, ops


def flags_of(m, cls):
    return "E" if stub(m, cls, "ObtainExtr") else "EI"


def jobs_of(m, only):
    js = [(c, "Manifold", flags_of(m, c)) for c in m.derived(NS + "Manifold") if c != NS + "Manifold" and only(c)]
    return js + [(c, "Problem", "EI") for c in m.derived(NS + "Problem") if only(c)]


def harvest(m, jobs):
    global _w
    _w = (m,)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        return pool.map(one, jobs, chunksize=1)


def short(p):
    p = str(p).split("#")[-1].replace("this.", "").replace("$", "").replace("E()", "")
    return p.split(":")[-1]


def text(m, f, x):
    return "%s: %s" % (f.qual().replace(NS, ""), " ".join(f.txt(x).split())[:110])


def judge(m, ctx, res):
    for cls, ev, raws, ops in sorted(res, key=lambda r: r[0]):
        c = cls.replace(NS, "")
        for (kind, usr, x, ok), ds in sorted(ev.items(), key=lambda z: (z[0][1], z[0][2], str(z[0]))):
            f = m.fns[usr]
            d = sorted(ds)[0]
            mode = "with IsIntrApproach=%s" % ("true" if d[1] == "I" else "false")
            if kind == "exit":
                key = "%s representation of the result of %s" % (c, d[0])
                rule, msg = "result", "%s for %s, %s, may return %s where %s is promised" % (f.qual(), c, mode, WORD[d[2]], WORD[d[3]])
            elif kind == "exitbase":
                key = "%s tangent space of the result of %s" % (c, d[0])
                rule, msg = "result", "%s for %s, %s, may return a vector at %s where one at %s is promised" % (f.qual(), c, mode, short(d[2]), short(d[3]))
            elif kind == "base":
                key = text(m, f, x)
                rule, msg = "base", "argument %d of %s is used at %s but belongs to the tangent space at %s (%s for %s, %s)" % (int(d[3]) + 1, d[2], short(d[5]), short(d[6]), d[0], c, mode)
            elif kind == "rep":
                key = text(m, f, x)
                rule, msg = "argument", "argument %d of %s must be %s but is %s (%s for %s, %s)" % (int(d[3]) + 1, d[2], WORD[d[5]], WORD[d[6]], d[0], c, mode)
            else:
                key = text(m, f, x)
                rule, msg = "argument", "%s are added to %s (%s for %s, %s)" % (WORD[d[-2]], WORD[d[-1]], d[0], c, mode)
            if ok:
                ctx.ok(rule, "%s %s" % (c, key))
            else:
                ctx.bad(rule, key, f.loc(x if kind not in ("exit", "exitbase") else None), msg)
        for (usr, x, t), v in sorted(raws.items(), key=str):
            f = m.fns[usr]
            key = "%s %s [operand %s]" % (c, text(m, f, x), " ".join(t.split())[:40])
            if len({r for _, r in v}) > 1:
                ctx.bad("formula", key, f.loc(x), "the matrix computation reads %s as an ambient matrix for one setting of IsIntrApproach and as coefficients for the other" % " ".join(t.split())[:40])
            else:
                ctx.ok("formula", key)


def run(m, ctx):
    ctx.rule("argument", "in every operation of a manifold or problem, for either setting of IsIntrApproach, each vector handed to another operation of the interface is in the representation that operation expects, and only vectors of one representation are added")
    ctx.rule("base", "each such vector is a tangent vector at the point the callee is told")
    ctx.rule("result", "the result is in the representation and the tangent space the interface promises")
    ctx.rule("formula", "no matrix computation of an operation reads the same operand as coefficients for one setting and as an ambient matrix for the other")
    ctx.rule("fixture", "the interpreter reports the wrong operations of the fixture classes and nothing on the correct one")
    class Silent:
        def __init__(self):
            self.hit = {}

        def ok(self, r, k):
            pass

        def bad(self, r, k, w, msg):
            self.hit.setdefault(r, set()).add(k)
    fx = m.fixture
    for c in sorted(fx.derived(NS + "Manifold")):
        n = c.split("::")[-1]
        if not n.startswith("SelfTest"):
            continue
        s = Silent()
        judge(fx, s, harvest(fx, [(c, "Manifold", "EI")]))
        want = {"SelfTestGood": set(), "SelfTestArgument": {"argument"}, "SelfTestBase": {"base"}, "SelfTestResult": {"result"}, "SelfTestFormula": {"formula"}}
        for r in ("argument", "base", "result", "formula"):
            if n == "SelfTestGood" or r in want[n]:
                ctx.check((r in s.hit) == (r in want[n]), "fixture", n + " " + r, "sa/fixtures/repr.cpp", "the rule does not behave as expected on its fixture: %s" % sorted(s.hit.get(r, ())))
    js = jobs_of(m, lambda c: c.startswith(NS))
    res = harvest(m, js)
    ctx.facts.update({"classes": len(js), "end_states": sum(r[3] for r in res)})
    judge(m, ctx, res)
    ctx.assume.append("Options of a manifold hold only enumerators that the library itself stores in them; paths that print that a case is not implemented are not judged.")
    ctx.notes.append("Vectors whose representation or tangent space is not known to the interpreter (results of raw matrix computations) carry no obligation.")
