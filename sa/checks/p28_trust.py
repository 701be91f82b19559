"""A trust-region run moves only to candidates its acceptance rule allows, and its steps stay inside the region."""
import itertools
from model import NS, AnalysisBroken
from util import *
from algebra import *
from checks.p20_limits import reaches, trial
from checks.p11_verbosity import loops_of

FIXTURES = ("trust.cpp",)
MINIMUM = {"accept": 8, "radius": 8, "state": 4, "inner": 3, "fixture": 8}
INNER = {"TRSM_MIN", "TRSM_LCON", "TRSM_SCON"}
EDGE = {"TRSM_EXCREGION", "TRSM_NEGCURVTURE", "TRSM_MAXITER"}
S = lambda p: rnd("value", p)


def t_and(*xs):
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def t_or(*xs):
    return True if any(x is True for x in xs) else None if any(x is None for x in xs) else False


def t_not(x):
    return None if x is None else not x


def gt(E, st, *forms):
    """a > b on this path; forms: a, b of comparisons that mean the same"""
    for a, b in zip(forms[::2], forms[1::2]):
        v = E.known(st, (a - b) % P)
        if v is not None:
            return v
    return None


def absv(v):
    return rnd("abs", min(v % P, -v % P))


def status_in(st, o, names, all_names):
    """is the status o one of names? (facts about enumerators)"""
    if isinstance(o, tuple) and o[0] == "enum":
        return o[1] in names
    yes = {k[2][1] for k, v in st.items() if isinstance(k, tuple) and k[0] == "is" and len(k) == 3 and k[1] == o and v}
    no = {k[2][1] for k, v in st.items() if isinstance(k, tuple) and k[0] == "is" and len(k) == 3 and k[1] == o and not v}
    if yes:
        return bool(yes & names)
    if names <= no:
        return False
    if all_names - names <= no:
        return True
    return None


TRACK = {"x1", "x2", "f1", "f2", "gf1", "gf2", "ngf1", "ngf2", "ngf0", "eta2", "Delta", "rho", "tCGstatusSM", "Heta2"}


class Iteration:
    """One round of the main loop of a trust-region Run."""

    def __init__(self, m, f, cls):
        self.m, self.f, self.cls = m, f, cls
        pred = lambda g, x: g.nodes[x]["k"] == "CXXMemberCallExpr" and g.nodes[x].get("fn", "").endswith("Manifold::Retraction")
        loops = loops_of(f)
        hit = {h: b for h, b in loops.items() if any(self.contains(x, pred) for q in b for x in f.blocks[q]["s"] if isinstance(x, int))}
        if not hit:
            raise AnalysisBroken("%s: no loop evaluates candidates" % f.qual())
        self.header = max(hit, key=lambda h: len(hit[h]))

    def contains(self, x, pred):
        n = self.f.nodes[x]
        if pred(self.f, x):
            return True
        if n["k"] in ("CXXMemberCallExpr", "CallExpr"):
            u = n.get("usr")
            g = (self.m.resolve(u, self.cls) if n.get("virt") else None) or self.m.fns.get(u)
            return g is not None and g.entry is not None and solver_local(g) and reaches(self.m, g, pred, self.cls)
        return False

    def engine(self):
        E = Paths(self.m, self.cls, local=solver_local, unknown=("tCG_TR", "InitialVector", "IsStopped"))
        E.stop_at = (self.f.usr, self.header)
        E.tracked = TRACK
        return E

    def first(self):
        """facts at the first arrival at the loop"""
        return [st for l, st, v in self.engine().run(self.f, {}, {}) if l == "stop"]

    def constants(self):
        """the locals the loop does not change"""
        first = self.first()
        w = self.engine().written(self.f, loops_of(self.f)[self.header], {})
        return {p: v for p, v in first[0].items() if isinstance(p, str) and p.startswith(self.f.usr + ":") and p not in w and all(s.get(p) == v for s in first)} if first else {}

    def ends(self, st=None):
        E = self.engine()
        return E, E.run(self.f, st if st is not None else self.constants(), {}, start=self.header)


def candidate(st):
    """the trial point of this round: the value x2 or x1 got from a retraction"""
    for p in ("x1", "x2"):
        v = st.get(p)
        if isinstance(v, dict) and len(v) == 1:
            (w, b), c = next(iter(v.items()))
            if b.startswith("retraction") and not w and c == 1:
                return v
    for p, v in st.items():
        if isinstance(p, str) and isinstance(v, dict) and len(v) == 1 and next(iter(v))[1].startswith("retraction"):
            return v
    return None


def judge_run(m, f, cls, statuses, add):
    it = Iteration(m, f, cls)
    E, ends = it.ends()
    A = E.A
    q = "%s for %s" % (f.qual(), cls.split("::")[-1])
    bad = {}
    n = {"accepted": 0, "rejected": 0, "ended": 0}
    x1 = vec("x1")
    for label, st, v in ends:
        cand = candidate(st)
        if cand is None:
            continue
        e = st.get("eta2", vec("eta2"))
        fc = rnd("cost", fz(cand))
        f1, g = S("f1"), vec("gf1")
        model = (-(A.inner(g, e) + num("0.5") * A.inner(e, A.word(("Hess",), e)))) % P
        rho = div((f1 - fc) % P, model)
        hs = set(st.get(p, ("none",)) for p in ("tCGstatusSM",))
        o = hs.pop()
        times = lambda c: ((f1 - fc) % P, c * model % P)
        Aok = gt(E, st, rho, S("Acceptence_Rho"), *times(S("Acceptence_Rho")))
        B = gt(E, st, f1, fc)
        eq = rnd("sqrt", rnd("epsilon"))
        unit = (absv(f1) + 1) % P
        C = gt(E, st, *[z for d in (absv(f1 - fc), (f1 - fc) % P) for z in (eq, div(d, unit), eq * unit % P, d)])
        D = gt(E, st, S("Accuracy"), div(S("ngf1"), (S("ngf0") + S("Tolerance")) % P), S("Accuracy") * (S("ngf0") + S("Tolerance")) % P, S("ngf1"))
        inside = status_in(st, o, INNER, statuses)
        F = t_or(Aok, t_and(C, B), t_and(D, t_or(B, inside)))
        hi = gt(E, st, rho, num("0.75"), *times(num("0.75")))
        lo = gt(E, st, num("0.25"), rho, *times(num("0.25"))[::-1])
        edge = status_in(st, o, EDGE, statuses)
        D0, dmax, dmin = S("Delta"), S("maximum_Delta"), S("minimum_Delta")
        grown, shrunk = D0 * S("Magnified_tau") % P, D0 * S("Shrinked_tau") % P
        tiny = gt(E, st, dmin, shrunk)
        new = st.get("Delta", D0)
        accepted = st.get("x1", x1) == cand
        grow = t_and(hi, edge)
        shrink = t_and(t_not(hi), lo, t_not(D)) if hi is not None else t_and(lo, t_not(D))
        if label == "end" or tiny is True and not goes_on(it, st):
            n["ended"] += 1
            if not (tiny is True and shrink is not False):
                bad.setdefault("stop", []).append("the run ends in the middle of an iteration although the radius is not below minimum_Delta")
            continue
        n["accepted" if accepted else "rejected"] += 1
        if accepted and F is not True:
            bad.setdefault("accept", []).append("a candidate becomes the iterate on a path on which none of: rho > Acceptence_Rho; a negligible decrease; an accurate iterate with decrease or an interior step, was found true")
        if not accepted and F is not False:
            bad.setdefault("reject", []).append("a candidate is rejected on a path on which the acceptance rule was not found false")
        ok = new == D0 and t_and(t_not(grow), t_not(shrink)) is True \
            or new == grown and grow is True and gt(E, st, grown, dmax) is False \
            or new == dmax and (grow is True and gt(E, st, grown, dmax) is True or grow is not True and gt(E, st, D0, dmax) is True) \
            or new == shrunk and shrink is True and (tiny is False)
        if not ok:
            bad.setdefault("radius", []).append("Delta is not changed as the rule says: enlarged (at most to maximum_Delta) only after a very good step that reached the boundary, reduced (not below minimum_Delta) only after a poor one, kept otherwise")
        if accepted:
            gr = vec("gradient%s" % rnd(fz(cand)))
            want = {"f1": fc, "gf1": gr, "ngf1": sqrt(A.inner(gr, gr))}
        else:
            want = {"x1": x1, "f1": f1, "gf1": g, "ngf1": S("ngf1")}
        for p, w in want.items():
            have = st.get(p, vec(p) if isinstance(w, dict) else S(p))
            if have != w:
                bad.setdefault("state", []).append("after %s candidate %s is not that of the iterate" % ("an accepted" if accepted else "a rejected", p))
    for rule, key in (("accept", "accept"), ("accept", "reject"), ("radius", "radius"), ("radius", "stop"), ("state", "state")):
        add(key not in bad, rule, "%s: %s" % (q, key), f.loc(), bad.get(key, [""])[0])
    add(n["accepted"] > 0 and n["rejected"] > 0, "accept", "%s: both" % q, f.loc(), "no path accepts, or none rejects, a candidate")
    first = it.first()
    add(bool(first) and all(st.get("Delta") == S("initial_Delta") for st in first), "radius", "%s: first" % q, f.loc(), "the first radius is not initial_Delta")
    return n, E.states


def goes_on(it, st):
    """can the loop evaluate another candidate from these facts?"""
    E = it.engine()
    s0 = {k: v for k, v in st.items() if not (isinstance(k, tuple) and k[0] in ("loop", "n"))}
    c0 = candidate(st)
    for l, s, v in E.run(it.f, s0, {}, start=it.header):
        if candidate(s) != c0:
            return True
    return False


# ---- the inner iteration
FORMS = {
    "EPE": lambda A, E, R, D, g: A.inner(E, A.word(("M-",), E)),
    "EPD": lambda A, E, R, D, g: A.inner(E, A.word(("M-",), D)),
    "DPD": lambda A, E, R, D, g: A.inner(D, A.word(("M-",), D)),
    "ZR": lambda A, E, R, D, g: A.inner(R, A.word(("M",), R)),
    "RR": lambda A, E, R, D, g: A.inner(R, R),
    "NR": lambda A, E, R, D, g: sqrt(A.inner(R, R)),
    "MV": lambda A, E, R, D, g: (A.inner(E, g) + num("0.5") * A.inner(E, A.word(("Hess",), E))) % P,
    "HE": lambda A, E, R, D, g: A.word(("Hess",), E),
    "MR": lambda A, E, R, D, g: A.word(("M",), R),
}


class Inner:
    """Truncated conjugate gradients for the model <g, e> + 1/2 <e, H e> in the region of radius Delta."""

    def __init__(self, m, f, cls):
        self.m, self.f, self.cls = m, f, cls
        loops = loops_of(f)
        pred = lambda g, x: g.nodes[x]["k"] == "CXXMemberCallExpr" and g.nodes[x].get("fn", "").split("::")[-1] == "HessianEta"
        self.it = Iteration.__new__(Iteration)
        self.it.m, self.it.f, self.it.cls = m, f, cls
        hit = {h: b for h, b in loops.items() if any(self.it.contains(x, pred) for q in b for x in f.blocks[q]["s"] if isinstance(x, int))}
        self.header = max(hit, key=lambda h: len(hit[h])) if hit else None
        self.body = hit.get(self.header)

    def engine(self, A=None):
        E = Paths(self.m, self.cls, A, local=solver_local)
        E.stop_at = (self.f.usr, self.header)
        return E

    def entry(self, A):
        E = self.engine(A)
        out = [st for l, st, v in E.run(self.f, {}, {}) if l == "stop"]
        return out

    def roles(self, st):
        E = self.engine()
        E.trace = []
        w = E.written(self.f, self.body, {})
        s = dict(st)
        for p, t in w.items():
            if not p.endswith("["):
                s = E.lose(s, p, t, "generic")
        E.run(self.f, s, {}, start=self.header)
        D = {a for q, a, b in E.trace if q == "HessianEta"}
        R = {a for q, a, b in E.trace if q == "PreConditioner"}
        if len(D) != 1 or len(R) != 1 or None in D | R:
            raise AnalysisBroken("%s: direction %s, residual %s" % (self.f.qual(), D, R))
        return D.pop(), R.pop(), w


def judge_inner(m, f, cls, add):
    I = Inner(m, f, cls)
    if I.header is None:
        return None
    q = f.qual()
    g = vec("gf1")
    plain = Algebra()
    starts = [(st, plain) for st in I.entry(plain) if st.get(("bool", "useRand")) is not True]
    once = Algebra(trivial=("M", "M-"))
    starts_r = [(st, once) for st in I.entry(once) if st.get(("bool", "useRand")) is True]
    if not starts:
        raise AnalysisBroken("%s: the loop is not reached" % q)
    Dp, Rp, w = I.roles(starts[0][0])
    zero = {"eta1": {}}
    # the search starts at the origin unless a random start was asked for
    starts = [(st, a) for st, a in [(s, plain) for s in I.engine(plain).run(f, {"eta1": {}}, {}) and [s for l, s, v in I.engine(plain).run(f, {"eta1": {}}, {}) if l == "stop"]] if st.get(("bool", "useRand")) is not True]
    real = {p: t for p, t in w.items() if not p.endswith("[") and p not in ("eta2", Dp, Rp)}

    def at(st, p):
        v = st.get(p)
        return v if v is not None else (vec(p) if p in ("eta2", "eta1", "gf1") else S(p))
    okrel = True
    for st, A in starts + starts_r:
        E0, R0, D0 = at(st, "eta2"), at(st, Rp), at(st, Dp)
        okrel &= all(isinstance(v, dict) for v in (E0, R0, D0)) and A.word(("Hess",), E0) == vadd((1, R0), (-1, g))
        okrel &= (A.inner(D0, R0) + A.inner(R0, A.word(("M",), R0))) % P == 0
    add(okrel, "inner", "%s: start" % q, f.loc(), "at the start the residual is not the gradient of the model at the first step, or the direction is not the preconditioned steepest descent direction")
    cand = {}
    for p in real:
        fs = []
        for name, F in FORMS.items():
            ok = True
            for st, A in starts + starts_r:
                v = st.get(p)
                if v is None or v != F(A, at(st, "eta2"), at(st, Rp), at(st, Dp), g):
                    ok = False
            if ok:
                fs.append(name)
        if fs:
            cand[p] = fs
    gE, gR, gD = vec("E"), vec("R"), vec("D")
    zr = rnd("inner", min([("R", ("M",), "R")], key=repr))
    base = Algebra()
    zr = base.inner(gR, base.word(("M",), gR))
    laws = {("E", (), "R"): 0, ("E", ("Hess",), "D"): 0, ("D", (), "R"): -zr % P, ("D", (), "gf1"): -zr % P, ("gf1", (), "D"): -zr % P}
    A = Algebra(laws, {("Hess", "E"): vadd((1, gR), (-1, g))})

    def attempt(choice):
        out = []
        for st, _ in starts:
            E = I.engine(A)
            s = dict(st)
            for p, t in w.items():
                if p.endswith("["):
                    continue
                if isinstance(s.get(p), tuple) and s[p][0] == "enum":
                    continue                                   # checked below
                s = E.lose(s, p, t, "round")
            s["eta2"], s[Rp], s[Dp] = gE, gR, gD
            for p, name in choice.items():
                s[p] = FORMS[name](A, gE, gR, gD, g)
            s = {k: v for k, v in s.items() if not (isinstance(k, tuple) and k[0] in ("loop", "n"))}
            out.append((s, E, E.run(f, s, {}, start=I.header)))
        fails = set()
        for s, E, ends in out:
            for l, e, v in ends:
                if l != "stop":
                    continue
                for p, name in choice.items():
                    if e.get(p) != FORMS[name](A, e["eta2"], e[Rp], e[Dp], g) if all(isinstance(e.get(x), dict) for x in ("eta2", Rp, Dp)) else True:
                        fails.add(p)
        return out, fails
    best = None
    keys = sorted(cand)
    tries = 0
    choices = [{}]
    work = [dict(zip(keys, c)) for c in itertools.islice(itertools.product(*[cand[k] for k in keys]), 400)]
    for c in work:
        while True:
            out, fails = attempt(c)
            tries += 1
            if not fails:
                break
            c = {k: v for k, v in c.items() if k not in fails}
        score = (len(c), len(set(c.values())))
        if best is None or score > best[0]:
            best = (score, c, out)
    _, choice, out = best
    bad = {}
    n = {"rounds": 0, "boundary": 0, "interior": 0, "counted out": 0}
    F = lambda name, *v: FORMS[name](A, *v, g)
    for s, E, ends in out:
        epe, epd, dpd = F("EPE", gE, gR, gD), F("EPD", gE, gR, gD), F("DPD", gE, gR, gD)
        dhd = A.inner(gD, A.word(("Hess",), gD))
        r2 = S("Delta") * S("Delta") % P
        alpha = div(zr, dhd)
        tau = div((-epd + sqrt((epd * epd + dpd * (r2 - epe)) % P)) % P, dpd)
        inner, outer = vadd((1, gE), (alpha, gD)), vadd((1, gE), (tau, gD))
        n0 = sqrt(A.inner(g, g))
        pw = rnd("call", "pow", n0, S("theta"))
        for l, e, v in ends:
            new = e.get("eta2")
            status = e.get("tCGstatusSM")
            status = status[1] if isinstance(status, tuple) and status[0] == "enum" else None
            fits = gt(E, e, F("EPE", inner, gR, gD), r2, sqrt(F("EPE", inner, gR, gD)), S("Delta")) is False and gt(E, e, dhd, 0) is True
            if l == "stop":
                n["rounds"] += 1
                if new != inner or not fits:
                    bad.setdefault("region", "a conjugate gradient step is kept on a path on which it was not found to stay inside the region along a direction of positive curvature")
                R2, D2 = e.get(Rp), e.get(Dp)
                if not isinstance(R2, dict) or not isinstance(D2, dict) or A.word(("Hess",), new) != vadd((1, R2), (-1, g)):
                    bad.setdefault("residual", "the residual is not the gradient of the model at the new step")
                elif D2.get(((), "D"), 0) == 0 or vadd((1, D2), (-D2[((), "D")], gD)) != scaled(-1, A.word(("M",), R2)) or D2[((), "D")] != div(A.inner(R2, A.word(("M",), R2)), zr):
                    bad.setdefault("direction", "the next direction is not the preconditioned residual, conjugated to the last direction")
                if e.get("tCGstatusSM") != s.get("tCGstatusSM"):
                    bad.setdefault("status", "a status is set although the iteration goes on")
                continue
            if new == inner and fits:
                n["interior"] += 1
                if status in (None, "TRSM_NEGCURVTURE", "TRSM_EXCREGION", "TRSM_MAXITER"):
                    bad.setdefault("status", "a step inside the region is reported as %s" % status)
                if status in ("TRSM_LCON", "TRSM_SCON"):
                    nr = F("NR", inner, vadd((1, gR), (alpha, A.word(("Hess",), gD))), gD)
                    b = S("kappa") if status == "TRSM_LCON" else pw
                    ok = gt(E, e, nr, n0 * b % P) is False and gt(E, e, S("kappa"), pw) is (status == "TRSM_SCON")
                    if not ok:
                        bad.setdefault("residual test", "%s is reported on a path on which the residual was not found below its bound" % status)
            elif new == outer:
                n["boundary"] += 1
                if status not in ("TRSM_NEGCURVTURE", "TRSM_EXCREGION"):
                    bad.setdefault("status", "a step to the boundary is reported as %s" % status)
                if (status == "TRSM_NEGCURVTURE") and gt(E, e, dhd, 0) is not False:
                    bad.setdefault("status", "negative curvature is reported on a path on which it was not found")
            elif new == gE:
                n["counted out"] += 1
                if status != "TRSM_MAXITER":
                    bad.setdefault("status", "running out of iterations is reported as %s" % status)
            else:
                bad.setdefault("region", "the step returned is neither the last conjugate gradient step inside the region nor its continuation to the boundary")
    for key in ("region", "residual", "direction", "status", "residual test"):
        add(key not in bad, "inner", "%s: %s" % (q, key), f.loc(), bad.get(key, ""))
    add(n["interior"] > 0 and n["boundary"] > 0 and n["rounds"] > 0, "inner", "%s: all" % q, f.loc(), "no path continues, ends inside, or ends at the boundary: %s" % n)
    return dict(n, invariants={k.split(":")[-1]: v for k, v in choice.items()}, tries=tries)


def statuses_of(m):
    for q, e in m.enums.items():
        ns = {v["n"] for v in e["vals"]}
        if "TRSM_EXCREGION" in ns:
            return {x for x in ns if x.startswith("TRSM_")}
    raise AnalysisBroken("no enumeration of the statuses of the inner iteration")


def main_of(m, c):
    """the function that contains the main loop of a class"""
    f = method(m, c, "Run")
    seen, todo = set(), [f]
    while todo:
        g = todo.pop(0)
        if g is None or g.entry is None or g.usr in seen or not solver_local(g):
            continue
        seen.add(g.usr)
        try:
            Iteration(m, g, c)
            return g
        except AnalysisBroken:
            pass
        for x in g.walk():
            n = g.nodes[x]
            if n["k"] in ("CXXMemberCallExpr", "CallExpr"):
                todo.append((m.resolve(n["usr"], c) if n.get("virt") else None) or m.fns.get(n.get("usr")))
    raise AnalysisBroken("%s: no main loop" % c)


def method(m, c, name):
    for b in [c] + list(m.bases(c)):
        for x in m.classes.get(b, {}).get("methods", []):
            if x["name"].split("::")[-1] == name:
                return m.resolve(x["usr"], c)
    return None


def run(m, ctx):
    import runs
    ctx.rule("accept", "on every path of one iteration: the candidate becomes the iterate if and only if rho > Acceptence_Rho, or the decrease is positive and relatively below sqrt(epsilon), or the iterate is accurate and the candidate is lower or an interior step; rho is the actual over the predicted decrease")
    ctx.rule("radius", "on every path of one iteration Delta changes exactly as the rule says, and the run ends when it falls below minimum_Delta")
    ctx.rule("state", "an accepted candidate brings its cost, gradient and norm; a rejected one changes none of them")
    ctx.rule("inner", "by induction over the rounds of the inner iteration: a step is kept only where it was found inside the region, a boundary step has the length of the radius, residual and direction satisfy the conjugate gradient relations, and the status names the reason")
    ctx.rule("fixture", "the rules report each wrong iteration of the fixture and none of the right ones")
    names = statuses_of(m)
    add = lambda ok, r, key, w, msg: ctx.check(ok, r, key, w, msg)
    facts, seen, skipped = {}, set(), []
    for c in sorted(c for c in runs.solver_classes(m) if NS + "SolversSMTR" in m.bases(c)):
        f = main_of(m, c)
        n, k = judge_run(m, f, c, names, add)
        facts[c.split("::")[-1]] = dict(n, states=k)
        g = method(m, c, "tCG_TR")
        if g.usr in seen:
            continue
        seen.add(g.usr)
        r = judge_inner(m, g, c, add)
        if r is None:
            skipped.append(g.qual())
        else:
            facts[g.qual()] = r
    ctx.facts["iterations"] = facts
    ctx.facts["inner solvers of another kind, not judged"] = skipped
    ctx.assume.append("Values are compared at a pseudo-random point of a field of 2^61-1 elements; Acceptence_Rho < 0.25 as CheckParams asks; inner products are bilinear and symmetric, the Hessian and the preconditioner linear and self-adjoint, and the steps of the inner iteration are conjugate to later directions (exact arithmetic).")
    fx = m.fixture
    WANT = {"Accept": "accept", "Radius": "radius", "State": "state"}
    for n in sorted(x for x in fx.classes if x.split("::")[-1].startswith(("TrustGood", "TrustBad", "InnerGood", "InnerBad"))):
        b, got = n.split("::")[-1], set()
        rec = lambda ok, r, key, w, msg: got.add(r) if not ok else None
        if b.startswith("Trust"):
            judge_run(fx, main_of(fx, n), n, names, rec)
            want = {v for k, v in WANT.items() if b.startswith("TrustBad" + k)}
        else:
            judge_inner(fx, method(fx, n, "tCG_TR"), n, rec)
            want = {"inner"} if b.startswith("InnerBad") else set()
        ctx.check(want <= got if want else not got, "fixture", n, "sa/fixtures/trust.cpp", "fixture %s: reported %s, expected %s" % (n, sorted(got), sorted(want)))
