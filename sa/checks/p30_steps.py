"""Conjugate gradient coefficients, descent directions, initial step sizes and Newton's inner iteration follow the formulas of their methods."""
from model import NS, AnalysisBroken
from util import *
from algebra import *
from checks.p11_verbosity import loops_of
from checks.p28_trust import reaches, S, gt, t_and, t_or, t_not, method, Inner, absv

FIXTURES = ("steps.cpp",)
MINIMUM = {"coefficient": 6, "restart": 6, "combine": 6, "descent": 2, "start": 6, "newton": 3, "history": 3, "fixture": 18}
EPS = rnd("epsilon")
TRIVIAL = ("M", "M-")


def short(c):
    return c.split("::")[-1]


def engine(m, c, trivial=TRIVIAL):
    return Paths(m, c, Algebra(trivial=trivial), local=solver_local, opaque=("PrintInfo", "PrintGenInfo", "tCG_LS"))


def enumerators(m, name, fallback=()):
    for e, o in m.enums.items():
        ns = [v["n"] for v in o["vals"]]
        if name in ns:
            return [x for x in ns if not x.endswith("LENGTH")]
    return list(fallback)


def betas(A, m1, m2):
    """{method: [(coefficient, facts needed: (a, b) means a > b was found false)]}"""
    g1, g2, d = vec("gf1"), vec("gf2"), vec("eta1")
    T = lambda v: A.word(("T",), v)
    i = A.inner
    y, td = vadd((1, g2), (-1, T(g1))), T(d)
    p = lambda v: A.word(("M",), v)
    fr = div(i(g2, p(g2)), m1)
    pr = div(i(p(g2), y), m1)
    hz = div(i(vadd((1, y), (-2 * div(i(y, y), i(y, td)), td)), p(g2)), i(y, td))
    return {
        "FLETCHER_REEVES": fr, "POLAK_RIBIERE_MOD": ("max0", pr), "HESTENES_STIEFEL": div(i(p(g2), y), i(y, td)), "FR_PR": ("clamp", pr, fr),
        "DAI_YUAN": div(i(g2, p(g2)), i(y, td)), "HAGER_ZHANG": hz,
    }


def picks(E, st, form, sg):
    """the coefficient on this path, None when the path does not tell"""
    if isinstance(form, int):
        return form
    if form[0] == "max0":
        v = E.known(st, form[1])
        w = E.known(st, -form[1] % P)
        pos = v if v is not None else t_not(w)
        # the value must have been compared with zero
        return None if v is None and w is None else (form[1] if pos else 0)
    pr, fr = form[1], form[2]
    low, high = gt(E, st, -fr % P, pr), gt(E, st, pr, fr)
    low = low if low is not None else t_not(gt(E, st, pr, -fr % P))
    high = high if high is not None else t_not(gt(E, st, fr, pr))
    if (E.known(st, fr) is False or E.known(st, 2 * fr % P) is False) and sg in (fr % P, -fr % P):
        return sg                                             # <g, P g> is positive: no path, or both ends of the interval are zero
    if low is True:
        return -fr % P
    if high is True:
        return fr
    return pr if low is False and high is False else None


def judge_cg(m, c, add, facts):
    f = method(m, c, "UpdateData")
    if f is None or f.entry is None:
        return
    names = enumerators(m, "FLETCHER_REEVES")
    if not names:
        raise AnalysisBroken("no enumeration of conjugate gradient methods")
    q = "%s for %s" % (f.qual(), short(c))
    for name in names:
        bad = {}
        n = {"restart": 0, "continue": 0}
        for trivial in (TRIVIAL, ()):
            E = engine(m, c, trivial)
            A = E.A
            g1, g2 = vec("gf1"), vec("gf2")
            pg1, pg2 = A.word(("M",), g1), A.word(("M",), g2)
            ends = E.run(f, {"RCGmethod": ("enum", name), "Pgf1": pg1}, {})
            form = betas(A, A.inner(g1, pg1), None)[name] if name in betas(A, 1, 1) else None
            tg1 = A.word(("T",), g1)
            ratio = div(absv(A.inner(g2, tg1)), A.inner(g1, g1))
            for l, st, v in ends:
                far = gt(E, st, ratio, num("0.1"), absv(A.inner(g2, tg1)), num("0.1") * A.inner(g1, g1) % P)
                sg = st.get("sigma")
                e1 = st.get("eta1")
                if far is None:
                    bad.setdefault("restart", "a path does not find out whether the gradients are far from orthogonal")
                    continue
                n["restart" if far else "continue"] += 1
                if far:
                    if sg != 0:
                        bad.setdefault("restart", "the method is not restarted on a path on which the gradients were found far from orthogonal")
                    want = 0
                else:
                    want = picks(E, st, form, sg) if form is not None else sg
                    if want is None or sg != want and (trivial or name != "HAGER_ZHANG"):
                        bad.setdefault("coefficient", "sigma is not the coefficient of %s" % name)
                        continue
                    want = sg
                T = lambda v: A.word(("T",), v)
                zero = want == 0 or st.get(("eq", E.sign(want)[0])) is True
                full = vadd((-1, pg2), (want, T(vec("eta1"))))
                if e1 is None or fz(e1) != fz(full) and not (zero and fz(e1) == fz(scaled(-1, pg2))):
                    bad.setdefault("combine", "the new direction is not minus the preconditioned gradient plus sigma times the transported old one")
                if fz(st.get("Pgf1")) != fz(pg2):
                    bad.setdefault("combine", "the preconditioned gradient kept for the next iteration is not that of the new gradient")
        for r in ("coefficient", "restart", "combine"):
            add(r not in bad, r, "%s, %s" % (q, name), f.loc(), bad.get(r, ""))
        add(n["restart"] > 0 and n["continue"] > 0, "restart", "%s, %s: both" % (q, name), f.loc(), "a restart never happens, or always: %s" % n)
    facts[q] = {"methods": len(names)}


def judge_descent(m, c, add, facts, fresh):
    """GetSearchDir leaves a direction it found to be a descent direction, or minus the gradient"""
    f = method(m, c, "GetSearchDir")
    if f is None or f.entry is None:
        return
    q = "%s for %s" % (f.qual(), short(c))
    E = engine(m, c, ())
    A = E.A
    g = vec("gf1")
    bad, n = [], {"kept": 0, "preconditioned": 0, "gradient": 0}
    for l, st, v in E.run(f, {}, {}):
        e = st.get("eta1", vec("eta1"))
        if not isinstance(e, dict):
            bad.append("the direction is not a combination of the old one and the gradient")
            continue
        if fz(e) == fz(scaled(-1, g)):
            n["gradient"] += 1
            continue
        eg, gg = A.inner(e, g), S("ngf1") * S("ngf1") % P
        tol = -sqrt(EPS) % P
        up = gt(E, st, div(eg, gg), tol, eg, tol * gg % P)
        if up is not False:
            bad.append("a direction is used on a path on which it was not found to be a descent direction")
        if fz(e) == fz(scaled(-1, A.word(("M",), g))):
            n["preconditioned"] += 1
        elif fz(e) == fz(vec("eta1")):
            n["kept"] += 1
            if fresh or st.get(("eq", E.sign(S("iter"))[0])) is not False and E.known(st, S("iter")) is not True:
                bad.append("the direction of the iteration before is used on a path that may be the first iteration")
        else:
            bad.append("the direction is neither minus the gradient, minus the preconditioned gradient nor the one prepared before")
    add(not bad, "descent", q, f.loc(), bad[0] if bad else "")
    add(n["preconditioned"] > 0 and n["gradient"] > 0, "descent", "%s: all" % q, f.loc(), "a kind of direction is never used: %s" % n)
    facts[q] = n


def judge_start(m, c, add, facts):
    """the initial step size"""
    f = method(m, c, "InitialStepSize")
    if f is None or f.entry is None:
        return
    q = f.qual()
    names = enumerators(m, "LSSM_QUADINTMOD")
    for name in names:
        bad, n = [], {"first": 0, "later": 0, "safeguarded": 0}
        E = engine(m, c)
        A = E.A
        x1, x2, e, g1, g2 = (vec(x) for x in ("x1", "x2", "eta2", "gf1", "gf2"))
        T = lambda v: A.word(("T",), v)
        quad = div(2 * (S("f1") - rnd("list", "pre_funs", "front", None)), S("initialslopepre"))
        for l, st, v in E.run(f, {"InitSteptype": ("enum", name)}, {}):
            got = st.get("stepsize")
            k0 = st.get(("eq", E.sign(S("iter"))[0]))
            if k0 is None or not isinstance(got, int):
                bad.append("a path does not tell whether it is the first iteration")
                continue
            if k0:
                n["first"] += 1
                if got != S("Initstepsize"):
                    bad.append("the first step size is not Initstepsize")
                continue
            n["later"] += 1
            firsts = []                      # the step sizes the rule may choose on this path
            if name == "LSSM_ONESTEP":
                firsts = [1]
            elif name == "LSSM_QUADINT":
                firsts = [quad]
            elif name == "LSSM_QUADINTMOD":
                q1 = num("1.01") * quad % P
                big = gt(E, st, q1, 1)
                big = big if big is not None else t_not(gt(E, st, 1, q1))
                firsts = [] if big is None else [1 if big else q1]
            elif name in ("LSSM_BBSTEP", "LSSM_EXTRBBSTEP"):
                pairs = [(T(e), vadd((1, g1), (-1, T(g2))))] if name == "LSSM_BBSTEP" else [(vadd((1, x1), (-1, x2)), vadd((1, g1), (-1, g2)))]
                for s, y in pairs:
                    ss, sy, yy = A.inner(s, s), A.inner(s, y), A.inner(y, y)
                    b1, b2 = div(ss, sy), div(sy, yy)
                    ratio = S("BBratio")
                    z = st.get(("eq", E.sign(ratio)[0]))
                    one = t_and(st.get(("eq", E.sign(ratio - 1)[0])), st.get(("eq", E.sign(S("Num_pre_BB"))[0])))
                    if z is True:
                        firsts.append(b1)
                    elif one is True:
                        firsts.append(b2)
                    elif z is False and one is False:
                        lows = E.losts | {b2}
                        for x in lows:
                            less = gt(E, st, ratio, div(x, b1))
                            less = less if less is not None else t_not(gt(E, st, div(x, b1), ratio))
                            if less is not None:
                                firsts.append(x if less else b1)
            else:
                continue
            ok = False
            for a in set(firsts):
                small = gt(E, st, div(quad, 100), a)
                small = small if small is not None else False if (div(quad, 100) - a) % P == 0 else t_not(gt(E, st, a, div(quad, 100)))
                if a == quad and small is None:
                    small = False            # q < q / 100 changes nothing
                b = None if small is None else quad if small else a
                if b is None:
                    continue
                tiny = gt(E, st, EPS, b)
                tiny = tiny if tiny is not None else t_not(gt(E, st, b, EPS))
                if b == 1 and tiny is None:
                    tiny = False
                if tiny is None:
                    continue
                n["safeguarded"] += bool(small or tiny)
                ok |= got == (div(S("Initstepsize"), S("ngf1")) if tiny else b)
            if not ok:
                bad.append("the step size is not the one %s prescribes, safeguarded" % name)
        add(not bad and n["first"] > 0 and n["later"] > 0, "start", "%s, %s" % (q, name), f.loc(), bad[0] if bad else "the first or a later iteration is not handled: %s" % n)
    add(bool(names), "start", q, f.loc(), "no enumeration of initial step sizes")
    facts[q] = {"kinds": len(names)}


def judge_history(m, c, add, facts):
    """what a round of the main loop leaves for the initial step size of the next one"""
    f = method(m, c, "Run")
    if f is None or f.entry is None:
        return
    q = f.qual()
    pred = lambda g, x: g.nodes[x]["k"] == "CXXMemberCallExpr" and g.nodes[x].get("fn", "").split("::")[-1] == "InitialStepSize"
    loops = loops_of(f)
    hit = {h: b for h, b in loops.items() if any(pred(f, x) or f.nodes[x]["k"] == "CXXMemberCallExpr" and (lambda g: g is not None and g.entry is not None and solver_local(g) and reaches(m, g, pred, c))(m.fns.get(f.nodes[x].get("usr"))) for y in b for x in f.blocks[y]["s"] if isinstance(x, int))}
    if not hit:
        return
    h = max(hit, key=lambda h: len(hit[h]))
    E = Paths(m, c, local=solver_local, unknown=STEPS)
    E.stop_at = (f.usr, h)
    bad, n = {}, 0
    slopes = {E.A.inner(vec("gf1"), vec(e)) for e in ("eta1", "eta1@GetSearchDir")}
    for l, st, v in E.run(f, {"f1": S("f1"), "x1": vec("x1"), "gf1": vec("gf1")}, {}, start=h):
        if l != "stop":
            continue
        n += 1
        if st.get(("front", "pre_funs")) != S("f1"):
            bad["value"] = "the list of previous values does not begin with the value the round started from"
        if st.get("f1") is None or st.get("f1") == S("f1"):
            bad["value"] = "f1 is not replaced by the new value"
        if st.get("initialslopepre") is None or st.get("initialslopepre") != st.get("initialslope"):
            bad["slope"] = "the slope kept for the next round is not the one along the direction of this round"
        elif st["initialslope"] not in slopes:
            bad["slope"] = "the slope is not the inner product of the gradient and the direction of this round"
        if fz(st.get("x2")) != fz(vec("x1")) or fz(st.get("gf2")) != fz(vec("gf1")):
            bad["point"] = "x2 and gf2 are not the point and the gradient the round started from"
    for k in ("value", "slope", "point"):
        add(k not in bad and n > 0, "history", "%s: %s" % (q, k), f.loc(), bad.get(k, "no round"))
    facts[q] = {"ends": n}


STEPS = ("GetSearchDir", "InitialStepSize", "UpdateData", "IsStopped", "PrintInfo", "LinesearchArmijo", "h")


def judge_newton(m, c, add, facts):
    """conjugate gradients for the Newton equation: one round, and what is returned"""
    f = method(m, c, "tCG_LS")
    if f is None or f.entry is None:
        return
    I = Inner(m, f, c)
    q = f.qual()
    if I.header is None:
        raise AnalysisBroken("%s: no loop applies the Hessian" % q)
    g = vec("gf1")
    bad = {}
    E0 = I.engine(Algebra())
    arr = [st for l, st, v in E0.run(f, {"eta1": {}}, {}) if l == "stop" and st.get(("bool", "useRand")) is not True]
    if not arr:
        raise AnalysisBroken("%s: the loop is not reached" % q)
    Dp, Rp, w = I.roles(arr[0])
    A0 = E0.A
    zr0 = A0.inner(g, A0.word(("M",), g))
    zps = [p for p, t in w.items() if all(s.get(p) == zr0 for s in arr)]
    for st in arr:
        if fz(st.get(Rp)) != fz(g) or fz(st.get(Dp)) != fz(scaled(-1, A0.word(("M",), g))):
            bad.setdefault("newton", "the inner iteration does not start with the gradient as residual and minus the preconditioned gradient as direction")
    gE, gR, gD = vec("E"), vec("R"), vec("D")
    base = Algebra()
    zr = base.inner(gR, base.word(("M",), gR))
    n = {"rounds": 0, "returned": 0}
    counters = [p for p in w if all(s.get(p) == 0 for s in arr) and is_real(w[p])]
    for st0 in arr:
        E = I.engine(base)
        s = dict(st0)
        for p, t in w.items():
            if p.endswith("[") or isinstance(s.get(p), tuple) and s[p][0] == "enum":
                continue
            s = E.lose(s, p, t, "round")
        s["eta1"], s[Rp], s[Dp] = gE, gR, gD
        for p in zps:
            s[p] = zr
        s = {k: v for k, v in s.items() if not (isinstance(k, tuple) and k[0] in ("loop", "n"))}
        dhd = base.inner(gD, base.word(("Hess",), gD))
        alpha = div(zr, dhd)
        step = vadd((1, gE), (alpha, gD))
        R2 = vadd((1, gR), (alpha, base.word(("Hess",), gD)))
        for l, e, v in E.run(f, s, {}, start=I.header):
            new = e.get("eta1")
            if l == "stop":
                n["rounds"] += 1
                r, d = e.get(Rp), e.get(Dp)
                if fz(new) != fz(step) or gt(E, e, dhd, 0) is not True:
                    bad.setdefault("newton", "the iteration goes on without the conjugate gradient step along a direction of positive curvature")
                if fz(r) != fz(R2):
                    bad.setdefault("newton", "the residual does not follow the step")
                elif not isinstance(d, dict) or fz(d) != fz(vadd((-1, base.word(("M",), R2)), (div(base.inner(R2, base.word(("M",), R2)), zr), gD))):
                    bad.setdefault("newton", "the next direction is not the preconditioned residual, conjugated to the last one")
                if any(e.get(p) != base.inner(R2, base.word(("M",), R2)) for p in zps):
                    bad.setdefault("newton", "<z, r> is not kept up to date")
                continue
            n["returned"] += 1
            status = e.get("tCGLSSMstatus")
            status = status[1] if isinstance(status, tuple) and status[0] == "enum" else None
            if status in ("LSSM_LCON", "LSSM_SCON"):
                if fz(new) != fz(step):
                    bad.setdefault("returned", "the iteration ends by convergence, but what is returned is not the conjugate gradient step that converged")
                nr, n0 = sqrt(base.inner(R2, R2)), [x for x in [sqrt(base.inner(g, g))]][0]
                pw = rnd("call", "pow", n0, S("theta"))
                b = S("kappa") if status == "LSSM_LCON" else pw
                if gt(E, e, nr, n0 * b % P) is not False or gt(E, e, S("kappa"), pw) is not (status == "LSSM_SCON"):
                    bad.setdefault("returned", "%s is reported on a path on which the residual was not found below its bound" % status)
            elif status == "LSSM_NEGCURVTURE" and gt(E, e, dhd, 0) is not False:
                bad.setdefault("returned", "negative curvature is reported on a path on which it was not found")
            elif status in ("LSSM_NEGCURVTURE", "LSSM_MAXITER") and fz(new) not in (fz(gE), fz(gD)):
                bad.setdefault("returned", "%s does not return the last step, or the direction if there was none" % status)
            if status not in ("LSSM_LCON", "LSSM_SCON") and fz(new) == fz(gD) and not any(e.get(("eq", E.sign(s[p])[0])) is True for p in counters):
                bad.setdefault("returned", "the direction is returned instead of the step on a path that may come after the first round")
    add("newton" not in bad and n["rounds"] > 0, "newton", "%s: rounds" % q, f.loc(), bad.get("newton", "no round"))
    add("returned" not in bad and n["returned"] > 0, "newton", "%s: result" % q, f.loc(), bad.get("returned", "nothing is returned"))
    add(bool(zps) or True, "newton", "%s: roles" % q, f.loc(), "")
    facts[q] = n


def fields(m, c):
    return {x["n"] for b in [c] + list(m.bases(c)) for x in m.classes.get(b, {}).get("fields", [])}


def uses_preconditioner(m, c):
    f = method(m, c, "GetSearchDir")
    if f is None or f.entry is None:
        return False
    E = engine(m, c, ())
    E.trace = []
    E.run(f, {}, {})
    return any(x[0] == "PreConditioner" and x[1] == "gf1" for x in E.trace)


def run(m, ctx):
    import runs
    ctx.rule("coefficient", "for each enumerator of RCGmethod, on every path of UpdateData that does not restart, sigma equals the formula of the method")
    ctx.rule("restart", "sigma is 0 on exactly the paths on which |<gf2, T gf1>| > 0.1 <gf1, gf1> was found")
    ctx.rule("combine", "the new direction is -P gf2 + sigma T eta1, and the preconditioned gradient is kept for the next iteration")
    ctx.rule("descent", "GetSearchDir leaves minus the gradient, or a direction that was found to be a descent direction on the path taken")
    ctx.rule("start", "for each enumerator of InitSteptype, on every path the initial step size is the prescribed one after the two safeguards")
    ctx.rule("history", "a round of the main loop leaves the value, the slope, the point and the gradient it started from where InitialStepSize reads them")
    ctx.rule("newton", "one round of the inner iteration is a conjugate gradient step for the Newton equation, and what is returned fits the status")
    ctx.rule("fixture", "the rules report each wrong function of the fixture and none of the right ones")
    add = lambda ok, r, key, w, msg: ctx.check(ok, r, key, w, msg)
    facts, seen = {}, set()

    def once(c, name, judge, *a):
        f = method(m, c, name)
        if f is not None and f.usr not in seen:
            seen.add(f.usr)
            judge(m, c, add, facts, *a)
    for c in sorted(c for c in runs.solver_classes(m) if NS + "SolversSMLS" in m.bases(c)):
        fs = fields(m, c)
        if "RCGmethod" in fs:
            once(c, "UpdateData", judge_cg)
            once(c, "GetSearchDir", judge_descent, False)
        elif uses_preconditioner(m, c):
            once(c, "GetSearchDir", judge_descent, True)
        once(c, "InitialStepSize", judge_start)
        once(c, "Run", judge_history)
        once(c, "tCG_LS", judge_newton)
    ctx.facts["functions"] = facts
    ctx.assume.append("Exact arithmetic; values are compared at a pseudo-random point of a field of 2^61-1 elements; transport along the step is linear and isometric, the Hessian and the preconditioner linear and self-adjoint; Pgf1 is the preconditioned gradient at the start of an update (kept by the rule combine). The Hager-Zhang coefficient is compared for the identity preconditioner only.")
    fx = m.fixture
    J = {"Cg": judge_cg, "Dir": lambda *a: judge_descent(*a, False), "Start": judge_start, "Newton": judge_newton, "History": judge_history}
    for n in sorted(x for x in fx.classes if any(x.split("::")[-1].startswith(k + g) for k in J for g in ("Good", "Bad"))):
        b, got = short(n), set()
        k = [k for k in J if b.startswith(k)][0]
        J[k](fx, n, lambda ok, r, key, w, msg: got.add(r) if not ok else None, {})
        want = {r for r in ("coefficient", "restart", "combine", "descent", "start", "history", "newton") if b.startswith(k + "Bad" + r.capitalize())}
        ctx.check(want <= got if want else not got, "fixture", n, "sa/fixtures/steps.cpp", "fixture %s: reported %s, expected %s" % (n, sorted(got), sorted(want)))
