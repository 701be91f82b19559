"""Quasi-Newton updates satisfy the secant equation, and the limited-memory product is the two-loop recursion of the stored pairs."""
from model import NS, AnalysisBroken
from util import *
from algebra import *
from checks.p11_verbosity import loops_of
from checks.p28_trust import S, gt, t_and, t_or, t_not, method

FIXTURES = ("secant.cpp",)
MINIMUM = {"secant": 5, "formula": 4, "kept": 5, "guard": 6, "pair": 3, "carry": 3, "twoloop": 2, "direction": 3, "fixture": 8}
EPS = rnd("epsilon")
COTANGENT = ("RWRBFGS", "RWBFGS")           # methods that work in the tangent space of the old iterate with the cotangent of the retraction
FAMILY = ("RBroydenFamily", "BroydenFamily")  # methods with a free parameter


def short(c):
    return c.split("::")[-1]


def engine(m, c, A=None):
    E = Paths(m, c, A or Algebra(trivial=("M", "M-")), local=solver_local, opaque=("Phi", "PrintInfo", "PrintGenInfo"))

    E.rounds, E.ends, E.arrivals = {}, {}, {}

    def store(st, p, v):
        inside = [k for k in st if isinstance(k, tuple) and k[0] == "loop" and len(k) == 3]
        if inside:
            for k in inside:
                E.rounds.setdefault(k[1:], set()).add((p, fz(v)))
                st[k + ("done",)] = st.get(k + ("done",), ()) + (p,)
        else:
            st["stores"] = st.get("stores", ()) + ((p, fz(v)),)

    def arrive(f, b, st):
        st["loops"] = st.get("loops", ()) + ((f.usr, b),)
        E.arrivals.setdefault((f.usr, b), []).append(dict(st))

    def head(f, b, w, st, al):
        st = dict(st)
        st["loop", f.usr, b, "from"] = len(E.arrivals[f.usr, b]) - 1
        st["loop", f.usr, b, "head"] = tuple((q, c) for q, c in st.items() if isinstance(q, str) and q.startswith("c:") and isinstance(c, int) and not isinstance(c, bool))
        return st

    def ended(f, b, st):
        E.ends.setdefault((f.usr, b), []).append((f, dict(st)))
    E.on_store, E.on_arrive, E.on_loop, E.on_round = store, arrive, head, ended
    return E


def moves(E, st, bad):
    """{S or Y: the places transported by the loops this path enters}"""
    out = {}
    for h in st.get("loops", ()):
        for p, x in E.rounds.get(h, ()):
            name, idx = p.split("[")[0], p[p.index("[") + 1:-1]
            if name not in ("S", "Y"):
                continue
            if isinstance(x, tuple) and len(x) == 1 and x[0][1] == 1 and x[0][0][0] == ("T",) and x[0][0][1].split("!")[0] == p:
                out.setdefault(name, set()).add(idx)
                if not covers(E, h, p, idx):
                    bad.setdefault("carry", "a loop that transports stored vectors does not go over all of them, and each once")
            else:
                bad.setdefault("carry", "a stored vector becomes something else than its own transport")
    if out.get("S") != out.get("Y"):
        bad.setdefault("carry", "the stored steps and gradient differences are not transported alike")
    return out


def expected(A, c, st, trust):
    """(s, y, transported s, transported y) of the method at the end of an update"""
    g1, g2, e = vec("gf1"), st.get("gf2", vec("gf2")), vec("eta2")
    T = lambda v: A.word(("T",), v)
    if trust:
        s, y = e, vadd((1, A.word(("T-",), g2)), (-1, g1))
        return s, y, s, y
    if short(c).endswith(COTANGENT):
        s, y = e, vadd((1, A.word(("C",), g2)), (-1, g1))
        return s, y, T(s), T(y)
    s, y = T(e), vadd((div(1, rnd("beta")), g2), (-1, T(g1)))
    return s, y, s, y


def covers(E, h, p, idx):
    """does the loop visit every pair of the memory (but the one just stored), once?"""
    ends = E.ends.get(h, [])
    return bool(ends) and all(visits(E, h, p, int(idx), f, st) for f, st in ends)


def visits(E, h, p, x, f, st):
    """one round of the loop: p (with index x) is transported, the counter moves by one, and start and bound are those of the pairs kept"""
    L, C, b = S("LengthSY"), S("Currentlength"), S("beginidx")
    key = ("loop",) + h
    latest = (b, rnd("mod", (rnd("mod", (b + 1) % P, L) + L - 1) % P, L))      # where the pair was put that replaced the oldest
    same = {st.get(("eq", E.sign((c - w) % P)[0])) for q, c in st[key + ("head",)] for w in latest}
    done = st.get(key + ("done",), ()).count(p)
    if done != 1 and not (done == 0 and True in same):
        return False
    a = E.arrivals[h][st[key + ("from",)]]
    cond = f.nodes[strip(f, last_cond(f, f.blocks[h[1]]))] if f.blocks[h[1]].get("cond") is not None else {}
    slack = 1 if cond.get("op") in ("<=", ">=") else 0
    new = [y for y, v in a.get("stores", ()) if y.startswith(("S[", "Y["))]
    n = 0 if a.get("Currentlength") == 0 else C
    fresh = bool(new) and E.known(a, (L - n) % P) is not True   # the new pair has taken the place of the oldest one
    if fresh:
        count, firsts = (L - 1) % P, ((b + 1) % P, rnd("mod", (b + 1) % P, L))
        if True in same or False in same:                       # over all places, but for the one of the new pair
            count, firsts = L, (0,)
    elif done != 1:
        return False
    else:
        count, firsts = n, (0, b)
    for q, c in st[key + ("head",)]:
        start, step = a.get(q), (st.get(q, 0) - c) % P
        if not isinstance(start, int) or step not in (1, P - 1):
            continue
        for sg in (1, -1):
            # the places gone through: sg * c + B, c from start on
            for first in firsts:
                up = step == 1
                low = first if (sg == 1) == up else (first + count - 1) % P
                B = (low - sg * start) % P
                place = (B + sg * c) % P
                if x != place and x != rnd("mod", place, L):
                    continue
                if x == place and first != 0:                   # no way around the end of the arrays
                    continue
                stop = (start + count - slack) % P if up else (start - count + slack) % P
                if count == 0 or E.known(st, (stop - c) % P if up else (c - stop) % P) is True:
                    return True
    return False


def judge_dense(m, c, f, add, facts):
    """the update of a solver that keeps an operator"""
    trust = NS + "SolversSMTR" in m.bases(c) or "Trust" in short(c)
    E = engine(m, c)
    ends = E.run(f, {}, {})
    A = E.A
    ops = {p for l, st, v in ends for p, x in st.items() if isinstance(p, str) and isinstance(x, Op) and not p.startswith("c:")}
    if not ops:
        return False
    if len(ops) > 1:
        raise AnalysisBroken("%s: updates %s" % (f.qual(), sorted(ops)))
    H = ops.pop()
    if trust:                                                  # Run computes Heta2, the operator applied to the step, before the update
        E = engine(m, c)
        ends = E.run(f, {"Heta2": vec("eta2", H)}, {})
    q = "%s for %s" % (f.qual(), short(c))
    bad = {}
    n = {"updated": 0, "kept": 0}
    probe = vec("probe")
    for label, st, v in ends:
        s, y, ts, ty = expected(A, c, st, trust)
        sy, yy, ss = A.inner(s, y), A.inner(y, y), A.inner(s, s)
        sub = any(short(c).endswith(x) for x in ("Sub",))
        if sub:
            up = (div(1, S("lambdaUpper")) - div(sy, yy)) % P
            t = E.known(st, up)
            if t is None:
                bad.setdefault("secant", "an end does not tell whether <s, y> / <y, y> is below 1 / lambdaUpper")
                continue
            if t:
                s = vadd((1, s), (up, y))
                ts, sy, ss = s, A.inner(s, y), A.inner(s, s)
        op = st.get(H)
        op = op if isinstance(op, Op) else as_op(op) if op is not None else Op({(H,): 1})
        if op is None:
            bad.setdefault("secant", "the operator gets a value that is not an update of the old one")
            continue
        flag = st.get("isupdated")
        updated = bool(op.ranks) and fz(A.apply(op, probe)) != fz(A.apply(Op(op.words), probe))
        if flag is not updated:
            bad.setdefault("kept", "isupdated is not set to whether the operator was updated")
        n["updated" if updated else "kept"] += 1
        # the operator the update starts from
        words = dict(op.words)
        old = {(H,): 1} if trust else {("T", H, "T-"): 1}
        scale = words.get((), None) if len(words) == 1 and () in words else None
        start = "old" if words == old else "scaled" if scale is not None else None
        if start is None:
            bad.setdefault("kept", "the update does not start from the transported operator of the iteration before (or a multiple of the identity)")
            continue
        if start == "scaled":
            sc = div(yy, sy) if trust else div(sy, yy)
            if not updated and sub and scale == 1:
                pass
            elif scale != sc and not (sub and scale == div(A.inner(s, y), yy)):
                bad.setdefault("kept", "the first multiple of the identity is not the quotient of <s, y> and <y, y> (the inverse one for a Hessian approximation)")
            elif not trust and E.known(st, sy) is not True:
                bad.setdefault("kept", "the operator is scaled by <s, y> on a path on which <s, y> was not found positive")
        elif not updated and sub:
            bad.setdefault("kept", "an update that is refused does not reset the operator to the identity")
        base = Op(words)
        u, w = (ts, ty) if trust else (ty, ts)           # operator applied to u gives w
        if updated:
            if fz(A.apply(op, u)) != fz(w):
                bad.setdefault("secant", "on a path that updates the operator, %s" % ("B s = y does not hold" if trust else "H y = s does not hold"))
            got = A.apply(op, probe)
            if short(c).endswith(FAMILY):
                Hy = A.apply(base, ty)
                yHy, r, phi = A.inner(ty, Hy), A.inner(ts, ty), rnd("opaque", "Phi")
                u = vadd((div(1, r), ts), (-div(1, yHy), Hy))
                want = vadd((1, A.apply(base, probe)), (-div(A.inner(Hy, probe), yHy), Hy), (div(A.inner(ts, probe), r), ts), (phi * yHy % P * A.inner(u, probe) % P, u))
                if fz(got) != fz(want):
                    bad.setdefault("formula", "the update is not the Broyden family's for the parameter Phi returns")
            else:
                if trust:
                    z = vadd((1, y), (-1, A.apply(base, s)))
                    want = vadd((1, A.apply(base, probe)), (div(A.inner(z, probe), A.inner(s, z)), z))
                else:
                    r = div(1, A.inner(ts, ty))
                    x = vadd((1, probe), (-r * A.inner(ts, probe), ty))
                    x = A.apply(base, x)
                    want = vadd((1, x), (-r * A.inner(ty, x), ts), (r * A.inner(ts, probe), ts))
                if fz(got) != fz(want):
                    bad.setdefault("formula", "the update is not the %s update" % ("symmetric rank-one" if trust else "BFGS"))
        # when it is made
        guard = cautious(E, A, st, sy, ss, sub, trust, s, y, base)
        if guard is not updated:
            bad.setdefault("guard", "the operator is %s on a path on which the curvature condition was not found %s" % (("updated", "true") if updated else ("left alone", "false")))
    for r in ("secant", "formula", "kept", "guard"):
        add(r not in bad, r, q, f.loc(), bad.get(r, ""))
    if trust:
        E2 = engine(m, c)
        g = method(m, c, "Acceptence")
        ok = g is not None and g.entry is not None
        for l, st, v in E2.run(g, {}, {}) if ok else ():
            op = st.get(H)
            ok &= isinstance(op, Op) and fz(E2.A.apply(op, probe)) == fz(E2.A.apply(Op({("T", H, "T-"): 1}), probe))
        add(ok, "carry", q, f.loc(), "the operator is not transported when a candidate is accepted")
    add(n["updated"] > 0 and n["kept"] > 0, "secant", "%s: both" % q, f.loc(), "the operator is never updated, or always: %s" % n)
    facts[q] = dict(n, operator=H, states=E.states)
    return True


def cautious(E, A, st, sy, ss, sub, trust, s, y, base):
    """is the condition for an update known true / false on this path?"""
    r = div(sy, ss)
    if trust:
        z = vadd((1, y), (-1, A.apply(base, s)))
        sz, zz = A.inner(s, z), A.inner(z, z)
        far = t_not(gt(E, st, EPS * ss % P * zz % P, sz * sz % P))
        z2 = t_or(t_not(gt(E, st, EPS, zz)), gt(E, st, num("1e-3"), div(st_(st, "ngf2"), S("ngf0"))))
        return t_and(far, z2)
    if sub:
        g = gt(E, st, r, S("lambdaLower"))
        return g if g is not None else t_not(gt(E, st, S("lambdaLower"), r))
    b = S("nu") * rnd("call", "pow", S("ngf2"), S("mu")) % P
    c1 = t_not(gt(E, st, b, r, b * ss % P, sy))
    close = gt(E, st, num("1e-3"), div(S("ngf2"), S("ngf0")), num("1e-3") * S("ngf0") % P, S("ngf2"))
    big = t_and(gt(E, st, ss, EPS), gt(E, st, sy, EPS))
    return t_and(c1, t_or(close, big))


def st_(st, p):
    return st.get(p, S(p))


def judge_limited(m, c, f, add, facts):
    """the update of a solver that keeps pairs"""
    trust = NS + "SolversSMTR" in m.bases(c) or "Trust" in short(c)
    E = engine(m, c)
    ends = E.run(f, {}, {})
    A = E.A
    if not any("stores" in st for l, st, v in ends):
        return False
    q = "%s for %s" % (f.qual(), short(c))
    bad = {}
    n = {"stored": 0, "refused": 0, "nothing to store in": 0}
    carried = {True: 0, False: 0}
    sub = short(c).endswith("Sub")
    rhos = any("RHO" in p.split("[")[0] for l, st, v in ends for p, x in st.get("stores", ()))
    for label, st, v in ends:
        s, y, _, _ = expected(A, c, st, trust)
        sy, yy = A.inner(s, y), A.inner(y, y)
        if sub:
            up = (div(1, S("lambdaUpper")) - div(sy, yy)) % P
            t = E.known(st, up)
            if t is None:
                bad.setdefault("pair", "an end does not tell whether <s, y> / <y, y> is below 1 / lambdaUpper")
                continue
            if t:
                s = vadd((1, s), (up, y))
                sy = A.inner(s, y)
        ss = A.inner(s, s)
        new = {}
        for p, x in st.get("stores", ()):
            name, idx = p.split("[")[0], p[p.index("[") + 1:-1]
            if name in ("S", "Y", "RHO"):
                new.setdefault(name, []).append((idx, x))
        flag = st.get("isupdated")
        if flag is None or not isinstance(flag, bool):
            bad.setdefault("guard", "isupdated is not set")
            continue
        room = E.known(st, S("LengthSY"))
        if new:
            n["stored"] += 1
            want = {"S": fz(s), "Y": fz(y)}
            if rhos:
                want["RHO"] = div(1, sy)
            at = {i for name in new for i, x in new[name]}
            if set(new) != set(want) or len(at) != 1 or any(len(new[k]) != 1 or new[k][0][1] != want[k] for k in want):
                bad.setdefault("pair", "what is stored is not the pair (s, y)%s of this iteration, at one place" % (" with 1 / <s, y>" if rhos else ""))
        elif flag and room is not False:
            bad.setdefault("pair", "an update is reported on a path that stores no pair although there is room")
        if not flag:
            n["refused"] += 1
        elif not new:
            n["nothing to store in"] += 1
        if new and not flag:
            bad.setdefault("guard", "a pair is stored although the update is reported as refused")
        if not trust:
            if moves(E, st, bad):
                carried[flag] += 1
            elif not (flag and not new) and not (not flag and sub):
                bad.setdefault("carry", "the stored vectors stay in the old tangent space on a path that %s a pair" % ("takes" if flag else "refuses"))
            if flag and st.get("gamma", S("gamma")) != div(sy, yy):
                bad.setdefault("pair", "gamma is not <s, y> / <y, y> after an update")
            if not flag and not sub and st.get("gamma", S("gamma")) != S("gamma"):
                bad.setdefault("pair", "gamma changes although the update is refused")
            b = S("nu") * rnd("call", "pow", S("ngf2"), S("mu")) % P
            if sub:
                g = gt(E, st, div(sy, ss), S("lambdaLower"))
                g = g if g is not None else t_not(gt(E, st, S("lambdaLower"), div(sy, ss)))
            else:
                g = cautious(E, A, st, sy, ss, sub, trust, s, y, None)
            if g is not flag:
                bad.setdefault("guard", "the pair is %s on a path on which the curvature condition was not found %s" % (("taken", "true") if flag else ("refused", "false")))
        if st.get("s") is not None and fz(st["s"]) != fz(s) or st.get("y") is not None and fz(st["y"]) != fz(y):
            bad.setdefault("pair", "s or y is not the step and the gradient difference of this iteration")
    if trust:
        g = method(m, c, "Acceptence")
        E2 = engine(m, c)
        for l, st, v in E2.run(g, {}, {}):
            if moves(E2, st, bad):
                carried[True] += 1
                carried[False] += 1
            else:
                bad.setdefault("carry", "the stored vectors stay in the old tangent space when a candidate is accepted")
    for r in ("pair", "guard", "carry"):
        add(r not in bad, r, q, f.loc(), bad.get(r, ""))
    add(carried[True] > 0, "carry", "%s: always" % q, f.loc(), "the stored vectors are never transported")
    add(n["stored"] > 0 and n["refused"] > 0, "pair", "%s: both" % q, f.loc(), "a pair is never stored, or always: %s" % n)
    facts[q] = dict(n, states=E.states)
    return True


def two_loops(m, c):
    """the functions of the class that go through the stored RHO twice"""
    out = []
    for b in [c] + [x for x in m.bases(c) if x != c]:
        for x in m.classes.get(b, {}).get("methods", []):
            f = m.fns.get(x["usr"])
            if f is None or f.entry is None or f in out or not is_vec(f.ret or ""):
                continue
            ls = loops_of(f)
            use = [h for h, body in ls.items() if any(isinstance(y, int) and any(f.nodes[z].get("m", "").endswith("::RHO") for z in f.walk(y)) for q in body for y in f.blocks[q]["s"])]
            if len(use) == 2:
                out.append((f, use))
    return out


def judge_twoloop(m, c, f, headers, add, facts):
    q = f.qual()
    A = Algebra(trivial=("M", "M-"))
    res = [p for p in f.params if p["t"].rstrip().endswith("*")]
    arg = [p for p in f.params if p["t"].rstrip().endswith("&")]
    if len(res) != 1 or len(arg) != 1:
        raise AnalysisBroken("%s: parameters" % q)
    R, V = f.usr + ":*" + res[0]["d"], f.usr + ":" + arg[0]["d"]
    arrive = {}
    E = Paths(m, c, A, local=solver_local)
    E.on_arrive = lambda g, b, st: arrive.setdefault(b, []).append(dict(st)) if g is f and b in headers else None
    ends = E.run(f, {}, {})
    bad = {}
    Rv = lambda st: st.get(R, vec(R))
    kinds, first, spots = {}, {}, {}
    for h in headers:
        E2 = Paths(m, c, A, local=solver_local)
        E2.stop_at = (f.usr, h)
        st0 = {R: vec("r")}
        rounds = [st for l, st, v in E2.run(f, dict(st0), {}, start=h) if l == "stop"]
        if not rounds:
            bad.setdefault("twoloop", "a loop over the stored pairs never comes round")
            continue
        w = E2.written(f, loops_of(f)[h], {})
        for st in rounds:
            r1 = Rv(st)
            if not isinstance(r1, dict):
                bad.setdefault("twoloop", "a round computes something else")
                continue
            d = vadd((1, r1), (-1, vec("r")))
            if len(d) != 1:
                bad.setdefault("twoloop", "a round changes the vector by %s" % ("nothing" if not d else "more than a multiple of one stored vector"))
                continue
            (word, b), coef = next(iter(d.items()))
            kind = b.split("[")[0]
            if word or kind not in ("S", "Y"):
                bad.setdefault("twoloop", "a round adds a multiple of %s" % b)
                continue
            idx = b[b.index("[") + 1:-1]
            rho = S("RHO[%s]" % idx)
            other = ("S" if kind == "Y" else "Y") + "[%s]" % idx if kind == "Y" else "Y[%s]" % idx
            inner = rho * A.inner(vec(other), vec("r")) % P
            kinds.setdefault(kind, h)
            # the counter, the position it stands for, the place of the coefficient
            cnt = [(p, 1 if (st[p] - S(p)) % P == 1 else -1) for p, t in w.items() if p in st and isinstance(st[p], int) and (st[p] - S(p)) % P in (1, P - 1)]
            pos = None
            for p, step in cnt:
                for off in (0, -1, 1):
                    e = (S(p) + off) % P
                    if int(idx) == rnd("mod", (S("beginidx") + e) % P, S("LengthSY")):
                        pos = (p, step, off, e)
            if pos is None:
                bad.setdefault("twoloop", "the pairs are not visited one after the other, starting from beginidx, modulo LengthSY")
                continue
            p, step, off, e = pos
            starts = [s.get(p) for s in arrive.get(h, [])]
            low, high = t_not(E2.known(st, -e % P)), E2.known(st, (S("Currentlength") - e) % P)
            if e == S(p):
                low = low if low is not None else E2.known(st, (e + 1) % P)
            spots[kind] = (idx, e)
            if kind == "Y":
                if step != -1 or any(not isinstance(x, int) or (x + off - S("Currentlength") + 1) % P for x in starts) or (low is not True and E2.known(st, (e + 1) % P) is not True):
                    bad.setdefault("twoloop", "the first recursion does not go from the newest pair to the oldest")
                if coef != -inner % P:
                    bad.setdefault("twoloop", "the first recursion does not subtract RHO <S, r> Y")
                kept = [k for k, x in st.items() if isinstance(k, str) and k.endswith("]") and x == inner and not k.startswith(("RHO", "S[", "Y["))]
                first["xi"] = kept
            else:
                if step != 1 or any(not isinstance(x, int) or (x + off) % P for x in starts) or high is not True:
                    bad.setdefault("twoloop", "the second recursion does not go from the oldest pair to the newest")
                first["alpha"] = (coef + inner) % P
    if set(kinds) == {"S", "Y"} and not bad:
        ok = False
        for k in first.get("xi", []):
            name, at = k[:k.rindex("[")], int(k[k.rindex("[") + 1:-1])
            how = "index" if at == int(spots["Y"][0]) else "position" if at == spots["Y"][1] else None
            want = spots["S"][0] if how == "index" else spots["S"][1] if how == "position" else None
            ok |= want is not None and first["alpha"] == S("%s[%s]" % (name, want))
        if not ok:
            bad.setdefault("twoloop", "the second recursion does not add (xi - RHO <Y, r>) S with the xi the first one kept for the same pair")
        hY, hS = kinds["Y"], kinds["S"]
        for s in arrive.get(hY, []):
            if fz(Rv(s)) != fz(s.get(V, vec(V))):
                bad.setdefault("twoloop", "the first recursion does not start from the vector given")
        for s in arrive.get(hS, []):
            r = Rv(s)
            if not isinstance(r, dict) or len(r) != 1 or list(r.values())[0] != S("gamma") or not next(iter(r))[1].startswith(R + "@loop%d:" % hY):
                bad.setdefault("twoloop", "the second recursion does not start from gamma times the result of the first")
        if not arrive.get(hS) or not arrive.get(hY):
            bad.setdefault("twoloop", "a recursion is not reached")
        for l, s, v in ends:
            r = Rv(s)
            if not isinstance(r, dict) or len(r) != 1 or list(r.values())[0] != 1 or not next(iter(r))[1].startswith(R + "@loop%d:" % hS):
                bad.setdefault("twoloop", "the result of the second recursion is changed afterwards")
    elif not bad:
        bad["twoloop"] = "the two recursions were not found: %s" % sorted(kinds)
    add(not bad, "twoloop", q, f.loc(), bad.get("twoloop", ""))
    facts[q] = {"loops": len(headers)}


def judge_direction(m, c, add, facts):
    """-H gf1, or -(product with the stored pairs)"""
    f = method(m, c, "GetSearchDir")
    if f is None or f.entry is None:
        return
    hv = {g.short for g, hs in two_loops(m, c)}
    E = Paths(m, c, Algebra(), local=solver_local, opaque=tuple(hv))
    E.products = hv
    ends = E.run(f, {}, {})
    q = "%s for %s" % (f.qual(), short(c))
    ok = bool(ends)
    for l, st, v in ends:
        e = st.get("eta1")
        if not isinstance(e, dict) or len(e) != 1:
            ok = False
            continue
        (w, b), k = next(iter(e.items()))
        ok &= k == P - 1 and b == "gf1" and (w == ("H",) if not hv else len(w) == 1 and w[0] in hv)
    add(ok, "direction", q, f.loc(), "the search direction is not minus the approximation of the inverse Hessian applied to the gradient at the iterate")


def judge_class(m, c, add, facts, seen, directions=True):
    f = method(m, c, "UpdateData")
    if f is None or f.entry is None:
        return
    if f.usr not in seen:
        seen.add(f.usr)
        if not judge_dense(m, c, f, add, facts) and not judge_limited(m, c, f, add, facts):
            return
        seen.add("kind:" + f.usr)
    if "kind:" + f.usr not in seen:
        return
    for g, hs in two_loops(m, c):
        if g.usr not in seen:
            seen.add(g.usr)
            judge_twoloop(m, c, g, hs, add, facts)
    g = method(m, c, "GetSearchDir")
    if g is not None and g.usr not in seen and directions and NS + "SolversSMTR" not in m.bases(c) and NS + "SolversNSM" not in m.bases(c) and "Sub" not in short(c):
        seen.add(g.usr)
        judge_direction(m, c, add, facts)


def run(m, ctx):
    import runs
    ctx.rule("secant", "on every path of an update that changes the operator: applied to y it gives s (trust region: applied to s it gives y), for the s and y the method prescribes; both updating and leaving alone are possible")
    ctx.rule("formula", "the updated operator is the BFGS update (trust region: the symmetric rank-one update) of the operator it starts from, applied to an arbitrary vector; a family with a free parameter is symmetric for every value of the parameter")
    ctx.rule("kept", "the update starts from the transported operator of the iteration before, or from the prescribed multiple of the identity; isupdated says whether it was made")
    ctx.rule("guard", "the update is made on exactly the paths on which the curvature condition of the method was found true")
    ctx.rule("pair", "limited memory: the pair stored is (s, y) with 1 / <s, y>, at one place, and gamma its scaling")
    ctx.rule("carry", "limited memory: all stored vectors are transported to the next tangent space, whether or not a pair was taken")
    ctx.rule("twoloop", "one round of each recursion, its direction, its start and the link between the two are those of the two-loop recursion")
    ctx.rule("direction", "the search direction is minus the operator applied to the gradient")
    ctx.rule("fixture", "the rules report each wrong update of the fixture and none of the right ones")
    add = lambda ok, r, key, w, msg: ctx.check(ok, r, key, w, msg)
    facts, seen = {}, set()
    for c in sorted(runs.solver_classes(m)):
        judge_class(m, c, add, facts, seen)
    ctx.facts["updates"] = facts
    ctx.assume.append("Exact arithmetic; values are compared at a pseudo-random point of a field of 2^61-1 elements; transport along the step is linear and isometric, the operator of the iteration before self-adjoint, the metric bilinear and symmetric, the preconditioner the identity.")
    fx = m.fixture
    for n in sorted(x for x in fx.classes if x.split("::")[-1].startswith(("SecGood", "SecBad"))):
        b, got = n.split("::")[-1], set()
        judge_class(fx, n, lambda ok, r, key, w, msg: got.add(r) if not ok else None, {}, set(), True)
        want = {r for r in ("secant", "formula", "kept", "guard", "pair", "carry", "twoloop", "direction") if b.startswith("SecBad" + r.capitalize())}
        ctx.check(want <= got if want else not got, "fixture", n, "sa/fixtures/secant.cpp", "fixture %s: reported %s, expected %s" % (n, sorted(got), sorted(want)))
