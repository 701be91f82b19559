"""Runs end where the user's limits say: iteration limits, time limit, stopping criterion."""
from model import NS, AnalysisBroken
from util import *
from walk import last_cond
from paths import Explorer, rat, comparison, pkey, Rat, is_bool
from checks.p11_verbosity import loops_of
import runs

FIXTURES = ("limits.cpp",)
MINIMUM = {"iteration-limit": 4, "minimum-kept": 4, "stop-obeyed": 4, "time-limit": 4, "counted-once": 8, "clock": 3, "criterion": 5, "fixture": 8}
S = NS + "Solvers::"
ITER, MAX, MIN, BOUND, START = S + "iter", S + "Max_Iteration", S + "Min_Iteration", S + "TimeBound", S + "starttime"
# options and state that may keep a run going although its criterion holds (documented: the sampling radius of the bundle must be minimal)
SHRINK = ("Eps", "Min_Eps")
CRIT = {
    "SM_FUN_REL": ("rel", "iter"), "SM_GRAD_F": ("lt", "ngf2", None), "SM_GRAD_F_0": ("lt", "ngf2", "ngf0"),
    "NSM_FUN_REL": ("rel", "iter"), "NSM_DIR_F": ("lt", "ndir1", None), "NSM_DIR_F_0": ("lt", "ndir1", "ndir0"),
}


def member(f, i):
    i = unfold(f, i)
    n = f.nodes[i]
    return n.get("m") if n["k"] == "MemberExpr" else None


def name(f, i):
    """Symbol of a leaf of an arithmetic expression."""
    n = f.nodes[i]
    if n["k"] == "MemberExpr":
        return n["m"].split("::")[-1] if n["m"].startswith(NS) else None
    if n["k"] == "CallExpr" and n.get("fn", "").endswith("getTickCount"):
        return "clock()"
    if n["k"] == "DeclRefExpr" and n["d"].startswith(("P", "L")):
        return n["d"]
    return None


ELAPSED = Rat({("clock()",): 1, ("starttime",): -1}, {(): 1000000})


def affine(f, i, a, b):
    """(s, c) when the comparison node is `s*(a - b) + c > 0` over the integers, else None."""
    c = comparison(f, i, name)
    if c is None:
        return None
    p, strict = dict(c[0]), c[1]
    k = p.pop((), 0)
    s = p.get((a,), 0)
    if s not in (1, -1) or p != {(a,): s, (b,): -s}:
        return None
    return s, k + (0 if strict else 1)


def order(f, i, a, b, ge):
    """Truth of a comparison of members a and b given a >= b (ge) or a < b; None when it is about something else or undecided."""
    n = f.nodes[i]
    if n["k"] == "BinaryOperator" and n["op"] in ("==", "!="):
        if {member(f, x) and member(f, x).split("::")[-1] for x in n["c"]} == {a, b} and not ge:
            return n["op"] == "!="
        return None
    t = affine(f, i, a, b)
    if t is None:
        return None
    s, k = t
    # d = a - b; ge: d in [0, inf); else d in (-inf, -1]
    if s == 1:
        return True if ge and k > 0 else False if not ge and k - 1 <= 0 else None
    return False if ge and k <= 0 else True if not ge and 1 + k > 0 else None


def late(f, i):
    """Is the comparison `time since the start > TimeBound`? (truth value when the time is over) or None"""
    c = comparison(f, i, name)
    if c is None or not any("TimeBound" in k for k in c[0]):
        return None
    n = f.nodes[unfold(f, i)]
    sides = [rat(f, x, name) for x in n["c"]]
    who = [s == ELAPSED for s in sides]
    tb = [s == Rat({("TimeBound",): 1}) for s in sides]
    if not (any(who) and any(tb)):
        return None
    w = who.index(True)
    up = n["op"] in (">", ">=")
    return up if w == 0 else not up


class Assume:
    """Truth values of elementary conditions for one question."""

    def __init__(self, ex_max=None, ex_min=None, stop=None, time=None, shrunk=None, zero=None):
        self.ge_max, self.ge_min, self.stop, self.time, self.shrunk, self.zero = ex_max, ex_min, stop, time, shrunk, zero

    def __call__(self, f, i, st):
        n = f.nodes[i]
        if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("::IsStopped") and self.stop is not None:
            return self.stop
        if n["k"] != "BinaryOperator":
            return None
        if self.ge_max is not None:
            v = order(f, i, "iter", "Max_Iteration", self.ge_max)
            if v is not None:
                return v
        if self.ge_min is not None:
            v = order(f, i, "iter", "Min_Iteration", self.ge_min)
            if v is not None:
                return v
        if self.time is not None:
            v = late(f, i)
            if v is not None:
                return v if self.time else not v
        if self.shrunk:
            c = comparison(f, i, name)
            if c is not None and c[1] and c[0] == {(SHRINK[0],): 1, (SHRINK[1],): -1}:
                return False
            if c is not None and not c[1] and c[0] == {(SHRINK[0],): -1, (SHRINK[1],): 1}:
                return True
        return None


def callee(m, n, cls):
    u = n.get("usr")
    return (m.resolve(u, cls) if n.get("virt") else None) or m.fns.get(u)


def steps_of(m, f, cls):
    """Nodes of f that count an iteration: {node: exactly by one}; calls of functions that do included."""
    out = {}
    for x, l, r, op in assigns(f):
        if is_this_member(f, l) == ITER:
            if op in ("++", "post++") or op == "+=" and f.nodes[unfold(f, r)].get("v") in ("1", 1):
                out[x] = True
            elif op == "=":
                q = rat(f, r, name)
                if q is not None and q == Rat({("iter",): 1, (): 1}):
                    out[x] = True
                elif q is not None and q == Rat({}):
                    continue        # reset
                else:
                    out[x] = False
            else:
                out[x] = False
    return out


def deep_steps(m, f, cls, seen=()):
    out = dict(steps_of(m, f, cls))
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] in ("CXXMemberCallExpr", "CallExpr"):
            g = callee(m, n, cls)
            if g is None or g.entry is None or g.usr in seen or g.usr == f.usr or not local(g):
                continue
            d = deep_steps(m, g, cls, seen + (f.usr,))
            if d:
                out[x] = all(d.values()) and len(d) == 1 and must_pass(g, {block_of(g).get(y) for y in d})
    return out


def reaches(m, f, pred, cls, depth=0, seen=None):
    """Does f, or something it calls, contain a node satisfying pred(f, node)?"""
    seen = seen if seen is not None else set()
    if f.usr in seen or depth > 6:
        return False
    seen.add(f.usr)
    for x in f.walk():
        if pred(f, x):
            return True
        n = f.nodes[x]
        if n["k"] in ("CXXMemberCallExpr", "CallExpr"):
            g = callee(m, n, cls)
            if g is not None and g.entry is not None and local(g) and reaches(m, g, pred, cls, depth + 1, seen):
                return True
    return False


ITERATES = (S + "x1", NS + "AManPG::z1")


def local(g):
    return "Solvers/" in g.file or "sa/fixtures/" in g.file


def moves(f, x):
    n = f.nodes[x]
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
        xs = ([n["obj"]] if "obj" in n else []) + n["args"]
        return is_this_member(f, xs[0]) in ITERATES
    return False


def trial(f, x):
    n = f.nodes[x]
    return n["k"] == "CXXMemberCallExpr" and n.get("fn", "") == NS + "Problem::f"


class Main:
    """The iteration loop of one Run for one class."""

    def __init__(self, m, f, cls):
        self.m, self.f, self.cls = m, f, cls
        self.inc = deep_steps(m, f, cls)
        blk = block_of(f)
        self.at = {}
        for x in self.inc:
            if x in blk:
                self.at[x] = blk[x]
        loops = loops_of(f)
        cand = {h: b for h, b in loops.items() if any(q in b for q in self.at.values())}
        if not cand:
            raise AnalysisBroken("%s: no loop counts iterations" % f.qual())
        self.header = max(cand, key=lambda h: len(cand[h]))
        self.body = cand[self.header]
        self.calls_trial = {}

        self.moves = {}
        for x in f.walk():
            if x in blk and blk[x] in self.body and self.moving(x):
                self.moves[x] = blk[x]

    def moving(self, x):
        """A statement (or a call of a function) that gives the iterate a new value."""
        n = self.f.nodes[x]
        if moves(self.f, x):
            return True
        if n["k"] in ("CXXMemberCallExpr", "CallExpr"):
            g = callee(self.m, n, self.cls)
            if any(is_this_member(self.f, a) in ITERATES for k, a in enumerate(n["args"]) if a is not None and a >= 0 and k in n.get("ref", ())):
                return g is None or g.entry is None or local(g)         # handed to a helper that may exchange it
            return g is not None and g.entry is not None and local(g) and reaches(self.m, g, moves, self.cls)
        return False

    def after(self, x):
        b = self.at[x] if x in self.at else self.moves[x]
        return b, self.f.blocks[b]["s"].index(x) + 1

    def isinc(self, f, x):
        return f is self.f and x in self.at

    def reach_inc(self, assume, start, limit, events=None):
        """Can `limit` counted iterations be done from the start? start: None (entry) or a counting node. Returns the last counting node."""
        ex = Explorer(self.m, self.cls, assume)
        events = events or self.at
        front = [(self.f.entry, 0)] if start is None else [self.after(start)]
        states = {(b, frozenset(), k) for b, k in front}
        for r in range(limit):
            nxt, hit = set(), None
            for b, st, k in states:
                def at(f, x, s):
                    nonlocal hit
                    if x in events:
                        hit = x
                        b2, k2 = self.after(x)
                        nxt.add((b2, s, k2))
                ex.walk(self.f, b, st, at=at, stop=lambda f, x: x in events, start=k)
            if not nxt:
                return None
            states = nxt
        return hit

    def passes(self, assume, store=frozenset()):
        """Can the loop be passed three times (two full cycles) under the assumption?"""
        ex = Explorer(self.m, self.cls, assume)
        states = {store}
        for r in range(2):
            nxt = set()
            for st in states:
                first = [True]

                def visit(b0, st0):
                    # one cycle from the header to the header
                    seen, work = set(), [(b0, st0, True)]
                    while work:
                        b, s, ini = work.pop()
                        if (b, s) in seen and not ini:
                            continue
                        seen.add((b, s))
                        if b == self.header and not ini:
                            nxt.add(s)
                            continue
                        for x in self.f.blocks[b]["s"]:
                            if isinstance(x, int):
                                s = ex.effect(self.f, x, s)
                        for t, s2 in ex.succ(self.f, b, s):
                            if t in self.body:
                                work.append((t, s2, False))
                visit(self.header, st)
            if not nxt:
                return False
            states = nxt
        return True

    def exits(self, assume):
        """Edges that leave the loop, from any state inside it."""
        ex = Explorer(self.m, self.cls, assume)
        out = set()

        def edge(b, t):
            if b in self.body and t not in self.body:
                out.add((b, t))
        ex.walk(self.f, self.f.entry, frozenset(), edge=edge)
        return out

    def uncounted(self):
        """Cycles through the header that count nothing / more than one, as (counts, a block on the way)."""
        ex = Explorer(self.m, self.cls, lambda f, i, st: None)
        seen, work, out = set(), [(self.header, frozenset(), 0, False, False, True)], set()
        while work:
            b, s, n, tr, mv, ini = work.pop()
            if (b, s, n, tr, mv) in seen and not ini:
                continue
            seen.add((b, s, n, tr, mv))
            if b == self.header and not ini:
                out.add((n, tr, mv))
                continue
            for x in self.f.blocks[b]["s"]:
                if not isinstance(x, int):
                    continue
                if x in self.at:
                    n = min(2, n + 1)
                if self.evaluates(x):
                    tr = True
                mv = mv or x in self.moves
                s = ex.effect(self.f, x, s)
            for t, s2 in ex.succ(self.f, b, s):
                if t in self.body:
                    work.append((t, s2, n, tr, mv, False))
        return out

    def evaluates(self, x):
        if x not in self.calls_trial:
            n = self.f.nodes[x]
            r = trial(self.f, x)
            if not r and n["k"] in ("CXXMemberCallExpr", "CallExpr"):
                g = callee(self.m, n, self.cls)
                r = g is not None and g.entry is not None and local(g) and reaches(self.m, g, trial, self.cls)
            self.calls_trial[x] = r
        return self.calls_trial[x]


def last_moves(M):
    """One event per step: the counting nodes of passes that move the iterate are too many or too few, so the moves themselves; of
    several in one pass (x1 = z1; ... z1 = z2) those that no other one follows before the header."""
    f, out = M.f, {}
    for x, b in M.moves.items():
        k = f.blocks[b]["s"].index(x) + 1
        hit, seen, work = False, set(), [(b, k)]
        while work and not hit:
            q, k0 = work.pop()
            if (q, k0) in seen:
                continue
            seen.add((q, k0))
            if any(y in M.moves for y in f.blocks[q]["s"][k0:] if isinstance(y, int)):
                hit = True
                break
            work += [(s, 0) for s in f.blocks[q]["succ"] if s is not None and s in M.body and s != M.header]
        if not hit:
            out[x] = b
    return out


def judge(m, f, cls, ctx, add):
    q = f.qual()
    try:
        M = Main(m, f, cls)
    except AnalysisBroken as e:
        add(False, "counted-once", "%s: iterations" % q, f.loc(), "the loop of this run does not count its iterations")
        return
    where = f.loc(f.blocks[M.header]["cond"] if f.blocks[M.header].get("cond") is not None else None)
    # every iteration counts once
    for x, ok in sorted(M.inc.items()):
        add(ok, "counted-once", "%s: %s" % (q, f.txt(x)[:60]), f.loc(x), "`%s` changes the iteration number by something else than one" % f.txt(x)[:60])
    # which cycles count nothing or twice
    cy = M.uncounted()
    add(not any(n > 1 for n, t, v in cy), "counted-once", "%s: not twice" % q, where, "a pass of the loop counts more than one iteration")
    add(not any(n == 0 and v for n, t, v in cy), "counted-once", "%s: steps" % q, where, "a pass of the loop moves the iterate without counting an iteration")
    from checks.p26_termination import refining
    add(not any(n == 0 and t for n, t, v in cy) or refining(m, f, M.header, M.body, set(M.at.values())) is not None, "counted-once", "%s: trials" % q, where,
        "a pass of the loop evaluates a candidate without counting an iteration, and is not one of boundedly many that refine a parameter")
    # the limits
    h = M.reach_inc(Assume(True, True), None, 1)
    add(h is None, "iteration-limit", "%s: from the start" % q, f.loc(h) if h is not None else where, "an iteration is done although Max_Iteration and Min_Iteration are already reached")
    for x in sorted(M.at):
        h = M.reach_inc(Assume(True, True), x, 1)
        add(h is None, "iteration-limit", "%s: after %s" % (q, f.loc(x).split(":")[-1]), f.loc(h) if h is not None else where,
            "after the iteration counted at %s reached Max_Iteration (and Min_Iteration) another one is done" % f.loc(x))
    a, b = M.exits(Assume(False, False, stop=True)), M.exits(Assume(False, False, stop=False))
    d = sorted(a - b)
    add(not d, "minimum-kept", "%s: criterion" % q, f.loc(last_cond(f, f.blocks[d[0][0]])) if d and f.blocks[d[0][0]].get("cond") is not None else where,
        "the loop is left when the stopping criterion holds although fewer than Min_Iteration iterations were done")
    a2 = M.exits(Assume(False, False, time=True))
    b2 = M.exits(Assume(False, False, time=False))
    d = sorted(a2 - b2)
    add(not d, "minimum-kept", "%s: time" % q, f.loc(last_cond(f, f.blocks[d[0][0]])) if d and f.blocks[d[0][0]].get("cond") is not None else where,
        "the loop is left when the time is over although fewer than Min_Iteration iterations were done")
    # the criterion ends the run; a step that was not taken leaves the criterion as it was
    mk = lambda: Assume(False, True, stop=True, shrunk=True)
    what = "the stopping criterion holds and Min_Iteration is reached, but the run goes on for more than one further step"
    ends = last_moves(M) if M.moves else M.at
    h = M.reach_inc(mk(), None, 2)
    add(h is None, "stop-obeyed", "%s: from the start" % q, f.loc(h) if h is not None else where, what)
    for x in sorted(ends):
        h = M.reach_inc(mk(), x, 2, ends)
        add(h is None, "stop-obeyed", "%s: after line %s" % (q, f.loc(x).split(":")[-1]), f.loc(h) if h is not None else where, what)
    mk = lambda: Assume(False, True, time=True)
    what = "the time is over and Min_Iteration is reached, but the run goes on for more than one further iteration"
    for x in [None] + sorted(M.at):
        h = M.reach_inc(mk(), x, 2)
        add(h is None, "time-limit", "%s: %s" % (q, "from the start" if x is None else "after line %s" % f.loc(x).split(":")[-1]), f.loc(h) if h is not None else where, what)
    add(not M.passes(mk()), "time-limit", "%s: every pass" % q, where, "the time is over and Min_Iteration is reached, but the loop is passed again and again")
    # continuing: nothing but the documented reasons
    return M


def clock(m, ctx, add, fns):
    """The start of the run is read from the clock before the loop, and only there."""
    n = 0
    for f in fns:
        for x, l, r, op in assigns(f):
            if is_this_member(f, l) == START:
                n += 1
                ok = op == "=" and rat(f, r, name) is not None and rat(f, r, name) == Rat({("clock()",): 1})
                inl = any(block_of(f).get(x) in b for b in loops_of(f).values())
                add(ok and not inl and f.short == "Run", "clock", "%s: start" % f.qual(), f.loc(x), "the start of the run is not the clock at the beginning of Run: the time limit counts from elsewhere")
    return n


def test_time(m, f, cls, add):
    r = Explorer(m, cls, Assume(time=True)).returns(f)
    add(r == {True}, "time-limit", "%s: stops" % f.qual(), f.loc(), "IsStopped may return false although the time since the start exceeds TimeBound")


def criterion(m, f, cls, add):
    """IsStopped, criterion by criterion, as a truth function of the documented comparisons."""
    enums = set()
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclRefExpr" and n["d"].startswith("E:") and n["d"].split("::")[-1].split(":")[-1] in CRIT:
            enums.add(n["d"].split("::")[-1].split(":")[-1])
    want = {c for c in CRIT if c.startswith("SM_" if "SolversSM" in f.qual() or any("SolversSM" in b for b in m.bases(cls)) else "NSM_")}
    for c in sorted(want):
        keys = expected(c)
        bad = None
        vals = [(a, b) for a in (True, False) for b in ((True, False) if len(keys) > 1 else (None,))]
        for v in vals:
            table = {k: t for k, t in zip(keys, v)}

            def atom(g, i, st):
                n = g.nodes[i]
                if n["k"] == "BinaryOperator" and n["op"] in ("==", "!="):
                    for a, b in (n["c"], n["c"][::-1]):
                        y = g.nodes[unfold(g, b)]
                        if member(g, a) and member(g, a).endswith("::Stop_Criterion") and y["k"] == "DeclRefExpr" and y["d"].startswith("E:"):
                            return (y["d"].split("::")[-1].split(":")[-1] == c) == (n["op"] == "==")
                        if member(g, a) and member(g, a).endswith("::StopPtr"):
                            return n["op"] == "=="
                if n["k"] == "MemberExpr" and n["m"].endswith("::StopPtr"):
                    return False
                if n["k"] != "BinaryOperator":
                    return None
                t = late(g, i)
                if t is not None:
                    return not t
                q = comparison(g, i, name)
                if q is None:
                    return None
                p, strict = q
                neg = {k: -w for k, w in p.items()}
                if set(p) <= {("iter",), ()} and ("iter",) in p:      # integers
                    s, k0 = p[("iter",)], p.get((), 0) + (0 if strict else 1)
                    if s == 1 and k0 == 0:
                        return table.get("iter")
                    if s == -1 and k0 == 1:
                        return tnot(table.get("iter"))
                    return None
                if pkey(p) in table:
                    return table[pkey(p)] if strict else None
                if pkey(neg) in table and not strict:
                    return tnot(table[pkey(neg)])
                return None
            r = Explorer(m, cls, atom).returns(f)
            if r != {all(x for x in v if x is not None)}:
                bad = v
        add(bad is None, "criterion", "%s: %s" % (f.qual(), c), f.loc(), "with Stop_Criterion %s IsStopped does not return exactly `%s`" % (c, {"rel": "|f1 - f2| / (|f1| + 1) < Tolerance after the first iteration"}.get(CRIT[c][0], "%s%s < Tolerance" % (CRIT[c][1], " / " + CRIT[c][2] if CRIT[c][0] == "lt" and CRIT[c][2] else ""))))


def tnot(v):
    return None if v is None else not v


def expected(c):
    from checks.p03_contents import poly_add, poly_mul
    from paths import absolute
    t = CRIT[c]
    tol = {("Tolerance",): 1}
    if t[0] == "rel":
        den = poly_add(absolute({("f1",): 1}), {(): 1})
        num = absolute({("f1",): 1, ("f2",): -1})
        return [pkey(poly_add(poly_mul(tol, den), num, -1)), "iter"]
    a = {(t[1],): 1}
    return [pkey(poly_add(poly_mul(tol, {(t[2],): 1}) if t[2] else tol, a, -1))]


def run_of(m, c):
    for b in [c] + list(m.bases(c)):
        for x in m.classes.get(b, {}).get("methods", []):
            if x["name"] == "Run" and not x["params"]:
                return m.resolve(x["usr"], c)
    return None


def stop_of(m, c):
    for b in [c] + list(m.bases(c)):
        for x in m.classes.get(b, {}).get("methods", []):
            if x["name"] == "IsStopped":
                return m.resolve(x["usr"], c)
    return None


def chain(m, f, cls, pred):
    """f and the base Run functions it calls, in which a node satisfies pred"""
    return reaches(m, f, pred, cls)


def loop_run(m, f, c):
    """The Run that holds the iteration loop: f itself or the base Run it hands over to."""
    seen = set()
    while f is not None and f.usr not in seen:
        seen.add(f.usr)
        if any(steps_of(m, f, c).values()) or any(any(block_of(f).get(x) in b for b in loops_of(f).values()) for x in deep_steps(m, f, c) if m.fns.get(f.nodes[x].get("usr")) is None or m.fns[f.nodes[x]["usr"]].short != "Run"):
            return f
        g = None
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("::Run") and n.get("usr") in m.fns:
                h = m.fns[n["usr"]]
                if deep_steps(m, h, c):
                    g = h
        f = g
    return None


def examine(m, classes, ctx, add):
    done, stops = {}, set()
    for c in classes:
        top = run_of(m, c)
        if top is None:
            raise AnalysisBroken("%s has no Run" % c)
        f = loop_run(m, top, c)
        st = stop_of(m, c)
        if f is None:
            add(False, "counted-once", "%s: iterations" % top.qual(), top.loc(), "no loop of this run counts iterations")
            continue
        k = (f.usr, st.usr if st else None)
        if k not in done:
            done[k] = c
            judge(m, f, c, ctx, add)
            # the clock is read before the loop
            add(reaches(m, top, lambda g, x: g.short == "Run" and g.nodes[x]["k"] == "BinaryOperator" and g.nodes[x]["op"] == "=" and is_this_member(g, g.nodes[x]["c"][0]) == START, c),
                "clock", "%s: read" % top.qual(), top.loc(), "the run does not note when it starts: the time limit has no beginning")
            zero(m, f, c, add)
        if st is not None and st.usr not in stops:
            stops.add(st.usr)
            test_time(m, st, c, add)
            criterion(m, st, c, add)
    return done


def zero(m, f, cls, add):
    """iter = 0 on every path before the loop"""
    M = Main(m, f, cls)
    blk = block_of(f)
    z = set()
    for x, l, r, op in assigns(f):
        if is_this_member(f, l) == ITER and op == "=" and rat(f, r, name) is not None and rat(f, r, name) == Rat({}):
            if blk.get(x) in M.body:
                add(False, "counted-once", "%s: reset" % f.qual(), f.loc(x), "the iteration number is reset inside the loop: Max_Iteration no longer bounds the run")
            else:
                z.add(blk.get(x))
    # every path from the entry to the header passes a reset (in f or in a base Run called before)
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("::Run") and n.get("usr") in m.fns and x in blk:
            g = m.fns[n["usr"]]
            if reaches(m, g, lambda h, y: h.short == "Run" and h.nodes[y]["k"] == "BinaryOperator" and h.nodes[y]["op"] == "=" and is_this_member(h, h.nodes[y]["c"][0]) == ITER, cls):
                z.add(blk[x])
    seen, st, ok = set(), [f.entry], True
    while st:
        b = st.pop()
        if b in seen or b in z:
            continue
        seen.add(b)
        if b == M.header:
            ok = False
            break
        st += [s for s in f.blocks[b]["succ"] if s is not None and s >= 0]
    add(ok, "counted-once", "%s: from zero" % f.qual(), f.loc(), "the iteration number is not set to zero before the loop on every path: a second run starts with the count of the first")


def run(m, ctx):
    ctx.rule("iteration-limit", "once the number of iterations has reached Max_Iteration and Min_Iteration, no path of Run does another iteration")
    ctx.rule("minimum-kept", "while fewer than Min_Iteration iterations were done, neither the stopping criterion nor the time limit makes Run leave its loop")
    ctx.rule("stop-obeyed", "once the stopping criterion holds (and Min_Iteration is reached) at most the iteration under way is finished")
    ctx.rule("time-limit", "once the time since the start of Run exceeds TimeBound (and Min_Iteration is reached) at most the iteration under way is finished, whether or not its step is accepted; IsStopped returns true whatever the criterion")
    ctx.rule("counted-once", "the iteration number starts at zero in every run, and each pass of the loop raises it by one, never by more")
    ctx.rule("clock", "the time of a run counts from the clock read at the beginning of Run and nowhere else")
    ctx.rule("criterion", "for each value of Stop_Criterion, IsStopped returns exactly the documented comparison")
    ctx.rule("fixture", "each fixture run that breaks one limit is reported for it, the correct one is not")
    from runs import solver_classes
    cs = solver_classes(m)
    ctx.need(len(cs) >= 10, "fewer than ten concrete solver classes")

    def add(ok, rule, key, where, msg):
        ctx.check(ok, rule, key, where, msg)
    done = examine(m, cs, ctx, add)
    n = clock(m, ctx, add, [f for f in m.repo_fns(("Solvers/",)) if f.entry is not None])
    ctx.need(n > 0, "nothing reads the clock at the start of a run")
    ctx.facts["iteration loops"] = sorted(m.fns[k[0]].qual() for k in done)
    ctx.assume.append("Min_Iteration <= Max_Iteration, as CheckParams requires.")
    fx = m.fixture
    names = sorted(c for c in fx.classes if c.split("::")[-1].startswith(("LimitGood", "LimitBad")) and c.split("::")[-1] != "LimitBase")
    for c in names:
        got = set()

        def addf(ok, rule, key, where, msg):
            if not ok:
                got.add(rule)
        try:
            examine(fx, [c], ctx, addf)
        except AnalysisBroken:
            got.add("broken")
        short = c.split("::")[-1]
        want = WANT.get(short, set())
        ctx.check(got == want, "fixture", short, "sa/fixtures/limits.cpp", "fixture %s: reported %s, expected %s" % (short, sorted(got), sorted(want)))


WANT = {"LimitBadMax": {"iteration-limit"}, "LimitBadMin": {"minimum-kept"}, "LimitBadStop": {"stop-obeyed", "time-limit"}, "LimitBadTime": {"time-limit"},
        "LimitBadRejected": {"time-limit"}, "LimitBadTwice": {"counted-once", "iteration-limit"}, "LimitBadZero": {"counted-once"}, "LimitBadCriterion": {"criterion"}}
