"""A line search that reports success has found a step that satisfies its conditions, and delivers the data of that step."""
from fractions import Fraction
from model import NS, AnalysisBroken
from util import *
from paths import Rat, absolute, is_bool, tnot
from walk import last_cond
from checks.p20_limits import reaches, trial, local
from checks.p03_contents import poly_add, poly_mul

FIXTURES = ("search.cpp",)
MINIMUM = {"decrease": 4, "curvature": 2, "delivered": 5, "gradient": 4, "fixture": 8}
SOLVERS = NS + "Solvers::"
TRACK = ("f2", "stepsize", "newslope", "LSstatus", "f1", "initialslope")
GOES_ON = {"LSSM_SUCCESS": "full", "LSNSM_SUCCESS": "full", "LSPG_SUCCESS": "full", "LSNSM_MAXSTEPSIZE": "data"}


def short(q):
    return q.split("::")[-1]


def slope(f, x):
    n = f.nodes[x]
    return n["k"] == "CXXMemberCallExpr" and n.get("fn", "") == NS + "Problem::Grad" and is_this_member(f, n["args"][0]) == SOLVERS + "x2"


def normal(p):
    """polynomial up to a positive factor and its sign: (key, +1 / -1)"""
    items = sorted((k, v) for k, v in p.items() if v)
    if not items:
        return (), 1
    c = abs(Fraction(items[0][1]))
    a = tuple((k, str(Fraction(v) / c)) for k, v in items)
    b = tuple((k, str(-Fraction(v) / c)) for k, v in items)
    return (a, 1) if a <= b else (b, -1)


def mentions(key, sym):
    return any(s == sym or s.startswith("|") and "'%s'" % sym in s for k, v in key for s in k)


class Overflow(AnalysisBroken):
    pass


class Search:
    """All paths of a line search, as sets of facts on comparisons of the values they compare."""

    def __init__(self, m, top, cls):
        self.m, self.top, self.cls = m, top, cls
        self.memo, self.stack, self.states = {}, [], 0
        self.kinds = {}
        self.lean = False
        self.fns = set()

    # ---- classification of calls
    def callee(self, n):
        u = n.get("usr")
        g = (self.m.resolve(u, self.cls) if n["k"] == "CXXMemberCallExpr" and n.get("virt") else None) or self.m.fns.get(u)
        return g if g is not None and g.entry is not None else None

    def kind(self, f, x):
        """'value' / 'slope': evaluates the objective / the slope at the trial point; 'enter': looked into; None"""
        n = f.nodes[x]
        if n["k"] not in ("CXXMemberCallExpr", "CallExpr"):
            return None
        if trial(f, x):
            return "value"
        if slope(f, x):
            return "grad"
        g = self.callee(n)
        if g is None or not local(g):
            return None
        k = self.kinds.get(g.usr)
        if k is None:
            tr, sl = reaches(self.m, g, trial, self.cls), reaches(self.m, g, slope, self.cls)
            wr = self.writes(g)
            if tr and not wr & {"f2", "LSstatus", "stepsize"} and g.ret in ("double", "realdp", "float"):
                k = "value"
            elif sl and not tr and not wr & {"f2", "LSstatus", "stepsize"}:
                k = "slope"
            elif wr & set(TRACK) or is_bool(n.get("t", "")) or n.get("t", "") in ("double", "realdp", "float"):
                k = "enter"
            else:
                k = "none"
            self.kinds[g.usr] = k
        return None if k == "none" else k

    def writes(self, g, seen=None):
        seen = seen if seen is not None else set()
        if g.usr in seen:
            return set()
        seen.add(g.usr)
        out = {short(is_this_member(g, l)) for x, l, r, op in assigns(g) if is_this_member(g, l)}
        for x in g.walk():
            n = g.nodes[x]
            if n["k"] in ("CXXMemberCallExpr", "CallExpr"):
                h = self.callee(n)
                if h is not None and local(h):
                    out |= self.writes(h, seen)
        return out

    # ---- values
    def sym(self, f, i):
        n = f.nodes[i]
        if n["k"] == "MemberExpr" and is_this_member(f, i):
            return short(n["m"])
        if n["k"] == "DeclRefExpr" and n["d"][0] in "LP":
            return f.usr + ":" + n["d"]
        return None

    def rat(self, f, i, st, env, d=0):
        i = strip(f, i)
        if i is None or i < 0 or d > 40:
            return None
        n = f.nodes[i]
        k = n["k"]
        R = lambda x: self.rat(f, x, st, env, d + 1)
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return R(n["c"][0])
        if k in ("IntegerLiteral", "FloatingLiteral"):
            v = Fraction(str(n["v"]))
            return Rat({(): v} if v else {})
        if k == "UnaryOperator" and n["op"] in ("-", "+"):
            a = R(n["c"][0])
            return None if a is None else a if n["op"] == "+" else Rat(poly_add({}, a.n, -1), a.d)
        if k == "BinaryOperator" and n["op"] == "=":
            return R(n["c"][0])
        if k == "BinaryOperator" and n["op"] in ("+", "-", "*", "/"):
            a, b = R(n["c"][0]), R(n["c"][1])
            if a is None or b is None:
                return None
            if n["op"] == "*":
                return Rat(poly_mul(a.n, b.n), poly_mul(a.d, b.d))
            if n["op"] == "/":
                return Rat(poly_mul(a.n, b.d), poly_mul(a.d, b.n))
            return Rat(poly_add(poly_mul(a.n, b.d), poly_mul(b.n, a.d), 1 if n["op"] == "+" else -1), poly_mul(a.d, b.d))
        if k == "CallExpr" and n.get("fn", "").split("::")[-1] in ("fabs", "abs") and len(n["args"]) == 1:
            a = R(n["args"][0])
            if a is not None and a.d == {(): 1} and list(a.n) == [("initialslope",)]:
                return Rat({("initialslope",): -abs(a.n[("initialslope",)])})        # a descent direction
            return None if a is None else Rat(absolute(a.n), absolute(a.d))
        if k in ("CallExpr", "CXXMemberCallExpr"):
            q = self.kind(f, i)
            if q == "value":
                return Rat({("f2",): 1})
            if q == "slope":
                return Rat({("newslope",): 1})
            v = st.get(("rv", f.usr, i))
            return v
        if k == "DeclRefExpr" and n["d"] in env:
            return env[n["d"]]
        s = self.sym(f, i)
        if s is None:
            return None
        v = st.get(("def", s))
        return v if v is not None else Rat({(s,): 1})

    # ---- facts
    def drop(self, st, s):
        """The value called s changes."""
        out = {}
        for k, v in st.items():
            if k[0] in ("cmp", "eq") and mentions(k[1], s):
                continue
            if k[0] in ("def", "rv") and isinstance(v, Rat) and (k == ("def", s) or any(mentions([(t, 1)], s) for p in (v.n, v.d) for t in p)):
                continue
            if k[0] in ("bool", "enum") and k[1] == s:
                continue
            out[k] = v
        if s == "stepsize":
            for k in (("x",), ("f",), ("s",)):
                out.pop(k, None)
            out[("eq", normal({("initiallength",): Fraction(1), ("stepsize",): Fraction(-1)})[0])] = False
        if s == "f2":
            out.pop(("f",), None)
        if s == "newslope":
            out.pop(("s",), None)
        return out

    @staticmethod
    def rename(old, st, u, s):
        """What is known of u holds for s, to which it was assigned"""
        for k, v in old.items():
            if k[0] in ("cmp", "eq") and mentions(k[1], u) and not mentions(k[1], s):
                q, sg = normal({tuple(sorted(s if t == u else t.replace("'%s'" % u, "'%s'" % s) for t in mono)): Fraction(c) for mono, c in k[1]})
                st[(k[0], q)] = v if sg > 0 or k[0] == "eq" else not v

    def learn(self, st, key, v):
        """st with the fact, or None when it contradicts the facts known"""
        if st.get(key) is not None:
            return st if st[key] == v else None
        if self.lean and key[0] in ("cmp", "eq") and any(":" in t for k, c in key[1] for t in k):
            return st
        st = dict(st)
        st[key] = v
        sm, s1 = normal({("stepsize",): Fraction(1), ("Minstepsize",): Fraction(-1)})
        lg, s2 = normal({("stepsize",): Fraction(1), ("Maxstepsize",): Fraction(-1)})
        more = []
        if key[1] == sm and (key[0] == "cmp" and v == (s1 < 0) or key[0] == "eq" and v):
            more += [(("cmp", lg), s2 < 0), (("eq", lg), False)]            # at the minimum, so not at the maximum
        if key == ("eq", lg) and v:
            more += [(("cmp", lg), True)] if s2 > 0 else []
        if key == ("cmp", lg) and v == (s2 > 0):
            more += [(("cmp", sm), s1 > 0), (("eq", sm), False)]
        for k, w in more:
            if st.get(k) is not None and st[k] != w:
                return None
            st[k] = w
        return st

    def split(self, f, i, st, env):
        """[(truth value, facts)] of a condition"""
        i = strip(f, i)
        n = f.nodes[i]
        k = n["k"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return self.split(f, n["c"][0], st, env)
        if k == "CXXBoolLiteralExpr":
            return [(str(n.get("v")).lower() in ("1", "true"), st)]
        if k == "IntegerLiteral":
            return [(int(n["v"]) != 0, st)]
        if k == "UnaryOperator" and n["op"] == "!":
            return [(not v, s) for v, s in self.split(f, n["c"][0], st, env)]
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            out = []
            for v, s in self.split(f, n["c"][0], st, env):
                if v == (n["op"] == "||"):
                    out.append((v, s))
                else:
                    out += self.split(f, n["c"][1], s, env)
            return out
        key = None
        sg = 1
        if k == "BinaryOperator" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            ea = [self.enum(f, x, st) for x in n["c"]]
            if n["op"] in ("==", "!=") and all(ea):
                return [((ea[0] == ea[1]) == (n["op"] == "=="), st)]
            a, b = (self.rat(f, x, st, env) for x in n["c"])
            if a is not None and b is not None:
                p = poly_add(poly_mul(a.n, b.d), poly_mul(b.n, a.d), -1)
                q, sg = normal(p)
                if not q or len(q) == 1 and q[0][0] == ():
                    c = sum(p.values())
                    return [({"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[n["op"]], st)]
                if n["op"] in ("==", "!="):
                    key, sg = ("eq", q), 1 if n["op"] == "==" else -1
                else:
                    key = ("cmp", q)
                    sg = sg if n["op"][0] == ">" else -sg
        elif k == "DeclRefExpr" and is_bool(n.get("t", "")):
            key = ("bool", self.sym(f, i))
        elif k in ("CallExpr", "CXXMemberCallExpr"):
            v = st.get(("ret", f.usr, i))
            if v is not None:
                return [(v, st)]
        if key is None:
            return [(True, st), (False, st)]
        out = []
        for v in (True, False):
            s = self.learn(st, key, v if sg > 0 else not v)
            if s is not None:
                out.append((v, s))
        return out

    def enum(self, f, i, st):
        """name of the enumerator a status has"""
        i = strip(f, i)
        n = f.nodes[i]
        if n["k"] == "DeclRefExpr" and n["d"].startswith("E:"):
            return n["d"].split("::")[-1].split(":")[-1]
        s = self.sym(f, i)
        return st.get(("enum", s)) if s else None

    # ---- execution
    def step(self, f, x, st, env):
        """[facts] after node x"""
        n = f.nodes[x]
        k = n["k"]
        if k == "DeclStmt":
            outs = [st]
            for v in n["vars"]:
                i = v.get("i", -1)
                s = f.usr + ":" + v["d"]
                nxt = []
                for o in outs:
                    o = self.drop(o, s)
                    if i is not None and i >= 0:
                        nxt += self.store(f, s, i, o, env, v["t"])
                    else:
                        nxt.append(o)
                outs = nxt
            return outs
        if k == "BinaryOperator" and n["op"] == "=":
            s = self.sym(f, strip(f, n["c"][0]))
            if s is None:
                return [st]
            return self.store(f, s, n["c"][1], st, env, f.nodes[strip(f, n["c"][0])].get("t", ""))
        if k == "CompoundAssignOperator" or k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            s = self.sym(f, strip(f, n["c"][0]))
            return [self.drop(st, s)] if s else [st]
        if k in ("CallExpr", "CXXMemberCallExpr"):
            q = self.kind(f, x)
            if q == "value":
                st = self.drop(st, "\0x2")
                st[("x",)] = True
                st.pop(("s",), None)
                st.pop(("g",), None)
                for h in [h for h in st if h[0] == "hold"]:
                    del st[h]
                return [st]
            if q == "grad":
                st = dict(st)
                st[("g",)] = True
                return [st]
            if q == "slope":
                st = self.drop(st, "newslope")
                if st.get(("x",)):
                    st[("s",)] = True
                st[("g",)] = True
                return [st]
            if q == "enter":
                return self.enter(f, x, st, env)
            for a in n.get("ref", ()):
                if a < len(n["args"]) and n["args"][a] is not None and n["args"][a] >= 0:
                    s = self.sym(f, strip(f, n["args"][a]))
                    if s:
                        st = self.drop(st, s)
            for a in n["args"]:
                if a is not None and a >= 0:
                    y = f.nodes[strip(f, a)]
                    if y["k"] == "UnaryOperator" and y["op"] == "&":
                        s = self.sym(f, strip(f, y["c"][0]))
                        if s:
                            st = self.drop(st, s)
        return [st]

    def store(self, f, s, rhs, st, env, t):
        e = self.enum(f, rhs, st)
        if e:
            st = self.drop(st, s)
            st[("enum", s)] = e
            return [st]
        if is_bool(t):
            out = []
            for v, o in self.split(f, rhs, st, env):
                o = self.drop(o, s)
                o[("bool", s)] = v
                out.append(o)
            return out
        r = self.rat(f, rhs, st, env)
        y = strip(f, rhs)
        while f.nodes[y]["k"] in ("ParenExpr", "ExprWithCleanups"):
            y = strip(f, f.nodes[y]["c"][0])
        q = self.kind(f, y)
        fresh_s = st.get(("s",))
        if s == "stepsize" and r is not None and r.n == {("stepsize",): 1} and r.d == {(): 1}:
            return [st]
        u = list(r.n)[0][0] if r is not None and q != "value" and r.d == {(): 1} and list(r.n.values()) == [1] and len(list(r.n)[0]) == 1 else None
        old, st = st, self.drop(st, s)
        if u and u != s:
            self.rename(old, st, u, s)
            if s in ("f2", "newslope") and ":" in u:
                st[("def", u)] = Rat({(s,): 1})
        if s == "f2" and st.get(("x",)) and (q == "value" or u and old.get(("hold", u))):
            st[("f",)] = True
        elif ":" in s and (q == "value" or u == "f2" and old.get(("f",))):
            st[("hold", s)] = True
            if q != "value":
                st[("def", s)] = r
        elif s == "newslope" and q == "slope" and fresh_s:
            st[("s",)] = True
        elif q == "value":          # kept in another place: an opaque value
            return [st]
        elif ":" in s and r is not None and not any(mentions([(t, 1)], s) for p in (r.n, r.d) for t in p):
            st[("def", s)] = r
        return [st]

    def enter(self, f, x, st, env):
        n = f.nodes[x]
        g = self.callee(n)
        if g.usr in self.stack or len(self.stack) > 6:
            for s in TRACK:
                st = self.drop(st, s)
            return [st]
        e2 = {}
        keep = {s.split("::")[-1] for s in ()}
        for p, a in zip(g.params, n["args"]):
            if a is not None and a >= 0 and not any(True for y, l, r, op in assigns(g) if g.nodes[strip(g, l)].get("d") == p["d"]) and not (self.writes(g) & set(TRACK)):
                r = self.rat(f, a, st, env)
                if r is not None:
                    e2[p["d"]] = r
        inner = {k: v for k, v in st.items() if not (k[0] in ("bool", "enum", "def") and str(k[1]).startswith(g.usr + ":"))}
        out = []
        for o, tv, rv in self.run(g, inner, e2):
            o = {k: v for k, v in o.items() if not (len(k) > 1 and isinstance(k[1], str) and k[1].startswith(g.usr))}
            if tv is not None:
                o[("ret", f.usr, x)] = tv
            if rv is not None and not any(str(t).startswith(g.usr) for p in (rv.n, rv.d) for m in p for t in m):
                o[("rv", f.usr, x)] = rv
            out.append(o)
        return out

    def run(self, f, st, env):
        """[(facts, truth value returned, number returned)] at the ends of f"""
        key = (f.usr, self.freeze(st), tuple(sorted((k, str(sorted(map(str, v.n.items())))) for k, v in env.items())))
        if key in self.memo:
            return self.memo[key]
        self.fns.add(f)
        self.stack.append(f.usr)
        ends, seen = {}, set()
        work = [(f.entry, st)]
        while work:
            b, st = work.pop()
            fz = (b, self.freeze(st))
            if fz in seen:
                continue
            seen.add(fz)
            self.states += 1
            if self.states > (250000 if self.lean else 50000):
                raise Overflow(self.top.qual())
            states = [st]
            for x in f.blocks[b]["s"]:
                if not isinstance(x, int):
                    continue
                n = f.nodes[x]
                if n["k"] == "ReturnStmt":
                    for s in states:
                        if n.get("c"):
                            t = f.nodes[strip(f, n["c"][0])].get("t", "")
                            if is_bool(t):
                                for v, o in self.split(f, n["c"][0], s, env):
                                    self.end(ends, o, v, None)
                            else:
                                self.end(ends, s, None, self.rat(f, n["c"][0], s, env))
                        else:
                            self.end(ends, s, None, None)
                    states = []
                    break
                states = [o for s in states for o in self.step(f, x, s, env)]
            o = f.blocks[b]
            for s in states:
                if b == f.exit:
                    self.end(ends, s, None, None)
                    continue
                ss = o["succ"]
                term = f.nodes[o["term"]]["k"] if isinstance(o.get("term"), int) and o["term"] >= 0 else ""
                if len(ss) == 2 and o.get("cond") is not None and term != "SwitchStmt":
                    for v, s2 in self.split(f, last_cond(f, o), s, env):
                        t = ss[0 if v else 1]
                        if t is not None and t >= 0:
                            work.append((t, s2))
                else:
                    work += [(t, s) for t in ss if t is not None and t >= 0]
        self.stack.pop()
        r = self.memo[key] = list(ends.values())
        return r

    def end(self, ends, st, tv, rv):
        ends.setdefault((self.freeze(st), tv, str(rv.n) + str(rv.d) if rv is not None else None), (st, tv, rv))

    @staticmethod
    def freeze(st):
        return frozenset((k, v if not isinstance(v, Rat) else str(sorted(map(str, v.n.items()))) + str(sorted(map(str, v.d.items())))) for k, v in st.items())


def reference(m, S, fns=None, given=()):
    """Names of values that are the cost of the current or of an earlier accepted iterate, or the largest of some of these.
    given: the parameters bound to such a value"""
    out = {"f1"} | set(given)
    for f in fns if fns is not None else S.fns:
        decl = {}
        for x in f.walk():
            if f.nodes[x]["k"] == "DeclStmt":
                for v in f.nodes[x]["vars"]:
                    if v.get("i", -1) is not None and v.get("i", -1) >= 0:
                        decl[v["d"]] = v["i"]
        wr = {}
        for x, l, r, op in assigns(f):
            d = f.nodes[strip(f, l)].get("d")
            if d:
                wr.setdefault(d, []).append((r, op))
        for d, i in decl.items():
            if d in wr and starts(m, S, f, i, out) and all(op == "=" and former(f, r, d) for r, op in wr[d]):
                out.add(f.usr + ":" + d)
            elif d not in wr and starts(m, S, f, i, out, deep=True):
                out.add(f.usr + ":" + d)
    return out


def starts(m, S, f, i, out, deep=False):
    i = strip(f, i)
    n = f.nodes[i]
    if is_this_member(f, i) == SOLVERS + "f1" or n["k"] == "DeclRefExpr" and f.usr + ":" + n["d"] in out:
        return True
    if deep and n["k"] in ("CXXMemberCallExpr", "CallExpr"):
        g = S.callee(n)
        if g is not None and local(g) and not reaches(m, g, trial, S.cls):
            rs = [g.nodes[x]["c"][0] for x in g.walk() if g.nodes[x]["k"] == "ReturnStmt" and g.nodes[x].get("c")]
            given = [g.usr + ":" + p["d"] for p, a in zip(g.params, n["args"]) if a is not None and a >= 0 and starts(m, S, f, a, out)]
            ref = reference(m, S, [g], given)
            return bool(rs) and all(is_this_member(g, r) == SOLVERS + "f1" or g.usr + ":" + str(g.nodes[strip(g, r)].get("d")) in ref for r in rs)
    return False


def former(f, r, d):
    """An earlier accepted value (an entry of pre_funs), or the larger of it and the variable"""
    ok = False
    for x in f.walk(r):
        n = f.nodes[x]
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "*" or n["k"] == "MemberExpr" and n["m"].endswith("pre_funs") or n["k"] == "UnaryOperator" and n["op"] == "*":
            ok = True
        if n["k"] in ("FloatingLiteral", "BinaryOperator") and n.get("op") in ("+", "-", "*", "/", None):
            return False
    return ok


def armijo(refs):
    out = set()
    for r in refs:
        p = {(r,): Fraction(1), ("f2",): Fraction(-1), tuple(sorted(("LS_alpha", "stepsize", "initialslope"))): Fraction(1)}
        out.add(normal(p))
    return out


def curvature():
    a = {("newslope",): Fraction(1), tuple(sorted(("LS_beta", "initialslope"))): Fraction(-1)}
    b = {tuple(sorted(("LS_beta", "initialslope"))): Fraction(-1)}
    b = poly_add(b, absolute({("newslope",): 1}), -1)
    c = {("newslope",): Fraction(-1), tuple(sorted(("LS_beta", "initialslope"))): Fraction(-1)}
    return normal(a), normal({k: Fraction(v) for k, v in b.items()}), normal(c)


def holds(st, k):
    v = st.get(("cmp", k[0]))
    return v is not None and v == (k[1] > 0)


def searches(m, classes):
    """Line searches: methods without parameters that set LSstatus to success first and evaluate trial points."""
    out = {}
    for c in classes:
        for b in [c] + list(m.bases(c)):
            for x in m.classes.get(b, {}).get("methods", []):
                f = m.resolve(x["usr"], c)
                if f is None or f.entry is None or f.params or not local(f) or f.short == "Run" or f.usr in out:
                    continue
                sets = {f.nodes[strip(f, r)]["d"].split("::")[-1].split(":")[-1] for y, l, r, op in assigns(f)
                        if op == "=" and (is_this_member(f, l) or "").endswith("::LSstatus") and f.nodes[strip(f, r)]["k"] == "DeclRefExpr"}
                if any(s.endswith("_SUCCESS") for s in sets) and reaches(m, f, trial, c):
                    out[f.usr] = (f, c, sets)
    return out.values()


def explore(m, f, c):
    S = Search(m, f, c)
    try:
        ends = S.run(f, {}, {})
    except Overflow:
        S = Search(m, f, c)
        S.lean = True          # forget comparisons with local variables: more paths, fewer states
        ends = S.run(f, {}, {})
    if not ends:
        raise AnalysisBroken("%s: no path to the end" % f.qual())
    return S, ends


def judge(m, f, c, add):
    S, ends = explore(m, f, c)
    arm = armijo(reference(m, S))
    weak, strong, upper = curvature()
    q = f.qual()
    text = " ".join(g.qual() for g in S.fns)
    wolfe = "Wolfe" in text or any("LS_beta" in g.nodes[x].get("m", "") for g in S.fns for x in g.walk() if g.nodes[x]["k"] == "MemberExpr")
    strict = "StrongWolfe" in f.qual()
    bad = {"decrease": 0, "curvature": 0, "delivered": 0, "status": 0, "gradient": 0}
    gradient = any(st.get(("g",)) for st, tv, rv in ends)
    for st, tv, rv in ends:
        bad["gradient"] += gradient and not st.get(("g",))
        s = st.get(("enum", "LSstatus"))
        if s is None:
            bad["status"] += 1
            continue
        g = GOES_ON.get(s)
        if g is None:
            continue
        if not (st.get(("x",)) and st.get(("f",))):
            bad["delivered"] += 1
        if g == "full":
            if not any(holds(st, k) for k in arm):
                bad["decrease"] += 1
            if wolfe and not (st.get(("s",)) and (holds(st, strong) or holds(st, weak) and (not strict or holds(st, upper)))):
                bad["curvature"] += 1
    add(not bad["status"], "delivered", "%s: status" % q, f.loc(), "on some path the search ends without having set LSstatus")
    add(not bad["delivered"], "delivered", "%s: data" % q, f.loc(), "the search ends with a status that lets the run go on while x2 and f2 are not those of the final stepsize")
    if gradient:
        add(not bad["gradient"], "gradient", "%s: gradient" % q, f.loc(), "on some path the search ends with a gradient gf2 that was not computed at the final x2")
    add(not bad["decrease"], "decrease", "%s: sufficient decrease" % q, f.loc(), "the search reports success on a path on which f2 was not found to satisfy f2 <= f1 + LS_alpha * stepsize * initialslope (or the non-monotone form)")
    if wolfe:
        add(not bad["curvature"], "curvature", "%s: curvature" % q, f.loc(), "the search reports success on a path on which the slope at the final trial point was not found to satisfy the curvature condition")
    return len(ends), S.states


def run(m, ctx):
    import runs
    ctx.rule("decrease", "a line search ends with LSstatus success only on paths on which the sufficient decrease condition was found true for the final f2 and stepsize")
    ctx.rule("curvature", "a Wolfe search ends with success only where the curvature condition was found true for the slope at the final trial point")
    ctx.rule("delivered", "whenever the status lets the run go on, x2 and f2 were computed for the final value of stepsize; the status is always set")
    ctx.rule("gradient", "a search that evaluates the gradient ends on every path with gf2 evaluated at the final x2")
    ctx.rule("fixture", "the rules report each wrong search of the fixture and none of the right ones")
    facts = {}
    for f, c, sets in sorted(searches(m, [c for c in runs.solver_classes(m)]), key=lambda t: t[0].qual()):
        if any(s.endswith("_NONEXACT") for s in sets):
            S, ends = explore(m, f, c)
            ctx.check(all(st.get(("x",)) and st.get(("f",)) for st, tv, rv in ends if st.get(("enum", "LSstatus")) in GOES_ON), "delivered", "%s: data" % f.qual(), f.loc(), "the search ends with success while x2 and f2 are not those of the final stepsize")
            ctx.check(bool(ends) and all(st.get(("g",)) for st, tv, rv in ends), "gradient", "%s: gradient" % f.qual(), f.loc(), "on some path the search ends with a gradient gf2 that was not computed at the final x2")
            facts[f.qual()] = "approximate minimiser along the line: no condition is promised"
            continue
        n, k = judge(m, f, c, lambda ok, r, key, w, msg: ctx.check(ok, r, key, w, msg))
        facts[f.qual()] = "%d ends, %d states" % (n, k)
    ctx.facts["line searches"] = facts
    ctx.need(len(facts) >= 4, "line searches found: %s" % sorted(facts))
    ctx.assume.append("Minstepsize < Maxstepsize; a step size that was assigned again differs from the initial one; a cost that is not a number ends the run (P08); comparisons that differ only at equality are the same.")
    fx = m.fixture
    WANT = {"Decrease": "decrease", "Curvature": "curvature", "Data": "delivered", "Status": "delivered", "Gradient": "gradient"}
    for n in sorted(x for x in fx.classes if x.split("::")[-1].startswith(("SearchGood", "SearchBad"))):
        got = set()
        for f, c, sets in searches(fx, [n]):
            if f.cls.split("::")[-1] == n:
                judge(fx, f, c, lambda ok, r, key, w, msg: got.add(r) if not ok else None)
        want = {v for k, v in WANT.items() if n.split("::")[-1].startswith("SearchBad" + k)}
        ctx.check(want <= got if want else not got, "fixture", n, "sa/fixtures/search.cpp", "fixture %s: reported %s, expected %s" % (n, sorted(got), sorted(want)))
