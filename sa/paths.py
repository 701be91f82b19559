"""Exploration of the paths of a function under assumptions on its elementary conditions (three-valued, no numbers).

An Explorer follows every path of a control-flow graph whose branch conditions are not refuted. `atom(f, node, store)` gives the
truth value assumed for an elementary condition (None: both outcomes are followed). Boolean locals are tracked along the path, and
functions that only return a truth value are entered."""
from model import NS, AnalysisBroken
from util import *
from walk import last_cond

ANY = (True, False)


def is_bool(t):
    return t.replace("const", "").replace("&", "").strip() in ("bool", "_Bool")


def tnot(v):
    return None if v is None else not v


class Explorer:
    def __init__(self, m, cls, atom, depth=4):
        self.m, self.cls, self.atom, self.depth = m, cls, atom, depth
        MODEL[0] = m
        self.memo = {}
        self.branches = 0

    # ---- truth values
    def ev(self, f, i, st, d=0):
        i = strip(f, i)
        if i is None or i < 0 or d > 40:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return self.ev(f, n["c"][0], st, d + 1) if n.get("c") else None
        if k == "CXXBoolLiteralExpr":
            return str(n.get("v")).lower() in ("1", "true")
        if k == "IntegerLiteral":
            return int(n["v"]) != 0
        if k == "UnaryOperator" and n["op"] == "!":
            return tnot(self.ev(f, n["c"][0], st, d + 1))
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            a, b = self.ev(f, n["c"][0], st, d + 1), self.ev(f, n["c"][1], st, d + 1)
            s = n["op"] == "||"
            return s if a is s or b is s else (None if a is None or b is None else not s)
        v = self.atom(f, i, st)
        if v is not None:
            return v
        if k == "BinaryOperator" and n["op"] == ",":
            return self.ev(f, n["c"][1], st, d + 1)
        if k == "BinaryOperator" and n["op"] == "=":
            return self.ev(f, n["c"][1], st, d + 1)
        if k == "BinaryOperator" and n["op"] in ("&", "|") :
            a, b = self.ev(f, n["c"][0], st, d + 1), self.ev(f, n["c"][1], st, d + 1)
            s = n["op"] == "|"
            return s if a is s or b is s else (None if a is None or b is None else not s)
        if k == "BinaryOperator" and n["op"] in ("==", "!="):
            ts = [f.nodes[strip(f, c)].get("t", "") for c in n["c"]]
            if all(is_bool(t) for t in ts):
                a, b = (self.ev(f, c, st, d + 1) for c in n["c"])
                return None if a is None or b is None else (a == b) == (n["op"] == "==")
            return None
        if k == "ConditionalOperator":
            c = self.ev(f, n["c"][0], st, d + 1)
            if c is not None:
                return self.ev(f, n["c"][1 if c else 2], st, d + 1)
            a, b = self.ev(f, n["c"][1], st, d + 1), self.ev(f, n["c"][2], st, d + 1)
            return a if a == b else None
        if k == "DeclRefExpr":
            s = dict(st)
            if n["d"] in s:
                return s[n["d"]]
            if n["d"] in once_inits(f) and is_bool(n.get("t", "")):
                return self.ev(f, once_inits(f)[n["d"]], st, d + 1)
            return None
        if k in ("CallExpr", "CXXMemberCallExpr") and is_bool(n.get("t", "")):
            g = self.callee(n)
            if g is not None:
                r = self.returns(g)
                return True if r == {True} else False if r == {False} else None
        return None

    def callee(self, n):
        u = n.get("usr")
        g = (self.m.resolve(u, self.cls) if n["k"] == "CXXMemberCallExpr" and n.get("virt") else None) or self.m.fns.get(u)
        return g if g is not None and g.entry is not None else None

    def returns(self, g):
        """Truth values function g may return."""
        if g.usr in self.memo:
            return self.memo[g.usr]
        self.memo[g.usr] = {True, False}
        if self.depth <= 0:
            return {True, False}
        self.depth -= 1
        out = set()

        def at(f, x, st):
            n = f.nodes[x]
            if n["k"] == "ReturnStmt" and n.get("c"):
                v = self.ev(f, n["c"][0], st)
                out.update(ANY if v is None else (v,))
        self.walk(g, g.entry, frozenset(), at)
        self.depth += 1
        self.memo[g.usr] = out
        return out

    # ---- paths
    def effect(self, f, x, st):
        """Store after the evaluation of node x."""
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if is_bool(v["t"]):
                    st = self.put(st, v["d"], self.ev(f, v["i"], st) if v.get("i", -1) is not None and v.get("i", -1) >= 0 else None)
        elif n["k"] == "BinaryOperator" and n["op"] == "=" or n["k"] == "CompoundAssignOperator":
            l = f.nodes[strip(f, n["c"][0])]
            if l["k"] == "DeclRefExpr" and is_bool(l.get("t", "")):
                v = self.ev(f, n["c"][1], st)
                o = dict(st).get(l["d"])
                if n["op"] == "|=":
                    v = True if v or o else (None if v is None or o is None else False)
                elif n["op"] == "&=":
                    v = False if v is False or o is False else (None if v is None or o is None else True)
                elif n["op"] != "=":
                    v = None
                st = self.put(st, l["d"], v)
        return st

    @staticmethod
    def put(st, d, v):
        st = frozenset(x for x in st if x[0] != d)
        return st | {(d, v)} if v is not None else st

    def succ(self, f, b, st):
        """[(successor, store)] that are not refuted."""
        o = f.blocks[b]
        ss = o["succ"]
        term = f.nodes[o["term"]]["k"] if isinstance(o.get("term"), int) and o["term"] >= 0 else ""
        out = []
        if len(ss) == 2 and o.get("cond") is not None and term != "SwitchStmt":
            c = last_cond(f, o)
            v = self.ev(f, c, st)
            self.branches += 1
            for j, t in enumerate(ss):
                if t is None or t < 0 or v is not None and v != (j == 0):
                    continue
                s2 = st
                x = strip(f, c)
                neg = j != 0
                while f.nodes[x]["k"] == "ParenExpr" or f.nodes[x]["k"] == "UnaryOperator" and f.nodes[x]["op"] == "!":
                    neg ^= f.nodes[x]["k"] == "UnaryOperator"
                    x = strip(f, f.nodes[x]["c"][0])
                if f.nodes[x]["k"] == "DeclRefExpr" and is_bool(f.nodes[x].get("t", "")):
                    s2 = self.put(st, f.nodes[x]["d"], not neg)
                out.append((t, s2))
            return out
        if term == "SwitchStmt" and o.get("cond") is not None:
            self.branches += 1
            sure, may, other = [], [], []
            for t in ss:
                if t is None or t < 0:
                    continue
                l = f.blocks[t].get("label")
                l = f.nodes[l] if isinstance(l, int) else None
                if l is None or l["k"] != "CaseStmt":
                    other.append((t, st))
                    continue
                v = self.ev(f, equality(f, o["cond"], l["val"]), st)
                (sure if v else may if v is None else []).append((t, st))
            return sure or may + other
        return [(t, st) for t in ss if t is not None and t >= 0]

    def walk(self, f, b, st, at=None, stop=None, edge=None, start=0):
        """Visit every state reachable from the `start`-th statement of block b. at(f, node, store) is called per node; stop(f, node)
        ends a path; edge(b, s) sees every edge taken."""
        seen = set()
        work = [(b, st, start)]
        while work:
            b, st, k0 = work.pop()
            if (b, st, k0) in seen:
                continue
            seen.add((b, st, k0))
            dead = False
            for x in f.blocks[b]["s"][k0:]:
                if not isinstance(x, int):
                    continue
                if at:
                    at(f, x, st)
                if stop and stop(f, x):
                    dead = True
                    break
                st = self.effect(f, x, st)
            if dead:
                continue
            for t, s2 in self.succ(f, b, st):
                if edge:
                    edge(b, t)
                work.append((t, s2, 0))
        return len(seen)


def equality(f, a, b):
    """Node that stands for `a == b` (made for the labels of a switch)."""
    memo = f.__dict__.setdefault("_eqs", {})
    if (a, b) not in memo:
        f.nodes.append({"k": "BinaryOperator", "op": "==", "c": [a, b], "t": "bool", "l": f.nodes[a].get("l", 0)})
        memo[a, b] = len(f.nodes) - 1
    return memo[a, b]


# ---- rational expressions
class Rat:
    """num / den, polynomials over opaque positive-or-not symbols"""

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else {(): 1}

    def __eq__(self, o):
        from checks.p03_contents import poly_mul
        return poly_mul(self.n, o.d) == poly_mul(o.n, self.d)


MODEL = [None]      # where rat() looks up functions that only return an expression


def formula(n):
    """The function called and the expression it returns, when that is all it does."""
    m = MODEL[0]
    g = m.fns.get(n.get("usr")) if m is not None else None
    if g is None or g.entry is None or n.get("virt"):
        return None, None
    r = [x for x in g.walk() if g.nodes[x]["k"] == "ReturnStmt" and g.nodes[x].get("c")]
    if len(r) != 1 or len([b for b in g.blocks if g.blocks[b]["s"]]) != 1 or any(True for _ in assigns(g)):
        return None, None
    return g, g.nodes[r[0]]["c"][0]


def rat(f, i, name, d=0, env=None):
    """Rational form of an arithmetic expression; name(f, node) gives the symbol of a leaf (None: unknown)."""
    from checks.p03_contents import poly_add, poly_mul
    i = unfold(f, i)
    if i is None or i < 0 or d > 40:
        return None
    n = f.nodes[i]
    k = n["k"]
    if env and k == "DeclRefExpr" and n["d"] in env:
        return env[n["d"]]
    if k in ("CallExpr", "CXXMemberCallExpr") and n.get("fn", "").split("::")[-1] not in ("fabs", "abs"):
        o = n.get("obj", -1)
        if k == "CallExpr" or o is None or o < 0 or f.nodes[strip(f, o)]["k"] == "CXXThisExpr":
            g, e = formula(n)
            if g is not None and len(n["args"]) == len(g.params):
                return rat(g, e, name, d + 1, {p["d"]: rat(f, a, name, d + 1, env) for p, a in zip(g.params, n["args"])})
    if k == "IntegerLiteral":
        v = int(n["v"])
        return Rat({(): v} if v else {})
    if k == "FloatingLiteral":
        from fractions import Fraction
        v = Fraction(str(n["v"]))
        return Rat({(): v} if v else {})
    if k == "UnaryOperator" and n["op"] in ("-", "+"):
        a = rat(f, n["c"][0], name, d + 1, env)
        return None if a is None else a if n["op"] == "+" else Rat(poly_add({}, a.n, -1), a.d)
    if k == "BinaryOperator" and n["op"] in ("+", "-", "*", "/"):
        a, b = rat(f, n["c"][0], name, d + 1, env), rat(f, n["c"][1], name, d + 1, env)
        if a is None or b is None:
            return None
        if n["op"] == "*":
            return Rat(poly_mul(a.n, b.n), poly_mul(a.d, b.d))
        if n["op"] == "/":
            return Rat(poly_mul(a.n, b.d), poly_mul(a.d, b.n))
        if a.d == b.d:
            return Rat(poly_add(a.n, b.n, 1 if n["op"] == "+" else -1), a.d)
        return Rat(poly_add(poly_mul(a.n, b.d), poly_mul(b.n, a.d), 1 if n["op"] == "+" else -1), poly_mul(a.d, b.d))
    if k == "CallExpr" and n.get("fn", "").split("::")[-1] in ("fabs", "abs") and len(n["args"]) == 1:
        a = rat(f, n["args"][0], name, d + 1, env)
        return None if a is None else Rat(absolute(a.n), absolute(a.d))
    s = name(f, i)
    return None if s is None else Rat({(s,): 1})


def absolute(p):
    """|p|: p itself when all its terms are non-negative, else an opaque symbol (the same for p and -p)."""
    from checks.p03_contents import poly_add
    if all(v > 0 and all(str(t).startswith("|") for t in k) for k, v in p.items()):
        return p
    q = poly_add({}, p, -1)
    if all(v > 0 and all(str(t).startswith("|") for t in k) for k, v in q.items()):
        return q
    a, b = (tuple(sorted((k, str(v)) for k, v in x.items())) for x in (p, q))
    return {("|" + str(min(a, b)),): 1}


def comparison(f, i, name):
    """(polynomial key, strict): the condition node i as `p > 0` (strict) or `p >= 0`, denominators taken positive; None if not one."""
    from checks.p03_contents import poly_add, poly_mul
    i = unfold(f, i)
    n = f.nodes[i]
    if n["k"] != "BinaryOperator" or n["op"] not in ("<", ">", "<=", ">="):
        return None
    a, b = rat(f, n["c"][0], name), rat(f, n["c"][1], name)
    if a is None or b is None:
        return None
    if n["op"] in ("<", "<="):
        a, b = b, a
    p = poly_add(poly_mul(a.n, b.d), poly_mul(b.n, a.d), -1)
    return p, n["op"] in ("<", ">")


def pkey(p):
    return tuple(sorted((k, str(v)) for k, v in p.items()))
