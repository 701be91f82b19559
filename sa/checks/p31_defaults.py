"""A solver that has just been constructed has the documented default parameters, and its own report calls them valid."""
import json, os
from model import NS, AnalysisBroken, VERIF
from util import *

FIXTURES = ("defaults.cpp",)
MINIMUM = {"default": 250, "report": 150, "decided": 150, "fixture": 6}
MAX = 24                       # values kept per variable


class Values:
    """Forward propagation of constants through a member function and the functions it calls on the same object; a variable has the set of
    values it may have, None among them: not known."""

    def __init__(self, m, cls):
        self.m, self.cls = m, cls
        self.fns = set()
        self.prints = []                 # (function, call, variables at the call)

    # ---- expressions
    def ev(self, f, i, env):
        """set of values"""
        i = strip(f, i)
        if i is None or i < 0:
            return frozenset([None])
        n = f.nodes[i]
        k = n["k"]
        unknown = frozenset([None])
        if k in ("ParenExpr", "ExprWithCleanups", "ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr") and n.get("c"):
            vs = self.ev(f, n["c"][0], env)
            t = n.get("t", "")
            if t in ("int", "long", "unsigned int", "unsigned long", "size_t") or t.endswith("integer"):
                return frozenset(int(v) if isinstance(v, (int, float)) and abs(v) < 1e18 else v for v in vs)
            if t == "bool":
                return frozenset(float(bool(v)) if isinstance(v, (int, float)) else v for v in vs)
            return vs
        if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr"):
            return frozenset([float(n["v"])])
        if k == "StringLiteral":
            return frozenset([n["v"]])
        if k == "CXXNullPtrLiteralExpr":
            return frozenset([0.0])
        if k == "DeclRefExpr":
            if "v" in n and isinstance(n["v"], (int, bool)):
                return frozenset([float(n["v"])])
            return env.get(env.get(("alias", n["d"]), n["d"]), unknown)
        if k == "UnaryOperator" and n["op"] == "*":
            return env.get(self.target(f, i, env), unknown)
        if k == "MemberExpr":
            q = is_this_member(f, i)
            return env.get(q.split("::")[-1], unknown) if q else unknown
        if k == "UnaryOperator" and n["op"] in ("-", "!", "+"):
            return self.lift(lambda a: -a if n["op"] == "-" else a if n["op"] == "+" else float(not a), self.ev(f, n["c"][0], env))
        if k == "ConditionalOperator":
            c = self.ev(f, n["c"][0], env)
            out = frozenset()
            if c - {0.0}:
                out |= self.ev(f, n["c"][1], env)
            if c & {0.0, None}:
                out |= self.ev(f, n["c"][2], env)
            return out
        if k == "BinaryOperator":
            op = n["op"]
            if op == "=":
                return self.ev(f, n["c"][1], env)
            a, b = self.ev(f, n["c"][0], env), self.ev(f, n["c"][1], env)
            if op in ("&&", "||"):
                stop = 0.0 if op == "&&" else 1.0
                x = frozenset(None if v is None else float(bool(v)) for v in a)
                y = frozenset(None if v is None else float(bool(v)) for v in b)
                out = frozenset([stop]) if stop in x else frozenset()
                if x - {stop}:
                    out |= y if None not in x else y & {stop} | {None}
                return out
            g = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q if q else None,
                 "<": lambda p, q: float(p < q), ">": lambda p, q: float(p > q), "<=": lambda p, q: float(p <= q), ">=": lambda p, q: float(p >= q),
                 "==": lambda p, q: float(p == q), "!=": lambda p, q: float(p != q)}.get(op)
            if g is None:
                return unknown
            if op == "/" and n.get("t") in ("int", "long"):
                return self.lift(lambda p, q: float(int(p / q)) if q else None, a, b)
            return self.lift(g, a, b)
        if k in ("CallExpr", "CXXMemberCallExpr"):
            s = n.get("fn", "").split("::")[-1]
            if s == "epsilon":
                return frozenset(["eps"])
            if s in ("max", "min") and "numeric_limits" in n.get("fn", ""):
                return frozenset([s + "imum"])
            if s in ("pow", "sqrt", "exp", "fabs", "abs") and k == "CallExpr":
                xs = [self.ev(f, a, env) for a in n["args"]]
                import math
                h = {"pow": lambda p, q: p ** q, "sqrt": math.sqrt, "exp": math.exp, "fabs": abs, "abs": abs}[s]
                try:
                    return self.lift(h, *xs)
                except (ValueError, OverflowError, TypeError):
                    return unknown
            v = env.get(("ret", f.usr, i))
            return v if v is not None else unknown
        return unknown

    EPS = 2.220446049250313e-16

    def lift(self, g, *xs):
        xs = [[self.EPS if v == "eps" else v if isinstance(v, (int, float)) else None for v in x] for x in xs]
        import itertools
        if any(len(x) > MAX for x in xs):
            return frozenset([None])
        out = frozenset(None if any(v is None for v in t) else g(*t) for t in itertools.product(*xs))
        return out if len(out) <= MAX else frozenset([None])

    # ---- statements
    def target(self, f, i, env=None):
        """the variable an expression names: a member, a local, or what a reference or pointer parameter stands for"""
        i = strip(f, i)
        n = f.nodes[i]
        while n["k"] == "ParenExpr":
            i = strip(f, n["c"][0])
            n = f.nodes[i]
        q = is_this_member(f, i)
        if q:
            return q.split("::")[-1]
        if n["k"] == "UnaryOperator" and n["op"] == "*":
            d = f.nodes[strip(f, n["c"][0])]
            return env.get(("alias", d["d"])) if env is not None and d["k"] == "DeclRefExpr" else None
        if n["k"] == "DeclRefExpr":
            return env.get(("alias", n["d"]), n["d"]) if env is not None else n["d"]
        return None

    def step(self, f, x, env, depth):
        n = f.nodes[x]
        k = n["k"]
        if k == "DeclStmt":
            for v in n["vars"]:
                i = v.get("i", -1)
                env[v["d"]] = self.ev(f, i, env) if i is not None and i >= 0 else frozenset([None])
        elif k == "BinaryOperator" and n["op"] == "=":
            t = self.target(f, n["c"][0], env)
            if t:
                env[t] = self.ev(f, n["c"][1], env)
        elif k == "CompoundAssignOperator" or k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            t = self.target(f, n["c"][0], env)
            if t:
                g = {"+=": lambda p, q: p + q, "-=": lambda p, q: p - q, "*=": lambda p, q: p * q, "/=": lambda p, q: p / q if q else None}.get(n["op"])
                env[t] = self.lift(g, env.get(t, frozenset([None])), self.ev(f, n["c"][1], env)) if g else frozenset([None])
        elif k == "CallExpr" and n.get("fn", "").split("::")[-1] == "printf":
            self.prints.append((f, x, env.copy()))
        elif k in ("CXXMemberCallExpr", "CallExpr", "CXXConstructExpr"):
            on_this = k == "CXXMemberCallExpr" and (n.get("obj") if n.get("obj") is not None else -1) >= 0 and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr"
            base = k == "CXXConstructExpr" and f.short == f.cls.split("::")[-1] and n.get("cls") in self.m.bases(f.cls)
            g = None
            if on_this or base or k == "CallExpr":
                g = (self.m.resolve(n["usr"], self.cls) if on_this and n.get("virt") else None) or self.m.fns.get(n.get("usr"))
            if g is not None and g.entry is not None and depth < 9:
                inner = {q: v for q, v in env.items() if isinstance(q, str) and ":" not in q}
                for j, (p, a) in enumerate(zip(g.params, n["args"])):
                    if a is None or a < 0:
                        continue
                    y = f.nodes[strip(f, a)]
                    t = p["t"].rstrip()
                    t = self.target(f, a, env) if t.endswith("&") else self.target(f, y["c"][0], env) if t.endswith("*") and y["k"] == "UnaryOperator" and y["op"] == "&" else None
                    if t and ":" not in t:
                        inner["alias", p["d"]] = t
                    else:
                        inner[p["d"]] = self.ev(f, a, env)
                        if t in env and not p["t"].startswith("const"):
                            env[t] = frozenset([None])
                out, ret = self.run(g, inner, depth + 1)
                for q in [q for q in env if isinstance(q, str) and ":" not in q]:
                    if q not in out:
                        del env[q]
                env.update({q: v for q, v in out.items() if isinstance(q, str) and ":" not in q})
                if ret is not None:
                    env["ret", f.usr, x] = ret
            else:                                  # what it may change through a reference or a pointer
                for j, a in enumerate(n.get("args") or ()):
                    if a is None or a < 0:
                        continue
                    y = f.nodes[strip(f, a)]
                    t = self.target(f, y["c"][0], env) if y["k"] == "UnaryOperator" and y.get("op") == "&" else self.target(f, a, env) if j in n.get("ref", ()) else None
                    if t in env:
                        env[t] = frozenset([None])

    def run(self, f, env, depth=0):
        self.fns.add(f)
        st = {f.entry: dict(env)}
        ret = None
        order = {b: q for q, b in enumerate(f.rpo())}
        work = {f.entry}
        rounds = 0
        while work:
            b = min(work, key=lambda x: order.get(x, 1 << 30))
            work.discard(b)
            rounds += 1
            if rounds > 4000:
                raise AnalysisBroken("%s: constants do not settle" % f.qual())
            e = dict(st[b])
            o = f.blocks[b]
            for x in o["s"]:
                if isinstance(x, int):
                    self.step(f, x, e, depth)
                    if f.nodes[x]["k"] == "ReturnStmt" and f.nodes[x].get("c"):
                        v = self.ev(f, f.nodes[x]["c"][0], e)
                        ret = v if ret is None else ret | v
                elif isinstance(x, dict) and x.get("minit") and isinstance(x.get("i"), int) and x["i"] >= 0:
                    e[x["minit"].split("::")[-1]] = self.ev(f, x["i"], e)
            ss = list(o["succ"])
            if len(ss) == 2 and o.get("cond") is not None:
                c = self.ev(f, o["cond"], e)
                if None not in c:
                    ss = ([ss[0]] if c - {0.0} else []) + ([ss[1]] if 0.0 in c else [])
            for t in ss:
                if t is None or t < 0:
                    continue
                if t not in st:
                    st[t] = dict(e)
                    work.add(t)
                    continue
                un = frozenset([None])
                mg = {q: st[t].get(q, un) | e.get(q, un) for q in set(st[t]) | set(e) if q[0] != "alias"}
                mg = {q: v if len(v) <= MAX else un for q, v in mg.items()}
                mg.update({q: v for q, v in e.items() if q[0] == "alias"})
                if mg != st[t]:
                    st[t] = mg
                    work.add(t)
        return st.get(f.exit, {}), ret


def wanted(m, v):
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, str) and v != "eps":
        for e in m.enums.values():
            for x in e["vals"]:
                if x["n"].split("::")[-1] == v:
                    return float(x["v"])
        raise AnalysisBroken("no enumerator %s" % v)
    return v if v == "eps" else float(v)


def same(a, b):
    if a is None or isinstance(a, str) or isinstance(b, str):
        return a == b or {a, b} == {"eps", Values.EPS}
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b))       # single precision is one of the supported types


def spell(v):
    return "an unknown value" if v is None else v if isinstance(v, str) else "%g" % v


def judge(m, c, doc, add, facts):
    ctors = [g for g in m.fns.values() if g.cls == c and g.short == c.split("::")[-1] and g.entry is not None and not (len(g.params) == 1 and short(c) in g.params[0]["t"])]
    n = unknown = 0
    for g in sorted(ctors, key=lambda g: g.sig()):
        E = Values(m, c)
        env, _ = E.run(g, {})
        for name, v in sorted(doc.items()):
            got = env.get(name, frozenset([None]))
            bad = [x for x in got if x is not None and not same(x, wanted(m, v))]
            unknown += None in got
            add(not bad, "default", "%s: %s" % (g.sig(), name), g.loc(), "after construction %s may be %s, the documented default is %s" % (name, spell(bad[0]) if bad else "", v))
        n += len(doc)
        rep = m.resolve_name(c, "CheckParams") if hasattr(m, "resolve_name") else method(m, c)
        if rep is None or rep.entry is None:
            continue
        given = {k: v for k, v in env.items() if isinstance(k, str) and ":" not in k}
        told = verdicts(m, c, rep, given)
        blind = verdicts(m, c, rep, {})
        for (f, x, name), v in sorted(told.items(), key=lambda z: (z[0][0].qual(), z[0][1])):
            key = "%s: %s in %s" % (g.sig(), name, f.qual())
            if None not in env.get(name, frozenset([None])):
                add("YES" in v, "report", key, f.loc(x), "%s has its default value and is reported not to be valid" % name)
            if name in env and not {"YES", "NO"} <= verdicts(m, c, rep, {**given, name: frozenset([None])}).get((f, x, name), set()):
                add(not {"YES", "NO"} <= blind.get((f, x, name), set()), "decided", key, f.loc(x), "whether %s is reported to be valid depends on other values, but not on its own" % name)
            elif name in env:
                add(True, "decided", key, f.loc(x), "")
    facts[short(c)] = {"constructors": len(ctors), "parameters": len(doc), "values not known": unknown}


def verdicts(m, c, rep, env):
    """{(function, printf, parameter): what is printed beside it}"""
    R = Values(m, c)
    R.run(rep, env)
    told = {}
    for f, x, e in R.prints:
        name = None
        for y in f.nodes[x]["args"][1:]:
            q = [is_this_member(f, z) for z in f.walk(y) if f.nodes[z]["k"] == "MemberExpr" and is_this_member(f, z)]
            if q:
                name = q[-1].split("::")[-1]
            elif name and f.nodes[strip(f, y)]["k"] == "DeclRefExpr":
                v = R.ev(f, y, e)
                if v <= {"YES", "NO", None} and v - {None}:
                    told.setdefault((f, x, name), set()).update(v)
    return told


def short(c):
    return c.split("::")[-1]


def method(m, c, name="CheckParams"):
    for b in [c] + [b for b in m.bases(c) if b != c]:
        for q in m.classes.get(b, {}).get("methods", []):
            if q["usr"] in m.fns and m.fns[q["usr"]].short == name:
                return m.resolve(q["usr"], c) or m.fns[q["usr"]]
    return None


def documented(m, c, table):
    out = {}
    for b in [b for b in m.bases(c) if b != c][::-1] + [c]:
        out.update(table["documented"].get(short(b), {}))
    out.update(table["of the method"].get(short(c), {}))
    return out


def run(m, ctx):
    import runs
    ctx.rule("default", "after each constructor of each solver, on every path, each parameter has the default value its header documents")
    ctx.rule("report", "CheckParams calls the default value of each parameter it prints valid")
    ctx.rule("decided", "what CheckParams prints beside a parameter does not depend on other values only")
    ctx.rule("fixture", "the rules report each wrong class of the fixture and none of the right ones")
    table = json.load(open(os.path.join(VERIF, "sa/tables/defaults.json")))
    facts = {}
    for c in sorted(runs.solver_classes(m)):
        judge(m, c, documented(m, c, table), lambda ok, r, key, w, msg: ctx.check(ok, r, key, w, msg), facts)
    ctx.facts["solvers"] = facts
    ctx.assume.append("The documented defaults are those of sa/tables/defaults.json, taken from the comments of the headers of Solvers/.")
    fx = m.fixture
    doc = {"Tolerance": 1e-6, "LengthSY": 4, "useRand": False}
    for n in sorted(x for x in fx.classes if short(x).startswith(("DefaultsGood", "DefaultsBad"))):
        got = set()
        judge(fx, n, doc, lambda ok, r, key, w, msg: got.add(r) if not ok else None, {})
        want = {r for r in ("default", "report", "decided") if short(n).startswith("DefaultsBad" + r.capitalize())}
        ctx.check(want <= got if want else not got, "fixture", n, "sa/fixtures/defaults.cpp", "fixture %s: reported %s" % (n, sorted(got)))
