"""Path-sensitive abstract interpretation of a whole solver run (property simulation).

The virtual method `Run` of one concrete solver class is interpreted with every call on `this` resolved for that class and
interpreted in place.  A state is
   eq    classes of point locations that hold equal points
   vec   location -> (set of point locations whose tangent space contains the vector | ORPHAN, points whose gradient it is)
   sc    scalar location -> facts: ("f", P) objective at P, ("m", P) squared gradient norm at P, ("n", P) gradient norm at P
   att   point location -> {"f", "g"}: what was evaluated at that very object (data cached with the point)
together with the branch conditions known to hold.  States with the same abstract part are merged by intersecting their conditions,
so correlated branches are followed and loops converge.  Nothing is known about a location that is not in the maps.
"""
from model import NS, AnalysisBroken
from util import *
from ptr import is_elem, is_ptr

ORPHAN = "orphan"
CAP = 600

# operations of Manifold and Problem: x / y points, v:x vector of the tangent space at x, o:x result in the tangent space at x, p: new point,
# L operator, a any element, i in-out element, s anything without tangent vectors
SIG = {
 ("Manifold", "Metric", 3): "x v:x v:x", ("Manifold", "LinearOPEEta", 4): "x L v:x o:x", ("Manifold", "Projection", 3): "x a o:x",
 ("Manifold", "IntrProjection", 3): "x a o:x", ("Manifold", "ExtrProjection", 3): "x a o:x", ("Manifold", "ScalarTimesVector", 4): "x s v:x o:x",
 ("Manifold", "ScalarVectorAddVector", 5): "x s v:x v:x o:x", ("Manifold", "VectorLinearCombination", 6): "x s v:x s v:x o:x",
 ("Manifold", "Retraction", 3): "x v:x p", ("Manifold", "InvRetraction", 3): "x y o:x", ("Manifold", "coTangentVector", 5): "x v:x y v:y o:x",
 ("Manifold", "DiffRetraction", 6): "x v:x y v:x o:y s", ("Manifold", "DiffRetraction", 5): "x v:x y v:x o:y", ("Manifold", "Beta", 2): "x v:x", ("Manifold", "Dist", 2): "x y",
 ("Manifold", "VectorTransport", 5): "x v:x y v:x o:y", ("Manifold", "InverseVectorTransport", 5): "x v:x y v:y o:x",
 ("Manifold", "LCVectorTransport", 5): "x v:x y v:x o:y", ("Manifold", "LCInverseVectorTransport", 5): "x v:x y v:y o:x",
 ("Manifold", "HInvTran", 7): "x v:x y L s s a", ("Manifold", "TranH", 7): "x v:x y L s s a", ("Manifold", "TranHInvTran", 5): "x v:x y L a",
 ("Manifold", "LCHInvTran", 7): "x v:x y L s s a", ("Manifold", "LCTranH", 7): "x v:x y L s s a", ("Manifold", "LCTranHInvTran", 5): "x v:x y L a",
 ("Manifold", "HaddScaledRank1OPE", 6): "x L s v:x v:x a", ("Manifold", "ObtainEtaxFlat", 3): "x v:x a", ("Manifold", "ObtainIntr", 3): "x v:x o:x",
 ("Manifold", "ObtainExtr", 3): "x v:x o:x", ("Manifold", "EucGradToGrad", 4): "x a s o:x", ("Manifold", "EucHvToHv", 5): "x v:x a s o:x",
 ("Manifold", "Obtainnu1nu2forLC", 3): "x v:x y", ("Manifold", "TangentSpaceProximalMap", 10): "x v:x s s s s i s s o:x",
 ("Problem", "f", 1): "x", ("Problem", "Grad", 2): "x G:x", ("Problem", "RieGrad", 2): "x G:x", ("Problem", "EucGrad", 2): "x a",
 ("Problem", "HessianEta", 3): "x v:x o:x", ("Problem", "RieHessianEta", 3): "x v:x o:x", ("Problem", "EucHessianEta", 3): "x v:x a", ("Problem", "PreConditioner", 3): "x v:x o:x",
}
SPECIAL = {"MinPNormConHull": "s x i s s s o:x"}
PURE = {"fabs", "sqrt", "std::fabs", "std::sqrt", "std::abs", "abs", "pow", "std::pow", "std::isnan", "std::isinf", "std::isfinite", "isnan", "isinf", "isfinite", "std::max", "std::min"}
KEEP = {"AddToFields", "RemoveFromFields", "RemoveAllFromFields", "CopyFieldsTo", "Setiscomplex", "SetIsIntrinsic", "Reshape"}


def is_float(t):
    return t.replace("const", "").strip() in ("realdp", "double", "float", "ROPTLIB::realdp")


def last_cond(f, o):
    """The operand of a short-circuit condition that the branching block itself evaluates."""
    c = o["cond"]
    here = {x for x in o["s"] if isinstance(x, int)}
    while True:
        i = strip(f, c)
        n = f.nodes[i]
        if n["k"] == "ParenExpr":
            c = n["c"][0]
        elif n["k"] == "BinaryOperator" and n["op"] in ("&&", "||") and not any(x in here for x in f.walk(n["c"][0])):
            c = n["c"][1]
        else:
            return c


def spec_of(n):
    c = n.get("cls", "").replace(NS, "")
    s = n.get("fn", "").split("::")[-1]
    if n["k"] == "CXXMemberCallExpr" and n.get("args") is not None:
        for r in ("Manifold", "Problem"):
            if (r, s, len(n["args"])) in SIG:
                return r, s, SIG[(r, s, len(n["args"]))].split()
    if n["k"] == "CallExpr" and s in SPECIAL and len(n["args"]) == len(SPECIAL[s].split()):
        return "", s, SPECIAL[s].split()
    return None


class St:
    __slots__ = ("eq", "vec", "sc", "att", "rel", "_k")

    def __init__(self, eq=None, vec=None, sc=None, att=None, rel=frozenset()):
        self.eq, self.vec, self.sc, self.att, self.rel, self._k = eq or {}, vec or {}, sc or {}, att or {}, rel, None

    def copy(self):
        return St(dict(self.eq), dict(self.vec), dict(self.sc), dict(self.att), self.rel)

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.eq.items()), frozenset(self.vec.items()), frozenset(self.sc.items()), frozenset(self.att.items()), self.rel)
        return self._k

    # ---- points
    def cls(self, p):
        return self.eq.get(p, frozenset([p]))

    def kill_point(self, p, forget=False):
        c = self.cls(p) - {p}
        if any(p in t for t in self.rel):       # a retraction stays known through an equal object
            q = min(c) if c else None
            self.rel = frozenset(tuple(q if z == p else z for z in t) for t in self.rel if p not in t or q)
        self.eq.pop(p, None)
        for q in c:
            if len(c) == 1:
                self.eq.pop(q, None)
            else:
                self.eq[q] = c
        self.att.pop(p, None)
        for l, (b, g) in list(self.vec.items()):
            if b is not ORPHAN and p in b:
                b2 = b - {p}
                if b2:
                    self.vec[l] = (b2, g - {p})
                elif forget:
                    del self.vec[l]
                else:
                    self.vec[l] = (ORPHAN, frozenset())
            elif p in g:
                self.vec[l] = (b, g - {p})
        for l, fs in list(self.sc.items()):
            n = frozenset(x for x in fs if x[1] != p)
            if n != fs:
                if n:
                    self.sc[l] = n
                else:
                    del self.sc[l]

    def same_point(self, dst, src):
        """dst was just killed and now holds the point of src."""
        c = self.cls(src) | {dst}
        for q in c:
            self.eq[q] = c
        for l, (b, g) in list(self.vec.items()):
            if b is not ORPHAN and src in b:
                self.vec[l] = (b | {dst}, (g | {dst}) if src in g else g)
        for l, fs in list(self.sc.items()):
            add = frozenset((x[0], dst) for x in fs if x[1] == src)
            if add:
                self.sc[l] = fs | add
        if src in self.att:
            self.att[dst] = self.att[src]

    def copy_elem(self, dst, src):
        """Element assignment dst = src (either may be a point, a vector, both or neither)."""
        if dst == src:
            return
        v = self.vec.get(src) if src else None
        self.kill_point(dst)
        self.vec.pop(dst, None)
        if src is None:
            return
        self.same_point(dst, src)
        if v is not None:
            self.vec[dst] = self.vec.get(src, v)

    def retracted(self, x, v, y):
        """y is known to be the retraction of v at x."""
        return any(a in self.cls(x) and b in self.cls(v) and c in self.cls(y) for a, b, c in self.rel)

    def kill_elem(self, l):
        self.kill_point(l)
        self.vec.pop(l, None)

    def forget(self, pred):
        """Locations for which pred holds go out of scope."""
        ls = set(self.eq) | set(self.vec) | set(self.sc) | set(self.att) | {z for t in self.rel for z in t}
        for b, g in self.vec.values():
            if b is not ORPHAN:
                ls |= b
        for fs in self.sc.values():
            ls |= {x[1] for x in fs}
        for l in ls:
            if pred(l):
                self.vec.pop(l, None)
                self.sc.pop(l, None)
                self.kill_point(l, forget=True)

    def join(self, o):
        r = St(rel=self.rel & o.rel)
        for p in set(self.eq) & set(o.eq):
            c = self.eq[p] & o.eq[p]
            if len(c) > 1:
                r.eq[p] = c
        for l in set(self.vec) & set(o.vec):
            a, b = self.vec[l], o.vec[l]
            if a == b:
                r.vec[l] = a
            elif a[0] is not ORPHAN and b[0] is not ORPHAN and a[0] & b[0]:
                r.vec[l] = (a[0] & b[0], a[1] & b[1])
        for l in set(self.sc) & set(o.sc):
            c = self.sc[l] & o.sc[l]
            if c:
                r.sc[l] = c
        for l in set(self.att) & set(o.att):
            c = self.att[l] & o.att[l]
            if c:
                r.att[l] = c
        return r


class Preds:
    """Immutable set of (text, value, locations)."""

    @staticmethod
    def kill(ps, loc):
        if not any(loc in p[2] for p in ps):
            return ps
        return frozenset(p for p in ps if loc not in p[2])


class Env:
    """Binding of one activation: parameter -> caller path; own locals get a prefix."""

    def __init__(self, f, depth, bind, cls):
        self.f, self.depth, self.bind, self.cls = f, depth, bind, cls
        self.pre = "%s@%d#" % (f.short, depth)

    def name(self, d):
        if d in self.bind and self.bind[d] is not None:
            return self.bind[d]
        if d.startswith("G:"):
            return d
        return self.pre + d


class Walk:
    """Interprets one concrete class; report(kind, f, node, ok, detail) receives every judged use."""

    def __init__(self, m, cls, report):
        self.m, self.cls, self.report = m, cls, report
        self.memo = {}
        self.stack = []
        self.fns = set()
        self.blocks = 0
        self.capped = 0
        self.tgt = {}
        self.steps = 0
        self.pairs = None
        self.flags = set()      # boolean locals
        self.sticky = {}        # assumptions about options: condition text -> value

    # ------------------------------------------------------------ paths and expressions
    def path(self, e, i):
        f = e.f
        i = strip(f, i)
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k == "CXXThisExpr":
            return "this"
        if k == "DeclRefExpr":
            d = n["d"]
            return e.name(d) if d[0] in "PLG" else None
        if k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr"):
            return self.path(e, n["c"][0]) if n.get("c") else None
        if k in ("CXXConstructExpr",) and n.get("copy") and len(n["args"]) == 1:
            return self.path(e, n["args"][0])
        if k == "UnaryOperator" and n["op"] in ("*", "&"):
            return self.path(e, n["c"][0])
        if k == "MemberExpr":
            b = self.path(e, n["c"][0])
            return b + "." + n["mn"] if b else None
        if k == "ArraySubscriptExpr":
            b = self.path(e, n["c"][0])
            if b is None:
                return None
            t = self.canon(e, n["c"][1])
            return None if t is None else "%s[%s]" % (b, t[0])
        if k == "CXXOperatorCallExpr" and n.get("op") == "=":
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            return self.path(e, xs[0])
        sp = spec_of(n)
        if sp:
            for a, r in zip(n["args"], sp[2]):
                if r[0] in "oGp" or r == "a" and a == n["args"][-1]:
                    return self.path(e, a)
            return None
        if k == "CXXMemberCallExpr" and n.get("args") is not None:
            s = n.get("fn", "").split("::")[-1]
            if s == "GetElement" and is_elem(n.get("cls", "")):
                b = self.path(e, n["obj"])
                t = [self.canon(e, a) for a in n["args"]]
                return "%s.E(%s)" % (b, ",".join(x[0] for x in t)) if b and all(t) else None
            g = self.m.fns.get(n.get("usr"))
            if g and g.ret and is_elem(g.ret) and g.ret.rstrip().endswith("&"):
                for p, a in zip(g.params, n["args"]):
                    if is_elem(p["t"]) and p["t"].rstrip().endswith("*") and "const" not in p["t"]:
                        return self.path(e, a)
        return None

    def locs_in(self, p):
        return p

    def canon(self, e, i):
        """(text, locations) of a pure scalar expression, or None."""
        f = e.f
        i = strip(f, i)
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        k = n["k"]
        if "v" in n and k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
            return (repr(n["v"]), frozenset())
        if k == "DeclRefExpr" and n["d"].startswith("E:"):
            return (n["d"][2:], frozenset())
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            return ("null", frozenset())
        if k == "ParenExpr":
            return self.canon(e, n["c"][0])
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"):
            p = self.path(e, i)
            if p is None:
                return None
            ls = {p}
            if k == "ArraySubscriptExpr":
                t = self.canon(e, n["c"][1])
                b = self.path(e, n["c"][0])
                ls |= t[1] | {b}
            return (p, frozenset(ls))
        if k == "BinaryOperator" and n["op"] in ("+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||"):
            a, b = self.canon(e, n["c"][0]), self.canon(e, n["c"][1])
            if a is None or b is None:
                return None
            x, y = (a[0], b[0])
            if n["op"] in ("+", "*", "==", "!=") and y < x:
                x, y = y, x
            return ("(%s %s %s)" % (x, n["op"], y), a[1] | b[1])
        if k == "UnaryOperator" and n["op"] in ("-", "!", "+"):
            a = self.canon(e, n["c"][0])
            return a and ("%s%s" % (n["op"], a[0]), a[1])
        if k == "CallExpr" and n.get("fn", "") in PURE:
            a = [self.canon(e, x) for x in n["args"]]
            if all(a):
                return ("%s(%s)" % (n["fn"].replace("std::", ""), ",".join(x[0] for x in a)), frozenset().union(*[x[1] for x in a]))
        if k == "CXXMemberCallExpr" and n.get("const") and not n.get("args"):
            p = self.path(e, n["obj"])
            s = n["fn"].split("::")[-1]
            if p and s.startswith(("Get", "get", "size", "empty")):
                return ("%s.%s()" % (p, s), frozenset([p]))
        if k == "ImplicitCastExpr" and n.get("c"):
            return self.canon(e, n["c"][0])
        return None

    # ------------------------------------------------------------ conditions
    def atoms(self, e, i, val, ps=None):
        """Facts (text, value, locations) that follow from the condition having the truth value val."""
        f = e.f
        i = strip(f, i)
        if i is None or i < 0:
            return []
        n = f.nodes[i]
        k = n["k"]
        if k == "ParenExpr":
            return self.atoms(e, n["c"][0], val, ps)
        if k == "UnaryOperator" and n["op"] == "!":
            return self.atoms(e, n["c"][0], not val, ps)
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            if (n["op"] == "&&") == val:
                return self.atoms(e, n["c"][0], val, ps) + self.atoms(e, n["c"][1], val)
            return []
        if k == "BinaryOperator" and n["op"] in ("<", "<=", ">", ">=", "==", "!="):
            a, b = self.canon(e, n["c"][0]), self.canon(e, n["c"][1])
            if a is None or b is None:
                return []
            return self.compare(a, n["op"], b, val)
        if k == "CallExpr" and n.get("fn", "").split("::")[-1] in ("isfinite",) and len(n["args"]) == 1:
            a = self.canon(e, n["args"][0])
            return [("isnan(%s)" % a[0], False, a[1]), ("isinf(%s)" % a[0], False, a[1])] if a and val else []
        if k in ("CXXMemberCallExpr", "CallExpr") and n.get("t") == "bool" and self.targets_of(f, e, n):
            return [("call#%s%d" % (e.pre, i), val, frozenset(["#"]))]
        a = self.canon(e, i)
        out = [(a[0], val, a[1])] if a else []
        if k == "DeclRefExpr" and a and ps is not None:
            for q in ps:
                if q[0] == "def:" + a[0]:
                    out += self.atoms(e, q[1], val, ps)
        return out

    @staticmethod
    def compare(a, op, b, val):
        ls = a[1] | b[1]
        if op == "!=":
            op, val = "==", not val
        if op == "==":
            x, y = sorted([a[0], b[0]])
            out = [("(%s == %s)" % (x, y), val, ls)]
            if val and a[1] and not b[1] or val and b[1] and not a[1]:
                v, c = (a, b) if a[1] else (b, a)
                out.append(("const:" + v[0], c[0], ls))
                if c[0] in ("True", "False", "1", "0"):
                    out.append((v[0], c[0] in ("True", "1"), ls))
            return out
        if op == "<":
            a, b, op, val = b, a, "<=", not val
        elif op == ">":
            op, val = "<=", not val
        elif op == ">=":
            a, b, op = b, a, "<="
        return [("(%s <= %s)" % (a[0], b[0]), val, ls)]

    @staticmethod
    def number(s):
        try:
            return float(s)
        except ValueError:
            return None

    def add(self, ps, facts):
        """preds with the facts added, or None when they contradict."""
        if not facts:
            return ps
        d = {p[0]: p for p in ps}
        for t, v, ls in facts:
            if t in d and d[t][1] != v:
                return None
            if ls and not any("[" in l for l in ls):        # elements of arrays are not followed
                d[t] = (t, v, ls)
        # constants decide comparisons
        for t, v, ls in facts:
            if " == " in t and t.startswith("(") and not t.startswith("const:"):
                x, y = t[1:-1].split(" == ", 1)
                for a, b in ((x, y), (y, x)):
                    c = d.get("const:" + a)
                    if c is not None and "const:" + a != t and not any(ch in b for ch in ".#@[(") or c is not None and self.number(b) is not None:
                        same = c[1] == b or (self.number(b) is not None and self.number(c[1]) is not None and self.number(b) == self.number(c[1]))
                        if same != v:
                            return None
            elif " <= " in t and t.startswith("("):
                x, y = [d["const:" + a][1] if "const:" + a in d else a for a in t[1:-1].split(" <= ", 1)]
                nx, ny = self.number(x), self.number(y)
                if nx is not None and ny is not None and (nx <= ny) != v:
                    return None
                if self.sticky.get("(%s <= %s)" % (x, y), v) != v:
                    return None
            if self.sticky.get(t, v) != v:
                return None
        return frozenset(d.values())

    def branch(self, e, c, val, ps):
        return self.add(ps, self.atoms(e, c, val, ps))

    # ------------------------------------------------------------ one activation
    def run_fn(self, f, e, st, ps):
        """[(state, preds, returned fact set, returned truth value)] at the exit of f."""
        key = (f.usr, e.depth, tuple(sorted((k, v or "") for k, v in e.bind.items())), st.key(), ps)
        if key in self.memo:
            return self.memo[key]
        if f.usr in self.stack or len(self.stack) > 14:
            raise Recursion()
        self.stack.append(f.usr)
        self.fns.add(f.usr)
        try:
            r = self.run_cfg(f, e, st, ps)
        finally:
            self.stack.pop()
        # locals go out of scope
        out = {}
        for s, p, ret, tv in r:
            s = s.copy()
            pre = e.pre
            s.forget(lambda l: l.startswith(pre) or ("[" in l and pre in l) or l.startswith("#"))
            p = frozenset(x for x in p if not any(l.startswith(pre) or pre in l for l in x[2]))
            k = (s.key(), ret, tv)
            if k in out:
                out[k] = (s, out[k][1] & p, ret, tv)
            else:
                out[k] = (s, p, ret, tv)
        res = list(out.values())
        self.memo[key] = res
        return res

    def run_cfg(self, f, e, st0, ps0):
        ins = {f.entry: {(st0.key(), None): (st0, ps0, None)}}
        work = [f.entry]
        order = {b: i for i, b in enumerate(f.rpo())}
        exits = {}
        done = {}
        while work:
            work.sort(key=lambda b: order.get(b, 9999))
            b = work.pop(0)
            cur = ins.get(b, {})
            todo = []
            for k, (s, p, r) in cur.items():
                if done.get((b, k)) != p:
                    done[(b, k)] = p
                    todo.append((s, p, r))
            if not todo:
                continue
            if b == f.exit:
                for s, p, r in todo:
                    pass
                continue
            self.blocks += 1
            o = f.blocks[b]
            for s, p, r in todo:
                for s2, p2, r2 in self.block(f, e, o, s, p, r):
                    succ = o["succ"]
                    term = f.nodes[o["term"]]["k"] if isinstance(o.get("term"), int) and o["term"] >= 0 else ""
                    two = len(succ) == 2 and o.get("cond") is not None and term != "SwitchStmt"
                    for j, t in enumerate(succ):
                        if t is None or t < 0:
                            continue
                        p3 = p2
                        if two:
                            p3 = self.branch(e, last_cond(f, o), j == 0, p2)
                        elif term == "SwitchStmt":
                            p3 = self.case(e, f, o, t, p2)
                        if p3 is None:
                            continue
                        self.push(ins, work, t, s2, p3, r2)
        out = []
        for k, (s, p, r) in ins.get(f.exit, {}).items():
            out.append((s, p, r[0] if r else frozenset(), r[1] if r else None))
        return out

    def case(self, e, f, o, t, p):
        """Conditions known at a successor of a switch."""
        c = self.canon(e, f.nodes[o["term"]].get("cond", o.get("cond")))
        if c is None:
            return p
        def value(b):
            l = f.blocks[b].get("label")
            if l is None or f.nodes[l]["k"] != "CaseStmt":
                return None
            return self.canon(e, f.nodes[l]["val"])
        v = value(t)
        if v is not None:
            return self.add(p, self.compare(c, "==", v, True))
        facts = []
        for u in o["succ"]:
            if u is not None and u >= 0 and u != t:
                w = value(u)
                if w is not None:
                    facts += self.compare(c, "==", w, False)
        return self.add(p, facts)

    def push(self, ins, work, b, s, p, r):
        d = ins.setdefault(b, {})
        flags = frozenset(q[:2] for q in p if q[0] in self.flags)
        k = (s.key(), r, flags)
        if k in d:
            n = d[k][1] & p
            if n == d[k][1]:
                return
            d[k] = (d[k][0], n, r)
        else:
            if len(d) >= CAP:
                self.capped += 1
                j = s
                pj = p
                for (s1, p1, r1) in d.values():
                    if r1 == r:
                        j = j.join(s1)
                        pj = pj & p1
                k = (j.key(), r, None)
                if k in d and d[k][1] <= pj:
                    return
                d[k] = (j, pj & d[k][1] if k in d else pj, r)
            else:
                d[k] = (s, p, r)
        if b not in work:
            work.append(b)

    def block(self, f, e, o, s, p, r):
        cur = [(s.copy(), p, r)]
        for x in o["s"]:
            if not isinstance(x, int):
                continue
            n = f.nodes[x]
            if n["k"] not in INTEREST:
                continue
            nxt = []
            for s1, p1, r1 in cur:
                self.cur_p = p1
                nxt.extend(self.step(f, e, x, n, s1, p1, r1))
            d = {}
            for s1, p1, r1 in nxt:
                s1._k = None
                d.setdefault((s1.key(), p1 if len(nxt) <= 24 else None, r1), []).append((s1, p1, r1))
            cur = [(v[0][0], frozenset.intersection(*[y[1] for y in v]), v[0][2]) for v in d.values()]
        for s1, p1, r1 in cur:
            for l in [l for l in s1.sc if l.startswith("#")]:
                del s1.sc[l]
                s1._k = None
        return cur

    # ------------------------------------------------------------ scalars
    def facts(self, e, i, s):
        f = e.f
        i = strip(f, i)
        if i is None or i < 0:
            return frozenset()
        n = f.nodes[i]
        k = n["k"]
        if k in ("ParenExpr", "ExprWithCleanups"):
            return self.facts(e, n["c"][0], s)
        if k in ("DeclRefExpr", "MemberExpr"):
            p = self.path(e, i)
            return s.sc.get(p, frozenset()) if p else frozenset()
        if k == "BinaryOperator" and n["op"] == "=":
            return self.facts(e, n["c"][0], s)
        if k == "BinaryOperator" and n["op"] == ",":
            return self.facts(e, n["c"][1], s)
        if k == "CallExpr" and n.get("fn", "").split("::")[-1] == "sqrt" and len(n["args"]) == 1:
            return frozenset(("n", x[1]) for x in self.facts(e, n["args"][0], s) if x[0] == "m")
        if k == "ConditionalOperator":
            return self.facts(e, n["c"][1], s) & self.facts(e, n["c"][2], s)
        return s.sc.get("#%s%d" % (e.pre, i), frozenset())

    def set_scalar(self, s, loc, facts):
        if facts and "[" not in loc:
            s.sc[loc] = facts
        else:
            s.sc.pop(loc, None)

    def changed(self, s, p, loc):
        """A scalar location was given a new value."""
        p = Preds.kill(p, loc)
        if loc and any("[" in l and loc in l for l in list(s.vec) + list(s.att) + list(s.eq)):
            s.forget(lambda l: "[" in l and loc in l[l.index("["):])
        return p

    # ------------------------------------------------------------ one CFG element
    def step(self, f, e, x, n, s, p, r):
        k = n["k"]
        if k == "DeclStmt":
            for v in n["vars"]:
                loc = e.name(v["d"])
                t = v["t"]
                i = v.get("i", -1)
                if is_elem(t) and not is_ptr(t):
                    if t.rstrip().endswith("&") and i >= 0:
                        q = self.path(e, i)
                        e.bind = dict(e.bind)
                        e.bind[v["d"]] = q
                        continue
                    src = self.path(e, i) if i is not None and i >= 0 else None
                    s.copy_elem(loc, src)
                    continue
                if t.rstrip().endswith("&") and i >= 0:
                    e.bind = dict(e.bind)
                    e.bind[v["d"]] = self.path(e, i)
                    continue
                if is_elem(t) and i is not None and i >= 0 and self.once(f, v["d"]):
                    q = self.path(e, i)     # a pointer that is only ever set here is another name of its target
                    if q:
                        e.bind = dict(e.bind)
                        e.bind[v["d"]] = q
                        continue
                p = self.changed(s, p, loc)
                if i is not None and i >= 0:
                    self.set_scalar(s, loc, self.facts(e, i, s))
                    rs = self.assign_preds(e, v["d"] and loc, i, t, p)
                    if len(rs) > 1:
                        return [(s.copy(), q, r) for q in rs]
                    p = rs[0]
                else:
                    s.sc.pop(loc, None)
            return [(s, p, r)]
        if k in ("BinaryOperator", "CompoundAssignOperator") or k == "UnaryOperator":
            op = n["op"]
            if k == "UnaryOperator" and op in ("++", "--", "post++", "post--") or k == "CompoundAssignOperator":
                loc = self.path(e, n["c"][0])
                if loc:
                    p = self.changed(s, p, loc)
                    s.sc.pop(loc, None)
                    s._k = None
                return [(s, p, r)]
            if k == "BinaryOperator" and op == "=":
                loc = self.path(e, n["c"][0])
                if loc is None:
                    return [(s, p, r)]
                fa = self.facts(e, n["c"][1], s)
                ln = f.nodes[strip(f, n["c"][0])]
                if ln["k"] == "ArraySubscriptExpr":
                    o = self.buffer_of(e, ln["c"][0])
                    if o:       # what was stored last in the series
                        s.sc[o + "#last"] = fa | {("s", "")}
                cn = self.canon(e, n["c"][1])
                selfref = cn is not None and loc in cn[1]
                p = self.changed(s, p, loc)
                self.set_scalar(s, loc, fa)
                if is_float(n.get("t", "")) and (cn is None or cn[1]):
                    p = self.fresh(e, loc, n["c"][1], p)
                rs = [p] if selfref else self.assign_preds(e, loc, n["c"][1], n.get("t", ""), p)
                if len(rs) > 1:
                    return [(s.copy(), q, r) for q in rs]
                return [(s, rs[0], r)]
            return [(s, p, r)]
        if k == "CXXOperatorCallExpr":
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            if n.get("op") == "=" and len(xs) == 2 and is_elem(n.get("cls", "") or f.nodes[strip(f, xs[0])].get("t", "")):
                dst, src = self.path(e, xs[0]), self.path(e, xs[1])
                if dst:
                    self.adopt(f, e, x, dst, src, s, p)
                    self.weak(s, dst)
                    s.copy_elem(dst, src)
                    p = Preds.kill(p, dst)
                return [(s, p, r)]
            for a in xs[:1]:
                if n.get("op") in ("++", "--", "+=", "-=", "*=", "/=") or n.get("op") == "=":
                    l = self.path(e, a)
                    if l:
                        s.kill_elem(l)
                        p = Preds.kill(p, l)
            return [(s, p, r)]
        if k == "ReturnStmt":
            if n.get("c"):
                fa = self.facts(e, n["c"][0], s)
                t = (f.ret or "")
                if t == "bool":
                    out = []
                    for v in (True, False):
                        q = self.branch(e, n["c"][0], v, p)
                        cn = e.f.nodes[strip(f, n["c"][0])]
                        if cn["k"] == "CXXBoolLiteralExpr" and cn.get("v") not in (None,) and bool(cn["v"]) != v:
                            continue
                        if q is not None:
                            out.append((s.copy(), q, (fa, v)))
                    return out
                return [(s, p, (fa, None))]
            return [(s, p, r)]
        if k in ("CXXMemberCallExpr", "CallExpr"):
            return self.call(f, e, x, n, s, p, r)
        return [(s, p, r)]

    def compared(self):
        """Pairs of floating point members that some function of the class compares for equality."""
        if self.pairs is None:
            self.pairs = {}
            for g in self.m.fns.values():
                if g.cls not in self.m.bases(self.cls) or g.cls is None:
                    continue
                for n in g.nodes:
                    if n["k"] == "BinaryOperator" and n["op"] in ("==", "!="):
                        q = [self.path(Env(g, 0, {}, self.cls), c) for c in n["c"]]
                        t = [g.nodes[strip(g, c)].get("t", "") for c in n["c"]]
                        if all(x and x.startswith("this.") for x in q) and all(is_float(x) for x in t):
                            self.pairs.setdefault(q[0], set()).add(q[1])
                            self.pairs.setdefault(q[1], set()).add(q[0])
        return self.pairs

    def fresh(self, e, loc, i, p):
        """A floating point member gets a copy of the other one (equal) or a newly computed value (taken to differ)."""
        q = self.path(e, i)
        used = {self.path(e, x) for x in e.f.walk(i) if e.f.nodes[x]["k"] == "MemberExpr"}
        for o in self.compared().get(loc, ()):
            if o in used and o != q:
                continue
            v = self.add(p, self.compare((loc, frozenset([loc])), "==", (o, frozenset([o])), q == o))
            p = v if v is not None else p
        return p

    def assign_preds(self, e, loc, i, t, p):
        f = e.f
        n = f.nodes[strip(f, i)]
        if n["k"] == "ConditionalOperator":
            return [p]
        c = self.canon(e, i)
        if c is not None and not c[1]:
            q = self.add(p, self.compare((loc, frozenset([loc])), "==", c, True))
            return [q if q is not None else p]
        if t.replace("const ", "") == "bool" and (c is not None or n["k"] in ("CallExpr", "CXXMemberCallExpr") and any(q[0].startswith("call#") for q in p)):
            out = []
            pre = []
            if loc.startswith(e.pre) and self.once(f, loc[len(e.pre):]):
                if c is None:
                    self.flags.add(loc)     # truth values of calls kept in locals are told apart
                else:                       # stands for its initialiser while the operands keep their values
                    pre = [("def:" + loc, i, c[1] | {loc})]
            for v in (True, False):
                q = self.add(p, pre + self.atoms(e, i, v) + [(loc, v, frozenset([loc]))])
                if q is not None:
                    out.append(q)
            return out or [p]
        if c is not None and n["k"] in ("DeclRefExpr", "MemberExpr"):
            # a plain copy carries over the conditions known of the source
            src = c[0]
            add = []
            for q in p:
                if q[0] in ("isnan(%s)" % src, "isinf(%s)" % src):
                    add.append((q[0].replace(src, loc), q[1], frozenset([loc])))
            q = self.add(p, add)
            return [q if q is not None else p]
        return [p]

    def buffer_of(self, e, i):
        """Element whose raw data a local pointer was initialised with."""
        f = e.f
        n = f.nodes[strip(f, i)]
        if n["k"] != "DeclRefExpr":
            return None
        for q in f.nodes:
            if q["k"] == "DeclStmt":
                for v in q["vars"]:
                    if v["d"] == n["d"] and v.get("i", -1) is not None and v.get("i", -1) >= 0:
                        c = f.nodes[strip(f, v["i"])]
                        if c["k"] == "CXXMemberCallExpr" and c.get("fn", "").split("::")[-1].startswith("ObtainWrite"):
                            return self.path(e, c["obj"])
        return None

    @staticmethod
    def once(f, d):
        """The local d is never assigned after its declaration."""
        return not any(f.nodes[strip(f, l)]["k"] == "DeclRefExpr" and f.nodes[strip(f, l)]["d"] == d for a, l, r, op in assigns(f))

    def weak(self, s, loc):
        """An element of an array is written: other subscripts of the same array may be the same element."""
        if "[" not in loc:
            return
        b = loc[:loc.index("[") + 1]
        s.forget(lambda l: l.startswith(b) and l != loc)

    def adopt(self, f, e, x, dst, src, s, p):
        if dst == "this.x1" and src:
            vals = [l for l, fs in s.sc.items() if any(t == "f" and q in s.cls(src) for t, q in fs)]
            if "this.x1" in s.cls(src):
                return
            ok = any(("isnan(%s)" % l, False) in {(q[0], q[1]) for q in p} and ("isinf(%s)" % l, False) in {(q[0], q[1]) for q in p} for l in vals)
            self.report("adopt", f, x, ok, src, s)

    # ------------------------------------------------------------ calls
    def targets_of(self, f, e, n):
        """Bodies to interpret for a call on the solver itself; None when the call is not one."""
        if n["k"] == "CXXMemberCallExpr":
            if n.get("fn") is None:
                return self.indirect(f, n)
            o = strip(f, n["obj"]) if n.get("obj") is not None else -1
            if o >= 0 and self.path(e, o) == "this":
                g = self.m.resolve(n["usr"], self.cls) if n.get("virt") else self.m.fns.get(n["usr"])
                return [g] if g is not None else None
        elif n["k"] == "CallExpr" and n.get("usr") in self.m.fns and n.get("fn", "").split("::")[-1] not in SPECIAL:
            g = self.m.fns[n["usr"]]        # a function of the solver sources that is handed iterates or vectors
            if "/Solvers/" in g.file and g.entry is not None and (g.ret == "bool" or any(is_elem(q["t"]) for q in g.params)):
                return [g]
        return None

    def indirect(self, f, n):
        c = strip(f, n.get("calleeExpr", -1))
        while c is not None and c >= 0 and f.nodes[c]["k"] == "ParenExpr":
            c = strip(f, f.nodes[c]["c"][0])
        if c is None or c < 0 or f.nodes[c]["k"] != "BinaryOperator" or f.nodes[c]["op"] not in ("->*", ".*"):
            return None
        mem = f.nodes[strip(f, f.nodes[c]["c"][1])]
        key = mem.get("m") or mem.get("d")
        if mem["k"] != "MemberExpr":
            return None
        if key not in self.tgt:
            out = {}
            for g in self.m.fns.values():
                for a, l, r, op in assigns(g):
                    if r is None or op != "=":
                        continue
                    ln = g.nodes[strip(g, l)]
                    if ln["k"] == "MemberExpr" and ln.get("m") == key:
                        for y in g.walk(r):
                            d = g.nodes[y]
                            if d["k"] == "DeclRefExpr" and d["d"].startswith("F:"):
                                u = d["d"][2:]
                                h = self.m.fns.get(u) or next((self.m.fns[v] for v in self.m.fns if self.m.fns[v].name == d.get("fn")), None)
                                if h is not None:
                                    out[h.usr] = h
            self.tgt[key] = list(out.values())
        hs = []
        for h in self.tgt[key]:
            if h.cls in self.m.bases(self.cls):
                g = self.m.resolve(h.usr, self.cls) if h.o.get("virtual") else h
                if g is not None and g not in hs:
                    hs.append(g)
        return hs or None

    def call(self, f, e, x, n, s, p, r):
        self.steps += 1
        sp = spec_of(n)
        if sp:
            return [self.operation(f, e, x, n, sp, s, p, r)]
        tg = self.targets_of(f, e, n)
        if tg:
            out = []
            for g in tg:
                if g.entry is None:
                    continue
                try:
                    out.extend(self.inline(f, e, x, n, g, s, p, r))
                except Recursion:
                    s2 = St()
                    out.append((s2, frozenset(), r))
            if out:
                return out
        fn = n.get("fn", "")
        short = fn.split("::")[-1]
        if n["k"] == "CallExpr" and fn.split("<")[0] in ("std::swap", "swap") and len(n["args"]) == 2:
            a, b = [self.path(e, q) for q in n["args"]]
            if a and b:
                if is_elem(f.nodes[strip(f, n["args"][0])].get("t", "")):
                    t = e.pre + "swap#"
                    self.adopt(f, e, x, a, b, s, p)
                    self.adopt(f, e, x, b, a, s, p)
                    s.copy_elem(t, a)
                    s.copy_elem(a, b)
                    s.copy_elem(b, t)
                    s.kill_elem(t)
                else:
                    fa, fb = s.sc.get(a, frozenset()), s.sc.get(b, frozenset())
                    self.set_scalar(s, a, fb)
                    self.set_scalar(s, b, fa)
                s._k = None
                return [(s, Preds.kill(Preds.kill(p, a), b), r)]
        self.other(f, e, x, n, s)
        # methods of elements
        if n["k"] == "CXXMemberCallExpr" and n.get("obj") is not None:
            o = self.path(e, n["obj"])
            if o and o != "this" and is_elem(n.get("cls", "")) and not n.get("const") and short not in KEEP:
                self.weak(s, o)
                s.kill_elem(o)
                p = Preds.kill(p, o)
            elif o and o != "this" and not n.get("const") and not is_elem(n.get("cls", "")):
                p = Preds.kill(p, o)
        # arguments handed out by address or non-const reference
        pt = None
        g = self.m.fns.get(n.get("usr"))
        if g is not None:
            pt = [q["t"] for q in g.params]
        elif n.get("usr") in self.m.meth:
            pt = [q["t"] for q in self.m.meth[n["usr"]][1]["params"]]
        for j, a in enumerate(n.get("args") or []):
            t = pt[j] if pt and j < len(pt) else ""
            if "const" in t or (t and not t.rstrip().endswith(("*", "&"))):
                continue
            if not t and f.nodes[strip(f, a)]["k"] != "UnaryOperator":
                continue
            l = self.path(e, a)
            if l is None or l == "this" or l in ("this.Mani", "this.Prob"):
                continue
            s.kill_elem(l)
            s.sc.pop(l, None)
            s.forget(lambda q: q.startswith(l + "["))
            p = Preds.kill(p, l)
        s._k = None
        return [(s, p, r)]

    def other(self, f, e, x, n, s):
        """Calls through the user's function pointers."""
        c = n.get("calleeExpr")
        if n["k"] == "CallExpr" and c is not None and "fn" not in n:
            m = f.nodes[strip(f, c)]
            if m["k"] == "MemberExpr":
                self.report("callback", f, x, None, [(self.path(e, a), self.facts(e, a, s)) for a in n["args"]], s, m["mn"])

    def alias(self, f, e, a, g, q):
        """A scalar passed by value that neither the callee nor anything it calls changes: conditions on it hold for the argument."""
        n = f.nodes[strip(f, a)]
        if n["k"] not in ("DeclRefExpr", "MemberExpr") or self.path(e, a) is None or not self.once(g, q["d"]):
            return False
        mn = n.get("mn")
        for y in g.nodes:
            if y["k"] in ("CXXMemberCallExpr", "CallExpr") and (self.targets_of(g, Env(g, 0, {}, self.cls), y) or y["k"] == "CXXMemberCallExpr" and not y.get("const")):
                return False
        return not any(g.nodes[strip(g, l)].get("mn") == mn for _, l, r, op in assigns(g)) if mn else True

    def inline(self, f, e, x, n, g, s, p, r):
        bind, pre = {}, []
        depth = e.depth + 1
        e2 = Env(g, depth, bind, self.cls)
        s = s.copy()
        for q, a in zip(g.params, n["args"]):
            t = q["t"]
            if t.rstrip().endswith(("&", "*")):
                bind[q["d"]] = self.path(e, a)
                if bind[q["d"]] is None:
                    loc = e2.pre + q["d"]
                    fa = self.facts(e, a, s)
                    self.set_scalar(s, loc, fa)
            elif not is_elem(t) and self.alias(f, e, a, g, q):
                bind[q["d"]] = self.path(e, a)
            else:
                loc = e2.pre + q["d"]
                if is_elem(t):
                    s.copy_elem(loc, self.path(e, a))
                else:
                    self.set_scalar(s, loc, self.facts(e, a, s))
                    c = self.canon(e, a)
                    if c is not None and not c[1]:
                        z = self.add(p, self.compare((loc, frozenset([loc])), "==", c, True))
                        p = z if z is not None else p
        self.report("enter", f, x, None, g.short, s)
        # conditions and subscripted locations of the caller's locals survive: names are unique per activation depth
        out = []
        seen = {v for v in bind.values() if v}
        frame = frozenset(q for q in p if q[2] and all("@" in l and not any(l.startswith(v) or v.startswith(l) for v in seen) and not l.startswith(e2.pre) for l in q[2]))
        for s2, p2, ret, tv in self.run_fn(g, e2, s, p - frame):
            p2 = p2 | frame
            s3 = s2.copy()
            if ret:
                s3.sc["#%s%d" % (e.pre, x)] = ret
            p3 = p2
            if tv is not None:
                key = ("call#%s%d" % (e.pre, x), tv, frozenset(["#"]))
                p3 = frozenset(q for q in p2 if q[0] != key[0]) | {key}
            out.append((s3, p3, r))
        return out

    def operation(self, f, e, x, n, sp, s, p, r):
        root, name, roles = sp
        args = n["args"]
        pt = {}
        paths = [self.path(e, a) for a in args]
        for pos, (q, ro) in enumerate(zip(paths, roles)):
            if ro in ("x", "y"):
                pt[ro] = q
        for pos, (q, ro) in enumerate(zip(paths, roles)):
            if ro.startswith("v:"):
                base = pt.get(ro[2:])
                v = s.vec.get(q) if q else None
                if v is None or base is None:
                    self.report("untracked", f, x, None, (name, pos, q, base), s)
                    continue
                ok = v[0] is not ORPHAN and bool(s.cls(base) & v[0])
                self.report("base", f, x, ok, (name, pos, q, base, v[0]), s)
                if not ok:      # judged once: go on as if the vector belonged to the point
                    s.vec[q] = (frozenset(s.cls(base)) - {q}, frozenset())
                    s._k = None
        if root == "Problem" and name in ("Grad", "HessianEta", "RieGrad", "RieHessianEta", "PreConditioner") and pt.get("x"):
            have = s.att.get(pt["x"], frozenset())
            if name in ("Grad", "RieGrad"):
                self.report("order", f, x, "f" in have, (name, pt["x"], "f"), s)
            elif name in ("HessianEta", "RieHessianEta"):
                self.report("order", f, x, "g" in have, (name, pt["x"], "g"), s)
        if "y" in roles and roles[1] == "v:x" and roles[2] == "y" and all(paths[:3]):
            self.report("along", f, x, s.retracted(*paths[:3]), (name,) + tuple(paths[:3]), s)
        # results
        res = "#%s%d" % (e.pre, x)
        if root == "Problem" and name == "f" and pt.get("x"):
            s.att[pt["x"]] = s.att.get(pt["x"], frozenset()) | {"f"}
            s.sc[res] = frozenset(("f", q) for q in s.cls(pt["x"]))
        if name == "Metric" and pt.get("x") and paths[1] and paths[1] == paths[2]:
            v = s.vec.get(paths[1])
            if v and v[1] & s.cls(pt["x"]):
                s.sc[res] = frozenset(("m", q) for q in s.cls(pt["x"]))
        for pos, (q, ro) in enumerate(zip(paths, roles)):
            if q is None:
                continue
            if ro[0] in "oGpi" or ro == "a" and pos == len(roles) - 1:
                if ro[0] in "oG":
                    b = pt.get(ro[2:])
                    base = s.cls(b) if b else None
                    self.weak(s, q)
                    if b and q in base:
                        base = base - {q}
                    s.kill_elem(q)
                    if base:
                        s.vec[q] = (frozenset(base), frozenset(base) if ro[0] == "G" else frozenset())
                else:
                    self.weak(s, q)
                    s.kill_elem(q)
                p = Preds.kill(p, q)
        if name == "Retraction" and all(paths) and len(set(paths)) == 3:
            s.rel = s.rel | {tuple(paths)}
        if name in ("Grad",) and pt.get("x"):
            s.att[pt["x"]] = s.att.get(pt["x"], frozenset()) | {"g"}
        s._k = None
        return (s, p, r)


class Recursion(Exception):
    pass


INTEREST = {"DeclStmt", "BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CXXOperatorCallExpr", "ReturnStmt", "CXXMemberCallExpr", "CallExpr"}


def solve(m, cls, report, entry=("x1", "x2"), facts=()):
    """Interpret cls::Run from the state after SetProbX; returns (walk, exits)."""
    w = Walk(m, cls, report)
    me = None
    for c in m.bases(cls):
        for x in m.classes[c]["methods"]:
            if x["name"] == "Run":
                me = me or m.fns.get(x["usr"])
    if me is None:
        raise AnalysisBroken("anchor vanished: Run of " + cls)
    st = St()
    c = frozenset("this." + x for x in entry)
    for x in c:
        st.eq[x] = c
    e = Env(me, 0, {}, cls)
    w.sticky = dict(facts)
    ex = w.run_fn(me, e, st, frozenset())
    return w, me, ex
