"""Values of scalars, tangent vectors and operators along the paths of solver code, up to the laws of an inner product space.

Every scalar stands for a rational function of independent unknowns (the values at the start, inner products of unknown vectors, values
of functions that are not looked into), every vector for a linear combination of unknown vectors and words of linear operators applied to
them, every operator for a base operator plus rank-one terms. A rational function is kept as its value at one pseudo-random point of a
prime field: two that differ agree there with probability below 1e-15. Nothing of the program is run: unknowns are names, every
branch is followed both ways unless the facts collected on the path decide it, and loops are entered with whatever they assign unknown.

Laws assumed: operators named in SELF are self-adjoint, transport along the step is linear and isometric, and the operations of Manifold
and Problem do what their names say (other properties are about that)."""
import hashlib
from fractions import Fraction
from model import NS, AnalysisBroken
from util import *
from paths import is_bool
from walk import last_cond
from checks.p11_verbosity import loops_of

P = 2 ** 61 - 1
REAL = ("double", "float", "realdp", "int", "integer", "long", "unsigned int", "unsigned long", "long double")
INVERSE = {"T": "T-", "T-": "T", "M": "M-", "M-": "M"}


def rnd(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=16).digest(), "big") % P


def num(v):
    v = Fraction(str(v))
    return v.numerator % P * pow(v.denominator % P, P - 2, P) % P


def inv(a):
    return pow(a, P - 2, P)


def div(a, b):
    return rnd("divided by zero", a) if b == 0 else a * inv(b) % P


def sqrt(a):
    return rnd("sqrt", a)


def vec(base, *ops):
    return {(reduce_word(ops), base): 1}


def reduce_word(w):
    out = []
    for x in w:
        if out and INVERSE.get(out[-1]) == x:
            out.pop()
        else:
            out.append(x)
    return tuple(out)


def adjoint(w):
    return tuple({"T": "T-", "T-": "T"}.get(x, x) for x in reversed(w))


def vadd(*terms):
    """sum of (coefficient, vector)"""
    out = {}
    for c, v in terms:
        for k, a in v.items():
            s = (out.get(k, 0) + c * a) % P
            if s:
                out[k] = s
            else:
                out.pop(k, None)
    return out


def scaled(c, v):
    return vadd((c, v))


def fz(v):
    if isinstance(v, dict):
        return tuple(sorted(v.items(), key=repr))
    if isinstance(v, Op):
        return v.key()
    return v


class Op:
    """sum of c * word, plus sum of c <v, .> u"""

    def __init__(self, words, ranks=()):
        self.words, self.ranks = words, tuple(ranks)

    def key(self):
        return (tuple(sorted(self.words.items(), key=repr)), tuple(sorted(((c, fz(u), fz(v)) for c, u, v in self.ranks), key=repr)))


class Algebra:
    laws = {}            # values of particular inner products, {(a, word, b): value}
    rules = {}           # {(operator, base): vector}: the image of an unknown vector
    trivial = ()         # operators taken to be the identity

    def __init__(self, laws=None, rules=None, trivial=()):
        self.laws, self.rules, self.trivial = laws or {}, rules or {}, trivial

    def word(self, ops, v):
        """ops applied to v"""
        for o in reversed(ops):
            if o in self.trivial:
                continue
            out = {}
            for (w, b), c in v.items():
                r = self.rules.get((o, b)) if not w else None
                if r is not None:
                    out = vadd((1, out), (c, r))
                else:
                    out = vadd((1, out), (c, {(reduce_word((o,) + w), b): 1}))
            v = out
        return v

    def inner(self, u, v):
        s = 0
        for (w1, a), c in u.items():
            for (w2, b), d in v.items():
                s += c * d % P * self.pair(a, reduce_word(adjoint(w1) + w2), b)
        return s % P

    def pair(self, a, w, b):
        for k in ((a, w, b), (b, adjoint(w), a)):
            if k in self.laws:
                return self.laws[k]
        return rnd("inner", min([(a, w, b), (b, adjoint(w), a)], key=repr))

    def apply(self, op, v):
        out = {}
        for w, c in op.words.items():
            out = vadd((1, out), (c, self.word(w, v)))
        for c, u, x in op.ranks:
            out = vadd((1, out), (c * self.inner(x, v) % P, u))
        return out

    def conj(self, op, t="T"):
        """transport of an operator"""
        return Op({reduce_word((t,) + w + (INVERSE[t],)): c for w, c in op.words.items()},
                  [(c, self.word((t,), u), self.word((t,), v)) for c, u, v in op.ranks])


class Overflow(AnalysisBroken):
    pass


def as_op(v):
    """an unknown matrix used as an operator"""
    if isinstance(v, dict) and len(v) == 1:
        (w, b), c = next(iter(v.items()))
        return Op({(b,): c}) if not w else None
    return v if isinstance(v, Op) else None


def is_vec(t):
    t = t.replace("const", "").replace("&", "").replace("*", "").strip()
    return t in (NS + "Element", NS + "Vector", NS + "Variable", "Element", "Vector", "Variable")


def is_real(t):
    return t.replace("const", "").replace("&", "").strip() in REAL


LISTS = ("push_front", "push_back", "pop_front", "pop_back", "clear", "emplace_front", "emplace_back", "insert", "erase", "resize")


def operands(n):
    return ([n["obj"]] if n.get("obj") is not None and n["obj"] >= 0 else []) + n["args"]


MANI = {  # position of the vector, of the result, operator
    "VectorTransport": (3, 4, "T"), "InverseVectorTransport": (3, 4, "T-"), "coTangentVector": (3, 4, "C"), "PreConditioner": (1, 2, "M"),
    "ObtainIntr": (1, 2, None), "ObtainExtr": (1, 2, None), "Projection": (1, 2, None), "ExtrProjection": (1, 2, None), "IntrProjection": (1, 2, None),
}


class Paths:
    """Follows the paths of functions of one solver class."""
    LIMIT = 60000

    def __init__(self, m, cls, alg=None, local=None, given=None, opaque=(), unknown=()):
        self.m, self.cls, self.A = m, cls, alg or Algebra()
        self.local, self.given, self.opaque = local, given or {}, set(opaque)
        self.states, self.depth, self.fns, self.uses = 0, 0, set(), {}
        self.stop_at, self.on_loop, self.trace, self.on_store, self.on_arrive = None, None, None, None, None
        self.products = set()                                 # functions that apply a linear operator: (argument, where the product goes)
        self.on_round = None                                  # called with the state a round of a loop ends in
        self.losts = set()
        self.unknown, self.memo, self.tracked = set(unknown), {}, None

    # ---- places
    def place(self, f, i, al):
        i = strip(f, i)
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"):
            return self.place(f, n["c"][0], al)
        if k == "MemberExpr" and is_this_member(f, i):
            return n["m"].split("::")[-1]
        if k == "DeclRefExpr" and n["d"][0] in "LP":
            return al.get((f.usr, n["d"]), f.usr + ":" + n["d"])
        if k == "UnaryOperator" and n["op"] == "*":
            return self.pointer(f, n["c"][0], al)
        if k == "MemberExpr" and n.get("arrow") and n.get("c") and self.pointer(f, n["c"][0], al) == "this":
            return n["m"].split("::")[-1]
        return None

    def pointer(self, f, i, al):
        """place a pointer expression points to"""
        i = strip(f, i)
        n = f.nodes[i]
        if n["k"] == "ParenExpr":
            return self.pointer(f, n["c"][0], al)
        if n["k"] == "UnaryOperator" and n["op"] == "&":
            return self.place(f, n["c"][0], al)
        if n["k"] == "DeclRefExpr" and n["d"][0] in "LP":
            return al.get((f.usr, n["d"]), f.usr + ":*" + n["d"])
        if n["k"] == "CXXThisExpr":
            return "this"
        return None

    def element(self, f, i, st, al):
        """place of base[index]"""
        n = f.nodes[strip(f, i)]
        if n["k"] != "ArraySubscriptExpr":
            return None
        b = f.nodes[strip(f, n["c"][0])]
        name = b["m"].split("::")[-1] if b["k"] == "MemberExpr" else f.usr + ":" + b["d"] if b["k"] == "DeclRefExpr" else None
        x = self.val(f, n["c"][1], st, al)
        return "%s[%s]" % (name, x) if name and isinstance(x, int) else None

    # ---- values
    def get(self, st, p, t):
        v = st.get(p)
        if isinstance(v, tuple) and v and v[0] in ("lost", "any") and is_vec(t):
            return vec("%s!%s" % (p, rnd(v)))
        if v is not None:
            return v
        if is_vec(t):
            return vec(p)
        if is_real(t):
            return rnd("value", p)
        return None

    def val(self, f, i, st, al, d=0):
        i = strip(f, i)
        if i is None or i < 0 or d > 60:
            return None
        n = f.nodes[i]
        k, t = n["k"], n.get("t", "")
        V = lambda x: self.val(f, x, st, al, d + 1)
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            return V(n["c"][0]) if n.get("c") else None
        if ("n", f.usr, i) in st:
            return st["n", f.usr, i]
        if k in ("IntegerLiteral", "FloatingLiteral"):
            return num(n["v"])
        if k == "CXXBoolLiteralExpr":
            return str(n.get("v")).lower() in ("1", "true")
        if k == "UnaryOperator" and n["op"] in ("-", "+"):
            a = V(n["c"][0])
            if isinstance(a, dict):
                return scaled(-1 if n["op"] == "-" else 1, a)
            return None if not isinstance(a, int) or isinstance(a, bool) else (-a if n["op"] == "-" else a) % P
        if k == "BinaryOperator" and n["op"] in ("+", "-", "*", "/"):
            a, b = V(n["c"][0]), V(n["c"][1])
            return self.arith(n["op"], a, b)
        if k == "BinaryOperator" and n["op"] == "=":
            return V(n["c"][0])
        if k == "BinaryOperator" and n["op"] == "%":
            a, b = V(n["c"][0]), V(n["c"][1])
            return rnd("mod", a, b) if isinstance(a, int) and isinstance(b, int) else None
        if k == "CXXOperatorCallExpr" and n.get("op") in ("+", "-", "*", "/"):
            xs = operands(n)
            if not xs:
                return None
            if len(xs) == 1:
                a = V(xs[0])
                if isinstance(a, dict) and n["op"] == "-":
                    return scaled(-1, a)
                p = None
                return rnd("deref", f.usr, i) if n["op"] == "*" and is_real(t) else None
            return self.arith(n["op"], V(xs[0]), V(xs[1]))
        if k == "ConditionalOperator":
            v = self.truth(f, n["c"][0], st, al)
            if v is None:
                return None
            return V(n["c"][1 if v else 2])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if n.get("copy") and n.get("args"):
                return V(n["args"][0])
            if n.get("args") and len(n["args"]) == 1 and is_vec(t):
                v = V(n["args"][0])
                if isinstance(v, (dict, Op)):
                    return v
            return vec("new:%s:%d" % (f.usr, i)) if is_vec(t) else None
        if k == "CallExpr":
            q = n.get("fn", "").split("::")[-1]
            xs = [V(a) for a in n["args"]]
            if not all(isinstance(x, int) and not isinstance(x, bool) for x in xs):
                return None
            if q in ("fabs", "abs"):
                return rnd("abs", min(xs[0], P - xs[0]))
            if q == "sqrt":
                return sqrt(xs[0])
            if q == "pow" and n["args"] and xs[1] == num(2):
                return xs[0] * xs[0] % P
            if q == "epsilon":
                return rnd("epsilon")
            return rnd("call", q, *xs)
        if k == "CXXMemberCallExpr":
            if is_vec(t):
                p = n.get("fn", "").split("::")[-1]
                return vec("got:" + p) if p.startswith("GetEMPTY") else None
            if is_real(t):
                p = self.place(f, n["obj"], al) if n.get("fn", "").endswith(("::front", "::back", "::size")) and (n.get("obj") or -1) >= 0 else None
                if p:
                    return rnd("list", p, n["fn"].split("::")[-1], st.get(("version", p)))
                return rnd("call", f.usr, i, n.get("fn"))
            return None
        if k == "DeclRefExpr" and n["d"].startswith("E:"):
            return ("enum", n["d"].split("::")[-1].split(":")[-1])
        p = self.place(f, i, al) or self.element(f, i, st, al)
        if p:
            return self.get(st, p, t)
        if k == "DeclRefExpr" and is_real(t):
            return rnd("global", n["d"])
        return None

    @staticmethod
    def arith(op, a, b):
        r = lambda x: isinstance(x, int) and not isinstance(x, bool)
        if r(a) and r(b):
            return (a + b) % P if op == "+" else (a - b) % P if op == "-" else a * b % P if op == "*" else div(a, b)
        if isinstance(a, dict) and isinstance(b, dict) and op in "+-":
            return vadd((1, a), (1 if op == "+" else -1, b))
        if op == "*" and r(a) and isinstance(b, dict):
            return scaled(a, b)
        if op == "*" and r(b) and isinstance(a, dict):
            return scaled(b, a)
        if op == "/" and r(b) and isinstance(a, dict):
            return scaled(div(1, b), a)
        return None

    # ---- facts
    @staticmethod
    def sign(v):
        """(canonical key, True when the key has the sign of v)"""
        v %= P
        return (v, True) if v <= P - v else (P - v, False)

    def known(self, st, v):
        """is v > 0 on this path? (True / False / None; equality is not told apart)"""
        k, s = self.sign(v)
        r = st.get(("pos", k))
        return None if r is None else r == s

    def truth(self, f, i, st, al):
        r = {v for v, s in self.split(f, i, st, al)}
        return r.pop() if len(r) == 1 else None

    def split(self, f, i, st, al):
        """[(truth value, facts)]"""
        i = strip(f, i)
        n = f.nodes[i]
        k = n["k"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return self.split(f, n["c"][0], st, al)
        if k == "CXXBoolLiteralExpr":
            return [(str(n.get("v")).lower() in ("1", "true"), st)]
        if k == "UnaryOperator" and n["op"] == "!":
            return [(not v, s) for v, s in self.split(f, n["c"][0], st, al)]
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            out = []
            for v, s in self.split(f, n["c"][0], st, al):
                if v == (n["op"] == "||"):
                    out.append((v, s))
                else:
                    out += self.split(f, n["c"][1], s, al)
            return out
        if k == "ConditionalOperator":
            out = []
            for v, s in self.split(f, n["c"][0], st, al):
                out += self.split(f, n["c"][1 if v else 2], s, al)
            return out
        if k == "BinaryOperator" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            bs = [f.nodes[strip(f, x)].get("t", "") for x in n["c"]]
            if all(is_bool(t) for t in bs) and n["op"] in ("==", "!="):
                out = []
                for v, s in self.split(f, n["c"][0], st, al):
                    out += [((v == w) == (n["op"] == "=="), s2) for w, s2 in self.split(f, n["c"][1], s, al)]
                return out
            a, b = (self.val(f, x, st, al) for x in n["c"])
            return self.compare(n["op"], a, b, st, quiet=any("Verbose" in f.nodes[x].get("m", "") for x in f.walk(i)))
        if k in ("CallExpr", "CXXMemberCallExpr") and n.get("fn", "").split("::")[-1] in ("isnan", "isinf"):
            return [(False, st)]
        v = self.val(f, i, st, al)
        if isinstance(v, bool):
            return [(v, st)]
        p = self.place(f, i, al)
        if isinstance(v, int) and not is_bool(n.get("t", "")):
            return self.compare("!=", v, 0, st)
        key = ("bool", p) if p else ("bool", f.usr, i) if k in ("CallExpr", "CXXMemberCallExpr") else None
        return self.fork(key, st)

    def fork(self, key, st, flip=False):
        if key is None:
            return [(True, st), (False, st)]
        v = st.get(key)
        if v is not None:
            return [(v != flip, st)]
        out = []
        for v in (True, False):
            s = dict(st)
            s[key] = v
            out.append((v != flip, s))
        return out

    def compare(self, op, a, b, st, quiet=False):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op not in ("==", "!="):
                return [(True, st), (False, st)]
            if isinstance(a, tuple) and isinstance(b, tuple):
                if a[0] == b[0] == "enum":
                    return [((a == b) == (op == "=="), st)]
                e, o = (a, b) if a[0] == "enum" else (b, a)
                if e[0] == "enum":
                    if any(k[0] == "is" and len(k) == 3 and k[1] == o and k[2] != e and v for k, v in st.items() if isinstance(k, tuple)):
                        return [(op == "!=", st)]
                    return self.fork(("is", o, e), st, op == "!=")
            return self.fork(("same", str(a), str(b)), st, op == "!=")
        if not (isinstance(a, int) and isinstance(b, int)):
            return [(True, st), (False, st)]
        v = (a - b) % P
        if v == 0:
            return [(op in ("==", "<=", ">="), st)]
        k, s = self.sign(v)
        small = lambda x: x < 10 ** 6 or P - x < 10 ** 6
        if small(a) and small(b):
            x, y = (z if z < 10 ** 6 else z - P for z in (a, b))
            return [({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op], st)]
        if quiet:
            return [(True, st), (False, st)]
        if op in ("==", "!="):
            return self.fork(("eq", k), st, op == "!=")
        return self.fork(("pos", k), st, (op[0] == ">") != s)

    # ---- execution
    def put(self, st, p, v, where):
        st = dict(st)
        if p.endswith("]"):
            if self.on_store and isinstance(v, (dict, int)):
                self.on_store(st, p, v)
            b = p[:p.rindex("[") + 1]
            for q in [q for q in st if isinstance(q, str) and q.startswith(b) and q != p]:
                st[q] = ("lost", where)
        for k in [k for k in st if isinstance(k, tuple) and k[0] == "bool" and len(k) == 2 and k[1] == p]:
            del st[k]
        if v is None:
            v = ("any", where)
        st[p] = v
        return st

    def lose(self, st, p, t, where):
        """p gets a value nothing is known of"""
        v = vec("%s@%s" % (p, where)) if is_vec(t) else rnd("lost", p, where) if is_real(t) else ("any", p, where)
        if isinstance(v, int):
            self.losts.add(v)
        return self.put(st, p, v, where)

    def assign(self, f, p, t, rhs, st, al, where):
        if p is None:
            return [st]
        if is_bool(t):
            out = []
            for v, s in self.split(f, rhs, st, al):
                out.append(self.put(s, p, v, where))
            return out
        v = self.val(f, rhs, st, al)
        if v is None or isinstance(v, bool) != is_bool(t):
            return [self.lose(st, p, t, where)]
        return [self.put(st, p, v, where)]

    def callee(self, n):
        u = n.get("usr")
        g = (self.m.resolve(u, self.cls) if n["k"] == "CXXMemberCallExpr" and n.get("virt") else None) or self.m.fns.get(u)
        return g if g is not None and g.entry is not None else None

    def step(self, f, x, st, al):
        n = f.nodes[x]
        k = n["k"]
        where = "%d:%s" % (x, f.short)
        if k == "DeclStmt":
            outs = [st]
            for v in n["vars"]:
                p = f.usr + ":" + v["d"]
                i = v.get("i", -1)
                t = v["t"]
                if t.rstrip().endswith("&") or t.rstrip().endswith("*"):
                    if i is not None and i >= 0:
                        q = self.place(f, i, al) if t.rstrip().endswith("&") else self.pointer(f, i, al)
                        if q:
                            al[f.usr, v["d"]] = q
                    continue
                nxt = []
                for o in outs:
                    if i is not None and i >= 0:
                        nxt += self.assign(f, p, t, i, o, al, where)
                    else:
                        nxt.append(self.lose(o, p, t, where))
                outs = nxt
            return outs
        if k == "BinaryOperator" and n["op"] == "=":
            p = self.place(f, n["c"][0], al) or self.element(f, n["c"][0], st, al)
            return self.assign(f, p, f.nodes[strip(f, n["c"][0])].get("t", ""), n["c"][1], st, al, where)
        if k == "CXXOperatorCallExpr" and n.get("op") == "=":
            xs = operands(n)
            p = self.place(f, xs[0], al) or self.element(f, xs[0], st, al)
            t = f.nodes[strip(f, xs[0])].get("t", "")
            return self.assign(f, p, t, xs[1], st, al, where) if p else [st]
        if k == "CompoundAssignOperator":
            p = self.place(f, n["c"][0], al) or self.element(f, n["c"][0], st, al)
            if p is None:
                return [st]
            t = f.nodes[strip(f, n["c"][0])].get("t", "")
            v = self.arith(n["op"][0], self.val(f, n["c"][0], st, al), self.val(f, n["c"][1], st, al))
            return [self.put(st, p, v, where) if v is not None else self.lose(st, p, t, where)]
        if k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            p = self.place(f, n["c"][0], al)
            t = f.nodes[strip(f, n["c"][0])].get("t", "")
            if p is None or not is_real(t):
                return [st]
            v = self.val(f, n["c"][0], st, al)
            st = self.put(st, p, (v + (1 if "+" in n["op"] else -1)) % P if isinstance(v, int) else None, where)
            st["n", f.usr, x] = v if n["op"].startswith("post") else st[p]
            return [st]
        if k == "CXXMemberCallExpr":
            return self.member(f, x, n, st, al, where)
        if k == "CallExpr":
            g = self.callee(n)
            if g is not None and self.local and self.local(g):
                return self.enter(f, x, n, g, st, al)
            q = n.get("fn", "").split("::")[-1]
            if q in ("max", "min", "fmax", "fmin") and len(n["args"]) == 2:
                a, b = (self.val(f, y, st, al) for y in n["args"])
                if isinstance(a, int) and isinstance(b, int):
                    out = []
                    for v, s in self.compare(">", a, b, st):
                        s = dict(s)
                        s["n", f.usr, x] = a if v == q.endswith("max") else b
                        out.append(s)
                    return out
            return [self.spoil(f, n, st, al, where)]
        if k in ("CXXConstructExpr",):
            return [st]
        return [st]

    def spoil(self, f, n, st, al, where):
        for j, a in enumerate(n.get("args", ())):
            if a is None or a < 0:
                continue
            y = f.nodes[strip(f, a)]
            t = y.get("t", "")
            p = None
            if j in n.get("ref", ()):
                p = self.place(f, a, al)
            elif t.rstrip().endswith("*") and not t.startswith("const "):
                p = self.pointer(f, a, al)
                t = t.rstrip()[:-1]
            if p and p != "this":
                st = self.lose(st, p, t, where)
        return st

    def keep(self, st, f, x, v):
        st = dict(st)
        st["n", f.usr, x] = v
        return st

    def out(self, f, x, i, v, st, al, where):
        """v is stored where pointer i points to and is the value of the call"""
        p = self.pointer(f, i, al)
        if p is None:
            q = strip(f, i)
            if f.nodes[q]["k"] == "UnaryOperator" and f.nodes[q]["op"] == "&":
                p = self.element(f, f.nodes[q]["c"][0], st, al)
        t = f.nodes[strip(f, i)].get("t", "").rstrip().rstrip("*")
        if p:
            st = self.put(st, p, v, where) if v is not None else self.lose(st, p, t, where)
            v = st[p]
        return [self.keep(st, f, x, v)]

    def member(self, f, x, n, st, al, where):
        fn = n.get("fn", "")
        q = fn.split("::")[-1]
        a = n["args"]
        cls = n.get("cls", "")
        V = lambda i: self.val(f, i, st, al)
        A = self.A
        if cls in (NS + "Manifold", NS + "Problem") or self.isa(cls, (NS + "Manifold", NS + "Problem")):
            self.uses[q] = self.uses.get(q, 0) + 1
            if q in MANI:
                i, o, op = MANI[q]
                v = V(a[i])
                if self.trace is not None:
                    self.trace.append((q, self.place(f, a[i], al), self.pointer(f, a[o], al)))
                v = None if not isinstance(v, dict) else v if op is None else A.word((op,), v)
                return self.out(f, x, a[o], v, st, al, where)
            if q == "Metric":
                u, v = V(a[1]), V(a[2])
                return [self.keep(st, f, x, A.inner(u, v) if isinstance(u, dict) and isinstance(v, dict) else rnd("call", f.usr, x))]
            if q in ("ScalarTimesVector", "ScalarVectorAddVector", "VectorLinearCombination"):
                xs = [V(i) for i in a[1:-1]]
                try:
                    v = scaled(xs[0], xs[1]) if q[6] == "T" else vadd((xs[0], xs[1]), (1, xs[2])) if q[0] == "S" else vadd((xs[0], xs[1]), (xs[2], xs[3]))
                except (TypeError, AttributeError):
                    v = None
                return self.out(f, x, a[-1], v, st, al, where)
            if q == "Retraction" and len(a) >= 3:
                u, v = V(a[0]), V(a[1])
                return self.out(f, x, a[2], vec("retraction%s" % rnd(fz(u), fz(v))), st, al, where)
            if q == "LinearOPEEta":
                op, v = as_op(V(a[1])), V(a[2])
                return self.out(f, x, a[3], A.apply(op, v) if isinstance(op, Op) and isinstance(v, dict) else None, st, al, where)
            if q == "HaddScaledRank1OPE":
                if len(a) == 6:
                    op, c, u, v = (V(i) for i in a[1:5])
                    op = as_op(op)
                else:
                    op = as_op(self.get(st, self.pointer(f, a[-1], al) or "?", NS + "Element"))
                    c, u, v = (V(i) for i in a[1:4])
                ok = isinstance(op, Op) and isinstance(c, int) and isinstance(u, dict) and isinstance(v, dict)
                return self.out(f, x, a[-1], Op(op.words, op.ranks + ((c, u, v),)) if ok else None, st, al, where)
            if q == "TranHInvTran":
                op = as_op(V(a[3]) if len(a) == 5 else self.get(st, self.pointer(f, a[-1], al) or "?", NS + "Element"))
                return self.out(f, x, a[-1], A.conj(op) if isinstance(op, Op) else None, st, al, where)
            if q == "f":
                u = V(a[0])
                return [self.keep(st, f, x, rnd("cost", fz(u)))]
            if q in ("Grad", "EucGrad") and len(a) == 2:
                return self.out(f, x, a[1], vec("gradient%s" % rnd(fz(V(a[0])))), st, al, where)
            if q == "HessianEta":
                v = V(a[1])
                if self.trace is not None:
                    self.trace.append((q, self.place(f, a[1], al), self.pointer(f, a[2], al)))
                return self.out(f, x, a[2], A.word(("Hess",), v) if isinstance(v, dict) else None, st, al, where)
            if q == "Beta":
                return [self.keep(st, f, x, rnd("beta"))]
            return [self.spoil(f, n, st, al, where)]
        if q == "HessianEta" and len(a) == 2:
            v = V(a[0])
            if self.trace is not None:
                self.trace.append((q, self.place(f, a[0], al), self.pointer(f, a[1], al)))
            return self.out(f, x, a[1], A.word(("Hess",), v) if isinstance(v, dict) else None, st, al, where)
        if n.get("obj", -1) is not None and n.get("obj", -1) >= 0:
            p = self.place(f, n["obj"], al)
            t = f.nodes[strip(f, n["obj"])].get("t", "")
            if p and p != "this":
                if q == "ScaledIdOPE":
                    c = V(a[0]) if a and a[0] >= 0 and f.nodes[strip(f, a[0])]["k"] != "CXXDefaultArgExpr" else 1
                    return [self.put(st, p, Op({(): c}), where) if isinstance(c, int) else self.lose(st, p, t, where)]
                if q == "ScalarTimesThis" and is_vec(t):
                    c, v = V(a[0]), self.get(st, p, t)
                    return [self.put(st, p, scaled(c, v), where)] if isinstance(c, int) and isinstance(v, dict) else [self.lose(st, p, t, where)]
                if q in LISTS:
                    st = dict(st)
                    st["version", p] = where
                    if q not in ("pop_back", "resize"):
                        first = q == "insert" and len(a) == 2 and any(f.nodes[y].get("fn", "").split("::")[-1] in ("begin", "cbegin") for y in list(f.walk(a[0]))[:3])
                        v = V(a[-1]) if (first or q in ("push_front", "emplace_front")) and a else None
                        st.pop(("front", p), None)
                        if v is not None:
                            st["front", p] = v
                    return [st]
                if is_vec(t) and not n.get("const") and q not in ("Setiscomplex", "Delete", "Reshape"):
                    return [self.lose(self.spoil(f, n, st, al, where), p, t, where)]
        g = self.callee(n)
        if q in self.unknown and g is not None:
            w = self.written(g, g.blocks, al)
            for p, t in sorted(w.items()):
                if not p.startswith(g.usr) and not p.endswith("["):
                    st = self.lose(st, p, t, q)
            return [self.spoil(f, n, st, al, where)]
        if g is not None and self.local and self.local(g) and q not in self.opaque:
            if not self.matters(g, al) and not is_real(n.get("t", "")) and not is_bool(n.get("t", "")) and not is_vec(n.get("t", "")):
                return [st]
            return self.enter(f, x, n, g, st, al)
        if q in self.products and len(a) == 2 and isinstance(V(a[0]), dict):
            return self.out(f, x, a[1], A.word((q,), V(a[0])), st, al, where)
        if q in self.opaque and is_real(n.get("t", "")):
            return [self.keep(st, f, x, rnd("opaque", q))]
        return [self.spoil(f, n, st, al, where)]

    def matters(self, g, al):
        """does g assign anything but its own variables?"""
        r = self.memo.get(g.usr)
        if r is None:
            r = self.memo[g.usr] = any(not p.startswith(g.usr) for p in self.written(g, g.blocks, al)) or any(p["t"].rstrip().endswith(("*", "&")) and not p["t"].startswith("const") for p in g.params)
            r = self.memo[g.usr] = r or any(g.nodes[x]["k"] == "CXXMemberCallExpr" and g.nodes[x].get("fn", "").split("::")[-1] in LISTS and (self.place(g, g.nodes[x].get("obj"), al) or g.usr).startswith(g.usr) is False for x in g.walk())
        return r

    def isa(self, c, roots):
        return c and any(b in roots for b in [c] + list(self.m.bases(c) if c in self.m.classes else []))

    def enter(self, f, x, n, g, st, al):
        if self.depth > 7:
            return [self.spoil(f, n, st, al, "deep")]
        al2 = dict(al)
        st = dict(st)
        for p, a in zip(g.params, n["args"]):
            if a is None or a < 0:
                continue
            t = p["t"].rstrip()
            if t.endswith("*"):
                q = self.pointer(f, a, al)
                if q:
                    al2[g.usr, p["d"]] = q
                continue
            if t.endswith("&"):
                q = self.place(f, a, al)
                if q:
                    al2[g.usr, p["d"]] = q
                    continue
            v = self.val(f, a, st, al)
            if v is not None:
                st = self.put(st, g.usr + ":" + p["d"], v, "arg")
                if isinstance(v, dict) or not t.endswith("&"):
                    al2.pop((g.usr, p["d"]), None)
        self.depth += 1
        out = []
        for label, o, r in self.run(g, st, al2):
            if label == "stop":
                raise Overflow("%s: unexpected end" % g.qual())
            o = {k: v for k, v in o.items() if not (isinstance(k, str) and k.startswith(g.usr + ":") or isinstance(k, tuple) and len(k) > 1 and (k[1] == g.usr or isinstance(k[1], str) and k[1].startswith(g.usr + ":")))}
            if r is not None:
                o["n", f.usr, x] = r
            out.append(o)
        self.depth -= 1
        if self.tracked is not None and n.get("virt") and (g.ret or "void") == "void":
            out = self.project(st, out, g, "%d:%s" % (x, f.short), al)
        return out

    def project(self, st, out, g, where, al):
        """what a virtual step of the algorithm did, as far as the tracked places go"""
        w = {p: t for p, t in self.written(g, g.blocks, al).items() if not p.startswith(g.usr) and not p.endswith("[")}
        res = {}
        for o in out:
            s = {k: v for k, v in st.items() if k not in w}
            for p, t in w.items():
                if p in self.tracked:
                    if p in o:
                        s[p] = o[p]
                else:
                    s = self.lose(s, p, t, where)
            res.setdefault(self.freeze(s), s)
        return list(res.values())

    @staticmethod
    def freeze(st):
        return frozenset((k, fz(v)) for k, v in st.items())

    def written(self, f, blocks, al, seen=None):
        """{place: type} that the blocks may assign"""
        out = {}
        seen = seen or set()
        for b in blocks:
            for x in f.blocks[b]["s"]:
                if not isinstance(x, int):
                    continue
                n = f.nodes[x]
                k = n["k"]

                def add(i, ptr=False):
                    if i is None or i < 0:
                        return
                    p = self.pointer(f, i, al) if ptr else self.place(f, i, al)
                    t = f.nodes[strip(f, i)].get("t", "")
                    if p is None:
                        y = strip(f, i)
                        if ptr and f.nodes[y]["k"] == "UnaryOperator":
                            y = strip(f, f.nodes[y]["c"][0])
                        if f.nodes[y]["k"] == "ArraySubscriptExpr":
                            z = f.nodes[strip(f, f.nodes[y]["c"][0])]
                            nm = z["m"].split("::")[-1] if z["k"] == "MemberExpr" else f.usr + ":" + z["d"] if z["k"] == "DeclRefExpr" else None
                            if nm:
                                out[nm + "["] = ""
                    if p and p != "this":
                        out[p] = t.rstrip().rstrip("*") if ptr else t
                if k == "DeclStmt":
                    for v in n["vars"]:
                        out[f.usr + ":" + v["d"]] = v["t"]
                elif k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "<=", ">=", "!="):
                    add(n["c"][0])
                elif k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
                    add(n["c"][0])
                elif k == "CXXOperatorCallExpr" and n.get("op", "").endswith("=") and n.get("op") not in ("==", "<=", ">=", "!="):
                    add(operands(n)[0])
                elif k in ("CXXMemberCallExpr", "CallExpr"):
                    for j, a in enumerate(n["args"]):
                        if a is None or a < 0:
                            continue
                        t = f.nodes[strip(f, a)].get("t", "").rstrip()
                        if j in n.get("ref", ()):
                            add(a)
                        elif t.endswith("*") and not t.startswith("const "):
                            add(a, True)
                    t = f.nodes[strip(f, n["obj"])].get("t", "") if (n.get("obj") or -1) >= 0 else ""
                    if not n.get("const") and is_vec(t):
                        add(n["obj"])
                    g = self.callee(n)
                    if g is not None and self.local and self.local(g) and g.usr not in seen:
                        out.update({p: t for p, t in self.written(g, g.blocks, al, seen | {g.usr}).items() if not p.startswith(g.usr)})
        return out

    def run(self, f, st, al, start=None):
        """[(label, facts, value returned)]; label: 'end', 'stop' (came back to stop_at)"""
        self.fns.add(f)
        ends, seen = {}, set()
        work = [(start if start is not None else f.entry, st, dict(al), False)]
        loops = loops_of(f)
        first = start is not None
        while work:
            b, st, al, fresh = work.pop()
            if self.stop_at == (f.usr, b) and not first:
                self.end(ends, "stop", st, None)
                continue
            if b in loops and not (first and start == b):
                if self.inside(st, f, b):
                    if self.on_round:
                        self.on_round(f, b, st)
                    continue                                  # the loop has been gone through once, from an unknown state
                if self.on_arrive:
                    self.on_arrive(f, b, st)
                st = self.head(f, b, loops[b], st, al)
                if st is None:
                    continue
            first = False
            key = (b, self.freeze(st))
            if key in seen:
                continue
            seen.add(key)
            self.states += 1
            if self.states > self.LIMIT:
                raise Overflow("%s: too many paths" % f.qual())
            states = [st]
            done = False
            for x in f.blocks[b]["s"]:
                if not isinstance(x, int):
                    continue
                n = f.nodes[x]
                if n["k"] == "ReturnStmt":
                    for s in states:
                        v = None
                        if n.get("c"):
                            if is_bool(f.ret or ""):
                                for v, s2 in self.split(f, n["c"][0], s, al):
                                    self.end(ends, "end", s2, v)
                                continue
                            v = self.val(f, n["c"][0], s, al)
                        self.end(ends, "end", s, v)
                    done = True
                    break
                states = [o for s in states for o in self.step(f, x, s, al)]
            if done:
                continue
            o = f.blocks[b]
            term = f.nodes[o["term"]]["k"] if isinstance(o.get("term"), int) and o["term"] >= 0 else ""
            for s in states:
                if b == f.exit:
                    self.end(ends, "end", s, None)
                    continue
                ss = o["succ"]
                if len(ss) == 2 and o.get("cond") is not None and term != "SwitchStmt":
                    for v, s2 in self.split(f, last_cond(f, o), s, al):
                        t = ss[0 if v else 1]
                        if t is not None and t >= 0:
                            work.append((t, self.leave(f, b, t, s2, loops), al, False))
                elif term == "SwitchStmt" and o.get("cond") is not None:
                    v = self.val(f, o["cond"], s, al)
                    other, left = [], [s]
                    for t in ss:
                        if t is None or t < 0:
                            continue
                        l = f.blocks[t].get("label")
                        l = f.nodes[l] if isinstance(l, int) and l >= 0 else None
                        e = self.val(f, l["val"], s, al) if l is not None and l["k"] == "CaseStmt" else None
                        if e is None or v is None:
                            other.append(t)
                            continue
                        both = [q for s1 in left for q in self.compare("==", v, e, s1)]
                        work += [(t, self.leave(f, b, t, s2, loops), al, False) for w, s2 in both if w]
                        left = [s2 for w, s2 in both if not w]
                    rest = [(t, s2) for t in other for s2 in (left if v is not None else [s])]
                    work += [(t, self.leave(f, b, t, s2, loops), al, False) for t, s2 in rest]
                else:
                    work += [(t, self.leave(f, b, t, s, loops), al, False) for t in ss if t is not None and t >= 0]
        return list(ends.values())

    def inside(self, st, f, b):
        return st.get(("loop", f.usr, b)) is not None

    @staticmethod
    def crossing(f):
        """calls whose value is used by a statement of another block"""
        r = f.__dict__.get("_crossing")
        if r is None:
            blk = block_of(f)
            r = set()
            for y, b in blk.items():
                r |= {z for z in f.walk(y) if z in blk and blk[z] != b}
            f._crossing = r
        return r

    def leave(self, f, b, t, st, loops):
        c = self.crossing(f)
        old = [k for k in st if isinstance(k, tuple) and k[0] == "n" and k[1] == f.usr and k[2] not in c]
        if old:
            st = {k: v for k, v in st.items() if k not in old}
        gone = [k for k in st if isinstance(k, tuple) and k[0] == "loop" and k[1] == f.usr and b in loops[k[2]] and t not in loops[k[2]]]
        if gone:
            st = {k: v for k, v in st.items() if k not in gone}
        return st

    def head(self, f, b, body, st, al):
        """facts at the head of a loop after any number of rounds"""
        w = self.written(f, body, al)
        st = dict(st)
        for p, t in w.items():
            if p.endswith("["):
                for q in [q for q in st if isinstance(q, str) and q.startswith(p)]:
                    st = self.lose(st, q, "", "loop%d" % b)
            else:
                st = self.lose(st, p, t, "loop%d:%s" % (b, f.short))
        if self.on_loop:
            st = self.on_loop(f, b, w, st, al)
            if st is None:
                return None
        st["loop", f.usr, b] = True
        return st

    def end(self, ends, label, st, v):
        ends.setdefault((label, self.freeze(st), fz(v)), (label, st, v))


def solver_local(g):
    return "Solvers/" in g.file or "sa/fixtures/" in g.file
