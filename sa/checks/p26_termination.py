"""Every loop inside a solver, manifold or problem comes to an end, whatever values the objective returns."""
from model import NS, AnalysisBroken
from util import *
from ptr import INTENT
from walk import last_cond
from checks.p11_verbosity import loops_of

FIXTURES = ("endless.cpp",)
MINIMUM = {"loop-ends": 250, "fixture": 8}
INT = ("int", "long", "integer", "unsigned int", "unsigned long", "size_t", "unsigned", "ROPTLIB::integer", "short", "std::size_t", "long long")
REAL = ("double", "float", "realdp", "ROPTLIB::realdp")
# parameters that lie strictly between 0 and 1 (CheckParams) / that are positive bounds
RATIO = ("LS_ratio", "LS_ratio1", "LS_ratio2", "Theta_eps", "Theta_del", "Shrinked_tau")
SKIP = ("Manifolds/Element.", "Manifolds/SmartSpace.")


def kind(t):
    t = t.replace("const", "").replace("&", "").replace("struct ", "").strip()
    return "int" if t in INT else "real" if t in REAL else "iter" if "iterator" in t or t.endswith("*") else None


def key(f, i):
    """Name of a place that holds one number: a local, a parameter, a member of *this, what a parameter points to."""
    i = strip(f, i)
    n = f.nodes[i]
    if n["k"] == "ParenExpr":
        return key(f, n["c"][0])
    if n["k"] == "DeclRefExpr" and n["d"][0] in "LP":
        return n["d"]
    if n["k"] == "MemberExpr" and is_this_member(f, i):
        return "this." + n["m"]
    if n["k"] == "UnaryOperator" and n["op"] == "*":
        k = key(f, n["c"][0])
        return "*" + k if k else None
    return None


def reads_only(m, n, q):
    """Does the callee only read what argument q points to?"""
    it = INTENT.get((n.get("fn", "").split("::")[-1], len(n["args"])))
    if it:
        return it[q] in "pr"
    g = m.fns.get(n.get("usr"))
    return g is not None and q < len(g.params) and g.params[q]["t"].startswith("const")


def written_members(m, f, seen=None):
    """Members of *this that f, or what it calls on this, may write."""
    r = f.__dict__.get("_wm")
    if r is not None:
        return r
    seen = seen if seen is not None else set()
    if f.usr in seen:
        return set()
    seen.add(f.usr)
    out = set()
    for x, l, r, op in assigns(f):
        k = key(f, l)
        if k and k.startswith("this."):
            out.add(k)
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            for q, a in enumerate(n["args"] or ()):
                if a is None or a < 0:
                    continue
                y = f.nodes[strip(f, a)]
                k = None
                if y["k"] == "UnaryOperator" and y["op"] == "&":
                    k = key(f, y["c"][0])
                elif q in n.get("ref", ()):
                    k = key(f, a)
                if k and k.startswith("this."):
                    out.add(k)
            o = n.get("obj", -1)
            if n["k"] == "CXXMemberCallExpr" and (o is None or o < 0 or f.nodes[strip(f, o)]["k"] == "CXXThisExpr"):
                gs = m.targets(n["usr"]) if n.get("virt") else [m.fns.get(n.get("usr"))]
                for g in gs or ():
                    g = m.fns.get(g) if isinstance(g, str) else g
                    if g is not None and g.entry is not None:
                        out |= written_members(m, g, seen)
    if len(seen) == 1:
        f._wm = out
    return out


class LoopView:
    def __init__(self, m, f, h, body):
        self.m, self.f, self.h, self.body = m, f, h, body
        blk = block_of(f)
        self.blk = blk
        self.writes = {}      # key -> [(node, op, rhs)]
        self.vague = set()    # keys that may change in a way not seen
        for x, l, r, op in assigns(f):
            if blk.get(x, self.find(x)) in body:
                k = key(f, l)
                if k:
                    self.writes.setdefault(k, []).append((x, op, r))
        for b in body:
            for x in f.blocks[b]["s"]:
                if not isinstance(x, int):
                    continue
                n = f.nodes[x]
                if n["k"] == "DeclStmt":
                    for v in n["vars"]:
                        self.writes.setdefault(v["d"], []).append((x, "decl", v.get("i", -1)))
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("++", "--", "="):
                    o = n["obj"] if "obj" in n else n["args"][0]
                    k = key(f, o)
                    if k:
                        self.writes.setdefault(k, []).append((x, n["op"] if n["op"] != "=" else "set", -1))
                if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr"):
                    for q, a in enumerate(n.get("args") or ()):
                        if a is None or a < 0:
                            continue
                        y = f.nodes[strip(f, a)]
                        if y["k"] == "UnaryOperator" and y["op"] == "&":
                            k = key(f, y["c"][0])
                            if k and not reads_only(m, n, q):
                                self.vague.add(k)
                        elif q in n.get("ref", ()):
                            k = key(f, a)
                            if k:
                                self.vague.add(k)
                        elif y["k"] == "DeclRefExpr" and y["d"][0] in "LP" and y.get("t", "").rstrip().endswith("*") and not y.get("t", "").startswith("const"):
                            self.vague.add("*" + y["d"])
                    o = n.get("obj", -1)
                    if n["k"] == "CXXMemberCallExpr" and (o is None or o < 0 or f.nodes[strip(f, o)]["k"] == "CXXThisExpr"):
                        gs = m.targets(n["usr"]) if n.get("virt") else [m.fns.get(n.get("usr"))]
                        for g in gs or ():
                            g = m.fns.get(g) if isinstance(g, str) else g
                            if g is not None and g.entry is not None:
                                self.vague |= written_members(m, g)

    def find(self, x):
        """block in which a nested expression is evaluated"""
        par = self.f.parent()
        while x is not None and x not in self.blk:
            x = par.get(x)
        return self.blk.get(x)

    def exits(self):
        """[(block, condition node, truth value with which the loop goes on)]"""
        out = []
        for b in self.body:
            o = self.f.blocks[b]
            ss = o["succ"]
            if len(ss) == 2 and o.get("cond") is not None:
                ins = [s is not None and self.leads(s) for s in ss]
                if ins[0] != ins[1]:
                    out.append((b, last_cond(self.f, o), ins[0]))
        return out

    def leads(self, s):
        """Does block s stay in the loop?"""
        return s in self.body

    def conditions(self):
        """Branches whose one way certainly ends the loop (possibly after more of the condition): [(block, cond, going-on value)]"""
        return self.exits()

    def cycle_avoiding(self, blocks):
        """Is there a way from the header to the header that passes none of the blocks?"""
        if self.h in blocks:
            return False
        seen, st = set(), [s for s in self.f.blocks[self.h]["succ"] if s is not None and s in self.body]
        while st:
            b = st.pop()
            if b == self.h:
                return True
            if b in seen or b in blocks:
                continue
            seen.add(b)
            st += [s for s in self.f.blocks[b]["succ"] if s is not None and s in self.body]
        return False

    def invariant(self, i):
        for x in self.f.walk(i):
            k = key(self.f, x)
            if k and (k in self.writes or k in self.vague):
                return False
        return True


def steps(L, k):
    """'up' / 'down' when all writes of the integer or iterator k in the loop go one way, with the blocks of those that are strict."""
    f = L.f
    d, blocks = None, set()
    if k in L.vague:
        return None, blocks
    for x, op, r in L.writes.get(k, ()):
        way = None
        if op in ("++", "post++"):
            way = "up"
        elif op in ("--", "post--"):
            way = "down"
        elif op in ("+=", "-=", "*=", "/="):
            v = literal(f, r)
            if v is None:
                return None, set()
            if op in ("+=", "-=") and v != 0:
                way = "up" if (v > 0) == (op == "+=") else "down"
            elif v > 1:
                way = "up" if op == "*=" else "down"
        elif op == "=":
            n = f.nodes[unfold(f, r)]
            if n["k"] == "BinaryOperator" and n["op"] in ("+", "-", "*", "/"):
                a, b = n["c"]
                if key(f, b) == k and n["op"] in ("+", "*"):
                    a, b = b, a
                v = literal(f, b)
                if key(f, a) == k and v is not None:
                    if n["op"] in ("+", "-") and v != 0:
                        way = "up" if (v > 0) == (n["op"] == "+") else "down"
                    elif n["op"] in ("*", "/") and v > 1:
                        way = "up" if n["op"] == "*" else "down"
        if way is None or d not in (None, way):
            return None, set()
        d = way
        blocks.add(L.blk.get(x, L.find(x)))
    return d, blocks


def literal(f, i):
    i = unfold(f, i)
    n = f.nodes[i]
    if n["k"] in ("IntegerLiteral", "FloatingLiteral"):
        return float(n["v"])
    if n["k"] == "UnaryOperator" and n["op"] == "-":
        v = literal(f, n["c"][0])
        return None if v is None else -v
    return None


def leading(f, i, k):
    """Is expression i the place k, or k plus / times a positive constant?"""
    if key(f, i) == k:
        return True
    n = f.nodes[unfold(f, i)]
    if n["k"] == "BinaryOperator" and n["op"] in ("+", "*", "-"):
        a, b = n["c"]
        if leading(f, a, k):
            v = literal(f, b)
            return v is not None and (v > 0 or n["op"] != "*")
        if n["op"] in ("+", "*") and leading(f, b, k):
            v = literal(f, a)
            return v is not None and (v > 0 or n["op"] != "*")
    return False


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}


def negated(f, c, go):
    c = unfold_paren(f, c)
    while f.nodes[c]["k"] == "UnaryOperator" and f.nodes[c]["op"] == "!":
        c, go = unfold_paren(f, f.nodes[c]["c"][0]), not go
    return c, go


def unfold_paren(f, i):
    i = strip(f, i)
    while f.nodes[i]["k"] == "ParenExpr":
        i = strip(f, f.nodes[i]["c"][0])
    return i


def counted(L):
    """Tests that end the loop, grouped by the integer or iterator they bound; the loop ends when every cycle passes one of the tests
    and moves that number."""
    f = L.f
    tests = {}
    for b, c, go in L.conditions():
        c, go = negated(f, c, go)
        if f.nodes[c]["k"] == "DeclRefExpr" and c not in ():
            c, go = negated(f, unfold_here(L, c), go)
        n = f.nodes[c]
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("!=", "=="):
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            op = n["op"] if go else NEG[n["op"]]
            for v, o in (xs, xs[::-1]):
                k = key(f, v)
                if k and op == "!=" and k in L.writes:
                    tests.setdefault((k, "any"), set()).add(b)
            continue
        if n["k"] != "BinaryOperator" or n["op"] not in FLIP:
            # while (n--), while (p)
            x = c
            if n["k"] == "UnaryOperator" and n["op"] in ("--", "post--"):
                x = n["c"][0]
            k = key(f, x)
            if k and go and kind(f.nodes[strip(f, x)].get("t", "")) == "int" and k in L.writes:
                tests.setdefault((k, "down"), set()).add(b)
            continue
        op = n["op"] if go else NEG[n["op"]]
        for v, o, q in ((n["c"][0], n["c"][1], op), (n["c"][1], n["c"][0], FLIP[op])):
            for k in list(L.writes):
                x = strip(f, v)
                while f.nodes[x]["k"] == "UnaryOperator" and f.nodes[x]["op"] in ("++", "--", "post++", "post--") or f.nodes[x]["k"] == "ParenExpr":
                    x = strip(f, f.nodes[x]["c"][0])
                if not leading(f, x, k) or kind(place_type(f, x, k)) not in ("int", "iter") or not L.invariant(o):
                    continue
                if q in ("<", "<="):
                    tests.setdefault((k, "up"), set()).add(b)
                elif q in (">", ">="):
                    tests.setdefault((k, "down"), set()).add(b)
                elif q == "!=":
                    tests.setdefault((k, "any"), set()).add(b)
    for k in {k for k, d in tests}:
        d, blocks = steps(L, k)
        if d is None:
            continue
        tb = tests.get((k, d), set()) | tests.get((k, "any"), set())
        if tb and not L.cycle_avoiding(tb) and not L.cycle_avoiding(blocks):
            return "%s %s" % (k.split(":")[-1].split("::")[-1], "rises" if d == "up" else "falls")
    return None


def unfold_here(L, c):
    """A truth value kept in a local that is set once inside the loop."""
    f = L.f
    k = key(f, c)
    w = L.writes.get(k, ())
    if len(w) == 1 and k not in L.vague and w[0][1] in ("decl", "=") and w[0][2] is not None and w[0][2] >= 0:
        return w[0][2]
    return c


def place_type(f, x, k):
    for y in f.walk(x):
        if key(f, y) == k:
            return f.nodes[strip(f, y)].get("t", "")
    return ""


# ---- real numbers that shrink or grow by a factor
class Val:
    """What a real number is compared with the loop variable at the start of the pass: at most one of the factors `le` times it, at
    least one of the factors `ge` times it or equal to a bound (both unless it is NaN); `nan`: may be NaN although the variable is not. A factor is '1', '<1'
    or '>1'; 'B...' is the bound itself."""

    def __init__(self, le=None, ge=None, nan=True):
        self.le, self.ge, self.nan = le, ge, nan


def join(a, b):
    return Val(None if a.le is None or b.le is None else a.le | b.le, None if a.ge is None or b.ge is None else a.ge | b.ge, a.nan or b.nan)


def scale(v, c):
    """v times a factor of class '<1', '>1' or '1'"""
    def one(s):
        if s is None:
            return None
        out = set()
        for x in s:
            if x.startswith("B"):
                return None
            if x == "1" or c == "1" or x == c:
                out.add(c if x == "1" else x)
            else:
                return None
        return frozenset(out)
    return Val(one(v.le), one(v.ge), v.nan)


class Reals:
    def __init__(self, L, k, bound, floor=None):
        self.L, self.f, self.k, self.bound, self.floor = L, L.f, k, bound, floor
        self.joins = {}

    def join(self, a, b):
        if a is b:
            return a
        j = self.joins.get((id(a), id(b)))
        if j is None:
            j = self.joins[(id(a), id(b))] = (join(a, b), a, b)
        return j[0]

    def factor(self, i):
        f = self.f
        i = unfold(f, i)
        n = f.nodes[i]
        v = literal(f, i)
        if v is not None:
            return v
        if n["k"] == "MemberExpr" and n["m"].split("::")[-1] in RATIO:
            return 0.5
        if n["k"] == "DeclRefExpr" and n["d"][0] == "L":
            for y in f.walk():
                if f.nodes[y]["k"] == "DeclStmt":
                    for w in f.nodes[y]["vars"]:
                        if w["d"] == n["d"] and w.get("i", -1) is not None and w.get("i", -1) >= 0 and not any(key(f, l) == n["d"] for x, l, r, op in assigns(f)):
                            return self.factor(w["i"])
        return None

    def ev(self, i, env):
        f = self.f
        i = strip(f, i)
        n = f.nodes[i]
        k = n["k"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return self.ev(n["c"][0], env)
        if self.floor:
            v = self.floor(f, i)
            if v:
                return Val(frozenset([v]), None, False)
        q = key(f, i)
        if q is not None:
            if self.bound is not None and f.txt(i) == self.bound:
                return Val(None, frozenset(["B"]), False)
            return env.get(q, Val())
        if k == "BinaryOperator" and n["op"] in ("*", "/"):
            a, b = n["c"]
            for x, y in ((a, b), (b, a)):
                if n["op"] == "/" and x != a:
                    continue
                c = self.factor(y)
                if c is not None and c > 0:
                    if n["op"] == "/":
                        c = 1 / c
                    return scale(self.ev(x, env), "<1" if c < 1 else ">1" if c > 1 else "1")
            return Val()
        if k == "ConditionalOperator":
            return self.choose(n["c"][0], n["c"][1], n["c"][2], env)
        if k == "CallExpr" and n.get("fn", "").split("::")[-1] in ("min", "max", "fmin", "fmax") and len(n["args"]) == 2:
            s = n["fn"].split("::")[-1]
            a, b = (self.ev(x, env) for x in n["args"])
            nan = a.nan if s in ("min", "max") else a.nan and b.nan
            if s in ("min", "fmin"):
                le = a.le if b.le is None else b.le if a.le is None else a.le
                ge = None if a.ge is None or b.ge is None else a.ge | b.ge
                return Val(le, ge, nan)
            le = None if a.le is None or b.le is None else a.le | b.le
            return Val(le, a.ge if a.ge is not None else b.ge, nan)
        return Val()

    def choose(self, c, a, b, env):
        f = self.f
        A, B = self.ev(a, env), self.ev(b, env)
        c = unfold_paren(f, c)
        neg = False
        while f.nodes[c]["k"] == "UnaryOperator" and f.nodes[c]["op"] == "!":
            c, neg = unfold_paren(f, f.nodes[c]["c"][0]), not neg
        n = f.nodes[c]
        if n["k"] != "BinaryOperator" or n["op"] not in ("<", ">", "<=", ">="):
            return join(A, B)
        l, r = f.txt(unfold_paren(f, n["c"][0])), f.txt(unfold_paren(f, n["c"][1]))
        ta, tb = f.txt(unfold_paren(f, a)), f.txt(unfold_paren(f, b))
        op = n["op"]
        if (l, r) == (tb, ta):
            op = FLIP[op]
        elif (l, r) != (ta, tb):
            return join(A, B)
        # here: (a op b) ? a : b, or the arms exchanged when negated
        if neg:
            A, B, op = B, A, FLIP[op]     # !(a op b) ? a : b  =  (b FLIP(op) a) ? b : a
        # the first arm is taken only when the comparison is true: then neither is NaN
        nan = B.nan
        if op in ("<", "<="):             # min
            le = B.le if B.le is not None else A.le      # (of a number that is not NaN)
            ge = None if A.ge is None or B.ge is None else A.ge | B.ge
        else:                             # max
            le = None if A.le is None or B.le is None else A.le | B.le
            ge = B.ge if B.ge is not None else A.ge
        return Val(le, ge, nan)

    def run(self):
        """Value of the variable at the back edges. From the second pass on, a variable that each pass leaves as a copy of it is one."""
        es = self.once({})
        if not es:
            return []
        same = {q for q in set.intersection(*[set(e) for e in es]) if q != self.k and all(e.get(q) is e.get(self.k) is not None for e in es)}
        if same:
            es = self.once(same)
        return [e.get(self.k, Val()) for e in es]

    def once(self, same):
        L, f = self.L, self.f
        order = [b for b in f.rpo() if b in L.body]
        preds = f.preds()
        v = Val(frozenset(["1"]), frozenset(["1"]), False)
        init = {q: v for q in {self.k} | set(same)}
        out = {}
        back = []
        for rnd in range(3):          # inner loops: forget what they write
            for b in order:
                env = None
                if b == L.h:
                    env = dict(init)
                for p in preds[b]:
                    if p in L.body and p in out and b != L.h and not self.first_pass(p, b, out[p]):
                        e2 = self.refine(p, b, out[p])
                        env = e2 if env is None else {q: self.join(env[q], e2[q]) for q in set(env) & set(e2)}
                if env is None:
                    continue
                env = dict(env)
                for x in f.blocks[b]["s"]:
                    if isinstance(x, int):
                        self.step(x, env)
                out[b] = env
        for p in preds[L.h]:
            if p in L.body and p in out:
                back.append(self.refine(p, L.h, out[p]))
        return back

    def refine(self, p, b, env):
        """What the comparison at the end of block p tells about the numbers it compares when the way to b is taken."""
        f = self.f
        o = f.blocks[p]
        ss = o["succ"]
        if len(ss) != 2 or o.get("cond") is None or ss[0] == ss[1]:
            return env
        c, go = negated(f, last_cond(f, o), b == ss[0])
        n = f.nodes[c]
        if n["k"] != "BinaryOperator" or n["op"] not in ("<", ">", "<=", ">="):
            return env
        new = dict(env)
        for v, w, op in ((n["c"][0], n["c"][1], n["op"]), (n["c"][1], n["c"][0], FLIP[n["op"]])):
            k = key(f, v)
            if k is None or k not in env:
                continue
            a, e = env[k], self.ev(w, env)
            q = op if go else NEG[op]
            le, ge = a.le, a.ge
            if q in ("<", "<=") and (le is None or le == {"1"}) and e.le is not None:
                le = e.le
            if q in (">", ">=") and (ge is None or ge == {"1"}) and e.ge is not None:
                ge = e.ge
            nan = a.nan and not go
            if (le, ge, nan) != (a.le, a.ge, a.nan):
                memo = self.joins.setdefault(("edge", p, b, k, id(a), id(e)), (Val(le, ge, nan), a, e))
                new[k] = memo[0]
        return new

    def first_pass(self, p, b, env):
        """Is the edge p -> b taken only while the number still is what it was before the loop (`stepsize == initiallength`)? A number that every
        other pass shrinks has that value in the first pass only."""
        o = self.f.blocks[p]
        v = env.get(self.k)
        if len(o["succ"]) != 2 or o.get("cond") is None or v is None or v.le != {"1"} or v.ge != {"1"} or o["succ"][0] == o["succ"][1]:
            return False
        c, go = negated(self.f, last_cond(self.f, o), b == o["succ"][0])
        n = self.f.nodes[c]
        if n["k"] != "BinaryOperator" or (n["op"] if go else NEG.get(n["op"])) != "==":
            return False
        l, r = n["c"]
        return any(key(self.f, x) == self.k and self.L.invariant(y) and key(self.f, y) for x, y in ((l, r), (r, l)))

    def step(self, x, env):
        f = self.f
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if kind(v["t"]) == "real":
                    env[v["d"]] = self.ev(v["i"], env) if v.get("i", -1) is not None and v.get("i", -1) >= 0 else Val()
            return
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            k = key(f, n["c"][0])
            if k is None:
                return
            if n["op"] == "=":
                env[k] = self.ev(n["c"][1], env)
            elif n["op"] in ("*=", "/="):
                c = self.factor(n["c"][1])
                if c is not None and c > 0:
                    c = 1 / c if n["op"] == "/=" else c
                    env[k] = scale(env.get(k, Val()), "<1" if c < 1 else ">1" if c > 1 else "1")
                else:
                    env[k] = Val()
            else:
                env[k] = Val()
            return
        if n["k"] in ("CallExpr", "CXXMemberCallExpr"):
            for q, a in enumerate(n.get("args") or ()):
                if a is None or a < 0:
                    continue
                y = f.nodes[strip(f, a)]
                k = key(f, y["c"][0]) if y["k"] == "UnaryOperator" and y["op"] == "&" else key(f, a) if q in n.get("ref", ()) else None
                if k in env:
                    env[k] = Val()
            o = n.get("obj", -1)
            if n["k"] == "CXXMemberCallExpr" and (o is None or o < 0 or f.nodes[strip(f, o)]["k"] == "CXXThisExpr"):
                for k in [k for k in env if k.startswith("this.") and k in self.L.vague]:
                    gs = self.L.m.targets(n["usr"]) if n.get("virt") else [self.L.m.fns.get(n.get("usr"))]
                    if any(k in written_members(self.L.m, g if not isinstance(g, str) else self.L.m.fns[g]) for g in gs or () if g is not None):
                        env[k] = Val()


def geometric(L):
    f = L.f
    tests = {}
    for b, c, go in L.conditions():
        c, go0 = negated(f, c, go)
        n = f.nodes[c]
        if n["k"] != "BinaryOperator" or n["op"] not in FLIP:
            continue
        op = n["op"] if go0 else NEG[n["op"]]
        for v, o, q in ((n["c"][0], n["c"][1], op), (n["c"][1], n["c"][0], FLIP[op])):
            for x in f.walk(v):
                k = key(f, x)
                if k and k in L.writes and kind(f.nodes[strip(f, x)].get("t", "")) == "real" and L.invariant(o) and shape(f, v, k):
                    # going on needs: k > o (shrinks to an end) or k < o (grows to an end)
                    if q in (">", ">="):
                        tests.setdefault((k, "down", None), set()).add(b)
                    elif q in ("<", "<=", "!="):
                        tests.setdefault((k, "up", f.txt(strip(f, o)), q), set()).add(b)
    # at the bound itself: `<` ends there, `<=` goes on (a number clamped to the bound stays there for ever), and `!=` ends only there (a
    # number that is not clamped jumps over it)
    for (k, d, bound, *q), tb in tests.items():
        if k in L.vague or L.cycle_avoiding(tb):
            continue
        vs = Reals(L, k, bound).run()
        if not vs:
            continue
        if d == "down" and all(v.le is not None and v.le == {"<1"} and not v.nan for v in vs):
            return "%s shrinks by a factor" % k.split(":")[-1].split("::")[-1]
        if d == "up" and all(v.ge is not None and v.ge <= {">1", "B"} and not v.nan and (q != ["<="] or "B" not in v.ge) and (q != ["!="] or "B" in v.ge) for v in vs):
            return "%s grows by a factor up to %s" % (k.split(":")[-1].split("::")[-1], bound)
    # shrinking under a comparison that a NaN makes false: `while (.. < .. k ..) { k *= r; if (k < min) break; }` is covered above;
    return None


def shape(f, i, k):
    """k itself or k times a positive factor"""
    if key(f, i) == k:
        return True
    n = f.nodes[unfold_paren(f, i)]
    if n["k"] == "BinaryOperator" and n["op"] in ("*", "/"):
        a, b = n["c"]
        return shape(f, a, k) and not any(key(f, y) == k for y in f.walk(b)) or n["op"] == "*" and shape(f, b, k) and not any(key(f, y) == k for y in f.walk(a))
    return False


def ranged(L):
    """range-based for"""
    f = L.f
    for b in L.body:
        t = f.blocks[b].get("term")
        if isinstance(t, int) and t >= 0 and f.nodes[t]["k"] == "CXXForRangeStmt":
            return "range"
    return None


def main_loop(m, L):
    """Iteration loops of Run: the passes that count an iteration are limited (P20); the other passes refine a parameter and have to
    come to an end themselves."""
    f = L.f
    if f.short != "Run" and not f.qual().endswith("::Run"):
        return None
    if not any(x.endswith("Solvers::iter") for x in set(L.writes) | set(L.vague)):
        return None
    from checks.p20_limits import Main
    try:
        M = Main(m, f, f.cls)
    except AnalysisBroken:
        return None
    if M.header != L.h:
        return None
    return refining(m, f, L.h, L.body, set(M.at.values()))


def refining(m, f, h, body, counting):
    """The passes of the loop at h that avoid the counting blocks: 'limits of the run' when there are none, a reason when they come to an end, else None."""
    free = body - counting
    pred = f.preds()

    def closure(start, nxt):
        seen, st = set(), list(start)
        while st:
            b = st.pop()
            if b in seen or b not in free:
                continue
            seen.add(b)
            st += [x for x in nxt(b) if x is not None and x != h]
        return seen
    if h not in free:
        return "limits of the run"
    fwd = closure([s for s in f.blocks[h]["succ"] if s is not None and s != h], lambda b: f.blocks[b]["succ"])
    bwd = closure([p for p in pred[h] if p != h], lambda b: pred[b])
    U = (fwd & bwd) | {h}
    if len(U) == 1 and h not in f.blocks[h]["succ"]:
        return "limits of the run"
    L = LoopView(m, f, h, U)
    need = {}
    for b in U:
        o = f.blocks[b]
        ss = o["succ"]
        if len(ss) != 2 or o.get("cond") is None:
            continue
        for j, t in enumerate(ss):
            if t not in U:
                continue
            c, go = negated(f, last_cond(f, o), j == 0)
            n = f.nodes[c]
            if n["k"] != "BinaryOperator" or n["op"] not in FLIP:
                continue
            op = n["op"] if go else NEG[n["op"]]
            for v, w, q in ((n["c"][0], n["c"][1], op), (n["c"][1], n["c"][0], FLIP[op])):
                k = key(f, v)
                if k not in L.writes or k in L.vague:
                    continue
                if q in ("!=", ">") and literal(f, w) is not None or q in ("!=", ">") and key(f, w) and L.invariant(w):
                    need.setdefault(k, []).append(("to", w, (b, t)))
                elif q == "<" and copied(L, w, k):
                    need.setdefault(k, []).append(("below", w, (b, t)))
    good, edges = [], set()
    for k, uses in need.items():
        ends = [w for s, w, e in uses if s == "to"]

        def floor(f, x, ends=ends):
            x = unfold_paren(f, x)
            if ends:        # not yet there, so above it
                return "<1" if any(literal(f, x) is not None and literal(f, x) == literal(f, w) or key(f, x) is not None and key(f, x) == key(f, w) for w in ends) else None
            return "1" if literal(f, x) is not None or key(f, x) is not None and L.invariant(x) else None
        vs = Reals(L, k, None, floor).run()
        if vs and all(v.le is not None and v.le <= ({"<1"} if ends else {"1", "<1"}) for v in vs):
            good.append(k)
            edges |= {e for s, w, e in uses}
    # an uncounted pass that takes none of the edges on which a number that only falls has not reached its end?
    seen, st = set(), [h]
    while st:
        b = st.pop()
        for t in f.blocks[b]["succ"]:
            if t not in U or (b, t) in edges:
                continue
            if t == h:
                return "refinement in a helper (not judged)" if helped(m, L) else None
            if t not in seen:
                seen.add(t)
                st.append(t)
    return "refinement of %s" % ", ".join(sorted(k.split("::")[-1] for k in good))


def helped(m, L):
    """Does a pass call a method of this object that evaluates no candidate but writes a real member it also compares? (It may hold the refinement.)"""
    from checks.p20_limits import reaches, trial, local
    f = L.f
    for b in L.body:
        for x in f.blocks[b]["s"]:
            n = f.nodes[x] if isinstance(x, int) else {"k": ""}
            if n["k"] != "CXXMemberCallExpr" or n.get("virt") or not (n.get("obj", -1) is None or n.get("obj", -1) < 0 or f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr"):
                continue
            g = m.fns.get(n.get("usr"))
            if g is None or g.entry is None or not local(g) or reaches(m, g, trial, f.cls):
                continue
            wr = written_members(m, g)
            for y in g.walk():
                c = g.nodes[y]
                if c["k"] == "BinaryOperator" and c["op"] in FLIP and any(key(g, z) in wr for q in c["c"] for z in g.walk(q)):
                    return True
    return False


def copied(L, w, k):
    """Is w a local that holds what k was when it was declared in this pass?"""
    f = L.f
    d = key(f, w)
    ws = L.writes.get(d, ()) if d else ()
    return len(ws) == 1 and d not in L.vague and ws[0][1] == "decl" and ws[0][2] is not None and ws[0][2] >= 0 and key(f, ws[0][2]) == k


def verdict(m, f, h, body):
    L = LoopView(m, f, h, body)
    return counted(L) or geometric(L) or ranged(L) or main_loop(m, L)


def place(f, h):
    o = f.blocks[h]
    if o.get("cond") is not None:
        return f.loc(o["cond"])
    for x in o["s"]:
        if isinstance(x, int):
            return f.loc(x)
    return f.loc()


def run(m, ctx):
    ctx.rule("loop-ends", "every loop passes, in each of its passes, a test that ends it, on a number that each pass moves towards that end: a counter by a fixed step against a bound the loop does not change, or a step size by a factor below one (above one) in a way that not even a NaN undoes")
    ctx.rule("fixture", "the rule reports each endless loop of the fixture and none of the others")
    why = {}
    for f in sorted(m.repo_fns(("Solvers/", "Manifolds/", "Problems/")), key=lambda f: (f.file, f.line)):
        if f.entry is None or f.rel().startswith(SKIP):
            continue
        k = 0
        for h, body in sorted(loops_of(f).items(), key=lambda x: -x[0]):
            k += 1
            w = verdict(m, f, h, body)
            t = f.txt(f.blocks[h]["cond"]) if f.blocks[h].get("cond") is not None else ""
            ctx.check(w is not None, "loop-ends", "%s: loop %d" % (f.qual(), k), place(f, h),
                      "the loop `%s` may never end: no number that every pass moves by a fixed step or factor is tested in every pass" % t[:80])
            if w:
                why[w.split(" ")[1] if " " in w else w] = why.get(w.split(" ")[1] if " " in w else w, 0) + 1
    ctx.facts["loops by reason"] = why
    ctx.assume.append("Parameters lie in the ranges CheckParams states: reduction ratios strictly between 0 and 1, minimal and maximal step sizes positive; an initial step size is positive and not NaN; parameters that are refined down to a floor start at or above it; a step size that every later pass of a search shrinks equals the initial one in its first pass only; list and map iterators start before the end they are compared with.")
    fx = m.fixture
    for u in sorted(fx.own):
        f = fx.fns[u]
        if f.entry is None or not f.short.startswith(("ends_", "endless_")):
            continue
        r = [verdict(fx, f, h, b) for h, b in loops_of(f).items()]
        ctx.check((None in r) == f.short.startswith("endless_"), "fixture", f.short, "sa/fixtures/endless.cpp", "fixture %s: %s" % (f.short, r))
