"""Operations of a product of manifolds act component by component.

Every call of an operation on a component manifold (manifolds[E]->op(...)) in MultiManifolds and the classes below it is judged: the
components of the operands it gets, the range of the loops around it, what is made of its value, the block of a linear operator it
works on, and whether the component works in the representation of the product.  Index expressions are compared as polynomials over
variables, with variables set once looked through; helpers of the class are judged in the context of each caller.
"""
from model import NS, AnalysisBroken
from util import *
from ptr import is_elem
from walk import SIG, last_cond
from rep import REP
from checks.p03_contents import poly_add, poly_mul, implied
from checks.p18_lapack import held

FIXTURES = ("products.cpp",)
MINIMUM = {"components": 12, "range": 20, "every-component": 12, "fixture": 8}
TOP = NS + "MultiManifolds"


def key_of(p):
    return None if p is None else tuple(sorted(p.items()))


class Frame:
    """A function of the class judged in the context of its caller; the outermost one overrides an operation."""

    def __init__(self, m, f, up=None, call=None):
        self.m, self.f, self.up, self.call = m, f, up, call
        self.args = {}
        if call is not None:
            for q, a in enumerate(up.f.nodes[call]["args"]):
                if q < len(f.params):
                    self.args["P%d:%s" % (q, f.params[q]["n"])] = a

    @property
    def top(self):
        return self.up.top if self.up else self

    # ------------------------------------------------------------ integers
    def num(self, i, depth=0):
        """polynomial of an integer expression"""
        f = self.f
        i = strip(f, i)
        if i is None or i < 0 or depth > 12:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k == "ParenExpr":
            return self.num(n["c"][0], depth + 1)
        if k == "IntegerLiteral":
            v = int(n["v"])
            return {(): v} if v else {}
        if k == "BinaryOperator" and n["op"] in ("+", "-", "*"):
            a, b = self.num(n["c"][0], depth + 1), self.num(n["c"][1], depth + 1)
            if a is None or b is None:
                return None
            return poly_mul(a, b) if n["op"] == "*" else poly_add(a, b, 1 if n["op"] == "+" else -1)
        if k == "DeclRefExpr":
            d = n["d"]
            if d in self.args:
                return self.up.num(self.args[d], depth + 1)
            r = once_inits(f).get(d)
            if r is not None and r >= 0:
                return self.num(r, depth + 1)
            return {(f.usr + "|" + d,): 1}
        if k == "MemberExpr" and is_this_member(f, i):
            return {("this." + n["mn"],): 1}
        if k == "ArraySubscriptExpr":
            b = self.array(n["c"][0])
            x = key_of(self.num(n["c"][1], depth + 1))
            return {("%s[%s]" % (b, x),): 1} if b and x is not None else None
        if k == "UnaryOperator" and n["op"] == "*":
            c = f.nodes[strip(f, n["c"][0])]
            b = self.array(n["c"][0])
            if b:
                return {("%s[%s]" % (b, ()),): 1}
            if c["k"] == "BinaryOperator" and c["op"] == "+":
                b, x = self.array(c["c"][0]), key_of(self.num(c["c"][1], depth + 1))
                return {("%s[%s]" % (b, x),): 1} if b and x is not None else None
        if k == "CXXMemberCallExpr" and not n["args"]:
            e = self.elem(n["obj"])
            nm = n["fn"].split("::")[-1]
            if nm in ("Getlength", "GetLength"):
                return {("len(%s)" % (e,),): 1} if e else None
            mi = self.mani(n["obj"])
            return {("%s(%s)" % (nm, mi),): 1} if mi is not None else None
        return None

    def array(self, i):
        """name of the array an expression denotes"""
        f = self.f
        i = strip(f, i)
        n = f.nodes[i]
        if n["k"] == "ParenExpr":
            return self.array(n["c"][0])
        if n["k"] == "MemberExpr" and is_this_member(f, i):
            return n["mn"]
        if n["k"] == "DeclRefExpr":
            if n["d"] in self.args:
                return self.up.array(self.args[n["d"]])
            r = pointers(f).get(n["d"])
            return self.array(r) if r is not None else n["d"]
        return None

    # ------------------------------------------------------------ manifolds and elements
    def mani(self, i):
        """index (polynomial key) of the component manifold an expression points to"""
        f = self.f
        i = strip(f, i)
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k == "ParenExpr":
            return self.mani(n["c"][0])
        if k == "DeclRefExpr":
            if n["d"] in self.args:
                return self.up.mani(self.args[n["d"]])
            r = pointers(f).get(n["d"])
            return self.mani(r) if r is not None else None
        if k == "ArraySubscriptExpr":
            return key_of(self.num(n["c"][1])) if self.array(n["c"][0]) == "manifolds" else None
        if k == "UnaryOperator" and n["op"] == "*":
            c = f.nodes[strip(f, n["c"][0])]
            while c["k"] == "ParenExpr":
                c = f.nodes[strip(f, c["c"][0])]
            if c["k"] == "BinaryOperator" and c["op"] == "+" and self.array(c["c"][0]) == "manifolds":
                return key_of(self.num(c["c"][1]))
        if k == "UnaryOperator" and n["op"] == "&":
            return self.mani(n["c"][0])
        return None

    def elem(self, i, depth=0):
        """(root, component) of an element: root ("P", parameter of the operation) or ("L", local); component a polynomial key or None"""
        f = self.f
        i = strip(f, i)
        if i is None or i < 0 or depth > 12:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") and n.get("c"):
            return self.elem(n["c"][0], depth + 1)
        if k == "UnaryOperator" and n["op"] in ("*", "&"):
            return self.elem(n["c"][0], depth + 1)
        if k == "CXXConstructExpr" and n.get("copy") and n.get("args"):
            return self.elem(n["args"][0], depth + 1)
        if k == "CXXMemberCallExpr" and n.get("fn", "").split("::")[-1] == "GetElement" and len(n["args"]) == 1:
            b = self.elem(n["obj"], depth + 1)
            j = key_of(self.num(n["args"][0]))
            return (b[0], j) if b and b[1] is None and j is not None else None
        if k == "DeclRefExpr":
            d = n["d"]
            if d in self.args:
                return self.up.elem(self.args[d], depth + 1)
            if d.startswith("P") and self.up is None:
                return (("P", int(d[1:].split(":")[0])), None)
            r = bound(f).get(d)
            if r is not None:
                e = self.elem(r, depth + 1)
                if e is not None:
                    return e
            if d.startswith("L"):
                return (("L", f.usr + d), None)
        return None


def pointers(f):
    """{pointer or reference local bound once: initializer}"""
    r = getattr(f, "_ptr05", None)
    if r is None:
        r, bad = {}, set()
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if v["t"].rstrip().endswith(("*", "&", "*const")) and v.get("i", -1) is not None and v.get("i", -1) >= 0:
                        r[v["d"]] = v["i"]
        for x, l, rr, op in assigns(f):
            y = f.nodes[strip(f, l)]
            if y["k"] == "DeclRefExpr":
                bad.add(y["d"])
        r = f._ptr05 = {d: i for d, i in r.items() if d not in bad}
    return r


def bound(f):
    """{element local: initializer} of references, pointers and of copies that are never given another value"""
    r = getattr(f, "_bound05", None)
    if r is not None:
        return r
    r, bad = {}, set()
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if is_elem(v["t"]) and v.get("i", -1) is not None and v.get("i", -1) >= 0:
                    r[v["d"]] = v["i"]
        elif n["k"] == "CXXOperatorCallExpr" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!="):
            o = n.get("obj", n["args"][0] if n["args"] else -1)
            y = f.nodes[strip(f, o)]
            if y["k"] == "DeclRefExpr":
                bad.add(y["d"])
        elif n["k"] == "CXXMemberCallExpr" and not n.get("const"):
            y = f.nodes[strip(f, n["obj"])] if n.get("obj", -1) is not None and n.get("obj", -1) >= 0 else {"k": ""}
            if y["k"] == "DeclRefExpr" and not y.get("t", "").rstrip().endswith("*") and n["fn"].split("::")[-1] in ("SetToZeros", "SetToIdentity", "RandGaussian", "ScalarTimesThis", "AlphaXaddThis", "Delete"):
                bad.add(y["d"])
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "UnaryOperator" and n["op"] == "&":        # address taken: written by the callee
            j = strip(f, n["c"][0])
            while f.nodes[j]["k"] in ("ParenExpr",) or (f.nodes[j]["k"] == "CXXMemberCallExpr" and f.nodes[j].get("fn", "").split("::")[-1] == "GetElement"):
                j = strip(f, f.nodes[j]["c"][0] if f.nodes[j]["k"] == "ParenExpr" else f.nodes[j]["obj"])
            if f.nodes[j]["k"] == "DeclRefExpr":
                bad.add(f.nodes[j]["d"])
    refs = {v["d"] for x in f.walk() if f.nodes[x]["k"] == "DeclStmt" for v in f.nodes[x]["vars"] if v["t"].rstrip().endswith(("&", "*"))}
    r = f._bound05 = {d: i for d, i in r.items() if d not in bad or d in refs}
    return r


# ---------------------------------------------------------------- loops
class Counted:
    """A loop over an index: [lo, hi) in steps of one, as far as it can be told."""

    def __init__(self, fr, b, blocks):
        self.fr, self.b, self.blocks = fr, b, blocks
        self.var = self.lo = self.hi = None
        f = fr.f
        o = f.blocks[b]
        if o.get("cond") is None or o["cond"] < 0:
            return
        c = f.nodes[unfold_paren(f, last_cond(f, o))]
        if c["k"] != "BinaryOperator" or c["op"] not in ("<", "<=", "!=", ">", ">="):
            return
        for a, z, op in ((c["c"][0], c["c"][1], c["op"]), (c["c"][1], c["c"][0], {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[c["op"]])):
            n = f.nodes[strip(f, a)]
            if n["k"] != "DeclRefExpr" or not n["d"].startswith(("L", "P")):
                continue
            d = n["d"]
            inside, outside = [], []
            for x, l, r, aop in sets_of(f, d):
                (inside if block_of(f).get(x) in blocks else outside).append((x, r, aop))
            if len(inside) != 1:
                continue
            step = self.step(d, inside[0])
            defs, again = reaching(f, d, b, blocks, outside)
            start = [fr.num(r) for x, r, aop in defs if aop in ("=", "decl")]
            if step not in (1, -1) or len(start) != 1 or start[0] is None:
                continue
            end = fr.num(z)
            if end is None:
                continue
            if step == 1 and op in ("<", "<=", "!="):
                self.var, self.lo, self.hi = d, start[0], poly_add(end, {(): 1}) if op == "<=" else end
                if again:       # starts where it ended in the iteration before of a loop around it
                    self.lo = self.carried(start[0])
                    if self.lo is None:
                        self.var = self.hi = None
                        continue
            elif again:
                continue
            elif step == -1 and op in (">", ">=", "!="):
                self.var, self.hi, self.lo = d, poly_add(start[0], {(): 1}), end if op == ">=" else poly_add(end, {(): 1})
            if self.var:
                return

    def carried(self, first):
        """[a, A[i+1]) with a = A[0] or 0 in the first iteration of a loop over i from 0: the interval [A[i], A[i+1])"""
        s = sym(key_of(self.hi))
        for o in self.fr.__dict__.get("_outer", ()):
            if o.b != self.b and self.b in o.blocks and o.var and o.lo == {} and s and "[" in s:
                i = {(self.fr.f.usr + "|" + o.var,): 1}
                a = s.split("[")[0]
                if s == "%s[%s]" % (a, key_of(poly_add(i, {(): 1}))) and (first == {} or sym(key_of(first)) == "%s[%s]" % (a, ())):
                    return {("%s[%s]" % (a, key_of(i)),): 1}
        return None

    def step(self, d, s):
        x, r, op = s
        if op in ("++", "post++"):
            return 1
        if op in ("--", "post--"):
            return -1
        p = self.fr.num(r) if r is not None else None
        if p is None:
            return None
        if op in ("+=", "-=") and set(p) <= {()}:
            return p.get((), 0) * (1 if op == "+=" else -1)
        if op == "=":
            q = poly_add(p, {(self.fr.f.usr + "|" + d,): 1}, -1)
            return q.get((), 0) if set(q) <= {()} else None
        return None


def unfold_paren(f, i):
    i = strip(f, i)
    while f.nodes[i]["k"] == "ParenExpr":
        i = strip(f, f.nodes[i]["c"][0])
    return i


def sets_of(f, d):
    """(node, lhs, rhs, op) of everything that gives local or parameter d a value; op "decl" for its initializer"""
    out = [(x, l, r, op) for x, l, r, op in assigns(f) if f.nodes[strip(f, l)].get("d") == d and f.nodes[strip(f, l)]["k"] == "DeclRefExpr"]
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if v["d"] == d and v.get("i", -1) is not None and v.get("i", -1) >= 0:
                    out.append((x, None, v["i"], "decl"))
    return out


def reaching(f, d, b, blocks, defs):
    """definitions among defs that reach the loop head b from outside the loop, and whether those of an earlier run of the loop do"""
    where = {}
    for q in defs:
        where.setdefault(block_of(f).get(q[0]), []).append(q)
    pos = {}
    for blk, o in f.blocks.items():
        for k, s in enumerate(o["s"]):
            if isinstance(s, int):
                pos[s] = k
    out, again, seen, st = [], False, set(), [p for p in f.preds()[b] if p not in blocks]
    while st:
        q = st.pop()
        if q in seen:
            continue
        seen.add(q)
        if q in where:
            out.append(max(where[q], key=lambda z: pos.get(z[0], 0)))
            continue
        again = again or any(p in blocks for p in f.preds()[q])
        st += [p for p in f.preds()[q] if p not in blocks]
    return out, again


def outermost_first(f):
    d = f.__dict__.get("_order05")
    if d is None:
        par, t = f.parent(), {}
        for b, o in f.blocks.items():
            x, k = o.get("term"), 0
            while isinstance(x, int) and x in par:
                x, k = par[x], k + 1
            t[b] = k
        d = f._order05 = sorted(f.blocks.items(), key=lambda q: (t[q[0]], -q[0]))
    return d


def loops(fr):
    """[Counted] of the function of a frame"""
    f = fr.f
    r = fr.__dict__.get("_loops")
    if r is None:
        fwd = {}

        def reach(b):
            if b not in fwd:
                seen, st = set(), [b]
                while st:
                    q = st.pop()
                    if q not in seen:
                        seen.add(q)
                        st += [t for t in f.blocks[q]["succ"] if t is not None and t >= 0]
                fwd[b] = seen
            return fwd[b]
        r = fr._loops = fr._outer = []
        for b, o in outermost_first(f):
            t = o.get("term")
            if isinstance(t, int) and f.nodes[t]["k"] in ("ForStmt", "WhileStmt") and len(o["succ"]) == 2 and all(s is not None and s >= 0 for s in o["succ"]):
                body = {q for q in reach(o["succ"][0]) if b in reach(q)}
                # in a nest the outer loop is reachable from the inner one: keep what does not need to leave the loop
                inner, st = set(), [o["succ"][0]]
                while st:
                    q = st.pop()
                    if q in inner or q == b or q == o["succ"][1]:
                        continue
                    inner.add(q)
                    st += [s for s in f.blocks[q]["succ"] if s is not None and s >= 0]
                r.append(Counted(fr, b, (inner & body) | {b}))
    return r


# ---------------------------------------------------------------- what is judged
def roles(op, k):
    s = SIG.get(("Manifold", op, k))
    return s.split() if s else None


def overrides(m, f):
    """f overrides an operation of Manifold"""
    return roles(f.short, len(f.params)) is not None or f.short in ("RandominManifold", "CheckParams")


def frames(m, fns, f, depth=0, skip=()):
    """contexts function f is judged in"""
    if overrides(m, f):
        return [Frame(m, f)]
    if depth > 2:
        return []
    out = []
    for g in fns:
        if g.usr == f.usr or g.usr in skip:
            continue
        for x in g.walk():
            n = g.nodes[x]
            if n["k"] in ("CXXMemberCallExpr", "CallExpr") and n.get("usr") == f.usr:
                out += [Frame(m, f, up, x) for up in frames(m, fns, g, depth + 1, skip + (f.usr,))]
    return out


def component_calls(fr):
    """(node, operation, manifold index) of the calls of operations of Manifold on components"""
    for x in fr.f.walk():
        n = fr.f.nodes[x]
        if n["k"] == "CXXMemberCallExpr" and n.get("obj", -1) is not None and n.get("obj", -1) >= 0:
            e = fr.mani(n["obj"])
            if e is not None:
                yield x, n["fn"].split("::")[-1], e


def sym(k):
    """the symbol of a key that is one variable"""
    return k[0][0][0] if k is not None and len(k) == 1 and k[0][1] == 1 and len(k[0][0]) == 1 else None


def show(k):
    def t(s):
        return s.split("|")[-1].split(":")[-1].replace("this.", "")
    return " + ".join("*".join(([] if v == 1 and s else [str(v)]) + [t(q) for q in s]) for s, v in (k or ())) or "0"


def text(fr, x):
    return "%s: %s" % (fr.f.qual().replace(NS, ""), " ".join(fr.f.txt(x).split())[:110])


class Judge:
    def __init__(self, m, fns, ctx):
        self.m, self.fns, self.ctx = m, fns, ctx
        self.calls = 0

    def function(self, f):
        for fr in frames(self.m, self.fns, f):
            found = []
            for x, op, e in component_calls(fr):
                k = len(fr.f.nodes[x]["args"])
                if op in ("SetIsIntrApproach",):
                    self.restored(fr, x, e)
                if op == "RandominManifold":
                    found.append((x, op, e, self.target(fr, x)))
                    self.ranges(fr, x, op, e, found[-1][3])
                if roles(op, k) is None:
                    continue
                self.calls += 1
                j = self.components(fr, x, op, e)
                self.representation(fr, x, op, e)
                found.append((x, op, e, j))
                if j is not None:
                    self.ranges(fr, x, op, e, j)
                if op in ("HInvTran", "TranH"):
                    self.block(fr, x, op)
            self.every(fr, found)
            if fr.up is None and f.short in ("Metric", "Dist"):
                self.sum(fr, [q for q in found if q[1] == f.short])

    # ------------------------------------------------------------ operands
    def target(self, fr, x):
        """component assigned from call x"""
        f, par = fr.f, fr.f.parent()
        j = par.get(x)
        while j is not None:
            n = f.nodes[j]
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                e = fr.elem(n.get("obj", n["args"][0]))
                return e[1] if e else None
            j = par.get(j)
        return None

    def components(self, fr, x, op, e):
        f = fr.f
        n = f.nodes[x]
        rs = roles(op, len(n["args"]))
        own = roles(fr.top.f.short, len(fr.top.f.params))
        es = [fr.elem(a) if is_elem(f.nodes[strip(f, a)].get("t", "")) else None for a in n["args"]]
        js = {v[1] for v in es if v is not None and v[1] is not None}
        whole = [q for q, v in enumerate(es) if v is not None and v[1] is None and is_elem_type(f, n["args"][q]) and rs[q] not in ("L",) and not operator(rs, q)]
        key = text(fr, x)
        if not js:
            return None
        bad = None
        if len(js) > 1:
            bad = "%s of a component gets different components: %s" % (op, ", ".join(sorted(show(j) for j in js)))
        elif whole:
            bad = "argument %d of %s is the whole product, not its component" % (whole[0] + 1, op)
        elif own and op == fr.top.f.short and len(n["args"]) == len(fr.top.f.params):
            for q, v in enumerate(es):
                if v is not None and v[0][0] == "P" and v[0][1] != q and rs[q] != "L" and not operator(rs, q):
                    bad = "argument %d of %s is a component of %s, not of %s" % (q + 1, op, fr.top.f.params[v[0][1]]["n"], fr.top.f.params[q]["n"])
            for q, a in enumerate(n["args"]):
                if es[q] is None:
                    d = self.parameter(fr, a)
                    if d is not None and d != q:
                        bad = "argument %d of %s is %s, not %s" % (q + 1, op, fr.top.f.params[d]["n"], fr.top.f.params[q]["n"])
        elif own:
            for q, v in enumerate(es):
                if v is not None and v[0][0] == "P" and rs.count(rs[q]) == 1 and own.count(rs[q]) == 1 and rs[q] not in "aL" and own[v[0][1]] != rs[q]:
                    bad = "argument %d of %s is a component of %s" % (q + 1, op, fr.top.f.params[v[0][1]]["n"])
        self.ctx.check(bad is None, "components", key, f.loc(x), bad)
        return js.pop() if len(js) == 1 else None

    def parameter(self, fr, a):
        """position of the parameter of the operation a plain argument forwards"""
        f = fr.f
        i = strip(f, a)
        n = f.nodes[i]
        if n["k"] != "DeclRefExpr":
            return None
        if n["d"] in fr.args:
            return self.parameter(fr.up, fr.args[n["d"]])
        if fr.up is None and n["d"].startswith("P"):
            return int(n["d"][1:].split(":")[0])
        return None

    # ------------------------------------------------------------ loops
    def find(self, fr, s, x):
        """the loop around x over the variable of symbol s, in the frame that declares it"""
        usr, _, d = s.partition("|")
        while fr is not None:
            if fr.f.usr == usr:
                for l in loops(fr):
                    if l.var == d and block_of(fr.f).get(x) in l.blocks:
                        return fr, l, x
            x, fr = fr.call, fr.up
        return None

    def ranges(self, fr, x, op, e, j):
        f = fr.f
        if j is None or sym(j) is None or sym(e) is None:
            return
        a, b = self.find(fr, sym(e), x), self.find(fr, sym(j), x)
        if a is None or b is None:
            return
        lo, hi = key_of(a[1].lo), key_of(a[1].hi)
        if lo is None or hi is None or b[1].lo is None:
            return
        key = text(fr, x)
        bad = None
        if lo != () or hi not in (((("this.numoftypes",), 1),),):
            bad = "the loop over the types runs from %s to %s, not over all %s types" % (show(lo), show(hi), "numoftypes")
        want = [key_of({("powsinterval[%s]" % (key_of(poly_add(dict(e), {(): q})),),): 1}) for q in (0, 1)]
        got = [key_of(b[1].lo), key_of(b[1].hi)]
        if bad is None and got != want:
            bad = "the loop over the components of a type runs from %s to %s" % (show(got[0]), show(got[1]))
        self.ctx.check(bad is None, "range", key, f.loc(x), bad)

    def every(self, fr, found):
        """each iteration handles its component; each path of an operation with a result goes through the loop"""
        f = fr.f
        blk = block_of(f)
        heads = set()
        for x, op, e, j in found:
            s = sym(j) if j is not None else None
            if s is None or not s.startswith(f.usr + "|"):
                continue
            r = self.find(fr, s, x)
            if r is None or r[0] is not fr:
                continue
            l = r[1]
            heads.add(l.b)
            t = self.find(fr, sym(e), x) if sym(e) else None
            if t is not None and t[0] is fr:
                heads.add(t[1].b)
            if op != fr.top.f.short:
                continue
            here = set()
            for y in f.walk():
                n = f.nodes[y]
                if y in blk and blk[y] in l.blocks and n["k"] == "CXXMemberCallExpr" and n["fn"].split("::")[-1] == "GetElement" and key_of(fr.num(n["args"][0])) == j:
                    c = f.blocks[blk[y]].get("cond")
                    if c is not None and c >= 0 and y in set(f.walk(c)):
                        continue
                    here.add(blk[y])
            bad = self.gap(f, l, here)
            self.ctx.check(bad is None, "every-component", text(fr, x), f.loc(x), bad)
        if fr.up is None and heads:
            res = [q for q, p in enumerate(f.params) if p["t"].rstrip().endswith("*") and is_elem(p["t"]) and "const" not in p["t"]]
            stop = set(heads)
            for y in f.walk():
                n = f.nodes[y]
                if y in blk and n["k"] in ("CXXMemberCallExpr", "CallExpr"):
                    if any(f.nodes[strip(f, a)].get("d", "").startswith("P%d:" % q) for q in res for a in n["args"] if a is not None and a >= 0):
                        stop.add(blk[y])
            if res:
                self.ctx.check(must_pass(f, stop), "every-component", "%s: all paths" % f.qual().replace(NS, ""), f.loc(), "a path through %s applies nothing to the components" % f.qual())

    def gap(self, f, l, here):
        seen, st = set(), [f.blocks[l.b]["succ"][0]]
        while st:
            q = st.pop()
            if q in seen or q in here:
                continue
            seen.add(q)
            if q == l.b:
                return "an iteration of the loop can skip its component"
            if q not in l.blocks:
                return "the loop can be left before all components are handled"
            st += [s for s in f.blocks[q]["succ"] if s is not None and s >= 0]
        for q in l.blocks - {l.b}:
            for s in f.blocks[q]["succ"]:
                if s is not None and s >= 0 and s not in l.blocks:
                    return "the loop can be left before all components are handled"
        return None

    # ------------------------------------------------------------ values
    def sum(self, fr, found):
        f = fr.f
        acc = {}
        for x, op, e, j in found:
            if j is None:
                continue
            v = self.collected(fr, x)
            if v is None:
                continue
            d, p = v
            want = {("c",): 1} if op == "Metric" else {("c", "c"): 1}
            self.ctx.check(p == want, "sum", text(fr, x), f.loc(x), "the value of %s of a component enters the sum as %s" % (op, " + ".join("%s%s" % (k, "*".join(s)) for s, k in p.items())))
            acc[d] = x
        for d in acc:
            ini = [r for x, l, r, aop in sets_of(f, d) if aop in ("decl", "=") and not any(x in {y for y in bl} for bl in [self.inside(fr)])]
            for y in f.walk():
                n = f.nodes[y]
                if n["k"] != "ReturnStmt" or not n.get("c") or n["c"][0] < 0:
                    continue
                i = unfold_paren(f, n["c"][0])
                r = f.nodes[i]
                root = False
                if r["k"] == "CallExpr" and r.get("fn", "").split("::")[-1] == "sqrt" and len(r["args"]) == 1:
                    root, i = True, unfold_paren(f, r["args"][0])
                if f.nodes[i].get("d") == d:
                    self.ctx.check(root == (f.short == "Dist"), "sum", "%s: value returned" % f.qual().replace(NS, ""), f.loc(y), "%s returns the sum %s" % (f.qual(), "as its square root" if root else "without taking the square root"))

    def inside(self, fr):
        blk = block_of(fr.f)
        bs = set().union(*[l.blocks for l in loops(fr)]) if loops(fr) else set()
        return {x for x, b in blk.items() if b in bs}

    def collected(self, fr, x):
        """(accumulator, polynomial in c = the value of call x) added to it in an iteration"""
        f = fr.f
        loc = {}
        for s, l, r, op in assigns(f):
            n = f.nodes[strip(f, l)]
            if n["k"] == "DeclRefExpr" and op == "=" and r is not None:
                loc.setdefault(n["d"], []).append(r)

        def val(i, depth=0):
            i = unfold_paren(f, i)
            n = f.nodes[i]
            if i == x:
                return {("c",): 1}
            if depth > 8:
                return None
            if n["k"] == "BinaryOperator" and n["op"] in "+-*":
                a, b = val(n["c"][0], depth + 1), val(n["c"][1], depth + 1)
                if a is None or b is None:
                    return None
                return poly_mul(a, b) if n["op"] == "*" else poly_add(a, b, 1 if n["op"] == "+" else -1)
            if n["k"] == "DeclRefExpr":
                r = once_inits(f).get(n["d"])
                if r is not None and r >= 0:
                    return val(r, depth + 1)
                if len(loc.get(n["d"], ())) == 1 and x in set(f.walk(loc[n["d"]][0])):
                    return val(loc[n["d"]][0], depth + 1)
                return {(n["d"],): 1}
            if n["k"] in ("IntegerLiteral", "FloatingLiteral"):
                try:
                    v = float(n["v"])
                except (KeyError, ValueError):
                    return None
                return {(): v} if v else {}
            return None
        for s, l, r, op in assigns(f):
            n = f.nodes[strip(f, l)]
            if n["k"] != "DeclRefExpr" or r is None or op not in ("+=", "-=", "="):
                continue
            p = val(r)
            if p is None or not any("c" in k for k in p):
                continue
            if op == "-=":
                p = poly_add({}, p, -1)
            if op == "=":
                if (n["d"],) not in p:
                    continue
                p = poly_add(p, {(n["d"],): 1}, -1)
            return n["d"], p
        return None

    def block(self, fr, x, op):
        """HInvTran and TranH work on rows and columns [start, end) of the operator: the blocks must follow each other"""
        f = fr.f
        n = f.nodes[x]
        if len(n["args"]) != 7:
            return
        e = fr.elem(n["args"][1])
        if e is None or e[1] is None or sym(e[1]) is None:
            return
        r = self.find(fr, sym(e[1]), x)
        if r is None:
            return
        site, ends = (fr, x), [n["args"][4], n["args"][5]]
        while fr is not r[0]:
            ends = [fr.args.get(f.nodes[unfold_paren(f, a)].get("d")) for a in ends]
            if None in ends:
                return
            x, fr = fr.call, fr.up
            f = fr.f
        l = r[1]
        order = [s for b in self.line(f, l) for s in f.blocks[b]["s"] if isinstance(s, int)]
        if x not in order:
            return
        lenc = "len(%s)" % (e,)
        best = None
        names = sorted({f.nodes[y]["d"] for a in ends for y in f.walk(a) if f.nodes[y]["k"] == "DeclRefExpr" and f.nodes[y]["d"].startswith("L")} |
                       {f.nodes[strip(f, l2)]["d"] for s, l2, r2, o2 in assigns(f) if s in order and f.nodes[strip(f, l2)]["k"] == "DeclRefExpr"})
        verdicts = []
        for car in names:
            env = {car: {("O",): 1}}
            at = None
            for s in order:
                q = f.nodes[s]
                if s == x:
                    at = [self.line_val(fr, a, env) for a in ends]
                if q["k"] == "DeclStmt":
                    for v in q["vars"]:
                        if v.get("i", -1) is not None and v.get("i", -1) >= 0:
                            env[v["d"]] = self.line_val(fr, v["i"], env)
                elif q["k"] in ("BinaryOperator", "CompoundAssignOperator") and q["op"] in ("=", "+=", "-="):
                    d = f.nodes[strip(f, q["c"][0])]
                    if d["k"] == "DeclRefExpr":
                        v = self.line_val(fr, q["c"][1], env)
                        o = env.get(d["d"])
                        env[d["d"]] = v if q["op"] == "=" else None if v is None or o is None else poly_add(o, v, 1 if q["op"] == "+=" else -1)
            if at is None or at[0] is None or at[1] is None or not any("O" in k for k in at[0]):
                continue
            out = env.get(car)
            first = [fr.num(v) for y, l2, v, o2 in sets_of(f, car) if y not in order and o2 in ("decl", "=")]
            ok = at[0] == {("O",): 1} and at[1] == {("O",): 1, (lenc,): 1} and out == {("O",): 1, (lenc,): 1} and first == [{}]
            verdicts.append((ok, at, out))
        if verdicts:
            self.ctx.check(any(v[0] for v in verdicts), "operator-block", text(*site), site[0].f.loc(site[1]),
                           "%s of a component is applied to rows %s to %s of the operator, not to those of its component" % (op, show_o(verdicts[0][1][0]), show_o(verdicts[0][1][1])))

    def line(self, f, l):
        """blocks of the loop body in order of execution (branches are taken in turn)"""
        out, st = [], [f.blocks[l.b]["succ"][0]]
        while st:
            q = st.pop(0)
            if q in out or q not in l.blocks or q == l.b:
                continue
            out.append(q)
            st += [s for s in f.blocks[q]["succ"] if s is not None and s >= 0]
        return out

    def line_val(self, fr, i, env, depth=0):
        f = fr.f
        i = unfold_paren(f, i)
        n = f.nodes[i]
        if n["k"] == "DeclRefExpr" and n["d"] in env:
            return env[n["d"]]
        if n["k"] == "BinaryOperator" and n["op"] in "+-" and depth < 8:
            a, b = self.line_val(fr, n["c"][0], env, depth + 1), self.line_val(fr, n["c"][1], env, depth + 1)
            return None if a is None or b is None else poly_add(a, b, 1 if n["op"] == "+" else -1)
        if n["k"] == "DeclRefExpr" and n["d"].startswith("L") and n["d"] not in once_inits(f):
            return None
        return fr.num(i)

    # ------------------------------------------------------------ representation
    def representation(self, fr, x, op, e):
        r = REP.get(op)
        if not r or not ("F" in r.split() or op == "Metric"):
            return
        self.ctx.check(self.forced(fr, x, e), "representation", text(fr, x), fr.f.loc(x),
                       "when the product is in extrinsic representation, %s of a component that is set to the intrinsic one takes its matrices for coefficients" % op)

    def forced(self, fr, x, e):
        while fr is not None:
            if self.forced_here(fr, x, e):
                return True
            x, fr = fr.call, fr.up
        return False

    def forced_here(self, fr, x, e):
        f = fr.f
        state = {f.entry: False}
        work = [f.entry]
        res = False
        blk = block_of(f)
        for rnd in range(2):
            while work:
                b = work.pop()
                s = self.flow(fr, b, state[b], e, None)[0]
                o = f.blocks[b]
                for k, t in enumerate(o["succ"]):
                    if t is None or t < 0:
                        continue
                    v = s or self.known(fr, o, k)
                    if t not in state:
                        state[t] = v
                        work.append(t)
                    elif state[t] and not v:
                        state[t] = False
                        work.append(t)
        b = blk.get(x)
        return b in state and self.flow(fr, b, state[b], e, x)[1]

    def known(self, fr, o, k):
        """edge k of the block is only taken when the product is intrinsic"""
        f = fr.f
        if o.get("cond") is None or o["cond"] < 0 or len(o["succ"]) != 2:
            return False
        c, neg = unfold_paren(f, last_cond(f, o)), False
        while f.nodes[c]["k"] == "UnaryOperator" and f.nodes[c]["op"] == "!":
            c, neg = unfold_paren(f, f.nodes[c]["c"][0]), not neg
        return self.flag(fr, c) and (k == 0) != neg

    def flag(self, fr, i):
        f = fr.f
        i = unfold_paren(f, i)
        n = f.nodes[i]
        if n["k"] == "DeclRefExpr":
            r = once_inits(f).get(n["d"])
            return r is not None and r >= 0 and self.flag(fr, r)
        if n["k"] == "MemberExpr":
            return is_this_member(f, i) is not None and n["mn"] == "IsIntrApproach"
        return n["k"] == "CXXMemberCallExpr" and n["fn"].split("::")[-1] == "GetIsIntrinsic" and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr"

    def low(self, fr, i, depth=0):
        """value i is false whenever the product is extrinsic"""
        f = fr.f
        i = unfold_paren(f, i)
        n = f.nodes[i]
        if depth > 6:
            return False
        if n["k"] == "CXXBoolLiteralExpr":
            return not n["v"]
        if self.flag(fr, i):
            return True
        if n["k"] == "DeclRefExpr":
            r = once_inits(f).get(n["d"])
            return r is not None and r >= 0 and self.low(fr, r, depth + 1)
        if n["k"] == "BinaryOperator" and n["op"] in ("&&", "&", "*"):
            return any(self.low(fr, c, depth + 1) for c in n["c"])
        if n["k"] == "ConditionalOperator":
            return (self.flag(fr, n["c"][0]) or self.low(fr, n["c"][1], depth + 1)) and self.low(fr, n["c"][2], depth + 1)
        return False

    def flow(self, fr, b, s, e, x):
        f = fr.f
        for q in f.blocks[b]["s"]:
            if not isinstance(q, int):
                continue
            if q == x:
                return s, s
            n = f.nodes[q]
            if n["k"] == "CXXMemberCallExpr" and n["fn"].split("::")[-1] == "SetIsIntrApproach" and fr.mani(n["obj"]) == e:
                s = self.low(fr, n["args"][0])
            elif n["k"] in ("CXXConstructExpr", "CXXMemberCallExpr", "CallExpr") and any(fr.mani(a) == e for a in n.get("args", ()) if a is not None and a >= 0):
                if self.sets(n):
                    s = True
        return s, s

    def sets(self, n):
        """the callee that gets the component sets its representation (a guard object or a helper)"""
        g = self.m.fns.get(n.get("usr"))
        return g is not None and any(g.nodes[y]["k"] == "CXXMemberCallExpr" and g.nodes[y]["fn"].split("::")[-1] == "SetIsIntrApproach" for y in g.walk())

    def restored(self, fr, x, e):
        """every path from a change of a component's representation ends with its former value"""
        f = fr.f
        if self.saved(fr, f.nodes[x]["args"][0], e):
            return
        blk = block_of(f)
        good = {y for y in f.walk() if f.nodes[y]["k"] == "CXXMemberCallExpr" and f.nodes[y]["fn"].split("::")[-1] == "SetIsIntrApproach" and fr.mani(f.nodes[y]["obj"]) == e and self.saved(fr, f.nodes[y]["args"][0], e)}
        if x not in blk:
            return
        nodes = f.blocks[blk[x]]["s"]
        st, seen, bad = [], set(), False
        facts = {(self.flag(fr, c), v) for c, v in held(f, x) if self.flag(fr, c)}
        rest = nodes[nodes.index(x) + 1:]
        # the loop of the index must not be left or started over before
        r = self.find(fr, sym(e), x) if sym(e) else None
        limit = r[1].blocks if r is not None and r[0] is fr else None
        head = r[1].b if r is not None and r[0] is fr else None
        if not any(y in good for y in rest):
            st = list(f.blocks[blk[x]]["succ"])
        while st and not bad:
            q = st.pop()
            if q is None or q < 0 or q in seen:
                continue
            seen.add(q)
            if any(y in good for y in f.blocks[q]["s"] if isinstance(y, int)):
                continue
            if q == f.exit or q == head or (limit is not None and q not in limit):
                bad = True
            o = f.blocks[q]
            st += [t for k, t in enumerate(o["succ"]) if not (len(o["succ"]) == 2 and o.get("cond") is not None and o["cond"] >= 0 and
                                                              any(self.flag(fr, c) and (True, not v) in facts for c, v in implied(f, last_cond(f, o), k == 0)))]
        self.ctx.check(not bad, "restored", text(fr, x), f.loc(x), "the representation of the component is changed and not set back on every path")

    def saved(self, fr, a, e):
        f = fr.f
        n = f.nodes[unfold_paren(f, a)]
        if n["k"] != "DeclRefExpr":
            return False
        r = once_inits(f).get(n["d"])
        if r is None or r < 0:
            return False
        q = f.nodes[unfold_paren(f, r)]
        return q["k"] == "CXXMemberCallExpr" and q["fn"].split("::")[-1] == "GetIsIntrinsic" and fr.mani(q["obj"]) == e


def show_o(p):
    def t(s):
        return "offset" if s == "O" else "the length of the component" if s.startswith("len(") else s.split("(")[0] + "()" if "(" in s else s.split("|")[-1].split(":")[-1].replace("this.", "")
    return " + ".join(([""] if v == 1 else ["%d " % v])[0] + "*".join(t(q) for q in s) if s else str(v) for s, v in sorted(p.items())) or "0"


def operator(rs, q):
    """position q is a linear operator, given or resulting"""
    return rs[q] == "L" or ("L" in rs and rs[q] == "a")


def is_elem_type(f, a):
    return is_elem(f.nodes[strip(f, a)].get("t", ""))


def layout(m, fns, ctx):
    """the intervals of the types and the dimensions a constructor sets"""
    for f in fns:
        if f.short != f.cls.split("::")[-1] or f.entry is None:
            continue
        fr = Frame(m, f)
        for x, l, r, op in assigns(f):
            n = f.nodes[strip(f, l)]
            if n["k"] == "MemberExpr" and n["mn"] in ("ExtrinsicDim", "IntrinsicDim") and op == "+=" and is_this_member(f, strip(f, l)):
                p = fr.num(r)
                if p is None or len(p) < 1:
                    continue
                get = "GetExtrDim" if n["mn"] == "ExtrinsicDim" else "GetIntrDim"
                es = [s for k in p for s in k if s.startswith(get + "(")]
                ok = False
                for lp in loops(fr):
                    if lp.var and block_of(f).get(x) in lp.blocks:
                        i = {(f.usr + "|" + lp.var,): 1}
                        c = poly_add({("powsinterval[%s]" % (key_of(poly_add(i, {(): 1})),),): 1}, {("powsinterval[%s]" % (key_of(i),),): 1}, -1)
                        ok = ok or (p == poly_mul(c, {("%s(%s)" % (get, key_of(i)),): 1}) and lp.lo == {} and key_of(lp.hi) in (((("this.numoftypes",), 1),), key_of(fr.num(lp_bound(fr)))))
                ctx.check(ok, "layout", "%s/%d: %s" % (f.qual().replace(NS, ""), len(f.params), n["mn"]), f.loc(x), "%s is not the sum over the types of their number times %s" % (n["mn"], get))


def intervals(m, ctx):
    """every other loop whose bounds come from powsinterval covers the interval of one type"""
    n = 0
    for f in sorted((f for f in m.repo_fns(("Manifolds/",)) if f.entry is not None and f.cls), key=lambda f: (f.qual(), f.loc())):
        fr = Frame(m, f)
        for l in loops(fr):
            if l.var is None:
                continue
            t = [[s for k in p for s in k if "powsinterval[" in s] for p in (l.lo, l.hi)]
            if not t[0] and not t[1]:
                continue
            o = [p for p in loops(fr) if p is not l and l.b in p.blocks and p.var]
            lo, hi = key_of(l.lo), key_of(l.hi)
            n += 1
            if lo == () and len(hi or ()) == 2:     # counted from the first of the type
                lo = key_of({k: -v for k, v in l.hi.items() if v < 0})
                hi = key_of({k: v for k, v in l.hi.items() if v > 0})
            ok = lo is not None and sym(lo) is not None and sym(hi) is not None
            if ok:
                arr = sym(lo).split("[")[0]
                cands = [{}] + [{(f.usr + "|" + p.var,): 1} for p in o] + [{("this.numoftypes",): 1, (): -1}]
                ok = any(sym(lo) == "%s[%s]" % (arr, key_of(c)) and sym(hi) == "%s[%s]" % (arr, key_of(poly_add(c, {(): 1}))) for c in cands) or (lo == () and hi == ())
            c = f.blocks[l.b]["cond"]
            ctx.check(ok or (not t[0] and l.lo == {} and sym(hi) == "powsinterval[%s]" % (key_of({("this.numoftypes",): 1}),)), "range", "%s/%d: loop %s" % (f.qual().replace(NS, ""), len(f.params), f.txt(c)), f.loc(c),
                      "the loop over the components of a type runs from %s to %s" % (show(lo), show(hi)))
    return n


def lp_bound(fr):
    """initial value of numoftypes in a constructor"""
    for x, l, r, op in assigns(fr.f):
        n = fr.f.nodes[strip(fr.f, l)]
        if n["k"] == "MemberExpr" and n["mn"] == "numoftypes" and op == "=":
            return r
    return -1


def examine(m, top, ctx):
    cs = [c for c in m.derived(top)] + [top]
    fns = [f for f in m.fns.values() if f.cls in cs and f.entry is not None]
    j = Judge(m, fns, ctx)
    for f in sorted(fns, key=lambda f: (f.qual(), f.loc())):
        j.function(f)
    layout(m, fns, ctx)
    return j, fns


def run(m, ctx):
    ctx.rule("components", "an operation of a component manifold gets the same component of each operand, and each operand in its own place")
    ctx.rule("range", "the loops around it run over all types and over the components of the type")
    ctx.rule("every-component", "no iteration skips its component, and no path through an operation skips the loop")
    ctx.rule("sum", "the inner product is the sum of those of the components, the squared distance the sum of their squares")
    ctx.rule("operator-block", "the blocks of a linear operator follow each other by the lengths of the components")
    ctx.rule("representation", "a component works on ambient matrices whenever the product does")
    ctx.rule("restored", "the representation of a component is the former one after the operation")
    ctx.rule("layout", "the dimensions of a product are the sums over its components")
    ctx.rule("fixture", "the rules report the wrong products of the fixture and nothing on the correct one")
    fx = m.fixture

    class Silent:
        def __init__(self):
            self.hit = set()

        def check(self, ok, rule, key, w, msg):
            if not ok:
                self.hit.add(rule)
    for c in sorted(fx.classes):
        n = c.split("::")[-1]
        if n.startswith("ProductTest"):
            s = Silent()
            examine(fx, c, s)
            want = {"Good": set(), "Components": {"components"}, "Range": {"range"}, "Every": {"every-component"}, "Sum": {"sum"}, "Block": {"operator-block"}, "Representation": {"representation"}, "Restored": {"restored"}}[n[11:]]
            ctx.check(want == s.hit, "fixture", n, "sa/fixtures/products.cpp", "the rules do not behave as expected on their fixture: %s" % sorted(s.hit))
    m.need_class("MultiManifolds")
    j, fns = examine(m, TOP, ctx)
    ctx.facts["loops_over_intervals"] = intervals(m, ctx)
    ctx.facts.update({"classes": sorted({f.cls.replace(NS, "") for f in fns}), "functions": len(fns), "calls_on_components": j.calls})
    ctx.notes.append("Loops whose index, bounds or step cannot be told from the source, and operands that are neither parameters nor copies of them, carry no obligation.")
