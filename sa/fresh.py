"""Which members of an object a virtual entry method reads before it writes them (interprocedural exposed reads, with small constants).

A state is the set of members certainly written since the entry, and for integer and boolean locations whether they are 0 or positive;
branches decided by these constants are not followed (first iteration, empty memory).  Calls on `this` are resolved for the concrete
class and interpreted in place.  Elements of arrays are not tracked; the indices and lengths that guard them are.
"""
from model import NS
from util import *
from ptr import is_elem, is_ptr
from walk import SIG, Env, Walk, last_cond, spec_of

CAP = 60
NEUTRAL = {"Setiscomplex", "SetIsIntrinsic", "RemoveFromFields", "RemoveAllFromFields", "Delete", "Getlength", "Getrow", "Getcol", "Getnum", "Getiscomplex", "Getsize",
           "Getls", "GetElement", "AddToFields", "ObtainWritePartialData", "Reshape", "Print"}
WRITES = {"ObtainWriteEntireData", "SetToZeros", "RandGaussian", "RandUnform", "ScaledIdOPE", "SetToIdentity", "NewMemoryOnWrite", "CopyOnWrite"}
INT = ("integer", "int", "bool", "unsigned long", "long", "short", "unsigned int", "ROPTLIB::integer")


SETTERS = ("SetParams", "SetDefaultParams", "SetProbX", "Initialization")


def fixed(m):
    """Scalar members assigned by the setters alone: constant during a run."""
    r = getattr(m, "_fixed", None)
    if r is None:
        a, b = set(), set()
        for f in m.repo_fns():
            for x, l, v, op in assigns(f):
                n = f.nodes[strip(f, l)]
                if n["k"] == "MemberExpr":
                    (a if f.short in SETTERS else b).add(n["mn"])
        r = m._fixed = a - b
    return r


def zero_plus(v):
    if isinstance(v, bool):
        return "+" if v else 0
    if isinstance(v, int):
        return 0 if v == 0 else ("+" if v > 0 else None)
    return None


class Fresh(Walk):
    def __init__(self, m, cls, report):
        Walk.__init__(self, m, cls, None)
        self.out = report           # report(kind, member, f, node)
        self.mem = {}
        self.written = {}
        self.shp = {}
        self.origin = {}            # location: members whose missing value it may hold

    # ---------------------------------------------------------------- constants
    def value(self, e, i, s):
        f = e.f
        i = strip(f, i)
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k == "ParenExpr":
            return self.value(e, n["c"][0], s)
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr"):
            return zero_plus(n["v"])
        if k in ("MemberExpr", "DeclRefExpr"):
            if n.get("d", "").startswith("E:"):
                return n["d"]
            p = self.path(e, i)
            return s[1].get(p)
        if k == "BinaryOperator":
            a, b = (self.value(e, c, s) for c in n["c"])
            a, b = (v if v in (0, "+") else None for v in (a, b))
            o = n["op"]
            if o == "+":
                return b if a == 0 else (a if b == 0 else ("+" if a == b == "+" else None))
            if o == "*":
                return 0 if 0 in (a, b) and a is not None and b is not None else ("+" if a == b == "+" else None)
            if o == "%":
                return 0 if a == 0 else None
        return None

    def decide(self, e, c, s):
        f = e.f
        i = unfold(f, c)
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k == "UnaryOperator" and n["op"] == "!":
            v = self.decide(e, n["c"][0], s)
            return None if v is None else not v
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            v = [self.decide(e, x, s) for x in n["c"]]
            if n["op"] == "&&":
                return False if False in v else (True if v == [True, True] else None)
            return True if True in v else (False if v == [False, False] else None)
        if k == "BinaryOperator" and n["op"] in ("==", "!=", "<", "<=", ">", ">="):
            a, b = (self.value(e, x, s) for x in n["c"])
            o = n["op"]
            t = self.fact(e, i)
            if t and o in ("==", "!=") and t[1] in s[1].get("!" + t[0], ()):
                return o == "!="
            if a is None or b is None:
                return None
            if "E:" in (str(a)[:2], str(b)[:2]):
                return (a == b) == (o == "==") if o in ("==", "!=") and str(a)[:2] == str(b)[:2] else None
            if a == b == "+":
                return None
            x, y = (0 if a == 0 else 1), (0 if b == 0 else 1)
            r = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
            return r
        v = self.value(e, i, s)
        return v == "+" if v in (0, "+") else None

    def fact(self, e, c):
        """(path, constant, holds on the true branch) for a comparison with an enumerator."""
        f = e.f
        i = strip(f, c)
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        if n["k"] == "ParenExpr":
            return self.fact(e, n["c"][0])
        if n["k"] == "BinaryOperator" and n["op"] in ("==", "!="):
            for a, b in (n["c"], n["c"][::-1]):
                y = f.nodes[strip(f, b)]
                if y["k"] == "DeclRefExpr" and y["d"].startswith("E:"):
                    p = self.path(e, a)
                    if p and self.member(p) in fixed(self.m):
                        return p, y["d"], n["op"] == "=="
        return None

    # ---------------------------------------------------------------- accesses
    @staticmethod
    def member(p):
        if not p or not p.startswith("this."):
            return None
        q = p[5:]
        return q if all(z not in q for z in ".[#(") else None

    @staticmethod
    def token(p):
        """A local variable as an entry of the set of written locations."""
        t = (p or "").split(".E(")[0]
        return t if "#" in t and all(z not in t.split("#")[-1] for z in ".[(") else None

    def missing(self, p, s):
        """Members without a value that p may hold the value of."""
        p = (p or "").split(".E(")[0]
        q = self.member(p)
        if q:
            return set() if q in s[0] else {q} | self.origin.get(q, set())
        t = self.token(p)
        if t and t in self.origin and t not in s[0]:
            return self.origin[t]
        return set()

    def read(self, p, f, x, s):
        for q in self.missing(p, s):
            self.out("read", q, f, x)

    def copy(self, a, b, f, x, s):
        """a = b for whole elements: a has no more of a value than b."""
        bad = self.missing(b, s)
        q = self.member((a or "").split(".E(")[0]) or self.token(a)
        if not bad or not q or ".E(" in a:
            self.read(b, f, x, s)
            self.write(a, f, x, s)
            return
        self.write(a, f, x, s)
        self.origin.setdefault(q, set()).update(bad)
        s[0] = s[0] - {q}

    def write(self, p, f, x, s, const=None, whole=True):
        if not p:
            return
        s[1].pop(p, None)
        s[1].pop("!" + p, None)
        if const is not None:
            s[1][p] = const
        q = self.member(p.split(".E(")[0])
        if q:
            self.written.setdefault(q, (f.usr, x))
            if whole and ".E(" not in p:
                s[0] = s[0] | {q}
        elif whole and self.token(p) and ".E(" not in p:
            s[0] = s[0] | {self.token(p)}

    # ---------------------------------------------------------------- activations
    @staticmethod
    def key(s):
        return tuple(sorted((k, str(sorted(v)) if isinstance(v, frozenset) else str(v)) for k, v in s[1].items()))

    def activate(self, f, e, s0):
        mk = (f.usr, self.cls, tuple(sorted((k, v or "") for k, v in e.bind.items())), s0[0], self.key(s0))
        if mk in self.mem:
            return [[a, dict(b)] for a, b in self.mem[mk]]
        if f.usr in self.stack or len(self.stack) > 12 or f.entry is None:
            return [[s0[0], {}]]
        self.stack.append(f.usr)
        self.fns.add(f.usr)
        end = {}
        try:
            ins = {}
            live, back = self.shape(f)
            bases = {q["i"] for q in f.o.get("inits") or () if "base" in q}
            work = [(f.entry, [s0[0], dict(s0[1])], None)]
            while work:
                b, s, src = work.pop()
                first = b in back and src not in back[b]
                for p in [p for p in s[1] if p.startswith(e.pre) and p[len(e.pre):] not in live[b] and ":" in p[len(e.pre):] and e.pre]:
                    del s[1][p]
                d = ins.setdefault((b, first), {})
                k = self.key(s)
                if k not in d and len(d) >= CAP:
                    s[1] = {p: v for p, v in s[1].items() if p[0] != "!" and not str(v).startswith("E:")}
                    k = self.key(s)
                    if k not in d and len(d) >= 2 * CAP:
                        s[1] = {}
                        k = ()
                if k in d:
                    j = d[k] & s[0]
                    if j == d[k]:
                        continue
                    s = [j, s[1]]
                d[k] = s[0]
                self.blocks += 1
                o = f.blocks[b]
                cur = [[s[0], dict(s[1])]]
                for x in o["s"]:
                    if isinstance(x, dict) and "minit" in x:
                        for c in cur:
                            q = x["minit"].split("::")[-1]
                            self.write("this." + q, f, x["i"], c, self.value(e, x["i"], c))
                    if isinstance(x, int) and x in bases:
                        nxt = []
                        for c in cur:
                            nxt += self.build(f.nodes[x].get("usr"), c, e.depth + 1)
                        cur = nxt
                    elif isinstance(x, int):
                        nxt = []
                        for c in cur:
                            nxt += self.elem(f, e, x, f.nodes[x], c) or [c]
                        u = {}
                        for c in nxt:
                            q = self.key(c)
                            u[q] = [u[q][0] & c[0], c[1]] if q in u else c
                        cur = list(u.values())
                if b == f.exit:
                    for c in cur:
                        q = self.key(c)
                        end[q] = [end[q][0] & c[0], c[1]] if q in end else c
                    continue
                two = o.get("cond") is not None and len(o["succ"]) == 2
                lc = last_cond(f, o) if two else None
                for c in cur:
                    dd = self.decide(e, lc, c) if two else None
                    if dd is None and first:
                        dd = True           # a loop over a range not known to be empty
                    for j, t in enumerate(o["succ"]):
                        if t is None or t < 0 or (dd is not None and j == (1 if dd else 0)):
                            continue
                        work.append((t, [c[0], dict(c[1])], b))
        finally:
            self.stack.pop()
        self.mem[mk] = [[a, dict(b)] for a, b in end.values()]
        return [[a, dict(b)] for a, b in end.values()]

    def build(self, usr, s, depth=0):
        """States after the constructor; virtual calls in it are those of the class it belongs to."""
        g = self.m.fns.get(usr)
        if g is None or g.entry is None:
            return [s]
        cls, self.cls = self.cls, g.cls
        try:
            return self.activate(g, Env(g, depth, {}, g.cls), [s[0], dict(s[1])])
        finally:
            self.cls = cls

    def shape(self, f):
        """({block: locals mentioned from there on}, {condition block of a for loop: blocks of the loop})"""
        if f.usr in self.shp:
            return self.shp[f.usr]
        own = {b: {f.nodes[x]["d"] for x in o["s"] if isinstance(x, int) and f.nodes[x]["k"] == "DeclRefExpr"} for b, o in f.blocks.items()}
        live, back = {}, for_loops(f)
        reach = {}
        for b in f.blocks:
            seen, st = set(), [b]
            while st:
                q = st.pop()
                if q in seen:
                    continue
                seen.add(q)
                st.extend(t for t in f.blocks[q]["succ"] if t is not None and t >= 0)
            reach[b] = seen
            live[b] = set().union(*(own[q] for q in seen))
        self.shp[f.usr] = live, back
        return live, back

    def role(self, f, x):
        """How the value of lvalue x is used: read, lhs, arg, addr, obj."""
        p = f.parent()
        y, addr = x, False
        while True:
            z = p.get(y)
            if z is None:
                return "read"
            n = f.nodes[z]
            k = n["k"]
            if k == "ImplicitCastExpr" and n.get("ck") == "LValueToRValue":
                return "read"
            if k in CASTS or k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") or k == "UnaryOperator" and n["op"] in ("&", "*"):
                addr = addr or n.get("op") == "&"
                y = z
                continue
            if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and n["c"][0] == y:
                return "lhs"
            if k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
                return "lhs"
            if k == "DeclStmt":
                v = [v for v in n["vars"] if v.get("i") == y]
                return "arg" if not v or addr or v[0]["t"].rstrip().endswith("&") or is_elem(f.nodes[x].get("t", "")) else "read"
            if k in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                a = n.get("args") or []
                if addr or y not in a or is_elem(f.nodes[x].get("t", "")):
                    return "arg"
                g = self.m.fns.get(n.get("usr"))
                j = a.index(y)
                return "arg" if g is not None and j < len(g.params) and g.params[j]["t"].rstrip().endswith("&") else "read"
            if k == "MemberExpr":
                return "obj"
            return "read"

    @staticmethod
    def null_test(f, x):
        """A pointer is compared with null or released."""
        p = f.parent()
        y = p.get(x)
        while y is not None and f.nodes[y]["k"] in CASTS + ("ParenExpr",):
            y = p.get(y)
        if y is None or not is_ptr(f.nodes[x].get("t", "")):
            return False
        n = f.nodes[y]
        if n["k"] == "BinaryOperator" and n["op"] in ("==", "!="):
            return any(f.nodes[strip(f, c)]["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") for c in n["c"])
        return n["k"] == "CXXDeleteExpr" or n["k"] == "UnaryOperator" and n["op"] == "!"

    def elem(self, f, e, x, n, s):
        k = n["k"]
        if k == "MemberExpr":
            if "mn" in n and self.role(f, x) == "read" and not self.null_test(f, x):
                self.read(self.path(e, x), f, x, s)
            return
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            p = self.path(e, n["c"][0])
            if n["op"] != "=":
                self.read(p, f, x, s)
            v = None
            t = f.nodes[strip(f, n["c"][0])].get("t", "").replace("const ", "")
            y = f.nodes[strip(f, n["c"][1])]
            if t in INT or y["k"] == "DeclRefExpr" and y["d"].startswith("E:"):
                v = self.value(e, n["c"][1], s)
                if n["op"] == "+=":
                    v = "+" if v == "+" and s[1].get(p) is not None else None
                elif n["op"] != "=":
                    v = None
            self.write(p, f, x, s, v)
            return
        if k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            p = self.path(e, n["c"][0])
            self.read(p, f, x, s)
            self.write(p, f, x, s, "+" if "++" in n["op"] and s[1].get(p) is not None else None)
            return
        if k == "DeclStmt":
            for v in n["vars"]:
                t, i = v["t"], v.get("i", -1)
                if i is None or i < 0:
                    s[1].pop(e.name(v["d"]), None)
                    continue
                if t.rstrip().endswith("&") or is_ptr(t) and self.once(f, v["d"]):
                    q = self.path(e, i)
                    e.bind = dict(e.bind)
                    e.bind[v["d"]] = q
                    continue
                if is_elem(t):
                    y = f.nodes[strip(f, i)]
                    a = y["args"][0] if y["k"] == "CXXConstructExpr" and y.get("copy") and y.get("args") else i
                    self.copy(e.name(v["d"]), self.path(e, a), f, x, s)
                    continue
                self.write(e.name(v["d"]), f, x, s, self.value(e, i, s) if t.replace("const ", "") in INT else None)
            return
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            y = f.parent().get(x)
            while y is not None and f.nodes[y]["k"] in CASTS + ("MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr"):
                y = f.parent().get(y)
            if n.get("copy") and y is not None and f.nodes[y]["k"] == "DeclStmt":
                return
            for a in n.get("args") or []:
                self.read(self.path(e, a), f, x, s)
            return
        if k == "CXXOperatorCallExpr":
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            if n.get("op") == "=":
                self.copy(self.path(e, xs[0]), self.path(e, xs[1]), f, x, s)
            else:
                for a in xs:
                    self.read(self.path(e, a), f, x, s)
            return
        if k not in ("CXXMemberCallExpr", "CallExpr"):
            return
        args = n.get("args") or []
        sp = spec_of(n)
        if sp:
            outs = []
            for j, (a, r) in enumerate(zip(args, sp[2])):
                p = self.path(e, a)
                i = strip(f, a)
                if r[0] in "oGp" or r == "a" and j == len(args) - 1 or f.nodes[i]["k"] == "UnaryOperator" and f.nodes[i]["op"] == "&" and not is_elem(f.nodes[strip(f, f.nodes[i]["c"][0])].get("t", "")):
                    outs.append(p)
                elif r[0] == "i" and f.nodes[i]["k"] == "UnaryOperator" and f.nodes[i]["op"] == "&":
                    self.read(p, f, x, s)
                    outs.append(p)
                else:
                    self.read(p, f, x, s)
            for p in outs:
                self.write(p, f, x, s)
            return
        sh = n.get("fn", "").split("::")[-1]
        gs = []
        if k == "CXXMemberCallExpr" and (n.get("fn") is None or n.get("obj") is not None and self.path(e, n["obj"]) == "this"):
            gs = self.targets_of(f, e, n) or []
        elif k == "CallExpr" and n.get("usr") in self.m.fns:
            gs = [self.m.fns[n["usr"]]]
        gs = [g for g in gs if g is not None and g.entry is not None]
        if gs:
            res = []
            for g in gs:
                bind, s2 = {}, [s[0], dict(s[1])]
                e2 = Env(g, e.depth + 1, bind, self.cls)
                for q, a in zip(g.params, args):
                    if q["t"].rstrip().endswith(("&", "*")):
                        bind[q["d"]] = self.path(e, a)
                    else:
                        p = self.path(e, a)
                        if is_elem(q["t"]):
                            self.read(p, f, x, s)
                        v = self.value(e, a, s)
                        if v is not None and q["t"].replace("const ", "") in INT:
                            s2[1][e2.pre + q["d"]] = v
                for r in self.activate(g, e2, s2):
                    r[1] = {q: v for q, v in r[1].items() if e2.pre not in q}
                    r[0] = frozenset(q for q in r[0] if not q.startswith(e2.pre))
                    res.append(r)
            return res
        if k == "CXXMemberCallExpr" and n.get("obj") is not None:
            p = self.path(e, n["obj"])
            for a in args:
                if is_elem(f.nodes[strip(f, a)].get("t", "")):
                    self.read(self.path(e, a), f, x, s)
            if is_elem(n.get("cls", "")):
                if sh in WRITES:
                    self.write(p, f, x, s)
                elif sh == "CopyTo":
                    self.read(p, f, x, s)
                    for a in args:
                        self.write(self.path(e, a), f, x, s)
                elif sh not in NEUTRAL:
                    if not (sh == "AlphaABaddBetaThis" and self.value(e, args[-1], s) == 0):
                        self.read(p, f, x, s)
                    if not n.get("const"):
                        self.write(p, f, x, s)
            elif p:
                if sh in ("clear", "assign", "resize", "str"):
                    self.write(p, f, x, s)
                elif not n.get("const") and sh not in ("begin", "end", "front", "back", "size", "empty"):
                    self.write(p, f, x, s, whole=False)
                else:
                    self.read(p, f, x, s)
            return
        # unknown function: values are read, addresses written
        pt = [q["t"] for q in self.m.fns[n["usr"]].params] if n.get("usr") in self.m.fns else None
        for j, a in enumerate(args):
            i = strip(f, a)
            if f.nodes[i]["k"] == "UnaryOperator" and f.nodes[i]["op"] == "&":
                self.write(self.path(e, a), f, x, s)
            elif is_elem(f.nodes[i].get("t", "")):
                self.read(self.path(e, a), f, x, s)


def run(m, cls, entry="Run", start=("x1",)):
    """({member: set of (usr, node)} read before written, {member: (usr, node)} written, walker)"""
    reads = {}
    w = Fresh(m, cls, lambda kind, q, f, x: reads.setdefault(q, set()).add((f.usr, x)))
    me = None
    for c in [cls] + list(m.bases(cls)):
        for q in m.classes.get(c, {}).get("methods", ()):
            if q["name"] == entry and not q.get("pure"):
                me = m.fns.get(q["usr"])
                if me is not None and me.entry is not None:
                    break
                me = None
        if me:
            break
    if me is None:
        return None
    e = Env(me, 0, {}, cls)
    w.activate(me, e, [frozenset(start), {}])
    return reads, w.written, w
