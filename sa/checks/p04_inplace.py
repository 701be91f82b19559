"""Operations that may be called in place really can be, and nothing else is called in place.

The interface (Manifolds/Manifold.h) says for each operation which operand may be the very object the result is stored
in. For every definition of such an operation the state "has the result been changed yet" is propagated along the CFG;
an operand that may be the result must not be looked at once it has been changed."""
from model import NS, AnalysisBroken
from util import *
from ptr import owner_of, is_elem, is_ptr, INTENT

FIXTURES = ("inplace.cpp",)
MINIMUM = {"in-place": 60, "call-site": 40, "fixture": 6}

# operation -> position of the operand that may be the same object as the result, position of the result
LEGAL = {("Manifold", "Projection", 3): (1, 2), ("Manifold", "IntrProjection", 3): (1, 2), ("Manifold", "ExtrProjection", 3): (1, 2),
         ("Manifold", "ScalarTimesVector", 4): (2, 3), ("Manifold", "ScalarVectorAddVector", 5): (3, 4), ("Manifold", "VectorLinearCombination", 6): (4, 5),
         ("Manifold", "coTangentVector", 5): (3, 4), ("Manifold", "DiffRetraction", 6): (3, 4), ("Manifold", "VectorTransport", 5): (3, 4),
         ("Manifold", "InverseVectorTransport", 5): (3, 4), ("Manifold", "HInvTran", 7): (3, 6), ("Manifold", "TranH", 7): (3, 6), ("Manifold", "TranHInvTran", 5): (3, 4),
         ("Manifold", "HaddScaledRank1OPE", 6): (1, 5), ("Manifold", "ObtainEtaxFlat", 3): (1, 2), ("Manifold", "EucGradToGrad", 4): (1, 3),
         ("Manifold", "EucHvToHv", 5): (2, 4)}
# the variants an operation dispatches to receive its arguments and so must honour the same
FIRST = {"LCVectorTransport": "VectorTransport", "LCInverseVectorTransport": "InverseVectorTransport"}
BULK = ("all", "", frozenset())
HARMLESS = ("Getsize", "Getls", "Getrow", "Getcol", "Getnum", "Getlength", "Getiscomplex", "Getnumofelements", "AddToFields", "SetIsIntrApproach", "CopyFieldsTo")
# methods of Element that may have the very same object as argument
SELF_OK = ("operator=", "AlphaXaddThis", "DotProduct", "CopyTo", "operator+", "operator-", "operator*", "operator/")


def canon(f, i, depth=0):
    """Location an element (or pointer to element) expression names; reference locals are looked through."""
    i = strip(f, i)
    while i is not None and i >= 0 and f.nodes[i]["k"] in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and f.nodes[i].get("c"):
        i = strip(f, f.nodes[i]["c"][0])
    if i is None or i < 0:
        return None
    n = f.nodes[i]
    k = n["k"]
    if k == "DeclRefExpr":
        r = refs(f).get(n["d"])
        if r is not None and depth < 5:
            return canon(f, r, depth + 1)
        return n["d"]
    if k == "UnaryOperator" and n["op"] in ("*", "&"):
        return canon(f, n["c"][0], depth)
    if k == "CXXMemberCallExpr" and n.get("fn", "").split("::")[-1] in ("GetElement", "Field"):
        b = canon(f, n["obj"], depth)
        return b + "." + n["fn"].split("::")[-1] + "(" + ",".join(f.txt(a) for a in n["args"]) + ")" if b else None
    if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr"):
        return None
    return owner_of(f, i)


def refs(f):
    """{reference or pointer local bound once to an element: its initializer}"""
    r = getattr(f, "_refs04", None)
    if r is None:
        r, bad = {}, set()
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    t = v["t"].rstrip()
                    if t.endswith(("&", "*")) and is_elem(t) and v.get("i", -1) is not None and v.get("i", -1) >= 0:
                        r[v["d"]] = v["i"]
        for x, l, rr, op in assigns(f):
            y = f.nodes[strip(f, l)]
            if y["k"] == "DeclRefExpr":
                bad.add(y["d"])
        r = f._refs04 = {d: i for d, i in r.items() if d not in bad}
    return r


def root(p):
    return p.split(".")[0].split("[")[0] if p else None


def inside(p, r):
    """p names r or a part or attached datum of r"""
    return p is not None and root(p) == r


class InPlace:
    def __init__(self, m, f, p, r, sink):
        """p, r: declarations of the operand and of the result"""
        self.m, self.f, self.p, self.r, self.sink, self.queue = m, f, p, r, sink, []

    def run(self):
        f = self.f
        self.emit = False
        inn = {f.entry: (0, frozenset(), frozenset())}
        work = [f.entry]
        while work:
            b = work.pop()
            st = self.block(b, inn[b])
            for s in f.blocks[b]["succ"]:
                if s is None or s < 0:
                    continue
                new = st if s not in inn else (max(st[0], inn[s][0]), st[1] | inn[s][1], st[2] | inn[s][2])
                if s not in inn or new != inn[s]:
                    inn[s] = new
                    work.append(s)
        self.emit = True
        for b in inn:
            self.block(b, inn[b])

    def block(self, b, st):
        for s in self.f.blocks[b]["s"]:
            if isinstance(s, int):
                st = self.node(s, st)
        return st

    def see(self, i, st, what):
        """the operand is looked at here"""
        if self.emit:
            self.sink(i, st[0] == 0, what)

    def ptr_owner(self, i, st):
        """'p' / 'r' when raw pointer expression i may point into the operand / the result"""
        f = self.f
        out = set()
        i = strip(f, i)
        if i is None or i < 0:
            return out
        n = f.nodes[i]
        k = n["k"]
        if k == "DeclRefExpr":
            return {w for (d, w) in st[1] if d == n["d"]}
        if k == "CXXMemberCallExpr":
            s = n.get("fn", "").split("::")[-1]
            if s in ("ObtainReadData", "GetSpace"):
                c = canon(f, n["obj"])
                return {"p"} if inside(c, self.p) else {"r"} if inside(c, self.r) else set()
            if s in ("ObtainWriteEntireData", "ObtainWritePartialData"):
                return {"r"} if inside(canon(f, n["obj"]), self.r) else set()
            return set()
        if k in ("ParenExpr", "BinaryOperator", "ConditionalOperator", "UnaryOperator", "ArraySubscriptExpr", "MemberExpr") and is_ptr(n.get("t", "")):
            for c in n.get("c", ()):
                if c is not None and c >= 0 and is_ptr(f.nodes[c].get("t", "")):
                    out |= self.ptr_owner(c, st)
        return out

    def node(self, i, st):
        f = self.f
        n = f.nodes[i]
        k = n["k"]
        if k == "DeclStmt":
            for v in n["vars"]:
                if is_elem(v["t"]) and not v["t"].rstrip().endswith(("&", "*")) and v.get("i", -1) is not None and v.get("i", -1) >= 0:
                    st = self.bind(st, v["d"], {"c"} if self.part_copy(v["i"]) else ())
                elif is_ptr(v["t"]) and not is_elem(v["t"]) and v.get("i", -1) is not None and v.get("i", -1) >= 0:
                    st = self.bind(st, v["d"], self.ptr_owner(v["i"], st))
                st = self.moved(st, v["d"], True)
            return st
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            l = f.nodes[strip(f, n["c"][0])]
            if l["k"] == "DeclRefExpr":
                if is_ptr(l.get("t", "")) and k == "BinaryOperator":
                    st = self.bind(st, l["d"], self.ptr_owner(n["c"][1], st))
                return self.moved(st, l["d"], n["op"] == "=")
            return self.store(i, n["c"][0], st)
        if k == "UnaryOperator" and n["op"].replace("post", "") in ("++", "--"):
            l = f.nodes[strip(f, n["c"][0])]
            if l["k"] == "DeclRefExpr":
                return self.moved(st, l["d"])
            return self.store(i, n["c"][0], st)
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr", "CXXConstructExpr"):
            return self.call(i, n, st)
        if k == "ArraySubscriptExpr" or (k == "UnaryOperator" and n["op"] == "*"):
            self.load(i, st)
        return st

    def both(self, i, n, g, name, same, writes):
        """one call gets the operand and, for writing, the result"""
        if writes == ["obj"]:
            if n.get("cls", "").split("::")[-1] in ("Element", "SmartSpace"):
                self.sink(i, name in SELF_OK, name + " on the result with the operand as argument")
            return
        for q in same:
            for w in writes:
                if not isinstance(q, int) or not isinstance(w, int):
                    continue
                lg = legal(self.m, n, len(n["args"]))
                if lg is not None:
                    self.sink(i, lg == (q, w), name + " with operand and result in places that must differ")
                    if lg == (q, w) and g is not None:
                        self.queue.append((g, q, w))
                elif g is not None:
                    self.queue.append((g, q, w))

    def bind(self, st, d, who):
        facts = frozenset(x for x in st[1] if x[0] != d) | frozenset((d, w) for w in who)
        return (st[0], facts, st[2])

    def part_copy(self, i):
        """expression i copies a component of the operand: the copy lives in the storage of the operand"""
        f = self.f
        i = strip(f, i)
        while i is not None and i >= 0 and f.nodes[i]["k"] in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") and f.nodes[i].get("c"):
            i = strip(f, f.nodes[i]["c"][0])
        if i is None or i < 0:
            return False
        n = f.nodes[i]
        if n["k"] == "CXXConstructExpr" and n.get("copy") and n.get("args"):
            c = canon(f, n["args"][0])
            return inside(c, self.p) and ".GetElement(" in c
        return False

    def store(self, i, l, st):
        f = self.f
        l = strip(f, l)
        base = None
        n = f.nodes[l]
        if n["k"] == "ArraySubscriptExpr" or (n["k"] == "UnaryOperator" and n["op"] == "*"):
            base = n["c"][0]
        elif n["k"] == "MemberExpr" and n.get("c"):
            return self.store(i, n["c"][0], st)
        if base is None:
            return st
        if "r" in self.ptr_owner(base, st):
            return (1, st[1], st[2] | {("now",) + self.place(l)})
        return st

    def moved(self, st, d, again=False):
        """variable d has another value: entries named with it are entries stored before; again: it starts over"""
        def one(q):
            if q == BULK or d not in q[2]:
                return q
            return BULK if again and q[0] == d else (d,) + q[1:]
        return (st[0], st[1], frozenset(one(q) for q in st[2]))

    def load(self, i, st):
        """an entry of the operand is read through a raw pointer"""
        f = self.f
        n = f.nodes[i]
        base = n["c"][0]
        if "p" not in self.ptr_owner(base, st):
            return
        if self.target(i):
            return
        t = self.place(i)[0]
        ok = all(q[0] not in ("now", "all") and q[1] == t for q in st[2])
        if self.emit:
            self.sink(i, ok, "entry read through a pointer")

    def target(self, i):
        """node i is only stored to, or its address is taken"""
        f = self.f
        par = f.parent()
        j, last = par.get(i), i
        while j is not None and f.nodes[j]["k"] in ("ParenExpr", "MemberExpr"):
            j, last = par.get(j), j
        if j is None:
            return False
        n = f.nodes[j]
        if n["k"] == "BinaryOperator" and n["op"] == "=" and n["c"][0] == last:
            return True
        return n["k"] == "UnaryOperator" and n["op"] == "&"

    def place(self, i):
        """(text of the index, variables in it) of an entry accessed through a pointer; variables set once are looked through"""
        n = self.f.nodes[i]
        base = strip(self.f, n["c"][0])
        if n["k"] == "ArraySubscriptExpr":
            t, v = self.plain(n["c"][1])
            return t, frozenset(v)
        while self.f.nodes[base]["k"] in ("ParenExpr", "UnaryOperator") and self.f.nodes[base].get("c"):
            base = strip(self.f, self.f.nodes[base]["c"][0])
        return "0", frozenset({self.f.nodes[base]["d"]} if self.f.nodes[base]["k"] == "DeclRefExpr" else ())

    def plain(self, i, depth=0):
        f = self.f
        i = strip(f, i)
        n = f.nodes[i]
        if n["k"] == "DeclRefExpr":
            r = once_inits(f).get(n["d"]) if depth < 6 else None
            if r is not None and r >= 0 and not is_ptr(n.get("t", "")):
                return self.plain(r, depth + 1)
            return n["d"], {n["d"]}
        if n["k"] in ("ParenExpr",):
            return self.plain(n["c"][0], depth)
        if n["k"] == "BinaryOperator":
            a, b = self.plain(n["c"][0], depth), self.plain(n["c"][1], depth)
            return "(%s%s%s)" % (a[0], n["op"], b[0]), a[1] | b[1]
        return f.txt(i).replace(" ", ""), {f.nodes[x]["d"] for x in f.walk(i) if f.nodes[x]["k"] == "DeclRefExpr"}

    def call(self, i, n, st):
        f = self.f
        name = n.get("fn", "").split("::")[-1]
        args = [a for a in n.get("args", ())]
        objn = n.get("obj")
        if n["k"] == "CXXOperatorCallExpr" and objn is None and args:
            pass
        # receiver
        recv = canon(f, objn) if objn is not None and objn >= 0 else None
        if name in ("GetElement", "Field") and n["k"] == "CXXMemberCallExpr":
            if name == "Field" and inside(recv, self.p):
                self.see(i, st, "its attached data")
            return st
        reads, writes = [], []
        g = self.m.fns.get(n.get("usr"))
        ptypes = n.get("pt") or ([p["t"] for p in g.params] if g else None)
        if objn is not None and objn >= 0:
            if inside(recv, self.p):
                reads.append("obj")
            if inside(recv, self.r) and not n.get("const") and name not in HARMLESS and name not in ("ObtainReadData", "GetSpace"):
                writes.append("obj")
        for q, a in enumerate(args):
            if a is None or a < 0:
                continue
            t = f.nodes[a].get("t", "")
            c = canon(f, a)
            if inside(c, self.p):
                reads.append(q)
            elif inside(c, self.r):
                pt = ptypes[q] if ptypes and q < len(ptypes) else (t if "*" in t else "const")
                if "const" not in pt:
                    writes.append(q)
            else:
                w = self.ptr_owner(a, st)
                if "p" in w and not is_elem(t):
                    reads.append(("raw", q))
                if "r" in w and not is_elem(t) and ("const" not in t or True):
                    it = INTENT.get((name, len(args)))
                    if it is None or (q < len(it) and it[q] in "wu"):
                        writes.append(("raw", q))
        if n["k"] == "CXXConstructExpr" and not reads:
            return st
        acquire = name in ("ObtainWriteEntireData", "ObtainWritePartialData") and writes == ["obj"]
        rawr = [q for q in reads if isinstance(q, tuple)]
        reads = [q for q in reads if not isinstance(q, tuple)]
        for q in rawr:
            it = INTENT.get((name, len(args)))
            if it is not None and (q[1] >= len(it) or it[q[1]] not in "ru"):
                continue
            if self.emit:
                mixed = any(isinstance(w, tuple) for w in writes) and name not in ("axpy_", "copy_", "scal_", "dot_")
                self.sink(i, not st[2] and not mixed, name + " reads its entries")
        for q in reads:
            if name in HARMLESS and q == "obj":
                continue
            self.see(i, st, name)
        if writes:
            if self.emit and not all(isinstance(w, tuple) for w in writes):
                for d in sorted(d for (d, w) in st[1] if w == "c"):
                    self.sink(i, False, "%s on the result while %s lives in the storage of the operand" % (name, d.split(":")[-1]))
            same = [q for q in reads if q != "obj"]
            if name == "operator=" and same and canon(f, args[-1]) == self.p and recv == self.r:
                return st                       # result = operand: nothing changes when they are the same object
            if same and self.emit:
                self.both(i, n, g, name, same, writes)
            if acquire:
                return (max(st[0], 2 if name == "ObtainWriteEntireData" else 0), st[1], st[2])
            if all(isinstance(w, tuple) for w in writes):
                return (1, st[1], st[2] | {BULK})
            return (2, st[1], st[2] | {BULK})
        return st


def legal(m, n, np):
    """(operand, result) positions the interface allows to coincide for a called operation; None: not such an operation"""
    name = n.get("fn", "").split("::")[-1]
    cls = n.get("cls") or "::".join(n.get("fn", "").split("::")[:-1])
    for (c, op, k), pos in LEGAL.items():
        if op == name and k == np and cls in m.classes and NS + c in m.bases(cls):
            return pos
    return None


def decide(m, f, a, b, queue):
    """[(node, ok, what)] for function f whose parameters a and b may be the same object"""
    out = []
    w = InPlace(m, f, "P%d:%s" % (a, f.params[a]["n"]), "P%d:%s" % (b, f.params[b]["n"]), lambda i, ok, what: out.append((i, ok, what)))
    w.queue = queue
    w.run()
    return out


def reached(m, seeds):
    """{(function, operand, result): (function, steps, what the state machine saw, origin)} for everything the seeds hand their arguments on to"""
    todo, seen = list(seeds), {}
    while todo:
        f, a, b, origin = todo.pop(0)
        if (f.usr, a, b) in seen or f.entry is None:
            continue
        q = []
        seen[(f.usr, a, b)] = (f, decide(m, f, a, b, q), origin)
        for g, x, y in q:
            if x < len(g.params) and y < len(g.params):
                todo.append((g, x, y, origin))
    return seen


def overlap(a, b):
    return a is not None and b is not None and (a == b or a.startswith((b + ".", b + "[")) or b.startswith((a + ".", a + "[")))


def calls(m, f):
    """(node, class, argument, result position) of the calls of manifold and problem operations whose result is also an argument"""
    total, out = 0, []
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] != "CXXMemberCallExpr":
            continue
        cls = n.get("cls") or "::".join(n.get("fn", "").split("::")[:-1])
        if cls not in m.classes or not {NS + "Manifold", NS + "Problem"} & set(m.bases(cls)):
            continue
        ms = [q for q in m.classes[cls]["methods"] if q["usr"] == n.get("usr")]
        if not ms:
            continue
        ts = [p["t"] for p in ms[0]["params"]]
        for o in [q for q, t in enumerate(ts) if "*" in t and "const" not in t and is_elem(t) and q < len(n["args"])]:
            total += 1
            c = canon(f, n["args"][o])
            for q, a in enumerate(n["args"]):
                if q != o and q < len(ts) and is_elem(ts[q]) and overlap(c, canon(f, a)):
                    out.append((x, cls, q, o))
    return total, out


def title(f, a, b):
    return "%s(%s, %s)" % (f.qual().replace(NS, ""), f.params[a]["n"], f.params[b]["n"])


def run(m, ctx):
    ctx.rule("in-place", "an operand that may be the same object as the result is not looked at after the result has been changed")
    ctx.rule("call-site", "where the library passes one object as argument and as result, every implementation the call can reach looks at the argument only before it changes the result")
    ctx.rule("fixture", "the state machine reports the wrong in-place operations of the fixture and nothing on the correct ones")
    fx = m.fixture
    for f in sorted((f for f in fx.fns.values() if f.short.startswith(("Good", "Bad")) and "InPlaceTest" in f.qual()), key=lambda f: f.short):
        res = reached(fx, [(f, 1, 2, None)])
        bad = [o for _, os, _ in res.values() for o in os if not o[1]]
        ctx.check(bool(bad) == f.short.startswith("Bad"), "fixture", f.short, "sa/fixtures/inplace.cpp", "the rule does not behave as expected on its fixture")
    fns = [f for f in m.repo_fns() if f.entry is not None]
    seeds = [(f,) + pair(m, f) + (None,) for f in fns if pair(m, f)]
    judged = reached(m, seeds)
    looks = 0
    for (u, a, b), (f, out, _) in sorted(judged.items(), key=lambda z: (z[1][0].qual(), z[0])):
        looks += len(out)
        bad = [o for o in out if not o[1]]
        if not bad:
            ctx.ok("in-place", title(f, a, b))
        for i, ok, w in bad:
            ctx.bad("in-place", "%s: %s" % (title(f, a, b), " ".join(f.txt(i).split())[:90]), f.loc(i),
                    "%s may be the same object as %s, which has been changed before: %s" % (f.params[a]["n"], f.params[b]["n"], w))
    total, same = 0, 0
    for f in fns:
        t, cs = calls(m, f)
        total += t
        for x, cls, q, o in cs:
            n = f.nodes[x]
            same += 1
            key = "%s: %s" % (f.qual().replace(NS, ""), " ".join(f.txt(x).split())[:110])
            lg = legal(m, n, len(n["args"]))
            if lg is not None:
                ctx.check(lg == (q, o), "call-site", key, f.loc(x), "argument %d is also the result, which the interface does not allow: every manifold may look at it after changing the result" % (q + 1))
                continue
            fs = {g.usr: g for g in [m.resolve(n["usr"], c) for c in [cls] + sorted(m.derived(cls))] if g is not None and g.entry is not None}
            more = reached(m, [(g, q, o, None) for g in fs.values() if q < len(g.params) and o < len(g.params)])
            bad = [(g, y, w) for (u, a, b), (g, out, _) in sorted(more.items(), key=lambda z: (z[1][0].qual(), z[0])) if (u, a, b) not in judged for y, ok, w in out if not ok]
            ctx.check(not bad, "call-site", key, f.loc(x), "" if not bad else "argument %d is also the result, but %s looks at it after changing the result: %s" % (q + 1, bad[0][0].loc(bad[0][1]), bad[0][2]))
    ctx.facts.update({"operations_and_what_they_hand_on_to": len(judged), "looks_at_operand_judged": looks, "call_sites_with_a_result": total, "call_sites_in_place": same})
    ctx.assume.append("The operands listed by Manifolds/Manifold.h as allowed to be the result are those of the table LEGAL of the check.")
    ctx.notes.append("An entry of the operand may be read through a pointer while entries of the result are being stored only when the same entry is stored.")


def pair(m, f):
    for (c, op, np), (a, b) in LEGAL.items():
        if op == f.short and len(f.params) == np and f.cls and NS + c in m.bases(f.cls):
            return a, b
    return None
