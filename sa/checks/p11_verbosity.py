"""What a solver prints and records does not change what it computes.

Information about the output level (Verbose, OutputGap) is followed through the library: branches that depend on it, the statements
they control (up to the join of both arms), the functions called there, variables computed from it.  Everything written under its
influence must be output only: never read, and never written with anything but constants, by code that is not under its influence.
"""
from model import NS, AnalysisBroken
from util import *

FIXTURES = ("verbosity.cpp",)
MINIMUM = {"branch": 15, "write": 20, "call": 15, "fixture": 6}
LEVEL = ("Verbose", "OutputGap")
RNG = ("genrandseed", "genrandreal", "genrandnormal", "rand", "srand")
MUTE = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr")


def postdominators(f):
    """{block: set of blocks on every path to the exit, itself included}"""
    r = f.__dict__.get("_pdom")
    if r is not None:
        return r
    allb = set(f.blocks)
    pd = {b: set(allb) for b in allb}
    pd[f.exit] = {f.exit}
    change = True
    order = list(reversed(f.rpo())) + [b for b in allb if b not in set(f.rpo())]
    while change:
        change = False
        for b in order:
            if b == f.exit:
                continue
            ss = [s for s in f.blocks[b]["succ"] if s is not None and s >= 0]
            n = set.intersection(*[pd[s] for s in ss]) if ss else set()
            n = n | {b}
            if n != pd[b]:
                pd[b], change = n, True
    f._pdom = pd
    return pd


def region(f, b):
    """blocks that run or not, or run a different number of times, depending on the branch at the end of block b"""
    pd = postdominators(f)
    ss = [s for s in f.blocks[b]["succ"] if s is not None and s >= 0]
    if len(ss) < 2:
        return set()
    join = set.intersection(*[pd[s] for s in ss])
    out, st = set(), list(ss)
    while st:
        q = st.pop()
        if q in out or q in join:
            continue
        out.add(q)
        st += [s for s in f.blocks[q]["succ"] if s is not None and s >= 0]
    return out


def loops_of(f):
    """{header: blocks of the natural loop}"""
    r = f.__dict__.get("_nat")
    if r is not None:
        return r
    order = f.rpo()
    pos = {b: k for k, b in enumerate(order)}
    dom = {order[0]: {order[0]}}
    preds = f.preds()
    change = True
    while change:
        change = False
        for b in order[1:]:
            ps = [dom[p] for p in preds[b] if p in dom]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if dom.get(b) != n:
                dom[b], change = n, True
    r = f._nat = {}
    for b in order:
        for s in f.blocks[b]["succ"]:
            if s is not None and s >= 0 and s in dom.get(b, ()):
                body, st = {s}, [b]
                while st:
                    q = st.pop()
                    if q not in body:
                        body.add(q)
                        st += [p for p in preds[q] if p in pos]
                r.setdefault(s, set()).update(body)
    return r


class Where:
    """roots of the storage an expression of one function refers to"""

    def __init__(self, f):
        self.f = f
        self.defs = {}
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if v.get("i", -1) is not None and v.get("i", -1) >= 0 and v["t"].rstrip().endswith(("*", "&")):
                        self.defs.setdefault(v["d"], []).append(v["i"])
        for x, l, r, op in assigns(f):
            n = f.nodes[strip(f, l)]
            if r is not None and op == "=" and n["k"] == "DeclRefExpr" and n.get("t", "").rstrip().endswith("*"):
                self.defs.setdefault(n["d"], []).append(r)

    def roots(self, i, depth=0):
        """storage of the object expression i denotes or points to"""
        f = self.f
        i = strip(f, i)
        if i is None or i < 0 or depth > 12:
            return set()
        n = f.nodes[i]
        k = n["k"]
        if k == "CXXThisExpr":
            return {"this"}
        if k == "MemberExpr":
            b = strip(f, n["c"][0])
            if b >= 0 and f.nodes[b]["k"] == "CXXThisExpr":
                return {"this." + n["m"]}
            return self.roots(n["c"][0], depth + 1)
        if k == "DeclRefExpr":
            d = n["d"]
            r = {d}
            for q in self.defs.get(d, ()):
                r |= self.roots(q, depth + 1)
            return r
        if k in MUTE or k in ("UnaryOperator", "ArraySubscriptExpr"):
            return self.roots(n["c"][0], depth + 1) if n.get("c") else set()
        if k == "ConditionalOperator":
            return self.roots(n["c"][1], depth + 1) | self.roots(n["c"][2], depth + 1)
        if k == "BinaryOperator":
            return set().union(*[self.roots(c, depth + 1) for c in n["c"]])
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            o = n.get("obj", -1)
            if o is not None and o >= 0 and n.get("t", "").rstrip().endswith(("*", "&")) or k == "CXXOperatorCallExpr" and n["op"] in ("[]", "=", "+=", "*", "->", "<<"):
                return self.roots(o, depth + 1) if o is not None and o >= 0 else self.roots(n["args"][0], depth + 1)
        return set()


def where(f):
    w = f.__dict__.get("_where")
    if w is None:
        w = f._where = Where(f)
    return w


class Flow:
    def __init__(self, m, fns, level, ctx):
        self.m, self.ctx = m, ctx
        self.fns = {f.usr: f for f in fns}
        self.level = level              # qualified names of the attributes that hold the output level
        self.tp = {}                    # usr -> parameters whose value depends on the level
        self.tret = set()               # usr of functions whose value does
        self.under = {}                 # usr -> blocks under its influence
        self.called = {}                # usr -> set of blocks that call repo functions ...
        self.branches = 0
        work = True
        n = 0
        while work and n < 10:
            n += 1
            work = False
            for f in fns:
                work |= self.taint(f)
        if n == 10:
            raise AnalysisBroken("the influence of the output level did not stabilise")
        self.output_functions()

    # ------------------------------------------------------------ what depends on the level
    def source(self, f, i, loc):
        """the value of expression i depends on the level"""
        for x in f.walk(i):
            n = f.nodes[x]
            if n["k"] == "MemberExpr" and n.get("m") in self.level:
                return True
            if n["k"] == "DeclRefExpr" and n["d"] in loc:
                return True
            if n["k"] in ("CallExpr", "CXXMemberCallExpr") and self.tells(n):
                return True
        return False

    def tells(self, n):
        """the value a call returns depends on the level"""
        return bool(self.tret) and any(g.usr in self.tret for g in self.targets(n))

    def taint(self, f):
        loc = f.__dict__.setdefault("_lv", set())
        loc |= self.tp.get(f.usr, set())
        under = self.under.setdefault(f.usr, set())
        own = f.__dict__.get("_lvown")
        if own is None:
            own = f._lvown = any(n is not None and n["k"] == "MemberExpr" and n.get("m") in self.level for n in f.nodes)
        if not own and not loc and not (self.tret and any(n is not None and n["k"] in ("CallExpr", "CXXMemberCallExpr") and self.tells(n) for n in f.nodes)):
            return False
        n0 = (len(loc), len(under), len(self.tret), sum(len(v) for v in self.tp.values()))
        while True:
            k0 = (len(loc), len(under))
            for x in f.walk():
                n = f.nodes[x]
                if n["k"] == "DeclStmt":
                    for v in n["vars"]:
                        if v.get("i", -1) is not None and v.get("i", -1) >= 0 and v["d"] not in loc and self.value(f, v["i"], loc):
                            loc.add(v["d"])
            for x, l, r, op in assigns(f):
                n = f.nodes[strip(f, l)]
                if r is not None and n["k"] == "DeclRefExpr" and n["d"] not in loc and self.value(f, r, loc):
                    loc.add(n["d"])
            for b, o in f.blocks.items():
                c = o.get("cond")
                if c is not None and c >= 0 and len(o["succ"]) > 1 and (self.source(f, self.last(f, o), loc)):
                    under |= region(f, b)
            if k0 == (len(loc), len(under)):
                break
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] in ("CallExpr", "CXXMemberCallExpr") and n.get("args"):
                q = [k for k, a in enumerate(n["args"]) if a is not None and a >= 0 and self.value(f, a, loc)]
                if q:
                    for g in self.targets(n):
                        for k in q:
                            if k < len(g.params):
                                self.tp.setdefault(g.usr, set()).add("P%d:%s" % (k, g.params[k]["n"]))
        if f.usr not in self.tret:
            blk, par = block_of(f), f.parent()
            for x in f.walk():
                n = f.nodes[x]
                if n["k"] == "ReturnStmt" and n.get("c") and n["c"][0] is not None and n["c"][0] >= 0 and f.nodes[strip(f, n["c"][0])].get("t", "") != "void":
                    if self.value(f, n["c"][0], loc) or blk.get(x) in under:
                        self.tret.add(f.usr)
        return n0 != (len(loc), len(under), len(self.tret), sum(len(v) for v in self.tp.values()))

    def value(self, f, i, loc):
        """the scalar value of i depends on the level (what a called function gets does not count)"""
        i = strip(f, i)
        n = f.nodes[i]
        if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr"):
            return self.tells(n) if n["k"] != "CXXConstructExpr" else any(a is not None and a >= 0 and self.value(f, a, loc) for a in n["args"])
        if n["k"] == "MemberExpr":
            return n.get("m") in self.level
        if n["k"] == "DeclRefExpr":
            return n["d"] in loc
        if n["k"] == "LambdaExpr":
            return False
        return any(self.value(f, c, loc) for c in f.children(i))

    def last(self, f, o):
        """the condition the branch at the end of a block tests"""
        c = o["cond"]
        n = f.nodes[strip(f, c)]
        while n["k"] == "ParenExpr":
            c = n["c"][0]
            n = f.nodes[strip(f, c)]
        if n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
            ins = [s for s in o["s"] if isinstance(s, int)]
            r = n["c"][1]
            while f.nodes[strip(f, r)]["k"] == "ParenExpr":
                r = f.nodes[strip(f, r)]["c"][0]
            sub = set(f.walk(n["c"][0]))
            if any(s in set(f.walk(r)) for s in ins) or not any(s in sub for s in ins):
                return n["c"][1]
        return c

    def targets(self, n):
        u = n.get("usr")
        if u is None:
            return []
        return [g for g in (self.m.targets(u) if n.get("virt") else [self.m.fns.get(u)]) if g is not None and g.usr in self.fns]

    # ------------------------------------------------------------ functions that only serve the output
    def output_functions(self):
        """functions of the solvers all of whose calls are under the influence of the level, with every override"""
        inside, outside = set(), {}
        for f in self.fns.values():
            blk = block_of(f)
            for x in f.walk():
                n = f.nodes[x]
                if n["k"] in ("CXXMemberCallExpr", "CallExpr"):
                    for g in self.targets(n):
                        if blk.get(x) in self.under[f.usr]:
                            inside.add(g.usr)
                        else:
                            outside.setdefault(g.usr, set()).add(f.usr)
        out = {u for u in inside if u not in outside}
        change = True
        while change:       # also those called from such functions only
            change = False
            for u in self.fns:
                if u not in out and u in outside and outside[u] <= out:
                    out.add(u)
                    change = True
        self.output = out

    def is_under(self, f, x):
        return f.usr in self.output or block_of(f).get(x) in self.under[f.usr]

    # ------------------------------------------------------------ effects
    def effects(self, f, nodes):
        """(node, roots, constant) of everything the nodes write; calls of repo functions on this are followed by the caller"""
        w = where(f)
        for x in nodes:
            n = f.nodes[x]
            k = n["k"]
            if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                yield x, self.target(f, n["c"][0]), n["op"] == "=" and self.constant(f, n["c"][1])
            elif k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
                yield x, self.target(f, n["c"][0]), False
            elif k == "CXXOperatorCallExpr" and n["op"] in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<"):
                o = n["obj"] if n.get("obj", -1) is not None and n.get("obj", -1) >= 0 else n["args"][0]
                yield x, w.roots(o), False
            elif k == "CXXMemberCallExpr" and n.get("obj", -1) is not None and n.get("obj", -1) >= 0 and n.get("usr"):
                o = strip(f, n["obj"])
                mine = f.nodes[o]["k"] == "CXXThisExpr"
                if not n.get("const") and not (mine and self.targets(n)) and not self.acquires(f, x, n):
                    yield x, w.roots(o), False
                yield from self.byref(f, x, n, w)
            elif k in ("CallExpr", "CXXConstructExpr"):
                yield from self.byref(f, x, n, w)

    def acquires(self, f, x, n):
        """only gets access: what is stored through the pointer counts"""
        return n["fn"].split("::")[-1] in ACCESS

    def byref(self, f, x, n, w):
        for q, a in enumerate(n.get("args") or ()):
            if a is None or a < 0:
                continue
            t = f.nodes[strip(f, a)].get("t", "")
            if q in n.get("ref", ()):
                yield x, w.roots(a), False
            elif n.get("fn", "") not in ("printf", "fprintf", "sprintf") and f.nodes[strip(f, a)]["k"] == "UnaryOperator" and f.nodes[strip(f, a)]["op"] == "&":
                g = self.m.fns.get(n.get("usr"))
                if not (g is not None and q < len(g.params) and "const" in g.params[q]["t"].split("*")[0]):
                    yield x, w.roots(a), False

    def target(self, f, l):
        w = where(f)
        l = strip(f, l)
        n = f.nodes[l]
        if n["k"] == "DeclRefExpr" and not n.get("t", "").rstrip().endswith("&"):
            return {n["d"]} if not any(n["d"] == d and True for d in ()) else set()
        return w.roots(l) - {"this"}

    def constant(self, f, i):
        i = strip(f, i)
        n = f.nodes[i]
        if n["k"] == "ParenExpr":
            return self.constant(f, n["c"][0])
        if n["k"] == "UnaryOperator" and n["op"] in ("-", "!"):
            return self.constant(f, n["c"][0])
        return n["k"] in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CXXNullPtrLiteralExpr", "GNUNullExpr", "StringLiteral") or n["k"] == "DeclRefExpr" and n["d"].startswith("E:")

    # ------------------------------------------------------------ who reads
    def readers(self, live):
        """{attribute: [(function, node)]} of the reads and non-constant writes that are not under the influence of the level"""
        r = {}
        for f in self.fns.values():
            if f.usr in self.output or f.usr not in live:
                continue
            par, blk = f.parent(), block_of(f)
            stores = {}
            for x, roots, const in self.effects(f, list(f.walk())):
                n = f.nodes[x]
                stores[x] = (roots, const)
            lhs = {strip(f, f.nodes[x]["c"][0]) for x in stores if f.nodes[x]["k"] == "BinaryOperator"}
            lhs |= {strip(f, f.nodes[x]["args"][0]) if f.nodes[x].get("obj", -1) in (None, -1) else strip(f, f.nodes[x]["obj"]) for x in stores if f.nodes[x]["k"] == "CXXOperatorCallExpr" and f.nodes[x]["op"] == "="}
            for x in f.walk():
                n = f.nodes[x]
                if x in lhs or n["k"] not in ("MemberExpr", "DeclRefExpr") or self.is_under(f, self.stmt(f, x, par, blk)):
                    continue
                if n["k"] == "MemberExpr" and n.get("m") and not self.access_only(f, x, par) and not self.for_user(f, x, par):
                    r.setdefault(n["m"], []).append((f, x))
                elif n["k"] == "DeclRefExpr" and n["d"] in where(f).defs:      # a pointer or reference into an attribute
                    for q in where(f).roots(x):
                        if q.startswith("this."):
                            r.setdefault(q[5:], []).append((f, x))
            for x, (roots, const) in stores.items():
                if not const and not self.is_under(f, self.stmt(f, x, par, blk)):
                    for q in roots:
                        if q.startswith("this."):
                            r.setdefault(q[5:], []).append((f, x))
        return r

    def access_only(self, f, x, par):
        """X in T *p = X.ObtainWritePartialData(): what is read through p counts"""
        y = x
        while y in par and f.nodes[par[y]]["k"] in CASTS + MUTE:
            y = par[y]
        q = par.get(y)
        if q is None or f.nodes[q]["k"] != "CXXMemberCallExpr" or strip(f, f.nodes[q].get("obj", -1)) != x or f.nodes[q].get("fn", "").split("::")[-1] not in ACCESS:
            return False
        while q in par and f.nodes[par[q]]["k"] in CASTS + MUTE:
            q = par[q]
        return any(q == strip(f, i) or q == i for v in where(f).defs.values() for i in v)

    def for_user(self, f, x, par):
        """handed to a function of the user"""
        y = x
        while y in par:
            z = par[y]
            n = f.nodes[z]
            if n["k"] in ("CallExpr", "CXXMemberCallExpr"):
                return n.get("usr") is None and y in n["args"] and n.get("calleeExpr", -1) not in (None, -1)
            if n["k"] not in CASTS + MUTE + ("CXXConstructExpr",):
                return False
            y = z
        return False

    def stmt(self, f, x, par, blk):
        while x not in blk and x in par:
            x = par[x]
        return x

    def judge(self, runs, allowed=()):
        """everything written under the influence of the level"""
        m, ctx = self.m, self.ctx
        live = self.closure(runs)
        reads = self.readers(live)
        rngs = self.drawing()
        done = set()
        for f in sorted(self.fns.values(), key=lambda f: (f.qual(), f.loc())):
            if f.usr not in live and f.usr not in self.output:
                continue
            blk, par = block_of(f), f.parent()
            for b, o in f.blocks.items():
                if o.get("cond") is not None and o["cond"] >= 0 and len(o["succ"]) > 1 and self.source(f, self.last(f, o), f._lv):
                    c = self.last(f, o)
                    h = self.repeats(f, b)
                    ctx.check(h is None, "branch", "%s/%d: %s" % (f.qual(), len(f.params), f.txt(c)), f.loc(c), "how often the loop at line %s is run depends on the output level" % h)
            if f.usr not in self.output and not self.under[f.usr] and not f._lv and not f._lvown:
                continue
            inside = [x for x in f.walk() if self.is_under(f, self.stmt(f, x, par, blk))]
            # values computed from the level and kept
            direct = [(x, self.target(f, l)) for x, l, r, op in assigns(f) if r is not None and self.value(f, r, f._lv)]
            for x, roots, const in list(self.effects(f, inside)) + [(x, t, False) for x, t in direct]:
                key = "%s/%d: %s" % (f.qual(), len(f.params), f.txt(x)[:150])
                if (f.usr, x) in done:
                    continue
                done.add((f.usr, x))
                msg = None
                for q in sorted(roots):
                    if q.startswith("this."):
                        if q[5:] in self.level:
                            continue
                        rs = [y for y in reads.get(q[5:], ()) if self.counts(y, live)]
                        if rs:
                            g, y = rs[0]
                            msg = "%s is written only at some output levels, but used regardless at %s (%s)" % (q.split("::")[-1], g.loc(y), g.qual())
                    elif q.startswith("G:"):
                        msg = "global %s is written only at some output levels" % q[2:]
                    elif q.startswith("P"):
                        if f.usr not in self.output and self.escapes(f, q):
                            msg = "parameter %s is changed only at some output levels" % q.split(":")[-1]
                    elif q.startswith("L"):
                        y = self.later(f, x, q)
                        if y is not None:
                            msg = "local %s is written only at some output levels, but used regardless at %s" % (q.split(":")[-1], f.loc(y))
                ctx.check(msg is None, "write", key, f.loc(x), msg or "")
            for x in inside:
                n = f.nodes[x]
                if n["k"] in ("CallExpr", "CXXMemberCallExpr"):
                    ts = self.targets(n)
                    key = "%s/%d: %s" % (f.qual(), len(f.params), f.txt(x)[:150])
                    msg = None
                    if n.get("fn", "").split("::")[-1] in RNG or any(g.usr in rngs for g in ts):
                        msg = "random numbers are drawn only at some output levels"
                    elif n.get("fn", "") in NORETURN or n.get("fn", "").split("::")[-1] in ("exit", "abort"):
                        msg = "the program ends only at some output levels"
                    else:
                        for g in ts:
                            if g.usr in self.output or n.get("const") or n["k"] == "CallExpr" or f.nodes[strip(f, n["obj"])]["k"] != "CXXThisExpr":
                                continue
                            w = self.inner(g, reads, live, set())
                            if w:
                                msg = "%s, called only at some output levels, writes %s, which is used regardless at %s" % (g.qual(), w[0], w[1])
                                break
                    ctx.check(msg is None, "call", key, f.loc(x), msg or "")

    def repeats(self, f, b):
        """the line of a loop around branch b (not itself under the influence of the level) that b may leave"""
        if f.usr in self.output:
            return None
        rg = region(f, b)
        for h, body in loops_of(f).items():
            if b in body and h in rg and not any(h in region(f, c) for c, o in f.blocks.items() if c not in body and o.get("cond") is not None and o["cond"] >= 0 and len(o["succ"]) > 1 and self.source(f, self.last(f, o), f._lv)):
                t = f.blocks[h].get("term")
                return f.nodes[t]["l"] if isinstance(t, int) else "?"
        return None

    def counts(self, y, live):
        """the use is one of a run"""
        g, x = y
        return g.usr in live

    def closure(self, runs):
        seen, st = set(), [f.usr for f in runs]
        while st:
            u = st.pop()
            if u in seen or u not in self.fns:
                continue
            seen.add(u)
            f = self.fns[u]
            for x in f.walk():
                n = f.nodes[x]
                if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr"):
                    st += [g.usr for g in self.targets(n)]
                elif n["k"] == "DeclRefExpr" and n["d"].startswith("F:"):
                    st += [g.usr for g in self.fns.values() if g.usr == n.get("usr")]
                elif n["k"] == "UnaryOperator" and n["op"] == "&" and n.get("usr"):
                    st.append(n["usr"])
        return seen

    def drawing(self):
        """functions that may draw random numbers"""
        up, out = {}, set()
        for f in self.fns.values():
            for x in f.walk():
                n = f.nodes[x]
                if n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                    if n.get("fn", "").split("::")[-1] in RNG:
                        out.add(f.usr)
                    for g in self.targets(n):
                        up.setdefault(g.usr, set()).add(f.usr)
        st = list(out)
        while st:
            for u in up.get(st.pop(), ()):
                if u not in out:
                    out.add(u)
                    st.append(u)
        return out

    def inner(self, g, reads, live, seen):
        """(attribute, use) of something a function that is also called regardless of the level writes and others use"""
        if g.usr in seen:
            return None
        seen.add(g.usr)
        for x, roots, const in self.effects(g, list(g.walk())):
            for q in sorted(roots):
                if q.startswith("this.") and q[5:] not in self.level:
                    rs = [y for y in reads.get(q[5:], ()) if self.counts(y, live)]
                    if rs:
                        return q.split("::")[-1], rs[0][0].loc(rs[0][1])
        for x in g.walk():
            n = g.nodes[x]
            if n["k"] == "CXXMemberCallExpr" and not n.get("const") and n.get("obj", -1) is not None and n.get("obj", -1) >= 0 and g.nodes[strip(g, n["obj"])]["k"] == "CXXThisExpr":
                for h in self.targets(n):
                    w = self.inner(h, reads, live, seen)
                    if w:
                        return w
        return None

    def escapes(self, f, d):
        k = int(d[1:d.index(":")])
        return f.params[k]["t"].rstrip().endswith(("*", "&"))

    def later(self, f, x, d):
        """a use of local d outside the influence that a store at x reaches"""
        blk, par = block_of(f), f.parent()
        s = self.stmt(f, x, par, blk)
        if s not in blk:
            return None
        lhs = {strip(f, l) for _, l, r, op in assigns(f) if op == "="}

        def scan(nodes):
            for q in nodes:
                if not isinstance(q, int):
                    continue
                n = f.nodes[q]
                if n["k"] == "DeclRefExpr" and n["d"] == d and q not in lhs and not self.is_under(f, q):
                    return q, False
                if n["k"] == "BinaryOperator" and n["op"] == "=":
                    t = f.nodes[strip(f, n["c"][0])]
                    if t["k"] == "DeclRefExpr" and t["d"] == d:
                        return None, True
                if n["k"] == "DeclStmt" and any(v["d"] == d for v in n["vars"]):
                    return None, True
            return None, False
        b = blk[s]
        ns = f.blocks[b]["s"]
        y, dead = scan(ns[ns.index(s) + 1:])
        if y is not None or dead:
            return y
        seen, st = set(), list(f.blocks[b]["succ"])
        while st:
            q = st.pop()
            if q is None or q < 0 or q in seen:
                continue
            seen.add(q)
            y, dead = scan(f.blocks[q]["s"])
            if y is not None:
                return y
            if not dead:
                st += f.blocks[q]["succ"]
        return None


ACCESS = ("ObtainWritePartialData", "ObtainReadData", "begin", "end", "GetElement")
NORETURN = ("exit", "abort", "_exit", "longjmp")


def levels(m, top):
    out = set()
    for c in m.bases(top) + m.derived(top):
        for x in m.classes.get(c, {}).get("fields", []):
            if x["n"] in LEVEL:
                out.add(c + "::" + x["n"])
    return out


def run(m, ctx):
    ctx.rule("branch", "no branch that depends on Verbose or OutputGap leaves a loop")
    ctx.rule("write", "what is written under the influence of the output level is used for output only")
    ctx.rule("call", "functions called under its influence draw no random numbers and change nothing that is used regardless")
    ctx.rule("fixture", "the rules report the wrong solvers of the fixture and nothing on the correct one")
    fx = m.fixture

    class Silent:
        def __init__(self):
            self.hit = {}

        def ok(self, *a):
            pass

        def check(self, ok, rule, key, w, msg):
            if not ok:
                self.hit.setdefault(key.split("::")[0], set()).add(rule)
    cs = [c for c in fx.classes if c.split("::")[-1].startswith("VerbTest")]
    for c in sorted(cs):
        s = Silent()
        fns = [f for f in fx.fns.values() if f.entry is not None and (f.cls == c or f.cls is None)]
        lv = {c + "::Verbose", c + "::OutputGap"}
        fl = Flow(fx, fns, lv, s)
        fl.judge([f for f in fns if f.short == "Run"])
        n = c.split("::")[-1]
        hit = set().union(*s.hit.values()) if s.hit else set()
        want = {"Good": set(), "Write": {"write"}, "Break": {"branch"}, "Call": {"call"}, "Return": {"branch"}, "Local": {"write"}, "Value": {"write"}, "Random": {"call"}}[n[8:]]
        ctx.check(hit == want, "fixture", n, "sa/fixtures/verbosity.cpp", "the rules do not behave as expected on their fixture: %s" % sorted(s.hit.items()))
    m.need_class("Solvers")
    lv = levels(m, NS + "Solvers")
    if len(lv) != 2:
        raise AnalysisBroken("anchor vanished: Verbose and OutputGap of Solvers: %s" % sorted(lv))
    fns = [f for f in m.repo_fns(("Solvers/", "Problems/", "Manifolds/", "Others/")) if f.entry is not None]
    fl = Flow(m, fns, lv, ctx)
    runs = [f for f in fns if f.short == "Run" and f.cls and NS + "Solvers" in m.bases(f.cls)]
    fl.judge(runs)
    ctx.facts.update({"functions": len(fns), "level_attributes": sorted(x.replace(NS, "") for x in lv), "output_functions": sorted(fl.fns[u].qual() for u in fl.output),
                      "functions_of_runs": len(fl.closure(runs))})
    ctx.notes.append("A stopping function of the user is given the recorded series and may look at them; the property is about everything the library computes. Text printed and the wall-clock time are what the levels are for.")
