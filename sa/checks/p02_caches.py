"""P02: data derived from an element (its Fields) never outlive the contents they were derived from."""
from model import NS, AnalysisBroken
from util import *
from ptr import PtrFlow, acquisition_summary, owner_of, is_elem, is_ptr, ptr_base, ELEM, INTENT, READ, ENTIRE, PARTIAL

FIXTURES = ("caches.cpp",)
MINIMUM = {"clear-on-write": 10, "clear-complete": 1, "assign-fields": 3, "factor-complete": 8, "derive-last": 300, "cache-own": 19, "fixture": 6}
SKIP_FILES = ("BlasLapackCpp", "SparseBLAS")
EL, SS = NS + "Element", NS + "SmartSpace"
# fields that are attached to a point or direction together with other operands by design: the egf of the last gradient, the
# data of the last differentiated retraction along etax (locking condition), the last Cayley retraction from x
# names kept together with another operand on purpose: with the point (0) or with the direction of a retraction (1)
BY_DESIGN = {"EGrad": 0, "beta": 1, "betaTReta": 1, "tau1tau2": 1, "nu1": 1, "nu2": 1, "Mk2": 0, "Mk3": 0, "LUP": 0, "U": 0}
SIZE_FIELDS = (SS + "::size", SS + "::length", SS + "::ls", SS + "::Space", EL + "::iscomplex")


def on_this(f, n):
    return n.get("obj") is not None and n["obj"] >= 0 and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr"


def elem_methods(m):
    return [f for f in m.fns.values() if f.cls == EL and f.entry is not None and not f.o["static"]]


def clear_set(m):
    """Element methods that drop the fields of *this on every path (least fixpoint)."""
    root = [f for f in elem_methods(m) if f.short == "RemoveAllFromFields"]
    if not root:
        raise AnalysisBroken("anchor vanished: Element::RemoveAllFromFields")
    clear = {f.usr for f in root}
    for _ in range(6):
        k = len(clear)
        for f in elem_methods(m):
            if f.usr in clear or f.short.startswith("~"):
                continue
            blk = block_of(f)
            bs = {blk[x] for x in clears(m, f, clear) if x in blk}
            if bs and must_pass(f, bs):
                clear.add(f.usr)
        if len(clear) == k:
            break
    return clear


def clears(m, f, clear):
    out = []
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "CXXMemberCallExpr" and on_this(f, n):
            u = n.get("usr")
            if u in clear:
                out.append(x)
            elif n.get("virt"):
                t = m.resolve(u, EL)
                if t is not None and t.usr in clear:
                    out.append(x)
    return out


def mutations(m, f):
    """Nodes of an Element method that change the contents or the dimensions of *this without going through an Element method."""
    out = []
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "CXXMemberCallExpr" and on_this(f, n) and n.get("cls", "") == SS:
            me = m.meth.get(n.get("usr"))
            if me is None or me[1]["const"] or me[1].get("static"):
                continue
            if n.get("virt"):
                t = m.resolve(n.get("usr"), EL)
                if t is not None and t.cls == EL:
                    continue
            out.append(x)
    for x, l, r, op in assigns(f):
        l = strip(f, l)
        n = f.nodes[l]
        b = ptr_base(f, l)
        if b is not None:
            n = f.nodes[strip(f, b)]
            if n["k"] == "CXXMemberCallExpr":
                continue
        if n["k"] == "MemberExpr" and n.get("m") in SIZE_FIELDS and n["c"][0] >= 0 and f.nodes[strip(f, n["c"][0])]["k"] == "CXXThisExpr":
            out.append(x)
    return out


def avoid(f, start, goal, bad):
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in bad:
            continue
        seen.add(b)
        if b == goal:
            return True
        st.extend(s for s in f.blocks[b]["succ"] if s is not None and s >= 0)
    return False


def clear_rules(m, f, clear):
    muts = mutations(m, f)
    if not muts:
        return []
    blk = block_of(f)
    cb = {blk[x] for x in clears(m, f, clear) if x in blk}
    out = []
    for x in muts:
        b = blk.get(x)
        if b is None:
            continue
        # a path through the mutation that passes no clearing call, before or after
        bad = b not in cb and avoid(f, f.entry, b, cb) and avoid(f, b, f.exit, cb)
        out.append((not bad, "clear-on-write", "%s: %s" % (f.qual(), f.txt(x)[:60]), f.loc(x), "`%s` changes the element while its derived data are kept on a path through %s" % (f.txt(x)[:60], f.qual())))
    return out


def clear_complete(m, ctx):
    for f in m.need("Element::RemoveAllFromFields"):
        blk = block_of(f)
        cl = [x for x in f.walk() if f.nodes[x]["k"] == "CXXMemberCallExpr" and f.nodes[x].get("fn", "").split("::")[-1] in ("clear", "swap") and is_this_member(f, f.nodes[x]["obj"]) == EL + "::Fields"]
        cl += [x for x in f.walk() if f.nodes[x]["k"] == "CXXOperatorCallExpr" and f.nodes[x].get("op") == "=" and is_this_member(f, (([f.nodes[x]["obj"]] if "obj" in f.nodes[x] else []) + f.nodes[x]["args"])[0]) == EL + "::Fields"]
        er = [x for x in f.walk() if f.nodes[x]["k"] == "CXXMemberCallExpr" and f.nodes[x].get("fn", "").split("::")[-1] in ("erase", "RemoveFromFields")]
        ok = bool(cl) and must_pass(f, {blk[x] for x in cl if x in blk}) or (not cl and er and in_loop(f, er))
        ctx.check(ok, "clear-complete", f.qual() + ": own fields", f.loc(), "RemoveAllFromFields leaves entries of Fields behind on some path")
        rec = [x for x in f.walk() if f.nodes[x]["k"] == "CXXMemberCallExpr" and f.nodes[x].get("fn", "").endswith("Element::RemoveAllFromFields") and not on_this(f, f.nodes[x])]
        okr = bool(rec) and in_loop(f, rec)
        ok2 = okr
        if okr:     # the only tests on the way to the recursion concern the presence of components
            for x in rec:
                for c in controlling(f, x):
                    names = {f.nodes[y].get("m", f.nodes[y].get("d", "")).split("::")[-1] for y in f.walk(c) if f.nodes[y]["k"] in ("MemberExpr", "DeclRefExpr")}
                    if not names & {"elements", "numofelements", "numoftypes", "powsinterval"}:
                        ok2 = False
        ctx.check(ok2, "clear-complete", f.qual() + ": components", f.loc(), "RemoveAllFromFields does not drop the derived data of the components")


def in_loop(f, nodes):
    par = f.parent()
    for x in nodes:
        p = par.get(x)
        while p is not None:
            if f.nodes[p]["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                return True
            p = par.get(p)
    return False


def controlling(f, x):
    par = f.parent()
    out, c, p = [], x, par.get(x)
    while p is not None:
        n = f.nodes[p]
        if n["k"] in ("IfStmt", "ForStmt", "WhileStmt") and n.get("cond", -1) is not None and n.get("cond", -1) >= 0 and n.get("cond") != c and n.get("inc") != c and n.get("init") != c:
            out.append(n["cond"])
        c, p = p, par.get(p)
    return out


def assign_rules(m, ctx):
    """CopyTo leaves the target with exactly the derived data of the source."""
    f = m.need("Element::CopyTo")[0]
    eta = f.params[0]["d"]
    seen, todo = {}, [(f, eta)]
    calls = []        # (fn, node, receiver kind: 'eta' / 'comp' / 'field', name)
    while todo:
        g, e = todo.pop()
        if (g.usr, e) in seen:
            continue
        seen[(g.usr, e)] = 1
        for x in g.walk():
            n = g.nodes[x]
            if n["k"] != "CXXMemberCallExpr":
                continue
            s = n.get("fn", "").split("::")[-1]
            o = owner_of(g, n["obj"]) if n.get("obj") is not None else None
            arg = [owner_of(g, a) for a in n["args"]]
            if o is not None and (o == e or o.startswith(e + ".")):
                calls.append((g, x, "comp" if "GetElement" in o or "elements[" in o else "eta", s))
            if any(a is not None and (a == e or a.startswith(e + ".")) for a in arg):
                a0 = [a for a in arg if a is not None and (a == e or a.startswith(e + "."))][0]
                calls.append((g, x, "comp>" if "GetElement" in a0 or "elements[" in a0 else "eta>", s))
                t = m.fns.get(n.get("usr"))
                if t is not None and t.cls == EL and t.params and a0 == e and on_this(g, n):
                    todo.append((t, t.params[arg.index(a0)]["d"]))
    has = lambda kinds, names: [c for c in calls if c[2] in kinds and c[3] in names]
    copy_own = has(("eta",), ("AddToFields",)) or has(("eta>",), ("CopyFieldsTo",))
    rem_own = has(("eta",), ("RemoveFromFields", "RemoveAllFromFields"))
    rem_comp = has(("comp",), ("RemoveAllFromFields", "RemoveFromFields"))
    copy_comp = has(("comp>",), ("CopyFieldsTo", "CopyTo"))
    ctx.check(bool(copy_own), "assign-fields", "CopyTo: fields carried over", f.loc(), "assignment does not give the target the derived data of the source")
    ctx.check(bool(rem_own), "assign-fields", "CopyTo: fields dropped", f.loc(), "assignment leaves derived data of the overwritten contents in the target")
    ctx.check(bool(rem_comp), "assign-fields", "CopyTo: component fields dropped", f.loc(), "assignment leaves derived data of the overwritten components in the target")
    ctx.check(bool(copy_comp), "assign-fields", "CopyTo: component fields carried over", f.loc(), "assignment does not give the components of the target the derived data of the source")
    # the removal: when every name of the source is present, the target has more entries exactly if it has stale ones
    for g, x, kind, s in rem_own:
        if s != "RemoveFromFields":
            continue
        for c in {d for c in controlling(g, x) for d in conj(g, c)} | {c for y in g.walk() if g.nodes[y]["k"] == "ReturnStmt" for c in controlling(g, y)}:
            n = g.nodes[strip(g, c)]
            alone = sizes_alone(g, n)
            if alone:
                ctx.check(alone == "eta", "assign-fields", "%s: stale names test" % g.qual(), g.loc(c), "stale entries are removed only under `%s`: they stay when the source has no derived data" % g.txt(c))
            t = map_sizes(g, n)
            if t:
                ctx.check(t in ("this<eta", "this!=eta"), "assign-fields", "%s: stale names test" % g.qual(), g.loc(c), "stale entries are removed only under `%s`, which can be false although the target has stale entries" % g.txt(c))
    # the test that decides which names go looks in the source
    for y in [y for y in f.walk() if f.nodes[y]["k"] == "CXXOperatorCallExpr" and f.nodes[y].get("op") in ("==", "!=")]:
        n = f.nodes[y]
        xs = ([n["obj"]] if "obj" in n else []) + n["args"]
        maps = [map_of(f, z) for z in xs]
        if any(q == "push_back" or q == "RemoveFromFields" for q in guarded_calls(f, y)) and n["op"] == "==":
            ctx.check(all(q in ("this", None) for q in maps), "assign-fields", "CopyTo: names looked up in the source", f.loc(y), "entries are dropped or kept according to the wrong map: `%s`" % f.txt(y))


def sizes_alone(f, n):
    """the map whose emptiness is tested"""
    if n["k"] == "UnaryOperator" and n["op"] == "!":
        n = f.nodes[strip(f, n["c"][0])]
    qs = [n] if n["k"] == "CXXMemberCallExpr" else [f.nodes[strip(f, c)] for c in n["c"]] if n["k"] == "BinaryOperator" and any(f.nodes[strip(f, c)]["k"] == "IntegerLiteral" for c in n["c"]) else []
    for q in qs:
        if q["k"] == "CXXMemberCallExpr" and q.get("fn", "").split("::")[-1] in ("size", "empty", "GetSizeofFields") and (owner_of(f, q["obj"]) or "").split(".")[-1] in ("Fields", "this") :
            return "this" if (owner_of(f, q["obj"]) or "").startswith("this") else "eta"
    return None


def map_sizes(f, n):
    if n["k"] != "BinaryOperator" or n["op"] not in ("<", ">", "<=", ">=", "!=", "=="):
        return None
    sides = []
    for c in n["c"]:
        q = f.nodes[strip(f, c)]
        if q["k"] != "CXXMemberCallExpr" or q.get("fn", "").split("::")[-1] not in ("size", "GetSizeofFields"):
            return None
        o = owner_of(f, q["obj"]) or ""
        sides.append("this" if o.startswith("this") else "eta")
    op = n["op"]
    if sides == ["eta", "this"]:
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    elif sides != ["this", "eta"]:
        return None
    return "this" + op + "eta"


def map_of(f, i):
    for y in f.walk(i):
        n = f.nodes[y]
        if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").split("::")[-1] in ("find", "end"):
            o = owner_of(f, n["obj"]) or ""
            if o.endswith("Fields"):
                return "this" if o.startswith("this") else "eta"
    return None


def guarded_calls(f, cond):
    par = f.parent()
    p = par.get(cond)
    while p is not None and f.nodes[p]["k"] not in ("IfStmt",):
        if f.nodes[p]["k"] in ("ForStmt", "WhileStmt"):
            return []
        p = par.get(p)
    if p is None:
        return []
    t = f.nodes[p].get("then", -1)
    return [f.nodes[y].get("fn", "").split("::")[-1] for y in f.walk(t) if f.nodes[y]["k"] == "CXXMemberCallExpr"] if t >= 0 else []


# ---------------------------------------------------------------- factorizations
def own_field_calls(f, name):
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "CXXMemberCallExpr" and n.get("cls", "") == EL and n.get("fn", "").split("::")[-1] == name and on_this(f, n):
            yield x, "".join(literals(f, n["args"][0]))


def factor_rules(m, ctx):
    """Early return on existing fields only when everything the function stores is there; each normal path stores all of it."""
    for f in elem_methods(m):
        adds = list(own_field_calls(f, "AddToFields"))
        guards = list(own_field_calls(f, "FieldsExist"))
        if not adds or not guards or not all(n for _, n in adds + guards):
            continue
        blk = block_of(f)
        names = {n for _, n in adds}
        # names known present on entry of each block (branch edges of FieldsExist)
        added = {}
        for x, n in adds:
            added.setdefault(blk.get(x), set()).add(n)
        inn = {f.entry: frozenset()}
        work = [f.entry]
        while work:
            b = work.pop()
            st = set(inn[b]) | added.get(b, set())
            o = f.blocks[b]
            for k, s in enumerate(o["succ"]):
                if s is None or s < 0:
                    continue
                t = set(st)
                c = o.get("cond")
                if c is not None and len(o["succ"]) == 2:
                    c = unfold(f, c)
                    neg = False
                    while f.nodes[c]["k"] in ("ParenExpr", "UnaryOperator") and (f.nodes[c]["k"] == "ParenExpr" or f.nodes[c]["op"] == "!"):
                        neg ^= f.nodes[c]["k"] == "UnaryOperator"
                        c = unfold(f, f.nodes[c]["c"][0])
                    for y, n in guards:
                        if k == (1 if neg else 0) and y in conj(f, c) or (k == (0 if neg else 1) and neg and False):
                            t.add(n)
                q = frozenset(t) if s not in inn else inn[s] & frozenset(t)
                if s not in inn or q != inn[s]:
                    inn[s] = q
                    work.append(s)
        # at each return: everything, or (documented) the job parameter asks for less
        ex = [p for p in f.preds()[f.exit] if p in inn]
        opt = {n for x, n in adds if any(job_test(f, c) for c in controlling(f, x))}
        for n in sorted(names):
            bad = [p for p in ex if n not in inn[p] | frozenset(added.get(p, ()))]
            if n in opt:
                ok = not [p for p in bad if not job_path(f, p)]
            else:
                ok = not bad
            ctx.check(ok, "factor-complete", "%s: %s" % (f.qual(), n), f.loc(), "a path returns from %s without %s although other factors of this matrix are taken as computed" % (f.qual(), n))
        # a name used as a guard is one that is stored
        for x, n in guards:
            ctx.check(n in names, "factor-complete", "%s: guard %s" % (f.qual(), n), f.loc(x), "%s skips its work when %s exists, which it does not store" % (f.qual(), n))


def conj(f, c):
    c = unfold(f, c)
    n = f.nodes[c]
    if n["k"] == "BinaryOperator" and n["op"] == "&&":
        return conj(f, n["c"][0]) | conj(f, n["c"][1])
    return {c}


def job_test(f, c):
    return any(f.nodes[y]["k"] == "CallExpr" and f.nodes[y].get("fn", "").endswith("strcmp") for y in f.walk(unfold(f, c)))


def job_path(f, b):
    """Block b is only reached when a comparison of the job argument succeeded."""
    for q, o in f.blocks.items():
        if o.get("cond") is not None and len(o["succ"]) == 2 and job_test(f, o["cond"]):
            for k, s in enumerate(o["succ"]):
                seen, st = set(), [f.entry]
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    for j, t in enumerate(f.blocks[x]["succ"]):
                        if t is not None and t >= 0 and (x, j) != (q, k):
                            st.append(t)
                if b not in seen:
                    return True
    # merged paths: the optional store hangs on the test alone
    return any(job_test(f, o["cond"]) for o in f.blocks.values() if o.get("cond") is not None)


# ---------------------------------------------------------------- derive last
def adders(m):
    """usr -> True when the method stores fields on *this (directly or through its own const methods)."""
    out = {f.usr for f in elem_methods(m) if any(True for _ in own_field_calls(f, "AddToFields"))}
    for _ in range(4):
        k = len(out)
        for f in elem_methods(m):
            if f.usr not in out:
                for x in f.walk():
                    n = f.nodes[x]
                    if n["k"] == "CXXMemberCallExpr" and on_this(f, n) and n.get("usr") in out:
                        out.add(f.usr)
        if len(out) == k:
            break
    return out


class DeriveFlow(PtrFlow):
    """Adds flag 'f': derived data were attached to the owner after the acquisition."""
    adds = frozenset()

    def call1(self, i, n, st):
        o = None
        if n["k"] == "CXXMemberCallExpr" and n.get("cls", "") in ELEM:
            s = n.get("fn", "").split("::")[-1]
            if s == "AddToFields" or n.get("usr") in self.adds:
                o = owner_of(self.f, n["obj"])
        st = super().call1(i, n, st)
        return self.mark(st, o, "f") if o else st


def derive_rules(m, f, acq, adds):
    out = []

    def sink(ev, node, fa):
        k, o, site, fl = fa
        if ev != "write" or site < 0:
            return
        on = o.split(":")[-1]
        out.append(("f" not in fl, "derive-last", "%s: write of %s" % (f.qual(), on), f.loc(node),
                    "`%s` changes %s through a pointer acquired at %s after derived data were attached to it: they describe the old contents" % (f.txt(node)[:60], on, f.loc(site))))
    p = DeriveFlow(m, f, sink, acq)
    p.adds = adds
    p.run()
    return out


# ---------------------------------------------------------------- cached data depend on their element only
def cache_rules(m, f):
    """deps: variable -> set of element parameters its value was computed from."""
    params = {p["d"]: p["n"] for p in f.params if is_elem(p["t"])}
    if not params or not any(f.nodes[x]["k"] == "CXXMemberCallExpr" and f.nodes[x].get("fn", "").endswith("::AddToFields") for x in f.walk()):
        return []
    out = []
    alias0 = {}

    def root(i):
        o = owner_of(f, i)
        return o.split(".")[0].split("[")[0] if o else None

    def deps(i, st):
        r = frozenset()
        for x in f.walk(i):
            n = f.nodes[x]
            if n["k"] == "DeclRefExpr" and "d" in n:
                if n["d"] in params and n["d"] not in st:
                    r |= {n["d"]}
                else:
                    r |= st.get(n["d"], frozenset())
        return r

    def put(st, d, v, weak):
        st = dict(st)
        st[d] = (st.get(d, frozenset([d]) if d in params else frozenset()) | v) if weak else v
        return st

    def target(i, st):
        """Variable whose value a store through node i changes."""
        b = ptr_base(f, i)
        if b is None:
            return None
        for x in f.walk(b):
            n = f.nodes[x]
            if n["k"] == "DeclRefExpr":
                return alias0.get(n["d"], n["d"])
            if n["k"] == "CXXMemberCallExpr":
                return root(n["obj"])
        return None
    for x in f.walk():          # pointer variables and the element they come from
        n = f.nodes[x]
        prs = []
        if n["k"] == "DeclStmt":
            prs = [(v["d"], v["i"]) for v in n["vars"] if "i" in v and is_ptr(v["t"]) and not is_elem(v["t"])]
        elif n["k"] == "BinaryOperator" and n["op"] == "=" and f.nodes[strip(f, n["c"][0])]["k"] == "DeclRefExpr" and is_ptr(f.nodes[strip(f, n["c"][0])].get("t", "")):
            prs = [(f.nodes[strip(f, n["c"][0])]["d"], n["c"][1])]
        for d, i in prs:
            for y in f.walk(i):
                q = f.nodes[y]
                if q["k"] == "CXXMemberCallExpr" and q.get("fn", "").split("::")[-1] in ENTIRE + PARTIAL:
                    r = root(q["obj"])
                    if r:
                        alias0[d] = r

    def step(i, st, emit):
        n = f.nodes[i]
        k = n["k"]
        if k == "DeclStmt":
            for v in n["vars"]:
                st = put(st, v["d"], deps(v["i"], st) if "i" in v else frozenset(), False)
        elif k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            l = strip(f, n["c"][0])
            if f.nodes[l]["k"] == "DeclRefExpr":
                st = put(st, f.nodes[l]["d"], deps(n["c"][1], st), n["op"] != "=")
            else:
                t = target(l, st)
                if t:
                    st = put(st, t, deps(n["c"][1], st), True)
        elif k == "CXXOperatorCallExpr" and n.get("op") == "=":
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            l = f.nodes[strip(f, xs[0])]
            r = root(xs[0])
            if len(xs) == 2 and r:
                st = put(st, r, deps(xs[1], st), l["k"] != "DeclRefExpr")
        elif k in ("CallExpr", "CXXMemberCallExpr"):
            s = n.get("fn", "").split("::")[-1]
            if s == "AddToFields":
                r = root(n["obj"])
                if emit and r in params:
                    nm = "".join(literals(f, n["args"][0])) or f.txt(n["args"][0])
                    const = any(p["d"] == r and "const" in p["t"] for p in f.params)
                    pos = [p["d"] for p in f.params].index(r)
                    if const and BY_DESIGN.get(nm) != pos:
                        other = sorted(params[d] for d in deps(n["args"][1], st) if d != r and d in params)
                        out.append((not other, "cache-own", "%s: %s.%s" % (f.qual(), params[r], nm), f.loc(i),
                                    "%s is kept with %s for later use but depends on %s as well: it is stale for any other %s" % (nm, params[r], ", ".join(other), ", ".join(other))))
                return st
            a = frozenset().union(*[deps(x, st) for x in n["args"]]) if n["args"] else frozenset()
            if n.get("obj") is not None and n["obj"] >= 0:
                a |= deps(n["obj"], st)
                if k == "CXXMemberCallExpr" and n.get("cls", "") in ELEM and n.get("usr") in m.meth and not m.meth[n["usr"]][1].get("const"):
                    r = root(n["obj"])      # a member that changes the element it is called on
                    if r and not r.startswith("G:") and (r not in params or any(p["d"] == r and "const" not in p["t"] for p in f.params)):
                        st = put(st, r, a, True)
            pt = None
            c = m.fns.get(n.get("usr"))
            if c is not None:
                pt = [p["t"] for p in c.params]
            elif n.get("usr") in m.meth:
                pt = [p["t"] for p in m.meth[n["usr"]][1]["params"]]
            it = INTENT.get((s, len(n["args"])))
            if it:
                a = frozenset().union(*[deps(x, st) for x, c in zip(n["args"], it) if c in "rup"])
            for j, x in enumerate(n["args"]):
                if it and it[j] not in "wu":
                    continue
                t = pt[j] if pt and j < len(pt) else f.nodes[strip(f, x)].get("t", "")
                if t.rstrip().endswith(("*", "&")) and "const" not in t:
                    y = f.nodes[strip(f, x)]
                    r = root(x)
                    if r is None or not is_elem(t):
                        r = None
                        for z in f.walk(x):
                            if f.nodes[z]["k"] == "DeclRefExpr":
                                r = alias0.get(f.nodes[z]["d"], f.nodes[z]["d"])
                                break
                    if r and r.startswith("G:"):
                        continue
                    if r and r not in params:
                        st = put(st, r, a, True)
                    elif r and any(p["d"] == r and "const" not in p["t"] for p in f.params):
                        st = put(st, r, a, True)
        return st
    ins = {f.entry: {}}
    work = [f.entry]
    n = 0
    while work and n < 5000:
        n += 1
        b = work.pop()
        st = ins[b]
        for s in f.blocks[b]["s"]:
            if isinstance(s, int):
                st = step(s, st, False)
        for q in f.blocks[b]["succ"]:
            if q is None or q < 0:
                continue
            if q not in ins:
                ins[q] = st
                work.append(q)
            else:
                j = dict(ins[q])
                for d, v in st.items():
                    j[d] = j.get(d, frozenset([d]) if d in params else frozenset()) | v
                if j != ins[q]:
                    ins[q] = j
                    work.append(q)
    for b in ins:
        st = ins[b]
        for s in f.blocks[b]["s"]:
            if isinstance(s, int):
                st = step(s, st, True)
    return out


def intact_rules(m, f):
    """Derived data read through Field() are not changed in place."""
    out = []
    par = f.parent()
    refs = {}
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if is_elem(v["t"]) and v["t"].rstrip().endswith(("&", "*")) and "i" in v:
                    o = owner_of(f, v["i"])
                    if o and ".Field(" in o and not v["t"].startswith("const"):
                        refs[v["d"]] = o
    for x in f.walk():
        n = f.nodes[x]
        if not ((n["k"] == "CXXMemberCallExpr" and n.get("cls") == EL and n.get("fn", "").endswith("::Field")) or (n["k"] == "DeclRefExpr" and n.get("d") in refs)):
            continue
        what = f.txt(x) if n["k"] != "DeclRefExpr" else refs[n["d"]].split(":")[-1]
        c, p = x, par.get(x)
        while p is not None and (f.nodes[p]["k"] in CASTS + ("ParenExpr",) or f.nodes[p]["k"] == "UnaryOperator" and f.nodes[p]["op"] in ("*", "&") or
                                 f.nodes[p]["k"] == "CXXMemberCallExpr" and f.nodes[p].get("obj") == c and f.nodes[p].get("fn", "").split("::")[-1] in ("GetElement", "Field") and f.nodes[p].get("cls") == EL):
            c, p = p, par.get(p)
        bad = None
        if p is not None:
            q = f.nodes[p]
            s = q.get("fn", "").split("::")[-1]
            if q["k"] == "CXXMemberCallExpr" and q.get("obj") == c and q.get("cls", "") in ELEM:
                me = m.meth.get(q.get("usr"))
                if me is not None and not me[1]["const"] and s not in ("GetElement", "Field", "CopyTo"):
                    bad = "changed by %s" % s
            elif q["k"] == "CXXOperatorCallExpr" and q.get("op") in ("=", "+=", "-=", "*=", "/="):
                xs = ([q["obj"]] if "obj" in q else []) + q["args"]
                if xs[0] == c:
                    bad = "assigned"
            elif q["k"] in ("CallExpr", "CXXMemberCallExpr") and c in q["args"]:
                t = m.fns.get(q.get("usr"))
                pt = [z["t"] for z in t.params] if t is not None else [z["t"] for z in m.meth[q["usr"]][1]["params"]] if q.get("usr") in m.meth else None
                j = q["args"].index(c)
                if pt and j < len(pt) and is_elem(pt[j]) and pt[j].rstrip().endswith(("*", "&")) and "const" not in pt[j] and s not in ("CopyTo", "AddToFields"):
                    bad = "handed to %s to be changed" % s
        out.append((bad is None, "cache-intact", "%s: %s" % (f.qual(), what), f.loc(x), "the derived data %s are %s in place: every later use reads something that no longer belongs to the element" % (what, bad)))
    return out


def run(m, ctx):
    ctx.rule("clear-on-write", "every path of an Element method that changes contents, dimensions or storage of the element drops its derived data")
    ctx.rule("clear-complete", "RemoveAllFromFields drops all entries of the element and, recursively, of its components")
    ctx.rule("assign-fields", "after an assignment the target and its components have the derived data of the source and no others")
    ctx.rule("factor-complete", "a factorization takes the stored factors for granted only when all it would store are there, and stores all of them on every other path")
    ctx.rule("derive-last", "no write through a pointer acquired before derived data were attached to the same element")
    ctx.rule("cache-own", "data kept with a point or vector for later use are computed from that point or vector alone")
    ctx.rule("cache-intact", "derived data obtained with Field() are copied before they are changed")
    clear = clear_set(m)
    for f in elem_methods(m):
        if f.short == "Element" or f.short.startswith("~"):
            continue
        for r in clear_rules(m, f, clear):
            ctx.check(*r)
    ctx.facts["methods that always drop derived data"] = sorted(m.fns[u].qual() for u in clear)
    for must in ("ObtainWriteEntireData", "ObtainWritePartialData", "NewMemoryOnWrite", "CopyOnWrite", "SetToZeros", "RandUnform", "RandGaussian", "Reshape", "Delete"):
        for f in m.need("Element::" + must):
            ctx.check(f.usr in clear, "clear-on-write", f.sig(), f.loc(), "%s does not drop the derived data on every path" % f.qual())
    clear_complete(m, ctx)
    assign_rules(m, ctx)
    factor_rules(m, ctx)
    acq, adds = acquisition_summary(m), adders(m)
    for f in sorted(m.repo_fns(), key=lambda f: (f.file, f.line)):
        if f.entry is None or any(x in f.file for x in SKIP_FILES) or f.rel().startswith("test"):
            continue
        for r in derive_rules(m, f, acq, adds):
            ctx.check(*r)
        if f.cls not in ELEM:
            for r in cache_rules(m, f) + intact_rules(m, f):
                ctx.check(*r)
    ctx.rule("fixture", "self-test: the rules fire on each seeded-in misuse of tool fixture caches.cpp and stay quiet on its correct twin")
    fx = m.fixture
    for u in fx.own:
        f = fx.fns[u]
        if f.entry is None or not f.short.startswith(("bad_", "good_")):
            continue
        res = [r for r in derive_rules(fx, f, acq, adds) + cache_rules(fx, f) + intact_rules(fx, f) if not r[0]]
        if f.short.startswith("bad_") != bool(res):
            raise AnalysisBroken("self-test failed on fixture %s (%s)" % (f.short, res[:1]))
        ctx.ok("fixture", f.short)
