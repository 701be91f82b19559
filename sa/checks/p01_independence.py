"""P01: copies of an element are independent although their storage is shared until a write."""
from model import NS, AnalysisBroken
from util import *
from ptr import PtrFlow, acquisition_summary, helper_summary, owner_of, is_elem, is_ptr, ELEM, BASE_ACQ, READ
from absint import Interp, State

FIXTURES = ("cow.cpp",)
MINIMUM = {"refcount-acquire": 10, "refcount-copy": 5, "refcount-release": 3, "write-owned": 500, "component-owned": 40, "attached-owned": 8, "fixture": 11}
SKIP_FILES = ("BlasLapackCpp", "SparseBLAS", "test/")
PRIMITIVES = ("SmartSpace::CopyTo",)


def in_scope(f):
    return f.entry is not None and not any(x in f.file for x in SKIP_FILES[:2]) and not f.rel().startswith("test")


def init(kind, obj, s):
    s.mem[("fld", obj, "size")] = ("size", "size_" + obj)
    if kind == "null":
        s.mem[("fld", obj, "sharedtimes")] = s.mem[("fld", obj, "Space")] = ("null",)
    else:
        s.mem[("fld", obj, "sharedtimes")] = ("cnt", "c_" + obj)
        s.mem[("fld", obj, "Space")] = ("buf", "b_" + obj)
        s.mem[("cnt", "c_" + obj)] = ("int", 1) if kind == "one" else ("many", 0)


def released(s, obj, kind):
    """The storage obj had at entry was given up exactly once. '' or the reason."""
    c, b = ("cnt", "c_" + obj), ("buf", "b_" + obj)
    if kind == "null":
        return ""
    if kind == "one":
        return "" if s.freed.count(c) == 1 and s.freed.count(b) == 1 else "the last owner did not free the counter and the data exactly once"
    if c in s.freed or b in s.freed:
        return "data still used by other elements was freed"
    return "" if s.mem.get(c) == ("many", -1) else "the counter of the old data was not decremented exactly once (now %s)" % (s.mem.get(c),)


def bad_events(s):
    for e in s.events:
        if e[0] in ("useafterfree", "doublefree", "unknownfree"):
            return {"useafterfree": "storage used after it was freed", "doublefree": "storage freed twice", "unknownfree": "a pointer of unknown provenance is freed"}[e[0]]
    return ""


def copied(s, src, dst):
    return any(e[0] == "copy" and e[1] == src and e[2] == dst and e[3] in (("sym", "this.length"), None) or
               e[0] == "copy" and e[1] == src and e[2] == dst and e[3] == ("sym", "eta.length") for e in s.events)


def chk_acquire(s, kind, keep, ret, wants_ret):
    cnt, buf = s.mem.get(("fld", "this", "sharedtimes")), s.mem.get(("fld", "this", "Space"))
    if bad_events(s):
        return bad_events(s)
    if not cnt or cnt[0] != "cnt" or cnt in s.freed:
        return "no live counter afterwards"
    if s.mem.get(cnt) != ("int", 1):
        return "the element is not the only owner afterwards (counter %s)" % (s.mem.get(cnt),)
    if not buf or buf[0] != "buf" or buf in s.freed:
        return "no live data afterwards"
    if wants_ret and ret != buf:
        return "the returned pointer is not the data of the element"
    oldc, oldb = ("cnt", "c_this"), ("buf", "b_this")
    if kind == "null":
        return ""
    if (cnt == oldc) != (buf == oldb):
        return "counter and data belong to different owners"
    if cnt == oldc:
        return "" if kind == "one" else "shared storage is kept"
    r = released(s, "this", kind)
    if r:
        return r
    if keep and not copied(s, oldb, buf):
        return "the old contents are not copied into the new storage"
    return ""


def chk_copy(s, kt, ke):
    if bad_events(s):
        return bad_events(s)
    tc, tb = s.mem.get(("fld", "this", "sharedtimes")), s.mem.get(("fld", "this", "Space"))
    ec, eb = s.mem.get(("fld", "eta", "sharedtimes")), s.mem.get(("fld", "eta", "Space"))
    t0 = (("null",), ("null",)) if kt == "null" else (("cnt", "c_this"), ("buf", "b_this"))
    if (tc, tb) != t0:
        return "the source of the copy changed its storage"
    if kt != "null" and (tc in s.freed or tb in s.freed):
        return "the data of the source were freed"
    own = (("cnt", "c_eta"), ("buf", "b_eta"))
    base = {"one": 1, "many": 0}.get(kt, 0)
    if ke == "shared":      # target already uses the data of the source
        return "" if (ec, eb) == t0 and s.mem.get(tc) == ("many", 0) else "a target that already shared the data left the sharing wrong"
    if kt == "null":
        if (ec, eb) != t0:
            return "the copy of an empty element is not empty"
        return released(s, "eta", ke)
    now = s.mem.get(tc)
    if (ec, eb) == t0:
        if now != (("int", 2) if kt == "one" else ("many", 1)):
            return "sharing the data does not raise the counter by one (now %s)" % (now,)
        for q in ("length", "ls"):
            if s.mem.get(("fld", "eta", q)) != ("sym", "this." + q):
                return "the target does not take over the field %s" % q
        return released(s, "eta", ke)
    if (ec, eb) == own and ke == "one":
        if now != (("int", 1) if kt == "one" else ("many", 0)) or s.mem.get(ec) != ("int", 1) or ec in s.freed or eb in s.freed:
            return "copying in place changes a counter"
        return "" if copied(s, tb, eb) else "the contents are not copied"
    if (ec, eb) == own and ke == "many":
        return "the target keeps data it shares with other elements"
    return "the target has storage that is neither its own nor that of the source"


def chk_release(s, kind):
    if bad_events(s):
        return bad_events(s)
    r = released(s, "this", kind)
    if r:
        return r
    if kind != "null" and (s.mem.get(("fld", "this", "sharedtimes")), s.mem.get(("fld", "this", "Space"))) != (("null",), ("null",)):
        return "the released element still points to its storage"
    return ""


def refcount(m, ctx):
    ip = Interp(m)
    paths = 0
    ctx.rule("refcount-acquire", "NewMemoryOnWrite, CopyOnWrite, ObtainWriteEntireData and ObtainWritePartialData leave the element sole owner of its data, release the old data exactly once, and the copying ones carry the contents over")
    ctx.rule("refcount-copy", "SmartSpace::CopyTo makes the target share (counter +1) or copies into data the target owns alone, releasing what the target had exactly once")
    ctx.rule("refcount-release", "~SmartSpace and Delete give the data up exactly once and free it only as the last owner")
    for short, keep, wr in (("NewMemoryOnWrite", False, False), ("CopyOnWrite", True, False), ("ObtainWriteEntireData", False, True), ("ObtainWritePartialData", True, True), ("RandUnform", False, False), ("RandGaussian", False, False), ("SetToZeros", False, False)):
        for f in m.need("SmartSpace::" + short):
            for kind in ("null", "one", "many"):
                s = State()
                init(kind, "this", s)
                rs = ip.run(f, [None] * len(f.params), s, "this")
                why = [w for w in (chk_acquire(x, kind, keep, r, wr) for x, r in rs) if w]
                paths += len(rs)
                ctx.check(rs and not why, "refcount-acquire", "%s on %s data" % (f.qual(), kind), f.loc(), why[0] if why else "no path")
    f = m.need("SmartSpace::CopyTo")[0]
    for kt in ("null", "one", "many"):
        for ke in ("null", "one", "many", "shared"):
            if ke == "shared" and kt != "many":
                continue
            s = State()
            init(kt, "this", s)
            if ke == "shared":
                s.mem[("fld", "eta", "size")] = ("size", "size_eta")
                s.mem[("fld", "eta", "sharedtimes")] = ("cnt", "c_this")
                s.mem[("fld", "eta", "Space")] = ("buf", "b_this")
            else:
                init(ke, "eta", s)
            rs = ip.run(f, [("obj", "eta")], s, "this")
            why = [w for w in (chk_copy(x, kt, ke) for x, r in rs) if w]
            paths += len(rs)
            if kt != "null" and not why and not any(("elems", ("this", "size"), ("eta", "size")) in x.events for x, r in rs):
                why = ["the target does not take over the dimensions of the source"]
            ctx.check(rs and not why, "refcount-copy", "CopyTo from %s data to %s data" % (kt, ke), f.loc(), why[0] if why else "no path")
    s = State()
    init("one", "this", s)
    rs = ip.run(f, [("obj", "this")], s, "this")
    why = [bad_events(x) or ("copying an element to itself changes its storage" if x.freed or x.mem.get(("cnt", "c_this")) != ("int", 1) or x.mem.get(("fld", "this", "Space")) != ("buf", "b_this") else "") for x, r in rs]
    why = [w for w in why if w]
    ctx.check(rs and not why, "refcount-copy", "CopyTo to itself", f.loc(), why[0] if why else "no path")
    for short in ("~SmartSpace", "Delete"):
        for f in m.need("SmartSpace::" + short):
            for kind in ("null", "one", "many"):
                s = State()
                init(kind, "this", s)
                rs = ip.run(f, [], s, "this")
                why = [w for w in (chk_release(x, kind) for x, r in rs) if w]
                paths += len(rs)
                ctx.check(rs and not why, "refcount-release", "%s on %s data" % (f.qual(), kind), f.loc(), why[0] if why else "no path")
    ctx.facts["abstract paths of the reference counting primitives"] = paths
    ctx.facts["functions interpreted"] = sorted(ip.fns)


def ptr_rules(m, f, acq, helpers=None):
    """[(ok, rule, key, where, msg)]"""
    out = []

    def sink(ev, node, fa):
        k, o, site, fl = fa
        op = f.txt(node)[:80]
        key = "%s: %s of %s" % (f.qual(), "write" if ev == "write" else "component write", o.split(":")[-1])
        if ev == "write":
            why = None
            if k == "R":
                why = "`%s` writes into the data of %s, which may be shared with other elements: no write access was acquired%s" % (op, o.split(":")[-1], "" if site < 0 else " (pointer from %s)" % f.loc(site))
            elif "s" in fl:
                why = "`%s` writes through a pointer acquired at %s although %s was copied in between: the copy changes too" % (op, f.loc(site), o.split(":")[-1])
            elif "r" in fl:
                why = "`%s` writes through a pointer acquired at %s although %s moved to other data in between" % (op, f.loc(site), o.split(":")[-1])
            out.append((why is None, "write-owned", key, f.loc(node), why))
        elif ev == "component":
            why = None
            if k == "R" and site == -1 and o in needed:
                return          # judged at every call of this helper
            if k == "R" or fl:
                why = "`%s` writes a component of %s, whose data may be shared with other elements: the product was not made sole owner on every path before" % (op, o.split(":")[-1])
            out.append((why is None, "component-owned", key, f.loc(node), why))
    needed = {f.params[j]["d"] for j in (helpers or {}).get(f.usr, {}).get("need", ())}
    p = PtrFlow(m, f, sink, acq, helpers=helpers)
    p.run()
    return out


def borrowed_flow(m, f, acq):
    """AddToFields(name, E): E must own its data; an element received from a caller may be a piece of a product."""
    out = []
    init = frozenset(p["d"] for p in f.params if is_elem(p["t"]))

    def may(i, st):
        j = strip(f, i)
        n = f.nodes[j]
        while n["k"] in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ParenExpr") or (n["k"] == "UnaryOperator" and n["op"] == "*") or \
                (n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is_elem(n.get("t", "")) and len(n["args"]) == 1):
            j = strip(f, (n.get("c") or n.get("args"))[0])
            n = f.nodes[j]
        if n["k"] == "DeclRefExpr":
            return n["d"] in st
        if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("::GetElement"):
            return n["obj"] is not None and (may(n["obj"], st) or True)
        return False

    def step(i, st, emit):
        n = f.nodes[i]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if is_elem(v["t"]):
                    b = "i" in v and may(v["i"], st)
                    st = (st | {v["d"]}) if b else (st - {v["d"]})
        elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            l = f.nodes[strip(f, xs[0])]
            if l["k"] == "DeclRefExpr" and len(xs) == 2 and is_elem(l.get("t", "")):
                st = (st | {l["d"]}) if may(xs[1], st) else (st - {l["d"]})
        elif n["k"] == "CXXMemberCallExpr" and n.get("cls", "") in ELEM:
            s = n.get("fn", "").split("::")[-1]
            o = f.nodes[strip(f, n["obj"])]
            if o["k"] == "DeclRefExpr" and (s in BASE_ACQ or n.get("usr") in acq):
                st = st - {o["d"]}
            if s == "Reshape":
                return st
            if s == "AddToFields" and emit:
                b = may(n["args"][1], st)
                key = "%s: AddToFields(%s)" % (f.qual(), ",".join(literals(f, n["args"][0])))
                out.append((not b, "attached-owned", key, f.loc(i),
                            "`%s` attaches data received from the caller without owning it: when it is a component of a product its memory belongs to the product and dies with it" % "%s.AddToFields(%s, %s)" % (f.txt(n["obj"]), ", ".join(literals(f, n["args"][0])), f.txt(n["args"][1]))))
        if n["k"] in ("CallExpr", "CXXMemberCallExpr") and n.get("cls", "") not in ELEM:
            for a in n["args"]:       # an out-parameter is computed by the callee
                j = strip(f, a)
                x = f.nodes[j]
                if x["k"] == "UnaryOperator" and x["op"] == "&":
                    x = f.nodes[strip(f, x["c"][0])]
                    if x["k"] == "DeclRefExpr":
                        st = st - {x["d"]}
        return st
    ins = {f.entry: init}
    work = [f.entry]
    while work:
        b = work.pop()
        st = ins[b]
        for s in f.blocks[b]["s"]:
            if isinstance(s, int):
                st = step(s, st, False)
        for q in f.blocks[b]["succ"]:
            if q is not None and q >= 0 and not (q in ins and st <= ins[q]):
                ins[q] = ins.get(q, frozenset()) | st
                work.append(q)
    for b in ins:
        st = ins[b]
        for s in f.blocks[b]["s"]:
            if isinstance(s, int):
                st = step(s, st, True)
    return out


SHAPE = ("Getrow", "Getcol", "Getiscomplex")


def component_shape(m, ctx):
    """A function that keeps the components it has when they agree with given ones compares their whole shape."""
    ctx.rule("component-shape", "a product element keeps its components on assignment only when their rows, columns and field (real/complex) agree with those assigned, not only their lengths")
    for f in m.repo_fns():
        if f.cls not in ELEM or f.entry is None:
            continue
        cmp = {}
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "BinaryOperator" and n["op"] in ("!=", "=="):
                a, b = (f.nodes[strip(f, c)] for c in n["c"])
                if a["k"] == b["k"] == "CXXMemberCallExpr" and a.get("usr") == b.get("usr") and a.get("obj") is not None and b.get("obj") is not None \
                        and f.txt(a["obj"]) != f.txt(b["obj"]) and all("[" in f.txt(q["obj"]) for q in (a, b)):
                    cmp.setdefault(frozenset((f.txt(a["obj"]).split("[")[0], f.txt(b["obj"]).split("[")[0])), []).append((a["fn"].split("::")[-1], x))
        for pair, uses in cmp.items():
            if not any(u[0] in ("Getlength",) + SHAPE for u in uses):
                continue
            names = {u[0] for u in uses}
            for g in SHAPE:
                ctx.check(g in names, "component-shape", "%s: %s of %s" % (f.qual(), g, " and ".join(sorted(pair))), f.loc(uses[0][1]),
                          "the components of %s are considered equal in shape without comparing %s: the target keeps a shape the source does not have" % (" and ".join(sorted(pair)), g))


def source_alive(m, ctx):
    """In a member that copies *this to a parameter, nothing of *this is used once fields of the parameter were deleted."""
    ctx.rule("source-alive", "a copy does not use its source after deleting temporary data of the target, to which the source itself may belong")
    for f in m.repo_fns():
        if f.cls not in ELEM or f.entry is None or not f.o.get("const"):
            continue
        outs = {p["d"] for p in f.params if is_elem(p["t"]) and "&" in p["t"] and "const" not in p["t"]}
        if not outs:
            continue
        dels, uses = [], []
        for b, o in f.blocks.items():
            for k, x in enumerate(o["s"]):
                if not isinstance(x, int):
                    continue
                n = f.nodes[x]
                if n["k"] == "CXXThisExpr":
                    uses.append((b, k, x))
                if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").split("::")[-1] in ("RemoveFromFields", "RemoveAllFromFields"):
                    t = f.nodes[strip(f, n["obj"])]
                    if t["k"] == "DeclRefExpr" and t["d"] in outs:
                        dels.append((b, k, x))
        for b, k, x in dels:
            seen, st = set(), [s for s in f.blocks[b]["succ"] if s is not None and s >= 0]
            while st:
                q = st.pop()
                if q in seen:
                    continue
                seen.add(q)
                st.extend(s for s in f.blocks[q]["succ"] if s is not None and s >= 0)
            after = [u for u in uses if u[0] in seen or (u[0] == b and u[1] > k)]
            ctx.check(not after, "source-alive", "%s: %s" % (f.qual(), f.txt(x)[:60]), f.loc(x),
                      "`%s` may delete the source of the copy (an element can be assigned one of its own temporary data), which is used again at %s" % (f.txt(x)[:60], f.loc(after[0][2]) if after else ""))


def run(m, ctx):
    refcount(m, ctx)
    component_shape(m, ctx)
    source_alive(m, ctx)
    ctx.rule("write-owned", "every write into the data of an element goes through a pointer acquired for writing, with no copy of the element taken between the acquisition and the write")
    ctx.rule("component-owned", "a component of a product element is written only when the product was made sole owner of its data on every path before")
    ctx.rule("attached-owned", "data a manifold attaches to a point or vector (AddToFields) is owned by the attached element, never a borrowed piece of a caller's product")
    acq = acquisition_summary(m)
    nf = 0
    helpers = helper_summary(m, acq, [f for f in m.repo_fns() if in_scope(f)])
    ctx.facts["helpers with element out-parameters"] = len(helpers)
    for f in sorted(m.repo_fns(), key=lambda f: (f.file, f.line)):
        if not in_scope(f):
            continue
        res = []
        if f.qual() not in PRIMITIVES:
            res += ptr_rules(m, f, acq, helpers)
        if f.rel().startswith(("Manifolds/", "Problems/")) and f.cls not in ELEM:
            res += borrowed_flow(m, f, acq)
        nf += bool(res)
        for ok, rule, key, where, msg in res:
            if ok:
                ctx.ok(rule, key)
            else:
                ctx.bad(rule, key, where, msg)
    ctx.facts["functions with obligations"] = nf
    ctx.rule("fixture", "self-test: the rules fire on each seeded-in misuse of tool fixture cow.cpp and stay quiet on its correct twin")
    fx = m.fixture
    n = 0
    hx = helper_summary(fx, acq, [fx.fns[u] for u in fx.own])
    for u in fx.own:
        f = fx.fns[u]
        if f.entry is None or not f.short.startswith(("bad_", "good_")):
            continue
        res = [r for r in ptr_rules(fx, f, acq, hx) + borrowed_flow(fx, f, acq) if not r[0]]
        if f.short.startswith("bad_") != bool(res):
            raise AnalysisBroken("self-test failed on fixture %s (%s)" % (f.short, res[:1]))
        ctx.ok("fixture", f.short)
