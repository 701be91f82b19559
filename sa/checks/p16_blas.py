"""Every BLAS/LAPACK wrapper overload forwards to the routine of its own precision with its arguments in order."""
from model import NS, AnalysisBroken
from util import *

MINIMUM = {"P16.routine": 64, "P16.arguments": 64, "P16.once": 64, "P16.family": 20}
PREFIX = {"real": "s", "float": "s", "doublereal": "d", "double": "d", "complex": "c", "doublecomplex": "z"}
# base names whose complex routine has another name in BLAS itself
RENAMED = {("ger_", "c"): ("cgeru_",), ("ger_", "z"): ("zgeru_",)}


def elem(f):
    """Precision letter from the parameter types: complex decides over the real work arrays that accompany it."""
    found = set()
    for p in f.params:
        t = p["t"].replace("const", "").replace("ROPTLIB::", "").replace("struct", "").replace("*", "").replace("&", "").strip()
        t = t.split("::")[-1]
        if t in PREFIX:
            found.add(PREFIX[t])
    if "z" in found or "c" in found:
        found -= {"s", "d"}
    return found.pop() if len(found) == 1 else None


def names(base, p):
    if (base, p) in RENAMED:
        return RENAMED[(base, p)]
    if base.startswith("BLAS_"):
        return ("BLAS_" + p + base[5:],)
    return (p + base,)


def source(f, i):
    """Parameter index an argument stands for: the parameter itself, or a local filled element by element from it."""
    pn = [p["n"] for p in f.params]
    i = strip(f, i)
    n = f.nodes[i]
    seen = 0
    while n["k"] in ("UnaryOperator", "ParenExpr") and n.get("c") and seen < 4:
        i = strip(f, n["c"][0]); n = f.nodes[i]; seen += 1
    if n["k"] != "DeclRefExpr":
        return None
    nm = f.txt(i)
    if nm in pn:
        return pn.index(nm)
    srcs = set()
    for x, l, r, op in assigns(f):
        if op != "=" or r is None:
            continue
        ls, rs = strip(f, l), strip(f, r)
        if f.nodes[ls]["k"] == "ArraySubscriptExpr" and f.txt(strip(f, f.nodes[ls]["c"][0])) == nm:
            if f.nodes[rs]["k"] == "ArraySubscriptExpr" and f.txt(f.nodes[rs]["c"][1]) == f.txt(f.nodes[ls]["c"][1]):
                q = f.txt(strip(f, f.nodes[rs]["c"][0]))
                srcs.add(pn.index(q) if q in pn else None)
            else:
                srcs.add(None)
        elif f.nodes[ls]["k"] == "DeclRefExpr" and f.txt(ls) == nm:
            srcs.add(source(f, rs))
    for x in f.walk():
        if f.nodes[x]["k"] == "DeclStmt":
            for v in f.nodes[x]["vars"]:
                if v["n"] == nm and "i" in v:
                    j = strip(f, v["i"])
                    if f.nodes[j]["k"] == "DeclRefExpr":
                        srcs.add(source(f, j))
    return srcs.pop() if len(srcs) == 1 else None


def derived_from(f, i):
    """Fallback for a local prepared some other way (a helper, pointer walks): every pointer parameter that flows into it."""
    pn = [p["n"] for p in f.params]
    roots = {f.txt(x) for x in f.walk(i) if f.nodes[x]["k"] == "DeclRefExpr"}
    changed = True
    while changed:
        changed = False
        for x in f.walk():
            n = f.nodes[x]
            ins, tgt = None, None
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if v["n"] in roots and "i" in v:
                        tgt, ins = v["n"], [v["i"]]
            elif n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n["op"] == "=":
                if {f.txt(y) for y in f.walk(n["c"][0]) if f.nodes[y]["k"] == "DeclRefExpr"} & (roots - set(pn)):
                    tgt, ins = 1, [n["c"][1]]
            elif n["k"] == "CallExpr" and n.get("d", "").find("BLAS") < 0:
                rs = {f.txt(y) for a in n["args"] for y in f.walk(a) if f.nodes[y]["k"] == "DeclRefExpr"}
                if rs & (roots - set(pn)) and n.get("fn", "").startswith("ROPTLIB"):
                    tgt, ins = 1, n["args"]
            if ins:
                new = {f.txt(y) for a in ins for y in f.walk(a) if f.nodes[y]["k"] == "DeclRefExpr"} - roots
                if new:
                    roots |= new
                    changed = True
    return {pn.index(r) for r in roots if r in pn}


def run(m, ctx):
    ctx.rule("P16.once", "a wrapper calls exactly one library routine, on every path")
    ctx.rule("P16.routine", "the routine is the one of the wrapper's own name and element type (s/d/c/z)")
    ctx.rule("P16.arguments", "the wrapper's parameters are passed on, each exactly once, in order")
    ctx.rule("P16.family", "the overloads of one wrapper name cover distinct precisions")
    fam = {}
    wr = [f for f in m.fns.values() if f.rel() == "Others/BlasLapackCppWrapper.cpp" and not f.cls]
    if len(wr) < 60:
        raise AnalysisBroken("only %d wrapper functions found" % len(wr))
    for f in wr:
        base = f.short
        p = elem(f)
        if p is None:
            if any(is_call(f.nodes[x]) for x in f.walk()):
                ctx.notes.append("no element type: " + f.sig())
            continue
        wrapped = {w.usr for w in wr}
        # library routines reached, following helper functions of the same file
        calls = [(x, f.nodes[x]) for x in f.walk() if f.nodes[x]["k"] == "CallExpr" and f.nodes[x].get("fn")]
        ext = [(x, n) for x, n in calls if n.get("d", "") not in wrapped]
        key = "%s<%s>%s" % (base, p, "" if sum(1 for w in wr if w.short == base and elem(w) == p) == 1 else "/%d" % len(f.params))
        bo = block_of(f)
        once = len(ext) == 1 and (ext[0][0] not in bo or must_pass(f, {bo[ext[0][0]]}))
        if len(ext) > 1:
            # several mutually exclusive calls of the same routine are fine
            nm = {n["fn"].split("::")[-1] for x, n in ext}
            once = len(nm) == 1 and must_pass(f, {bo[x] for x, n in ext if x in bo}) and not any(f.reaches(bo[a], bo[b]) for a, _ in ext for b, _ in ext if a != b) if hasattr(f, "reaches") else len(nm) == 1
        ctx.check(once, "P16.once", key, f.loc(), "%s reaches %d library calls (%s)" % (f.sig(), len(ext), ", ".join(n["fn"] for _, n in ext)))
        if not ext:
            continue
        for x, n in ext:
            rn = n["fn"].split("::")[-1]
            ctx.check(rn in names(base, p), "P16.routine", key, f.loc(x), "%s calls %s, not %s" % (f.sig(), rn, "/".join(names(base, p))))
            got = [source(f, a) for a in n["args"]]
            ok = len(got) == len(f.params) and all(g == k or (g is None and k in derived_from(f, a)) for k, (g, a) in enumerate(zip(got, n["args"])))
            ctx.check(ok, "P16.arguments", key, f.loc(x), "%s passes %s" % (f.sig(), f.txt(x)[:160]))
            fam.setdefault((base, len(f.params)), set()).add(p)
    by = {}
    for (b, k), ps in fam.items():
        by.setdefault(b, set()).update(ps)
    for b, ps in sorted(by.items()):
        ctx.check(ps in ({"s", "d"}, {"c", "z"}, {"s", "d", "c", "z"}), "P16.family", b, "Others/BlasLapackCppWrapper.h", "%s exists for %s only: another precision would silently convert" % (b, "/".join(sorted(ps))))
    ctx.facts["wrappers"] = len(wr)
