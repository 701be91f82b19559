"""P18: linear algebra calls stay inside the matrices and workspaces they are given."""
import itertools, math
from fractions import Fraction
from model import NS, AnalysisBroken
from util import *
from ptr import owner_of, is_elem, is_ptr, ENTIRE, PARTIAL, READ
from checks.p03_contents import Dims, poly_mul, poly_add, syms, subst, show, consts, edge_facts, equal_dims, implied

FIXTURES = ("lapack.cpp",)
MINIMUM = {"workspace-query": 8, "workspace-size": 10, "matrix-shape": 60, "fixture": 5}

# matrices and vectors of each routine by parameter name: (rows, columns, leading dimension); a string names a dimension argument
SQ = lambda n, ld: (n, n, ld)
MATS = {
 "getrf_": {"a": ("m", "n", "lda"), "ipiv": ("min", 1, "min")}, "getrs_": {"ipiv": ("n", 1, "n"), "a": ("n", "n", "lda"), "b": ("n", "nrhs", "ldb")},
 "gesv_": {"ipiv": ("n", 1, "n"), "a": ("n", "n", "lda"), "b": ("n", "nrhs", "ldb")},
 "potrf_": {"a": ("n", "n", "lda")}, "potrs_": {"a": ("n", "n", "lda"), "b": ("n", "nrhs", "ldb")},
 "trtrs_": {"a": ("n", "n", "lda"), "b": ("n", "nrhs", "ldb")},
 "trsm_": {"a": ("?side", "?side", "lda"), "b": ("m", "n", "ldb")},
 "syev_": {"a": ("n", "n", "lda"), "w": ("n", 1, "n")}, "heev_": {"a": ("n", "n", "lda"), "w": ("n", 1, "n")},
 "geqp3_": {"a": ("m", "n", "lda"), "tau": ("min", 1, "min")},
 "orgqr_": {"a": ("m", "n", "lda"), "tau": ("k", 1, "k")}, "ungqr_": {"a": ("m", "n", "lda"), "tau": ("k", 1, "k")},
 "ormqr_": {"c": ("m", "n", "ldc"), "tau": ("k", 1, "k")}, "unmqr_": {"c": ("m", "n", "ldc"), "tau": ("k", 1, "k")},
 "gesvd_": {"a": ("m", "n", "lda"), "s": ("min", 1, "min"), "u": ("m", "min", "ldu"), "vt": ("min", "n", "ldvt")},
 "gees_": {"a": ("n", "n", "lda"), "vs": ("n", "n", "ldvs")},
 "tgsyl_": {"a": ("m", "m", "lda"), "b": ("n", "n", "ldb"), "c": ("m", "n", "ldc"), "d": ("m", "m", "ldd"), "e": ("n", "n", "lde"), "f": ("m", "n", "ldf")},
 "gemm_": {"a": ("?ta0", "?ta1", "lda"), "b": ("?tb0", "?tb1", "ldb"), "c": ("m", "n", "ldc")},
 "gemv_": {"a": ("m", "n", "lda")}, "ger_": {"a": ("m", "n", "lda"), "x": ("m", 1, "m"), "y": ("n", 1, "n")},
 "larfx_": {"c": ("m", "n", "ldc"), "v": ("?side", 1, "?side")},
 "copy_": {"x": ("n", 1, "n"), "y": ("n", 1, "n")}, "axpy_": {"x": ("n", 1, "n"), "y": ("n", 1, "n")}, "dot_": {"x": ("n", 1, "n"), "y": ("n", 1, "n")}, "scal_": {"x": ("n", 1, "n")},
}
VECTOR = ("copy_", "axpy_", "dot_", "scal_")
# work arrays of a documented size: parameter name -> size in terms of the dimension arguments, (real, complex)
AUX = {
 "heev_": {"rwork": lambda d: [(3, "n"), (-2, None)]}, "geqp3_": {"jpvt": lambda d: [(1, "n")], "rwork": lambda d: [(2, "n")]},
 "gesvd_": {"rwork": lambda d: [(5, "min")]}, "gees_": {"rwork": lambda d: [(1, "n")], "w": lambda d: [(1, "n")]},
 "tgsyl_": {"iwork": lambda d: [(1, "m"), (1, "n"), (2 if d else 6, None)]}, "larfx_": {"work": lambda d: [(1, "?other")]},
}


def pname(p):
    s = p["n"].rstrip("_").lower()
    return {"c": "c", "f": "f", "d": "d", "dx": "x", "dy": "y", "cx": "x", "cy": "y", "sx": "x", "sy": "y", "zx": "x", "zy": "y"}.get(s, s)


def held(f, node):
    """(condition node, truth value) every path to the node has established."""
    blk = block_of(f)
    if node not in blk:
        return []
    out = []
    for b, o in f.blocks.items():
        if len(o["succ"]) != 2 or o.get("cond") is None:
            continue
        for k, s in enumerate(o["succ"]):
            if s is None or s < 0:
                continue
            seen, st = set(), [f.entry]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for j, q in enumerate(f.blocks[x]["succ"]):
                    if q is not None and q >= 0 and (x, j) != (b, k):
                        st.append(q)
            if blk[node] not in seen:
                out += list(implied(f, o["cond"], k == 0))
    return out


def cplx_of(f, i):
    n = f.nodes[strip(f, i)]
    if n["k"] == "MemberExpr" and n["mn"] == "iscomplex":
        return owner_of(f, n["c"][0])
    if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("::Getiscomplex"):
        return owner_of(f, n["obj"])
    return None


def equal_polys(f, facts, dm):
    """(symbol, polynomial) equalities among the facts; complex/real ones are entered into dm.cplx."""
    eqs = []
    for c, v in facts:
        n = f.nodes[c]
        if n["k"] == "BinaryOperator" and n["op"] == ("==" if v else "!="):
            eqs.append((n["c"][0], n["c"][1]))
    for _ in range(3):
        for a, b in eqs:
            x, y = cplx_of(f, a), cplx_of(f, b)
            if x and y:
                for p, q in ((x, y), (y, x)):
                    if dm.cplx.get(p) is not None and dm.cplx.get(q) is None:
                        dm.cplx[q] = dm.cplx[p]
    out = []
    for a, b in eqs:
        if cplx_of(f, a):
            continue
        x, y = dm.val(a, set()), dm.val(b, set())
        if not x or not y:
            continue
        for p, q in ((x, y), (y, x)):
            for s, z in out:
                p, q = subst(p, s, z), subst(q, s, z)
            if len(p) == 1 and len(list(p)[0]) == 1 and list(p)[0][0] not in syms(q):
                out.append((list(p)[0][0], poly_mul(q, {(): Fraction(1) / list(p.values())[0]})))
                break
    return out


class LDims(Dims):
    def val(self, i, loopvars, depth=0):
        f = self.f
        i = strip(f, i)
        n = f.nodes[i]
        if n["k"] == "ConditionalOperator":
            c = f.nodes[strip(f, n["c"][0])]
            while c["k"] == "ParenExpr":
                c = f.nodes[strip(f, c["c"][0])]
            if c["k"] == "BinaryOperator" and c["op"] in ("<", "<=", ">", ">="):
                l, r = self.val(c["c"][0], loopvars, depth), self.val(c["c"][1], loopvars, depth)
                a, b = self.val(n["c"][1], loopvars, depth), self.val(n["c"][2], loopvars, depth)
                if None not in (l, r, a, b) and {str(sorted(l.items())), str(sorted(r.items()))} == {str(sorted(a.items())), str(sorted(b.items()))}:
                    less = c["op"][0] == "<"
                    mn = (a == l) == less
                    return minmax("min" if mn else "max", a, b)
            return None
        if n["k"] == "CallExpr" and n.get("fn", "").split("::")[-1] in ("min", "max") and len(n["args"]) == 2:
            a, b = self.val(n["args"][0], loopvars, depth), self.val(n["args"][1], loopvars, depth)
            return minmax(n["fn"].split("::")[-1], a, b) if a is not None and b is not None else None
        if n["k"] == "BinaryOperator" and n["op"] == "/":
            d = f.nodes[strip(f, n["c"][1])]
            a = self.val(n["c"][0], loopvars, depth)
            if d["k"] == "IntegerLiteral" and int(d["v"]) == 2 and a is not None and all(any(t.startswith("#") and t.endswith(".0") for t in m) or c % 2 == 0 for m, c in a.items()):
                return poly_mul(a, {(): Fraction(1, 2)})
        return super().val(i, loopvars, depth)


def key(p):
    return "+".join("%s*%s" % (c, "*".join(m)) for m, c in sorted(p.items()))


MM = {}


def minmax(w, a, b):
    if a == b:
        return a
    MM["%s[%s]" % (w, "|".join(sorted((key(a), key(b)))))] = (w, a, b)
    return {("%s[%s]" % (w, "|".join(sorted((key(a), key(b))))),): 1}


def routine(f, m, n):
    """(base name, {param name: arg node}, {param name: type}) of a call of a wrapper, else None."""
    if n["k"] != "CallExpr":
        return None
    s = n.get("fn", "").split("::")[-1]
    if s not in MATS:
        return None
    c = m.fns.get(n.get("usr"))
    if c is None or len(c.params) != len(n["args"]):
        return None
    return s, {pname(p): a for p, a in zip(c.params, n["args"])}, {pname(p): p["t"] for p in c.params}


def addr_var(f, i):
    """d of &x, or None"""
    n = f.nodes[strip(f, i)]
    if n["k"] == "UnaryOperator" and n["op"] == "&":
        q = f.nodes[strip(f, n["c"][0])]
        if q["k"] == "DeclRefExpr":
            return q["d"]
    return None


def deref(f, i):
    """The expression a by-address scalar argument passes."""
    n = f.nodes[strip(f, i)]
    if n["k"] == "UnaryOperator" and n["op"] == "&":
        return n["c"][0]
    return None


def opt_names(f, i):
    """Variables mentioned in an expression."""
    return {f.nodes[x]["d"] for x in f.walk(i) if f.nodes[x]["k"] == "DeclRefExpr" and "d" in f.nodes[x]}


def neg_one(f, i):
    n = f.nodes[strip(f, i)]
    return n["k"] == "UnaryOperator" and n["op"] == "-" and f.nodes[strip(f, n["c"][0])].get("v") in (1, "1") or f.txt(strip(f, i)).endswith("INONE")


def argtext(f, r):
    return {k: f.txt(strip(f, a)) for k, a in r[1].items() if k not in ("work", "lwork")}


def query_flow(m, f, calls, emit):
    """Forward flow of -1 / optimal size / workspace facts."""
    # variables that may have to do with the answer of a query
    tainted = {addr_var(f, r[1]["lwork"]) for r in calls.values()} | {addr_var(f, r[1]["work"]) for r in calls.values()}
    tainted -= {None}
    defs = []
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            defs += [(v["d"], v["i"]) for v in n["vars"] if isinstance(v.get("i"), int) and v["i"] >= 0]
        elif n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            l = f.nodes[strip(f, n["c"][0])]
            if l["k"] == "DeclRefExpr":
                defs.append((l["d"], n["c"][1]))
    for k in range(len(defs) + 1):
        new = {d for d, i in defs if d not in tainted and f.nodes[strip(f, i)]["k"] != "CXXNewExpr" and any(
            f.nodes[z].get("d") in tainted or f.nodes[z]["k"].endswith("CallExpr") and f.nodes[z].get("fn", "").split("::")[-1] not in ("Getrow", "Getcol") for z in f.walk(i))}
        if not new:
            break
        tainted |= new
    def step(x, st):
        n = f.nodes[x]
        r = calls.get(x)
        if r:
            lw, wk = addr_var(f, r[1]["lwork"]), r[1]["work"]
            lv = st.get(lw, frozenset())
            wv = addr_var(f, wk)
            if wv is not None and lv == frozenset([("neg1",)]):
                st = dict(st)
                st[wv] = frozenset([("optof", x)])
                return st
            emit(x, r, lw, lv, st.get(f.nodes[strip(f, wk)].get("d"), frozenset()), wv)
            return st
        prs = []
        if n["k"] == "DeclStmt":
            prs = [(v["d"], v.get("i")) for v in n["vars"]]
        elif n["k"] == "BinaryOperator" and n["op"] == "=":
            l = f.nodes[strip(f, n["c"][0])]
            if l["k"] == "DeclRefExpr":
                prs = [(l["d"], n["c"][1])]
        elif n["k"] in ("UnaryOperator", "CompoundAssignOperator") and (n["op"].endswith("=") or n["op"] in ("++", "--", "post++", "post--")):
            l = f.nodes[strip(f, n["c"][0])]
            if l["k"] == "DeclRefExpr":
                prs = [(l["d"], None)]
        for d, i in prs:
            st = dict(st)
            v = frozenset([("?",)])
            if i is not None:
                e = f.nodes[strip(f, i)]
                if neg_one(f, i):
                    v = frozenset([("neg1",)])
                elif e["k"] == "CXXNewExpr":
                    sz = f.nodes[strip(f, e.get("size", -1))] if e.get("array") else {"k": ""}
                    if sz["k"] == "DeclRefExpr":
                        v = frozenset(("alloc",) + t for t in st.get(sz["d"], frozenset([("?",)])))
                    else:
                        v = value(sz_node(e), st, "alloc")
                        if v == frozenset([("?",)]) and e.get("array") and sz_node(e) >= 0 and not any(
                                f.nodes[z]["k"].endswith("CallExpr") and f.nodes[z].get("fn", "").split("::")[-1] not in ("Getrow", "Getcol") or f.nodes[z].get("d") in tainted
                                for z in f.walk(sz_node(e))):
                            v = frozenset([("alloc", "foreign")])     # a length that has nothing to do with the answer
                else:
                    v = value(i, st, None)
            # what depended on the old value of d
            for k in list(st):
                st[k] = frozenset(t if t[0] not in ("opt", "alloc") or not uses(t, d) else t[:1] + ("stale",) for t in st[k])
            st[d] = v
        return st

    def sz_node(e):
        return e.get("size", -1) if e.get("array") else -1

    def uses(t, d):
        q = t[-1]
        if not isinstance(q, int) or q not in calls:
            return False
        return any(d in opt_names(f, a) for k, a in calls[q][1].items() if k not in ("work", "lwork", "info"))

    def value(i, st, pre):
        """The value of an expression: the optimal size (casts and the real part removed), else unknown."""
        if i is None or i < 0:
            return frozenset([("?",)])
        j = strip(f, i)
        n = f.nodes[j]
        while n["k"] == "ParenExpr":
            j = strip(f, n["c"][0])
            n = f.nodes[j]
        part = ""
        if n["k"] == "MemberExpr":
            part = n["mn"]
            n = f.nodes[strip(f, n["c"][0])]
        if n["k"] == "DeclRefExpr":
            out = set()
            for t in st.get(n["d"], frozenset([("?",)])):
                if t[0] == "optof":
                    t = ("opt", t[1]) if part in ("", "r") else ("wrongpart", t[1])
                out.add((pre,) + t if pre else t)
            return frozenset(out)
        return frozenset([("?",)])
    ins = {f.entry: {}}
    work = [f.entry]
    k = 0
    while work and k < 5000:
        k += 1
        b = work.pop()
        st = ins[b]
        for s in f.blocks[b]["s"]:
            if isinstance(s, int):
                st = step(s, st)
        for q in f.blocks[b]["succ"]:
            if q is None or q < 0:
                continue
            if q not in ins:
                ins[q] = st
                work.append(q)
            else:
                j = dict(ins[q])
                for d, v in st.items():
                    j[d] = j.get(d, frozenset()) | v
                if j != ins[q]:
                    ins[q] = j
                    work.append(q)


def query_rule(m, f):
    out = {}
    calls = {}
    for x in f.walk():
        r = routine(f, m, f.nodes[x])
        if r and "lwork" in r[1] and "work" in r[1] and addr_var(f, r[1]["lwork"]):
            calls[x] = r
    if not calls:
        return []

    def emit(x, r, lw, lv, wv, direct):
        s = r[0]
        k = "%s: %s" % (f.qual(), s)
        why = None
        if not lv or ("?",) in lv or any(t[0] == "?" for t in lv):
            return
        if direct is not None:
            if any(t[0] == "opt" for t in lv):
                why = "%s computes with a single number as workspace" % s
        elif any(t[0] == "neg1" for t in lv):
            why = "this call of %s can be a mere workspace query (lwork is -1), so nothing is computed" % s
        elif any(t[0] == "wrongpart" for t in lv):
            why = "the size of the workspace of %s is not the real part of the answer of the query" % s
        elif any(len(t) > 1 and t[1] == "stale" for t in lv):
            why = "the problem of %s changes between the workspace query and the computation" % s
        elif all(t[0] == "opt" for t in lv):
            for t in lv:
                q = calls.get(t[1])
                if q[0] != s:
                    why = "the workspace of %s has the size asked of %s" % (s, q[0])
                else:
                    a, b = argtext(f, q), argtext(f, r)
                    df = sorted(z for z in a if a[z] != b.get(z))
                    if df:
                        why = "the workspace query of %s and the computation differ in %s (%s / %s)" % (s, ", ".join(df), a[df[0]], b.get(df[0]))
            if why is None and wv and not any("?" in t for t in wv):
                for t in wv:
                    if t[0] == "alloc" and t[1:] not in lv:
                        why = "the workspace of %s is not allocated with the size that is passed for it" % s
        out[(k, x)] = (why is None, "workspace-query", k, f.loc(x), why)
    query_flow(m, f, calls, emit)
    return list(out.values())


def side(f, i):
    n = f.nodes[strip(f, i)]
    return n["d"].split("::")[-1] if n["k"] == "DeclRefExpr" and n["d"].startswith("G:") else n.get("v") if n["k"] == "StringLiteral" else None


def shape_rules(m, f):
    out = []
    cs = consts(f)
    calls = [(x, routine(f, m, f.nodes[x])) for x in f.walk()]
    calls = [(x, r) for x, r in calls if r]
    if not calls:
        return out
    # pointer variables with one source
    src, news = {}, {}
    for x in f.walk():
        n = f.nodes[x]
        prs = []
        if n["k"] == "DeclStmt":
            prs = [(v["d"], v["i"]) for v in n["vars"] if "i" in v and is_ptr(v["t"]) and not is_elem(v["t"])]
        elif n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            l = f.nodes[strip(f, n["c"][0])]
            if l["k"] == "DeclRefExpr" and is_ptr(l.get("t", "")):
                prs = [(l["d"], n["c"][1] if n["op"] == "=" else None)]
        elif n["k"] == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            l = f.nodes[strip(f, n["c"][0])]
            if l["k"] == "DeclRefExpr" and is_ptr(l.get("t", "")):
                prs = [(l["d"], None)]
        for d, i in prs:
            if i is not None and f.nodes[strip(f, i)]["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
                continue
            src.setdefault(d, []).append(i)

    for x, (s, args, types) in calls:
        dm = LDims(f, cs, dict(edge_facts(f, x)))
        eq = equal_polys(f, held(f, x), dm)

        def norm(e):
            for y in syms(e):
                if y in MM:
                    e = subst(e, y, minmax(MM[y][0], norm(MM[y][1]), norm(MM[y][2])))
            for a, b in eq:
                e = subst(e, a, b)
            for y in syms(e):
                if y.startswith("#") and y.endswith(".2"):
                    e = subst(e, y, {(): 1})
            return e

        def dim(w):
            if isinstance(w, int):
                return {(): w}
            if w == "min":
                a, b = dim("m"), dim("n")
                return minmax("min", a, b) if a is not None and b is not None else None
            if w in ("?side", "?other"):
                t = side(f, args["side"])
                return None if t not in ("L", "R") else dim("m" if (t == "L") == (w == "?side") else "n")
            if w[:2] in ("?t",):
                t = side(f, args["transa" if w[2] == "a" else "transb"])
                if t not in ("N", "T", "C"):
                    return None
                a, b = ("m", "k") if w[2] == "a" else ("k", "n")
                if t != "N":
                    a, b = b, a
                return dim(a if w[3] == "0" else b)
            if w not in args:
                return None
            e = deref(f, args[w])
            if e is None:
                return None
            g = f.nodes[strip(f, e)]
            if g["k"] == "DeclRefExpr" and g["d"].startswith("G:"):
                return {(): 1} if g["d"].endswith("::IONE") else None
            v = dm.val(e, set())
            return None if v is None else norm(v)

        def buffer(a, depth=0):
            """(size polynomial in units of the element type, name) of the storage an argument starts at."""
            if depth > 6 or a is None:
                return None
            n = f.nodes[strip(f, a)]
            while n["k"] == "ParenExpr":
                n = f.nodes[strip(f, n["c"][0])]
            if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").split("::")[-1] in ENTIRE + PARTIAL + READ:
                o = owner_of(f, n["obj"])
                b = dm.length(o) if o is not None else None
                return (norm(b), o.split(":")[-1], "elem") if b else None
            if n["k"] == "CXXNewExpr" and n.get("array"):
                v = dm.val(n.get("size", -1), set())
                return (norm(v), "new", "new") if v is not None else None
            if n["k"] == "DeclRefExpr" and len(src.get(n["d"], [])) == 1:
                b = buffer(src[n["d"]][0], depth + 1)
                return (b[0], n["d"].split(":")[-1] if b[1] == "new" else b[1], b[2]) if b else None
            if n["k"] == "BinaryOperator" and n["op"] == "+":
                b, v = buffer(n["c"][0], depth + 1), dm.val(n["c"][1], set())
                if b is None or v is None or "complex" in n.get("t", "") and b[2] == "elem":
                    return None
                return poly_add(b[0], norm(v), -1), b[1], b[2]
            return None
        for nm, (r, c, ld) in MATS[s].items():
            if nm not in args:
                continue
            b = buffer(args[nm])
            if not b:
                continue
            if s in VECTOR and side_inc(f, args, nm) != 1:
                continue
            if s in ("ger_",) and nm in "xy" and side_inc(f, args, nm) != 1:
                continue
            R, C, L = dim(r), dim(c), dim(ld)
            if R is None or C is None or L is None:
                continue
            unit = 2 if "complex" in types[nm] and b[2] == "elem" else 1
            have = b[0]
            need = poly_mul(poly_add(poly_mul(L, poly_add(C, {(): 1}, -1)), R), {(): unit})
            k = "%s: %s of %s is %s" % (f.qual(), nm, s, b[1])
            low = poly_add(L, R, -1)
            if low and all(c < 0 for c in low.values()):
                out.append((False, "matrix-shape", k, f.loc(x), "the leading dimension %s of %s is smaller than its number of rows %s" % (show(L), b[1], show(R))))
                continue
            verdict(f, out, "matrix-shape", k, x, need, have, "%s is told that %s has %s numbers, but it has %s" % (s, b[1], show(need), show(have)))
        for nm, fn in AUX.get(s, {}).items():
            if nm not in args:
                continue
            b = buffer(args[nm])
            if not b or b[2] != "new":
                continue
            need = {}
            bad = False
            for c, w in fn("complex" in types.get("a", "")):
                d = {(): 1} if w is None else dim(w)
                if d is None:
                    bad = True
                    break
                need = poly_add(need, poly_mul(d, {(): c}))
            if bad:
                continue
            have = b[0]
            verdict(f, out, "workspace-size", "%s: %s of %s" % (f.qual(), nm, s), x, need, have, "the work array %s of %s needs %s entries but has %s" % (b[1], s, show(need), show(have)))
    return out


def side_inc(f, args, nm):
    a = args.get("inc" + nm)
    if a is None:
        return None
    e = deref(f, a)
    if e is None:
        return None
    n = f.nodes[strip(f, e)]
    if n["k"] == "DeclRefExpr" and n["d"].endswith("::IONE"):
        return 1
    return None


def leaves(p):
    out = set()
    for y in syms(p):
        out |= leaves(MM[y][1]) | leaves(MM[y][2]) if y in MM else {y}
    return out


def evaluate(p, env):
    t = Fraction(0)
    for m, c in p.items():
        v = Fraction(c)
        for y in m:
            v *= (min if MM[y][0] == "min" else max)(evaluate(MM[y][1], env), evaluate(MM[y][2], env)) if y in MM else env[y]
        t += v
    return t


def verdict(f, out, rule, k, x, need, have, msg):
    """The buffer is large enough for all sizes / too small whatever the order of the sizes."""
    d = poly_add(have, need, -1)
    if not d or all(c > 0 for c in d.values()):
        out.append((True, rule, k, f.loc(x), ""))
        return
    ls = sorted(leaves(d))
    if any("(" in y or y.startswith("#row") for y in ls) or len(ls) > 3 or any("(" in y for y in leaves(have)):
        return              # not comparable
    step = {y: 2 if y.startswith("#") and y.endswith(".0") else 1 for y in ls}     # complex data have an even leading size
    bad = {}
    top = 8 if len(ls) == 3 else 24
    for vs in itertools.product(range(1, top + 1), repeat=len(ls)):
        env = {y: v * step[y] for y, v in zip(ls, vs)}
        o = tuple(sorted(range(len(ls)), key=lambda t: vs[t]))
        if any(vs[o[t]] == vs[o[t + 1]] for t in range(len(o) - 1)):
            continue
        if evaluate(d, env) < 0:
            bad.setdefault(o, env)
    if not bad:
        out.append((True, rule, k, f.loc(x), ""))
    elif len(bad) == math.factorial(len(ls)):
        out.append((False, rule, k, f.loc(x), msg + " (e.g. too small for " + ", ".join("%s = %s" % (y.lstrip("#"), v) for y, v in sorted(list(bad.values())[0].items())) + ")"))
    elif set(syms(need)) <= set(syms(have)) and all(c > 0 for c in have.values()) and not any(y in MM for y in syms(d)):
        out.append((False, rule, k, f.loc(x), msg))


def rules(m, f):
    return query_rule(m, f) + shape_rules(m, f)


def run(m, ctx):
    ctx.rule("workspace-query", "every computing call of a LAPACK routine with optional workspace size follows a query (lwork = -1) of the same routine with the same arguments, takes the size from the real part of the answer and a workspace allocated with that size")
    ctx.rule("workspace-size", "work arrays of documented size (rwork, iwork, jpvt, ...) are allocated with at least that size")
    ctx.rule("matrix-shape", "leading dimension times columns told to a BLAS/LAPACK routine is the number of entries of the element passed (dimensions compared as polynomials, asserted equalities used)")
    for f in sorted(m.repo_fns(), key=lambda f: (f.file, f.line)):
        if f.entry is None or "BlasLapackCpp" in f.file or "SparseBLAS" in f.file or f.rel().startswith("test"):
            continue
        for ok, rule, k, where, msg in rules(m, f):
            ctx.check(ok, rule, k, where, msg)
    ctx.rule("fixture", "self-test: the rules fire on each seeded-in misuse of tool fixture lapack.cpp and stay quiet on its correct twin")
    fx = m.fixture
    for u in fx.own:
        f = fx.fns[u]
        if f.entry is None or not f.short.startswith(("bad_", "good_")):
            continue
        res = [r for r in rules(fx, f) if not r[0]]
        if f.short.startswith("bad_") != bool(res):
            raise AnalysisBroken("self-test failed on fixture %s (%s)" % (f.short, res[:1]))
        ctx.ok("fixture", f.short)
