"""P03: partial updates keep the rest of the data; results computed from scratch are fully defined."""
from model import NS, AnalysisBroken
from util import *
from fractions import Fraction
from ptr import PtrFlow, acquisition_summary, owner_of, is_elem, is_ptr, ELEM, BASE_ACQ, READ, ENTIRE, PARTIAL

FIXTURES = ("contents.cpp",)
MINIMUM = {"read-defined": 406, "read-current": 500, "fill-constant": 10, "fill-parts": 22, "fill-region": 8, "fill-iteration": 60, "fixture": 6}
SKIP_FILES = ("BlasLapackCpp", "SparseBLAS")


def in_scope(f):
    return f.entry is not None and not any(x in f.file for x in SKIP_FILES) and not f.rel().startswith("test") and not f.qual().startswith("SmartSpace::CopyTo")


# ---------------------------------------------------------------- affine forms of index expressions: {monomial (sorted tuple): coefficient}
def consts(f):
    """Local integer variables assigned exactly once from an affine expression, and the inc count of the others."""
    cnt, val = {}, {}
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                cnt[v["d"]] = cnt.get(v["d"], 0) + (1 if "i" in v else 0)
                if "i" in v:
                    val[v["d"]] = v["i"]
    for x, l, r, op in assigns(f):
        l = strip(f, l)
        if f.nodes[l]["k"] == "DeclRefExpr":
            d = f.nodes[l]["d"]
            cnt[d] = cnt.get(d, 0) + 1
            if op == "=":
                val.setdefault(d, r)
            else:
                cnt[d] += 1
    return {d: val[d] for d in val if cnt.get(d) == 1}


def poly_add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def poly_mul(a, b):
    r = {}
    for k, v in a.items():
        for q, w in b.items():
            m = tuple(sorted(k + q))
            r[m] = r.get(m, 0) + v * w
            if r[m] == 0:
                del r[m]
    return r


def poly(f, i, loopvars, cs, depth=0):
    """Polynomial over loop variables and opaque symbols, or None."""
    i = strip(f, i)
    n = f.nodes[i]
    k = n["k"]
    if k == "ParenExpr":
        return poly(f, n["c"][0], loopvars, cs, depth)
    if k == "IntegerLiteral":
        v = int(n["v"])
        return {(): v} if v else {}
    if k == "BinaryOperator" and n["op"] in ("+", "-", "*"):
        a, b = poly(f, n["c"][0], loopvars, cs, depth), poly(f, n["c"][1], loopvars, cs, depth)
        if a is None or b is None:
            return None
        return poly_mul(a, b) if n["op"] == "*" else poly_add(a, b, 1 if n["op"] == "+" else -1)
    if k == "UnaryOperator" and n["op"] == "-":
        a = poly(f, n["c"][0], loopvars, cs, depth)
        return None if a is None else poly_add({}, a, -1)
    if k == "DeclRefExpr":
        if n["d"] in loopvars:
            return {(n["d"],): 1}
        if n["d"] in cs and depth < 4:
            p = poly(f, cs[n["d"]], loopvars, cs, depth + 1)
            if p is not None and not any(not isinstance(t, str) for m in p for t in m):
                return p
        return {(n["d"],): 1}
    if k in ("MemberExpr", "ArraySubscriptExpr", "CXXMemberCallExpr", "CallExpr"):
        return {("{" + f.txt(i) + "}",): 1}
    return None


def implied(f, c, val):
    """Elementary conditions that hold when condition c has the truth value val: [(node, value)]."""
    c = unfold(f, c)
    if c is None or c < 0:
        return []
    n = f.nodes[c]
    if n["k"] == "UnaryOperator" and n["op"] == "!":
        return implied(f, n["c"][0], not val)
    if n["k"] == "BinaryOperator" and n["op"] == ("&&" if val else "||"):
        return implied(f, n["c"][0], val) + implied(f, n["c"][1], val)
    if n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
        return []
    return [(c, val)]


def edge_facts(f, node):
    """{access path of an element: True/False} for iscomplex tests every path to the node has passed."""
    blk = block_of(f)
    if node not in blk:
        return {}
    out = {}
    for b, o in f.blocks.items():
        if len(o["succ"]) != 2 or o.get("cond") is None:
            continue
        for k, s in enumerate(o["succ"]):
            if s is None or s < 0:
                continue
            facts = []
            for c, v in implied(f, o["cond"], k == 0):
                n = f.nodes[c]
                if n["k"] == "MemberExpr" and n["mn"] == "iscomplex":
                    facts.append((owner_of(f, n["c"][0]), v))
                elif n["k"] == "CXXMemberCallExpr" and n.get("fn", "").endswith("::Getiscomplex"):
                    facts.append((owner_of(f, n["obj"]), v))
            if not facts:
                continue
            seen, st = set(), [f.entry]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for j, q in enumerate(f.blocks[x]["succ"]):
                    if q is not None and q >= 0 and (x, j) != (b, k):
                        st.append(q)
            if blk[node] not in seen:
                out.update(facts)
    return out


def equal_dims(f, node, dm):
    """Pairs of dimension symbols every path to the node has found equal."""
    blk = block_of(f)
    out = []
    if node not in blk:
        return out
    for b, o in f.blocks.items():
        if len(o["succ"]) != 2 or o.get("cond") is None:
            continue
        for k, s in enumerate(o["succ"]):
            if s is None or s < 0:
                continue
            prs = []
            for c, v in implied(f, o["cond"], k == 0):
                n = f.nodes[c]
                if n["k"] == "BinaryOperator" and n["op"] == ("==" if v else "!="):
                    a, q = dm.val(n["c"][0], set()), dm.val(n["c"][1], set())
                    if a and q and len(a) == len(q) == 1 and len(list(a)[0]) == len(list(q)[0]) == 1 and set(a.values()) | set(q.values()) == {1}:
                        prs.append((list(a)[0][0], list(q)[0][0]))
            if not prs:
                continue
            seen, st = set(), [f.entry]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for j, q in enumerate(f.blocks[x]["succ"]):
                    if q is not None and q >= 0 and (x, j) != (b, k):
                        st.append(q)
            if blk[node] not in seen:
                out += prs
    return out


def elem_dim(f, i):
    """(owner, 'len'|'row'|'col'|'num'|'s0') for an expression that reads a dimension of an element."""
    n = f.nodes[i]
    if n["k"] == "CXXMemberCallExpr" and n.get("cls", "") in ELEM and not n["args"]:
        s = n.get("fn", "").split("::")[-1]
        w = {"Getlength": "len", "Getrow": "row", "Getcol": "col", "Getnum": "num"}.get(s)
        return (owner_of(f, n["obj"]), w) if w else None
    if n["k"] == "MemberExpr" and n["mn"] == "length" and n.get("m", "").startswith(NS + "SmartSpace"):
        return owner_of(f, n["c"][0]), "len"
    if n["k"] == "ArraySubscriptExpr":
        b, q = f.nodes[strip(f, n["c"][0])], f.nodes[strip(f, n["c"][1])]
        if b["k"] == "MemberExpr" and b["mn"] == "size" and q["k"] == "IntegerLiteral" and str(q["v"]) in "012":
            return owner_of(f, b["c"][0]), ("s0", "col", "num")[int(q["v"])]
        if b["k"] == "CXXMemberCallExpr" and b.get("fn", "").endswith("::Getsize") and q["k"] == "IntegerLiteral" and str(q["v"]) in "012":
            return owner_of(f, b["obj"]), ("s0", "col", "num")[int(q["v"])]
    return None


class Dims:
    """Dimensions of elements as polynomials."""

    def __init__(self, f, cs, cplx):
        self.f, self.cs, self.cplx = f, cs, cplx
        self.moved = set()       # elements that change their shape after the declaration
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                xs = ([n["obj"]] if "obj" in n else []) + n["args"]
                self.moved.add(owner_of(f, xs[0]))
            elif n["k"] in ("CallExpr", "CXXMemberCallExpr"):
                if n.get("fn", "").endswith("::Reshape"):
                    self.moved.add(owner_of(f, n["obj"]))
                for a in n["args"]:
                    y = f.nodes[strip(f, a)]
                    if y["k"] == "UnaryOperator" and y["op"] == "&":
                        self.moved.add(owner_of(f, a))
        self.decl = {}
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if is_elem(v["t"]) and "i" in v and not v["t"].rstrip().endswith(("*", "&")):
                        self.decl[v["d"]] = v["i"]

    def base(self, o):
        """(dims as [s0, s1, s2] polynomials) of element o."""
        if o in self.decl and o not in self.moved:
            c = self.f.nodes[strip(self.f, self.decl[o])]
            while c["k"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and c.get("c"):
                c = self.f.nodes[strip(self.f, c["c"][0])]
            if c["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                return None
            ds, cx = [], 1
            for a in c["args"]:
                t = self.f.nodes[strip(self.f, a)]
                if t["k"] == "StringLiteral":
                    cx = 2 if t.get("v") == "complex" else 1
                elif t.get("t", "") in ("bool",) or t["k"] == "CXXBoolLiteralExpr":
                    return None
                elif is_elem(t.get("t", "")):
                    so = owner_of(self.f, a)
                    return self.base(so) if so and len(c["args"]) == 1 else None
                else:
                    p = self.val(a, set())
                    if p is None:
                        return None
                    ds.append(p)
            if not 1 <= len(ds) <= 3:
                return None
            while len(ds) < 3:
                ds.append({(): 1})
            return [poly_mul(ds[0], {(): cx}), ds[1], ds[2]]
        if o is None or o in self.decl or o.startswith("temp"):
            return None
        return [{("#%s.%d" % (o, k),): 1} for k in range(3)]

    def length(self, o):
        b = self.base(o)
        return poly_mul(poly_mul(b[0], b[1]), b[2]) if b else None

    def val(self, i, loopvars, depth=0):
        f = self.f
        i = strip(f, i)
        n = f.nodes[i]
        k = n["k"]
        ed = elem_dim(f, i)
        if ed and ed[0]:
            b = self.base(ed[0])
            if b is None:
                return {("{" + f.txt(i) + "}",): 1}
            if ed[1] == "len":
                return poly_mul(poly_mul(b[0], b[1]), b[2])
            if ed[1] == "s0":
                return b[0]
            if ed[1] == "row":
                c = self.cplx.get(ed[0])
                return poly_mul(b[0], {(): Fraction(1, 2)}) if c else b[0] if c is False else {("#row " + ed[0],): 1}
            return b[1] if ed[1] == "col" else b[2]
        if k == "ParenExpr":
            return self.val(n["c"][0], loopvars, depth)
        if k == "IntegerLiteral":
            v = int(n["v"])
            return {(): v} if v else {}
        if k == "BinaryOperator" and n["op"] in ("+", "-", "*"):
            a, b = self.val(n["c"][0], loopvars, depth), self.val(n["c"][1], loopvars, depth)
            if a is None or b is None:
                return None
            return poly_mul(a, b) if n["op"] == "*" else poly_add(a, b, 1 if n["op"] == "+" else -1)
        if k == "BinaryOperator" and n["op"] == "/" and f.nodes[strip(f, n["c"][1])]["k"] == "IntegerLiteral":
            a = self.val(n["c"][0], loopvars, depth)
            d = int(f.nodes[strip(f, n["c"][1])]["v"])
            if a is None or not d:
                return None
            if d == 2 and len(a) == 1 and len(list(a)[0]) >= 2:     # n (n + 1) / 2 and the length of complex data
                return poly_mul(a, {(): Fraction(1, 2)})
            return {("{" + f.txt(i) + "}",): 1} if not any(set(m) & set(loopvars) for m in a) else None
        if k == "UnaryOperator" and n["op"] == "-":
            a = self.val(n["c"][0], loopvars, depth)
            return None if a is None else poly_add({}, a, -1)
        if k == "DeclRefExpr":
            if n["d"] in loopvars:
                return {(n["d"],): 1}
            if n["d"] in self.cs and depth < 5:
                p = self.val(self.cs[n["d"]], set(), depth + 1)
                if p is not None:
                    return p
            elif n["d"].startswith("L"):
                return None if n["d"] not in self.cs else {(n["d"],): 1}
            return {(n["d"],): 1}
        if k in ("MemberExpr", "ArraySubscriptExpr", "CXXMemberCallExpr", "CallExpr"):
            return {("{" + f.txt(i) + "}",): 1}
        return None


def syms(p):
    return {t for m in p for t in m}


def subst(p, var, q):
    r = {}
    for m, c in p.items():
        t = {tuple(x for x in m if x != var): c}
        for _ in range(m.count(var)):
            t = poly_mul(t, q)
        r = poly_add(r, t)
    return r


def extent(f, owner, site, ws, cs):
    """(ok, rule, what) verdicts on the first and the last position a buffer is filled at."""
    out = []
    dm = Dims(f, cs, edge_facts(f, ws[0][0]))
    size = dm.length(owner)
    assigned = set()
    for x, l, r, op in assigns(f):
        l = f.nodes[strip(f, l)]
        if l["k"] == "DeclRefExpr":
            assigned.add(l["d"])
    inter = []
    for x, part, _, loops in ws:
        if loops is None or not all(q.ok() for q in loops):
            return out
        vs = {q.var for q in loops}
        l = strip(f, f.nodes[x]["c"][0])
        while f.nodes[l]["k"] in ("ParenExpr", "MemberExpr") and not f.nodes[l].get("arrow"):
            l = strip(f, f.nodes[l]["c"][0])
        if f.nodes[l]["k"] == "ArraySubscriptExpr":
            base = strip(f, f.nodes[l]["c"][0])
            if f.nodes[base]["k"] not in ("DeclRefExpr", "MemberExpr"):
                return out
            p = dm.val(f.nodes[l]["c"][1], vs)
        else:
            return out
        if p is None or syms(p) & (assigned - vs):
            return out
        lo, hi = {}, {}
        for q in loops:
            a, b = dm.val(q.lo_n, vs), dm.val(q.hi_n, vs)
            if a is None or b is None or (syms(a) | syms(b)) & (assigned - vs):
                return out
            lo[q.var], hi[q.var] = a, poly_add(b, {(): 1}) if q.incl else b
        inter.append((x, part, p, loops, lo, hi))
    on = owner.split(":")[-1]
    where = f.loc(site) if site >= 0 else f.loc()
    # first position
    starts = []
    for x, part, p, loops, lo, hi in inter:
        s = dict(p)
        for _ in range(3):
            for q in reversed(loops):
                s = subst(s, q.var, lo[q.var])
        starts.append(s)
    if all(not any(q.var in syms(s) for q in it[3]) for s, it in zip(starts, inter)):
        out.append((any(not s for s in starts), "fill-extent", "%s: first entry of %s" % (f.qual(), on), where, "the contents of %s are given up, but no store starts at its first entry: the entries before are left without a value" % on))
    if size is None:
        return out
    unit = {(): 2} if any(it[1] in ("r", "i") for it in inter) else {(): 1}
    # contiguous runs
    runs = []
    comparable = True
    for (x, part, p, loops, lo, hi), s in zip(inter, starts):
        if part == "i":
            continue
        vs = [q.var for q in loops if q.var in syms(p)]
        if any(m.count(v) + sum(m.count(w) for w in vs if w != v) > 1 for m in p for v in vs if v in m):
            return out
        if any(set(syms(lo[q.var]) | syms(hi[q.var])) & {w.var for w in loops} for q in loops):
            return out
        coef = {v: {tuple(t for t in m if t != v): c for m, c in p.items() if v in m} for v in vs}
        st = {q.var: q.step for q in loops}
        runs.append((s, [(coef[v], poly_add(hi[v], lo[v], -1), st[v]) for v in vs]))
    ivs = []
    for s, dims_ in runs:
        # collapse the dimensions from the unit stride upwards
        dims_ = list(dims_)
        const = [d for d in dims_ if set(d[0]) <= {()}]
        if len(const) > 1 or len(dims_) > 3:
            return out
        w = {(): 1}
        g = 1
        if const:
            c, n, st = const[0]
            g = abs(c.get((), 0)) * st
            w = poly_mul(n, {(): Fraction(c.get((), 0))}) if c.get((), 0) > 0 else None
            if w is None:
                return out
            dims_.remove(const[0])
        ivs.append((s, g, w, dims_))
    # chain in the fastest dimension; the remaining dimensions have to agree
    groups = {}
    for s, g, w, rest in ivs:
        s0 = {m: c for m, c in s.items()}
        r = s0.get((), 0) % g if g > 1 and isinstance(s0.get((), 0), int) else 0
        s0 = poly_add(s0, {(): r}, -1) if r else s0
        groups.setdefault(tuple(sorted((tuple(sorted(a.items())), tuple(sorted(b.items()))) for a, b, c in rest)), []).append((s0, w))
    if len(groups) != 1:
        return out
    rest = ivs[0][3]
    ends, todo = [], [{}]
    while todo and len(ends) < 50:
        c = todo.pop()
        for s, w in groups[list(groups)[0]]:
            if poly_add(s, c, -1) == {} and w:
                e = poly_add(c, w)
                if e not in ends:
                    ends.append(e)
                    todo.append(e)
    final = ends
    for k in range(len(rest)):
        nxt = [(a, b) for a, b, c in rest if any(poly_add(a, poly_mul(e, {(): 1}), -1) == {} for e in final)]
        if not nxt:
            cand = [(a, e) for a, b, c in rest for e in final]
            if cand and all(syms(e) <= syms(a) and syms(a) <= syms(size) | syms(e) for a, e in cand):
                out.append((False, "fill-extent", "%s: columns of %s" % (f.qual(), on), where, "the columns of %s are not filled completely: a run of %s does not reach the column distance %s" % (on, show(cand[0][1]), show(cand[0][0]))))
            return out
        a, b = nxt[0]
        final = [poly_mul(a, b)]
        rest = [t for t in rest if not (t[0] == a and t[1] == b)]
    if not final:
        return out
    final = [poly_mul(e, unit) for e in final]
    eq = equal_dims(f, ws[0][0], dm)

    def norm(e):
        """asserted equal dimensions identified; routines that treat an element as one matrix presume a single slice."""
        for a, b in eq:
            e = subst(e, a, {(b,): 1})
        for y in syms(e):
            if y.endswith(".2"):
                e = subst(e, y, {(): 1})
        return e
    if any(poly_add(e, size, -1) == {} for e in final) or any(poly_add(norm(e), norm(size), -1) == {} for e in final):
        out.append((True, "fill-extent", "%s: last entry of %s" % (f.qual(), on), where, ""))
    elif all(syms(e) <= syms(size) for e in final):
        out.append((False, "fill-extent", "%s: last entry of %s" % (f.qual(), on), where, "%s has %s entries but only %s are given a value" % (on, show(size), show(final[-1]))))
    return out


def show(p):
    return " + ".join(("%s*" % c if c != 1 or not m else "") + "*".join(t.split(":")[-1].strip("{}") for t in m) if m else str(c) for m, c in sorted(p.items())) or "0"


class Loop:
    def __init__(self, f, i, cs):
        n = f.nodes[i]
        self.i, self.body = i, n.get("body", -1)
        self.var = self.lo = self.hi = None
        self.step = None
        ini = n.get("init", -1)
        if ini is not None and ini >= 0:
            t = f.nodes[ini]
            if t["k"] == "DeclStmt" and len(t["vars"]) == 1 and "i" in t["vars"][0]:
                self.var, self.lo_n = t["vars"][0]["d"], t["vars"][0]["i"]
            elif t["k"] == "BinaryOperator" and t["op"] == "=" and f.nodes[strip(f, t["c"][0])]["k"] == "DeclRefExpr":
                self.var, self.lo_n = f.nodes[strip(f, t["c"][0])]["d"], t["c"][1]
        inc = n.get("inc", -1)
        if inc is not None and inc >= 0:
            for x, l, r, op in assigns(f, inc):
                l = f.nodes[strip(f, l)]
                if l.get("d") == self.var and self.var:
                    if op in ("++", "post++"):
                        self.step = 1
                    elif op == "+=":
                        p = poly(f, r, {}, cs)
                        if p is not None and set(p) <= {()}:
                            self.step = p.get((), 0)
                    elif op == "=":
                        p = poly(f, r, {self.var}, cs)
                        if p is not None and p.get((self.var,)) == 1 and set(p) <= {(), (self.var,)}:
                            self.step = p.get((), 0)
        c = n.get("cond", -1)
        self.hi_n = None
        if c is not None and c >= 0:
            t = f.nodes[strip(f, c)]
            if t["k"] == "BinaryOperator" and t["op"] in ("<", "<=", "!=", ">", ">=") and self.var:
                a, b = strip(f, t["c"][0]), strip(f, t["c"][1])
                if f.nodes[a].get("d") == self.var and t["op"] in ("<", "<=", "!="):
                    self.hi_n, self.incl = b, t["op"] == "<="
                elif f.nodes[b].get("d") == self.var and t["op"] in (">", ">="):
                    self.hi_n, self.incl = a, t["op"] == ">="

    def ok(self):
        return self.var is not None and self.step is not None and self.step > 0 and self.hi_n is not None


def loops_of(f, par, x, cs):
    """Enclosing for loops of node x, outermost first; None for an enclosing loop that is not a counted for."""
    out, p, c = [], par.get(x), x
    while p is not None:
        k = f.nodes[p]["k"]
        if k in ("WhileStmt", "DoStmt"):
            return None
        if k == "ForStmt":
            out.append(Loop(f, p, cs))
        c, p = p, par.get(p)
    return out[::-1]


def region(f, loops, row, col, cs):
    """Relation between the row and the column variable of a write: subset of {'<','=','>'} (row ? col), or None."""
    if row == col:
        return frozenset("=")
    names = [l.var for l in loops]
    lr, lc = names.index(row), names.index(col)
    inner, outer, flip = (loops[lr], col, False) if lr > lc else (loops[lc], row, True)
    vs = set(names)
    lo, hi = poly(f, inner.lo_n, vs, cs), poly(f, inner.hi_n, vs, cs)
    if lo is None or hi is None or inner.step != 1:
        return None
    if inner.incl:
        hi = poly_add(hi, {(): 1})
    # inner variable in [lo, hi)
    r = set("<=>")
    if any(outer in k for k in lo):
        d = poly_add(lo, {(outer,): 1}, -1)
        if not set(d) <= {()}:
            return None
        c = d.get((), 0)
        if c == 1:
            r &= {">"}
        elif c == 0:
            r &= {"=", ">"}
        else:
            return None
    elif lo not in ({},):
        return None
    if any(outer in k for k in hi):
        d = poly_add(hi, {(outer,): 1}, -1)
        if not set(d) <= {()}:
            return None
        c = d.get((), 0)
        if c == 0:
            r &= {"<"}
        elif c == 1:
            r &= {"<", "="}
        else:
            return None
    # r relates inner ? outer; turn into row ? col
    return frozenset({"<": ">", ">": "<", "=": "="}[t] for t in r) if flip else frozenset(r)


def parse_write(f, node, cs, par):
    """(part, poly, loops): part is '' / 'r' / 'i'."""
    l = strip(f, f.nodes[node]["c"][0])
    part = ""
    while f.nodes[l]["k"] in ("ParenExpr", "MemberExpr"):
        if f.nodes[l]["k"] == "MemberExpr":
            if f.nodes[l].get("arrow"):
                return part + f.nodes[l]["mn"], {}, loops_of(f, par, node, cs)
            part = f.nodes[l]["mn"]
        l = strip(f, f.nodes[l]["c"][0])
    n = f.nodes[l]
    loops = loops_of(f, par, node, cs)
    if n["k"] == "UnaryOperator" and n["op"] == "*":
        return part, {}, loops
    if n["k"] != "ArraySubscriptExpr":
        return part, None, loops
    if loops is None:
        return part, None, None
    return part, poly(f, n["c"][1], {x.var for x in loops}, cs), loops


def covers_loop(f, loop, nodes):
    """Every iteration of the innermost loop executes one of the writes (paths that leave the loop or return are excused)."""
    blk = block_of(f)
    inside = {blk[x] for x in f.walk(loop.body) if x in blk}
    w = {blk[x] for x in nodes if x in blk}
    if not inside or not w & inside:
        return True
    # header of the body: blocks of inside entered from outside
    preds = f.preds()
    heads = [b for b in inside if any(p not in inside for p in preds[b])]
    incb = {blk[x] for x in f.walk(f.nodes[loop.i].get("inc", -1)) if x in blk} if f.nodes[loop.i].get("inc", -1) is not None and f.nodes[loop.i].get("inc", -1) >= 0 else set()
    seen, st = set(), list(heads)
    while st:
        b = st.pop()
        if b in seen or b in w:
            continue
        seen.add(b)
        for s in f.blocks[b]["succ"]:
            if s is None or s < 0:
                continue
            if s in incb:
                return False
            if s in inside:
                st.append(s)
    return True


def dims(f, owner):
    """Literal dimensions of a local element declared `Vector v(a, b, ...)`, else None."""
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if v["d"] == owner and "i" in v:
                    c = f.nodes[strip(f, v["i"])]
                    if c["k"] == "CXXConstructExpr":
                        r = 1
                        got = 0
                        for a in c["args"]:
                            t = f.nodes[strip(f, a)]
                            if t["k"] == "IntegerLiteral":
                                r *= int(t["v"])
                                got += 1
                            elif t["k"] == "CXXDefaultArgExpr":
                                pass
                            else:
                                return None
                        return r if got else None
    return None


def guarded_by(f, q, site, reads):
    """A branch inside loop q reads the buffer itself: the store is an update of an existing entry."""
    conds = set()
    for x in f.walk(q.body):
        if f.nodes[x]["k"] in ("IfStmt", "ConditionalOperator", "SwitchStmt"):
            c = f.nodes[x].get("cond")
            if c is None or c < 0:
                c = (f.nodes[x].get("c") or [-1])[0]
            conds |= set(f.walk(c)) if c >= 0 else set()
    return bool(conds & reads)


def fill_rules(f, site, owner, writes, reads):
    """Obligations of a buffer whose old contents are given up and that is filled by subscripted stores only."""
    out = []
    cs, par = consts(f), f.parent()
    on = owner.split(":")[-1]
    where = f.loc(site) if site >= 0 else f.loc()
    ws = [(x,) + parse_write(f, x, cs, par) for x in sorted(writes)]
    if not ws:
        return out
    known = all(p is not None and l is not None for _, _, p, l in ws)
    # constant positions
    if known and all(not any(set(k) & {q.var for q in l} for k in p) for _, _, p, l in ws) and all(set(p) <= {()} for _, _, p, l in ws):
        idx = {p.get((), 0) for _, _, p, l in ws}
        want = dims(f, owner)
        miss = sorted(set(range(want if want else max(idx) + 1)) - idx)
        out.append((not miss, "fill-constant", "%s: entries of %s" % (f.qual(), on), where, "the new contents of %s are never given at position(s) %s" % (on, miss)))
        return out
    # every iteration of the innermost loop stores
    inner = {}
    for x, part, p, l in ws:
        q = l[-1] if l else None
        if q is not None:
            inner.setdefault((q.i, part), (q, []))[1].append(x)
    done = []
    for (li, part), (q, xs) in sorted(inner.items()):
        full = covers_loop(f, q, xs)
        if full:
            done.append((li, part))
        elif any(pp == part and d < li for d, pp in done) or guarded_by(f, q, site, reads):
            continue        # an update of entries that have a value already
        out.append((covers_loop(f, q, xs), "fill-iteration", "%s: loop over %s%s" % (f.qual(), on, "." + part if part else ""), f.loc(li),
                    "an iteration of this loop can leave an entry of %s%s without a value" % (on, "." + part if part else "")))
    out += extent(f, owner, site, ws, cs)
    if not known:
        return out
    # real and imaginary parts, residues of a constant stride, triangles
    cls = {}
    for x, part, p, l in ws:
        if not all(q.ok() for q in l):
            return out
        vs = {q.var for q in l}
        lin = {k: c for k, c in p.items() if set(k) & vs}
        rest = {k: c for k, c in p.items() if not set(k) & vs}
        # common stride: gcd of the loop-variable coefficients (loop steps included), interleaved parts sit at different residues
        g = 0
        from math import gcd
        for k, c in lin.items():
            v = [t for t in k if t in vs]
            st = {q.var: q.step for q in l}
            g = gcd(g, abs(c) * (st[v[0]] if len(v) == 1 else 1))
        res = rest.get((), 0)
        for q in l:     # a loop that starts at a constant shifts the residue
            lo = poly(f, q.lo_n, vs, cs)
            if lo is not None and set(lo) <= {()} and (q.var,) in lin:
                res += lin[(q.var,)] * lo.get((), 0)
        # row/col shape
        shape = "?"
        unit = [k for k, c in lin.items() if len(k) == 1 and k[0] in vs]
        scaled = [k for k, c in lin.items() if len(k) == 2 and len(set(k) & vs) == 1]
        if len(unit) == 1 and len(scaled) == 1 and len(lin) == 2 and not {k for k in rest if k}:
            col = (set(scaled[0]) & vs).pop()
            r = region(f, l, unit[0][0], col, cs)
            shape = "".join(sorted(r)) if r else "?"
        elif len(lin) == 1 and len(list(lin)[0]) == 1:
            shape = "1d"
        cls.setdefault((part, g, res % g if g > 1 else 0), []).append(shape)
    parts = {k[0] for k in cls}
    if parts & {"r", "i"}:
        a = {s for k, v in cls.items() if k[0] == "r" for s in v}
        b = {s for k, v in cls.items() if k[0] == "i" for s in v}
        for t in sorted(a | b):
            out.append((t in a and t in b, "fill-parts", "%s: complex entries of %s, %s" % (f.qual(), on, t), where,
                        "only the %s parts of these entries of %s get a value" % ("real" if t in a else "imaginary", on)))
    gs = {k[1] for k in cls}
    if len(gs) == 1 and max(gs) > 1 and parts == {""}:
        g = max(gs)
        rs = {k[2] for k in cls}
        out.append((rs == set(range(g)), "fill-parts", "%s: interleaved entries of %s" % (f.qual(), on), where, "of each group of %d entries of %s only those at offset %s get a value" % (g, on, sorted(rs))))
        shapes = [frozenset(v) for v in cls.values()]
        if "?" not in set().union(*shapes):
            full = [set("".join(x)) for x in cls.values()]
    for key, v in sorted(cls.items()):
        if "?" in v or "1d" in v:
            continue
        got = set("".join(v))
        tri = any(len(s) < 3 for s in v)
        if tri:
            miss = {"<": "above", "=": "on", ">": "below"}
            out.append((got >= set("<=>"), "fill-region", "%s: triangles of %s%s" % (f.qual(), on, "." + key[0] if key[0] else ""), where,
                        "the entries of %s %s the diagonal never get a value" % (on, " and ".join(miss[t] for t in "<=>" if t not in got))))
    return out


def analyse(m, f, acq, as_entire=()):
    out = []
    writes, other, reads = {}, set(), {}

    def sink(ev, node, fa):
        k, o, site, fl = fa
        if ev == "read":
            reads.setdefault(site, set()).add(node)
        on = o.split(":")[-1]
        op = f.txt(node)[:80]
        if ev == "read":
            key = "%s: read of %s" % (f.qual(), on)
            if k == "E":
                out.append((False, "read-defined", key, f.loc(node), "`%s` reads the data of %s, whose old contents were given up at %s and not yet replaced" % (op, on, f.loc(site) if site >= 0 else "?")))
            elif k == "W":
                out.append((True, "read-defined", key, "", ""))
            if "c" in fl or "r" in fl:
                out.append((False, "read-current", key, f.loc(node), "`%s` reads %s through a pointer acquired at %s, but the contents were given up or moved in between" % (op, on, f.loc(site) if site >= 0 else "?")))
            elif site >= 0:
                out.append((True, "read-current", key, "", ""))
        elif ev == "write" and site >= 0:
            n = f.nodes[node]
            s = f.nodes[site].get("fn", "").split("::")[-1] if f.nodes[site]["k"] == "CXXMemberCallExpr" else ""
            ent = k == "E" or (k == "W" and (s in ENTIRE + ("NewMemoryOnWrite",) or site in p.entire))
            if not ent or "s" in fl:
                return
            if k == "W" and (f, site) in zeroed:
                return
            if n["k"] in ("BinaryOperator", "CompoundAssignOperator"):
                writes.setdefault((site, o), set()).add(node)
            elif not p.updating:
                other.add((site, o))
    zeroed = set()
    p = PtrFlow(m, f, sink, acq)
    p.as_entire = as_entire
    p.zeroed = zeroed
    p.run()
    for (site, o), ns in sorted(writes.items()):
        if (site, o) not in other and (f, site) not in zeroed:
            out += fill_rules(f, site, o, ns, reads.get(site, set()))
    return out


def run(m, ctx):
    ctx.rule("read-defined", "data of an element are read only after they were given a value: after an acquisition that gives the old contents up (ObtainWriteEntireData, NewMemoryOnWrite) a read comes after a write on every path")
    ctx.rule("read-current", "a raw data pointer is not used for reading after the contents it pointed to were given up or moved")
    ctx.rule("fill-constant", "a small buffer filled at constant positions is filled at all of them")
    ctx.rule("fill-parts", "real and imaginary parts, or all entries of an interleaved group, are filled together")
    ctx.rule("fill-region", "a matrix filled triangle by triangle gets both triangles and the diagonal")
    ctx.rule("fill-extent", "a buffer filled by counted loops is filled from its first to its last entry (index ranges compared with the declared dimensions as polynomials)")
    ctx.rule("fill-iteration", "each iteration of a filling loop stores an entry on every path")
    acq = acquisition_summary(m)
    for f in sorted(m.repo_fns(), key=lambda f: (f.file, f.line)):
        if in_scope(f):
            for ok, rule, key, where, msg in analyse(m, f, acq):
                ctx.check(ok, rule, key, where, msg)
    ctx.rule("fixture", "self-test: the rules fire on each seeded-in misuse of tool fixture contents.cpp and stay quiet on its correct twin")
    fx = m.fixture
    for u in fx.own:
        f = fx.fns[u]
        if f.entry is None or not f.short.startswith(("bad_", "good_")):
            continue
        res = [r for r in analyse(fx, f, acq) if not r[0]]
        if f.short.startswith("bad_") != bool(res):
            raise AnalysisBroken("self-test failed on fixture %s (%s)" % (f.short, res[:1]))
        ctx.ok("fixture", f.short)
