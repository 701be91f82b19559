"""Small shared queries over Fn syntax trees and CFGs."""
from model import NS, AnalysisBroken

CASTS = ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr")


def strip(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] in CASTS and f.nodes[i].get("c"):
        i = f.nodes[i]["c"][0]
    return i


def is_this_member(f, i):
    """qualified member name if node i (casts removed) is this->m, else None"""
    i = strip(f, i)
    n = f.nodes[i]
    if n["k"] == "MemberExpr":
        b = strip(f, n["c"][0])
        if b >= 0 and f.nodes[b]["k"] == "CXXThisExpr":
            return n["m"]
    return None


def is_call(n):
    return n["k"] in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")


def assigns(f, i=None):
    """(node id, lhs id, rhs id, op) for every scalar assignment below i, and compound assignments / inc / dec."""
    for x in f.walk(i):
        n = f.nodes[x]
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            yield x, n["c"][0], n["c"][1], n["op"]
        elif n["k"] == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            yield x, n["c"][0], None, n["op"]


def literals(f, i):
    return [f.nodes[x]["v"] for x in f.walk(i) if f.nodes[x]["k"] == "StringLiteral" and "v" in f.nodes[x]]


def reach_blocks(f, decide):
    """Blocks reachable from the entry when decide(block) returns the list of successor indices to follow (None: all)."""
    seen, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b in seen or b < 0:
            continue
        seen.add(b)
        o = f.blocks[b]
        d = decide(o)
        for k, s in enumerate(o["succ"]):
            if s is not None and s >= 0 and (d is None or k in d):
                st.append(s)
    return seen


def must_pass(f, blocks):
    """True when every path entry->exit goes through one of the given blocks."""
    seen, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b in seen or b in blocks:
            continue
        seen.add(b)
        if b == f.exit:
            return False
        st.extend(s for s in f.blocks[b]["succ"] if s is not None and s >= 0)
    return True


def block_of(f):
    m = f.__dict__.get("_blk")
    if m is not None:
        return m
    m = f._blk = {}
    for b, o in f.blocks.items():
        for s in o["s"]:
            if isinstance(s, int):
                m.setdefault(s, b)
    return m


def once_inits(f):
    """{declaration: initializer} of the scalar locals of f that are initialised and never changed afterwards."""
    r = getattr(f, "_once", None)
    if r is not None:
        return r
    init, bad = {}, set()
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                i = v.get("i", -1)
                if i is not None and i >= 0 and not v["t"].rstrip().endswith(("*", "&", "]")):
                    if v["d"] in init:
                        bad.add(v["d"])
                    init[v["d"]] = i
        elif n["k"] == "UnaryOperator" and n["op"] == "&":
            y = f.nodes[strip(f, n["c"][0])]
            if y["k"] == "DeclRefExpr":
                bad.add(y["d"])
        elif n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "LambdaExpr"):
            for q, a in enumerate(n.get("args") or ()):       # an lvalue argument without a load is taken by reference
                if a is not None and a >= 0 and f.nodes[a]["k"] == "DeclRefExpr" and ("ref" not in n or q in n["ref"]):
                    bad.add(f.nodes[a]["d"])
    for x, l, r, op in assigns(f):
        y = f.nodes[strip(f, l)]
        if y["k"] == "DeclRefExpr":
            bad.add(y["d"])
    f._once = {d: i for d, i in init.items() if d not in bad}
    return f._once


def unfold(f, i, depth=0):
    """The expression a condition stands for: parentheses removed, a local that only names an expression replaced by it."""
    i = strip(f, i)
    while i is not None and i >= 0 and depth < 6:
        n = f.nodes[i]
        if n["k"] in ("ParenExpr", "ExprWithCleanups") and n.get("c"):
            i = strip(f, n["c"][0])
        elif n["k"] == "DeclRefExpr" and n.get("d", "").startswith("L") and n["d"] in once_inits(f):
            i = strip(f, once_inits(f)[n["d"]])
            depth += 1
        else:
            break
    return i


def for_loops(f):
    """{condition block of a for loop: blocks of the loop}"""
    r = getattr(f, "_loops", None)
    if r is not None:
        return r
    reach = {}

    def reached(b):
        if b not in reach:
            seen, st = set(), [b]
            while st:
                q = st.pop()
                if q in seen:
                    continue
                seen.add(q)
                st.extend(t for t in f.blocks[q]["succ"] if t is not None and t >= 0)
            reach[b] = seen
        return reach[b]
    r = f._loops = {}
    for b, o in f.blocks.items():
        t = o.get("term")
        if t is not None and isinstance(t, int) and f.nodes[t]["k"] == "ForStmt" and len(o["succ"]) == 2 and o["succ"][0] is not None and o["succ"][0] >= 0:
            r[b] = {q for q in reached(o["succ"][0]) if b in reached(q)}
    return r
