"""Reachability of calls under an assignment of option members (enum / bool members of the object)."""
from model import NS, AnalysisBroken
from util import *


def enum_consts(m):
    r = {}
    for e in m.enums.values():
        for k, v in (e["vals"].items() if isinstance(e["vals"], dict) else [(x["n"], x["v"]) for x in e["vals"]]):
            r[k] = v
    return r


def ev(f, i, env):
    """value (int/bool) of the expression under env (member name -> int), or None"""
    i = strip(f, i)
    if i is None or i < 0:
        return None
    n = f.nodes[i]
    k = n["k"]
    if k == "ParenExpr":
        return ev(f, n["c"][0], env)
    if k == "MemberExpr":
        b = strip(f, n["c"][0]) if n["c"][0] >= 0 else -1
        if b < 0 or f.nodes[b]["k"] == "CXXThisExpr":
            return env.get(n["mn"])
        return None
    if k == "DeclRefExpr":
        if "v" in n and isinstance(n["v"], (int, bool)):
            return int(n["v"])
        if n["d"] in env:
            return env[n["d"]]
        j = unfold(f, i)
        return ev(f, j, env) if j != i else None
    if k in ("IntegerLiteral", "CXXBoolLiteralExpr"):
        return int(n["v"])
    if k == "UnaryOperator" and n["op"] == "!":
        v = ev(f, n["c"][0], env)
        return None if v is None else int(not v)
    if k == "BinaryOperator":
        a, b = ev(f, n["c"][0], env), ev(f, n["c"][1], env)
        op = n["op"]
        if op == "&&":
            if a == 0 or b == 0:
                return 0
            return 1 if a is not None and b is not None else None
        if op == "||":
            if (a is not None and a != 0) or (b is not None and b != 0):
                return 1
            return 0 if a == 0 and b == 0 else None
        if a is None or b is None:
            return None
        try:
            return {"==": int(a == b), "!=": int(a != b), "<": int(a < b), ">": int(a > b), "<=": int(a <= b), ">=": int(a >= b)}[op]
        except KeyError:
            return None
    if k == "CXXMemberCallExpr" and not n["args"]:
        nm = n.get("fn", "").split("::")[-1]
        if nm in ("GetIsIntrinsic",) and n.get("obj", -1) >= 0 and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr":
            return env.get("IsIntrApproach")
        if nm in ("GetHasHHR",) and n.get("obj", -1) >= 0 and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr":
            return env.get("HasHHR")
    return None


def succs(f, o, env):
    """indices of the successors that can be taken from block o under env"""
    if "term" in o and o["term"] is not None and f.nodes[o["term"]]["k"] == "SwitchStmt":
        v = ev(f, f.nodes[o["term"]].get("cond", -1), env)
        if v is None:
            return None
        default = None
        for k, s in enumerate(o["succ"]):
            if s is None or s < 0:
                continue
            lab = f.blocks[s].get("label")
            # several labels may stack on consecutive blocks; each is its own successor
            if lab is not None and f.nodes[lab]["k"] == "CaseStmt":
                cv = ev(f, f.nodes[lab]["val"], env)
                if cv == v:
                    return [k]
            else:
                default = k
        return [default] if default is not None else []
    if "cond" in o and o["cond"] is not None and len(o["succ"]) == 2:
        v = ev(f, o["cond"], env)
        if v is not None:
            return [0] if v else [1]
    return None


def reach(f, env):
    return reach_blocks(f, lambda o: succs(f, o, env))


def this_calls(m, f, env, follow, seen=None, depth=0):
    """names of the methods of the same object reached under env; methods for which follow(name) holds are entered"""
    seen = set() if seen is None else seen
    out = set()
    if (f.usr) in seen or depth > 4:
        return out
    seen.add(f.usr)
    for b in reach(f, env):
        for s in f.blocks[b]["s"]:
            if not isinstance(s, int):
                continue
            n = f.nodes[s]
            if n["k"] == "CXXMemberCallExpr" and n.get("obj", -1) is not None and n.get("obj", -1) >= 0 and f.nodes[strip(f, n["obj"])]["k"] == "CXXThisExpr":
                nm = n.get("fn", "").replace(NS, "")
                out.add(nm)
                g = m.fns.get(n["usr"])
                if g and follow(nm):
                    out |= this_calls(m, g, env, follow, seen, depth + 1)
            elif n["k"] == "DeclRefExpr" and n["d"].startswith("F:") and "::" in n.get("fn", "").replace(NS, ""):
                out.add(n["fn"].replace(NS, ""))
    return out
