"""Abstract interpreter for the reference-counting primitives of SmartSpace.

Values: ("null",) ("obj",name) ("cnt",id) ("buf",id) ("int",n) ("bool",b) ("sym",name) ("many",d) = m+d with m>=2, None = unknown.
Every branch whose condition is unknown is followed both ways (equality branches refine the compared location); loops are followed until
the abstract state repeats. All methods of the two element classes called on tracked objects are inlined (static target = the SmartSpace
body), so a helper extracted from a primitive is analysed with it. Nothing is executed and no path is handed to a solver."""
import copy
from model import NS, AnalysisBroken
from util import *

SS = NS + "SmartSpace"


class State:
    def __init__(self):
        self.mem = {}        # location -> value ; locations: ("fld",obj,field) ("var",depth,name) ("cnt",id)
        self.freed = []      # ("cnt"|"buf", id)
        self.events = []     # ("copy", srcbuf, dstbuf, n) ("useafterfree", what)
        self.fresh = 0

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.freed = list(self.freed)
        s.events = list(self.events)
        s.fresh = self.fresh
        return s

    def key(self):
        return (tuple(sorted(((str(k), str(v)) for k, v in self.mem.items()))), tuple(self.freed), tuple(self.events))


def cmp(op, a, b):
    """3-valued comparison."""
    if a is None or b is None:
        return None
    if a[0] == "many" and b[0] == "int":
        lo = 2 + a[1]
        if op == ">":
            return True if lo > b[1] else None
        if op == ">=":
            return True if lo >= b[1] else None
        if op == "<":
            return False if lo >= b[1] else None
        if op == "<=":
            return False if lo > b[1] else None
        if op == "==":
            return False if lo > b[1] else None
        if op == "!=":
            return True if lo > b[1] else None
        return None
    if b[0] == "many" and a[0] == "int":
        return cmp({">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op), b, a)
    if a[0] == "int" and b[0] == "int":
        x, y = a[1], b[1]
        return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
    if op in ("==", "!="):
        con = ("null", "obj", "cnt", "buf", "size")
        if a == b and a[0] != "many":
            return op == "=="
        if a[0] in con and b[0] in con:
            return op == "!="
        if a[0] == "bool" and b[0] == "bool":
            return (a == b) == (op == "==")
    return None


class Interp:
    def __init__(self, m, budget=40000):
        self.m = m
        self.steps = 0
        self.budget = budget
        self.fns = set()

    def run(self, f, args, st, this, depth=0):
        """Yields (state, returnvalue) for every abstract path through f. args: values (objects as ("obj",name))."""
        self.fns.add(f.qual())
        if depth > 8 or f.entry is None:
            raise AnalysisBroken("cannot interpret " + f.qual())
        st = st.clone()
        for p, a in zip(f.params, args):
            st.mem[("var", depth, p["d"] if "d" in p else p["n"])] = a
        out, seen = [], set()
        # item: block, index in block, state, node values
        loops = for_loops(f)
        work = [(f.entry, 0, st, {}, None, None)]
        while work:
            b, k, s, vals, ret, src = work.pop()
            first = b in loops and src not in loops[b]     # a loop over a range not known to be empty runs at least once
            blk = f.blocks[b]
            if k == 0:
                kk = (b, s.key(), first)
                if kk in seen:
                    continue
                seen.add(kk)
            if b == f.exit:
                out.append((s, ret))
                continue
            forked = False
            for j in range(k, len(blk["s"])):
                x = blk["s"][j]
                if not isinstance(x, int):
                    continue
                self.steps += 1
                if self.steps > self.budget:
                    raise AnalysisBroken("abstract interpretation of %s does not finish" % f.qual())
                n = f.nodes[x]
                if n["k"] == "ReturnStmt":
                    ret = self.val(f, n["c"][0], s, vals, depth, this) if n.get("c") else None
                    continue
                if n["k"] in ("CXXMemberCallExpr", "CallExpr") and self.inlined(f, n, s, vals, depth, this) is not None:
                    g, targs, tthis = self.inlined(f, n, s, vals, depth, this)
                    for s2, rv in self.run(g, targs, s, tthis, depth + 1):
                        for loc in [l for l in s2.mem if l[0] == "var" and l[1] > depth]:
                            del s2.mem[loc]
                        v2 = dict(vals)
                        v2[x] = rv
                        work.append((b, j + 1, s2, v2, ret, src))
                    forked = True
                    break
                vals = dict(vals)
                vals[x] = self.step(f, x, n, s, vals, depth, this)
            if forked:
                continue
            succ = blk["succ"]
            live = [y for y in succ if y is not None and y >= 0]
            if len(succ) == 2 and "cond" in blk:
                t, ref = self.truth(f, blk["cond"], s, vals, depth, this)
                if t is None and first:
                    t = True
                for idx, want in ((0, True), (1, False)):
                    if succ[idx] is None or succ[idx] < 0 or (t is not None and t != want):
                        continue
                    s2 = s.clone()
                    if ref and ref[0] == want:
                        s2.mem[ref[1]] = ref[2]
                    work.append((succ[idx], 0, s2, {}, ret, b))
            else:
                for y in live:
                    work.append((y, 0, s.clone(), {}, ret, b))
        return out

    # ---- expressions
    def pname(self, f, d, depth):
        return ("var", depth, d)

    def loc(self, f, i, s, vals, depth, this):
        i = strip(f, i)
        n = f.nodes[i]
        k = n["k"]
        if k == "ParenExpr":
            return self.loc(f, n["c"][0], s, vals, depth, this)
        if k == "DeclRefExpr":
            v = s.mem.get(("var", depth, n["d"]))
            return v[1] if v and v[0] == "ref" else ("var", depth, n["d"])
        if k == "MemberExpr":
            o = self.objof(f, n["c"][0], s, vals, depth, this)
            return ("fld", o, n["mn"]) if o else None
        if k == "UnaryOperator" and n["op"] == "*":
            v = self.val(f, n["c"][0], s, vals, depth, this)
            if v and v[0] == "cnt":
                return v
            return v[1] if v and v[0] == "addr" else None
        if k == "ArraySubscriptExpr" and self.val(f, n["c"][1], s, vals, depth, this) == ("int", 0):
            v = self.val(f, n["c"][0], s, vals, depth, this)
            return v if v and v[0] == "cnt" else None
        return None

    def objof(self, f, i, s, vals, depth, this):
        v = self.val(f, i, s, vals, depth, this)
        return v[1] if v and v[0] == "obj" else None

    def owner(self, f, i, s, vals, depth, this):
        """("this","size") for an expression that denotes the array member size of this."""
        l = self.loc(f, i, s, vals, depth, this)
        return (l[1], l[2]) if l and l[0] == "fld" else None

    def val(self, f, i, s, vals, depth, this):
        if i is None or i < 0:
            return None
        if i in vals:
            return vals[i]
        j = strip(f, i)
        if j in vals:
            return vals[j]
        n = f.nodes[j]
        k = n["k"]
        if k == "ParenExpr":
            return self.val(f, n["c"][0], s, vals, depth, this)
        if k == "CXXThisExpr":
            return ("obj", this)
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("null",)
        if k == "IntegerLiteral":
            return ("int", n["v"])
        if k == "CXXBoolLiteralExpr":
            return ("bool", n["v"])
        if k == "ArraySubscriptExpr" and self.loc(f, j, s, vals, depth, this):
            l = self.loc(f, j, s, vals, depth, this)
            if l in s.freed:
                s.events.append(("useafterfree", l))
            return s.mem.get(l)
        if k in ("DeclRefExpr", "MemberExpr"):
            l = self.loc(f, j, s, vals, depth, this)
            if l is None:
                return None
            if l in s.mem:
                return s.mem[l]
            if l[0] == "fld" and l[2] in ("length", "ls"):
                return ("sym", "%s.%s" % (l[1], l[2]))
            return None
        if k == "UnaryOperator":
            if n["op"] == "&":
                v = self.val(f, n["c"][0], s, vals, depth, this)
                if v and v[0] == "obj":
                    return v
                l = self.loc(f, n["c"][0], s, vals, depth, this)
                return ("addr", l) if l and l[0] in ("fld", "var") else None
            if n["op"] == "*":
                v = self.val(f, n["c"][0], s, vals, depth, this)
                if v and v[0] == "obj":
                    return v
                if v and v[0] == "cnt":
                    if ("cnt", v[1]) in s.freed:
                        s.events.append(("useafterfree", v))
                    return s.mem.get(v)
                return s.mem.get(v[1]) if v and v[0] == "addr" else None
            if n["op"] == "!":
                v = self.val(f, n["c"][0], s, vals, depth, this)
                if v and v[0] == "bool":
                    return ("bool", not v[1])
                if v and v[0] == "null":
                    return ("bool", True)
                if v and v[0] in ("cnt", "buf", "obj"):
                    return ("bool", False)
            return None
        if k == "BinaryOperator":
            if n["op"] in ("==", "!=", "<", ">", "<=", ">="):
                r = cmp(n["op"], self.val(f, n["c"][0], s, vals, depth, this), self.val(f, n["c"][1], s, vals, depth, this))
                return None if r is None else ("bool", r)
            if n["op"] in ("&&", "||"):
                a, b = (self.val(f, c, s, vals, depth, this) for c in n["c"])
                a, b = (x[1] if x and x[0] == "bool" else None for x in (a, b))
                if n["op"] == "&&":
                    return ("bool", False) if False in (a, b) else ("bool", True) if a and b else None
                return ("bool", True) if True in (a, b) else ("bool", False) if a is False and b is False else None
            return None
        if k == "ConditionalOperator":
            t, _ = self.truth(f, n["c"][0], s, vals, depth, this)
            return None if t is None else self.val(f, n["c"][1 if t else 2], s, vals, depth, this)
        return None

    def truth(self, f, i, s, vals, depth, this):
        """(True/False/None, refinement). The operand of && / || decided last is the one the branch depends on."""
        j = strip(f, i)
        n = f.nodes[j]
        if n["k"] == "ParenExpr":
            return self.truth(f, n["c"][0], s, vals, depth, this)
        if n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
            return self.truth(f, n["c"][1], s, vals, depth, this)
        v = self.val(f, j, s, vals, depth, this)
        if v is not None:
            if v[0] == "bool":
                return v[1], None
            if v[0] == "null":
                return False, None
            if v[0] in ("cnt", "buf", "obj"):
                return True, None
            if v[0] == "int":
                return v[1] != 0, None
            return None, None
        ref = None
        if n["k"] == "BinaryOperator" and n["op"] in ("==", "!="):
            l, r = n["c"]
            a, b = self.val(f, l, s, vals, depth, this), self.val(f, r, s, vals, depth, this)
            loc = self.loc(f, l, s, vals, depth, this)
            if loc is None or b is None:
                loc, b = self.loc(f, r, s, vals, depth, this), a
            if loc is not None and b is not None and loc[0] in ("fld", "var"):
                ref = (n["op"] == "==", loc, b)
        return None, ref

    def inlined(self, f, n, s, vals, depth, this):
        g = self.m.fns.get(n.get("usr"))
        if n["k"] == "CallExpr":
            if g is None or g.entry is None or "_" == g.short[-1:] or len(g.params) != len(n["args"]):
                return None
            if g.cls and g.cls not in (SS, NS + "Element"):
                return None
            args = self.actuals(f, g, n, s, vals, depth, this)
            if not any(a and a[0] in ("ref", "addr", "obj", "cnt", "buf") for a in args) and not g.o.get("ret", "").rstrip().endswith("*"):
                return None
            return g, args, this
        if n["k"] != "CXXMemberCallExpr" or n.get("obj") is None:
            return None
        if g is None or g.cls not in (SS, NS + "Element"):
            return None
        o = self.objof(f, n["obj"], s, vals, depth, this)
        if o is None:
            return None
        return g, self.actuals(f, g, n, s, vals, depth, this), o

    def actuals(self, f, g, n, s, vals, depth, this):
        """Values of the arguments; a non-constant reference to a pointer or number is bound to the location it names."""
        out = []
        for a, p in zip(n["args"], g.params):
            l = self.refloc(f, p["t"], a, s, vals, depth, this)
            out.append(("ref", l) if l else self.val(f, a, s, vals, depth, this))
        return out

    def refloc(self, f, t, a, s, vals, depth, this):
        t = t.strip()
        if not t.endswith("&") or t.startswith("const ") and "*" not in t or "SmartSpace" in t or "Element" in t:
            return None
        l = self.loc(f, a, s, vals, depth, this)
        return l if l and l[0] in ("fld", "var", "cnt") else None

    def step(self, f, x, n, s, vals, depth, this):
        k = n["k"]
        if k == "DeclStmt":
            for v in n["vars"]:
                l = self.refloc(f, v["t"], v["i"], s, vals, depth, this) if v.get("i", -1) is not None and v.get("i", -1) >= 0 else None
                s.mem[("var", depth, v["d"])] = ("ref", l) if l else self.val(f, v["i"], s, vals, depth, this) if "i" in v else None
            return None
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            l = self.loc(f, n["c"][0], s, vals, depth, this)
            r = self.val(f, n["c"][1], s, vals, depth, this)
            if l is None:
                a, b = (strip(f, c) for c in n["c"])
                if n["op"] == "=" and f.nodes[a]["k"] == "ArraySubscriptExpr" and f.nodes[b]["k"] == "ArraySubscriptExpr":
                    src, dst = self.owner(f, f.nodes[b]["c"][0], s, vals, depth, this), self.owner(f, f.nodes[a]["c"][0], s, vals, depth, this)
                    if src and dst and ("elems", src, dst) not in s.events:
                        s.events.append(("elems", src, dst))
                    src, dst = (self.val(f, f.nodes[z]["c"][0], s, vals, depth, this) for z in (b, a))
                    if src and dst and src[0] == dst[0] == "buf":
                        n1 = self.span(f, f.nodes[a]["c"][1], f.nodes[b]["c"][1], s, vals, depth, this)
                        if n1 and ("copy", src, dst, n1) not in s.events:
                            s.events.append(("copy", src, dst, n1))
                return None
            if n["op"] in ("+=", "-="):
                r = None if l[0] != "cnt" else self.bump(s.mem.get(l), (1 if n["op"] == "+=" else -1) * r[1] if r and r[0] == "int" else None)
            elif n["op"] != "=":
                r = None
            self.touch(s, l)
            s.mem[l] = r
            return r
        if k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            l = self.loc(f, n["c"][0], s, vals, depth, this)
            if l is None:
                return None
            old = s.mem.get(l)
            self.touch(s, l)
            s.mem[l] = self.bump(old, 1 if "++" in n["op"] else -1) if l[0] == "cnt" else None
            return old if n["op"].startswith("post") else s.mem[l]
        if k == "CXXNewExpr":
            s.fresh += 1
            if n["nt"] in ("double", "float") or n["nt"].endswith("realdp"):
                return ("buf", "new%d" % s.fresh)
            if n["array"]:
                return ("size", "new%d" % s.fresh)
            s.mem[("cnt", "new%d" % s.fresh)] = None
            return ("cnt", "new%d" % s.fresh)
        if k == "CXXDeleteExpr":
            v = self.val(f, n["c"][0], s, vals, depth, this)
            if v and v[0] in ("cnt", "buf", "size"):
                if (v[0], v[1]) in s.freed:
                    s.events.append(("doublefree", v))
                s.freed.append((v[0], v[1]))
            elif v is None:
                s.events.append(("unknownfree", x))
            return None
        if k == "CallExpr":
            short = n.get("fn", "").split("::")[-1]
            if short in ("copy_", "memcpy", "dcopy_", "scopy_"):
                a = [self.val(f, y, s, vals, depth, this) for y in n["args"]]
                src, dst = (a[1], a[3]) if short != "memcpy" else (a[1], a[0])
                s.events.append(("copy", src, dst, self.deref(a[0], s) if short != "memcpy" else None))
            elif n.get("fn") in ("std::copy", "std::copy_n") and len(n["args"]) == 3:
                a = [self.val(f, y, s, vals, depth, this) for y in n["args"]]
                s.events.append(("copy", a[0], a[2], a[1] if short == "copy_n" else None))
            return None
        return self.val(f, x, s, {q: w for q, w in vals.items() if q != x}, depth, this)

    def span(self, f, i, j, s, vals, depth, this):
        """The bound of the loop that runs both subscripts from 0, as a value."""
        a, b = f.nodes[strip(f, i)], f.nodes[strip(f, j)]
        if a["k"] != "DeclRefExpr" or b["k"] != "DeclRefExpr" or a["d"] != b["d"]:
            return None
        for o in f.blocks.values():
            if o.get("cond") is None:
                continue
            c = f.nodes[strip(f, o["cond"])]
            if c["k"] == "BinaryOperator" and c["op"] in ("<", "!="):
                l = f.nodes[strip(f, c["c"][0])]
                if l["k"] == "DeclRefExpr" and l["d"] == a["d"]:
                    return self.val(f, c["c"][1], s, vals, depth, this)
        return None

    @staticmethod
    def touch(s, l):
        if l[0] == "cnt" and l in s.freed:
            s.events.append(("useafterfree", l))

    @staticmethod
    def deref(v, s):
        return s.mem.get(v[1]) if v and v[0] == "addr" else v

    @staticmethod
    def bump(v, d):
        if v is None or d is None:
            return None
        if v[0] == "int":
            return ("int", v[1] + d)
        if v[0] == "many":
            return ("many", v[1] + d)
        return None
