"""Abstract interpretation of single operations of Manifold and Problem: where every vector lives and in which representation it is.

An operation is interpreted for one concrete class and one value of the representation flag (IsIntrApproach); branches on the flag are
decided, all others followed both ways.  Each element location carries (base, rep): the point whose tangent space it is in, and
"I" (coefficients in an orthonormal basis) or "E" (ambient coordinates); None is unknown.  Calls of operations of the interface are
judged against the table, helpers of the class are interpreted in place.
"""
from model import NS, AnalysisBroken
from util import *
from ptr import is_elem, is_ptr
from walk import SIG, Env, Walk, last_cond

CAP = 40

ANY, TOP = "any", None
# representation of the arguments in table order of SIG: F the one of the flag, E, I, = all alike, - not judged
REP = {"Metric": "- = =", "LinearOPEEta": "- - F F", "Projection": "- F F", "IntrProjection": "- - I", "ExtrProjection": "- E E", "ScalarTimesVector": "- - = =",
       "ScalarVectorAddVector": "- - = = =", "VectorLinearCombination": "- - = - = =", "Retraction": "- F -", "InvRetraction": "- - -", "coTangentVector": "- F - F F",
       "DiffRetraction": "- F - F F -", "Beta": "- F", "Dist": "- -", "VectorTransport": "- F - F F", "InverseVectorTransport": "- F - F F", "LCVectorTransport": "- F - F F",
       "LCInverseVectorTransport": "- F - F F", "HInvTran": "- F - - - - -", "TranH": "- F - - - - -", "TranHInvTran": "- F - - -", "LCHInvTran": "- F - - - - -",
       "LCTranH": "- F - - - - -", "LCTranHInvTran": "- F - - -", "HaddScaledRank1OPE": "- - - F F -", "ObtainEtaxFlat": "- F F", "ObtainIntr": "- E I", "ObtainExtr": "- I E",
       "EucGradToGrad": "- E - E", "EucHvToHv": "- E E - E", "Obtainnu1nu2forLC": "- F -", "TangentSpaceProximalMap": None, "f": "-", "Grad": "- F", "RieGrad": "- E",
       "EucGrad": "- E", "HessianEta": "- F F", "RieHessianEta": "- E E", "EucHessianEta": "- E E", "PreConditioner": "- F F"}
AGNOSTIC = ("Metric", "ScalarTimesVector", "ScalarVectorAddVector", "VectorLinearCombination")
KEEPS = {"AddToFields", "RemoveFromFields", "RemoveAllFromFields", "CopyFieldsTo", "Setiscomplex", "SetIsIntrinsic", "ScalarTimesThis", "Print", "CopyTo"}
RAW = {"ObtainReadData", "ObtainWritePartialData", "GetTranspose", "GetHTranspose", "GetSubmatrix", "QRDecom", "SVDDecom", "HHRDecom", "GetDiagTimesM", "HHRMtp"}


class Rep(Walk):
    def __init__(self, m, cls, flag, report):
        Walk.__init__(self, m, cls, None)
        self.flag, self.out = flag, report
        self.mem = {}
        self.pm = {}
        self.warned = False
        self.op = ""

    # ---------------------------------------------------------------- values
    def val(self, e, i, s):
        """(base, rep) of an element expression."""
        f = e.f
        i = strip(f, i)
        if i is None or i < 0:
            return (None, None)
        n = f.nodes[i]
        k = n["k"]
        if k == "CXXMemberCallExpr":
            sh = n.get("fn", "").split("::")[-1]
            if sh == "GetEMPTYEXTR":
                return (None, "E")
            if sh == "GetEMPTYINTR":
                return (None, "I")
            if sh == "GetEMPTY":
                return (None, self.flag)
        if k == "MemberExpr" and n["mn"] in ("EMPTYEXTR", "EMPTYINTR"):
            return (None, "E" if n["mn"] == "EMPTYEXTR" else "I")
        if k == "CXXOperatorCallExpr" and n.get("op") in ("*", "/", "+", "-") and len(n["args"]) + ("obj" in n) == 2:
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            el = [is_elem(f.nodes[strip(f, x)].get("t", "")) for x in xs]
            vs = [self.val(e, x, s) for x in xs]
            if all(el):
                if n["op"] in "+-" and vs[0] == vs[1]:
                    return vs[0]
                return (None, None)
            for b, v in zip(el, vs):
                if b:
                    return v
        if k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "CXXConstructExpr") and n.get("c"):
            c = n["args"][0] if k == "CXXConstructExpr" and n.get("args") and len(n["args"]) == 1 else (n["c"][0] if k != "CXXConstructExpr" else None)
            if c is not None:
                return self.val(e, c, s)
        p = self.path(e, i)
        return s.get(p, (None, None)) if p else (None, None)

    def put(self, s, p, v):
        for q in [q for q in s if q.startswith(p + ".E(") or q.startswith(p + "[")]:
            del s[q]
        if v == (None, None):
            s.pop(p, None)
        else:
            s[p] = v

    # ---------------------------------------------------------------- conditions
    def settings(self, mem):
        """Enumerators the library ever stores in an option; None when it may hold others."""
        c = self.m.__dict__.setdefault("_settings", {})
        if not c:
            for g in self.m.fns.values():
                for x, l, r, op in assigns(g):
                    ln = g.nodes[strip(g, l)]
                    if ln["k"] == "MemberExpr":
                        rn = g.nodes[strip(g, r)] if r is not None else {"k": ""}
                        if rn["k"] == "DeclRefExpr" and rn["d"].startswith("E:") and op == "=":
                            c.setdefault(ln.get("m"), set()).add(rn["d"])
                        else:
                            c.setdefault(ln.get("m"), set()).add("?")
        v = c.get(mem)
        return None if not v or "?" in v else v

    def decide(self, e, c):
        f = e.f
        i = unfold(f, c)
        n = f.nodes[i]
        k = n["k"]
        if k == "UnaryOperator" and n["op"] == "!":
            v = self.decide(e, n["c"][0])
            return None if v is None else not v
        if k == "MemberExpr" and n["mn"] == "IsIntrApproach":
            return self.flag == "I"
        if k == "CXXMemberCallExpr" and n.get("fn", "").split("::")[-1] in ("GetIsIntrinsic",):
            return self.flag == "I"
        if k == "BinaryOperator" and n["op"] in ("==", "!="):
            for a, b in (n["c"], n["c"][::-1]):
                p, q = f.nodes[strip(f, a)], f.nodes[strip(f, b)]
                if p["k"] == "MemberExpr" and q["k"] == "DeclRefExpr" and q["d"].startswith("E:"):
                    vs = self.settings(p.get("m"))
                    if vs and q["d"] not in vs:
                        return n["op"] == "!="
                    if vs == {q["d"]}:
                        return n["op"] == "=="
                v, w = self.decide(e, a), f.nodes[strip(f, b)]
                if v is not None and w["k"] in ("CXXBoolLiteralExpr", "IntegerLiteral") and w.get("v") in (True, False, 0, 1):
                    return (v == bool(w["v"])) == (n["op"] == "==")
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            v = [self.decide(e, x) for x in n["c"]]
            if n["op"] == "&&":
                return False if False in v else (True if v == [True, True] else None)
            return True if True in v else (False if v == [False, False] else None)
        if k == "DeclRefExpr" and n["d"].startswith("L"):
            for q in f.nodes:
                if q["k"] == "DeclStmt":
                    for v in q["vars"]:
                        if v["d"] == n["d"] and v.get("i", -1) is not None and v.get("i", -1) >= 0 and self.once(f, n["d"]):
                            return self.decide(e, v["i"]) if v["i"] != c else None
        return None

    def point_matters(self, name, k, base=None):
        """The body of the operation for this class and flag reads its point."""
        key = (name, k)
        if key in self.pm:
            return self.pm[key]
        self.pm[key] = False        # recursion: decided by the other reads
        r = False
        for q in self.m.classes[NS + "Manifold"]["methods"]:
            if q["name"] == name and len(q["params"]) == k:
                f = self.m.resolve(q["usr"], self.cls)
                r = r or f is None or f.entry is None or self.reads(f, f.params[0]["d"])
        self.pm[key] = r
        return r

    def reads(self, f, d):
        key = (f.usr, d)
        if key in self.pm:
            return self.pm[key]
        self.pm[key] = False
        e = Env(f, 0, {}, self.cls)
        seen, work, r = set(), [f.entry], False
        while work and not r:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            o = f.blocks[b]
            skip = set()
            for x in o["s"]:
                if not isinstance(x, int):
                    continue
                n = f.nodes[x]
                if n["k"] == "CXXMemberCallExpr" and n.get("obj") is not None and self.path(e, n["obj"]) == "this":
                    g = self.m.resolve(n["usr"], self.cls) if n.get("virt") else self.m.fns.get(n["usr"])
                    for j, a in enumerate(n["args"]):
                        if f.nodes[strip(f, a)]["k"] == "DeclRefExpr" and f.nodes[strip(f, a)]["d"] == d:
                            skip.add(a)
                            if g is None or g.entry is None or self.reads(g, g.params[j]["d"]):
                                r = True
            inner = set()
            for a in skip:
                inner |= set(f.walk(a))
            for x in o["s"]:
                if isinstance(x, int) and f.nodes[x]["k"] == "DeclRefExpr" and f.nodes[x]["d"] == d and x not in inner:
                    r = True
            dd = self.decide(e, o["cond"]) if o.get("cond") is not None and len(o["succ"]) == 2 else None
            for j, t in enumerate(o["succ"]):
                if t is not None and t >= 0 and not (dd is not None and j == (1 if dd else 0)):
                    work.append(t)
        self.pm[key] = r
        return r

    # ---------------------------------------------------------------- one activation
    @staticmethod
    def skey(s):
        return tuple(sorted((k, str(v)) for k, v in s.items()))

    @staticmethod
    def meet(a, b):
        n = {}
        for q in set(a) & set(b):
            v = (a[q][0] if a[q][0] == b[q][0] else None, a[q][1] if a[q][1] == b[q][1] else None)
            if v != (None, None):
                n[q] = v
        return n

    def activate(self, f, e, s0):
        """All abstract states in which the activation may end."""
        key = (f.usr, tuple(sorted((k, v or "") for k, v in e.bind.items())), self.skey(s0))
        if key in self.mem:
            return [dict(s) for s in self.mem[key]]
        if f.usr in self.stack or len(self.stack) > 8 or f.entry is None:
            return [{}]
        self.stack.append(f.usr)
        self.fns.add(f.usr)
        end = {}
        try:
            seen = {}
            work = [(f.entry, dict(s0))]
            while work:
                b, s = work.pop()
                d = seen.setdefault(b, {})
                k = self.skey(s)
                if k in d:
                    continue
                if len(d) >= CAP:
                    for t in d.values():
                        s = self.meet(s, t)
                    k = self.skey(s)
                    if k in d:
                        continue
                d[k] = s
                o = f.blocks[b]
                cur = [dict(s)]
                for x in o["s"]:
                    if isinstance(x, int):
                        nxt = []
                        for c in cur:
                            nxt += self.elem(f, e, x, f.nodes[x], c) or [c]
                        cur = list({self.skey(c): c for c in nxt}.values())
                if b == f.exit:
                    for c in cur:
                        end[self.skey(c)] = c
                    continue
                dd = None
                if o.get("cond") is not None and len(o["succ"]) == 2:
                    dd = self.decide(e, last_cond(f, o))
                for j, t in enumerate(o["succ"]):
                    if t is None or t < 0 or (dd is not None and j == (1 if dd else 0)):
                        continue
                    work.extend((t, c) for c in cur)
        finally:
            self.stack.pop()
        self.mem[key] = list(end.values())
        return [dict(s) for s in self.mem[key]] or [{}]

    def note(self, kind, f, x, ok, detail):
        if self.warned:         # after a message that the case is not implemented
            return
        self.out(kind, f, x, ok, detail, self)

    def elem(self, f, e, x, n, s):
        k = n["k"]
        self.warned = "#w" in s
        if k == "DeclStmt":
            for v in n["vars"]:
                t, i = v["t"], v.get("i", -1)
                if not is_elem(t):
                    continue
                if i is not None and i >= 0 and (t.rstrip().endswith("&") or is_ptr(t) and self.once(f, v["d"])):
                    q = self.path(e, i)
                    e.bind = dict(e.bind)
                    e.bind[v["d"]] = q
                    continue
                self.put(s, e.name(v["d"]), self.val(e, i, s) if i is not None and i >= 0 else (None, None))
            return
        if k == "CXXOperatorCallExpr":
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            if n.get("op") == "=" and len(xs) == 2 and is_elem(n.get("cls", "") or f.nodes[strip(f, xs[0])].get("t", "")):
                p = self.path(e, xs[0])
                if p:
                    v = self.val(e, xs[1], s)
                    if v[1] == "I" and not p.startswith(e.pre):
                        v = (None, "I")     # coefficients handed on: transport by parallelization
                    self.put(s, p, v)
                return
            if n.get("op") == "*" and len(xs) == 2:
                ts = [f.nodes[strip(f, a)].get("t", "") for a in xs]
                if all(is_elem(t) for t in ts):
                    for a in xs:
                        self.raw(f, e, x, a, s)
            return
        if k not in ("CXXMemberCallExpr", "CallExpr"):
            return
        sh = n.get("fn", "").split("::")[-1]
        if sh == "printf" and any("not been" in t or "arning" in t or "rror" in t for t in literals(f, x)):
            s["#w"] = ("w", "w")
        sp = None
        for root in ("Manifold", "Problem"):
            g = self.m.fns.get(n.get("usr"))
            c = n.get("cls", "")
            if (root, sh, len(n.get("args") or [])) in SIG and (NS + root) in self.m.bases(c):
                sp = (root, sh, SIG[(root, sh, len(n["args"]))].split())
        if sp:
            self.judge_call(f, e, x, n, sp, s)
            return
        # helpers of the class
        g = None
        if k == "CXXMemberCallExpr" and n.get("obj") is not None and self.path(e, n["obj"]) == "this" and n.get("usr"):
            g = self.m.resolve(n["usr"], self.cls) if n.get("virt") else self.m.fns.get(n["usr"])
        if g is not None and any(is_elem(q["t"]) for q in g.params) and g.entry is not None:
            bind = {}
            e2 = Env(g, e.depth + 1, bind, self.cls)
            s2 = dict(s)
            for q, a in zip(g.params, n["args"]):
                if q["t"].rstrip().endswith(("&", "*")):
                    bind[q["d"]] = self.path(e, a)
                    if bind[q["d"]] is None and is_elem(q["t"]):
                        v = self.val(e, a, s)
                        bind.pop(q["d"])
                        self.put(s2, e2.pre + q["d"], v)
                elif is_elem(q["t"]):
                    self.put(s2, e2.pre + q["d"], self.val(e, a, s))
            return [{q: v for q, v in r.items() if e2.pre not in q} for r in self.activate(g, e2, s2)]
        if k == "CXXMemberCallExpr" and is_elem(n.get("cls", "")) and n.get("obj") is not None:
            if sh in RAW:
                self.raw(f, e, x, n["obj"], s)
            if sh in ("AlphaABaddBetaThis",):
                for a in n["args"]:
                    if is_elem(f.nodes[strip(f, a)].get("t", "")):
                        self.raw(f, e, x, a, s)
            p = self.path(e, n["obj"])
            if sh in ("AlphaXaddThis",) and len(n["args"]) == 2:
                a, b = s.get(p, (None, None)), self.val(e, n["args"][1], s)
                if a[1] and b[1]:
                    self.note("mix", f, x, a[1] == b[1], (p, self.path(e, n["args"][1]), a[1], b[1]))
                if p and a != b:
                    self.put(s, p, (None, a[1] if a[1] == b[1] else None))
                return
            if not n.get("const") and p and sh not in KEEPS:
                if sh == "RandGaussian" or sh.startswith("ObtainWrite") or sh in ("SetToZeros", "CopyOnWrite", "NewMemoryOnWrite"):
                    self.put(s, p, (None, s.get(p, (None, None))[1]))
                else:
                    self.put(s, p, (None, None))
            return
        pt = [q["t"] for q in g.params] if g is not None else ([q["t"] for q in self.m.meth[n["usr"]][1]["params"]] if n.get("usr") in self.m.meth else None)
        for j, a in enumerate(n.get("args") or []):
            t = pt[j] if pt and j < len(pt) else ""
            if "const" in t or not is_elem(f.nodes[strip(f, a)].get("t", "")) and not is_elem(t):
                continue
            p = self.path(e, a)
            if p and (t.rstrip().endswith(("&", "*")) or not t):
                self.put(s, p, (None, None))

    def raw(self, f, e, x, a, s):
        p = self.path(e, a)
        v = self.val(e, a, s)
        if v[1]:
            self.note("raw", f, x, None, (p or "", v[1], f.txt(a)))

    def judge_call(self, f, e, x, n, sp, s):
        root, name, roles = sp
        reps = REP.get(name)
        args = n["args"]
        if reps is None:
            return
        reps = reps.split()
        # a qualified call of a base class body runs that body whatever the class: representations are those of its own components
        qualified = n["k"] == "CXXMemberCallExpr" and not n.get("virt") and self.path(e, n["obj"]) == "this" and any(self.m.meth.get(u) for u in [n.get("usr")]) and \
            (self.m.resolve(n["usr"], self.cls) is not self.m.fns.get(n["usr"]))
        obj = self.path(e, n["obj"]) if n.get("obj") is not None else None
        whole = obj in ("this", "this.Domain", "this.Mani") or (obj or "").startswith("P") or "#P" in (obj or "") and "[" not in (obj or "")
        paths = [self.path(e, a) for a in args]
        pts = {r: p for r, p in zip(roles, paths) if r in ("x", "y")}
        vals = [self.val(e, a, s) for a in args]
        alike = None
        for j, (r, w) in enumerate(zip(roles, reps)):
            b, rp = vals[j]
            isin = r.startswith("v:") or r == "a" and j < len(args) - 1
            if r.startswith("v:"):
                want = pts.get(r[2:])
                # a transport of extrinsic vectors by parallelization moves coefficients to another basis
                free = name == "ObtainExtr" and rp in ("I", None) and self.flag == "E" and "Tran" in self.op
                if b is not None and want is not None and not free and root == "Manifold" and whole and not self.point_matters(name, len(args)):
                    continue
                if b is not None and want is not None and not free and not want.startswith("this."):
                    self.note("base", f, x, b == want, (name, j, paths[j], want, b))
            if not isin or qualified or not whole or w == "-":
                continue
            if w == "=":
                if rp is not None:
                    if alike is not None:
                        self.note("rep", f, x, alike == rp, (name, j, paths[j], alike, rp))
                    alike = alike or rp
                continue
            want = self.flag if w == "F" else w
            if rp is not None:
                self.note("rep", f, x, rp == want, (name, j, paths[j], want, rp))
        for j, (r, w) in enumerate(zip(roles, reps)):
            if r[0] in "oGpi" or r == "a" and j == len(args) - 1:
                p = paths[j]
                if p is None:
                    continue
                b = pts.get(r[2:]) if r[0] in "oG" else None
                if name in AGNOSTIC and not self.point_matters(name, len(args)):
                    bs = {vals[q][0] for q in range(len(args) - 1) if roles[q].startswith("v:")}
                    b = bs.pop() if len(bs) == 1 else None      # a combination of ambient matrices
                rp = None
                if not qualified and whole:
                    rp = alike if w == "=" else (self.flag if w == "F" else (w if w in "EI" else None))
                self.put(s, p, (b, rp))


def operation(m, cls, root, name, flag, report):
    """Interpret cls's body of root::name with the flag; returns (fn, exit value of the result argument, roles, reps)."""
    for (r, nm, k), sig in SIG.items():
        if r != root or nm != name:
            continue
        me = [q for q in m.classes[NS + root]["methods"] if q["name"] == name and len(q["params"]) in (k,)]
        for q in me:
            f = m.resolve(q["usr"], cls) if q["virtual"] else m.fns.get(q["usr"])
            if f is None or f.entry is None:
                continue
            roles, reps = sig.split(), (REP.get(name) or "").split()
            if not reps:
                continue
            w = Rep(m, cls, flag, report)
            w.op = name
            e = Env(f, 0, {p["d"]: p["d"].split(":", 1)[-1] + "$" for p in f.params}, cls)
            pts = {ro: e.bind[p["d"]] for ro, p in zip(roles, f.params) if ro in ("x", "y")}
            s, res = {}, None
            for p, ro, rp in zip(f.params, roles, reps):
                loc = e.bind[p["d"]]
                v = flag if rp == "F" else (rp if rp in "EI" else None)
                if ro.startswith("v:"):
                    s[loc] = (pts.get(ro[2:]), flag if rp == "=" else v)
                elif ro == "a" and p is not f.params[-1]:
                    s[loc] = (None, v)
                elif ro[:2] in ("o:", "G:"):
                    s[loc] = (None, v)
                    res = (loc, pts.get(ro[2:]), v)
            for end in w.activate(f, e, s):
                yield w, f, end, res
