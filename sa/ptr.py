"""Typestate of raw data pointers into copy-on-write elements.

A fact about a pointer variable is (kind, owner, site): kind R (read acquisition), W (write acquisition, contents
defined), E (write acquisition whose old contents are not preserved), SP (the member Space itself). The flags added by events:
  shared  - the owner was copied after the acquisition: the buffer now belongs to the copy as well
  replaced - the owner was assigned / handed out for writing after the acquisition: the buffer may be gone
"""
from model import NS, AnalysisBroken
from util import *

ELEM = ("ROPTLIB::Element", "ROPTLIB::SmartSpace")
BASE_ACQ = {"NewMemoryOnWrite": "E", "ObtainWriteEntireData": "E", "CopyOnWrite": "W", "ObtainWritePartialData": "W", "NewMemory": "E",
            "SetToZeros": "W", "RandUnform": "W", "RandGaussian": "W"}
CACHE_ONLY = ("CopyFieldsTo",)       # touches only the temporary data of its argument
INSTALL = ("SetByParams",)           # stores the pointers it is given, writes nothing
READ = ("ObtainReadData", "GetSpace")
ENTIRE = ("ObtainWriteEntireData",)
PARTIAL = ("ObtainWritePartialData",)

# intents of the wrapper arguments: r read, w written (old contents not needed), u updated in place, p scalar / dimension, k workspace or status
INTENT = {
 ("axpy_", 6): "pprpup", ("copy_", 5): "prpwp", ("dot_", 5): "prprp", ("dotu_", 6): "wprprp", ("dotc_", 6): "wprprp", ("nrm2_", 3): "prp", ("scal_", 4): "ppup",
 ("gemm_", 13): "pppppprprpbup", ("gemv_", 11): "ppppr" "prpbup", ("ger_", 9): "ppprprpup",
 ("geqp3_", 9): "ppupuwkkk", ("geqp3_", 10): "ppupuwkkkk", ("gesvd_", 14): "ppppupwwpwpkkk", ("gesvd_", 15): "ppppupwwpwpkkkk",
 ("getrf_", 6): "ppupwk", ("getrs_", 9): "ppprprupk", ("heev_", 10): "pppupwkkkk", ("syev_", 9): "pppupwkkk", ("larfx_", 8): "ppprpupk",
 ("orgqr_", 9): "pppuprkkk", ("ungqr_", 9): "pppuprkkk", ("ormqr_", 13): "ppppprprupkkk", ("unmqr_", 13): "ppppprprupkkk",
 ("potrf_", 5): "ppupk", ("potrs_", 8): "ppprpupk", ("tgsyl_", 22): "pppprprpuprprpupkkkkkk", ("trsm_", 11): "pppppppr" "pup", ("trtrs_", 10): "pppppr" "pupk",
 ("fftw_plan_dft_2d", 6): "pprwpp", ("fftwf_plan_dft_2d", 6): "pprwpp", ("gees_", 15): None, ("BLAS_usmm", 9): "pppppr" "pup", ("BLAS_uscr_insert_entries", 5): "pprrr",
 ("gesv_", 8): "ppupwupk", ("getri_", 7): "puprkkk", ("gesdd_", 14): None, ("sygv_", 12): None, ("potri_", 5): "ppupk",
}


def is_elem(t):
    t = t.replace("const", "").replace("class ", "").strip().rstrip("*& ").strip()
    return t in ELEM or t in ("ROPTLIB::Variable", "ROPTLIB::Vector", "ROPTLIB::LinearOPE")


def is_ptr(t):
    return t.rstrip().endswith("*")


def owner_of(f, i):
    """Canonical access path of an element expression, or None for a temporary."""
    i = strip(f, i)
    if i is None or i < 0:
        return None
    n = f.nodes[i]
    k = n["k"]
    if k == "CXXThisExpr":
        return "this"
    if k == "DeclRefExpr":
        a = elem_aliases(f).get(n["d"])
        return (owner_of(f, a) if a is not None else None) or n["d"]
    if k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"):
        return owner_of(f, n["c"][0]) if n.get("c") else None
    if k == "UnaryOperator" and n["op"] in ("*", "&"):
        return owner_of(f, n["c"][0])
    if k == "MemberExpr":
        b = owner_of(f, n["c"][0])
        return b + "." + n["mn"] if b else None
    if k == "ArraySubscriptExpr":
        b = owner_of(f, n["c"][0])
        return b + "[" + f.txt(n["c"][1]) + "]" if b else None
    if k == "CXXMemberCallExpr":
        s = n.get("fn", "").split("::")[-1]
        if s in ("GetElement", "Field"):
            b = owner_of(f, n["obj"])
            return b + "." + s + "(" + ",".join(f.txt(a) for a in n["args"]) + ")" if b else None
    return None


def elem_aliases(f):
    """Locals that are another name of one element throughout: references, and pointers given a value once. {variable: initialiser}"""
    a = getattr(f, "_ealias", None)
    if a is None:
        a = f._ealias = {}
        multi = set()
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    t = v["t"].rstrip()
                    if "i" in v and is_elem(t) and (t.endswith("&") or t.endswith("*") and not t.endswith("**")):
                        j = strip(f, v["i"])
                        k = f.nodes[j]
                        if t.endswith("*") and not (k["k"] == "UnaryOperator" and k["op"] == "&" or k["k"] == "DeclRefExpr" and k["d"][0] == "P"):
                            continue
                        if t.endswith("&") and not (k["k"] == "UnaryOperator" and k["op"] == "*" or k["k"] == "DeclRefExpr" or k["k"] == "CXXMemberCallExpr" and k.get("fn", "").endswith(("::GetElement", "::Field"))):
                            continue
                        if v["d"] in a:
                            multi.add(v["d"])
                        a[v["d"]] = v["i"]
            elif n["k"] == "BinaryOperator" and n["op"] == "=" or n["k"] == "CompoundAssignOperator" or n["k"] == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
                l = f.nodes[strip(f, n["c"][0])]
                if l["k"] == "DeclRefExpr":
                    multi.add(l["d"])
        for d in multi:
            a.pop(d, None)
        # a pointer parameter that is itself moved is no fixed name
        for d in [d for d, i in a.items() if f.nodes[strip(f, i)]["k"] == "DeclRefExpr" and f.nodes[strip(f, i)]["d"] in multi]:
            a.pop(d)
    return a


def ptr_base(f, i):
    """The pointer expression a dereference goes through: p for p[i], *p, p->r, p[i].r; else None."""
    i = strip(f, i)
    n = f.nodes[i]
    if n["k"] == "ParenExpr":
        return ptr_base(f, n["c"][0])
    if n["k"] == "ArraySubscriptExpr":
        return n["c"][0]
    if n["k"] == "UnaryOperator" and n["op"] == "*":
        return n["c"][0]
    if n["k"] == "MemberExpr":
        if n.get("arrow"):
            return n["c"][0]
        return ptr_base(f, n["c"][0])
    return None


class PtrFlow:
    """Runs the typestate over one function; calls sink(event, node, fact) for every use of a tracked pointer."""

    def __init__(self, m, f, sink, acq=None, track_space=True, helpers=None, init=None):
        self.helpers = helpers or {}   # usr -> summary of a non-virtual function with element out-parameters
        self.init = init or {}
        self.m, self.f, self.sink, self.track_space = m, f, sink, track_space
        self.acq = acq if acq is not None else {}      # usr -> kind: methods that leave *this exclusively owned on every path
        self.par = f.parent()
        self.emit = False
        self.second = False
        self.uses = 0
        self.as_entire = ()        # partial acquisitions judged as if they gave the old contents up
        self.entire = set()        # acquisitions that do not carry contents over
        self.zeroed = set()        # acquisitions of data known to be zero

    # ---- provenance of a pointer expression
    def prov(self, i, st):
        f = self.f
        i = strip(f, i)
        if i is None or i < 0:
            return frozenset()
        n = f.nodes[i]
        k = n["k"]
        if k == "ParenExpr":
            return self.prov(n["c"][0], st)
        if k == "DeclRefExpr":
            return st.get(n["d"], frozenset())
        if k == "BinaryOperator" and n["op"] in ("+", "-"):
            for c in n["c"]:
                if is_ptr(f.nodes[strip(f, c)].get("t", "")) or is_ptr(f.nodes[c].get("t", "")):
                    return self.prov(c, st)
            return frozenset()
        if k == "BinaryOperator" and n["op"] == "=":
            return self.prov(n["c"][1], st)
        if k == "BinaryOperator" and n["op"] == ",":
            return self.prov(n["c"][1], st)
        if k == "UnaryOperator" and n["op"] == "&":
            b = ptr_base(f, n["c"][0])
            return self.prov(b, st) if b is not None else frozenset()
        if k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            return self.prov(n["c"][0], st)
        if k == "ConditionalOperator":
            return self.prov(n["c"][1], st) | self.prov(n["c"][2], st)
        if k == "CXXMemberCallExpr":
            s = n.get("fn", "").split("::")[-1]
            if n.get("cls", "") in ELEM:
                o = owner_of(f, n["obj"]) or "temp%d" % i
                if s in READ:
                    return frozenset([("R", o, i, "")])
                if s in ENTIRE or (s in PARTIAL and (i in self.as_entire or ("F", o) in st.get("#zero", ()))):
                    if ("Z", o) in st.get("#zero", ()):
                        self.zeroed.add((f, i))
                        return frozenset([("W", o, i, "")])
                    self.entire.add(i)
                    return frozenset([("E", o, i, "")])
                if s in PARTIAL:
                    return frozenset([("W", o, i, "")])
        if k == "MemberExpr" and n.get("m") == "ROPTLIB::SmartSpace::Space" and self.track_space:
            o = owner_of(f, n["c"][0])
            return self.space(st, o) if o else frozenset()
        return frozenset()

    def space(self, st, o):
        """Facts about the buffer an element owns at this point: R (default) means it may be shared with other elements."""
        return st.get("#sp:" + o, frozenset([("R", o, -1, "")]))

    def component_write(self, node, tgt, st):
        """A component (GetElement) of a product is written: its memory is a piece of the buffer of the product."""
        f = self.f
        tgt = strip(f, tgt)
        while tgt is not None and tgt >= 0 and f.nodes[tgt]["k"] in ("ParenExpr", "UnaryOperator", "MaterializeTemporaryExpr") and f.nodes[tgt].get("c"):
            tgt = strip(f, f.nodes[tgt]["c"][0])
        if tgt is None or tgt < 0:
            return
        n = f.nodes[tgt]
        if n["k"] == "CXXMemberCallExpr" and n.get("fn", "").split("::")[-1] == "GetElement" and n.get("cls", "") in ELEM:
            o = owner_of(f, n["obj"])
            if o:
                self.use("component", node, self.space(st, o))

    # ---- events
    def mark(self, st, owner, flag, exact=False):
        if owner is None:
            return st
        out = {}
        if flag == "s" and ("Z", owner) in st.get("#zero", ()):
            st = dict(st)
            st["#zero"] = st["#zero"] - {("Z", owner)}
        for v, fs in st.items():
            if v == "#zero":
                out[v] = fs
                continue
            new = set()
            for (k, o, s, fl) in fs:
                if (o == owner or (not exact and o.startswith((owner + ".", owner + "[")))) and flag not in fl:
                    fl = fl + flag
                new.add((k, o, s, fl))
            out[v] = frozenset(new)
        return out

    def use(self, ev, node, facts):
        if self.emit and facts:
            self.uses += 1
            done = {(x[1], x[2]) for x in facts if x[0] == "W"}
            for fa in facts:
                if fa[0] == "E" and ev == "read" and (self.second or (fa[1], fa[2]) in done):
                    continue
                self.sink(ev, node, fa)

    def load_parent_is_store(self, i):
        """True when the dereference at node i is only the target of a plain store or has its address taken."""
        x, p = i, self.par.get(i)
        while p is not None:
            n = self.f.nodes[p]
            if n["k"] in ("ParenExpr",) or n["k"] == "MemberExpr" and not n.get("arrow"):
                x, p = p, self.par.get(p)
                continue
            if n["k"] == "BinaryOperator" and n["op"] == "=" and n["c"][0] == x:
                return True
            if n["k"] == "UnaryOperator" and n["op"] == "&":
                return True
            if n["k"] == "ArraySubscriptExpr" and n["c"][0] == x:
                return True
            return False
        return False

    def step(self, i, st):
        f = self.f
        n = f.nodes[i]
        k = n["k"]
        if k == "DeclStmt":
            st = dict(st)
            for v in n["vars"]:
                if is_ptr(v["t"]) and not is_elem(v["t"]):
                    st[v["d"]] = self.prov(v["i"], st) if "i" in v else frozenset()
                elif is_elem(v["t"]) and not v["t"].rstrip().endswith(("*", "&")):
                    st.pop("#sp:" + v["d"], None)
                    z = st.get("#zero", frozenset()) - {("Z", v["d"]), ("F", v["d"])}
                    st["#zero"] = z | {("F", v["d"])} if self.raw_new(v) else z
                    st = {a: b if a == "#zero" or a.startswith("#sp:") else frozenset(x for x in b if not (x[1] == v["d"] or x[1].startswith((v["d"] + ".", v["d"] + "[")))) for a, b in st.items()}
            return st
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            l = strip(f, n["c"][0])
            if f.nodes[l]["k"] == "DeclRefExpr" and is_ptr(f.nodes[l].get("t", "")):
                if n["op"] == "=":
                    st = dict(st)
                    st[f.nodes[l]["d"]] = self.prov(n["c"][1], st)
                return st
            b = ptr_base(f, l)
            if b is not None:
                pr = self.prov(b, st)
                if n["op"] != "=":
                    self.use("read", i, pr)
                self.use("write", i, pr)
                st = self.defined(st, pr)
            return st
        if k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            b = ptr_base(f, n["c"][0])
            if b is not None:
                pr = self.prov(b, st)
                self.use("read", i, pr)
                self.use("write", i, pr)
            return st
        if k == "ArraySubscriptExpr" or (k == "UnaryOperator" and n["op"] == "*") or (k == "MemberExpr" and n.get("arrow")):
            t = n.get("t", "")
            if not self.load_parent_is_store(i) and not is_elem(t):
                b = ptr_base(f, i)
                if b is not None and not is_elem(f.nodes[strip(f, b)].get("t", "")):
                    p = self.par.get(i)
                    comp = p is not None and f.nodes[p]["k"] == "CompoundAssignOperator" and f.nodes[p]["c"][0] == i
                    if not comp:
                        self.use("read", i, self.prov(b, st))
            return st
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is_elem(n.get("t", "")):
            if len(n["args"]) == 1 and is_elem(f.nodes[strip(f, n["args"][0])].get("t", "")) and not is_ptr(f.nodes[strip(f, n["args"][0])].get("t", "")):
                o = owner_of(f, n["args"][0])
                p = self.par.get(i)
                ret = p is not None and (f.nodes[p]["k"] in ("ReturnStmt", "CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"))
                if o and not ret:      # a by-value argument dies with the full expression
                    st = self.mark(st, o, "s")
            return st
        if k == "CXXOperatorCallExpr" and n.get("op") == "=" and "obj" not in n or k == "CXXOperatorCallExpr" and n.get("op") == "=":
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            if len(xs) == 2 and is_elem(f.nodes[strip(f, xs[0])].get("t", "")):
                src, dst = owner_of(f, xs[1]), owner_of(f, xs[0])
                self.component_write(i, xs[0], st)
                if src != dst:
                    st = self.mark(st, src, "s")
                    st = self.unknown(st, dst)
            return st
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.call(i, n, st)
        return st

    def raw_new(self, v):
        """The declared element has dimensions but no contents yet."""
        if "i" not in v:
            return True
        f = self.f
        c = f.nodes[strip(f, v["i"])]
        while c["k"] in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and c.get("c"):
            c = f.nodes[strip(f, c["c"][0])]
        return c["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and bool(c["args"]) and all(
            f.nodes[strip(f, a)].get("t", "").replace("const ", "") in ("int", "long", "integer", "bool", "char *", "ROPTLIB::integer") or f.nodes[strip(f, a)]["k"] in ("IntegerLiteral", "StringLiteral") for a in c["args"])

    @staticmethod
    def unfresh(st, o):
        z = st.get("#zero", frozenset())
        if o is not None and ("F", o) in z:
            st = dict(st)
            st["#zero"] = z - {("F", o)}
        return st

    @staticmethod
    def unknown(st, o):
        """The element may share its buffer from here on."""
        st = PtrFlow.unfresh(st, o)
        if o is not None and "#sp:" + o in st:
            st = dict(st)
            del st["#sp:" + o]
        return st

    def defined(self, st, pr):
        """Contents of an 'entire' acquisition are defined once something was written through it."""
        keys = {(x[1], x[2]) for x in pr if x[0] == "E"}
        if not keys:
            return st
        return {v: fs if v == "#zero" else frozenset((("W",) + x[1:]) if x[0] == "E" and (x[1], x[2]) in keys else x for x in fs) for v, fs in st.items()}

    def call(self, i, n, st):
        st = self.call1(i, n, st)
        if n["k"] == "CXXMemberCallExpr" and n.get("cls", "") in ELEM:
            s = n.get("fn", "").split("::")[-1]
            o = owner_of(self.f, n["obj"])
            if o and (s in BASE_ACQ or n.get("usr") in self.acq):
                st = dict(st)
                st["#sp:" + o] = frozenset([(BASE_ACQ.get(s) or self.acq[n["usr"]], o, i, "")])
        return st

    def call1(self, i, n, st):
        f = self.f
        fn = n.get("fn", "")
        s = fn.split("::")[-1]
        if n["k"] == "CXXMemberCallExpr" and n.get("cls", "") in ELEM:
            o = owner_of(f, n["obj"])
            me = self.m.meth.get(n.get("usr"))
            if me is None or not me[1]["const"] and s not in READ + ENTIRE + PARTIAL + ("NewMemoryOnWrite",):
                st = self.unfresh(st, o)
            if me is not None and not me[1]["const"] and s not in ("GetElement", "Field", "Getelements", "operator="):
                self.component_write(i, n["obj"], st)
            if s in READ + ENTIRE + PARTIAL + ("NewMemoryOnWrite", "CopyOnWrite", "SetToZeros", "SetToIdentity", "ScaledIdOPE", "RandUnform", "RandGaussian"):
                if s in READ:
                    return st
                if s in ("SetToZeros", "SetToIdentity", "ScaledIdOPE", "RandUnform", "RandGaussian") and o:
                    st = dict(st)
                    st["#zero"] = st.get("#zero", frozenset()) | {("Z", o)}
                # a new write acquisition after sharing moves the owner to another buffer
                zero = st.get("#zero", frozenset())
                st = {v: fs for v, fs in st.items() if v != "#zero"}
                out = {}
                for v, fs in st.items():
                    out[v] = frozenset((a, b, c, d + ("r" if "s" in d and "r" not in d and b == o and a != "R" else "")) for a, b, c, d in fs)
                if s not in PARTIAL + ("CopyOnWrite",) and o:
                    # old contents are given up: reading them through an earlier read pointer is only right when the owner still shares
                    out = {v: frozenset((a, b, c, d + ("c" if a in ("R", "W") and b == o and "c" not in d else "")) for a, b, c, d in fs) for v, fs in out.items()}
                out["#zero"] = zero
                return out
            if s == "CopyTo" and len(n["args"]) == 1:
                return self.mark(st, o, "s")
            if s == "AddToFields":
                return self.mark(st, owner_of(f, n["args"][1]), "s")
            if s in ("Delete", "Initialization", "DeleteBySettingNull", "SetByParams"):
                st = self.mark(st, o, "r")
                st = self.unknown(st, o)
            return self.args(i, n, st)
        base = (s, len(n["args"]))
        if base in INTENT and INTENT[base]:
            it = INTENT[base]
            assert len(it) == base[1], base
            beta0 = False
            for a, c in zip(n["args"], it):
                if c == "b":
                    beta0 = f.txt(strip(f, a)).endswith("ZERO")
            wrote = []
            for a, c in zip(n["args"], it):
                pr = self.prov(a, st)
                if not pr:
                    continue
                if c == "r" or c == "p":
                    self.use("read", i, pr)
                elif c == "u":
                    if not beta0:
                        self.use("read", i, pr)
                    self.updating = not beta0       # uses the old entries: gives none a first value
                    self.use("write", i, pr)
                    self.updating = False
                    wrote.append(pr)
                elif c == "w":
                    self.use("write", i, pr)
                    wrote.append(pr)
            for pr in wrote:
                st = self.defined(st, pr)
            return st
        return self.args(i, n, st)

    updating = False

    def args(self, i, n, st):
        """A call of anything else: raw pointers are read (const) or updated; elements given by reference or address may be replaced."""
        f = self.f
        s = fn = n.get("fn", "").split("::")[-1]
        callee = self.m.fns.get(n.get("usr")) or None
        pt = None
        if callee is not None:
            pt = [p["t"] for p in callee.params]
        elif n.get("usr") in self.m.meth:
            pt = [p["t"] for p in self.m.meth[n["usr"]][1]["params"]]
        for j, a in enumerate(n["args"]):
            t = pt[j] if pt and j < len(pt) else None
            an = f.nodes[strip(f, a)]
            pr = self.prov(a, st) if s not in INSTALL else None
            if pr:
                if t is not None and t.replace(" ", "").startswith("const"):
                    self.use("read", i, pr)
                elif t is not None and is_ptr(t):
                    self.use("write", i, pr)
                    st = self.defined(st, pr)
                else:
                    self.use("write" if t is None else "read", i, pr)
                    st = self.defined(st, pr)
                continue
            if t is not None and is_elem(t) and t.rstrip().endswith(("*", "&")) and "const" not in t:
                # the callee may fill the owner's buffer (in place when it is not shared)
                o = owner_of(f, a)
                if fn.split("::")[-1] in CACHE_ONLY:
                    continue
                h = self.helpers.get(n.get("usr"), {})
                if j in h.get("need", ()) and o:
                    self.use("component", i, self.space(st, o))
                self.component_write(i, a, st)
                if o:
                    if j in h.get("acq", ()):
                        st = dict(self.unfresh(st, o))
                        st["#sp:" + o] = frozenset([("E", o, i, "")])
                    elif j not in h.get("keep", ()):
                        st = self.unknown(st, o)
                    st = self.defined(st, [x for fs in st.values() for x in fs if x[0] == "E" and x[1] == o])
        return st

    @staticmethod
    def join(a, b):
        out = dict(a)
        for k in set(a) | set(b):
            d = frozenset([("R", k[4:], -1, "")]) if k.startswith("#sp:") else frozenset()
            out[k] = a.get(k, d) | b.get(k, d)
        return out

    def at_exit(self, o="this"):
        """Facts about the buffer of *this (or of the element o) when the function returns."""
        self.emit = False
        outs = self.fixpoint()
        pr = self.f.preds()[self.f.exit]
        facts = [self.space(outs[p], o) for p in pr if p in outs]
        return frozenset().union(*facts) if facts else None

    def run(self):
        f = self.f
        if f.entry is None:
            return
        order = f.rpo()
        preds = f.preds()
        outs = self.fixpoint()
        self.final(order, preds, outs)

    def fixpoint(self):
        f = self.f
        order = f.rpo()
        preds = f.preds()
        outs = {}
        work = list(order)
        it = 0
        while work and it < 20000:
            it += 1
            b = work.pop(0)
            st = None
            for p in preds[b]:
                if p in outs:
                    st = outs[p] if st is None else self.join(st, outs[p])
            st = st or (dict(self.init) if b == f.entry else {})
            for s in f.blocks[b]["s"]:
                if isinstance(s, int):
                    st = self.step(s, st)
            if outs.get(b) != st:
                outs[b] = st
                for s in f.blocks[b]["succ"]:
                    if s is not None and s >= 0 and s not in work:
                        work.append(s)
        return outs

    def final(self, order, preds, outs):
        f = self.f
        # final pass: loop bodies are judged as first iterations (back edges dropped), code after a loop with the fixpoint
        loops = natural_loops(f, order, preds)
        ac = {}
        self.emit = True
        for b in order:
            st = None
            for p in preds[b]:
                if (p, b) in loops["back"]:
                    continue
                leaves = any(p in body and b not in body for body in loops["bodies"])
                src = outs if leaves or p not in ac else ac
                if p in src:
                    st = src[p] if st is None else self.join(st, src[p])
            st = st or (dict(self.init) if b == f.entry else {})
            for s in f.blocks[b]["s"]:
                if isinstance(s, int):
                    st = self.step(s, st)
            ac[b] = st
        # second final pass with the full fixpoint, for sharing events that need a previous iteration
        self.second = True
        for b in order:
            st = None
            for p in preds[b]:
                if p in outs:
                    st = outs[p] if st is None else self.join(st, outs[p])
            st = st or (dict(self.init) if b == f.entry else {})
            for s in f.blocks[b]["s"]:
                if isinstance(s, int):
                    st = self.step(s, st)


def natural_loops(f, order, preds):
    pos = {b: k for k, b in enumerate(order)}
    dom = {}
    for b in order:
        ps = [p for p in preds[b] if p in dom]
        if not ps:
            dom[b] = {b}
            continue
        d = set.intersection(*[dom[p] for p in ps])
        dom[b] = d | {b}
    back, bodies = set(), []
    for b in order:
        for s in f.blocks[b]["succ"]:
            if s is not None and s in pos and s in dom[b]:
                back.add((b, s))
                body, st = {s}, [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in preds[x] if p in pos)
                bodies.append(body)
    return {"back": back, "bodies": bodies}


def helper_summary(m, acq, fns):
    """Non-virtual functions with element out-parameters: which they need solely owned (they write components), which they leave
    as they got them, which they make sole owner on every path. usr -> {need, keep, acq: sets of positions}"""
    called = {}
    for f in m.fns.values():
        if f.entry is None:
            continue
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] in ("CallExpr", "CXXMemberCallExpr") and n.get("usr") in m.fns:
                called[n["usr"]] = called.get(n["usr"], 0) + 1
    cand = []
    for f in fns:
        if f.entry is None or f.cls in ELEM or f.usr not in called or f.usr in m.meth and m.meth[f.usr][1]["virtual"]:
            continue
        ps = [(j, p["d"]) for j, p in enumerate(f.params) if is_elem(p["t"]) and p["t"].rstrip().endswith(("*", "&")) and "const" not in p["t"]]
        if ps:
            cand.append((f, ps))
    H = {}
    for _ in range(3):
        new = {}
        for f, ps in cand:
            d = {"need": set(), "keep": set(), "acq": set()}
            pos = {q: j for j, q in ps}

            def sink(ev, node, fa):
                if ev == "component" and fa[0] == "R" and fa[2] == -1 and fa[1] in pos:
                    d["need"].add(pos[fa[1]])
            PtrFlow(m, f, sink, acq, helpers=H).run()
            for j, q in ps:
                ex = PtrFlow(m, f, None, acq, helpers=H).at_exit(q)
                if ex and all(x[0] in ("W", "E") and not x[3] for x in ex):
                    d["acq"].add(j)
                ex = PtrFlow(m, f, None, acq, helpers=H, init={"#sp:" + q: frozenset([("W", q, -2, "")])}).at_exit(q)
                if ex and all(x[0] in ("W", "E") and not x[3] for x in ex):
                    d["keep"].add(j)
            new[f.usr] = d
        if new == H:
            break
        H = new
    return H


def acquisition_summary(m):
    """Methods of the element classes that acquire the buffer of *this on every path (least fixpoint from the base operations)."""
    acq = {}
    fns = [f for f in m.fns.values() if f.cls in ELEM and f.entry is not None and not f.o["static"]]
    for _ in range(4):
        n = 0
        for f in fns:
            if f.usr in acq or f.short in BASE_ACQ:
                continue
            facts = PtrFlow(m, f, None, acq).at_exit()
            if facts and all(x[0] in ("W", "E") and not x[3] for x in facts):
                acq[f.usr] = "E" if any(x[0] == "E" for x in facts) else "W"
                n += 1
        if not n:
            break
    return acq
