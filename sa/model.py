"""Resolved-program model of the repository, loaded from the astdump output."""
import json, os, pickle, subprocess, hashlib, shutil, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
NS = "ROPTLIB::"
FLAGS = ["-std=c++0x", "-w", "-DDRIVERCPP", "-DROPTLIB_WITH_FFTW"]


NORETURN = ("__assert_fail", "abort", "exit", "std::terminate", "std::abort", "std::exit")


class AnalysisBroken(Exception):
    """An anchor vanished / nothing to analyse: exit status 2, neither pass nor violation."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_tool():
    src = os.path.join(VERIF, "tool", "astdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "sa_build_%d" % os.getuid())):
        exe = os.path.join(d, "astdump-" + h)
        if os.access(exe, os.X_OK):
            return exe
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "sa_build_%d" % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            exe = os.path.join(d, "astdump-" + h)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh(["g++", "-O1", "-fno-rtti", "-w", "-std=c++17", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                    "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"])
            if r.returncode != 0:
                raise AnalysisBroken("cannot build astdump: " + r.stderr[-2000:])
            os.rename(tmp, exe)
            return exe
        except OSError:
            continue
    raise AnalysisBroken("no writable directory for the analyser binary")


def list_sources(repo=None):
    repo = repo or REPO
    r = sh(["make", "-s", "-f", os.path.join(VERIF, "tool", "listsrc.mk"), "ROOTPATH=" + repo, "MKREPO=" + repo, "print"])
    lines = r.stdout.strip().split("\n")
    if r.returncode != 0 or len(lines) < 2:
        raise AnalysisBroken("cannot read the source list of the Makefile: " + r.stderr[-500:])
    srcs, incs = lines[-2].split(), lines[-1].split()
    srcs = [s for s in srcs if os.path.exists(s)]
    return srcs, incs


def tree_hash(repo, fixtures):
    h = hashlib.sha256()
    fs = [os.path.join(VERIF, "tool", "astdump.cpp"), os.path.join(VERIF, "sa", "model.py"), os.path.join(repo, "Makefile")]
    for d, dn, fn in os.walk(repo):
        dn[:] = [x for x in dn if x not in (".git", "_build")]
        fs += [os.path.join(d, f) for f in fn if f.endswith((".h", ".hpp", ".cpp", ".c"))]
    fs += [os.path.join(VERIF, "sa", "fixtures", f) for f in fixtures]
    h.update(repo.encode())
    for f in sorted(fs):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

class Fn:
    def __init__(self, o):
        self.o = o
        self.name = o["name"]
        self.usr = o["usr"]
        self.file = o["file"]
        self.line = o["line"]
        self.cls = o.get("cls")
        self.params = o["params"]
        self.nodes = o["nodes"]
        self.body = o["body"]
        self.blocks = {b["i"]: b for b in o.get("blocks", [])}
        self.entry = o.get("entry")
        self.exit = o.get("exit")
        self.ret = o.get("ret")
        self._parent = None
        self._whole = None
        self.short = self.name.split("::")[-1]
        for b in self.blocks.values():      # a failed assertion does not return
            for x in b["s"]:
                if isinstance(x, int) and self.nodes[x]["k"] == "CallExpr" and self.nodes[x].get("fn", "") in NORETURN:
                    b["succ"] = []

    def rel(self):
        return os.path.relpath(self.file, REPO)

    def loc(self, nid=None):
        return "%s:%d" % (self.rel(), self.nodes[nid]["l"] if nid is not None and nid >= 0 else self.line)

    def qual(self):
        return self.name.replace(NS, "")

    def sig(self):
        return self.qual() + "(" + ", ".join(p["t"] for p in self.params).replace(NS, "") + ")"

    def children(self, i):
        """All child node ids, in evaluation-ish order."""
        n = self.nodes[i]
        out = []
        if n is None:
            return out
        for key in ("init", "cond", "inc", "obj", "calleeExpr", "size", "val"):
            v = n.get(key)
            if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
                out.append(v)
        for key in ("args", "c"):
            for v in n.get(key, []) or []:
                if v is not None and v >= 0:
                    out.append(v)
        for v in n.get("vars", []) or []:
            if "i" in v and v["i"] >= 0:
                out.append(v["i"])
        for key in ("then", "body", "else"):
            v = n.get(key)
            if isinstance(v, int) and v >= 0:
                out.append(v)
        return out

    def walk(self, i=None):
        """Pre-order traversal of the syntax tree below node i (default: whole body + ctor inits)."""
        stack = []
        if i is None:
            if self._whole is None:
                self._whole = list(self.walk("all"))
            yield from self._whole
            return
        if i == "all":
            stack = [self.body]
            for it in reversed(self.o.get("inits", [])):
                if it.get("i", -1) >= 0:
                    stack.append(it["i"])
        else:
            stack = [i]
        seen = set()
        while stack:
            x = stack.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(reversed(self.children(x)))

    def parent(self):
        if self._parent is None:
            p = {}
            for x in self.walk():
                for c in self.children(x):
                    p.setdefault(c, x)
            self._parent = p
        return self._parent

    # ---- cfg helpers
    def preds(self):
        p = {b: [] for b in self.blocks}
        for b, o in self.blocks.items():
            for s in o["succ"]:
                if s is not None and s >= 0:
                    p[s].append(b)
        return p

    def rpo(self):
        seen, out = set(), []
        if self.entry is None:
            return out
        st = [(self.entry, iter([s for s in self.blocks[self.entry]["succ"] if s >= 0]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter([x for x in self.blocks[s]["succ"] if x >= 0])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    # ---- printing
    def txt(self, i, depth=0):
        if i is None or i < 0:
            return ""
        if depth > 12:
            return "..."
        n = self.nodes[i]
        k = n["k"]
        T = lambda j: self.txt(j, depth + 1)
        if k == "DeclRefExpr":
            return n["d"].split(":")[-1] if not n["d"].startswith("F:") else n.get("fn", "?").replace(NS, "")
        if k == "MemberExpr":
            b = self.nodes[n["c"][0]] if n["c"][0] >= 0 else None
            if b is None or b["k"] == "CXXThisExpr":
                return n["mn"]
            return T(n["c"][0]) + ("->" if n.get("arrow") else ".") + n["mn"]
        if k == "CXXThisExpr":
            return "this"
        if k == "CXXMemberCallExpr":
            a = ", ".join(T(x) for x in n["args"])
            if n.get("obj") is None:
                return "(indirect)(" + a + ")"
            b = self.nodes[n["obj"]]
            pre = "" if b["k"] == "CXXThisExpr" else T(n["obj"]) + ("->" if n.get("arrow") else ".")
            return pre + n.get("fn", "?").split("::")[-1] + "(" + a + ")"
        if k == "CXXOperatorCallExpr":
            xs = ([n["obj"]] if "obj" in n else []) + n["args"]
            if len(xs) == 2:
                return T(xs[0]) + (" " + n["op"] + " " + T(xs[1]) if n["op"] not in ("[]", "()") else n["op"][0] + T(xs[1]) + n["op"][1])
            return n["op"] + "(" + ", ".join(T(x) for x in xs) + ")"
        if k == "CallExpr":
            return (n.get("fn") or T(n.get("calleeExpr", -1))).split("::")[-1] + "(" + ", ".join(T(x) for x in n["args"]) + ")"
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return n.get("t", "?").replace(NS, "") + "(" + ", ".join(T(x) for x in n["args"]) + ")"
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return "(" + T(n["c"][0]) + " " + n["op"] + " " + T(n["c"][1]) + ")"
        if k == "UnaryOperator":
            return (T(n["c"][0]) + n["op"][4:]) if n["op"].startswith("post") else n["op"] + T(n["c"][0])
        if k == "ArraySubscriptExpr":
            return T(n["c"][0]) + "[" + T(n["c"][1]) + "]"
        if "v" in n:
            return json.dumps(n["v"])
        if k == "ConditionalOperator":
            return "(" + T(n["c"][0]) + " ? " + T(n["c"][1]) + " : " + T(n["c"][2]) + ")"
        if k == "CXXNullPtrLiteralExpr":
            return "nullptr"
        if k == "CXXNewExpr":
            return "new " + n["nt"].replace(NS, "") + ("[" + T(n.get("size", -1)) + "]" if n["array"] else "")
        if k == "DeclStmt":
            return "; ".join(v["t"].replace(NS, "") + " " + v["n"] + (" = " + T(v["i"]) if "i" in v else "") for v in n["vars"])
        if n.get("c") and "ck" in n:
            return T(n["c"][0])
        if k == "ReturnStmt":
            return "return " + (T(n["c"][0]) if n.get("c") else "")
        return k + ("(" + ", ".join(T(x) for x in n.get("c", [])) + ")" if n.get("c") else "")


class Model:
    def __init__(self):
        self.fns = {}       # usr -> Fn
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.units = []

    # ---------- loading
    @staticmethod
    def dump(srcs, incs, flags, outdir, root):
        exe = build_tool()

        def one(s):
            out = os.path.join(outdir, hashlib.md5(s.encode()).hexdigest() + ".jsonl")
            r = sh([exe, root, out, s, "--"] + flags + incs)
            return s, out, r
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, srcs))

    @classmethod
    def load(cls, repo=None, fixtures=(), only=None):
        """Parse the current working tree (cached by the content of every source and header)."""
        repo = repo or REPO
        key = tree_hash(repo, fixtures)
        cf = os.path.join(VERIF, "build", "model-%s.pickle" % key)
        if only is None and os.path.exists(cf):
            try:
                m = pickle.load(open(cf, "rb"))
                m.finish()
                if m.fixture:
                    m.fixture.finish()
                return m
            except Exception:
                pass
        m = cls.load_now(repo, fixtures, only)
        try:
            os.makedirs(os.path.dirname(cf), exist_ok=True)
            old = sorted((f for f in os.listdir(os.path.dirname(cf)) if f.startswith("model-")), key=lambda f: os.path.getmtime(os.path.join(os.path.dirname(cf), f)))
            for f in old[:-5]:
                os.unlink(os.path.join(os.path.dirname(cf), f))
            with open(cf + ".tmp%d" % os.getpid(), "wb") as fh:
                pickle.dump(m, fh, protocol=4)
            os.rename(cf + ".tmp%d" % os.getpid(), cf)
        except OSError:
            pass
        return m

    @classmethod
    def load_now(cls, repo=None, fixtures=(), only=None):
        repo = repo or REPO
        srcs, incs = list_sources(repo)
        if len(srcs) < 40:
            raise AnalysisBroken("only %d sources found" % len(srcs))
        if only:
            srcs = [s for s in srcs if only(s)]
        m = cls()
        d = tempfile.mkdtemp(prefix="sa_dump_")
        try:
            res = cls.dump(srcs, incs, FLAGS, d, repo)
            bad = [(s, r.stderr[-1500:]) for s, o, r in res if r.returncode != 0]
            if bad:
                raise AnalysisBroken("unit does not parse: %s\n%s" % bad[0])
            for s, o, r in res:
                m.units.append(s)
                m.read(o)
            m.fixture = None
            if fixtures:
                fx = cls()
                fx.__dict__.update({k: (dict(v) if isinstance(v, dict) else v) for k, v in m.__dict__.items()})
                fx.own = set()
                for s, o, r in cls.dump([os.path.join(VERIF, "sa", "fixtures", f) for f in fixtures], incs, FLAGS, d, os.path.join(VERIF, "sa", "fixtures")):
                    if r.returncode != 0:
                        raise AnalysisBroken("fixture does not parse against the current headers: %s\n%s" % (s, r.stderr[-1500:]))
                    fx.own |= fx.read(o)
                fx.finish()
                m.fixture = fx
        finally:
            shutil.rmtree(d, ignore_errors=True)
        m.finish()
        return m

    def read(self, path):
        new = set()
        with open(path) as f:
            for ln in f:
                o = json.loads(ln)
                r = o["rec"]
                if r == "fn":
                    if o["usr"] not in self.fns:
                        self.fns[o["usr"]] = Fn(o)
                        new.add(o["usr"])
                elif r == "class":
                    self.classes.setdefault(o["name"], o)
                elif r == "enum":
                    self.enums.setdefault(o["name"], o)
                else:
                    self.globals.setdefault(o["name"], o)
        return new

    def finish(self):
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f.name, []).append(f)
        self.meth = {}       # usr -> (class, method record)
        for c in self.classes.values():
            for me in c["methods"]:
                self.meth[me["usr"]] = (c["name"], me)
        self.subs = {}
        for c in self.classes.values():
            for b in c["bases"]:
                self.subs.setdefault(b, []).append(c["name"])
        # root declarations of each virtual method
        self._roots = {}
        self._overriders = {}
        for u in self.meth:
            for r in self.roots(u):
                self._overriders.setdefault(r, set()).add(u)

    def roots(self, usr):
        if usr in self._roots:
            return self._roots[usr]
        if usr not in self.meth:
            return {usr}
        ov = self.meth[usr][1]["overrides"]
        if not ov:
            r = {usr}
        else:
            r = set()
            for x in ov:
                r |= self.roots(x)
        self._roots[usr] = r
        return r

    def bases(self, cls, out=None):
        """cls and all its base classes, nearest first."""
        out = [] if out is None else out
        if cls in out or cls not in self.classes:
            return out
        out.append(cls)
        for b in self.classes[cls]["bases"]:
            self.bases(b, out)
        return out

    def derived(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop()
            if c in out:
                continue
            out.append(c)
            st.extend(self.subs.get(c, []))
        return out

    def resolve(self, usr, dyn_cls):
        """Method body run by a virtual call on an object of dynamic class dyn_cls."""
        rs = self.roots(usr)
        for c in self.bases(dyn_cls):
            for me in self.classes[c]["methods"]:
                if me["usr"] == usr or (self.roots(me["usr"]) & rs):
                    return self.fns.get(me["usr"])
        return self.fns.get(usr)

    def targets(self, usr):
        """All bodies a virtual call may reach (class-hierarchy analysis)."""
        s = set()
        for r in self.roots(usr):
            s |= self._overriders.get(r, {r})
        return [self.fns[u] for u in s if u in self.fns]

    def cls_methods(self, cls, name):
        c = self.classes.get(cls)
        return [m for m in c["methods"] if m["name"] == name] if c else []

    def find(self, qual):
        return self.by_name.get(NS + qual, [])

    def need(self, qual):
        r = self.find(qual)
        if not r:
            raise AnalysisBroken("anchor vanished: function %s" % qual)
        return r

    def need_class(self, name):
        c = self.classes.get(NS + name)
        if not c:
            raise AnalysisBroken("anchor vanished: class %s" % name)
        return c

    def repo_fns(self, sub=None):
        for f in self.fns.values():
            if f.file.startswith(REPO + "/") and (sub is None or any(f.rel().startswith(s) for s in sub)):
                yield f
