"""Specialised operations really replace the generic ones."""
import json, os
from model import NS, AnalysisBroken, VERIF
from util import *

FIXTURES = ("hidden.cpp",)
MINIMUM = {"P14.override": 203, "P14.resolve": 150, "P14.selftest": 1}
ROOTS = ("Manifold", "Problem", "Solvers")      # the interfaces a user extends


def hidden(m, classes):
    """(class, method, base, base method) for every method that has the name of an inherited virtual method, yet
    neither overrides a method of that base nor is one of several overloads of a name the class also overrides."""
    for cn in classes:
        c = m.classes[cn]
        short = cn.split("::")[-1]
        over = {}
        for me in c["methods"]:
            if me["virtual"] or me["overrides"]:
                for b in me["overrides"]:
                    over.setdefault(me["name"], set()).update(m.roots(b))
        for me in c["methods"]:
            if me["name"].startswith(("~", "operator")) or me["name"] == short or me.get("implicit") or me.get("static"):
                continue
            for b in m.bases(cn)[1:]:
                for bm in m.classes[b]["methods"]:
                    if bm["name"] == me["name"] and bm["virtual"] and len(bm["params"]) == len(me["params"]):
                        if me["overrides"]:
                            yield cn, me, b, bm, True
                        elif m.roots(bm["usr"]) <= over.get(me["name"], set()):
                            yield cn, me, b, bm, True        # an extra overload; the virtual one is overridden too
                        else:
                            yield cn, me, b, bm, False


def run(m, ctx):
    ctx.rule("P14.override", "a method named like an inherited virtual method overrides it (same parameter types and constness): calls through the base interface reach it")
    ctx.rule("P14.resolve", "for every concrete class, the operations it specialises resolve to its own (or its intermediate base's) body, not to the generic default")
    ctx.rule("P14.selftest", "the rule fires on a fixture with a hidden virtual method")
    classes = []
    for r in ROOTS:
        m.need_class(r)
        classes += [c for c in m.derived(NS + r) if c.startswith(NS)]
    seen = set()
    for cn, me, b, bm, ok in hidden(m, sorted(set(classes))):
        key = "%s::%s(%s)%s" % (cn.replace(NS, ""), me["name"], ", ".join(p["t"] for p in me["params"]).replace(NS, ""), " const" if me["const"] else "")
        if (key, ok) in seen:
            continue
        seen.add((key, ok))
        ctx.check(ok, "P14.override", key, "%s:%d" % (os.path.relpath(m.classes[cn]["file"], os.environ.get("SA_REPO", "/repo")), me["line"]),
                  "hides the virtual method of %s instead of overriding it: calls through %s& run the generic body" % (b.replace(NS, ""), b.replace(NS, "")))
    tab = json.load(open(os.path.join(VERIF, "sa", "tables", "overrides.json")))
    for cn, ops in tab.items():
        if NS + cn not in m.classes:
            raise AnalysisBroken("class %s vanished" % cn)
        for op in ops:
            root, name, np = op.split("|")
            rc = m.need_class(root)
            cand = [me for me in rc["methods"] if me["name"] == name and me["virtual"] and len(me["params"]) == int(np)]
            if not cand:
                raise AnalysisBroken("virtual method %s::%s vanished" % (root, name))
            for bm in cand:
                d = None
                for c in m.bases(NS + cn):
                    for me in m.classes[c]["methods"]:
                        if me["usr"] == bm["usr"] or (m.roots(me["usr"]) & m.roots(bm["usr"])):
                            d = c
                            break
                    if d:
                        break
                ctx.check(d is not None and d != NS + root, "P14.resolve", "%s.%s" % (cn, name), "%s:%d" % (os.path.relpath(m.classes[NS + cn]["file"], "/repo"), m.classes[NS + cn]["line"]),
                          "%s of %s resolves to the generic %s::%s" % (name, cn, root, name))
    fx = [x for x in hidden(m.fixture, [NS + "FxHiddenManifold"]) if not x[4]]
    ctx.need(len(fx) == 1, "the hidden-virtual rule no longer fires on its fixture")
    ctx.ok("P14.selftest", "FxHiddenManifold")
    ctx.facts["classes"] = len(set(classes))


def discover(m):
    out = {}
    for r in ROOTS:
        for cn in m.derived(NS + r):
            if cn == NS + r or not cn.startswith(NS):
                continue
            ops = []
            for bm in m.classes[NS + r]["methods"]:
                if not bm["virtual"] or bm["name"].startswith("~") or bm["pure"]:
                    continue
                for c in m.bases(cn):
                    if any(me["usr"] == bm["usr"] or (m.roots(me["usr"]) & m.roots(bm["usr"])) for me in m.classes[c]["methods"]):
                        if c != NS + r:
                            ops.append("%s|%s|%d" % (r, bm["name"], len(bm["params"])))
                        break
            out[cn.replace(NS, "")] = ops
    return out
