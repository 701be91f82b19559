#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]
Decides one property of /repo's current working tree by static analysis.
exit 0: holds on everything analysed (known findings are printed as KNOWN-FINDING lines)
exit 1: VIOLATION line(s)
exit 2: the analysis itself is broken (anchor vanished, nothing to analyse, unparsable unit)"""
import argparse, importlib, json, os, re, shutil, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
from model import Model, AnalysisBroken, REPO
import report


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?", default="")
    ap.add_argument("--setup", action="store_true", help="build the analyser")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--list", action="store_true", help="print every obligation")
    a = ap.parse_args()
    if a.setup:
        from model import build_tool
        print(build_tool())
        return 0
    pid = a.property.upper()
    t0 = time.time()
    mods = [f[:-3] for f in os.listdir(os.path.join(HERE, "sa", "checks")) if f.startswith(pid.lower() + "_") and f.endswith(".py")]
    if len(mods) != 1:
        print("error: no check for", pid)
        return 2
    ctx = report.Ctx(pid, a.tier)
    try:
        mod = importlib.import_module("checks." + mods[0])
        m = Model.load(fixtures=getattr(mod, "FIXTURES", ())) if getattr(mod, "NEEDS_MODEL", True) else None
        mod.run(m, ctx)
        ctx.finish_checks(getattr(mod, "MINIMUM", {}))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    return ctx.emit(time.time() - t0, a.list)


if __name__ == "__main__":
    sys.exit(main())
