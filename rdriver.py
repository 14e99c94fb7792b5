"""Checks of the R packages: builds tdata and ldt from the working tree and runs the facets of rchecks/."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, multiprocessing, os, re, shutil, subprocess, sys, time

import check as drv

FLAT_OUT = {"matrix_la.cpp"}  # included by matrix.cpp


def sh(cmd, env, cwd=None):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def put(src, dst):
    """copy by content, so that make rebuilds only what changed"""
    d = open(src, "rb").read()
    if not os.path.exists(dst) or open(dst, "rb").read() != d:
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "wb") as f:
            f.write(d)


ROXY = r'''
options(keep.source = TRUE)
dst <- commandArgs(TRUE)[1]
Rcpp::compileAttributes(dst)
roxygen2::roxygenise(dst, roclets = "namespace", load_code = function(path) {
  env <- roxygen2::load_source(path)
  for (f in list.files(file.path(path, "data"), "[.]rda$", full.names = TRUE)) load(f, envir = env)
  env
})
'''


def stage(name, pkgdir, root):
    dst = os.path.join(root, name)
    want = set()
    src = os.path.join(drv.REPO, pkgdir)
    for d, ds, fs in os.walk(src):
        rel = os.path.relpath(d, src)
        ds[:] = [x for x in ds if not (rel == "." and x in ("tests", "vignettes", "man", "data-raw", ".Rproj.user"))]
        for f in fs:
            if rel == "src" and not (f.startswith("r_") or f == "Makevars"):
                continue  # copies made by an earlier build of the repository
            if rel == "." and f in ("NAMESPACE", ".Rprofile") or f.endswith((".o", ".so", ".d")) or f.startswith("RcppExports"):
                continue
            put(os.path.join(d, f), os.path.normpath(os.path.join(dst, rel, f)))
            want.add(os.path.normpath(os.path.join(dst, rel, f)))
    for s in drv.all_sources():
        if name == "tdata" and not (s.startswith(("src/variable/", "src/frequency/")) or s in ("src/helpers.cpp", "src/array.cpp")):
            continue
        p = os.path.join(dst, "src", os.path.basename(s))
        put(os.path.join(drv.REPO, s), p)
        want.add(p)
    extra = [os.path.join(drv.REPO, "src/matrix/matrix_la.cpp")] if name == "ldt" else []
    for p in extra:  # an included source: not compiled by itself
        if os.path.exists(p):
            put(p, os.path.join(dst, "src", os.path.basename(p)))
            want.add(os.path.join(dst, "src", os.path.basename(p)))
    for d, _, fs in os.walk(os.path.join(drv.REPO, "include")):
        for f in fs:
            if f.endswith((".h", ".hpp")):
                p = os.path.join(dst, "src", f)
                put(os.path.join(d, f), p)
                want.add(p)
    for s in glob.glob(os.path.join(drv.REPO, "src/**/*.h"), recursive=True):
        p = os.path.join(dst, "src", os.path.basename(s))
        put(s, p)
        want.add(p)
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if p not in want and not f.endswith((".o", ".so", ".d")) and not f.startswith("RcppExports") and f != "NAMESPACE":
                os.remove(p)
    for o in glob.glob(os.path.join(dst, "src/*.o")) + glob.glob(os.path.join(dst, "src/*.d")):
        b = os.path.splitext(o)[0]
        if not any(os.path.exists(b + x) for x in (".cpp", ".c")):
            os.remove(o)
    return dst


def digest(dst):
    h = hashlib.sha1()
    for d, ds, fs in sorted(os.walk(dst)):
        for f in sorted(fs):
            if not f.endswith((".o", ".so", ".d")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, dst).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def build():
    root = os.path.join(drv.BUILD, "R")
    os.makedirs(os.path.join(root, "lib"), exist_ok=True)
    lock = open(os.path.join(root, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    lib = os.path.join(root, "lib")
    cc = "ccache " if shutil.which("ccache") else ""
    mk = os.path.join(root, "Makevars")
    with open(mk, "w") as f:
        f.write(".DEFAULT_GOAL := all\nCC = %sgcc\nCXX17 = %sg++ -std=gnu++17\nCXX17STD =\nCXX17FLAGS = -g0 -O1 -MMD -w\nCFLAGS = -g0 -O1 -MMD -w\n-include $(wildcard *.d)\n" % (cc, cc))
    rx = os.path.join(root, "roxy.R")
    open(rx, "w").write(ROXY)
    env = drv.ccache_env()
    env.update(R_LIBS=lib, R_MAKEVARS_USER=mk, R_PROFILE_USER="", R_ENVIRON_USER="", MAKEFLAGS="-j%d" % drv.JOBS, LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC")
    prev = ""
    for name, pkg in (("tdata", "Rpackage_F"), ("ldt", "Rpackage")):
        dst = stage(name, pkg, root)
        stamp = os.path.join(root, name + ".stamp")
        dg = digest(dst) + prev
        if os.path.isdir(os.path.join(lib, name)) and os.path.exists(stamp) and open(stamp).read() == dg:
            prev = dg
            continue
        if os.path.exists(stamp):
            os.remove(stamp)
        shutil.rmtree(os.path.join(lib, name), ignore_errors=True)
        ns = os.path.join(dst, "NAMESPACE")
        if not os.path.exists(ns):
            open(ns, "w").write("# Generated by roxygen2: do not edit by hand\n")
        p = sh(["Rscript", "--vanilla", rx, dst], env)
        if p.returncode:
            raise drv.BuildError("roxygen of %s failed:\n%s" % (name, p.stdout[-4000:]))
        put(os.path.join(drv.REPO, pkg, "DESCRIPTION"), os.path.join(dst, "DESCRIPTION"))
        p = sh(["R", "CMD", "INSTALL", "--no-docs", "--no-staged-install", "--no-test-load", "--no-byte-compile", "--library=" + lib, dst], env)
        if p.returncode or not os.path.isdir(os.path.join(lib, name)):
            raise drv.BuildError("R package %s does not install:\n%s" % (name, p.stdout[-6000:]))
        dg = digest(dst) + prev
        open(stamp, "w").write(dg)
        prev = dg
    return lib


def run_check(pid, spec, seed, tier, known):
    from rchecks import engine
    t0 = time.time()
    lib = build()
    tb = time.time() - t0
    modname = "rchecks." + spec["module"]
    __import__(modname)
    scale = spec.get("scale", 1) * float(os.environ.get("PBT_SCALE", "1")) * (12 if tier == "thorough" else 1)
    deadline = time.time() + (780 if tier == "thorough" else spec.get("secs", 240))
    workers = spec.get("workers", drv.JOBS)  # more than the processors where searches sleep
    jobs = []
    for name, (f, rule, count) in engine.FACETS.items():
        if os.environ.get("PBT_ONLY") and os.environ["PBT_ONLY"] != name:
            continue
        n = max(1, int(count * scale))
        chunk = max(1, -(-n // max(workers, drv.JOBS * 2)))
        for st in range(0, n, chunk):
            jobs.append((modname, lib, name, seed, st, min(chunk, n - st), deadline))
    # interleave facets
    jobs.sort(key=lambda j: (j[4] / max(1, j[5]), j[2]))
    facs = {}
    for j in jobs:
        f = facs.setdefault(j[2], dict(name=j[2], rule=engine.FACETS[j[2]][1], planned=0, evaluations=0, discarded=0, known=0, distinct_nontrivial=0, labels={}, samples=[], keys=set()))
        f["planned"] += j[5]
    failures = {}
    ctx = multiprocessing.get_context("fork")
    for name in facs:
        engine.FAILED[name] = ctx.Value("i", 0)
    with ctx.Pool(workers, maxtasksperchild=1) as pool:
        for o in pool.imap_unordered(engine.job, jobs):
            f = facs[o["name"]]
            f["evaluations"] += o["evaluations"]
            f["discarded"] += o["discarded"]
            f["keys"] |= o["keys"]
            f["samples"] = (f["samples"] + o["samples"])[:3]
            for l, k in o["labels"].items():
                f["labels"][l] = f["labels"].get(l, 0) + k
            if o["failure"]:
                b = failures.get(o["name"])
                x = o["failure"]
                if b is None or (x["confirmed"], -len(x["choices"])) > (b["confirmed"], -len(b["choices"])):
                    failures[o["name"]] = x
    for f in facs.values():
        f["distinct_nontrivial"] = len(f.pop("keys"))
    print("build %.1fs run %.1fs" % (tb, time.time() - t0 - tb))
    return dict(facets=list(facs.values()), failures=list(failures.values()), known={})


def replay(pid, spec, r):
    from rchecks import engine
    lib = build()
    __import__("rchecks." + spec["module"])
    w = engine.Worker(lib)
    o, msg, c, s = w.run(r["facet"], choices=[int(x) for x in r["choices"].split()])
    w.close()
    print("\n".join(c.code))
    print(o, msg)
    if o == "fail":
        print("VIOLATION property=%s replay=%s" % (pid, r.get("path", "")))
        return 1
    return 0
