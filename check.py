#!/usr/bin/env python3
"""Driver of the property checks.

  check.py C01              run the check of property C01 (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C01 --replay F   re-run a replay file
  check.py --setup          what setup_cmd does: verify the toolchain
"""
import hashlib, json, os, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LDT_REPO", "/repo")
BUILD = os.environ.get("LDT_BUILD", os.path.join(VERIF, ".build"))
OUT = os.environ.get("LDT_OUT", VERIF)  # where evidence and replay files go
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = os.cpu_count() or 4

INC = ["include", "include/math", "include/blas", "include/math/statistics",
       "include/math/statistics/inference", "include/math/statistics/inference/models"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=vptr,function,alignment,enum,float-divide-by-zero,nonnull-attribute,null,shift,object-size,pointer-overflow"]
EXCLUDED = {"matrix_la.cpp",  # included by matrix.cpp
            "mnormal.cpp", "expsmoothing.cpp", "tsfilter.cpp", "api.cpp"}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ccache_env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.environ.get("LDT_CCACHE", os.path.join(BUILD, "ccache"))
    e["CCACHE_MAXSIZE"] = "3G"
    e.pop("CCACHE_DISABLE", None)
    return e


def all_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if (f.endswith(".cpp") or f.endswith(".c")) and f not in EXCLUDED:
                r.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(r)


def compile_one(args):
    src, obj, flags = args
    if "-fopenmp" in flags:  # clang has no OpenMP runtime here
        cmd = (["ccache"] if shutil.which("ccache") else []) + ["g++", "-std=c++17", "-DUSE_BOOST", "-O1", "-g1", "-fopenmp", "-w"] + \
              ["-I" + os.path.join(REPO, i) for i in INC] + ["-c", src, "-o", obj]
        p = run(cmd, env=ccache_env())
        return src, p.returncode, p.stdout
    cc = "clang" if src.endswith(".c") else "clang++"
    cmd = ["ccache", cc] if shutil.which("ccache") else [cc]
    if not src.endswith(".c"):
        cmd += ["-std=c++17", "-DUSE_BOOST"] + ["-I" + os.path.join(REPO, i) for i in INC] + \
               ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")]
    else:
        cmd += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include/math/optimization/lbfgsb"), "-I" + os.path.join(REPO, "include/math")]
        cmd += ["-I" + os.path.dirname(src)]
    cmd += ["-w"] + flags + ["-c", src, "-o", obj]
    p = run(cmd, env=ccache_env())
    return src, p.returncode, p.stdout


def build_cpp(pid, spec, fuzz=False):
    out = os.path.join(BUILD, "cpp", pid + ("-fuzz" if fuzz else ""))
    os.makedirs(out, exist_ok=True)
    srcs = all_sources()
    if spec.get("sources"):
        keep = []
        for pat in spec["sources"]:
            m = [s for s in srcs if pat in s]
            keep += m
        srcs = sorted(set(keep))
    srcs = sorted(set(srcs + spec.get("extra", [])))
    opt = spec.get("opt", "-O1")
    flags = [opt, "-g1"] + SAN
    hflags = ["-O1", "-g1"] + SAN
    if fuzz:
        flags = flags + ["-fsanitize=fuzzer-no-link"]
        hflags = hflags + ["-DPBT_FUZZ", "-fsanitize=fuzzer-no-link"]
    # sources with OpenMP directives are compiled by g++, if a runtime is available
    omp, gomp = set(), None
    if spec.get("omp") and shutil.which("g++"):
        g = run(["g++", "-print-file-name=libgomp.so"]).stdout.strip()
        if os.path.isabs(g) and os.path.exists(g):
            gomp = g
            omp = {s for s in srcs if s.endswith(".cpp") and "#pragma omp" in open(os.path.join(REPO, s), errors="replace").read()}
            if omp:
                hflags = hflags + ["-DLDT_TEST_OPENMP"]
    jobs = []
    for h in [os.path.join(VERIF, "engine/pbt_main.cpp"), os.path.join(VERIF, "harness", spec["harness"])]:
        jobs.append((h, os.path.join(out, "h_" + os.path.basename(h) + ".o"), hflags))
    prio = []
    for s in srcs:
        p = os.path.join(REPO, s)
        prio.append((-os.path.getsize(p), p, os.path.join(out, s.replace("/", "_") + ".o")))
    prio.sort()
    jobs = jobs + [(p, o, ["-fopenmp"] if os.path.relpath(p, REPO) in omp else flags) for _, p, o in prio]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src, rc, txt in ex.map(compile_one, jobs):
            if rc:
                raise BuildError("%s does not compile:\n%s" % (src, txt[-6000:]))
    exe = os.path.join(out, "harness")
    link = ["clang++"] + (["-fsanitize=fuzzer"] if fuzz else []) + SAN + \
           (["-fuse-ld=lld"] if shutil.which("ld.lld") else []) + \
           [o for _, o, _ in jobs] + ["-o", exe, "-lblas", "-llapack", "-lpthread"] + ([gomp] if omp else [])
    p = run(link)
    if p.returncode and spec.get("sources"):  # something the listed sources need now lives elsewhere
        return build_cpp(pid, {k: v for k, v in spec.items() if k != "sources"}, fuzz)
    if p.returncode:
        raise BuildError("link failed:\n" + p.stdout[-6000:])
    return exe


def san_env():
    e = dict(os.environ)
    common = "abort_on_error=1:detect_leaks=0:symbolize=0:handle_abort=0:print_summary=1"
    e["ASAN_OPTIONS"] = common + ":max_malloc_fill_size=268435456:malloc_fill_byte=255:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = common + ":print_stacktrace=0"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    return e


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid and k.get("status") == "known"]


def write_evidence(pid, spec, res, t0, viol):
    facs = res.get("facets", [])
    samples = []
    for f in facs:
        for s in f["samples"][:2]:
            samples.append({"facet": f["name"], "case": s})
    ev = {
        "property": pid, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in facs),
            "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in facs),
            "rule": "Each facet draws cases from a choice stream seeded by VERIF_SEED. Non-trivial per facet: " +
                    "; ".join("%s: %s" % (f["name"], f["rule"]) for f in facs),
            "samples": samples,
            "facets": [{k: f[k] for k in ("name", "rule", "planned", "evaluations", "discarded", "known",
                                          "distinct_nontrivial", "labels")} for f in facs],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    if res.get("fuzz"):
        ev["coverage"]["libfuzzer"] = res["fuzz"]
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def save_replay(pid, kind, f):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((f["facet"] + f["choices"] + f["message"]).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (pid, f["facet"], h))
    with open(p, "w") as o:
        json.dump({"property": pid, "kind": kind, "facet": f["facet"], "choices": f["choices"],
                   "case": f["case"], "message": f["message"], "seed": SEED,
                   "how": "python3 check.py %s --replay %s" % (pid, os.path.relpath(p, VERIF))}, o, indent=1)
    return p


def report(pid, spec, kind, res, t0):
    viol = 0
    for f in res.get("failures", []):
        if not f.get("confirmed"):
            print("inconclusive (did not reproduce): property=%s facet=%s %s" % (pid, f["facet"], f["message"][:300]))
            continue
        p = save_replay(pid, kind, f)
        print("facet %s: %s\ncase: %s" % (f["facet"], f["message"][:1500], f["case"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        viol += 1
    for k in known_findings(pid):
        if k["id"] in res.get("known", {}):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    write_evidence(pid, spec, res, t0, viol)
    return 1 if viol else 0


def run_cpp(pid, spec, t0):
    exe = build_cpp(pid, spec)
    out = os.path.join(BUILD, "run", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tb = time.time() - t0
    cmd = [exe, "--out", out, "--seed", str(SEED), "--workers", str(JOBS),
           "--scale", str(spec.get("scale", 1) * float(os.environ.get("PBT_SCALE", "1"))), "--limit", str(spec.get("limit", 20)),
           "--known", ",".join(k["id"] for k in known_findings(pid))]
    if os.environ.get("PBT_ONLY"):
        cmd += ["--only", os.environ["PBT_ONLY"]]
    if TIER == "thorough":
        cmd.append("--thorough")
    p = subprocess.run(cmd, env=san_env())
    rp = os.path.join(out, "result.json")
    if p.returncode or not os.path.exists(rp):
        print("harness ended with %d" % p.returncode)
        return 2
    res = json.load(open(rp))
    print("build %.1fs run %.1fs" % (tb, time.time() - t0 - tb))
    for f in res["facets"]:
        print("  %-34s cases %7d nontrivial %7d discarded %5d known %d %s" % (
            f["name"], f["evaluations"], f["distinct_nontrivial"], f["discarded"], f["known"],
            json.dumps(f["labels"]) if os.environ.get("PBT_V") else ""))
    if TIER == "thorough" and not res["failures"] and spec.get("fuzz", True):
        fuzz_cpp(pid, spec, res)
    return report(pid, spec, "cpp", res, t0)


def fuzz_cpp(pid, spec, res):
    """thorough tier: a coverage-guided campaign over the same properties."""
    exe = build_cpp(pid, spec, fuzz=True)
    out = os.path.join(BUILD, "run", pid, "fuzz")
    shutil.rmtree(out, ignore_errors=True)
    secs = int(os.environ.get("PBT_FUZZ_SECS", spec.get("fuzz_secs", 240)))
    names = [f["name"] for f in res["facets"]]
    per = max(20, secs * JOBS // max(1, len(names)))

    def one(name):
        d = os.path.join(out, name)
        os.makedirs(os.path.join(d, "corpus"))
        e = san_env()
        e["PBT_FACET"] = name
        e["PBT_OUT"] = os.path.join(d, "fail.txt")
        e["PBT_KNOWN"] = ",".join(k["id"] for k in known_findings(pid))
        p = run([exe, "corpus", "-seed=%d" % (SEED or 1), "-max_total_time=%d" % per, "-max_len=4096",
                 "-print_final_stats=1", "-timeout=60", "-artifact_prefix=" + d + "/"], env=e, cwd=d)
        n = [l for l in p.stdout.splitlines() if "number_of_executed_units" in l]
        return name, int(n[-1].split()[-1]) if n else 0, os.path.join(d, "fail.txt"), p

    stats = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for name, n, ff, p in ex.map(one, names):
            stats[name] = n
            if os.path.exists(ff):
                fac, ch, msg = (open(ff).read().split("\n", 2) + ["", ""])[:3]
                exe2 = os.path.join(BUILD, "cpp", pid, "harness")
                ch = ",".join(ch.split())
                q = [subprocess.run([exe2, "--replay", fac, ch], env=san_env(), stdout=subprocess.PIPE, text=True)
                     for _ in range(3)]
                res["failures"].append({"facet": fac, "choices": ch, "message": msg, "case": q[0].stdout[:2000],
                                        "confirmed": all(x.returncode == 1 for x in q)})
    res["fuzz"] = stats


def run_r(pid, spec, t0):
    import rdriver
    res = rdriver.run_check(pid, spec, SEED, TIER, known_findings(pid))
    if res is None:
        return 2
    for f in res["facets"]:
        print("  %-34s cases %7d nontrivial %7d discarded %5d known %d %s" % (
            f["name"], f["evaluations"], f["distinct_nontrivial"], f["discarded"], f["known"],
            json.dumps(f["labels"]) if os.environ.get("PBT_V") else ""))
    return report(pid, spec, "r", res, t0)


def replay(pid, spec, path):
    r = json.load(open(path))
    if r.get("kind") == "r":
        import rdriver
        return rdriver.replay(pid, spec, r)
    exe = build_cpp(pid, spec)
    p = subprocess.run([exe, "--replay", r["facet"], r["choices"]], env=san_env())
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(path)))
    return p.returncode


def main():
    if "--setup" in sys.argv:
        for t in ("clang++", "Rscript", "python3"):
            if not shutil.which(t):
                print("missing tool: " + t)
                return 1
        print("ok")
        return 0
    pid = sys.argv[1]
    spec = CHECKS[pid]
    if spec.get("kind") == "r" and "veriftools" not in sys.executable + sys.prefix:  # the oracles need numpy
        os.execvp("python3-vt", ["python3-vt"] + sys.argv)
    t0 = time.time()
    try:
        if "--replay" in sys.argv:
            return replay(pid, spec, sys.argv[sys.argv.index("--replay") + 1])
        return run_r(pid, spec, t0) if spec.get("kind") == "r" else run_cpp(pid, spec, t0)
    except BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
