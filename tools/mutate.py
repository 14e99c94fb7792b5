#!/usr/bin/env python3
"""Random small mutations of a source file, to see what a check misses.
usage: mutate.py PROP FILE N [SEED] [FROM-TO]   (FILE relative to the repository)
Prints the mutants which compile and which the quick check does not report. Works in /tmp/mut only."""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
prop, f, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
lo, hi = (map(int, sys.argv[5].split("-"))) if len(sys.argv) > 5 else (1, 10 ** 9)
repo = os.environ.get("LDT_REPO", "/repo")
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = open(f"{repo}/{f}").read().split("\n")
RULES = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]),
         (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
         (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"\b2\.0\b", ["3.0"]), (r"\b1\.0\b", ["2.0"]), (r"\b0\.5\b", ["0.25"]), (r"!(?=[\w(])", [""]), (r"RowsCount", ["ColsCount"]), (r"ColsCount", ["RowsCount"]),
         (r"std::max", ["std::min"]), (r"std::min", ["std::max"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"]), (r"-(?=[a-zA-Z(])", [""])]
cands = []
incomment = False
for i, l in enumerate(lines, 1):
    t = l.strip()
    if "/*" in t: incomment = True
    if incomment:
        if "*/" in t: incomment = False
        continue
    if not (lo <= i <= hi) or t.startswith(("//", "#", "throw", '"', "template", "using", "auto temp")) or "LdtException" in t or not t: continue
    code = l.split("//")[0]
    for r, outs in RULES:
        for m in re.finditer(r, code):
            for o in outs: cands.append((i, l[:m.start()] + o + l[m.end():]))
    if re.match(r"^\s+[\w.\[\]>-]+( [-+*/]?= |\(|\+\+|--).*;$", code.rstrip()) : cands.append((i, re.match(r"\s*", l).group() + ";"))
random.Random(seed).shuffle(cands)
cands = cands[:n]
def run(a):
    k, (i, new) = a
    slot = f"/tmp/mut/{os.getpid()}-{k}"
    shutil.rmtree(slot, ignore_errors=True); os.makedirs(slot)
    for d in ("src", "include", "Rpackage", "Rpackage_tdata"):
        if os.path.exists(f"{repo}/{d}"): subprocess.check_call(["cp", "-a", f"{repo}/{d}", f"{slot}/{d}"])
    ls = list(lines); ls[i - 1] = new
    open(f"{slot}/{f}", "w").write("\n".join(ls))
    env = dict(os.environ, LDT_REPO="/repo", LDT_BUILD=f"{slot}/.b", LDT_OUT=f"{slot}/.o", LDT_CCACHE="/tmp/mut/ccache", VERIF_SEED="1", VERIF_TIER="quick")
    try:
        p = subprocess.run(["unshare", "-Urm", "sh", "-c", f"mount --bind {slot} /repo && exec python3 {verif}/check.py {prop}"], env=env, capture_output=True, text=True, timeout=900)
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        rc, out = 99, "timeout"
    shutil.rmtree(slot)
    v = re.findall(r"facet (\S+?):", out)
    return i, lines[i - 1].strip(), new.strip(), rc, v
surv = caught = nocomp = 0
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for i, old, new, rc, v in ex.map(run, enumerate(cands)):
        if rc == 1: caught += 1
        elif rc == 0:
            surv += 1; print(f"SURVIVED {f}:{i}\n   {old}\n   {new}", flush=True)
        else: nocomp += 1
print(f"{prop} {f}: caught {caught}, survived {surv}, did not compile / no answer {nocomp}")
