#!/usr/bin/env python3
"""Author and validate planted bugs.

  seed.py new ID PROP 'needs' 'breaks' FILE OLD NEW [OLD NEW ...]   write patch.diff + meta.json (demo.sh is written by hand)
  seed.py test ID...      for each: in a private copy of /repo bind-mounted over /repo (user namespace), run
                          demo unpatched, apply, build, stable suite, demo patched, the property's quick check
"""
import json, os, subprocess, sys, shutil
V = "/verif"
S = V + "/seeded"
stable = None

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def new(a):
    id, prop, needs, breaks, f = a[:5]
    t = open("/repo/" + f).read()
    orig = t
    for o, n in zip(a[5::2], a[6::2]):
        assert t.count(o) == 1, (t.count(o), o)
        t = t.replace(o, n)
    d = f"{S}/{id}"
    os.makedirs(d, exist_ok=True)
    tmp = "/tmp/seed_" + id
    for side, c in (("a", orig), ("b", t)):
        os.makedirs(os.path.dirname(f"{tmp}/{side}/{f}"), exist_ok=True)
        open(f"{tmp}/{side}/{f}", "w").write(c)
    p = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=tmp, text=True, stdout=subprocess.PIPE).stdout
    root = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    old = sh(f"git -C /repo show {root}:{f}").stdout.split("\n")
    for l in p.split("\n"):
        if l.startswith("-") and not l.startswith("---") and l[1:] not in old:
            print(id, "NOT AN ORIGINAL LINE:", l)
    if os.path.exists(d + "/patch.diff") and os.environ.get("APPEND"):
        p = open(d + "/patch.diff").read() + p
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)

def test(ids, slot):
    copy = f"/tmp/sd/{slot}"
    os.makedirs("/tmp/sd", exist_ok=True)
    for id in ids:
        sh(f"rm -rf {copy}; cp -a /repo {copy}; rm -rf /tmp/sd/vb_{slot}")
        meta = json.load(open(f"{S}/{id}/meta.json"))
        pid = meta["property"]
        demo = f"/tmp/sd/demo_{slot}"
        sh(f"rm -rf {demo}; cp -a {S}/{id} {demo}; rm {demo}/patch.diff {demo}/meta.json")
        script = f"""
mount --bind {copy} /repo; cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >/tmp/sd/log_{slot} 2>&1 || echo BUILD0-FAIL
bash {demo}/demo.sh >/tmp/sd/demo0_{slot} 2>&1; echo "demo clean rc=$?"
git apply {S}/{id}/patch.diff || echo APPLY-FAIL
if [ -z "$NOSUITE" ]; then bash /opt/vp/test.sh /tmp/sd/out_{slot}.json >/tmp/sd/log_{slot} 2>&1 || echo TEST-RC $?; python3 /tmp/cmp.py /tmp/sd/out_{slot}.json;
else bash /opt/vp/build.sh >/tmp/sd/log_{slot} 2>&1 || echo BUILD-FAIL; fi
bash {demo}/demo.sh >/tmp/sd/demo1_{slot} 2>&1; echo "demo patched rc=$?"; tail -3 /tmp/sd/demo1_{slot}
cd /verif; LDT_BUILD=/tmp/sd/vb_{slot} LDT_EVIDENCE=/tmp/sd/ev_{slot} VERIF_SEED=1 python3 /verif/check.py {pid} > /tmp/sd/check_{slot} 2>&1; echo "check rc=$?"; grep VIOLATION /tmp/sd/check_{slot} | head -3; tail -2 /tmp/sd/check_{slot}
"""
        open(f"/tmp/sd/run_{slot}.sh", "w").write(script)
        r = sh(f"unshare -Urm bash /tmp/sd/run_{slot}.sh")
        print(f"== {id} ({pid})\n{r.stdout}", flush=True)
    sh(f"rm -rf {copy} /tmp/sd/vb_{slot}")

if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2:])
    else:
        test(sys.argv[2:], os.environ.get("SLOT", "s0"))
