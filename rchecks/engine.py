"""Property-based testing of the R packages: choice streams, shrinking, a persistent R process per worker."""
import traceback
import re, base64, json, math, os, random, subprocess, sys, time, hashlib, select
import numpy as np

FACETS = {}


class Fail(Exception):
    pass


class Discard(Exception):
    pass


class RError(Exception):
    pass


class RCrash(Exception):
    pass


class RTimeout(Exception):
    pass


def facet(name, rule, count):
    def deco(f):
        FACETS[name] = (f, rule, count)
        return f
    return deco


class V:
    """an atomic vector"""
    def __init__(self, j):
        self.type = j["t"]
        v = j["v"]
        if self.type == "double":
            self.na = [x == "NA" for x in v]
            self.v = np.array([float("nan") if x == "NA" else float(x) for x in v])
        elif self.type == "integer":
            self.na = [x is None for x in v]
            self.v = np.array([float("nan") if x is None else float(x) for x in v])
        elif self.type == "logical":
            self.v = [None if x is None else x == "TRUE" for x in v]
        else:
            self.v = v
        self.names = j.get("n") or None
        self.cls = j.get("c") or []
        self.dim = j.get("d") or None
        self.a = {k: dec(x) for k, x in (j.get("a") or {}).items()}
        dn = j.get("dn") or [None, None]
        if isinstance(dn, dict):
            dn = list(dn.values())
        self.rownames, self.colnames = (list(dn) + [None, None])[:2]

    @property
    def m(self):
        return np.array(self.v, dtype=float if self.type != "character" else object).reshape(self.dim[::-1]).T

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[self.names.index(i)] if isinstance(i, str) else self.v[i]

    def __repr__(self):
        return "V(%s%s%s)" % (list(self.v), "" if not self.names else " names " + str(self.names), "" if not self.dim else " dim " + str(self.dim))


class L:
    """a list"""
    def __init__(self, j):
        self.names = j.get("n") or None
        self.cls = j.get("c") or []
        self.v = [dec(x) for x in j["v"]]
        self.rownames = j.get("rn")
        self.a = {k: dec(x) for k, x in (j.get("a") or {}).items()}

    def __len__(self):
        return len(self.v)

    def __contains__(self, k):
        return bool(self.names) and k in self.names

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.v[self.names.index(i)] if self.names and i in self.names else None
        return self.v[i]

    def get(self, *path):
        x = self
        for p in path:
            x = x[p]
        return x

    def __repr__(self):
        return "L(%s)" % (dict(zip(self.names, self.v)) if self.names else self.v)


class Other:
    def __init__(self, j):
        self.cls = j.get("c") or []


def dec(j):
    if j is None or j["t"] == "null":
        return None
    return L(j) if j["t"] == "list" else Other(j) if j["t"] == "other" else V(j)


def num(x):
    """an R literal of a number"""
    if isinstance(x, (bool, np.bool_)):
        return "TRUE" if x else "FALSE"
    if isinstance(x, (int, np.integer)):
        return "%d" % x
    if x is None or isinstance(x, str) and x == "NA":
        return "NA"
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "Inf" if x > 0 else "-Inf"
    return repr(float(x))


def st(x):
    return "NA_character_" if x is None else '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'


def vec(xs, lit=num):
    xs = list(xs)
    return "c(" + ",".join(lit(x) for x in xs) + ")" if xs else ("character(0)" if lit is st else "numeric(0)")


def svec(xs):
    return vec(xs, st)


def ivec(xs):
    xs = list(xs)
    return "c(" + ",".join("%dL" % x for x in xs) + ")" if xs else "integer(0)"


def rlist(xs, lit):
    return "list(" + ",".join(lit(x) for x in xs) + ")"


def mat(a, cols=None, rows=None):
    a = np.asarray(a, dtype=float)
    dn = "" if cols is None and rows is None else ", dimnames=list(%s,%s)" % ("NULL" if rows is None else svec(rows), "NULL" if cols is None else svec(cols))
    return "matrix(%s,%d,%d%s)" % (vec(a.T.reshape(-1)), a.shape[0], a.shape[1], dn)


class RProc:
    def __init__(self, lib):
        e = dict(os.environ)
        e.update(R_LIBS=lib, R_PROFILE_USER="", R_ENVIRON_USER="", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8", TZ="UTC", MALLOC_PERTURB_="165")
        self.p = subprocess.Popen(["Rscript", "--vanilla", os.path.join(os.path.dirname(os.path.abspath(__file__)), "server.R")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
        self.buf = b""

    def reset(self):
        try:
            self.p.stdin.write(b"reset\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            raise RCrash("the R process ended")

    def line(self, timeout, end):
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                raise RTimeout("no answer in %d s" % timeout)
            d = os.read(fd, 1 << 16)
            if not d:
                self.p.wait()
                raise RCrash("the R process ended (code %s)" % self.p.returncode)
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def eval(self, code, timeout):
        try:
            self.p.stdin.write(base64.b64encode(code.encode()) + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            raise RCrash("the R process ended")
        end = time.time() + timeout
        while True:
            l = self.line(timeout, end)
            if l.startswith(b"\x01R:"):
                return json.loads(l[3:].decode("utf-8", "replace"))

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class Ctx:
    def __init__(self, proc, timeout=60):
        self.proc, self.timeout = proc, timeout
        self.code = []
        self.warnings = []
        self.labels = {}
        self.nt = False

    def R(self, code):
        self.code.append(code)
        j = self.proc.eval(code, self.timeout)
        self.warnings = j.get("w") or []
        if "e" in j and j["e"] is not None:
            m = re.search(r"object .([\w.]+). not found", j["e"])
            if m and "ldt:::" + m.group(1) in code:
                raise Discard()  # an internal function that does not exist (anymore): nothing to check
            raise RError(j["e"])
        return dec(j.get("v"))

    def err(self, code):
        """the message if the code stops, otherwise None"""
        try:
            self.R(code)
        except RError as e:
            return str(e) or "error"
        return None

    def label(self, l):
        self.labels[l] = 1

    def nontrivial(self, b=True):
        self.nt = bool(b)


class Src:
    def __init__(self, seed=None, choices=None):
        self.rnd = random.Random(seed) if choices is None else None
        self.given = choices
        self.used = []

    def draw(self, n):
        if n < 1:
            raise Discard()
        i = len(self.used)
        if self.given is None:
            v = self.rnd.randrange(n)
        else:
            v = self.given[i] if i < len(self.given) else 0
            v = v if v < n else v % n
        self.used.append(v)
        return v

    def range(self, a, b):
        return a + self.draw(b - a + 1)

    def coin(self):
        return self.draw(2) == 1

    def chance(self, a, b):
        return self.draw(b) >= b - a

    def pick(self, xs):
        return xs[self.draw(len(xs))]

    def unif(self, a=0.0, b=1.0):
        return a + (b - a) * (self.draw(1 << 30) / float(1 << 30))

    def norm(self):
        u = 1 - self.unif()
        return round(math.sqrt(-2 * math.log(u)) * math.cos(2 * math.pi * self.unif()), 4)

    def perm(self, n):
        r = list(range(n))
        for i in range(n - 1):
            j = i + self.draw(n - i)
            r[i], r[j] = r[j], r[i]
        return r

    def subset(self, n, k):
        return self.perm(n)[:k]


def check(cond, msg):
    if not cond:
        raise Fail(msg() if callable(msg) else msg)


def close(a, b, rtol=1e-8, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    both = np.isnan(a) & np.isnan(b)
    with np.errstate(invalid="ignore"):
        ok = (a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b))
    return bool(np.all(ok | both))


class Worker:
    def __init__(self, lib, known=()):
        self.lib, self.known, self.proc, self.n = lib, set(known), None, 0

    def run(self, name, seed=None, choices=None):
        """returns (outcome, message, ctx, src); outcome in pass, fail, discard, known"""
        if self.proc is None:
            self.proc = RProc(self.lib)
        s = Src(seed, choices)
        c = Ctx(self.proc)
        self.n += 1
        try:
            self.proc.reset()
            FACETS[name][0](s, c)
            return "pass", "", c, s
        except Discard:
            return "discard", "", c, s
        except Fail as e:
            return "fail", str(e), c, s
        except RError as e:
            return "fail", "stopped with: " + str(e), c, s
        except (RCrash, RTimeout) as e:
            self.close()
            return "fail", str(e), c, s
        except (OverflowError, ZeroDivisionError, np.linalg.LinAlgError):
            return "discard", "", c, s
        except (TypeError, AttributeError, KeyError, IndexError, ValueError) as e:  # the result lacks something
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return "fail", "unexpected form of the result: %r (%s:%d)" % (e, os.path.basename(tb.filename), tb.lineno), c, s

    def close(self):
        if self.proc:
            self.proc.close()
        self.proc = None

    def shrink(self, name, choices, secs=float(os.environ.get("PBT_SHRINK", "25"))):
        best, end = list(choices), time.time() + secs
        last = None

        def bad(ch):
            nonlocal last
            r = self.run(name, choices=ch)
            if r[0] == "fail":
                last = r
                return True
            return False
        if not bad(best):
            return None
        msg = last
        improved = True
        while improved and time.time() < end:
            improved = False
            k = max(1, len(best) // 2)
            while k >= 1 and time.time() < end:
                i = 0
                while i < len(best) and time.time() < end:
                    t = best[:i] + best[i + k:]
                    if bad(t):
                        best, msg, improved = last[3].used[:len(t)], last, True
                    else:
                        i += k
                k //= 2
            for i in range(len(best)):
                if time.time() > end:
                    break
                for v in (0, best[i] // 2, best[i] - 1):
                    if i < len(best) and 0 <= v < best[i] and bad(best[:i] + [v] + best[i + 1:]):
                        best, msg, improved = best[:i] + [v] + best[i + 1:], last, True
                        break
        return best, msg


FAILED = {}  # facets with a failure found by any worker


def job(a):
    """one chunk of cases of a facet"""
    modname, lib, name, seed, start, count, deadline = a
    __import__(modname)
    w = Worker(lib)
    out = dict(name=name, evaluations=0, discarded=0, keys=set(), labels={}, samples=[], failure=None)
    try:
        for i in range(start, start + count):
            if time.time() > deadline or name in FAILED and FAILED[name].value:
                break
            sd = int(hashlib.sha1(("%d/%s/%d" % (seed, name, i)).encode()).hexdigest()[:15], 16)
            o, msg, c, s = w.run(name, seed=sd)
            if w.n % 2000 == 0:
                w.close()
            if o == "discard":
                out["discarded"] += 1
                continue
            out["evaluations"] += 1
            for l in c.labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if c.nt:
                out["keys"].add(hashlib.sha1("\n".join(c.code).encode()).hexdigest()[:16])
                if len(out["samples"]) < 3:
                    out["samples"].append("; ".join(c.code)[:700])
            if o == "fail":
                hang = msg.startswith("no answer")
                sh = (s.used, (o, msg, c, s)) if hang else w.shrink(name, s.used)
                if sh is None:
                    out["failure"] = dict(facet=name, choices=" ".join(map(str, s.used)), message=msg, case="\n".join(c.code), confirmed=False)
                else:
                    ch, (_, m2, c2, s2) = sh
                    w.close()
                    conf = all(w.run(name, choices=ch)[0] == "fail" for _ in range(1 if hang or m2.startswith("no answer") else 2))
                    if conf and name in FAILED:
                        FAILED[name].value = 1
                    out["failure"] = dict(facet=name, choices=" ".join(map(str, ch)), message=m2, case="\n".join(c2.code), confirmed=conf)
                break
    finally:
        w.close()
    return out
