"""brute-force results of a search, shared by the checks of the R package ldt"""
from .models import *
import itertools


def enumerate_models(parts, sizes, fix):
    """lists of variables, one from each of the chosen partitions"""
    res = []
    for size in sizes:
        if fix > size:
            continue
        for ch in itertools.combinations(range(len(parts)), size):
            if all(i in ch for i in range(fix)):
                for v in itertools.product(*[parts[i] for i in ch]):
                    res.append(sorted(v))
    return res


def gen_parts(s, n, maxsize=3):
    """disjoint sorted partitions of some of 0..n-1"""
    p = s.perm(n)
    if n > 1 and s.chance(1, 4):
        p = p[:-1]
    res, i = [], 0
    while i < len(p):
        k = s.pick([1, 1, 1, 2, min(3, maxsize)])
        res.append(sorted(p[i:i + k]))
        i += k
    return res


class Combos:
    """combinations of a search; n variables in the outer loop, m in the inner one; endo tells which"""
    pass


def gen_combos(s, ne, nx, names, inner_exo, targets, maxinner=3, first=False):
    """names: all variables, the endogenous ones first"""
    g = Combos()
    out = names[:ne] if inner_exo else names[ne:]
    inn = names[ne:] if inner_exo else names[:ne]
    n = len(out)
    lit = lambda v, nm: svec([nm[i] for i in v]) if s.coin() else ivec([i + 1 for i in v])
    if s.coin():
        g.parts, pc = [[i] for i in range(n)], "NULL"
    else:
        g.parts = gen_parts(s, n)
        pc = "list(%s)" % ", ".join(lit([g.parts[i][j] for j in s.perm(len(g.parts[i]))], out) for i in range(len(g.parts)))
    g.code_parts = pc
    g.first = first
    if first:  # the intercept has a partition of its own
        g.code_fix = 0
    P = len(g.parts)
    g.sizes = sorted(i + 1 for i in s.subset(P, s.range(1, P)))
    g.fix = 0 if s.chance(2, 3) else s.range(0, g.sizes[-1])
    g.inner = []
    if inn:
        for _ in range(s.range(1, maxinner)):
            v = s.subset(len(inn), s.range(1, len(inn)))
            g.inner.append(v)
    if not inner_exo:
        for v in g.inner:
            if min(v) >= targets:
                v[0] = 0
        for t in range(targets):
            if not any(t in v for v in g.inner):
                g.inner[s.range(0, len(g.inner) - 1)].append(t)
    ic = "list(%s)" % ", ".join(lit(v, inn) for v in g.inner)
    g.inner = [list(v) for v in dict.fromkeys(tuple(sorted(set(v))) for v in g.inner)]
    g.targets = targets
    g.icode = ic
    g.code = "get.combinations(sizes=%s, partitions=%s, numFixPartitions=%d, innerGroups=%s, numTargets=%d)" % (ivec(g.sizes), pc, g.fix, ic, targets)
    # models: (endogenous, exogenous) as indices among the endogenous and the exogenous variables
    outer = enumerate_models(g.parts, g.sizes, g.fix)
    if inner_exo:
        g.models = [(v, w) for v in outer if v[0] < targets for w in (g.inner or [[]])]
    else:
        g.models = [(w, v) for v in outer for w in g.inner]
    if not g.models:
        raise Discard()
    return g


class Items:
    pass


def gen_items(s, type1=True, only=False):
    """only: results of the models can be left out"""
    g = Items()
    g.type1 = type1 and s.chance(2, 3)
    g.model = not (only and g.type1 and s.chance(1, 4))
    g.best = s.pick([0, 1, 1, 2, 3, 5])
    g.all, g.incl = s.coin(), g.model and s.coin()
    g.cdfs = list(dict.fromkeys(round(s.norm(), 2) + 0.0 for _ in range(s.pick([0, 0, 1, 2]))))
    g.ext = s.pick([0, 0, 1.5, 2])
    g.mix = s.chance(1, 3)
    if g.best == 0 and not (g.model and (g.all or g.incl)) and not (g.type1 and (g.cdfs or g.ext or g.mix)):
        g.best = 1
    if g.type1 and not (g.best or g.cdfs or g.ext or g.mix):
        g.ext = 2
    if g.model and not (g.best or g.all or g.incl):
        g.incl = True
    g.code = "get.search.items(model=%s, type1=%s, bestK=%d, all=%s, inclusion=%s, cdfs=%s, extremeMultiplier=%s, mixture4=%s)" % (
        num(g.model), num(g.type1), g.best, num(g.all), num(g.incl), "numeric(0)" if not g.cdfs else vec(g.cdfs), num(g.ext), num(g.mix))
    return g


POSITIVE = ("aucIn", "aucOut", "sign", "direction", "frequencyCostIn", "frequencyCostOut")


def weight(name, x, mn=0.0):
    if name.startswith("frequencyCost"):
        return 1 - x
    if name.startswith("auc") or name in ("sign", "direction"):
        return x
    d = x - mn
    if name in ("mape", "rmspe"):
        d /= 100
    return math.exp(-0.5 * d)


class Model:
    """one model of the set; metric and type1 by (name, target) and (item, target)"""
    def __init__(self, endo, exo, extra=None):
        self.endo, self.exo, self.extra = list(endo), sorted(exo), None if extra is None else tuple(extra)
        self.metric, self.type1, self.fail = {}, {}, None

    def key(self):
        return (tuple(self.endo), tuple(self.exo), self.extra)


def found(v, extra_names):
    """key of a reported model"""
    ex = None
    if "extra" in v:
        ex = tuple(int(i) for i in v["extra"].v)
        check(extra_names is None or list(v["extra"].names or []) == extra_names, lambda: "names of the extra information are %r" % (v["extra"].names,))
    exo = v["exogenous"]
    return (tuple(v["endogenous"].v), tuple(sorted(exo.v if exo is not None else [])), ex)


def check_list(got, want, name, mn, limit, rt, what, extra_names, withmean):
    """reported models against those (model, metric, mean, var) of the set, the best first"""
    low = lambda x: rt * (1 + abs(x))
    cnt = len(want) if limit is None else min(limit, len(want))
    check(len(got) == cnt, lambda: "%s: %d models are reported instead of %d" % (what, len(got), cnt))
    by = {m.key(): (m, x, mean, var) for m, x, mean, var in want}
    seen = set()
    xs = []
    for i, v in enumerate(got):
        k = found(v, extra_names)
        check(k in by, lambda: "%s: reported model %r is not in the set, or has failed" % (what, k))
        check(k not in seen, lambda: "%s: model %r is reported twice" % (what, k))
        seen.add(k)
        m, x, mean, var = by[k]
        xs.append(x)
        check(close(v["metric"].v[0], x, rt, rt), lambda: "%s: metric of model %r is %r instead of %r" % (what, k, v["metric"].v[0], x))
        w = weight(name, x, mn)
        check(close(v["weight"].v[0], w, 2 * low(x) + 1e-12, 2 * rt if name.startswith(("auc", "freq", "sign", "dir")) else 0), lambda: "%s: weight of model %r is %r instead of %r" % (what, k, v["weight"].v[0], w))
        if withmean:
            check(close(v["mean"].v[0], mean, rt * 10, rt * 10) and close(v["variance"].v[0], var, rt * 100, rt * 10), lambda: "%s: mean and variance of model %r are %r, %r instead of %r, %r" % (
                what, k, v["mean"].v[0], v["variance"].v[0], mean, var))
    if limit is None:
        return
    best = sorted((x for _, x, _, _ in want), reverse=positive(name))
    for i, x in enumerate(xs):
        check(abs(x - best[i]) <= 2 * low(x), lambda: "%s: the metric at rank %d is %r instead of %r" % (what, i + 1, x, best[i]))


def positive(name):
    return name in POSITIVE and not name.startswith("frequencyCost")


def verify(c, res, models, names, targets, items, item_names, all_names, rt=1e-6, mins=None, extra_names=None, messages=False):
    """names: reported names of the metrics; targets: names of the targets"""
    mins = mins or {}
    cn = res["counts"]
    nf = sum(m.fail is not None for m in models)
    check(cn["expectedCount"].v[0] == len(models), lambda: "%r models are expected instead of %d" % (cn["expectedCount"].v[0], len(models)))
    check(cn["searchedCount"].v[0] == len(models), lambda: "%r models are searched instead of %d" % (cn["searchedCount"].v[0], len(models)))
    fd = cn["failedDetails"]
    fl = [] if fd is None or not len(fd) else [(z["message"].v[0], z["count"].v[0]) for z in fd.v]
    check(cn["failedCount"].v[0] == nf, lambda: "%r models fail instead of %d (%r; %r)" % (cn["failedCount"].v[0], nf, fl, [(m.key(), m.fail) for m in models if m.fail]))
    check(sum(n for _, n in fl) == nf, lambda: "the counts of the failures %r do not add up to %d" % (fl, nf))
    if messages:
        want = {}
        for m in models:
            if m.fail is not None:
                want[m.fail] = want.get(m.fail, 0) + 1
        check(dict(fl) == want, lambda: "failures are %r instead of %r" % (fl, want))
    left = {}
    results = res["results"]
    for r in (results.v if results is not None else []):
        left.setdefault((r["evalName"].v[0], r["targetName"].v[0], r["typeName"].v[0]), []).append(r)
    for nm in names:
        for t in targets:
            ok = [(m, m.metric[nm, t]) for m in models if m.fail is None and (nm, t) in m.metric and not math.isnan(m.metric[nm, t])]
            what = "%s of %s" % (nm, t)
            mn = mins.get(nm, 0.0)
            for _, x in ok:
                if not abs(x) < 1e12 or not weight(nm, x, mn) < 1e200:
                    raise Discard()
            take = lambda ty: left.pop((nm, t, ty), [])
            low = max([abs(x) for _, x in ok], default=0)
            rw = (rt + 1e-13) * (10 + low)
            if items.model:
                if items.best:
                    r = take("best model")
                    check([z["info"].v[0] for z in r] == list(range(len(r))), "numbers of the best models")
                    check_list([z["value"] for z in r], [(m, x, 0, 0) for m, x in ok], nm, mn, items.best, rt, "best models by " + what, extra_names, False)
                if items.all:
                    r = take("model")
                    check_list([z["value"] for z in r], [(m, x, 0, 0) for m, x in ok], nm, mn, None, rt, "models by " + what, extra_names, False)
                if items.incl:
                    r = take("inclusion")
                    check(len(r) == 1, "inclusion weights by %s are reported %d times" % (what, len(r)))
                    v = r[0]["value"]
                    named(v, all_names, ["Mean", "Count"], "inclusion weights")
                    for i, n in enumerate(all_names):
                        ws = [weight(nm, x, mn) for m, x in ok if n in m.endo or n in m.exo]
                        check(v.m[i, 1] == len(ws), lambda: "%s: variable %s is in %r models instead of %d" % (what, n, v.m[i, 1], len(ws)))
                        if ws:
                            check(close(v.m[i, 0], sum(ws) / len(ws), rw, rw if positive(nm) or nm.startswith("freq") else 0), lambda: "%s: inclusion weight of %s is %r instead of %r" % (what, n, v.m[i, 0], sum(ws) / len(ws)))
            if items.type1:
                sets = []
                for it in item_names:
                    z = [(m, x) + tuple(m.type1[it, t]) for m, x in ok if (it, t) in m.type1]
                    sets.append([q for q in z if not math.isnan(q[2])])
                if items.best:
                    for it, z in zip(item_names, sets):
                        r = take("best item for '%s'" % it)
                        check_list([q["value"] for q in r], z, nm, mn, items.best, rt, "best models of '%s' by %s" % (it, what), extra_names, True)
                if items.cdfs:
                    r = take("cdf")
                    check([q["info"].v[0] for q in r] == items.cdfs, lambda: "points of the distributions are %r" % [q["info"].v[0] for q in r])
                    for a, q in zip(items.cdfs, r):
                        v = q["value"]
                        named(v, item_names, ["Mean", "Count", "SumWeights"], "cdf")
                        for i, z in enumerate(sets):
                            ws = [weight(nm, x, mn) for _, x, _, _ in z]
                            if not usable(z, ws):
                                continue
                            er = sum(w * rt * (1 + abs(mean) / math.sqrt(var)) * 100 for w, (_, _, mean, var) in zip(ws, z))
                            x = sum(w * stats.norm.cdf((a - mean) / math.sqrt(var)) for w, (_, _, mean, var) in zip(ws, z))
                            check(v.m[i, 1] == len(z), lambda: "%s: distribution of %s from %r models instead of %d" % (what, item_names[i], v.m[i, 1], len(z)))
                            check(close(v.m[i, 2], sum(ws), 2 * rw, 2 * rw if positive(nm) else 0), lambda: "%s: sum of weights for the distribution of %s is %r instead of %r" % (what, item_names[i], v.m[i, 2], sum(ws)))
                            check(close(v.m[i, 0], x / sum(ws), 1e-9, er / sum(ws) + 2 * rw + 1e-10), lambda: "%s: distribution of %s at %r is %r instead of %r" % (what, item_names[i], a, v.m[i, 0], x / sum(ws)))
                if items.ext:
                    r = take("extreme bound")
                    check(len(r) == 1 and r[0]["info"].v[0] == items.ext, "extreme bounds by " + what)
                    v = r[0]["value"]
                    named(v, item_names, ["Lower", "Upper"], "extreme bounds")
                    for i, z in enumerate(sets):
                        if z:
                            lo = min(mean - items.ext * math.sqrt(var) for _, _, mean, var in z)
                            hi = max(mean + items.ext * math.sqrt(var) for _, _, mean, var in z)
                            at = 100 * rt * max(abs(mean) + math.sqrt(var) * items.ext for _, _, mean, var in z)
                            check(close(v.m[i, 0], lo, 1e-9, at + 1e-10) and close(v.m[i, 1], hi, 1e-9, at + 1e-10), lambda: "%s: extreme bounds of %s are %r instead of %r" % (what, item_names[i], v.m[i].tolist(), (lo, hi)))
                if items.mix:
                    r = take("mixture")
                    check(len(r) == 1, "mixtures by " + what)
                    v = r[0]["value"]
                    named(v, item_names, ["Mean", "Variance", "Skewness", "Kurtosis", "Count", "SumWeights"], "mixture")
                    for i, z in enumerate(sets):
                        ws = np.array([weight(nm, x, mn) for _, x, _, _ in z])
                        if not len(z) or not usable(z, ws):
                            continue
                        sw = ws.sum()
                        me, va = np.array([q[2] for q in z]), np.array([q[3] for q in z])
                        mu = (ws * me).sum() / sw
                        d = me - mu
                        w = ws / sw
                        m2, m3, m4 = (w * (va + d * d)).sum(), (w * (3 * va * d + d ** 3)).sum(), (w * (3 * va ** 2 + 6 * va * d * d + d ** 4)).sum()
                        sc = np.max(np.abs(me)) + math.sqrt(m2)
                        e1 = rw * 10 + 1e-10
                        g = v.m[i]
                        say = lambda: "%s: mixture of %s is %r instead of %r" % (what, item_names[i], g.tolist(), [mu, m2, m3 / m2 ** 1.5, m4 / m2 ** 2 - 3, len(z), sw])
                        check(g[4] == len(z) and close(g[5], sw, 2 * rw, 2 * rw if positive(nm) else 0), say)
                        check(close(g[0], mu, 1e-9, e1 * sc) and close(g[1], m2, 1e-8, e1 * sc * sc), say)
                        e4 = 100 * e1 * (sc / math.sqrt(m2)) ** 4
                        if e4 < 1e-2:
                            check(close(g[2], m3 / m2 ** 1.5, 1e-6, e4) and close(g[3], m4 / m2 ** 2 - 3, 1e-6, 4 * e4), say)
    check(not left, lambda: "results that are not asked for: %r" % list(left))
    c.label("no failure" if nf == 0 else "all fail" if nf == len(models) else "some fail")


def usable(z, ws):
    return all(w > 1e-100 for w in ws) and all(var > 1e-12 * mean * mean and var > 1e-200 for _, _, mean, var in z)


def sur_data(s, c, nemax=3, nxmax=4):
    g = Sys()
    g.ne, g.nx, g.icpt = s.range(1, nemax), s.range(1, nxmax), s.coin()
    n = g.n = s.range(22, 40)
    x = np.array([[s.norm() for _ in range(g.nx)] for _ in range(n)])
    b = np.array([[s.pick([0.0, 0.5, 1.0]) * s.norm() for _ in range(g.ne)] for _ in range(g.nx)]).reshape(g.nx, g.ne)
    y = np.round(x @ b + np.array([[s.norm() for _ in range(g.ne)] for _ in range(n)]), 4)
    g.lam = None
    if s.chance(1, 4):
        g.lam = [s.pick([0.0, 0.5, 1.0, 2.0]) for _ in range(g.ne)]
        y = np.round(np.abs(y) + 0.3, 4)
        c.label("lambda")
    names = gen_names(s, g.ne + g.nx, "")
    a = np.hstack([y, x])
    if g.lam is None and s.chance(1, 3):
        for _ in range(s.range(1, 4)):
            a[s.range(0, n - 1), s.range(0, g.ne + g.nx - 1)] = float("nan")
        c.label("missing")
    c.R("raw <- %s" % mat(a, names))
    c.R("d <- get.data(raw, endogenous=%d, addIntercept=%s, lambdas=%s)" % (g.ne, num(g.icpt), "NULL" if g.lam is None else vec(g.lam)))
    if g.icpt:
        c.R("raw <- cbind(raw[, 1:%d, drop=FALSE], `(Intercept)`=1, raw[, %d:%d, drop=FALSE])" % (g.ne, g.ne + 1, g.ne + g.nx))
        a = np.hstack([a[:, :g.ne], np.ones((n, 1)), a[:, g.ne:]])
        g.nx += 1
        names = names[:g.ne] + ["(Intercept)"] + names[g.ne:]
    g.names, g.a = names, a
    if g.lam is not None:
        g.a = a.copy()
        for j in range(g.ne):
            g.a[:, j] = boxcox(a[:, j], g.lam[j])
    return g


def reestimate(c, r, models, coef, test=True):
    """the reported models are estimated again with the same results"""
    c.R("z <- summary(r, test=%s)" % num(test))
    k = int(c.R("length(z$results)").v[0])
    done = set()
    for i in range(k):
        q = r["results"].v[i]
        if "endogenous" not in (q["value"] if isinstance(q["value"], L) else {}):
            continue
        key = found(q["value"], None)
        m = [m for m in models if m.key() == key]
        if key in done:
            continue
        done.add(key)
        e = c.R("z$results[[%d]]$value$estimations$coefs" % (i + 1))
        names = list(q["value"]["exogenous"].v) if q["value"]["exogenous"] is not None else []
        coef(e, m[0], names, key)
        if len(done) >= 3:
            break
