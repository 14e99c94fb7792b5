"""C24: the statistical helpers exported in R"""
from .gen import *
from . import ref
from scipy import stats, integrate


# ---------------------------------------------------------------- ROC
def area(p, lo, hi):
    a = 0.0
    for (x0, y0), (x1, y1) in zip(p, p[1:]):
        l, h = max(x0, lo), min(x1, hi)
        if x1 <= x0 or h <= l:
            continue
        f = lambda x: y0 + (y1 - y0) * (x - x0) / (x1 - x0)
        a += (h - l) * (f(l) + f(h)) / 2
    return a


@facet("roc", "at least three groups of scores and four observations", 500)
def _roc(s, c):
    n = s.range(2, 60 if s.chance(1, 8) else 12)
    kind = s.range(0, 3)
    y = np.array([s.range(0, 1) for _ in range(n)], dtype=float)
    sc = np.array([[s.range(0, 10) / 10, s.unif(0, 1), s.range(0, 3) / 4 + 1e-7 * s.range(0, 5), float(s.range(0, 4))][kind] for _ in range(n)])
    i = s.range(0, n - 1)
    y[i] = 0
    if not np.any(y == 1):
        y[(i + 1) % n] = 1
    W, C = s.coin(), s.chance(1, 3)
    wi = s.coin()
    w = np.array([float(s.range(1, 3)) if wi else s.unif(0.1, 3) for _ in range(n)]) if W else np.ones(n)
    eps = 1e-6 if kind == 2 and s.coin() else 1e-12
    lo, hi = 0.0, 1.0
    if s.chance(1, 3):
        lo = s.range(0, 9) / 10
        hi = min(1.0, lo + (1 - lo) * (1 if s.chance(1, 4) else s.unif(0.05, 1)))
    pess = s.chance(1, 3)
    opt = []
    if (lo, hi) != (0.0, 1.0):
        opt += ["lowerThreshold=%s" % num(lo), "upperThreshold=%s" % num(hi)]
        c.label("partial")
    if eps != 1e-12:
        opt.append("epsilon=%s" % num(eps))
    if pess:
        opt.append("pessimistic=TRUE")
        c.label("pessimistic")
    v = w.copy()
    if C:
        integer = s.coin()
        co = np.array([float(s.range(1, 5)) if integer else s.unif(0.5, 5) for _ in range(n)])
        r = (lambda a, b: float(s.range(a, b))) if s.coin() else s.unif
        cm = np.array([[r(0, 2), -r(0, 2) - 1], [-r(0, 2) - 1, r(0, 2)]])
        opt.append("costs=%s, costMatrix=%s" % ((ivec if integer else vec)([int(x) for x in co] if integer else co), (intmat if np.all(cm == np.round(cm)) and s.coin() else mat)(cm)))
        v *= np.where(y == 0, cm[1, 1] - cm[1, 0] * co, cm[0, 0] * co - cm[0, 1])
        c.label("costs")
    ix = np.argsort(sc, kind="stable")
    grp = np.zeros(n, dtype=int)
    first, g = sc[ix[0]], 0
    for k in ix:
        if abs(sc[k] - first) > eps:
            first, g = sc[k], g + 1
        grp[k] = g
    curve, plain, fp, tp = [(0.0, 0.0)], [(0.0, 0.0)], 0.0, 0.0
    tn, tt = v[y == 0].sum(), v[y == 1].sum()
    for k in range(g + 1):
        fp += v[(grp == k) & (y == 0)].sum()
        if pess:
            curve.append((fp / tn, tp / tt))
        tp += v[(grp == k) & (y == 1)].sum()
        curve.append((fp / tn, tp / tt))
        plain.append(curve[-1])
    ylit = s.pick([vec(y), ivec([int(t) for t in y])])
    wl = ("NULL" if not W else ivec([int(t) for t in w]) if wi and s.coin() else vec(w))
    form = s.range(0, 2)
    args = [ylit, "matrix(%s, ncol=1)" % vec(sc) if form == 0 else vec(sc)]
    if W or opt or s.coin():
        args.append("weights=" + wl)
    if opt or s.coin():
        args.append("options=get.options.roc(%s)" % ", ".join(opt) if opt or s.coin() else "options=NULL")
    r = c.R("s.roc(%s)" % ", ".join(args))
    e = area(curve, lo, hi) / (hi - lo)
    check(r["n"][0] == n, "n is %s" % r["n"])
    check(close(r["auc"][0], e, 1e-9, 1e-11 / (hi - lo)), "the area is %r instead of %r" % (r["auc"][0], e))
    P = r["points"].m
    check(r["points"].colnames == ["FP Rate", "TP Rate"], "columns of the points: %s" % r["points"].colnames)
    check(np.all(np.diff(P, axis=0) >= -1e-12), "the curve goes back: %s" % P)
    check(np.allclose(P[0], 0, atol=1e-12) and np.allclose(P[-1], 1, atol=1e-9), "the curve starts or ends at the wrong point: %s" % P)
    for q in plain:
        check(np.min(np.max(np.abs(P - np.array(q)), axis=1)) < 1e-9, "the curve does not pass through %s: %s" % (q, P))
    if not pess:
        check(len(P) == len(plain), "the curve has %d points instead of %d" % (len(P), len(plain)))
    c.nontrivial(g >= 2 and n >= 4)
    if s.chance(1, 6):
        k = s.range(0, 3)
        code = ["s.roc(%s, %s)" % (vec(y), vec(list(sc) + [0.5])), "s.roc(%s, %s, weights=%s)" % (vec(y), vec(sc), vec(list(w) + [1.0])),
                "s.roc(%s, %s)" % (vec(y + 1), vec(sc)), "s.roc(%s, %s, options=get.options.roc(lowerThreshold=0.6, upperThreshold=0.4))" % (vec(y), vec(sc))][k]
        check(c.err(code) is not None, "invalid arguments are accepted: " + code)


# ---------------------------------------------------------------- clustering
DIST = ["correlation", "absCorrelation", "euclidean", "manhattan", "maximum"]
LINK = ["single", "complete", "uAverage", "wAverage", "ward"]


def distances(x, dist, corr):
    k = x.shape[1]
    D = np.zeros((k, k))
    for i in range(k):
        for j in range(i):
            ok = ~(np.isnan(x[:, i]) | np.isnan(x[:, j]))
            a, b = x[ok, i], x[ok, j]
            if len(a) < 3:
                raise Discard()
            if dist in ("correlation", "absCorrelation"):
                if corr == "spearman":
                    a, b = stats.rankdata(a, method="max"), stats.rankdata(b, method="max")
                if np.ptp(a) == 0 or np.ptp(b) == 0:
                    raise Discard()
                r = np.corrcoef(a, b)[0, 1]
                d = math.sqrt(max(0, (1 - r) / 2)) if dist == "correlation" else math.sqrt(max(0, 1 - r * r))
            else:
                e = np.abs(a - b)
                d = math.sqrt(np.sum(e * e)) if dist == "euclidean" else np.sum(e) if dist == "manhattan" else np.max(e)
            D[i, j] = D[j, i] = d
    return D


def agglomerate(D, link):
    """merges as pairs of sets with heights; Discard when two candidates are (nearly) equal"""
    k = len(D)
    cl = {i: frozenset([i]) for i in range(k)}
    d = {frozenset((i, j)): D[i, j] for i in range(k) for j in range(i)}
    out, nxt = [], k
    while len(cl) > 1:
        o = sorted(d.items(), key=lambda t: t[1])
        if len(o) > 1 and o[1][1] - o[0][1] < 1e-9 * (1 + o[0][1]):
            raise Discard()
        key, h = o[0]
        a, b = sorted(key)
        na, nb = len(cl[a]), len(cl[b])
        new = {}
        for q in cl:
            if q in (a, b):
                continue
            da, db, nq = d[frozenset((a, q))], d[frozenset((b, q))], len(cl[q])
            if link == "single":
                v = min(da, db)
            elif link == "complete":
                v = max(da, db)
            elif link == "uAverage":
                v = (na * da + nb * db) / (na + nb)
            elif link == "wAverage":
                v = (da + db) / 2
            else:
                v = None
            new[frozenset((nxt, q))] = v if v is not None else ward(da, db, h, na, nb, nq)
        out.append((cl[a], cl[b], h))
        m = cl.pop(a) | cl.pop(b)
        d = {q: v for q, v in d.items() if a not in q and b not in q}
        d.update(new)
        cl[nxt] = m
        nxt += 1
    return out


def ward(da, db, h, na, nb, nq):
    t = na + nb + nq
    return ((na + nq) * da + (nb + nq) * db - nq * h) / t


def tri(D):
    return [D[i, j] for j in range(len(D)) for i in range(j + 1, len(D))]


def data(s, c, k, kind, missing=True):
    n = s.range(5, 15)
    f = [s.norm() for _ in range(n)]
    x = np.array([[(1 + j % 2) * s.norm() + (j % 3) * f[i] + (5 if j == 1 else 0) for j in range(k)] for i in range(n)])
    if s.chance(1, 4):
        x = np.round(x * 8)
        c.label("integers")
    if missing and s.chance(1, 3):
        for _ in range(s.range(1, 3)):
            x[s.range(0, n - 1), s.range(0, k - 1)] = float("nan")
        c.label("missing values")
    return x


def lit(s, x, cols=None):
    ok = not np.any(np.isnan(x)) and np.all(x == np.round(x))
    return s.pick([mat(x, cols), "as.data.frame(%s)" % mat(x, cols)] + ([intmat(x, cols)] if ok else []))


@facet("clusters", "at least four variables", 600)
def _clusters(s, c):
    k = s.range(2, 9)
    dist, corr, link = s.pick(DIST), s.pick(["pearson", "spearman"]), s.pick(LINK)
    x = data(s, c, k, dist)
    D = distances(x, dist, corr)
    scale = 1 + np.max(D)
    case = lambda t: s.pick([t, t.upper(), t.lower()])
    d = c.R("d <- s.distance(%s, %s, %s)" % (lit(s, x), st(case(dist)), st(case(corr))) + ("" if not s.coin() else ""))
    check(len(d.v) == k * (k - 1) // 2, "%d distances of %d variables" % (len(d.v), k))
    check(np.allclose(d.v, tri(D), rtol=1e-8, atol=1e-7 * scale), "distances %s instead of %s" % (d.v, tri(D)))
    merges = agglomerate(D, link)
    r = c.R("s.cluster.h(d, %s)" % st(case(link)))
    check(np.allclose(c.R("d").v, d.v, rtol=0, atol=0), "the distances are changed by clustering")
    h = r["height"].v
    check(np.allclose(h, [m[2] for m in merges], rtol=1e-7, atol=1e-7 * scale), "heights %s instead of %s" % (h, [m[2] for m in merges]))
    m = r["merge"].m
    sets = []
    for q, (a, b, _) in enumerate(merges):
        got = []
        for t in m[q]:
            t = int(t)
            check(t != 0 and t <= q, "row %d of the merge matrix refers to a later row: %s" % (q + 1, m))
            got.append(frozenset([-t - 1]) if t < 0 else sets[t - 1])
        check({a, b} == set(got), "merge %d joins %s instead of %s" % (q + 1, [sorted(t) for t in got], [sorted(a), sorted(b)]))
        sets.append(got[0] | got[1])
    c.nontrivial(k >= 4)
    if s.chance(1, 8):
        code = s.pick(["s.cluster.h(%s)" % vec([1.0, 2.0]), "s.distance(%s, 'unknown')" % mat(x), "s.cluster.h(%s, 'unknown')" % vec(tri(D)),
                       "s.cluster.h.group(%s, threshold=-1)" % mat(x), "s.cluster.h(numeric(0))"])
        check(c.err(code) is not None, "invalid arguments are accepted: " + code)


@facet("groups", "a variable is removed and there are two groups or more", 500)
def _groups(s, c):
    k = s.range(2, 8)
    dist, corr, link = s.pick(DIST), s.pick(["pearson", "spearman"]), s.pick(LINK)
    x = data(s, c, k, dist)
    D = distances(x, dist, corr)
    nodes = {frozenset([i]) for i in range(k)} | {a | b for a, b, _ in agglomerate(D, link)}
    ng = s.range(1, k)
    X = lit(s, x)

    def call(th):
        r = c.R("s.cluster.h.group(%s, %d, %s, %s, %s, %s)" % (X, ng, num(th), st(dist), st(link), st(corr)))
        g = [[int(t) - 1 for t in g.v] for g in r["groups"].v]
        rm = [int(t) - 1 for t in (r["removed"].v if r["removed"] is not None else [])]
        check(len(g) == ng, "%d groups instead of %d" % (len(g), ng))
        check(sorted([t for q in g for t in q] + rm) == list(range(k)), "groups %s and removed variables %s are not a partition" % (g, rm))
        return g, rm
    parts, rm = call(0.0)
    check(not rm, "variables are removed without a threshold")
    for g in parts:
        check(frozenset(g) in nodes, "group %s is not a branch of the tree" % [t + 1 for t in g])
    th = 0.0
    if s.chance(3, 4):
        t = sorted(tri(D))
        q = s.range(0, len(t))
        th = t[-1] * 1.5 if q == len(t) else t[0] / 2 if q == 0 else (t[q] + t[q - 1]) / 2
        if min(abs(v - th) for v in t) < 1e-6:
            th = 0.0
    got, rm = call(th)
    want, wrm = [], []
    for g in parts:
        keep = []
        for i, a in enumerate(g):
            if any(D[a, b] < th for b in g[:i]):
                wrm.append(a)
            else:
                keep.append(a)
        want.append(keep)
    check(sorted(got) == sorted(want) and sorted(rm) == sorted(wrm), "groups %s without %s instead of %s without %s" % (got, rm, want, wrm))
    c.nontrivial(bool(rm) and ng >= 2)


# ---------------------------------------------------------------- components
@facet("components", "at least two columns and more rows than columns", 500)
def _pca(s, c):
    k = s.range(1, 5)
    n = s.range(2, k + 1) if s.chance(1, 5) else s.range(k + 2, 15)
    f = [s.norm() for _ in range(n)]
    x = np.array([[s.norm() * (1 + j) + j * f[i] + 3 * (j % 2) for j in range(k)] for i in range(n)])
    if s.chance(1, 4):
        x = np.round(x * 4)
        c.label("integers")
    center, scale = s.chance(3, 4), s.chance(3, 4)
    if n > 1 and np.min(x.std(axis=0)) < 1e-3:
        raise Discard()
    drop = []
    if k > 1 and scale and s.chance(1, 4):
        drop = [s.range(0, k - 1)]
        x[:, drop[0]] = s.pick([0.0, 1.0, 0.1, -7.0])
        c.label("a constant column")
    nf = s.range(0, 3)
    new = np.array([[s.norm() * 2 for _ in range(k)] for _ in range(nf)]).reshape(nf, k)
    if s.chance(1, 4):
        new = np.round(new * 4)
    keep = [j for j in range(k) if j not in drop]
    mu = x.mean(axis=0) * center
    sd = x.std(axis=0, ddof=1) if scale else np.ones(k)
    z = ((x - mu)[:, keep] / sd[keep])
    args = []
    if not center or s.coin():
        args.append("center=" + num(center))
    if not scale or s.coin():
        args.append("scale=" + num(scale))
    if nf:
        args.append("newX=" + lit(s, new))
    r = c.R("s.pca(%s)" % ", ".join([lit(s, x)] + args))
    check([int(t) for t in (r["removed0Var"].v if r["removed0Var"] is not None else [])] == drop, "removed columns %s instead of %s" % (r["removed0Var"], drop))
    kk, mn = len(keep), min(n, len(keep))
    Dm = r["directions"].m
    sv = np.linalg.svd(z, compute_uv=False)
    std = sv / math.sqrt(n - 1)
    got = r["stds"].v
    check(len(got) == mn and np.allclose(got, std, rtol=1e-8, atol=1e-7 * (1 + std[0])), "standard deviations %s instead of %s" % (got, std))
    check(np.allclose(r["stds2Ratio"].v, std ** 2 / np.sum(std ** 2), rtol=1e-7, atol=1e-9), "ratios %s" % r["stds2Ratio"].v)
    check(Dm.shape == (kk, kk), "dimension of the directions is %s" % (Dm.shape,))
    check(np.allclose(Dm[:mn] @ Dm[:mn].T, np.eye(mn), atol=1e-8), "the directions are not orthonormal: %s" % Dm)
    pc = z @ Dm[:mn].T
    check(np.allclose(pc.T @ pc, np.diag(std ** 2 * (n - 1)), rtol=1e-7, atol=1e-7 * (1 + np.sum(z * z))), "components are not uncorrelated with these standard deviations: %s" % (pc.T @ pc))
    if nf:
        P = r["projections"].m
        want = ((new - mu)[:, keep] / sd[keep]) @ Dm[:mn].T
        check(P.shape[0] == nf and np.allclose(P[:, :mn], want, rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(want)))), "projections %s instead of %s" % (P, want))
    else:
        check(r["projections"] is None, "projections without new data")
    c.nontrivial(k >= 2 and n > k)
    if s.chance(1, 10):
        check(c.err("s.pca(%s, newX=%s)" % (mat(x), mat(np.ones((2, k + 1))))) is not None, "new data with another number of columns is accepted")


# ---------------------------------------------------------------- generalized lambda distribution
def gld_q(p, l1, l2, l3, l4):
    a = np.log(p) if l3 == 0 else np.zeros_like(p) if math.isinf(l3) else np.expm1(l3 * np.log(p)) / l3
    b = np.log1p(-p) if l4 == 0 else np.zeros_like(p) if math.isinf(l4) else np.expm1(l4 * np.log1p(-p)) / l4
    return l1 + (a - b) / l2


def gld_d(p, l1, l2, l3, l4):
    a = np.zeros_like(p) if math.isinf(l3) else p ** (l3 - 1)
    b = np.zeros_like(p) if math.isinf(l4) else (1 - p) ** (l4 - 1)
    return l2 / (a + b)


def gld_moments(l1, l2, l3, l4):
    # substitution p = 1/(1+exp(-t)) makes both tails smooth
    t = np.linspace(-700, 700, 280001)
    t = np.sinh(np.linspace(-6.5, 6.5, 40001)) * 1.0
    lp, lq = -np.logaddexp(0, -t), -np.logaddexp(0, t)
    dt = np.cosh(np.linspace(-6.5, 6.5, 40001)) * (13.0 / 40000)
    wgt = np.exp(lp + lq) * dt
    a = lp if l3 == 0 else np.expm1(l3 * lp) / l3
    b = lq if l4 == 0 else np.expm1(l4 * lq) / l4
    x = (a - b) / l2
    tot = wgt.sum()
    m = (wgt * x).sum() / tot
    v = (wgt * (x - m) ** 2).sum() / tot
    sk = (wgt * (x - m) ** 3).sum() / tot / v ** 1.5
    ku = (wgt * (x - m) ** 4).sum() / tot / v ** 2 - 3
    return l1 + m, v, sk, ku


@facet("lambda distribution", "the shape parameters are different or zero", 400)
def _gld(s, c):
    sh = lambda: s.pick([0.0, float("inf"), 1.0, 2.0, -0.1, 0.14]) if s.chance(1, 3) else s.unif(-0.9, 3)
    l3, l4 = sh(), sh()
    if math.isinf(l3) and math.isinf(l4):
        l4 = 0.5
    for l in (l3, l4):
        if l != 0 and abs(l) < 1e-3:
            raise Discard()
    l1, l2 = s.pick([0.0, s.unif(-5, 5)]), s.pick([1.0, s.unif(0.1, 5)])
    p = np.array(sorted(s.unif(0.001, 0.999) for _ in range(s.range(1, 6))))
    a = "%s, %s, %s, %s, %s" % (vec(p), num(l1), num(l2), num(l3), num(l4))
    q = c.R("s.gld.quantile(%s)" % a).v
    d = c.R("s.gld.density.quantile(%s)" % a).v
    check(np.allclose(q, gld_q(p, l1, l2, l3, l4), rtol=1e-9, atol=1e-9), "quantiles %s instead of %s" % (q, gld_q(p, l1, l2, l3, l4)))
    check(np.allclose(d, gld_d(p, l1, l2, l3, l4), rtol=1e-9, atol=1e-12), "densities %s instead of %s" % (d, gld_d(p, l1, l2, l3, l4)))
    c.nontrivial(l3 != l4 or l3 == 0)


SYM = (1, 3, 5, 7, 10)


def in_type(t, a, b):
    e = 1e-9
    return {0: True, 1: a == b, 2: a < 1 + e and b < 1 + e, 3: a == b and a < 1 + e, 4: max(a, b) <= 0.5 + e, 5: a == b and a <= 0.5 + e,
            6: min(a, b) >= 2 - e, 7: a == b and a >= 2 - e, 8: True, 9: 1 - e < min(a, b) and max(a, b) <= 2 + e, 10: a == b and 1 - e < a <= 2 + e,
            11: a > 1 - e and b <= 1 + e}[t]


@facet("lambda from moments", "a restricted shape or an asymmetric distribution", 400)
def _gldm(s, c):
    t = s.pick([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11])
    lo, hi = {2: (-0.2, 0.95), 3: (-0.2, 0.95), 4: (-0.2, 0.48), 5: (-0.2, 0.48), 6: (2.05, 4), 7: (2.05, 4), 9: (1.05, 1.95), 10: (1.05, 1.95)}.get(t, (-0.2, 1.5))
    l3 = 0.0 if lo < 0 and s.chance(1, 5) else s.unif(lo, hi)
    l4 = l3 if t in SYM or s.chance(1, 6) else 0.0 if lo < 0 and s.chance(1, 5) else s.unif(lo, hi)
    if t == 11:
        l3, l4 = s.unif(1.05, 2.5), s.unif(-0.2, 0.95)
    for l in (l3, l4):
        if l != 0 and abs(l) < 0.02:
            raise Discard()
    if t in (0, 1, 2, 3, 4, 5) and s.chance(1, 3):
        c.label("moments of another distribution")
        sk, ku = (0.0 if s.coin() else s.unif(-0.6, 0.6)), s.unif(-0.6, 1.5)
        start, exact = s.pick(["", ", start=c(0.1,0.1)"]), False
    else:
        sk, ku = gld_moments(0, 1, l3, l4)[2:]
        start, exact = ", start=%s" % vec([l3, l4]), True
    mean, var = s.pick([0.0, s.unif(-5, 5)]), s.pick([1.0, s.unif(0.1, 9)])
    r = c.R("s.gld.from.moments(%s, %s, %s, %s, %d%s)" % (num(mean), num(var), num(sk), num(ku), t, start))
    check(r.names == ["L1", "L2", "L3", "L4", "Iter"], "names are %s" % r.names)
    L = [float(q) for q in r.v]
    check(all(math.isfinite(q) for q in L), "parameters %s" % L)
    check(L[1] > 0 and in_type(t, L[2], L[3]), "parameters %s are not of type %d" % (L, t))
    if any(l != 0 and abs(l) < 0.02 for l in L[2:4]):
        c.label("near a pole")
        return  # cancellation
    if min(L[2:4]) < -0.24:
        return
    m = gld_moments(*L[:4])
    check(close(m[0], mean, 1e-4, 1e-4 * math.sqrt(var)) and close(m[1], var, 1e-4), "mean and variance of %s are %s and %s instead of %s and %s" % (L, m[0], m[1], mean, var))
    if exact:
        check(close(m[2], sk, 1e-3, 2e-3) and close(m[3], ku, 1e-3, 5e-3), "skewness and kurtosis of %s are %s and %s instead of %s and %s" % (L, m[2], m[3], sk, ku))
    c.nontrivial(t > 0 or l3 != l4)


# ---------------------------------------------------------------- moments and weights
def moments(x, w):
    W = w.sum()
    m = (w * x).sum() / W
    v = (w * (x - m) ** 2).sum() / W
    return m, v, (w * (x - m) ** 3).sum() / W / v ** 1.5, (w * (x - m) ** 4).sum() / W / v ** 2 - 3, W, len(x)


@facet("combined moments", "both samples have spread", 300)
def _combine(s, c):
    ss = []
    for _ in range(3):
        n = s.range(2, 8)
        x = np.array([s.norm() * 2 + s.range(-2, 2) for _ in range(n)])
        w = np.ones(n) if s.coin() else np.array([s.unif(0.2, 2) for _ in range(n)])
        if np.std(x) < 1e-3:
            raise Discard()
        ss.append((x, w))
    k = s.range(2, 3)
    NM = ["mean", "variance", "skewness", "kurtosis", "weight", "count"]

    def code(m):
        o = s.perm(6)
        return "list(%s)" % ", ".join("%s=%s" % (NM[i], "%dL" % m[i] if i == 5 and s.coin() else num(float(m[i]))) for i in o)
    a, b = (moments(*ss[i]) for i in range(2))
    r = c.R("r <- s.combine.stats4(%s, %s)" % (code(a), code(b)))
    if k == 3:
        r = c.R("s.combine.stats4(%s)" % ", ".join(["r", code(moments(*ss[2]))] if s.coin() else [code(moments(*ss[2])), "r"]))
    want = moments(np.concatenate([q[0] for q in ss[:k]]), np.concatenate([q[1] for q in ss[:k]]))
    for i, nm in enumerate(NM):
        check(nm in r, "'%s' is missing" % nm)
        check(close(r[nm][0], want[i], 1e-7, 1e-7), "%s is %r instead of %r" % (nm, r[nm][0], want[i]))
    c.nontrivial(True)


@facet("weights", "an exponential weight", 300)
def _weights(s, c):
    nm = s.pick(["aic", "sic", "brier", "auc", "frequencyCost", "sign", "direction", "mae", "rmse", "crps", "mape", "rmspe"])
    mn = s.pick([0.0, 0.0, s.unif(-5, 5)])
    x = s.unif(0.01, 1) if nm in ("auc", "frequencyCost", "sign", "direction") else s.unif(-10, 10) if nm in ("aic", "sic") else s.unif(0.01, 20)
    lin = nm in ("auc", "sign", "direction", "frequencyCost")
    want = 1 - x if nm == "frequencyCost" else x if lin else math.exp(-0.5 * (x - mn) / (100 if nm in ("mape", "rmspe") else 1))
    t = st(s.pick([nm, nm.lower(), nm.upper()]))
    m = "" if mn == 0 and s.coin() else ", " + num(mn)
    w = c.R("w <- s.weight.from.metric(%s, %s%s)" % (num(x), t, m))
    check(close(w[0], want, 1e-10, 1e-14), "the weight of %s=%r is %r instead of %r" % (nm, x, w[0], want))
    b = c.R("s.metric.from.weight(w, %s%s)" % (t, m))
    check(close(b[0], x, 1e-8, 1e-8), "the metric of this weight is %r instead of %r" % (b[0], x))
    c.nontrivial(not lin)
    if s.chance(1, 10):
        check(c.err("s.weight.from.metric(1, 'unknown')") is not None, "an unknown metric is accepted")


@facet("normal samples", "two dimensions or more", 200)
def _mnorm(s, c):
    p = s.range(1, 4)
    A = np.array([[s.norm() for _ in range(p)] for _ in range(p)])
    S = A @ A.T + 0.2 * np.eye(p)
    mu = np.array([s.unif(-5, 5) for _ in range(p)])
    kind = s.range(0, 5)
    a = {0: "mu=%s, sigma=%s" % (vec(mu), mat(S)), 1: "sigma=%s" % mat(S), 2: "mu=%s" % vec(mu), 3: "p=%d" % p, 4: "mu=NA, sigma=%s" % mat(S), 5: "mu=NA, sigma=NA, p=%d" % p}[kind]
    if kind == 2 and p == 1:
        a += ", sigma=NULL"
    n = s.pick([1, 2, 2000, 2000])
    seed = s.range(1, 10 ** 6)
    r = c.R("{set.seed(%d); r <- rand.mnormal(%d, %s)}" % (seed, n, a))
    q = c.R("{set.seed(%d); rand.mnormal(%d, %s, byRow=FALSE)}" % (seed, n, a))
    m = np.array(r["mu"].v, dtype=float)
    sg = r["sigma"].m
    check(r["sample"].dim == [n, p] and q["sample"].dim == [p, n], "dimensions %s and %s" % (r["sample"].dim, q["sample"].dim))
    check(np.allclose(q["sample"].m.T, r["sample"].m, atol=1e-9), "samples in rows and columns are different")
    check(len(m) == p and sg.shape == (p, p), "dimensions of the parameters")
    if kind in (0, 2):
        check(np.allclose(m, mu), "the mean is %s" % m)
    elif kind in (1, 3):
        check(np.all(m == 0), "the mean is %s" % m)
    if kind in (0, 1, 4):
        check(np.allclose(sg, S), "the covariance is %s" % sg)
    elif kind in (2, 3):
        check(np.array_equal(sg, np.eye(p)), "the covariance is %s" % sg)
    if n == 2000:
        z = np.linalg.solve(np.linalg.cholesky(sg), (r["sample"].m - m).T).T
        check(np.max(np.abs(z.mean(axis=0))) < 6.5 / math.sqrt(n), "the mean of the standardized sample is %s" % z.mean(axis=0))
        V = z.T @ z / n
        check(np.max(np.abs(V - np.eye(p))) < 9.5 / math.sqrt(n), "the covariance of the standardized sample is %s" % V)
    c.nontrivial(p >= 2)
