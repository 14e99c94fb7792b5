"""C21: preparing data and defining search sets (R package ldt)"""
from .engine import *
from .gen import *
import itertools


def gen_num(s, pos=False):
    if pos:
        return round(0.1 + 10 * s.unif(), 3)
    return s.norm() if s.chance(3, 4) else float(s.range(-3, 3))


def bc(y, l):
    with np.errstate(all="ignore"):
        return np.log(y) if l == 0 else (y ** l - 1) / l


def profile(y, l):
    z = bc(y, l)
    n = len(y)
    return (l - 1) * np.sum(np.log(y)) - n / 2 * np.log(np.sum((z - z.mean()) ** 2) / n)


def gen_lambdas(s, ne):
    """(R code, values or None for an estimate)"""
    k = s.range(0, 4)
    vals = [0, 1, 0.5, -1, 2, 0.3]
    if k == 0:
        return "NULL", None
    if k == 1:
        v = s.pick(vals)
        return num(v), [v] * ne
    if k == 2:
        return "NA", [float("nan")] * ne
    v = [s.pick(vals) if s.chance(3, 4) else float("nan") for _ in range(ne)]
    return vec(["NA" if np.isnan(x) else x for x in v]), v


def check_lambdas(want, got, y0, y1):
    check(got is not None and len(got) == y0.shape[1], "lambdas are not given for all endogenous variables: %r" % got)
    for j, w in enumerate(want):
        l = got[j]
        if np.isnan(w):
            grid = np.round(np.arange(-20, 21) / 10.0, 10)
            p = [profile(y0[:, j], g) for g in grid]
            check(min(abs(grid - l)) < 1e-6, "estimated lambda %r is not in the grid" % l)
            check(profile(y0[:, j], round(l, 10)) >= max(p) - 1e-7 * (1 + abs(max(p))), "estimated lambda %r of column %d does not maximize the profile likelihood: %r" % (l, j, grid[int(np.argmax(p))]))
        else:
            check(l == w, "lambda of column %d is %r instead of %r" % (j, l, w))
        check(close(y1[:, j], bc(y0[:, j], l), 1e-9, 1e-9), "column %d is not the transformed variable" % j)


def check_data(d, names, a, ne, nx, newx=None, w=None, lam=None, y0=None):
    m = d["data"]
    cols = names[:ne] + (["(Weights)"] if w is not None else []) + names[ne:]
    check(m.dim == [a.shape[0], len(cols)], "dimension is %r instead of %r" % (m.dim, [a.shape[0], len(cols)]))
    check(m.colnames == cols, "columns are %r instead of %r" % (m.colnames, cols))
    off = 1 if w is not None else 0
    if lam is None:
        check(close(m.m[:, :ne], a[:, :ne], 0, 0), "endogenous data differ")
        check(d["lambdas"] is None, "lambdas without a transformation")
    else:
        check_lambdas(lam, d["lambdas"], a[:, :ne], m.m[:, :ne])
    if w is not None:
        check(close(m.m[:, ne], w, 0, 0), "weights differ")
    check(close(m.m[:, ne + off:], a[:, ne:], 0, 0), "exogenous data differ: %r instead of %r" % (m.m[:, ne + off:].tolist(), a[:, ne:].tolist()))
    check(d["numEndo"][0] == ne, "number of endogenous is %r" % d["numEndo"])
    check(d["numExo"][0] == nx, "number of exogenous is %r instead of %d" % (d["numExo"], nx))
    check(d["hasWeight"][0] == (w is not None), "hasWeight is wrong")
    x = d["newX"]
    if newx is None or nx == 0:
        check(x is None, "newX should be NULL")
    else:
        check(x is not None and x.colnames == names[ne:], "columns of newX are %r" % (None if x is None else x.colnames))
        check(close(x.m, newx, 0, 0), "newX differs: %r instead of %r" % (x.m.tolist(), newx.tolist()))


@facet("columns", "two columns or more with an option (names, weights, lambdas or new data)", 1500)
def _columns(s, c):
    ne, nx = s.range(1, 4), s.range(0, 4)
    n = s.range(2, 9)
    icpt, named = s.coin(), s.chance(3, 4)
    lamc, lam = gen_lambdas(s, ne)
    if lam is not None and any(np.isnan(v) for v in lam):
        n += 4
    a = np.array([[gen_num(s, j < ne and lam is not None) for j in range(ne + nx)] for _ in range(n)])
    miss = s.chance(1, 4) and lam is None
    if miss:
        for _ in range(s.range(1, 4)):
            a[s.range(0, n - 1), s.range(0, ne + nx - 1)] = float("nan")
        c.label("missing")
    if any(np.ptp(np.nan_to_num(a[:, j], nan=1.0)) == 0 for j in range(ne + nx)):
        raise Discard()
    names = gen_names(s, ne + nx, "") if named else ["Y%d" % (i + 1) for i in range(ne)] + ["X%d" % (i + 1) for i in range(nx)]
    byname = named and s.coin()
    order = list(range(ne + nx))
    if byname:  # endogenous variables are anywhere
        order = s.perm(ne + nx)
        endo = svec(names[:ne])
        rest = [i for i in order if i >= ne]
    else:
        endo = num(ne)
        rest = list(range(ne, ne + nx))
    given = a[:, order]
    newx, newc = None, "NULL"
    if s.chance(1, 3):
        h = s.range(1, 4)
        nw = np.array([[gen_num(s) for _ in range(nx)] for _ in range(h)]).reshape(h, nx)
        p = s.perm(nx) if named else list(range(nx))
        if named and s.coin():  # other columns are ignored
            newc = mat(np.hstack([nw[:, p], np.full((h, 1), 7.0)]), [names[ne + i] for i in p] + ["unused"])
        elif nx:
            newc = mat(nw[:, p], [names[ne + i] for i in p] if named else None)
        if named and newc != "NULL" and s.coin():
            newc = "as.data.frame(%s)" % newc
        newx = nw[:, [i - ne for i in rest]]
        if icpt:
            newx = np.hstack([np.ones((h, 1)), newx])
        if newc == "NULL":
            newx = None
    w, wc = None, "NULL"
    if s.chance(1, 3):
        w = [round(0.5 + 3 * s.unif(), 3) for _ in range(n)]
        wc = vec(w) if s.coin() else mat(np.array([w]).T)
    inp = as_input(s, given, [names[i] for i in order] if named else None)
    d = c.R("get.data(%s, endogenous=%s, weights=%s, lambdas=%s, newData=%s, addIntercept=%s)" % (inp, endo, wc, lamc, newc, num(icpt)))
    cols = names[:ne] + (["(Intercept)"] if icpt else []) + [names[i] for i in rest]
    b = np.hstack([a[:, :ne]] + ([np.ones((n, 1))] if icpt else []) + [a[:, rest]])
    check_data(d, cols, b, ne, nx + (1 if icpt else 0), newx, w, lam)
    check(d["hasIntercept"][0] == icpt, "hasIntercept is wrong")
    c.nontrivial(ne + nx > 1 and (byname or w is not None or lam is not None or newx is not None))
    for k, l in ((byname, "by name"), (w is not None, "weights"), (lam is not None, "lambdas"), (newx is not None, "new data"), (nx == 0, "no exogenous")):
        if k:
            c.label(l)


@facet("equations", "two equations or more", 1000)
def _equations(s, c):
    k = s.range(2, 7)
    names = gen_names(s, k, "")
    n = s.range(2, 8)
    a = np.array([[gen_num(s, True) for _ in range(k)] for _ in range(n)])
    if s.chance(1, 3):
        for _ in range(s.range(1, 4)):
            a[s.range(0, n - 1), s.range(0, k - 1)] = float("nan")
        c.label("missing")
    ne = s.range(1, min(3, k))
    ys = s.subset(k, ne)
    icpt = s.coin()
    eqs, first = [], []
    col = {i: a[:, i] for i in range(k)}
    for e, y in enumerate(ys):
        xs = [i for i in s.perm(k) if i not in ys][:s.range(0, k - ne)]
        first += [i for i in xs if i not in first]
        t = [names[i] for i in xs]
        if not t:
            t = ["1"]
        elif s.coin():
            t = t + [s.pick(["0", "1"])]
        eqs.append("%s ~ %s" % (names[y], " + ".join(t)))
    lamc, lam = ("NULL", None) if s.chance(3, 4) else ("0.5", [0.5] * ne)
    newc, newx = "NULL", None
    if s.chance(1, 3) and first:
        h = s.range(1, 3)
        nw = np.array([[gen_num(s, True) for _ in range(k)] for _ in range(h)])
        p = [i for i in s.perm(k) if i not in ys or s.coin()]
        newc = as_input(s, nw[:, p], [names[i] for i in p])
        newx = nw[:, first]
        if icpt:
            newx = np.hstack([np.ones((h, 1)), newx])
    arg = eqs[0] if ne == 1 and s.coin() else "list(%s)" % ", ".join(eqs)
    p = s.perm(k)
    nx = len(first) + (1 if icpt else 0)
    d = c.R("get.data(%s, equations=%s, lambdas=%s, newData=%s, addIntercept=%s)" % (as_input(s, a[:, p], [names[i] for i in p]), arg, lamc, newc, num(icpt)))
    cols = [names[i] for i in ys] + (["(Intercept)"] if icpt else []) + [names[i] for i in first]
    b = np.hstack([a[:, ys]] + ([np.ones((n, 1))] if icpt else []) + [a[:, first]])
    check_data(d, cols, b, ne, nx, newx, None, lam)
    c.nontrivial(ne > 1)
    if not first:
        c.label("no predictor")


@facet("rejected data", "every case", 300)
def _bad(s, c):
    n, ne, nx = s.range(3, 6), s.range(1, 2), s.range(1, 3)
    a = np.array([[gen_num(s, True) + 0.01 * i for _ in range(ne + nx)] for i in range(n)])
    names = ["Y%d" % i for i in range(ne)] + ["X%d" % i for i in range(nx)]
    m = mat(a, names)
    kind = s.range(0, 8)
    if kind == 0:
        code = "get.data(%s, endogenous=%d)" % (m, ne + nx + s.range(1, 3))
    elif kind == 1:
        code = "get.data(%s, endogenous=0)" % m
    elif kind == 2:  # an unknown name
        nm = names[:ne]
        nm.insert(s.range(0, ne), "unknown")
        code = "get.data(%s, endogenous=%s)" % (m, svec(nm))
    elif kind == 3:
        code = "get.data(%s, endogenous=%d, weights=%s)" % (m, ne, vec([1.5] * (n + s.pick([-1, 1, 2]))))
    elif kind == 4:
        w = [1.0] * n
        w[s.range(0, n - 1)] = 0
        code = "get.data(%s, endogenous=%d, weights=%s)" % (m, ne, vec(w))
    elif kind == 5:  # new data without one of the exogenous variables
        q = s.range(0, nx - 1)
        code = "get.data(%s, endogenous=%d, newData=%s)" % (m, ne, mat(a[:2, [j for j in range(ne + nx) if j != ne + q]], [names[j] for j in range(ne + nx) if j != ne + q]))
    elif kind == 6:
        a[:, ne + s.range(0, nx - 1)] = 1.0
        if ne + nx < 3:
            raise Discard()
        code = "get.data(%s, endogenous=%d, addIntercept=TRUE)" % (mat(a, names), ne)
    elif kind == 7:
        code = "get.data(as.data.frame(%s), equations=list(%s ~ %s, %s ~ 1))" % (m, names[0], names[-1], names[0])
    else:
        code = "get.data(%s, endogenous=%d, lambdas=%s)" % (m, ne, vec([0.5] * (ne + 1)))
    check(c.err(code) is not None, "invalid arguments are accepted")
    c.nontrivial()
    c.label("kind %d" % kind)


def gen_data(s, c, weights=True, newx=True, minexo=0):
    ne, nx = s.range(1, 4), s.range(minexo, 4)
    n = s.range(2, 8)
    icpt = s.coin()
    if nx + icpt == 0 and minexo:
        icpt = True
    a = np.array([[gen_num(s) + 0.001 * i for _ in range(ne + nx)] for i in range(n)])
    names = gen_names(s, ne + nx, "")
    w = weights and s.chance(1, 4)
    h = s.range(1, 4) if newx and nx and s.coin() else 0
    nw = np.array([[gen_num(s) for _ in range(nx)] for _ in range(h)]).reshape(h, nx)
    code = "d <- get.data(%s, endogenous=%d, weights=%s, newData=%s, addIntercept=%s)" % (
        mat(a, names), ne, vec([1.0 + i for i in range(n)]) if w else "NULL", mat(nw, names[ne:]) if h else "NULL", num(icpt))
    d = c.R(code)
    b = np.hstack([a[:, :ne]] + ([np.array([[1.0 + i] for i in range(n)])] if w else []) + ([np.ones((n, 1))] if icpt else []) + [a[:, ne:]])
    nb = np.hstack(([np.ones((h, 1))] if icpt else []) + [nw])
    exo = (["(Intercept)"] if icpt else []) + names[ne:]
    return dict(ne=ne, nx=nx + (1 if icpt else 0), n=n, icpt=icpt, w=w, h=h, a=b, new=nb, endo=names[:ne], exo=exo)


@facet("rows", "rows are appended or removed", 600)
def _rows(s, c):
    g = gen_data(s, c)
    if s.coin():  # append rows of new data
        mh = s.pick([0, 1, 2, 3, 4, "NA"])
        code = "r <- ldt:::get.data.append.newX(d, maxHorizon=%s)" % num(mh)
        lack = mh != "NA" and mh > 0 and (g["h"] < mh if g["h"] else g["nx"] > (1 if g["icpt"] else 0))
        if lack:
            check(c.err(code) is not None, "the number of new rows is less than the horizon, but no error is given")
            return
        r = c.R(code)
        if g["h"]:
            new = g["new"]
        elif g["icpt"] and g["nx"] == 1 and mh != "NA":
            new = np.ones((mh, 1))
        else:
            new = np.zeros((0, g["nx"]))
        k = g["a"].shape[1] - g["nx"]
        want = np.vstack([g["a"], np.hstack([np.full((new.shape[0], k), np.nan), new])])
        check(close(r["data"].m, want, 0, 0), "appended data: %r instead of %r" % (r["data"].m.tolist(), want.tolist()))
        check(r["data"].colnames == g["endo"] + (["(Weights)"] if g["w"] else []) + g["exo"], "column names changed")
        r2 = c.R("ldt:::get.data.append.newX(r, maxHorizon=%s)" % num(mh))
        if new.shape[0]:
            check(r2["data"].dim == r["data"].dim, "rows are appended again")
        c.nontrivial(new.shape[0] > 0)
        c.label("append")
    else:
        a = g["a"]
        for _ in range(s.range(0, 5)):
            i, j = s.range(0, a.shape[0] - 1), s.range(0, a.shape[1] - 1)
            c.R("d$data[%d,%d] <- %s" % (i + 1, j + 1, s.pick(["NA", "NaN"])))
            a[i, j] = np.nan
        r = c.R("ldt:::get.data.keep.complete(d, FALSE)")
        keep = ~np.isnan(a).any(axis=1)
        check(r["data"].dim == [int(keep.sum()), a.shape[1]], "dimension is %r instead of %r" % (r["data"].dim, [int(keep.sum()), a.shape[1]]))
        check(close(r["data"].m, a[keep], 0, 0), "the remaining rows are wrong")
        c.nontrivial(0 < keep.sum() < len(keep))
        c.label("complete")


@facet("indexation", "partitions or inner groups are given by the user", 1500)
def _index(s, c):
    g = gen_data(s, c, newx=False)
    inner_exo = s.coin()
    outer, inner = (g["endo"], g["exo"]) if inner_exo else (g["exo"], g["endo"])
    ooff, ioff = (0, g["ne"]) if inner_exo else (g["ne"], 0)
    nt = s.range(1, g["ne"])
    bad = None

    def lit(ix, names):
        nonlocal bad
        if s.chance(1, 40) and ix:
            bad = "an index out of range"
            ix = list(ix)
            ix[s.range(0, len(ix) - 1)] = s.pick([-1, len(names)])
            return vec([i + 1 for i in ix])
        if s.coin():
            return svec([names[i] for i in ix])
        return vec([i + 1 for i in ix])
    parts, pc = [[i] for i in range(len(outer))], "NULL"
    if s.chance(2, 3) and outer:
        p = s.subset(len(outer), s.range(1, len(outer)))
        parts = []
        for i in p:
            if parts and s.coin():
                parts[-1].append(i)
            else:
                parts.append([i])
        if s.chance(1, 20) and len(parts) > 1:
            parts[0].append(parts[1][0])
            bad = "common elements"
        pc = rlist(parts, lambda x: lit(x, outer))
    groups = []
    for _ in range(s.range(0 if inner_exo else 1, 4)):
        if inner:
            groups.append(s.subset(len(inner), s.range(1, len(inner))))
    gc = rlist(groups, lambda x: lit(x, inner))
    sizes = [s.range(1, len(parts)) for _ in range(s.range(1, 3))]
    if s.chance(1, 20):
        sizes.append(s.pick([0, len(parts) + 1]))
        bad = "a size out of range"
    if s.chance(1, 30):
        nt = g["ne"] + 1
        bad = "number of targets"
    if not outer:
        bad = "nothing to search"
    if not inner_exo:
        for t in range(nt):
            if not any(t in x for x in groups):
                bad = bad or "a target is missing"
        if any(min(x) >= nt for x in groups):
            bad = bad or "a group without targets"
    code = "ldt:::get.indexation(get.combinations(sizes=%s, partitions=%s, innerGroups=%s, numTargets=%d), d, %s)" % (vec(sizes), pc, gc, nt, num(inner_exo))
    if bad:
        check(c.err(code) is not None, "invalid combinations are accepted: " + bad)
        c.label("rejected")
        return
    r = c.R(code)
    check(list(r["sizes"].v) == sorted(sizes), "sizes are %r" % r["sizes"])
    got = [list(map(int, x.v)) for x in r["partitions"].v]
    want = [sorted(i + ooff for i in x) for x in parts]
    check(got == want, "partitions are %r instead of %r" % (got, want))
    got = [list(map(int, x.v)) for x in r["innerGroups"].v]
    want = []
    for x in groups:
        y = sorted(i + ioff for i in x)
        if y not in want:
            want.append(y)
    check(got == want, "inner groups are %r instead of %r" % (got, want))
    check(r["numTargets"][0] == nt, "number of targets changed")
    c.nontrivial(pc != "NULL" or len(groups) > 1)
    c.label("endogenous inside" if not inner_exo else "exogenous inside")
    if g["w"]:
        c.label("weights")


@facet("removed indices", "some indices are removed", 400)
def _adjust(s, c):
    n = s.range(1, 8)
    rem = sorted(s.subset(n, s.range(0, n)))
    gs = [s.subset(n, s.range(1, n)) for _ in range(s.range(1, 4))]
    r = c.R("ldt:::adjust_indices_after_remove(%s, %s)" % (rlist(gs, vec), vec(rem)))
    left = [i for i in range(n) if i not in rem]
    for g, x in zip(gs, r.v):
        got = [] if x is None else [int(i) for i in x.v]
        want = [left.index(i) for i in g if i in left]
        check(got == want, "indices %r without %r are %r instead of %r" % (g, rem, got, want))
    c.nontrivial(bool(rem))


@facet("prediction bounds", "two targets or horizons", 400)
def _bounds(s, c):
    nt, h, n = s.range(1, 3), s.range(1, 4), s.range(3, 10)
    y = np.array([[round((1 if s.chance(3, 4) else -1) * (0.5 + 3 * s.unif()), 3) for _ in range(nt + 1)] for _ in range(n)])
    k = round(0.1 + 3 * s.unif(), 2)
    g = y[1:, :nt] / y[:-1, :nt] - 1
    mu, sd = g.mean(axis=0), g.std(axis=0, ddof=1)
    if np.min(sd) < 1e-3 or np.min(np.abs(y[-1, :nt])) < 1e-3:
        raise Discard()
    r = c.R("ldt:::update.search.modelchecks(%s, %d, %d, get.search.modelchecks(prediction=TRUE, predictionBound=%s))" % (mat(y), nt, h, num(k)))["predictionBound"]
    check(r["lower"].dim == [h, nt] and r["upper"].dim == [h, nt], "dimension of the bounds")
    for j in range(nt):  # the first horizon
        lo, up = sorted([y[-1, j] * (1 + mu[j] - k * sd[j]), y[-1, j] * (1 + mu[j] + k * sd[j])])
        check(close(r["lower"].m[0, j], lo, 1e-8), "lower bound %r instead of %r" % (r["lower"].m[0, j], lo))
        check(close(r["upper"].m[0, j], up, 1e-8), "upper bound %r instead of %r" % (r["upper"].m[0, j], up))
    c.nontrivial(nt > 1 or h > 1)
