"""C23: searching model sets (R package ldt)"""
from .search import *


def numbers(s, n, a=-2.0, b=2.0):
    return [round(a + (b - a) * s.unif(), 3) for _ in range(n)]


def lit_na(xs, r, k):
    return "matrix(%s, %d, %d)" % (vec(xs), r, k)


@facet("user functions", "three models or more that do not fail", 500)
def _rfunc(s, c):
    ne, nx = s.range(1, 3), s.range(1, 4)
    inner_exo = s.coin()
    names = gen_names(s, ne + nx, "")
    targets = s.range(1, ne)
    co = gen_combos(s, ne, nx, names, inner_exo, targets)
    if len(co.models) > 40 or len(set(map(str, co.models))) < len(co.models):
        raise Discard()
    w = s.chance(1, 3)
    it = gen_items(s)
    tin = [["aic", "sic"][i] for i in s.subset(2, s.range(0, 2))]
    tout = [["rmse", "mae", "crps", "mape", "sign"][i] for i in s.subset(5, s.range(0 if tin else 1, 2))]
    mets = tin + tout
    mins = {m: round(3 * s.unif(), 2) for m in ("aic", "sic", "rmse", "crps", "mape") if s.chance(1, 3)}
    coefs = inner_exo or s.coin()
    length1 = nx if s.coin() else s.range(1, 5)
    items = names[ne:] if length1 == nx else ["Item%d" % (i + 1) for i in range(length1)]
    kind, rows, models, tab, shift = s.range(0, 3), 8, [], [], 1 if w else 0
    extra = s.coin()
    for endo, exo in co.models:
        m = Model([names[i] for i in endo], [names[ne + i] for i in exo], [s.range(0, 9)] if extra else None)
        cols = [i + 1 for i in endo] + ([ne + 1] if w else []) + [ne + shift + i + 1 for i in exo]
        tg = [i for i in endo if i < targets]
        if kind and s.chance(1, 4):
            m.fail = s.pick(["one", "two", "a longer message"])
            tab.append("'%s'=list(error=%s, metrics=NULL, extra=NULL, type1means=NULL, type1vars=NULL)" % (",".join(map(str, cols)), st(m.fail)))
        else:
            met = [numbers(s, len(mets), 0.01, 0.99 if "sign" in mets else 4) for _ in tg]
            if s.chance(1, 10):
                met[0][0] = float("nan")
            me, va = [], []
            for t, row in zip(tg, met):
                for nm, x in zip(mets, row):
                    m.metric[nm, names[t]] = x
                for q in items:
                    if s.chance(1, 5):
                        me.append(float("nan"))
                        va.append(float("nan"))
                    else:
                        me.append(numbers(s, 1)[0])
                        va.append(round(0.1 + s.unif(), 3))
                        m.type1[q, names[t]] = (me[-1], va[-1])
            if all(math.isnan(x) for row in met for x in row):
                raise Discard()
            tab.append("'%s'=list(error=%s, metrics=%s, extra=%s, type1means=%s, type1vars=%s)" % (
                ",".join(map(str, cols)), s.pick(["NULL", "''"]), lit_na([x for r in met for x in r], len(mets), len(tg)),
                "as.numeric(%s)" % vec(m.extra) if extra else "NULL", lit_na(me, length1, len(tg)) if it.type1 else "NULL", lit_na(va, length1, len(tg)) if it.type1 else "NULL"))
        models.append(m)
    x = np.array([[s.range(-9, 9) + 10.0 * j for j in range(ne + nx)] for _ in range(rows)])
    c.R("d <- get.data(%s, endogenous=%d, weights=%s, addIntercept=FALSE)" % (mat(x, names), ne, vec([1.0 + i for i in range(rows)]) if w else "NULL"))
    c.R("tab <- list(%s)" % ", ".join(tab))
    c.R("""seen <- character(0); counts <- integer(0); good <- TRUE
f <- function(columnIndices, numEndo, data, metrics, items, modelChecks) {
  h <- columnIndices[seq_len(numEndo + %d)]; k <- paste(c(h, sort(setdiff(columnIndices, h))), collapse=',')
  seen <<- c(seen, k); counts <<- c(counts, numEndo); good <<- good && identical(data$data, d$data) && is.list(items) && is.list(modelChecks) && identical(metrics$typesIn, %s)
  tab[[k]] }
assign('userfun', f, envir=globalenv())""" % (shift, svec(tin) if tin else "character(0)"))
    r = c.R("ldt:::search.rfunc(d, %s, get.search.metrics(typesIn=%s, typesOut=%s, minMetrics=list(%s)), NULL, %s, get.search.options(), 'userfun', %d, %s)[c('counts','results')]" % (
        co.code, svec(tin) if tin else "NULL", svec(tout) if tout else "NULL", ", ".join("%s=%s" % (k, num(v)) for k, v in mins.items()), it.code, length1, num(inner_exo)))
    seen = list(c.R("seen").v)
    want = sorted(",".join(str(v) for v in [i + 1 for i in e] + ([ne + 1] if w else []) + [ne + shift + i + 1 for i in q]) for e, q in co.models)
    check(sorted(seen) == want, lambda: "the function is called for %r instead of %r" % (sorted(seen), want))
    cn = [int(v) for v in c.R("counts").v]
    check(all(k == len([q for q in z.split(",") if int(q) <= ne]) for k, z in zip(cn, seen)), "the number of endogenous variables given to the function")
    check(c.R("good").v[0] is True, "arguments of the function")
    verify(c, r, models, mets, names[:targets], it, items, names, 1e-9, mins, ["extra"] if extra else None, True)
    if w:
        c.label("weights")
    c.label("inner exogenous" if inner_exo else "inner endogenous")
    c.nontrivial(sum(m.fail is None for m in models) > 2)


def minimums(s, mets, scale):
    """adjusting the weights"""
    return {m: round(scale * (0.6 + 0.4 * s.unif()), 2) if m in ("aic", "sic") else round(0.3 * s.unif(), 2)
            for m in mets if m in ("aic", "sic", "rmse", "mae", "crps", "brierIn", "brierOut") and (m in ("aic", "sic") or s.chance(1, 3))}


def near(x, v):
    return math.isfinite(v) and abs(x - v) < 1e-4 * (1 + abs(v))


class Checks:
    """options that exclude models"""
    def __init__(self, s, c, n, aic, cn=True, r2=True, dof=True):
        self.obs = s.range(n - 6, n) if s.chance(1, 6) else 0
        self.dof = s.range(n - 9, n - 1) if dof and s.chance(1, 6) else 0
        self.aic = round(aic * (0.7 + 0.6 * s.unif()), 3) if s.chance(1, 6) else math.inf
        self.sic = round(aic * (0.7 + 0.6 * s.unif()), 3) if s.chance(1, 6) else math.inf
        self.cn = round(math.exp(1 + 5 * s.unif()), 3) if cn and s.chance(1, 6) else math.inf
        self.r2 = round(-0.2 + 0.8 * s.unif(), 3) if r2 and s.chance(1, 6) else -math.inf
        self.code = "get.search.modelchecks(minObsCount=%d, minDof=%d, maxAic=%s, maxSic=%s, maxConditionNumber=%s, minR2=%s%%s)" % (
            self.obs, self.dof, num(self.aic), num(self.sic), num(self.cn), num(self.r2))

    def fail(self, n, dof, m):
        for x, v in ((m.aic, self.aic), (m.sic, self.sic), (getattr(m, "cn", 0), self.cn), (getattr(m, "r2", 0), self.r2)):
            if near(x, v):
                raise Discard()
        if n < self.obs or dof < self.dof:
            return "observations"
        if getattr(m, "cn", 0) > self.cn:
            return "condition number"
        if m.aic > self.aic or m.sic > self.sic or getattr(m, "r2", 0) < self.r2:
            return "criteria"


def out_metrics(c, models, code, mets, rows):
    """out-of-sample metrics of the models, estimated one by one with the same seed"""
    ok = [m for m in models if m.fail is None]
    if not ok:
        return
    v = c.R("lapply(list(%s), function(f) tryCatch(f(), error=function(e) NULL))" % ", ".join("function() %s$metrics" % code(m) for m in ok))
    for m, e in zip(ok, v.v):
        if e is None:
            raise Discard()
        for nm in mets:
            i = [j for j, q in enumerate(e.rownames) if q == nm]
            check(len(i) == 1, "row of %s in the metrics" % nm)
            for j, t in enumerate(e.colnames):
                m.metric[nm, t] = e.m[i[0], j]
                if math.isnan(e.m[i[0], j]):
                    raise Discard()


@facet("regressions", "three models or more that do not fail", 300)
def _sur(s, c):
    g = sur_data(s, c)
    targets = s.range(1, g.ne)
    co = gen_combos(s, g.ne, g.nx, g.names, False, targets)
    if len(co.models) > 40 or len(set(map(str, co.models))) < len(co.models):
        raise Discard()
    it = gen_items(s)
    tin = [["aic", "sic"][i] for i in s.subset(2, s.range(0, 2))]
    tout = []
    if not tin or s.coin():
        tout = [["sign", "mae", "rmse", "crps"][i] for i in s.subset(3 if g.lam else 4, s.range(1, 2))]
    mets = tin + tout
    ck = Checks(s, c, g.n, g.n * 3.0, True)
    models = []
    for endo, exo in co.models:
        m = Model([g.names[i] for i in endo], [g.names[g.ne + i] for i in exo])
        a = g.a[:, endo + [g.ne + i for i in exo]]
        a = a[~np.isnan(a).any(axis=1)]
        k = len(exo)
        r = Sur(a[:, :len(endo)], a[:, len(endo):])
        if not np.linalg.cond(r.sigma) < 1e6 or not r.cn < 1e6 or not r.r2 < 1 - 1e-6:
            raise Discard()
        m.fail = ck.fail(len(a), len(a) - k, r)
        for i, t in enumerate(endo):
            if t < targets:
                for nm in tin:
                    m.metric[nm, g.names[t]] = r.aic if nm == "aic" else r.sic
                for j, e in enumerate(exo):
                    m.type1[g.names[g.ne + e], g.names[t]] = (r.beta[j, i], r.sd[j, i] ** 2)
        m.coef = dict(((g.names[g.ne + e], g.names[t]), r.beta[j, i]) for j, e in enumerate(exo) for i, t in enumerate(endo))
        models.append(m)
    seed, fs, ratio = s.range(1, 999), s.range(1, 6), round(0.6 + 0.3 * s.unif(), 2)
    if tout:
        lam = lambda m: "NULL" if g.lam is None else vec([g.lam[g.names.index(e)] for e in m.endo])
        out_metrics(c, models, lambda m: "estim.sur(get.data(raw[,%s,drop=FALSE], endogenous=%d, addIntercept=FALSE, lambdas=%s), simFixSize=%d, simTrainRatio=%s, simTrainFixSize=0, simSeed=%d, simMaxConditionNumber=%s)" % (
            svec(m.endo + [n for n in g.names if n in m.exo]), len(m.endo), lam(m), fs, num(ratio), seed, num(ck.cn)), tout, None)
        for m in models:
            for q in m.metric.values():
                if not abs(q) < 1e6:
                    raise Discard()
            m.metric = {k: v for k, v in m.metric.items() if k[1] in g.names[:targets]}
        c.label("simulations")
    mins = minimums(s, mets, min([m.metric[q] for m in models for q in m.metric if q[0] in ("aic", "sic")], default=0))
    c.R("r <- search.sur(d, %s, get.search.metrics(typesIn=%s, typesOut=%s, simFixSize=%d, trainRatio=%s, seed=%d, minMetrics=list(%s)), %s, %s, get.search.options(parallel=%s))" % (
        co.code, svec(tin) if tin else "NULL", svec(tout) if tout else "NULL", fs, num(ratio), -seed, ", ".join("%s=%s" % kv for kv in mins.items()), ck.code % "", it.code, num(s.coin())))
    r = c.R("r[c('counts','results')]")
    verify(c, r, models, mets, g.names[:targets], it, g.names[g.ne:], g.names, 1e-7, mins)

    def coef(e, m, names, key):
        named(e, names, m.endo, "coefs of " + str(key))
        for i, a in enumerate(names):
            for j, b in enumerate(m.endo):
                check(close(e.m[i, j], m.coef[a, b], 1e-6, 1e-7), lambda: "coefficient of %s in the equation of %s estimated again is %r instead of %r (%r)" % (a, b, e.m[i, j], m.coef[a, b], key))
    if not (tout and not math.isinf(ck.cn)):
        reestimate(c, r, models, coef)
    c.nontrivial(sum(m.fail is None for m in models) > 2)


@facet("binary models", "three models or more that do not fail", 300)
def _bin(s, c):
    nx, n = s.range(1, 4), s.range(40, 80)
    whole = s.chance(1, 6)
    x = np.array([[float(s.range(-3, 3)) if whole else s.norm() for _ in range(nx)] for _ in range(n)])
    b = np.array([0.5 * s.norm() for _ in range(nx)])
    y = (x @ b + 1.3 * np.array([s.norm() for _ in range(n)]) > 0).astype(float)
    w = np.array([round(0.4 + 1.5 * s.unif(), 3) for _ in range(n)]) if s.chance(1, 3) else None
    nm = gen_names(s, 1 + nx, "")
    names = [nm[0], "(Intercept)"] + nm[1:]
    a = np.column_stack([y, x])
    if not whole and s.chance(1, 4):
        for _ in range(s.range(1, 3)):
            a[s.range(0, n - 1), s.range(1, nx)] = float("nan")
        c.label("missing")
    ml = intmat if whole else mat
    c.R("d <- get.data(%s, endogenous=1, weights=%s)" % (ml(a, nm), "NULL" if w is None else vec(w)))
    full = np.column_stack([y, np.ones(n), a[:, 1:]])
    c.R("raw <- %s" % mat(full, names))
    if w is not None:
        c.R("w <- %s" % vec(w))
        c.label("weights")
    co = gen_combos(s, 1, nx + 1, names, False, 1, maxinner=1)
    parts, fix = co.parts, co.fix
    if parts[0] != [0]:
        parts = [[i for i in p if i != 0] for p in parts]
        fix -= sum(not p for p in parts[:fix])
        parts = [[0]] + [p for p in parts if p]
        fix += 1
        c.label("intercept is added")
    fix = max(fix, 1)
    if not all(fix <= z <= len(parts) for z in co.sizes):
        raise Discard()
    ms = enumerate_models(parts, co.sizes, fix)
    it = gen_items(s)
    links = s.pick([[0], [1], [0, 1]])
    if not ms or len(ms) * len(links) > 30:
        raise Discard()
    cs = gen_costs(s)
    we = s.coin()
    ins = ["aic", "sic", "brierIn", "aucIn"] + (["frequencyCostIn"] if cs else [])
    tin = [ins[i] for i in s.subset(len(ins), s.range(0, 3))]
    tout = []
    if not tin or s.chance(1, 3):
        outs = ["brierOut", "aucOut"] + (["frequencyCostOut"] if cs else [])
        tout = [outs[i] for i in s.subset(len(outs), s.range(1, 2))]
    mets = tin + tout
    if not any(q.startswith("freq") for q in mets):
        cs = []
    ck = Checks(s, c, n, n * 1.4, False, False)
    models = []
    for exo in ms:
        f = full[:, [0] + [i + 1 for i in exo]]
        keep = ~np.isnan(f).any(axis=1)
        f = f[keep]
        ww = None if w is None else w[keep]
        we_ = ww if we else None
        for l in links:
            m = Model([names[0]], [names[1 + i] for i in exo], [l])
            r = Bin(f[:, 0], f[:, 1:], ww, l == 1)
            robust(f[:, 0], r.prob, [q for q, _ in cs])
            m.fail = ck.fail(len(f), len(f) - len(exo), r)
            v = dict(aic=r.aic, sic=r.sic, brierIn=brier(f[:, 0], r.prob, we_), aucIn=auc(f[:, 0], r.prob, we_))
            if cs:
                v["frequencyCostIn"] = float(np.mean([cost(q, f[:, 0], r.prob, we_) for q, _ in cs]))
            for q in tin:
                m.metric[q, names[0]] = v[q]
            for j, e in enumerate(exo):
                m.type1[names[1 + e], names[0]] = (r.beta[j], r.var[j, j])
            m.coef = dict((names[1 + e], r.beta[j]) for j, e in enumerate(exo))
            models.append(m)
    seed, fs, ratio = s.range(1, 999), s.range(1, 4), round(0.6 + 0.3 * s.unif(), 2)
    if tout:
        out_metrics(c, models, lambda m: "estim.bin(get.data(raw[,%s,drop=FALSE], endogenous=1, addIntercept=FALSE, weights=%s), linkFunc='%s', costMatrices=%s, optimOptions=%s, simFixSize=%d, simTrainRatio=%s, simTrainFixSize=0, simSeed=%d, weightedEval=%s)" % (
            svec(m.endo + [q for q in names if q in m.exo]), "NULL" if w is None else "w", ["logit", "probit"][m.extra[0]], cost_code(cs), NEWTON, fs, num(ratio), seed, num(we)), tout, None)
        c.label("simulations")
    mins = minimums(s, mets, min([m.metric[q] for m in models for q in m.metric if q[0] in ("aic", "sic")], default=0))
    c.R("r <- suppressWarnings(search.bin(d, %s, get.search.metrics(typesIn=%s, typesOut=%s, simFixSize=%d, trainRatio=%s, seed=%d, weightedEval=%s, minMetrics=list(%s)), %s, %s, get.search.options(parallel=%s), costMatrices=%s, searchLogit=%s, searchProbit=%s, optimOptions=%s))" % (
        co.code, svec(tin) if tin else "NULL", svec(tout) if tout else "NULL", fs, num(ratio), -seed, num(we), ", ".join("%s=%s" % kv for kv in mins.items()), ck.code % "", it.code, num(s.coin()),
        cost_code(cs), num(0 in links), num(1 in links), NEWTON))
    r = c.R("r[c('counts','results')]")
    verify(c, r, models, mets, names[:1], it, names[1:], names, 1e-5, mins)

    def coef(e, m, nn, key):
        named(e, nn, m.endo, "coefs of " + str(key))
        for i, q in enumerate(nn):
            check(close(e.m[i, 0], m.coef[q], 1e-4, 1e-5), lambda: "coefficient of %s estimated again is %r instead of %r (%r)" % (q, e.m[i, 0], m.coef[q], key))
    reestimate(c, r, models, coef, False)  # a maximum, up to rounding
    c.nontrivial(sum(m.fail is None for m in models) > 2)


@facet("time series", "three models or more that do not fail", 300)
def _varma(s, c):
    ne, nx0, icpt = s.range(1, 3), s.range(0, 2), s.coin()
    n = s.range(34, 50)
    h = s.range(0, 3)
    x = np.array([[s.norm() for _ in range(nx0)] for _ in range(n + h)]).reshape(n + h, nx0)
    e = np.array([[s.norm() for _ in range(ne)] for _ in range(n)])
    A = np.array([[0.25 * math.tanh(s.norm()) + (0.3 if i == j else 0) for j in range(ne)] for i in range(ne)])
    y = np.zeros((n, ne))
    for t in range(n):
        y[t] = e[t] + (y[t - 1] @ A if t else 0) + (0.5 * x[t].sum() if nx0 else 0)
    level = s.pick([0, 0, 30])
    y = np.round(y + level, 4)
    nm = gen_names(s, ne + nx0, "")
    lam = None
    if level and s.chance(1, 3):
        lam = [s.pick([0.0, 0.5, 1.0]) for _ in range(ne)]
        c.label("lambda")
    targets = s.range(1, ne)
    c.R("d <- get.data(%s, endogenous=%d, addIntercept=%s, newData=%s, lambdas=%s)" % (
        mat(np.hstack([y, x[:n]]), nm), ne, num(icpt), mat(x[n:], nm[ne:]) if h and nx0 else "NULL", "NULL" if lam is None else vec(lam)))
    names = nm[:ne] + (["(Intercept)"] if icpt else []) + nm[ne:]
    X = np.hstack(([np.ones((n + h, 1))] if icpt else []) + [x])
    nx = X.shape[1]
    z = y if lam is None else np.column_stack([boxcox(y[:, j], lam[j]) for j in range(ne)])
    co = gen_combos(s, ne, nx, names, True, targets, maxinner=2)
    if any(co.fix > q for q in co.sizes):
        raise Discard()
    sea = s.pick([0, 0, 0, 4])
    mp = [s.range(0 if sea else 1, 2), s.pick([0, 0, 1]), 0] + ([s.range(0, 1), s.pick([0, 0, 1]), 0] if sea else [0, 0, 0])
    if mp[0] + mp[3] == 0:
        mp[0] = 1
    pars = [(p, d, 0, P, D, 0) for p in range(mp[0] + 1) for d in range(mp[1] + 1) for P in range(mp[3] + 1) for D in range(mp[4] + 1) if p or P]
    if len(pars) * len(co.models) > 30:
        raise Discard()
    it = gen_items(s, h > 0, True)
    tin = [["aic", "sic"][i] for i in s.subset(2, s.range(0, 2))]
    tout = []
    hz, fs = [1], 2
    if not tin or s.chance(1, 3):
        outs = ["sign", "direction", "mae", "rmse", "crps"]
        tout = [outs[i] for i in s.subset(4 if lam else 5, s.range(1, 2))]
        hz = sorted(i + 1 for i in s.subset(3, s.range(1, 2)))
        fs = s.range(hz[-1], 5)
        c.label("simulations")
    mets = tin + tout
    ck = Checks(s, c, n, n * 3.0, False, False, False)
    bound, lo, hi = "", None, None
    if h and lam is None and s.chance(1, 3):
        if h == 1 and s.coin():
            mult = round(0.5 + 3 * s.unif(), 2)
            gr = y[1:] / y[:-1] - 1
            if not np.all(np.isfinite(gr)):
                raise Discard()
            q1, q2 = (1 + gr.mean(axis=0) - mult * gr.std(axis=0, ddof=1)) * y[-1], (1 + gr.mean(axis=0) + mult * gr.std(axis=0, ddof=1)) * y[-1]
            lo, hi = np.minimum(q1, q2)[None, :targets], np.maximum(q1, q2)[None, :targets]
            bound = ", prediction=TRUE, predictionBound=%s" % num(mult)
        else:
            lo = np.array([[round(level - 0.5 - 3 * s.unif(), 2) for _ in range(targets)] for _ in range(h)])
            hi = np.array([[round(level + 0.5 + 3 * s.unif(), 2) for _ in range(targets)] for _ in range(h)])
            bound = ", prediction=TRUE, predictionBound=list(lower=%s, upper=%s)" % (mat(lo), mat(hi))
        c.label("bounds")
    models = []
    for par in pars:
        for endo, exo in co.models:
            m = Model([names[i] for i in endo], [names[ne + i] for i in exo], par)
            xs = X[:, exo] if exo else None
            v = Var(par[0], par[1], par[3], par[4], sea)
            T = n - v.mx - v.dd
            if T - fs - 2 < 2 * (len(v.ar) * len(endo) + len(exo) + len(endo)):
                raise Discard()
            v.fit(z[:, endo], None if xs is None else xs[:n])
            if not v.cn < 1e6 or np.max(np.abs(v.beta)) > 1e3:
                raise Discard()
            v.r2 = 0
            del v.cn
            m.fail = ck.fail(n, 0, v)
            if h:
                f, var = v.forecast(h, None if xs is None else xs[n:])
                if not np.max(np.abs(f)) < 1e4:
                    raise Discard()
            for i, t in enumerate(endo):
                if t < targets:
                    for q in tin:
                        m.metric[q, names[t]] = v.aic if q == "aic" else v.sic
                    for k in range(h):
                        m.type1["Horizon%d" % (k + 1), names[t]] = (f[k, i], var[k, i])
                        if lo is not None:
                            if near(f[k, i], lo[k, t]) or near(f[k, i], hi[k, t]):
                                raise Discard()
                            if not lo[k, t] <= f[k, i] <= hi[k, t]:
                                m.fail = m.fail or "bounds"
            m.coef = v.beta
            m.v = v
            models.append(m)
    prev = s.coin()
    if tout:
        c.R("raw <- %s" % mat(np.hstack([y, X[:n]]), names))
        out_metrics(c, models, lambda m: "estim.varma(get.data(raw[,%s,drop=FALSE], endogenous=%d, addIntercept=FALSE, lambdas=%s), params=%s, seasonsCount=%d, maxHorizon=0, simFixSize=%d, simHorizons=%s, simUsePreviousEstim=%s)" % (
            svec(m.endo + [q for q in names if q in m.exo]), len(m.endo), "NULL" if lam is None else vec([lam[names.index(q)] for q in m.endo]), ivec(m.extra), sea, fs, ivec(hz), num(prev)), tout, None)
        for m in models:
            if any(not abs(q) < 1e6 for q in m.metric.values()):
                raise Discard()
            m.metric = {k: v for k, v in m.metric.items() if k[1] in names[:targets]}
    mins = minimums(s, mets, min([m.metric[q] for m in models for q in m.metric if q[0] in ("aic", "sic")], default=0))
    c.R("r <- suppressWarnings(search.varma(d, %s, get.search.metrics(typesIn=%s, typesOut=%s, simFixSize=%d, horizons=%s, minMetrics=list(%s)), %s, %s, get.search.options(parallel=%s), maxParams=%s, seasonsCount=%d, maxHorizon=%d, simUsePreviousEstim=%s))" % (
        co.code if nx else co.code.replace("innerGroups=" + co.icode, "innerGroups=list()"), svec(tin) if tin else "NULL", svec(tout) if tout else "NULL", fs, ivec(hz), ", ".join("%s=%s" % kv for kv in mins.items()),
        ck.code % bound, it.code, num(s.coin()), vec([float(q) for q in mp]), sea, h, num(prev)))
    r = c.R("r[c('counts','results')]")
    verify(c, r, models, mets, names[:targets], it, ["Horizon%d" % (k + 1) for k in range(h)], names, 1e-5, mins)

    def coef(e, m, nn, key):
        check(list(e.colnames) == m.endo and e.m.shape == m.coef.shape, lambda: "coefs of %r" % (key,))
        check(list(e.rownames)[len(m.v.ar) * len(m.endo):] == nn, lambda: "rows of the coefs of %r are %r" % (key, e.rownames))
        o = [names[ne:].index(q) for q in nn]
        k = len(m.v.ar) * len(m.endo)
        want = np.vstack([m.coef[:k], m.coef[k:][np.argsort(np.argsort(o))]]) if nn else m.coef
        check(close(e.m, want, 1e-4, 1e-5), lambda: "coefficients of %r estimated again are %r instead of %r" % (key, e.m.tolist(), want.tolist()))
    reestimate(c, r, models, coef)
    c.label("seasonal") if sea else None
    c.nontrivial(sum(m.fail is None for m in models) > 2)
