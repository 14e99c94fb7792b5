"""C22: estimating single models (R package ldt)"""
from .models import *


def accessors(c, g, y, x, coefs, resid, logl, aic, sic, icr, endo, exo):
    """generic functions of an estimated model e"""
    same(c.R("endogenous(e)"), y, "endogenous()")
    j = 1 + (len(c.code) % len(endo))
    same(c.R("endogenous(e, %s)" % st(endo[j - 1])), y[:, [j - 1]], "endogenous() of one equation")
    for fn, a in (("coef", coefs), ("resid", resid), ("fitted", y - resid)):
        r = c.R("%s(e)" % fn)
        extra = dict(pearson=False)
        same(r, a, fn + "()", 1e-5, 1e-6)
        if fn == "coef":
            named(r, exo, endo, "coef()")
        r = c.R("%s(e, %d)" % (fn, j))
        same(r, a[:, [j - 1]], "%s() of equation %d" % (fn, j), 1e-5, 1e-6)
    for fn, v in (("logLik", logl), ("AIC", aic), ("BIC", sic)):
        if not math.isnan(v) and icr:
            same_num(c.R("as.numeric(%s(e))" % fn), v, fn + "()", 1e-6, 1e-5)


@facet("regressions", "two equations and two regressors or more", 900)
def _sur(s, c):
    g = gen_reg(s, c)
    r = Sur(g.y, g.x)
    if not np.linalg.cond(r.sigma) < 1e8:
        raise Discard()
    e = c.R("e <- estim.sur(d)")
    q = e["estimations"]
    for k, w, rn, cn in (("Y", g.y, None, g.endo), ("X", g.x, None, g.exo), ("coefs", r.beta, g.exo, g.endo), ("stds", r.sd, g.exo, g.endo), ("tstats", r.t, g.exo, g.endo),
                         ("pValues", r.p, g.exo, g.endo), ("resid", r.resid, None, g.endo), ("sigma", r.sigma, g.endo, g.endo)):
        same(q[k], w, k, 1e-5, 1e-6)
        named(q[k], rn, cn, k)
    check(q["isRestricted"] is None, "restrictions are reported")
    m = e["metrics"]
    named(m, ["logL", "aic", "sic", "hqic", "r2"], g.endo, "metrics")
    for i, v in enumerate((r.logl, r.aic, r.sic, r.hqic, r.r2)):
        for j in range(g.ne):
            check(close(m.m[i, j], v, 1e-6, 1e-5), lambda: "%s is %r instead of %r" % (m.rownames[i], m.m[i, j], v))
    p = c.R("predict(e)")
    if g.newx is None:
        check(e["projection"] is None and p["means"] is None, "projections without new data")
    else:
        mean, var = r.project(g.newx)
        same(e["projection"]["means"], mean, "projected means", 1e-6, 1e-6)
        same(e["projection"]["vars"], var, "projected variances", 1e-6, 1e-6)
        same(p["means"], mean, "predict()", 1e-6, 1e-6)
        same(p["vars"], var, "variances of predict()", 1e-6, 1e-6)
    check(e["simulation"] is None, "a simulation is reported")
    same(c.R("exogenous(e, %d)" % g.ne), g.x, "exogenous()")
    accessors(c, g, g.y, g.x, r.beta, r.resid, r.logl, r.aic, r.sic, True, g.endo, g.exo)
    h = np.sum((g.x @ np.linalg.inv(g.x.T @ g.x)) * g.x, axis=1)
    if np.max(h) < 0.999:
        for eq in range(1, g.ne + 1):
            z = c.R("resid(e, %d, standardized=TRUE)" % eq)
            u = r.resid[:, eq - 1]
            same(z, (u / np.sqrt(1 - h) / np.std(u, ddof=1))[:, None], "standardized residuals", 1e-5, 1e-6)
        if g.ne > 1:
            z = c.R("resid(e, standardized=TRUE)")
            same(z, r.resid / np.sqrt(1 - h)[:, None] / np.std(r.resid, axis=0, ddof=1)[None, :], "standardized residuals of all equations", 1e-5, 1e-6)
    c.nontrivial(g.ne > 1 and g.k > 1)


@facet("restricted regressions", "some but not all coefficients are restricted", 500)
def _rest(s, c):
    g = gen_reg(s, c, missing=False, lam=False)
    km = g.k * g.ne
    sig = s.coin()
    Sur(g.y, g.x)
    if sig:  # significance search
        a = s.pick([0.01, 0.05, 0.1, 0.3, 0.5])
        it = s.range(1, 4)
        free = list(range(km))
        # replay: drop the insignificant coefficients, estimate again
        cur = Sur(g.y, g.x)
        for _ in range(it):
            p = cur.p.T.reshape(-1)
            if np.min(np.abs(p[free] / a - 1)) < 1e-3:
                raise Discard()
            nf = [i for i in free if p[i] < a]
            if not nf:
                raise Discard()
            if len(nf) == len(free):
                break
            free = nf
            R = np.eye(km)[:, free]
            cur = Sur(g.y, g.x, R, sigma0=cur.sigma)  # the covariance of the previous step
        if len(free) < km and np.ptp(cur.fitted) < 1e-9:
            raise Discard()
        code = "e <- estim.sur(d, searchSigMaxIter=%d, searchSigMaxProb=%s)" % (it, num(a))
    else:
        free = sorted(s.subset(km, s.range(1, km)))
        R = np.eye(km)[:, free]
        lit = intmat if s.coin() else mat
        code = "e <- estim.sur(d, restriction=%s)" % lit(R)
    R = np.eye(km)[:, free]
    r = cur if sig else Sur(g.y, g.x, R)
    if not np.linalg.cond(r.sigma) < 1e8:
        raise Discard()
    e = c.R(code)
    q = e["estimations"]
    rest = np.ones(km)
    rest[free] = 0
    rest = rest.reshape(g.ne, g.k).T
    if q["isRestricted"] is None:
        check(rest.sum() == 0, "no restriction is reported")
    else:
        same(q["isRestricted"], rest, "isRestricted")
        named(q["isRestricted"], g.exo, g.endo, "isRestricted")
    for k, v in (("coefs", r.beta), ("stds", r.sd), ("resid", r.resid), ("sigma", r.sigma)):
        same(q[k], v, k, 1e-5, 1e-5)
    check(np.all(q["coefs"].m[rest == 1] == 0), "a restricted coefficient is not zero")
    b = q["coefs"].m
    eq = s.range(1, g.ne)
    f = [i for i in range(g.k) if rest[i, eq - 1] == 0]
    x = c.R("exogenous(e, %d)" % eq)
    same(x, g.x[:, f], "exogenous() of a restricted equation")
    named(x, None, [g.exo[i] for i in f], "exogenous()") if f else None
    l = c.R("coef(e, removeZeroRest=TRUE)")
    if rest.sum() > 0:
        check(isinstance(l, L) and len(l.v) == g.ne, "coef(removeZeroRest=TRUE) is not a list of equations")
        for j in range(g.ne):
            want = b[rest[:, j] == 0, j]
            got = [] if l.v[j] is None else l.v[j].v
            check(close(got, want, 1e-9), lambda: "coefficients of equation %d without the restricted ones: %r instead of %r" % (j + 1, got, want.tolist()))
    same(c.R("coef(e, %d)" % eq), b[:, [eq - 1]], "coef() of an equation")
    same(c.R("fitted(e)"), g.x @ b, "fitted()", 1e-6, 1e-6)
    if g.newx is not None:
        mean, var = r.project(g.newx)
        same(e["projection"]["means"], mean, "projected means", 1e-5, 1e-5)
        same(e["projection"]["vars"], var, "projected variances", 1e-5, 1e-5)
    c.label("significance search" if sig else "given")
    c.nontrivial(0 < rest.sum())


@facet("binary models", "two regressors or more", 900)
def _bin(s, c):
    g = gen_bin(s, c)
    probit, we = s.coin(), s.coin()
    r = Bin(g.y, g.x, g.w, probit)
    cs = gen_costs(s)
    robust(g.y, r.prob, [a for a, _ in cs])
    e = c.R("e <- estim.bin(d, linkFunc='%s', costMatrices=%s, weightedEval=%s, optimOptions=%s)" % ("probit" if probit else "logit", cost_code(cs), num(we), NEWTON))
    q = e["estimations"]
    col = lambda v: np.asarray(v).reshape(-1, 1)
    for k, w, rn, cn in (("Y", col(g.y), None, g.endo), ("X", g.x, None, g.exo), ("coefs", col(r.beta), g.exo, g.endo), ("stds", col(r.sd), g.exo, g.endo), ("zstats", col(r.z), g.exo, g.endo),
                         ("pValues", col(r.p), g.exo, g.endo), ("resid", col(g.y - r.prob), None, g.endo), ("gammaVar", r.var, None, None),
                         ("residPearson", col((g.y - r.prob) / np.sqrt(r.prob * (1 - r.prob))), None, g.endo)):
        same(q[k], w, k, 2e-4, 1e-4)
        named(q[k], rn, cn, k)
    w = g.w if we else None
    m = e["metrics"]
    named(m, ["logL", "aic", "sic", "brierIn", "aucIn", "frequencyCostIn"], g.endo, "metrics")
    want = [r.logl, r.aic, r.sic, brier(g.y, r.prob, w), auc(g.y, r.prob, w), None]
    if cs:
        want[5] = float(np.mean([cost(a, g.y, r.prob, w) for a, _ in cs]))
    for i, v in enumerate(want):
        if v is not None:
            check(close(m.m[i, 0], v, 1e-4, 1e-5), lambda: "%s is %r instead of %r" % (m.rownames[i], m.m[i, 0], v))
    p = c.R("predict(e)")
    if g.newx is not None:
        pr = r.predict(g.newx)
        pr = np.column_stack([1 - pr, pr])
        same(e["projection"], pr, "projected probabilities", 1e-4, 1e-5)
        named(e["projection"], None, ["Y=0", "Y=1"], "projection")
        same(p["means"], pr, "predict()", 1e-4, 1e-5)
    else:
        check(p["means"] is None, "predictions without new data")
    same(c.R("endogenous(e)"), col(g.y), "endogenous()")
    same(c.R("exogenous(e)"), g.x, "exogenous()")
    same(c.R("coef(e)"), col(r.beta), "coef()", 2e-4, 1e-4)
    same(c.R("fitted(e)"), col(r.prob), "fitted()", 1e-4, 1e-4)
    same(c.R("resid(e, pearson=FALSE)"), col(g.y - r.prob), "resid()", 1e-4, 1e-4)
    same_num(c.R("as.numeric(logLik(e))"), r.logl, "logLik()", 1e-5, 1e-5)
    same_num(c.R("as.numeric(AIC(e))"), r.aic, "AIC()", 1e-5, 1e-5)
    same_num(c.R("as.numeric(BIC(e))"), r.sic, "BIC()", 1e-5, 1e-5)
    h = np.sum((g.x @ np.linalg.inv(g.x.T @ g.x)) * g.x, axis=1)
    if np.max(h) < 0.99:
        pe = s.coin()
        u = (g.y - r.prob) / (np.sqrt(r.prob * (1 - r.prob)) if pe else 1)
        z = u / (np.std(u, ddof=1) * np.sqrt((1 - h) * (1 if g.w is None else g.w)))
        same(c.R("resid(e, standardized=TRUE, pearson=%s)" % num(pe)), col(z), "standardized residuals", 1e-3, 1e-3)
    if cs:
        c.label("cost matrices")
    c.nontrivial(g.x.shape[1] > 2)


@facet("vector autoregressions", "several equations with exogenous data or differences", 700)
def _var(s, c):
    h = s.range(0, 4)
    g = gen_var(s, c, h)
    v = g.v.fit(g.y, g.x)
    e = c.R("e <- estim.varma(d, %s, maxHorizon=%d)" % (g.par, h))
    q = e["estimations"]
    rows = ["%s(-%d)" % (y, l) for l in g.v.ar for y in g.endo] + g.exo
    for k, w, rn, cn in (("Y", v.W, None, g.endo), ("X", v.X, None, rows), ("coefs", v.beta, rows, g.endo), ("stds", v.sd, rows, g.endo), ("tstats", v.t, rows, g.endo),
                         ("pValues", v.p, rows, g.endo), ("resid", v.resid, None, g.endo), ("sigma", v.sigma, g.endo, g.endo)):
        same(q[k], w, k, 1e-4, 1e-5)
        named(q[k], rn, cn, k)
    m = e["metrics"]
    named(m, ["logL", "aic", "sic"], g.endo, "metrics")
    for i, z in enumerate((v.logl, v.aic, v.sic)):
        check(close(m.m[i], np.full(g.g, z), 1e-6, 1e-4), lambda: "%s is %r instead of %r" % (m.rownames[i], m.m[i].tolist(), z))
    st0 = g.v.mx + g.v.dd
    pad = np.full((st0, g.g), np.nan)
    res = np.vstack([pad, v.resid])
    same(c.R("resid(e)"), res, "resid()", 1e-5, 1e-5)
    same(c.R("fitted(e)"), g.y - res, "fitted()", 1e-5, 1e-5)
    eq = s.range(1, g.g)
    same(c.R("resid(e, %d)" % eq), res[:, [eq - 1]], "resid() of an equation", 1e-5, 1e-5)
    same(c.R("coef(e, %s)" % st(g.endo[eq - 1])), v.beta[:, [eq - 1]], "coef() of an equation", 1e-4, 1e-5)
    same(c.R("exogenous(e, %d)" % eq), v.X, "exogenous()")
    same_num(c.R("as.numeric(AIC(e))"), v.aic, "AIC()", 1e-6, 1e-4)
    hat = np.sum((v.X @ np.linalg.inv(v.X.T @ v.X)) * v.X, axis=1)
    if np.max(hat) < 0.99:
        u = v.resid[:, eq - 1] / np.sqrt(1 - hat) / np.std(v.resid[:, eq - 1], ddof=1)
        same(c.R("resid(e, %d, standardized=TRUE)" % eq), np.concatenate([pad[:, 0], u])[:, None], "standardized residuals", 1e-4, 1e-4)
    if h:
        f, var = v.forecast(h, g.xf)
        if np.max(np.abs(f)) > 1e4 * (1 + np.max(np.abs(g.y))):
            raise Discard()
        p = e["prediction"]
        check(p["startIndex"][0] == st0 + 1, "startIndex is %r instead of %d" % (p["startIndex"][0], st0 + 1))
        named(p["means"], g.endo, None, "predicted means")
        same(V_cols(p["means"], st0), f.T, "predictions", 1e-5, 1e-5)
        same(V_cols(p["vars"], st0), var.T, "variances of the predictions", 1e-4, 1e-5)
        ac = s.range(0, min(4, g.n))
        sf = s.coin()
        pr = c.R("p <- predict(e, actualCount=%d%s)" % (ac, ", startFrequency=tdata::f.yearly(1990)" if sf else ""))
        same(pr["means"], np.vstack([g.y[g.n - ac:], f]), "predict()", 1e-5, 1e-5)
        same(pr["vars"], np.vstack([np.zeros((ac, g.g)), var]), "variances of predict()", 1e-4, 1e-5)
        first = (1990 if sf else 1) + g.n - ac
        named(pr["means"], [str(first + i) for i in range(ac + h)], g.endo, "predict()")
        named(pr["vars"], [str(first + i) for i in range(ac + h)], None, "predict()")
    else:
        check(e["prediction"] is None, "predictions without a horizon")
    c.nontrivial(g.g > 1 and (g.nx > 0 or g.v.dd > 0))
    if g.s:
        c.label("seasonal")
    if g.v.dd:
        c.label("differences")


@facet("components", "components replace several variables", 400)
def _pca(s, c):
    kind = s.range(0, 2)
    if kind == 0:
        g = gen_reg(s, c, maxne=2, maxnx=4, lam=False, whole=False)
        fit = lambda x: Sur(g.y, x)
    elif kind == 1:
        g = gen_bin(s, c, maxnx=4)
        fit = lambda x: Bin(g.y, x, g.w)
    else:
        g = gen_var(s, c)
        fit = lambda x: g.v.fit(g.y, x)
        if g.nx == 0:
            raise Discard()
    icpt = 1 if g.exo and g.exo[0] == "(Intercept)" else 0
    nx = g.x.shape[1] - icpt
    if nx < 1:
        raise Discard()
    ig = s.range(0, nx - 1)
    cnt = s.range(1, nx - ig)
    byrate = s.coin()
    a, new, sv = pca(g.x[:, icpt + ig:], g.newx[:, icpt + ig:] if kind < 2 and g.newx is not None else None)
    if byrate:
        rate = round(0.2 + 0.75 * s.unif(), 3)
        cum = np.cumsum(sv ** 2) / np.sum(sv ** 2)
        if np.min(np.abs(cum - rate)) < 1e-6:
            raise Discard()
        cnt = int(np.argmax(cum >= rate)) + 1
        mx = s.pick([1, 2, 1000])
        cnt = min(cnt, mx)
        opt = "get.options.pca(ignoreFirst=%d, exactCount=0, cutoffRate=%s, max=%d)" % (ig, num(rate), mx)
    else:
        opt = "get.options.pca(ignoreFirst=%d, exactCount=%d)" % (ig, cnt)
    x = np.hstack([g.x[:, :icpt + ig], a[:, :cnt]])
    r = fit(x)
    names = g.exo[:icpt + ig] + ["X_PC%d" % (i + 1) for i in range(cnt)]
    if kind == 0:
        e = c.R("e <- estim.sur(d, pcaOptionsX=%s)" % opt)
        same(c.R("fitted(e)"), r.fitted, "fitted()", 1e-4, 1e-5)
        check(close(e["metrics"].m[0], np.full(g.ne, r.logl), 1e-6, 1e-4), "log-likelihood")
        named(e["estimations"]["coefs"], names, g.endo, "coefs")
        if g.newx is not None:
            nx_ = np.hstack([g.newx[:, :icpt + ig], new[:, :cnt]])
            mean, var = r.project(nx_)
            same(e["projection"]["means"], mean, "projected means", 1e-4, 1e-5)
            same(e["projection"]["vars"], var, "projected variances", 1e-4, 1e-5)
    elif kind == 1:
        e = c.R("e <- estim.bin(d, pcaOptionsX=%s, optimOptions=%s)" % (opt, NEWTON))
        same(c.R("fitted(e)"), r.prob[:, None], "fitted()", 1e-3, 1e-4)
        named(e["estimations"]["coefs"], names, g.endo, "coefs")
        check(close(e["metrics"].m[0, 0], r.logl, 1e-5, 1e-4), "log-likelihood")
        if g.newx is not None:
            pr = r.predict(np.hstack([g.newx[:, :icpt + ig], new[:, :cnt]]))
            same(e["projection"], np.column_stack([1 - pr, pr]), "projected probabilities", 1e-3, 1e-4)
    else:
        e = c.R("e <- estim.varma(d, %s, pcaOptionsX=%s)" % (g.par, opt))
        named(e["estimations"]["coefs"], ["%s(-%d)" % (y, l) for l in g.v.ar for y in g.endo] + names, g.endo, "coefs")
        same(e["estimations"]["resid"], r.resid, "resid", 1e-4, 1e-4)
        check(close(e["metrics"].m[0], np.full(g.g, r.logl), 1e-6, 1e-4), "log-likelihood")
    sc = e["estimations"]["X"].m
    j = sc.shape[1] - cnt
    for i in range(cnt):
        check(abs(abs(np.dot(sc[:, j + i], x[-len(sc):, icpt + ig + i])) - np.dot(sc[:, j + i], sc[:, j + i])) < 1e-5 * (1 + np.dot(sc[:, j + i], sc[:, j + i])), "component %d" % (i + 1))
    c.label(["regression", "binary", "autoregression"][kind])
    c.nontrivial(nx - ig > 1)


@facet("forecast simulation", "several valid samples and horizons", 400)
def _varsim(s, c):
    g = gen_var(s, c)
    lam = None
    cnt = s.range(1, 6)
    hz = sorted(i + 1 for i in s.subset(4, s.range(1, 3)))
    rows, valid, counter = [], 0, 0
    METS = ["sign", "direction", "mae", "mape", "rmse", "rmspe", "crps"]
    agg = np.zeros((7, g.g))
    pos = np.all(g.y > 0.01)
    for se in range(cnt, 0, -1):
        eh = min(se, hz[-1])
        if eh < hz[0]:
            break
        n = g.n - se
        if n - g.v.mx - g.v.dd < max(g.v.mx + g.v.dd, g.g * len(g.v.ar) * 1 + g.nx + g.g):
            raise Discard()
        v = Var(g.o[0], g.o[1], g.o[3], g.o[4], g.s).fit(g.y[:n], g.x[:n] if g.nx else None)
        f, var = v.forecast(eh, g.x[n:n + eh] if g.nx else None)
        if np.max(np.abs(f)) > 1e3 * (1 + np.max(np.abs(g.y))):
            raise Discard()
        valid += 1
        counter += sum(h <= eh for h in hz)
        for mi in range(7):
            for h in hz:
                if h > eh:
                    continue
                for i in range(g.g):
                    l, a, p, sd = g.y[n - 1, i], g.y[n - 1 + h, i], f[h - 1, i], math.sqrt(var[h - 1, i])
                    if min(abs(p - l), abs(p), abs(a), abs(a - l)) < 1e-5:
                        raise Discard()
                    er = a - p
                    z = [(a > 0) == (p > 0), (a > l) == (p > l), abs(er), 100 * abs(er / a), er * er, 1e4 * (er / a) ** 2, float(crps(er, sd))][mi]
                    agg[mi, i] += z
                    rows.append((METS[mi], g.endo[i], se, h, l, a, p, er, sd))
    if not counter:
        raise Discard()
    agg /= counter
    agg[4], agg[5] = np.sqrt(agg[4]), np.sqrt(agg[5])
    prev = s.coin()
    e = c.R("e <- estim.varma(d, %s, simFixSize=%d, simHorizons=%s, simUsePreviousEstim=%s, maxHorizon=0)" % (g.par, cnt, vec(hz), num(prev)))
    m = e["metrics"]
    named(m, None, g.endo, "metrics")
    check(len(m.rownames) == 10, "rows of the metrics")
    for k in range(7):
        if METS[k] in ("mape", "rmspe") and not pos:
            continue
        ix = [i for i in range(3, 10) if m.rownames[i].lower() == METS[k]]
        check(len(ix) == 1, "row of " + METS[k])
        check(close(m.m[ix[0]], agg[k], 1e-4, 1e-6), lambda: "%s is %r instead of %r" % (METS[k], m.m[ix[0]].tolist(), agg[k].tolist()))
    sim = e["simulation"]
    check(sim["validCounts"][0] == valid, "%r valid samples instead of %d" % (sim["validCounts"][0], valid))
    d = sim["details"]
    check(len(d["metric"].v) == len(rows), "%d detailed rows instead of %d" % (len(d["metric"].v), len(rows)))
    for i, r in enumerate(rows):
        got = tuple(d[k].v[i] for k in ("metric", "target", "sampleEnd", "horizon", "last", "actual", "prediction", "error"))
        check(got[0].lower() == r[0] and got[1:4] == r[1:4], lambda: "detailed row %d is %r instead of %r" % (i + 1, got, r))
        check(close(got[4:], r[4:8], 1e-5, 1e-5 * (1 + abs(r[5]))), lambda: "detailed row %d is %r instead of %r" % (i + 1, got, r))
    whole = Var(g.o[0], g.o[1], g.o[3], g.o[4], g.s).fit(g.y, g.x)
    same(e["estimations"]["coefs"], whole.beta, "coefs after the simulation", 1e-4, 1e-5)
    check(close(m.m[0], np.full(g.g, whole.logl), 1e-6, 1e-4), "log-likelihood after the simulation")
    c.nontrivial(valid > 1 and len(hz) > 1)


@facet("influence", "two regressors or more", 200)
def _infl(s, c):
    if s.coin():
        g = gen_reg(s, c, whole=False)
        r = Sur(g.y, g.x)
        c.R("e <- estim.sur(d)")
        x, pad = g.x, 0
    else:
        g = gen_var(s, c)
        g.ne = g.g
        r = g.v.fit(g.y, g.x)
        c.R("e <- estim.varma(d, %s, maxHorizon=0)" % g.par)
        x, pad = r.X, g.v.mx + g.v.dd
        c.label("autoregression")
    if not np.linalg.cond(r.sigma) < 1e8 or not np.linalg.cond(x) < 1e4:
        raise Discard()
    h = np.sum((x @ np.linalg.inv(x.T @ x)) * x, axis=1)
    if np.max(h) > 0.99:
        raise Discard()
    eq = s.range(1, g.ne)
    k, n = x.shape[1], x.shape[0]
    e2 = r.resid[:, eq - 1] ** 2
    p = np.full(pad, np.nan)
    same(c.R("ldt:::hatvalues0(e, %d)" % eq), np.concatenate([p, h]), "leverages", 1e-5, 1e-6)
    same(Sub(np.asarray(c.R("ldt:::cooks.distance0(e, %d)" % eq).v, dtype=float)), np.concatenate([p, e2 * h / (k * np.mean(e2) * (1 - h) ** 2)]), "Cook's distances", 1e-4, 1e-5)
    c.nontrivial(k > 1)
