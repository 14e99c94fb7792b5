"""C29: what is printed, tabulated and plotted in R"""
from .models import *
from .search import *
import re

TOKEN = re.compile(r"^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$")


def shown(tok, want, what):
    """a printed number is the value, up to the printed digits"""
    if want is None or math.isnan(want):
        check(tok in ("NaN", "NA", "-"), "%s is printed as %r instead of NaN" % (what, tok))
        return
    if math.isinf(want):
        check(tok == ("Inf" if want > 0 else "-Inf"), "%s is printed as %r instead of %r" % (what, tok, want))
        return
    check(TOKEN.match(tok) is not None, "%s is printed as %r instead of %r" % (what, tok, want))
    m, e = (tok.lower().split("e") + ["0"])[:2]
    dec = len(m.split(".")[1]) if "." in m else 0
    tol = 0.5000001 * 10 ** (int(e) - dec)
    check(abs(float(tok) - want) <= tol + 1e-12 * abs(want), "%s is printed as %s instead of %r" % (what, tok, want))
    check(dec + len(m.split(".")[0].lstrip("-")) >= 4 or abs(float(tok) - want) <= 6e-4 * abs(want), "%s is printed as %s, with fewer digits than %r needs" % (what, tok, want))


def text_of(c, code):
    r = c.R("local({options(width=10000); capture.output(print(%s))})" % code)
    return list(r.v)


def gen_fit(s, c, k=None):
    """an estimation in the variable f; returns its type"""
    k = s.range(0, 2) if k is None else k
    if k == 0:
        g = gen_reg(s, c)
        o = s.pick(["", "", ", simFixSize=4, simSeed=3, simTrainRatio=0.6", ", searchSigMaxIter=3, searchSigMaxProb=%g" % s.pick([0.01, 0.05, 0.3, 0.9]),
                    ", restriction=diag(%d)[, %s, drop=FALSE]" % (g.k * g.ne, ivec(sorted(i + 1 for i in s.subset(g.k * g.ne, s.range(1, g.k * g.ne))))),
                    ", pcaOptionsX=get.options.pca(ignoreFirst=1)" if g.icpt and g.k > 2 else ""])
        call = "estim.sur(d%s)" % o
    elif k == 1:
        gen_bin(s, c)
        call = "estim.bin(d, linkFunc=%s, optimOptions=%s%s)" % (st(s.pick(["logit", "probit"])), NEWTON, s.pick(["", ", simFixSize=3, simSeed=3, simTrainRatio=0.8"]))
    else:
        g = gen_var(s, c, s.range(0, 3))
        h = (0 if g.xf is None else len(g.xf)) if g.nx else s.range(0, 3)
        call = "estim.varma(d, %s, maxHorizon=%d%s)" % (g.par, h, s.pick(["", ", simFixSize=2, simHorizons=1L"]) if h else "")
    try:
        c.R("f <- %s" % call)
    except RError:
        raise Discard()
    return ["sur", "binary", "varma"][k]


def fit_parts(c):
    r = Sys()
    r.coef, r.sd, r.p = c.R("f$estimations$coefs"), c.R("f$estimations$stds"), c.R("f$estimations$pValues")
    r.stat = c.R("if (is.null(f$estimations$tstats)) f$estimations$zstats else f$estimations$tstats")
    r.rest = c.R("{m <- f$estimations$isRestricted; if (is.null(m)) NULL else m + 0}")
    r.met = c.R("f$metrics")
    return r


@facet("estimation", "a coefficient that is significant and one that is not", 300)
def _estim(s, c):
    kind = gen_fit(s, c)
    c.label(kind)
    r = fit_parts(c)
    out = text_of(c, "f")
    rows, cols = list(r.coef.rownames), list(r.coef.colnames)
    eqs = "" if len(cols) == 1 else ": " + ", ".join(cols)
    if kind == "sur":
        name = "Linear Model" if len(cols) == 1 else ("SUR" if r.rest is not None and np.any(r.rest.m) else "Unrestricted SUR") + eqs
    elif kind == "binary":
        name = {"logit": "Logit Model", "probit": "Probit Model"}[c.R("f$info$linkFunc").v[0]]
    else:
        o = [int(x) for x in c.R("as.numeric(f$info$params[1:6])").v]
        name = "V" if len(cols) > 1 else ""
        if o[3] + o[4] + o[5]:
            name = "S-" + name + "ARIMA(%s)" % ", ".join(map(str, o))
        elif o[1]:
            name += "ARIMA(%s)" % ", ".join(map(str, o[:3]))
        else:
            name += "AR(%d)" % o[0]
        name += eqs
    check(out[0].split() == ["Model:"] + name.split(), lambda: "the model is %r instead of %r" % (out[0], name))
    at = [i for i, l in enumerate(out) if l.startswith("Endogenous variable: ")]
    check([out[i][len("Endogenous variable: "):].strip() for i in at] == cols, lambda: "equations in the output: %r instead of %r" % ([out[i] for i in at], cols))
    seen = set()
    for j, d in enumerate(cols):
        part = out[at[j]:at[j + 1] if j + 1 < len(at) else len(out)]
        h = [i for i, l in enumerate(part) if l.strip().startswith("Estimate") and "Std. Error" in l]
        check(len(h) == 1, "no table of coefficients for " + d)
        nrest = 0
        for i, v in enumerate(rows):
            l = part[h[0] + 1 + i]
            check(l.startswith(v), lambda: "row %d of the table of %s is %r and not about %s" % (i, d, l, v))
            t = l[len(v):].split()
            what = "of %s in the equation of %s" % (v, d)
            p = r.p.m[i, j]
            restricted = r.rest is not None and r.rest.m[i, j] == 1
            nrest += restricted
            shown(t[0], r.coef.m[i, j], "the coefficient " + what)
            if restricted:
                check(t[-1] == "r", lambda: "the restricted coefficient %s is printed as %r" % (what, l))
                seen.add("r")
                continue
            shown(t[1], r.sd.m[i, j], "the standard error " + what)
            shown(t[2], r.stat.m[i, j], "the statistic " + what)
            shown(t[3], p, "the p-value " + what)
            star = "" if math.isnan(p) else "***" if p < 0.001 else "**" if p < 0.01 else "*" if p < 0.05 else "." if p < 0.1 else ""
            check(t[4:] == ([star] if star else []), lambda: "the p-value %r %s is marked %r instead of %r" % (p, what, t[4:], star))
            seen.add(star)
        body = part[h[0] + 1 + len(rows):]
        check(body and body[0] == "---", lambda: "more rows than coefficients in the table of %s" % d)

        def line(key):
            q = [l for l in body if l.startswith(key)]
            check(len(q) == 1, "%d lines '%s'" % (len(q), key))
            return q[0][len(key):].split()[0]
        check(int(line("Number of restrictions in the equation:")) == nrest, "number of restrictions")
        check(int(line("Number of estimated coefficients in the equation:")) == len(rows) - nrest, "number of estimated coefficients")
        mr = list(r.met.rownames)
        for key, m in (("R-squared:", "r2"), ("Akaike Information Criterion:", "aic"), ("Schwartz Information Criterion:", "sic")):
            if m in mr:
                shown(line(key), r.met.m[mr.index(m), j], "%s of %s" % (key, d))
    obs = [l for l in out if l.startswith("Number of observations:")]
    check(len(obs) == 1 and int(obs[0].split(":")[1]) == int(c.R("nrow(f$estimations$Y)").v[0]), "number of observations")
    q = [l for l in out if l.startswith("Number of equations in the system:")]
    check(len(q) == 1 and int(q[0].split(":")[1]) == len(cols), "number of equations")
    c.nontrivial(bool(seen & {"*", "**", "***", "r"}) and bool(seen & {"", "."}))


def stars(p, latex):
    t = "(r)" if math.isnan(p) else "***" if p <= 0.01 else "**" if p <= 0.05 else "*" if p <= 0.1 else ""
    return ("\\textsuperscript{%s}" if latex else "<sup>%s</sup>") % t


def fmt(f, x):
    return "NA" if math.isnan(x) else "0" if x == 0 else ("Inf" if x > 0 else "-Inf") if math.isinf(x) else f % x


@facet("table of coefficients", "more than one model, or names that are changed", 300)
def _table(s, c):
    n = s.range(1, 3)
    fits, kinds = [], []
    for i in range(n):
        kinds.append(gen_fit(s, c, s.pick([0, 0, 1, 2])))
        r = fit_parts(c)
        r.Y = int(c.R("nrow(f$estimations$Y)").v[0])
        r.sigma = c.R("f$estimations$sigma")
        fits.append(r)
        c.R("f%d <- f" % i)
    c.label(" ".join(sorted(set(kinds))))
    nm = None
    if n > 1 and s.chance(3, 4):
        nm = [s.pick(["first", "a model with a very long name", "M%d" % i, "x_%d" % i]) for i in range(n)]
    single = n == 1 and s.coin()
    lst = "f0" if single else "list(%s)" % ", ".join(("%s=" % st(nm[i]) if nm else "") + "f%d" % i for i in range(n))
    tab, latex = s.pick(["sign", "sign_star", "coef", "coef_star", "coef_star_std", "fun"]), s.coin()
    nf = s.pick(["%.2f", "%.4f", "%.3e", "%g"])
    mx = s.pick([20, 20, 5, 4])
    tx = s.coin()
    met = sorted(set(k for r in fits for k in r.met.rownames))
    common = [k for k in met if all(k in r.met.rownames for r in fits)]
    keys = ["", "obs"] + common + (["sigma2"] if all(k in ("sur", "varma") for k in kinds) else [])
    keys = [k for k in keys if k not in ("fProb",)]
    reg = [s.pick(keys) for _ in range(s.range(1, 4))] if s.chance(3, 4) else None
    alld = list(dict.fromkeys(d for r in fits for d in r.coef.colnames))
    dep = [alld[i] for i in s.subset(len(alld), s.range(1, len(alld)))] if s.coin() else None
    if dep:
        dep = [dep[i] for i in s.perm(len(dep))]
    allx = list(dict.fromkeys(x for r in fits for x in r.coef.rownames))
    ek = s.range(0, 3)
    exp, ec, xs = None, "NA", list(allx)
    if ek == 1:
        k = s.range(1, len(allx))
        ec, xs = str(k), allx[:k] + ["..."]
    elif ek == 2:
        xs = [allx[i] for i in s.perm(len(allx))][:s.range(1, len(allx))]
        if s.coin():
            xs.insert(s.range(0, len(xs)), s.pick(["...", "unknown"]))
        ec = svec(xs)
    f = "NULL"
    if tx:
        f = "function(text, type) if (is.null(type)) text else paste0(text, '.', substr(type, 1, 1))"

    def text(t, ty):
        if tx and ty:
            t = t + "." + ty[0]
        return t if len(t) <= mx else t[:mx - 3] + "..."
    code = "coefs.table(%s, tableFun=%s, latex=%s, numFormat=%s, textFun_max=%d, textFun=%s, depList=%s, expList=%s, regInfo=%s)" % (
        lst, "function(j, coef, std, pvalue) paste(j, sprintf('%.3f', coef), sprintf('%.3f', std), sprintf('%.3f', pvalue))" if tab == "fun" else st(tab), num(latex), st(nf), mx, f,
        "NULL" if dep is None else svec(dep), ec, "NULL" if reg is None else svec(reg))
    got = c.R("suppressWarnings(%s)" % code)
    reg = ["", "obs"] if reg is None else reg
    deps = dep or alld
    # expected
    heads, cols = [], []
    j = 0
    sgn = lambda x: "+" if x > 0 else "-" if x < 0 else "0"
    for i, r in enumerate(fits):
        for d in deps:
            if d not in r.coef.colnames:
                continue
            j += 1
            q = list(r.coef.colnames).index(d)
            heads.append(text(nm[i] if nm else "m" if single else "m%d" % (i + 1), "hname"))
            col = [text(d, "dname")]
            for x in xs:
                if x not in r.coef.rownames or x == "...":
                    col.append("")
                    continue
                k = list(r.coef.rownames).index(x)
                b, sd, p = r.coef.m[k, q], r.sd.m[k, q], r.p.m[k, q]
                F = lambda v: "NaN" if math.isnan(v) else "%.3f" % v
                col.append({"sign": lambda: sgn(b), "sign_star": lambda: sgn(b) + stars(p, latex), "coef": lambda: fmt(nf, b), "coef_star": lambda: fmt(nf, b) + stars(p, latex),
                            "coef_star_std": lambda: fmt(nf, b) + stars(p, latex) + " (" + fmt(nf, sd) + ")", "fun": lambda: "%d %s %s %s" % (j, F(b), F(sd), F(p))}[tab]())
            for k in reg:
                if k == "":
                    col.append("")
                elif k == "obs":
                    col.append(str(r.Y))
                elif k == "sigma2":
                    col.append(fmt(nf, r.sigma.m[q, q]))
                elif k in r.met.rownames:
                    mr = list(r.met.rownames)
                    v = fmt(nf, r.met.m[mr.index(k), q])
                    if k == "f":
                        v += stars(r.met.m[mr.index("fProb"), q], latex)
                    col.append(v)
            cols.append(col)
    rn = [text("dep.", None)] + [text(x, "ename") for x in xs] + [text(k, "rname") for k in reg]
    if n == 1:
        heads = [t[0] for t in cols]
    if n == 1 or len(deps) == 1:
        rn, cols = rn[1:], [t[1:] for t in cols]
    check(list(got.dim) == [len(rn), len(cols)], lambda: "the table has dimension %r instead of %r" % (list(got.dim), [len(rn), len(cols)]))
    named(got, rn, heads, "the table")
    m = got.m
    for j, col in enumerate(cols):
        for i, v in enumerate(col):
            g = m[i, j]
            if v is not None:
                check((g if g is not None else "NA") == v, lambda: "cell of %s in column %d is %r instead of %r" % (rn[i], j + 1, g, v))
    c.nontrivial(n > 1 or tx or mx < 20)


SECTIONS = {"Best model:": "best", "Inclusion weights average:": "incl", "Best significant coeffiecients": "coef", "Extreme bounds (significant):": "ext", "CDF (significant):": "cdf", "Mixture significant": "mix"}


def parse_search(out):
    """blocks of (target, evaluation): section -> [(name, text)]"""
    res, t, e, sec = {}, None, None, None
    for l in out:
        m = re.match(r"^ Target \((.*)\):$", l)
        if m:
            t, e, sec = m.group(1), None, None
            continue
        m = re.match(r"^   Evaluation \((.*)\):$", l)
        if m and t is not None:
            e, sec = m.group(1), None
            check((t, e) not in res, "%s of %s is printed twice" % (e, t))
            res[t, e] = {}
            continue
        if e is None:
            continue
        if l.startswith("-----"):
            t = e = None
            continue
        k = [v for q, v in SECTIONS.items() if l.strip().startswith(q)]
        if k:
            sec = k[0]
            res[t, e][sec] = []
        elif sec and ":" in l:
            a, b = l.strip().split(":", 1)
            res[t, e][sec].append((a, b.strip()))
    return res


def vals(t):
    t = re.sub(r"^\(\d+x1\)", "", t)
    return [x.strip() for x in t.split(",")]


def gen_search(s, c, it):
    k = s.range(0, 2)
    chk = s.pick(["", "", ", modelChecks=get.search.modelchecks(minR2=%g)" % s.pick([0.05, 0.3, 0.99])])
    if k == 0:
        g = sur_data(s, c)
        targets = s.range(1, g.ne)
        co = gen_combos(s, g.ne, g.nx, g.names, False, targets)
        if len(co.models) > 40:
            raise Discard()
        call = "search.sur(d, %s, get.search.metrics(typesIn=%s, typesOut=%s, seed=-3, simFixSize=2), items=%s%s)" % (co.code, s.pick(["c('aic','sic')", "'aic'"]), s.pick(["c('rmse')", "NULL"]), it.code, chk)
    elif k == 1:
        g = gen_bin(s, c)
        m = g.x.shape[1]
        call = "search.bin(d, get.combinations(sizes=%s, numTargets=1), get.search.metrics(typesIn=%s, typesOut=%s, seed=-3, simFixSize=2, trainRatio=0.8), items=%s)" % (
            ivec(list(range(1, s.range(1, min(m, 3)) + 1))), s.pick(["c('sic','brier')", "'aic'"]), s.pick(["c('brier')", "NULL"]), it.code)
    else:
        g = gen_var(s, c)
        h = 0 if g.nx else s.range(1, 2)
        if not h and it.type1:
            raise Discard()
        call = "search.varma(d, get.combinations(sizes=%s, numTargets=%d), get.search.metrics(typesIn='aic', typesOut=%s, simFixSize=2, horizons=1L), items=%s, maxParams=c(2L,0L,0L,0L,0L,0L), seasonsCount=0L, maxHorizon=%d)" % (
            ivec(list(range(1, s.range(1, g.g) + 1))), g.g, s.pick(["'rmse'", "NULL"]) if h else "NULL", it.code, h)
    try:
        c.R("r <- suppressWarnings(%s)" % call)
    except RError:
        raise Discard()
    return ["sur", "binary", "varma"][k]


@facet("search", "every section has a line", 250)
def _search(s, c):
    it = gen_items(s, only=True)
    c.label(gen_search(s, c, it))
    r = c.R("r[c('counts','results')]")
    items = list(r["results"].v) if r["results"] is not None else []
    out = text_of(c, "r")
    n, fails = [int(r["counts"][k].v[0]) for k in ("searchedCount", "failedCount")]
    q = [l for l in out if l.startswith(" Expected number of models:")]
    z = [int(x.replace(",", "")) for x in re.findall(r": ([\d,]*\d)", q[0])]
    check(z == [int(r["counts"]["expectedCount"].v[0]), n, fails], lambda: "counts in %r" % q[0])
    if fails:
        a = out.index(" Failures:")
        det = r["counts"]["failedDetails"].v
        for i, d in enumerate(det):
            l = out[a + 1 + i]
            check(l.startswith("   %d. %s: %d (" % (i + 1, d["message"].v[0], int(d["count"].v[0]))), lambda: "failure %d is printed as %r" % (i + 1, l))
        c.label("failures")
    if fails == n:
        check("All Failed!" in out, "all models failed but the output does not say it")
        c.label("all failed")
        return
    got = parse_search(out)
    want = {}
    for q in items:
        want.setdefault((q["targetName"].v[0], q["evalName"].v[0]), []).append(q)
    check(all(k in got for k in want), lambda: "results of %r are not printed" % [k for k in want if k not in got])
    sec = 0
    for (t, e), qs in want.items():
        g = got[t, e]
        name = "%s of %s: " % (e, t)
        typ = lambda q: q["typeName"].v[0]
        zero = lambda q: q["info"] is not None and not isinstance(q["info"], L) and q["info"].v[0] == 0
        for q in qs:
            v = q["value"]
            if typ(q) == "best model" and zero(q) and it.model:
                d = dict(g["best"])
                for k in ("endogenous", "exogenous"):
                    x = v[k]
                    check(vals(d[k]) == (list(x.v) if x is not None else ["(NULL)"]), lambda: name + "%s variables of the best model are %r" % (k, d[k]))
                shown(d["metric"], v["metric"].v[0], name + "the best metric")
                sec += 1
            elif typ(q) == "inclusion":
                d = dict(g["incl"])
                w = v.m[:, 0]
                if np.all(np.isnan(w)):
                    continue
                i = int(np.nanargmax(w))
                shown(d["maximum value"], w[i], name + "the largest inclusion weight")
                ties = [v.rownames[k] for k in range(len(w)) if w[k] == w[i]]
                check(d["name"] in ties, lambda: name + "the variable with the largest inclusion weight is %r instead of %r" % (d["name"], ties))
                check(float(d["count"]) == v.m[list(v.rownames).index(d["name"]), 1], name + "count of the variable with the largest inclusion weight")
                sec += 1

        def listed(key, rows, width):
            check(key in g, name + "no section for " + key)
            lines = [x for x in g[key]]
            check([a for a, _ in lines] == [a for a, _ in rows], lambda: name + "variables listed in the section %r are %r instead of %r" % (key, [a for a, _ in lines], [a for a, _ in rows]))
            for (a, b), (_, x) in zip(lines, rows):
                w = vals(b)
                check(len(w) == len(x), lambda: name + "values of %s are %r" % (a, b))
                for i in range(len(x)):
                    shown(w[i], x[i], name + "value %d of %s in the section %r" % (i + 1, a, key))
        band = lambda m, va: [m - 1.95 * math.sqrt(va), m, m + 1.95 * math.sqrt(va)]
        sig = lambda b: b[0] > 0 or b[-1] < 0
        near = lambda x, y: abs(x - y) < 1e-9 * (abs(x) + abs(y) + 1e-300)
        best = [(re.sub(r"^.*'([^']*)'.*$", r"\1", typ(q)), band(q["value"]["mean"].v[0], q["value"]["variance"].v[0])) for q in qs if typ(q).startswith("best item for") and zero(q)]
        if it.type1 and it.best:
            listed("coef", [x for x in best if sig(x[1])], 3)
            sec += 1
        for q in qs:
            v = q["value"]
            if typ(q).startswith("extreme"):
                listed("ext", [(v.rownames[i], [v.m[i, 0], v.m[i, 1]]) for i in range(len(v.m)) if v.m[i, 0] <= v.m[i, 1] and (v.m[i, 0] > 0 or v.m[i, 1] < 0)], 2)
                sec += 1
            elif typ(q).startswith("mixture"):
                listed("mix", [(v.rownames[i], b) for i in range(len(v.m)) for b in [band(v.m[i, 0], v.m[i, 1])] if sig(b)], 3)
                sec += 1
        cd = [q for q in qs if typ(q).startswith("cdf") and zero(q)]
        if cd:
            v = cd[0]["value"]
            listed("cdf", [(v.rownames[i], [v.m[i, 0]]) for i in range(len(v.m)) if v.m[i, 0] < 0.1 or v.m[i, 0] > 0.9], 1)
            sec += 1
    c.nontrivial(sec > 0)
    # the summary, where the best models are estimated
    err = None
    try:
        text_of(c, "summary(r)")
    except RError as e:
        err = str(e)
    check(err is None, lambda: "printing the summary stops with: %s" % err)


@facet("lists", "every case", 150)
def _lists(s, c):
    """objects with options are printed with all of their elements"""
    k = s.range(0, 8)
    code = [
        lambda: gen_items(s).code,
        lambda: "get.combinations(sizes=%s, innerGroups=list(%s), numTargets=%d)" % (s.pick(["1", "c(1,2)", "list(c(1), c(2)), stepsNumVariables=c(NA, 2)"]), s.pick(["c(1)", "c(1),c(1,2)", "c('a','b')"]), s.range(1, 2)),
        lambda: "get.options.pca(%d, %d, %g)" % (s.range(0, 2), s.range(0, 3), s.pick([0.8, 0.95])),
        lambda: "get.options.roc(0, 1, 1e-12, FALSE, %s)" % s.pick(["NULL, NULL", "c(1,2), matrix(c(1,2,3,4),2)"]),
        lambda: "get.options.newton()",
        lambda: "get.options.lbfgs()",
        lambda: "get.search.options(%s)" % s.pick(["", "parallel=FALSE", "reportInterval=2"]),
        lambda: "get.search.modelchecks(%s)" % s.pick(["", "minR2=0.2", "maxConditionNumber=1e5, minObsCount=10, prediction=TRUE, predictionBound=10"]),
        lambda: "get.search.metrics(typesIn=%s, typesOut=%s)" % (s.pick(["c('aic','sic')", "'aic'"]), s.pick(["NULL", "'rmse'", "c('rmse','mae')"])),
    ][k]()
    if k == 0 and s.coin():
        gen_reg(s, c)
        code = "d"
    c.R("x <- %s" % code)
    names = list(c.R("names(x)").v)
    out = text_of(c, "x")
    for n in names:
        check(any(l.startswith(" %s:" % n) for l in out), lambda: "'%s' is not printed: %r" % (n, out))
    for n in names:
        v = c.R("{v <- x[[%s]]; if (is.numeric(v) && length(v) == 1) as.numeric(v) else NULL}" % st(n))
        if v is not None:
            l = [l for l in out if l.startswith(" %s:" % n)][0]
            t = l.split(":", 1)[1].strip()
            if re.match(r"^\(1x1\)", t):
                t = t[5:].strip()
            if TOKEN.match(t) or t in ("NaN", "NA", "Inf", "-Inf"):
                shown("NaN" if t == "NA" else t, v.v[0], "'%s'" % n)
    c.nontrivial()


DRAW = """draw <- function(expr) {
  pdf(NULL)
  on.exit(dev.off())
  dev.control('enable')
  v <- force(expr)
  z <- list()
  num <- function(a) if (is.numeric(a) && length(a) > 0) as.numeric(a) else NULL
  for (q in recordPlot()[[1]]) {
    a <- q[[2]]
    nm <- a[[1]]$name
    if (is.null(nm)) next
    if (nm == 'C_plotXY') z[[length(z) + 1]] <- list(fn = a[[3]], x = num(a[[2]]$x), y = num(a[[2]]$y))
    else if (nm == 'C_text') z[[length(z) + 1]] <- list(fn = 'text', x = num(a[[2]]$x), y = num(a[[2]]$y), labels = as.character(a[[3]]))
    else if (nm == 'C_polygon') z[[length(z) + 1]] <- list(fn = 'polygon', x = num(a[[2]]), y = num(a[[3]]))
    else if (nm == 'C_plot_window') z[[length(z) + 1]] <- list(fn = 'window', x = num(a[[2]]), y = num(a[[3]]))
    else if (nm == 'C_axis') z[[length(z) + 1]] <- list(fn = 'axis', x = num(a[[3]]), labels = if (is.character(a[[4]])) a[[4]] else NULL)
    else if (nm == 'C_rect') z[[length(z) + 1]] <- list(fn = 'rect', x = (a[[2]] + a[[4]]) / 2, y = num(a[[5]]))
  }
  list(value = v, calls = z)
}"""


def drawn(c, code):
    r = c.R("{z <- draw(%s); z}" % code)
    res = []
    for q in r["calls"].v:
        t = Sys()
        t.fn = q["fn"].v[0]
        for k in ("x", "y"):
            v = q[k] if k in q.names else None
            setattr(t, k, None if v is None else np.array([float(e) if e is not None else math.nan for e in v.v]))
        t.labels = list(q["labels"].v) if "labels" in q.names and q["labels"] is not None else None
        res.append(t)
    return r["value"], res


def vec_of(v):
    return np.array([math.nan if e is None else float(e) for e in v.v])


def alike(a, b, what, rtol=1e-8, atol=1e-9):
    check(a is not None and len(a) == len(b), lambda: "%s: %r instead of %r" % (what, a, b))
    na, nb = np.isnan(a), np.isnan(b)
    check(np.array_equal(na, nb) and np.allclose(a[~na], b[~nb], rtol, atol), lambda: "%s: %r instead of %r" % (what, a.tolist(), b.tolist()))


@facet("diagnostic plots", "a plot with residuals or influences", 250)
def _diag(s, c):
    kind = gen_fit(s, c)
    c.R(DRAW)
    names = list(c.R("colnames(f$estimations$coefs)").v)
    eq = s.range(1, len(names))
    t = s.range(1, 6)
    k = c.R("as.numeric(coef(f, equations=%d, removeZeroRest=TRUE)%s)" % (eq, "[[1]]" if kind == "sur" and fit_parts(c).rest is not None and np.any(fit_parts(c).rest.m) else ""))
    p = len(k.v)
    if not p:
        raise Discard()
    q = {k: vec_of(c.R(v % eq)) for k, v in (("fit", "as.numeric(fitted(f, %d))"), ("res", "as.numeric(resid(f, %d, pearson=TRUE))"), ("std", "as.numeric(resid(f, %d, standardized=TRUE, pearson=TRUE))"))}
    h = vec_of(c.R("{X <- as.matrix(exogenous(f, equation=%d)); as.numeric(diag(X %%*%% solve(t(X) %%*%% X) %%*%% t(X)))}" % eq))
    if not np.max(h) < 0.99 or not np.std(q["res"][len(q["res"]) - len(h):]) > 1e-7:
        raise Discard()
    pad = np.full(len(q["res"]) - len(h), math.nan)
    h = np.concatenate([pad, h])
    cook = q["res"] ** 2 * h / (p * np.nanmean(q["res"] ** 2) * (1 - h) ** 2)
    weighted = c.R("f$info$data$hasWeight").v[0]
    code = "plot(f, equation=%s, type=%d)" % (num(eq) if s.coin() else st(names[eq - 1]), t)
    c.label("%s, type %d" % (kind, t))
    if weighted and t in (4, 6):
        check(c.err("draw(%s)" % code) is not None, "Cook's distance with weights")
        return
    ret, calls = drawn(c, code)
    main = [z for z in calls if z.fn in ("p", "rect")][0]
    texts = [z for z in calls if z.fn == "text"]
    win = [z for z in calls if z.fn == "window"][0]
    y = {1: q["res"], 2: q["std"], 3: np.sqrt(np.abs(q["std"])), 4: cook, 5: q["std"], 6: cook}[t]
    if t in (1, 3):
        x = q["fit"]
        main.x = main.x - np.nanmean(main.x) + np.nanmean(x)  # the origin of the axis is not a claim
    elif t in (5, 6):
        x = h if t == 5 else h / (1 - h)
    elif t == 2:
        r = np.argsort(np.argsort(y[~np.isnan(y)], kind="stable"))
        m = len(r)
        a = 3 / 8 if m <= 10 else 0.5
        from scipy.special import ndtri
        x = np.full(len(y), math.nan)
        x[~np.isnan(y)] = ndtri((r + 1 - a) / (m + 1 - 2 * a))
        if len(set(y[~np.isnan(y)])) < m:
            x = main.x
    else:
        x = main.x
        check(np.all(np.diff(x) > 0), "bars are not in the order of the observations")
    alike(main.y, y, "drawn values", 1e-6, 1e-8)
    alike(main.x, x, "positions of the drawn values", 1e-6, 1e-8)
    lo, hi = min(win.y), max(win.y)
    check(lo <= np.nanmin(y) + 1e-9 and np.nanmax(y) <= hi + 1e-9, lambda: "values from %r to %r are out of the limits %r, %r" % (np.nanmin(y), np.nanmax(y), lo, hi))
    for z in texts:  # labelled observations
        for i, l in enumerate(z.labels):
            if l and l != "NA":
                o = int(l) - 1
                check(abs(z.y[i] - y[o]) < 1e-6 * (1 + abs(y[o])) and (t in (1, 3) or abs(z.x[i] - x[o]) < 1e-6 * (1 + abs(x[o]))), lambda: "observation %d is labelled at (%r, %r) and is at (%r, %r)" % (o + 1, z.x[i], z.y[i], x[o], y[o]))
                if t in (1, 2, 3, 5):
                    n = max(1, int(len(y) / 10))
                    check(np.sum(np.abs(y[~np.isnan(y)]) > abs(y[o]) + 1e-9) < n, lambda: "observation %d is labelled and is not one of the %d largest" % (o + 1, n))
    rx, ry = ret["x"], ret["y"]
    if t not in (1, 3) and rx is not None:
        alike(vec_of(rx), y if t == 4 else x, "returned x", 1e-6, 1e-8)
    if ry is not None:
        alike(vec_of(ry), y, "returned y", 1e-6, 1e-8)
    c.nontrivial(True)


def fan_ref(m, v, log, lam, qs):
    from scipy.special import ndtri
    sd = v if log else np.sqrt(v)
    qs = [0.5 if q is None else q for q in qs]
    r = np.array([[a + (b * ndtri(q) if b > 0 else 0.0) for q in qs] for a, b in zip(m, sd)])
    if log:
        r = np.exp(r)
    if lam is not None:
        with np.errstate(all="ignore"):
            r = np.exp(r) if lam == 0 else (lam * r + 1) ** (1 / lam)
    return r


def fan_calls(calls, w, mid, first, new=True, grad=False, lim=None):
    """the drawn fan is between the quantiles"""
    n, k = w.shape
    poly = [z for z in calls if z.fn == "polygon"]
    if not grad:
        check(len(poly) == k - 1, lambda: "%d bands instead of %d" % (len(poly), k - 1))
        for i, z in enumerate(poly):
            alike(z.x, np.array(list(range(1, n + 1)) + list(range(n, 0, -1)), dtype=float), "positions of band %d" % (i + 1))
            alike(z.y, np.concatenate([w[:, i], w[::-1, i + 1]]), "band %d" % (i + 1), 1e-6, 1e-8)
    else:
        for i in range(first, n):
            z = np.concatenate([p.y for p in poly if abs(np.mean(p.x) - i - 1) < 1e-9])
            alike(np.array([np.min(z), np.max(z)]), np.array([min(w[i, 0], w[i, -1], mid[i]), max(w[i, 0], w[i, -1], mid[i])]), "range of the gradient at %d" % (i + 1), 1e-6, 1e-8)
    lines = [z for z in calls if z.fn == "l"]
    full = np.full(n, math.nan)
    for z in lines:
        for x, y in zip(z.x, z.y):
            if x == int(x) and 1 <= x <= n and not math.isnan(y):
                full[int(x) - 1] = y
    alike(full, mid, "line of the actual values and medians", 1e-6, 1e-8)
    alike(lines[-1].y, np.concatenate([np.full(first, math.nan), mid[first:]]), "line of the medians", 1e-6, 1e-8)
    if first:
        alike(lines[0].y, mid[:first + 1], "line of the actual values", 1e-6, 1e-8)
    win = [z for z in calls if z.fn == "window"]
    check(bool(win) == new, "a new plot")
    if new and lim is not None:
        lo, hi = lim
        check(min(win[0].y) <= lo + 1e-9 and hi <= max(win[0].y) + 1e-9, lambda: "the limits %r of the axis do not contain %r, %r" % (win[0].y, lo, hi))


@facet("fan plots", "actual values and at least two bands on a side", 250)
def _fan(s, c):
    c.R(DRAW)
    na, n = s.range(0, 5), s.range(1, 8)
    log = s.chance(1, 3)
    lam = s.pick([None, None, 0, 0.5, 1, 2]) if not log else None
    m = np.array([round(s.unif(-3, 3), 3) for _ in range(na + n)])
    v = np.array([0.0] * na + [round(s.unif(0.01, 4), 3) for _ in range(n)])
    if log:
        v = np.round(v / 4, 4)
    if lam:
        m = m + 20
    qs = sorted(s.pick([0.01, 0.05, 0.1, 0.2, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.95, 0.99]) for _ in range(s.range(2, 6)))
    qs = sorted(set(qs))
    if len(qs) < 2:
        raise Discard()
    grad = s.chance(1, 3)
    sug = [s.pick([None, round(s.unif(-50, 50), 2)]) for _ in range(2)]
    new = s.chance(3, 4)
    c.R("m <- cbind(%s, %s)" % (vec(m), vec(v)))
    args = "m, dist=%s%s, quantiles=%s, gradient=%s, newPlot=%s, ylimSuggest=c(%s)" % (
        st("log-normal" if log else "normal"), "" if lam is None else ", lambda=%g" % lam, vec(qs), num(grad), num(new), ", ".join("NA" if x is None else num(x) for x in sug))
    allq = [q for q in qs if q <= 0.5] + [None] + [q for q in qs if q > 0.5]
    w = fan_ref(m, v, log, lam, allq)
    mid = w[:, len([q for q in qs if q <= 0.5])]
    _, calls = drawn(c, "{%sfan.plot(%s)}" % ("" if new else "plot.new(); plot.window(c(0, 20), c(-5, 5)); ", args))
    if not new:
        calls = calls[1:]
    lim = (min([np.min(w)] + [x for x in sug[:1] if x is not None]), max([np.max(w)] + [x for x in sug[1:] if x is not None]))
    fan_calls(calls, w, mid, na, new, grad, lim)
    c.label("log-normal" if log else "normal" if lam is None else "Box-Cox")
    if n + na == 1:
        c.label("one distribution")
    c.nontrivial(na > 0 and len(qs) > 2)


@facet("plotted and printed predictions", "forecasts with actual values and simulations", 200)
def _pred(s, c):
    c.R(DRAW)
    h = s.range(1, 4)
    g = gen_var(s, c, h)
    if g.nx and g.xf is not None:
        h = len(g.xf)
    sim = s.coin()
    hz = sorted(i + 1 for i in s.subset(3, s.range(1, 3)))
    cnt = s.range(1, 4)
    try:
        c.R("f <- estim.varma(d, %s, maxHorizon=%d%s)" % (g.par, h, ", simFixSize=%d, simHorizons=%s" % (cnt, ivec(hz)) if sim else ""))
    except RError:
        raise Discard()
    ac = s.range(0, min(8, g.n))
    start = s.coin()
    p = c.R("p <- predict(f, actualCount=%d%s)" % (ac, ", startFrequency=tdata::f.yearly(1990)" if start else ""))
    mm, vv = p["means"].m, p["vars"].m
    if not np.all(np.isfinite(mm)) or not np.all(np.isfinite(vv)) or not np.all(vv[ac:] > 0) or np.max(np.abs(mm)) > 1e6:
        raise Discard()
    # printed
    out = text_of(c, "p")

    def line(k):
        z = [l for l in out if l.strip().startswith(k + ":")]
        check(len(z) == 1, lambda: "%d lines '%s'" % (len(z), k))
        return z[0].split(":", 1)[1].strip()
    check(line("Maximum horizon") == str(h), lambda: "maximum horizon is printed as %r" % line("Maximum horizon"))
    check(line("Number of variables") == str(g.g), "number of variables")
    check(line("Horizon 1 at") == str((1990 if start else 1) + g.n), lambda: "the first horizon is printed at %r" % line("Horizon 1 at"))
    for k, w in (("Prediction at horizon 1", mm), ("Variance at horizon 1", vv)):
        z = vals(line(k))
        check(len(z) == g.g, "values of '%s'" % k)
        for i in range(g.g):
            shown(z[i], w[ac, i], k)
    # plotted
    var = s.range(1, g.g)
    qs = [0.05, 0.1, 0.25, 0.75, 0.9, 0.95]
    w = fan_ref(mm[:, var - 1], vv[:, var - 1], False, None, qs[:3] + [None] + qs[3:])
    det = None
    code = "plot(p, variable=%s" % (num(var) if s.coin() else st(g.endo[var - 1]))
    if sim:
        d = c.R("f$simulation$details")
        met = s.pick(sorted(set(d["metric"].v)))
        det = [i for i in range(len(d["metric"].v)) if d["metric"].v[i] == met and d["target"].v[i] == g.endo[var - 1]]
        code += ", simMetric=%s" % st(met)
        if not det:
            raise Discard()
    _, calls = drawn(c, code + ")")
    ax = [z for z in calls if z.fn == "axis" and z.labels]
    check(len(ax) == 1 and list(ax[0].labels) == [str((1990 if start else 1) + g.n - ac + i) for i in range(ac + h)], "labels of the axis")
    alike(ax[0].x, np.arange(1.0, ac + h + 1), "labels of the axis")
    pts = [z for z in calls if z.fn == "p"]
    fan_calls([z for z in calls if z.fn == "polygon" or z.fn == "window"] + [z for z in calls if z.fn == "l"][:2 if ac else 1], w, w[:, 3], ac, True, False, (np.min(w), np.max(w)))
    if det:
        want = {}
        for i in det:
            e = int(d["sampleEnd"].v[i])
            want.setdefault(e, {0: g.y[g.n - e - 1, var - 1]})[int(d["horizon"].v[i])] = d["prediction"].v[i]
        check(len(pts) == len(want), lambda: "%d simulated paths instead of %d" % (len(pts), len(want)))
        lines = [z for z in calls if z.fn == "l"][2 if ac else 1:]
        for z, l, (e, t) in zip(pts, lines, want.items()):
            alike(z.x, np.array([float(ac - e + k) for k in sorted(t)]), "positions of the forecasts from a simulated sample")
            alike(z.y, np.array([t[k] for k in sorted(t)]), "forecasts from a simulated sample", 1e-6, 1e-8)
            alike(l.x, z.x, "line of the simulated forecasts")
            alike(l.y, z.y, "line of the simulated forecasts")
        c.label("simulations")
    c.nontrivial(ac > 0 and sim)
