"""C25: step-wise searches and combining the results of searches (R package ldt)"""
from .search import *


def numbers(s, n, a=-2.0, b=2.0):
    return [round(a + (b - a) * s.unif(), 3) for _ in range(n)]


def split(s, sizes):
    """sizes of two steps or more"""
    k = s.range(1, len(sizes) - 1)
    r = [sizes[:k], sizes[k:]]
    if len(r[1]) > 1 and s.chance(1, 3):
        r = [r[0], r[1][:1], r[1][1:]]
    return r


def restricted(parts, fix, keep):
    """partitions when just these variables remain"""
    q = [[v for v in p if v in keep] for p in parts]
    return [p for p in q if p], fix - sum(not p for p in q[:fix])


def enum(co, ne, sizes, keep):
    """models of a step as lists of indices of all variables"""
    out = 0 if co.inner_exo else ne
    inn = ne if co.inner_exo else 0
    parts, fix = restricted([[v + out for v in p] for p in co.parts], co.fix, keep)
    inner = [[v + inn for v in g if v + inn in keep] for g in co.inner]
    if any(not g for g in inner) or any(z > len(parts) for z in sizes):
        raise Discard()
    inner = [list(g) for g in dict.fromkeys(map(tuple, inner))]
    res = []
    for o in enumerate_models(parts, sizes, fix):
        for g in inner or [[]]:
            e, x = (o, g) if co.inner_exo else (g, o)
            if e[0] < co.targets:
                res.append((e, x))
    return res


@facet("user functions", "a step with fewer variables, or two steps without failing models", 900)
def _rfunc(s, c):
    ne, nx = s.range(1, 3), s.range(2, 6)
    inner_exo = ne > 1 and s.chance(1, 3)
    names = gen_names(s, ne + nx, "")
    targets = s.range(1, ne)
    co = gen_combos(s, ne, nx, names, inner_exo, targets)
    co.inner_exo = inner_exo
    if len(co.parts) < 2:
        raise Discard()
    if len(co.sizes) < 2:
        co.sizes = sorted(set(co.sizes) | {1, 2})
    co.fix = min(co.fix, co.sizes[-1])
    steps = split(s, co.sizes)
    w = s.chance(1, 4)
    it = gen_items(s, s.coin())
    it.model = it.incl = True  # needed in selecting the variables
    it.code = re.sub("model=F\\w*", "model=TRUE", re.sub("inclusion=F\\w*", "inclusion=%s" % num(s.coin()), it.code))
    tin = [["aic", "sic"][i] for i in s.subset(2, s.range(0, 2))]
    tout = [["rmse", "mae", "crps", "mape", "sign"][i] for i in s.subset(5, s.range(0 if tin else 1, 2))]
    mets = tin + tout
    mins = {m: round(3 * s.unif(), 2) for m in ("aic", "sic", "rmse", "crps", "mape") if s.chance(1, 3)}
    length1 = nx
    kind, rows, tab, shift = s.range(0, 3), 8, {}, 1 if w else 0
    extra = s.coin()
    code = []
    it_names = names[ne:]

    def model(endo, exo):
        k = (tuple(endo), tuple(sorted(exo)))
        if k in tab:
            return tab[k]
        m = tab[k] = Model([names[i] for i in endo], [names[i] for i in exo], [s.range(0, 9)] if extra else None)
        tg = [i for i in endo if i < targets]
        key = ",".join([names[i] for i in endo] + ["|"] + [names[i] for i in sorted(exo)])
        if kind and s.chance(1, 4):
            m.fail = s.pick(["one", "two", "a longer message"])
            code.append("'%s'=list(error=%s, metrics=NULL, extra=NULL, type1means=NULL, type1vars=NULL)" % (key, st(m.fail)))
            return m
        met = [numbers(s, len(mets), 0.01, 0.99 if "sign" in mets else 4) for _ in tg]
        me, va = [], []
        for t, row in zip(tg, met):
            for nm, x in zip(mets, row):
                m.metric[nm, names[t]] = x
            for q in it_names:
                if q not in m.exo and not inner_exo or s.chance(1, 8):
                    me.append(float("nan"))
                    va.append(float("nan"))
                else:
                    me.append(numbers(s, 1)[0])
                    va.append(round(0.1 + s.unif(), 3))
                    m.type1[q, names[t]] = (me[-1], va[-1])
        f = lambda xs, r, k: "matrix(%s, %d, %d, dimnames=list(%s, NULL))" % (vec(xs), r, k, svec(it_names))
        code.append("'%s'=list(error=%s, metrics=%s, extra=%s, type1means=%s, type1vars=%s)" % (
            key, s.pick(["NULL", "''"]), "matrix(%s, %d, %d)" % (vec([x for r in met for x in r]), len(mets), len(tg)),
            "as.numeric(%s)" % vec(m.extra) if extra else "NULL", f(me, length1, len(tg)) if it.type1 else "NULL", f(va, length1, len(tg)) if it.type1 else "NULL"))
        return m

    # the steps
    fixed = [] if s.chance(1, 2) else [i for i in s.subset(ne + nx, s.range(1, 2))]
    must = list(dict.fromkeys(list(range(targets)) + fixed))
    if it.type1:
        fixed = list(dict.fromkeys(fixed + list(range(ne, ne + nx))))  # the items are the same in all steps
        must = list(dict.fromkeys(list(range(targets)) + fixed))
    keep, counts, models, called = list(range(ne + nx)), [], [], []
    cut = False
    for i, sizes in enumerate(steps):
        if i and s.chance(5, 6) and len(keep) > len(must):
            n = s.range(len(must), len(keep) - 1)
            prev = called[i - 1]
            eName, tName = mets[0], names[0]
            sc = {}
            for v in keep:
                ws = [weight(eName, m.metric[eName, tName], mins.get(eName, 0)) for m in prev if m.fail is None and (eName, tName) in m.metric and (names[v] in m.endo or names[v] in m.exo)]
                sc[v] = sum(ws) / len(ws) if ws else -1
            rest = sorted([v for v in keep if v not in must], key=lambda v: -sc[v])
            k = n - len(must)
            if 0 < k < len(rest) and sc[rest[k - 1]] - sc[rest[k]] < 1e-6:
                raise Discard()
            new = sorted(must + rest[:k])
            cut = cut or len(new) < len(keep)
            keep = new
            counts.append(n)
        else:
            counts.append(None)
        ms = [model(e, x) for e, x in enum(co, ne, sizes, keep)]
        if not ms or len(ms) > 30 or len(set(m.key()[:2] for m in ms)) < len(ms) or (i < len(steps) - 1 and all(m.fail for m in ms)):
            raise Discard()
        if not any(v >= ne for v in keep):
            raise Discard()
        called.append(ms)
        models += ms
    x = np.array([[s.range(-9, 9) + 10.0 * j for j in range(ne + nx)] for _ in range(rows)])
    c.R("d <- get.data(%s, endogenous=%d, weights=%s, addIntercept=FALSE)" % (mat(x, names), ne, vec([1.0 + i for i in range(rows)]) if w else "NULL"))
    c.R("tab <- list(%s)" % ", ".join(code))
    c.R("""seen <- character(0); good <- TRUE
f <- function(columnIndices, numEndo, data, metrics, items, modelChecks) {
  nm <- colnames(data$data)
  good <<- good && identical(data$data, d$data[, nm, drop = FALSE]) && data$numEndo + data$numExo + %d == length(nm)
  e <- nm[columnIndices[seq_len(numEndo)]]; x <- nm[columnIndices[-seq_len(numEndo + %d)]]
  good <<- good && (%d == 0 || nm[columnIndices[numEndo + 1]] == "(Weights)")
  k <- paste(c(e, "|", intersect(colnames(d$data), x)), collapse=','); seen <<- c(seen, k); q <- tab[[k]]
  for (z in c("type1means", "type1vars")) if (!is.null(q[[z]])) q[[z]] <- unname(q[[z]][rownames(q[[z]]) %%in%% nm, , drop = FALSE])
  q }
assign('userfun', f, envir=globalenv())""" % (shift, shift, shift))
    save = s.chance(1, 4)
    call = lambda pre: "ldt:::search.rfunc(d, %s, get.search.metrics(typesIn=%s, typesOut=%s, minMetrics=list(%s)), NULL, %s, get.search.options(), 'userfun', %d, %s)[c('counts','results')]" % (
        "get.combinations(sizes=list(%s), partitions=%s, numFixPartitions=%d, innerGroups=%s, numTargets=%d, stepsNumVariables=c(%s), stepsFixedNames=%s, stepsSavePre=%s)" % (
            ", ".join(ivec(z) for z in steps), co.code_parts, co.fix, co.icode, targets, ", ".join("NA" if n is None else str(n) for n in counts), "NULL" if not fixed else svec(names[i] for i in fixed), pre),
        svec(tin) if tin else "NULL", svec(tout) if tout else "NULL", ", ".join("%s=%s" % (k, num(v)) for k, v in mins.items()), it.code, length1, num(inner_exo))
    if save:
        c.R("dir.create(pre <- tempfile())")
        c.R("pre <- paste0(pre, '/s')")
    r = c.R("r <- " + call("pre" if save else "NULL"))
    key = lambda m: ",".join([n for n in m.endo] + ["|"] + [n for n in names if n in m.exo])
    seen = list(c.R("seen").v)
    i = 0
    for k, ms in enumerate(called):
        part, i = seen[i:i + len(ms)], i + len(ms)
        check(sorted(part) == sorted(key(m) for m in ms), lambda: "models of step %d are %r instead of %r" % (k + 1, sorted(part), sorted(key(m) for m in ms)))
    check(len(seen) == i, lambda: "other models are estimated: %r" % seen[i:])
    check(c.R("good").v[0] is True, "data given to the function")
    verify(c, r, models, mets, names[:targets], it, it_names, names, 1e-9, mins, ["extra"] if extra else None, True)
    if save:
        c.R("seen <- character(0); good <- TRUE")
        j = s.range(1, len(steps) + 1)
        if j <= len(steps):  # it was stopped before saving this step
            c.R("invisible(file.remove(Filter(file.exists, paste0(pre, %d:%d, '.RData'))))" % (j, len(steps)))
        r2 = c.R("q <- " + call("pre"))
        seen = list(c.R("seen").v)
        want = sorted(key(m) for ms in called[j - 1:] for m in ms)
        check(sorted(seen) == want, lambda: "models estimated after resuming at step %d are %r instead of %r" % (j, sorted(seen), want))
        e = c.R("all.equal(r, q)")
        check(e.v[0] is True, lambda: "the result changes after resuming at step %d: %r" % (j, e.v))
        c.label("saved")
    if w:
        c.label("weights")
    if cut:
        c.label("fewer variables")
    c.label("inner exogenous" if inner_exo else "inner endogenous")
    c.nontrivial(cut or not any(m.fail for m in models))


@facet("regressions", "a step with fewer variables", 320)
def _sur(s, c):
    g = sur_data(s, c, nemax=3, nxmax=5)
    targets = s.range(1, g.ne)
    co = gen_combos(s, g.ne, g.nx, g.names, False, targets, maxinner=2)
    co.inner_exo = False
    if len(co.parts) < 2:
        raise Discard()
    if len(co.sizes) < 2:
        co.sizes = sorted(set(co.sizes) | {1, 2})
    co.fix = min(co.fix, co.sizes[-1])
    steps = split(s, co.sizes)
    it = gen_items(s)
    it.model = it.incl = True
    it.code = re.sub("model=F\\w*", "model=TRUE", re.sub("inclusion=F\\w*", "inclusion=TRUE", it.code))
    mets = s.pick([["aic"], ["sic"], ["sic", "aic"]])
    tab = {}

    def model(endo, exo):
        k = (tuple(endo), tuple(exo))
        if k in tab:
            return tab[k]
        m = tab[k] = Model([g.names[i] for i in endo], [g.names[i] for i in exo])
        a = g.a[:, endo + exo]
        a = a[~np.isnan(a).any(axis=1)]
        r = Sur(a[:, :len(endo)], a[:, len(endo):])
        if not np.linalg.cond(r.sigma) < 1e6 or not r.cn < 1e6 or not r.r2 < 1 - 1e-6:
            raise Discard()
        for i, t in enumerate(endo):
            if t < targets:
                for nm in mets:
                    m.metric[nm, g.names[t]] = r.aic if nm == "aic" else r.sic
                for j, e in enumerate(exo):
                    m.type1[g.names[e], g.names[t]] = (r.beta[j, i], r.sd[j, i] ** 2)
        m.coef = dict(((g.names[e], g.names[t]), r.beta[j, i]) for j, e in enumerate(exo) for i, t in enumerate(endo))
        return m

    fixed = [] if s.chance(1, 2) else s.subset(g.ne + g.nx, 1)
    must = list(dict.fromkeys(list(range(targets)) + fixed))
    keep, counts, called = list(range(g.ne + g.nx)), [], []
    mins, cut = {}, False
    for i, sizes in enumerate(steps):
        if i and s.chance(3, 4) and len(keep) > len(must):
            n = s.range(max(len(must), targets + sizes[0]), len(keep))
            sc = {}
            for v in keep:
                ws = [weight(mets[0], m.metric[mets[0], g.names[0]], mins[mets[0]]) for m in called[-1] if (mets[0], g.names[0]) in m.metric and (g.names[v] in m.endo or g.names[v] in m.exo)]
                sc[v] = sum(ws) / len(ws) if ws else -1
            rest = sorted([v for v in keep if v not in must], key=lambda v: -sc[v])
            k = n - len(must)
            if 0 < k < len(rest) and sc[rest[k - 1]] - sc[rest[k]] < 1e-6 * (1e-3 + abs(sc[rest[k]])):
                raise Discard()
            new = sorted(must + rest[:k])
            cut = cut or len(new) < len(keep)
            keep = new
            counts.append(n)
        else:
            counts.append(None)
        if not any(v >= g.ne for v in keep):
            raise Discard()
        ms = [model(e, x) for e, x in enum(co, g.ne, sizes, keep)]
        if not ms or len(ms) > 30 or len(set(m.key()[:2] for m in ms)) < len(ms):
            raise Discard()
        if not i:  # weights are about one
            mins = {q: round(min(m.metric[z] for m in ms for z in m.metric if z[0] == q), 2) for q in mets}
        called.append(ms)
    models = sum(called, [])
    c.R("r <- search.sur(d, get.combinations(sizes=list(%s), partitions=%s, numFixPartitions=%d, innerGroups=%s, numTargets=%d, stepsNumVariables=c(%s), stepsFixedNames=%s), get.search.metrics(typesIn=%s, typesOut=NULL, minMetrics=list(%s)), NULL, %s, get.search.options(parallel=%s))" % (
        ", ".join(ivec(z) for z in steps), co.code_parts, co.fix, co.icode, targets, ", ".join("NA" if n is None else str(n) for n in counts), "NULL" if not fixed else svec(g.names[i] for i in fixed),
        svec(mets), ", ".join("%s=%s" % kv for kv in mins.items()), it.code, num(s.coin())))
    r = c.R("r[c('counts','results')]")
    verify(c, r, models, mets, g.names[:targets], it, g.names[g.ne:], g.names, 1e-7, mins)

    def coef(e, m, names, key):
        named(e, names, m.endo, "coefs of " + str(key))
        for i, a in enumerate(names):
            for j, b in enumerate(m.endo):
                check(close(e.m[i, j], m.coef[a, b], 1e-6, 1e-7), lambda: "coefficient of %s in the equation of %s estimated again is %r instead of %r (%r)" % (a, b, e.m[i, j], m.coef[a, b], key))
    reestimate(c, r, models, coef)
    if cut:
        c.label("fewer variables")
    c.nontrivial(cut)


SAME = r'''
key <- function(x) paste(x$evalName, x$targetName, x$typeName, if (is.numeric(x$info)) paste(x$info, collapse = " "))
mkey <- function(v) paste(paste(v$endogenous, collapse = " "), paste(sort(v$exogenous), collapse = " "), paste(unlist(v$extra), collapse = " "))
mod <- function(v) list(mkey(v), v$metric, v$weight, v$mean, v$variance)
same <- function(a, b) {
  p <- character(0)
  for (n in c("expectedCount", "searchedCount", "failedCount")) if (!isTRUE(all.equal(a$counts[[n]], b$counts[[n]]))) p <- c(p, paste(n, a$counts[[n]], b$counts[[n]]))
  fd <- function(q) {f <- vapply(q$counts$failedDetails, function(z) paste(z$message, z$count), ""); sort(f)}
  if (!identical(fd(a), fd(b))) p <- c(p, "details of the failures")
  isall <- function(r) vapply(r$results, function(x) identical(x$typeName, "model"), NA)
  for (k in 1:2) {
    x <- a$results; y <- b$results
    x <- x[isall(a) == (k == 1)]; y <- y[isall(b) == (k == 1)]
    f <- if (k == 1) function(z) paste(z$evalName, z$targetName, mkey(z$value)) else key
    nx <- vapply(x, f, ""); ny <- vapply(y, f, "")
    if (!identical(sort(nx), sort(ny))) { p <- c(p, paste("results are different:", paste(head(c(setdiff(nx, ny), "|", setdiff(ny, nx)), 6), collapse = "; "))); next }
    if (anyDuplicated(nx)) p <- c(p, paste("duplicates:", nx[anyDuplicated(nx)]))
    y <- y[match(nx, ny)]
    for (i in seq_along(x)) {
      v <- x[[i]]$value; w <- y[[i]]$value
      if (is.matrix(v) && any(grepl("Count", colnames(v)))) { # the values without any model are arbitrary
        if (!identical(dimnames(v), dimnames(w))) { p <- c(p, paste("names of", nx[i])); next }
        e <- v[, "Count"] > 0
        if (!isTRUE(all.equal(v[, "Count"], w[, "Count"]))) p <- c(p, paste("counts of", nx[i]))
        v <- v[e, , drop = FALSE]; w <- w[e, , drop = FALSE]
        if (identical(x[[i]]$typeName, "mixture")) { v[, 3:4] <- v[, 3:4] / 10; w[, 3:4] <- w[, 3:4] / 10 }
        q <- if (length(v)) all.equal(v, w, tolerance = 1e-6) else TRUE
      } else if (is.list(v)) q <- all.equal(mod(v), mod(w), tolerance = 1e-6)
      else q <- all.equal(v, w, tolerance = 1e-6)
      if (!isTRUE(q)) p <- c(p, paste(nx[i], ":", paste(q, collapse = "; ")))
    }
  }
  paste(head(p, 5), collapse = " / ")
}
'''


@facet("one search", "three models or more", 220)
def _whole(s, c):
    k = s.range(0, 2)
    it = "get.search.items(model=TRUE, type1=%s, bestK=%d, all=%s, inclusion=TRUE, cdfs=%s, extremeMultiplier=%s, mixture4=%s)"
    args = lambda t1: (num(t1), s.range(1, 4), num(True), s.pick(["numeric(0)", "c(0)", "c(-0.5, 0.5)"]), s.pick(["0", "2"]), num(s.coin()))
    if k == 0:
        g = gen_bin(s, c, maxnx=4)
        m = len(g.exo)
        w = "search.bin"
        targets, inner = 1, ""
        rest = "get.search.metrics(typesIn=c('sic', 'brier'), typesOut=NULL), items=%s, searchLogit=TRUE, searchProbit=%s, optimOptions=%s, modelChecks=get.search.modelchecks(maxAic=%s)" % (
            it % args(True), num(s.coin()), NEWTON, s.pick(["Inf", num(round(len(g.y) * 1.2, 2))]))
        last = m - 1  # sizes include the intercept, which may be the only partition
    elif k == 1:
        g = gen_var(s, c)
        m = g.g
        targets = s.range(1, g.g)
        h = 0 if g.nx and g.xf is None else (len(g.xf) if g.nx else s.range(0, 2))
        inner = ", innerGroups=list(%s)" % ", ".join(ivec([x + 1 for x in s.subset(g.nx, s.range(1, g.nx))]) for _ in range(s.range(1, 2))) if g.nx else ", innerGroups=list()"
        w = "search.varma"
        rest = "get.search.metrics(typesIn=c('aic','sic'), typesOut=NULL), items=%s, maxParams=c(%dL,0L,0L,0L,0L,0L), seasonsCount=0L, maxHorizon=%dL" % (it % args(h > 0), s.range(1, 2), h)
    else:
        g = gen_reg(s, c, lam=True)
        m = g.k
        targets = s.range(1, g.ne)
        w = "search.sur"
        inner = ", innerGroups=list(%s)" % ", ".join(ivec(sorted(set([x + 1 for x in s.subset(g.ne, s.range(1, g.ne))] + list(range(1, targets + 1))))) for _ in range(s.range(1, 2)))
        sim = s.chance(1, 3)
        rest = "get.search.metrics(typesIn=c('aic','sic'), typesOut=%s, seed=-7, simFixSize=3), items=%s, modelChecks=get.search.modelchecks(%s)" % (
            "c('rmse', 'sign')" if sim else "NULL", it % args(True), s.pick(["", "maxConditionNumber=5", "minDof=%d" % (g.n - s.range(1, 4))]))
    if m < 2:
        raise Discard()
    sizes = sorted(x + 1 for x in s.subset(m, s.range(2, m)))
    steps = split(s, sizes)
    co = lambda z, e: "get.combinations(sizes=%s, numTargets=%d%s%s)" % (z, targets, inner, e)
    try:
        c.R("a <- suppressWarnings(%s(d, %s, %s))" % (w, co(ivec(sizes), ""), rest))
    except RError as e:
        c.label(str(e)[:60])
        raise Discard()
    n = int(c.R("a$counts$searchedCount").v[0])
    c.R("na <- is.null(a$results) || !length(a$results)")
    for i in range(len(steps) - 1):
        if c.R("{z <- suppressWarnings(%s(d, %s, %s)); z$counts$searchedCount == z$counts$failedCount}" % (w, co(ivec(steps[i]), ""), rest)).v[0] is True:
            raise Discard()  # steps stop when all models of a step fail
    if c.R("any(vapply(split(a$results, vapply(a$results, function(x) paste(x$evalName, x$targetName, x$typeName), '')), function(g) {q <- vapply(g, function(x) if (is.list(x$value)) x$value$metric else NA_real_, 0); q <- sort(q); length(q) > 1 && any(diff(q) < 1e-6 * (1e-9 + abs(q[-1])))}, NA))").v[0] is True:
        raise Discard()  # equal metrics
    c.R("b <- suppressWarnings(%s(d, %s, %s))" % (w, co("list(%s)" % ", ".join(ivec(z) for z in steps), ", stepsNumVariables=c(%s)" % ", ".join(["NA"] * len(steps))), rest))
    c.R(SAME)
    e = c.R("same(b, a)")
    check(e.v[0] == "", "steps and one search: " + str(e.v[0]))
    c.label(w)
    c.nontrivial(n > 2)
