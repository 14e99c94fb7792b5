"""C27: results do not depend on when R's garbage collector runs"""
from .models import *
from .gen import *

SETUP = r'''
if (is.null(getOption("gcwrapped"))) {
  for (pkg in c("ldt", "tdata")) {
    ns <- asNamespace(pkg)
    for (n in ls(ns, all.names = TRUE)) local({
      f <- get(n, ns); n <- n
      if (is.function(f) && any(grepl(".Call(", deparse(body(f)), fixed = TRUE))) {
        w <- function(...) {
          a <- list(...)
          k <- getOption("gcstep")
          if (is.null(k)) return(do.call(f, a, quote = TRUE))
          tryCatch({gctorture2(k); do.call(f, a, quote = TRUE)}, finally = gctorture2(0))
        }
        unlockBinding(n, ns)
        assign(n, w, ns)
      }
    })
  }
  options(gcwrapped = TRUE)
}
strip <- function(x) {
  if (is.function(x) || is.environment(x) || inherits(x, "POSIXct")) return(NULL)
  if (is.list(x)) {
    a <- attributes(x); a$names <- NULL
    x <- unclass(x)
    nm <- names(x)
    k <- if (is.null(nm)) rep(TRUE, length(x)) else !grepl("time|seed", nm, ignore.case = TRUE)
    y <- lapply(seq_along(x), function(i) if (k[i]) strip(x[[i]]))
    names(y) <- nm
    return(list(y, lapply(a, strip)))
  }
  x
}
sorted <- function(r) { # the models of a search are listed in any order
  k <- vapply(r$results, function(x) paste(x$evalName, x$targetName, x$typeName, if (identical(x$typeName, "model")) paste(sprintf("%.7g", x$value$metric), paste(x$value$endogenous, collapse = " "), paste(sort(x$value$exogenous), collapse = " "), paste(unlist(x$value$parameters), unlist(x$value$extra), x$value$distType, collapse = " ")) else paste(unlist(x$info), collapse = " ")), "")
  r$results <- lapply(r$results[order(k)], function(x) {if (identical(x$typeName, "model")) x$info <- NULL; x})
  r
}
'''
CMP = r'''
{
  f <- function() %s
  set.seed(1)
  a <- strip(f())
  options(gcstep = %d)
  set.seed(1)
  b <- tryCatch(strip(f()), error = function(e) structure(conditionMessage(e), class = "stopped"))
  options(gcstep = NULL)
  if (inherits(b, "stopped")) paste("stopped with:", b) else {
    q <- all.equal(a, b, tolerance = 1e-8)
    if (isTRUE(q)) "" else paste(head(q, 4), collapse = "; ")
  }
}
'''


def compare(s, c, call, steps):
    for p in call if isinstance(call, list) else [call]:
        r = c.R(CMP % (p, s.pick(steps)))
        check(r[0] == "", "the result changes when memory is collected during the call: " + r[0])


def start(c):
    c.R("NULL")
    c.proc.eval(SETUP, 60)


RULE = "every case"


@facet("statistics", RULE, 120)
def _stat(s, c):
    start(c)
    k, n = s.range(2, 4), s.range(5, 9)
    x = np.array([[float(s.range(-9, 9)) if s.coin() else round(s.norm(), 3) for _ in range(k)] for _ in range(n)]) + np.arange(n).reshape(n, 1) * 0.01
    whole = s.coin()
    if whole:
        x = np.array([[float(s.range(-9, 9)) for _ in range(k)] for _ in range(n)])
        x[0], x[1] = 0, np.arange(1, k + 1)
    X = (intmat if whole else mat)(x)
    y = [i % 2 for i in range(n)]
    call = [
        lambda: "s.roc(%s, %s, weights=%s, options=get.options.roc(%s))" % (ivec(y), (ivec if whole else vec)([int(t) for t in x[:, 0]] if whole else x[:, 0]), s.pick(["NULL", ivec([1 + i for i in range(n)])]),
                                                                    s.pick(["", "costs=%s, costMatrix=matrix(c(1L,-3L,-3L,1L),2,2)" % ivec([1 + i for i in range(n)])])),
        lambda: "s.pca(%s, newX=%s)" % (X, s.pick([X, "NULL"])),
        lambda: "s.distance(%s, %s)" % (X, st(s.pick(["euclidean", "manhattan", "maximum"]))),
        lambda: "s.cluster.h(s.distance(%s, 'euclidean'), %s)" % (X, st(s.pick(["single", "complete", "uAverage", "wAverage", "ward"]))),
        lambda: "s.cluster.h.group(%s, %d, 0, 'euclidean')" % (X, s.range(1, k)),
        lambda: "s.gld.from.moments(0L, 1L, 0.1, 0.2)",
        lambda: "s.gld.quantile(c(0.1, 0.5, 0.7), 0L, 1L, 0.1, 0.2)",
        lambda: "s.combine.stats4(list(mean=1L, variance=2L, skewness=0L, kurtosis=0L, weight=3L, count=3L), list(mean=1, variance=2, skewness=0, kurtosis=0, weight=3, count=3))",
        lambda: "s.weight.from.metric(1L, 'aic')",
    ]
    compare(s, c, s.pick(call)(), [1, 1, 2])
    c.nontrivial()


@facet("estimation", RULE, 90)
def _est(s, c):
    start(c)
    k = s.range(0, 3)
    if k == 0:
        g = gen_reg(s, c, lam=False)
        o = s.pick(["", ", simFixSize=2, simSeed=3, simTrainRatio=0.6", ", searchSigMaxIter=3, searchSigMaxProb=0.4",
                    ", restriction=local({m <- diag(%d)[, 1:%d, drop=FALSE]; storage.mode(m) <- 'integer'; m})" % (g.k * g.ne, max(1, g.k * g.ne - 1)), ", pcaOptionsX=get.options.pca(ignoreFirst=1)" if g.icpt and g.k > 2 else ""])
        call = "estim.sur(d%s)" % o
    elif k == 1:
        gen_bin(s, c)
        cs = [(np.round(a) if s.coin() else a, True) for a, i in gen_costs(s) if i]
        call = "estim.bin(d, costMatrices=%s, linkFunc=%s, optimOptions=%s%s)" % (cost_code(cs), st(s.pick(["logit", "probit"])), NEWTON,
                    s.pick(["", ", simFixSize=2, simSeed=3, simTrainRatio=0.8", ", aucOptions=get.options.roc(costs=rep(2L, sum(complete.cases(d$data))), costMatrix=matrix(c(1L,-3L,-3L,1L),2,2))"]))
    elif k == 2:
        g = gen_var(s, c, s.range(0, 2))
        call = "estim.varma(d, %s, maxHorizon=%d%s)" % (g.par, 0 if g.nx and g.xf is not None and len(g.xf) == 0 else (len(g.xf) if g.xf is not None else s.range(0, 2)), s.pick(["", ", simFixSize=2, simHorizons=1L"]))
    else:
        gen_var(s, c)
        call = "estim.varma(d, params=c(1L,0L,1L), maxHorizon=0)"
    try:
        c.R("invisible(%s)" % call)
    except RError:
        raise Discard()
    compare(s, c, call, [1, 2, 3])
    c.nontrivial()


@facet("searches", RULE, 60)
def _search(s, c):
    start(c)
    items = lambda h=True: "get.search.items(model=TRUE, type1=%s, bestK=%d, all=TRUE, inclusion=TRUE, cdfs=%s, extremeMultiplier=%d, mixture4=TRUE)" % (
        num(h), s.range(1, 3), s.pick(["c(0)", "c(0L, 1L)", "numeric(0)"]), s.pick([0, 2]))
    size = lambda m: s.pick([x for x in ["c(1L,2L)", "c(1,2)", "1", "1L"] if m > 1 or "2" not in x])
    inner = lambda n: ", ".join(s.pick(["c(%d)", "c(%dL)"]) % (i + 1) for i in range(n))
    k = s.range(0, 3)
    if k == 0:
        g = gen_reg(s, c, maxne=2, lam=False, missing=False)
        m = int(c.R("ncol(d$data)").v[0]) - g.ne
        call = "search.sur(d, get.combinations(sizes=%s, innerGroups=list(%s), numTargets=%d), get.search.metrics(typesIn=c('aic','sic'), typesOut=%s, seed=-3, simFixSize=2), items=%s)" % (
            size(m), inner(g.ne), g.ne, s.pick(["c('rmse','crps')", "NULL"]), items())
    elif k == 1:
        gen_bin(s, c, maxnx=2, missing=False)
        m = int(c.R("ncol(d$data) - 1 - (!is.null(d$weightsColumn) && '(Weights)' %in% colnames(d$data))").v[0])
        call = "search.bin(d, get.combinations(sizes=%s, numTargets=1), get.search.metrics(typesIn=c('sic','brier'), typesOut=%s, seed=-3, simFixSize=2, trainRatio=0.8), costMatrices=%s, items=%s)" % (
            size(m), s.pick(["c('brier')", "NULL"]), "NULL", items())
    elif k == 2:
        g = gen_var(s, c)
        h = 0 if g.nx and g.xf is None else (len(g.xf) if g.nx else s.range(0, 2))
        call = "search.varma(d, get.combinations(sizes=1L, numTargets=%d%s), get.search.metrics(typesIn='aic', typesOut=%s, simFixSize=2, horizons=1L), items=%s, maxParams=c(1L,0L,0L,0L,0L,0L), seasonsCount=0L, maxHorizon=%d)" % (
            g.g, ", innerGroups=list(%s)" % inner(1) if g.nx else "", s.pick(["c('rmse')", "character(0)"]), items(h > 0), h)
    else:
        g = gen_reg(s, c, maxne=2, lam=False, missing=False)
        m = int(c.R("ncol(d$data)").v[0]) - g.ne
        co = "get.combinations(sizes=%s, innerGroups=list(%s), numTargets=%d)" % (size(m), inner(g.ne), g.ne)
        c.R("""userfun <- function(columnIndices, numEndo, data, metrics, items, modelChecks) {
  m <- length(metrics$typesIn)
  list(error=if (length(columnIndices) == 3 && columnIndices[[3]] %% 2 == 0) 'this is a failure of the model' else '', metrics=matrix(sin(sum(columnIndices^2)) + seq_len(m * numEndo), m, numEndo), extra=c(1, 2),
       type1means=matrix(columnIndices[[1]] * 1.5, 1, numEndo), type1vars=matrix(2, 1, numEndo)) }
assign('userfun', userfun, envir=globalenv())""")
        call = "ldt:::search.rfunc(d, %s, get.search.metrics(typesIn=c('aic','sic'), typesOut=NULL), NULL, %s, get.search.options(), 'userfun', 1L, FALSE)[c('counts','results')]" % (co, items())
    c.R("d")
    try:
        c.R("q <- sorted(%s)" % call)
    except RError as e:
        c.label(call[:10] + str(e)[:70])
        raise Discard()
    compare(s, c, "sorted(%s)" % call, [1, 2, 3])
    c.nontrivial()


FREQ = ["f.yearly(2000)", "f.quarterly(2001, 2)", "f.monthly(2001L, 3L)", "f.daily(c(2021, 5, 4))", "f.weekly(c(2021, 5, 4))", "f.multi.daily(c(2021, 5, 4), 3)", "f.daily.in.week(c(2021, 5, 4), 'mon', 'fri', TRUE)",
        "f.hourly(f.daily(c(2021, 5, 4)), 4)", "f.secondly(f.daily(c(2021, 5, 4)), 40)", "f.x.times.a.day(f.daily(c(2021, 5, 4)), 4, 2)", "f.x.times.a.year(2000, 5, 2)", "f.multi.yearly(2000, 3)", "f.cross.section(3)",
        "f.list.string(c('b', 'a', 'c'), 'a')", "f.list.date(c('20200102', '20210304'), '20200102')"]


@facet("variables", RULE, 120)
def _vars(s, c):
    start(c)
    c.R("suppressMessages(library(tdata))")
    n = s.range(3, 9)
    v = lambda: ivec([s.range(-9, 9) for _ in range(n)]) if s.coin() else vec([round(s.norm(), 3) for _ in range(n)])
    f = s.pick(FREQ)
    d = s.pick(["f.daily(c(2021, 5, 4))", "f.daily(c(2020, 12, 28))"])
    var = lambda fr, nm: "variable(%s, %s, %s%s)" % (v(), fr, st(nm), s.pick(["", ", list(c('key', 'value'), c('k2', 'v2'))"]))
    call = [
        lambda: "{f <- %s; list(f, as.character(f), get.class.id(f))}" % f,
        lambda: "as.frequency(%s, %s)" % ("as.character(%s)" % f, "get.class.id(%s)" % f),
        lambda: "next.freq(%s, %d)" % (f, s.range(-3, 3)),
        lambda: "get.seq(%s, next.freq(%s, 4), 2)" % (f, f),
        lambda: "get.seq0(%s, 4, 1)" % f,
        lambda: "minus.freqs(next.freq(%s, 3), %s)" % (f, f),
        lambda: var(f, "x"),
        lambda: "as.data.frame(%s)" % var(f, "x"),
        lambda: "bind.variables(list(%s, %s))" % (var(s.pick(FREQ[:8]), "x").replace("f.x", "f.x"), var("f.yearly(2003)", "y")),
        lambda: "bind.variables(list(%s, %s, %s), interpolate=%s, adjustLeadLags=%s, numExo=%d, horizon=%d)" % (var("f.yearly(2001)", "x"), var("f.yearly(2003)", "y"), var("f.yearly(2002)", "z"), num(s.coin()), num(s.coin()), s.range(0, 1), s.range(0, 2)),
        lambda: "convert.to.weekly(%s, 'mon', %s)" % (var(d, "x"), s.pick(["'mean'", "function(q) mean(q, na.rm=TRUE)"])),
        lambda: "convert.to.multidaily(%s, 2, %s, %s)" % (var(d, "x"), s.pick(["'sum'", "function(q) sum(q)"]), num(s.coin())),
        lambda: "convert.to.XxYear(%s, 12, %s)" % (var(d, "x"), s.pick(["'last'", "function(q) mean(q)"])),
        lambda: "convert.to.daily(%s, 'mean')" % var("f.list.date(c('20200102', '20200104'), '20200102')", "x"),
        lambda: "get.longrun.growth(c(2, 3.5, 4, 6, 7))",
        lambda: "variable.to.string(%s)" % var(f, "x"),
    ]
    q = s.pick(call)()
    try:
        c.R("invisible(%s)" % q)
    except RError:
        raise Discard()
    compare(s, c, q, [1, 1, 2])
    c.nontrivial()
