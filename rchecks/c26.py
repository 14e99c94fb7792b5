"""C26: frequencies and variables in R"""
import datetime as dt
import math

import numpy as np

from .engine import *
from .gen import *

SETUP = "suppressMessages(library(tdata))"
WD = ["sun", "mon", "tue", "wed", "thu", "fri", "sat"]
E0 = dt.date(1970, 1, 1).toordinal()


def day(o):
    return dt.date.fromordinal(int(o))


def iso(o):
    d = day(o)
    return "%04d%02d%02d" % (d.year, d.month, d.day)


def wday(o):
    return int(o) % 7  # ordinal 7 is a sunday


def inr(w, a, b):
    return (w - a) % 7 <= (b - a) % 7


def gen_date(s):
    y = s.pick([2000, 1900, 2100, 2004, 1999, 1600, 2400, 2023]) if s.chance(1, 3) else s.range(1600, 2400)
    m = s.range(1, 12)
    last = (dt.date(y + (m == 12), m % 12 + 1, 1) - dt.timedelta(days=1)).day
    d = last if s.chance(1, 4) else s.range(1, last)
    return dt.date(y, m, d).toordinal()


def date_code(s, o):
    d = day(o)
    f = s.draw(6)
    if f == 0:
        return "c(%d, %d, %d)" % (d.year, d.month, d.day)
    if f == 1:
        return "list(year = %d, month = %d, day = %d)" % (d.year, d.month, d.day)
    if f == 2:
        return '"%04d-%02d-%02d"' % (d.year, d.month, d.day)
    if f == 3:
        return '"%04d/%02d/%02d"' % (d.year, d.month, d.day)
    if f == 4:
        return '"%s"' % iso(o)
    return 'as.Date("%04d-%02d-%02d")' % (d.year, d.month, d.day)


class Freq:
    kind = cls = ctype = code = None
    lo, hi = -400, 400
    list_ = None  # number of items after the start, before the start

    def text(self, k):
        raise NotImplementedError


def gen_week(s, only=None):
    f = Freq()
    k = s.draw(5) if only is None else s.pick(only)
    z = gen_date(s)
    dc = date_code(s, z)
    if k == 0:
        f.kind, f.cls, f.code, f.at = "daily", "d", "f.daily(%s)" % dc, lambda i: z + i
    elif k == 1:
        m = s.range(2, 30)
        f.kind, f.cls, f.code, f.at = "multi-daily", "d%d" % m, "f.multi.daily(%s, %d)" % (dc, m), lambda i: z + i * m
    elif k == 2:
        f.kind, f.cls, f.code, f.at = "weekly", "w", "f.weekly(%s)" % dc, lambda i: z + 7 * i
    elif k == 3:
        m = s.range(2, 10)
        f.kind, f.cls, f.code, f.at = "multi-weekly", "w%d" % m, "f.multi.weekly(%s, %d)" % (dc, m), lambda i: z + 7 * m * i
    else:
        a, b = s.draw(7), s.draw(7)
        fwd = not s.chance(1, 3)
        z0 = z
        while not inr(wday(z0), a, b):
            z0 += 1 if fwd else -1
        days = [i for i in range(7) if inr((a + i) % 7, a, b)]

        def at(i):
            p = days.index((wday(z0) - a) % 7) + i
            return z0 - (wday(z0) - a) % 7 + 7 * (p // len(days)) + days[p % len(days)]
        f.a, f.b, f.z0 = a, b, z0
        f.kind, f.cls, f.at = "daily-in-week", "i:%s-%s" % (WD[a], WD[b]), at
        f.code = "f.daily.in.week(%s, %s, %s%s)" % (dc, st(WD[a]), st(WD[b]), ", FALSE" if not fwd else s.pick(["", ", TRUE"]))
    f.text = lambda i: iso(f.at(i))
    return f


def gen_freq(s, kinds=None):
    k = s.pick(kinds) if kinds else s.draw(12)
    f = Freq()
    if k == 0:
        p = s.range(1, 1000)
        f.kind, f.cls, f.code, f.text = "cross-section", "cs", "f.cross.section(%d)" % p, lambda i: str(p + i)
    elif k <= 5:
        Z = X = 1
        y = s.range(1600, 2400)
        if k == 2:
            X = s.pick([4, 12])
        elif k == 3:
            X = s.pick([2, 3, 5, 6, 7, 24, 52, 13, 365, 40])
        elif k == 4:
            Z = s.range(2, 25)
        elif k == 5:
            X, Z = s.pick([2, 3, 4, 5, 12, 24, 120]), s.range(2, 9)
        p = s.range(1, X)
        f.kind, f.cls, f.code = {
            1: ("yearly", "y", "f.yearly(%d)" % y),
            2: ("monthly", "m", "f.monthly(%d, %d)" % (y, p)) if X == 12 else ("quarterly", "q", "f.quarterly(%d, %d)" % (y, p)),
            3: ("x-times-a-year", "y%d" % X, "f.x.times.a.year(%d, %d, %d)" % (y, X, p)),
            4: ("multi-yearly", "z%d" % Z, "f.multi.yearly(%d, %d)" % (y, Z)),
            5: ("x-times-z-years", "x%dz%d" % (X, Z), "f.x.times.z.years(%d, %d, %d, %d)" % (y, X, Z, p))}[k]
        if k in (4, 5):
            f.lo, f.hi = -50, 300
        sep = {2: "M" if X == 12 else "Q"}.get(k, ":")

        def text(i):
            q, r = divmod(p - 1 + i, X)
            return str(y + q * Z) + (sep + str(r + 1) if X > 1 else "")
        f.text = text
    elif k <= 8:
        return gen_week(s)
    elif k == 9:
        w = gen_week(s, [0, 4])
        t = s.draw(4)
        X = [24, 1440, 86400, s.pick([1, 2, 3, 5, 8, 12, 23, 25, 48, 96])][t]
        p = s.pick([1, X]) if s.chance(1, 4) else s.range(1, X)
        f.kind = ["hourly", "minutely", "secondly", "x-times-a-day"][t]
        f.cls = ["ho", "mi", "se", "da%d" % X][t] + "|" + w.cls
        f.code = ["f.hourly(%s, %d)", "f.minutely(%s, %d)", "f.secondly(%s, %d)", "f.x.times.a.day(%s, " + str(X) + ", %d)"][t] % (w.code, p)

        def text(i):
            q, r = divmod(p - 1 + i, X)
            return w.text(q) + ":" + str(r + 1)
        f.text = text
    else:
        n = s.range(1, 8)
        i0 = s.draw(n)
        if k == 10:
            items = [chr(65 + j) + ("" if s.coin() else " x%d" % j) for j in s.perm(26)[:n]]
            f.kind, f.cls = "list-string", "Ls:" + ";".join(items)
            f.code = "f.list.string(%s, %s)" % (svec(items), st(items[i0]))
        else:
            z, days = gen_date(s), []
            for _ in range(n):
                days.append(z)
                z += s.range(1, 400)
            items = [iso(d) for d in days]
            f.kind, f.cls = "list-date", "Ld:" + ";".join(items)
            if s.coin():
                fm = s.pick(["%Y-%m-%d", "%Y/%m/%d", "%Y%m%d"])
                tx = [day(d).strftime(fm) for d in days]
                v = "" if i0 == 0 and s.coin() else ", " + st(tx[i0])
                f.code = "f.list.date(%s%s)" % (svec(tx), v)
            else:
                f.code = "f.list.date(%s, %s, FALSE)" % (svec(items), st(items[i0]))
        f.lo, f.hi = -12, 12
        f.list_ = (-i0, n - 1 - i0)

        def text(i):
            j = i0 + i
            return "out_item:%d" % j if j < 0 else "out_item:%d" % (j - n + 1) if j >= n else items[j]
        f.text = text
    return f


def step(s, f):
    k = s.range(-3, 3) if s.chance(1, 3) else s.range(-40, 40) if s.coin() else s.range(-400, 400)
    return max(f.lo, min(f.hi, k))


@facet("frequencies", "the step is not zero", 1500)
def frequencies(s, c):
    f = gen_freq(s)
    c.label(f.kind)
    a, b = step(s, f), step(s, f)
    if f.list_ and s.chance(2, 3):  # inside the list
        a, b = s.range(*f.list_), s.range(*f.list_)
    r = c.R("""{%s
 f <- %s; g <- next.freq(f, %d); h <- next.freq(f, %d); i <- get.class.id0(f)
 list(t = as.character(f), id = get.class.id(f), v = i$value, back = identical(as.frequency(as.character(f), get.class.id(f)), f),
  g = as.character(g), h = as.character(h), gid = get.class.id(g), gback = identical(as.frequency(as.character(g), get.class.id(g)), g),
  d = minus.freqs(g, h), e = minus.freqs(h, g), o = as.character(next.freq(g, %d)), cls = class(g), pr = paste(capture.output(x <- print(g)), collapse = ""))}""" % (SETUP, f.code, a, b, -a))
    c.nontrivial(a != 0)
    check(r["t"].v[0] == f.text(0) and r["v"].v[0] == f.text(0), "%s is written as %s, expected %s" % (f.code, r["t"].v[0], f.text(0)))
    check(r["id"].v[0] == f.cls and r["gid"].v[0] == f.cls, "class of %s is %s, after %d steps %s, expected %s" % (f.code, r["id"].v[0], a, r["gid"].v[0], f.cls))
    check(r["back"].v[0], "%s is not what its text and class are read back as" % f.code)
    for q, k in (("g", a), ("h", b)):
        check(r[q].v[0] == f.text(k), "%s moved by %d is %s, expected %s" % (f.code, k, r[q].v[0], f.text(k)))
    check(r["gback"].v[0], "%s moved by %d is not what its text and class are read back as" % (f.code, a))
    check(r["d"].v[0] == a - b and r["e"].v[0] == b - a, "the distance between steps %d and %d of %s is %s and %s" % (a, b, f.code, r["d"].v[0], r["e"].v[0]))
    check(r["o"].v[0] == f.text(0), "%s moved by %d and back is %s" % (f.code, a, r["o"].v[0]))
    check(list(r["cls"].v) == ["ldtf", "list"], "class %s" % r["cls"].v)
    check(f.text(a) in r["pr"].v[0], "the printed text is %s" % r["pr"].v[0])


@facet("sequences", "the sequence has at least 3 elements", 1000)
def sequences(s, c):
    f = gen_freq(s)
    c.label(f.kind)
    by = s.range(1, 5) * (1 if s.chance(2, 3) else -1)
    if s.coin():
        n = s.range(0, 20)
        if f.list_:
            n = min(n, 8)
        r = c.R("{%s; get.seq0(%s, %d%s)}" % (SETUP, f.code, n, "" if by == 1 else ", %d" % by))
        e = [f.text(i * by) for i in range(n)]
        what = "%d elements from %s by %d" % (n, f.code, by)
    else:
        a = step(s, f)
        b = a + s.range(-40, 40)
        if f.list_:
            a, b = s.range(*f.list_), s.range(*f.list_)
        r = c.R("{%s; f <- %s; get.seq(next.freq(f, %d), next.freq(f, %d)%s)}" % (SETUP, f.code, a, b, "" if by == 1 else ", %d" % by))
        d = abs(by) if b >= a else -abs(by)
        e = [f.text(i) for i in range(a, b + (1 if d > 0 else -1), d)]
        what = "from step %d to step %d of %s by %d" % (a, b, f.code, by)
    got = [] if r is None else list(r.v)
    check(got == e, "%s: %s expected %s" % (what, got, e))
    c.nontrivial(len(e) > 2)


BAD = [
    "f.quarterly(2000, %d)", "f.monthly(2000, %d)", "f.x.times.a.year(2000, 3, %d)", "f.x.times.z.years(2000, 3, 2, %d)",
    "f.hourly(f.daily(c(2000, 1, 1)), %d)", "f.minutely(f.daily(c(2000, 1, 1)), %d)", "f.secondly(f.daily(c(2000, 1, 1)), %d)",
    "f.x.times.a.day(f.daily(c(2000, 1, 1)), 7, %d)"]
TOP = [4, 12, 3, 3, 24, 1440, 86400, 7]


@facet("rejected", "any", 400)
def rejected(s, c):
    k = s.draw(6)
    if k == 0:
        i = s.draw(len(BAD))
        code = BAD[i] % s.pick([0, -1, TOP[i] + 1, TOP[i] + 2])
        ok = BAD[i] % s.pick([1, TOP[i]])
    elif k == 1:
        code = s.pick(["f.multi.yearly(2000, %d)", "f.x.times.a.year(2000, %d, 1)", "f.x.times.z.years(2000, %d, 2, 1)", "f.x.times.z.years(2000, 3, %d, 1)", "f.multi.weekly(c(2000, 1, 1), %d)",
                       "f.multi.daily(c(2000, 1, 1), %d)", "f.x.times.a.day(f.daily(c(2000, 1, 1)), %d, 1)"])
        code, ok = code % s.pick([0, -1, -3]), code % 1
    elif k == 2:
        q = s.pick(["f.daily(%s)", "f.weekly(%s)", "f.multi.daily(%s, 2)", "f.multi.weekly(%s, 2)", "f.daily.in.week(%s)"])
        code = q % s.pick(["c(2000, 13, 1)", "c(2000, 0, 1)", "c(2000, 1, 32)", "c(2000, 1, 0)", "c(2000, 1)", "c(1200, 1, 1)", "NULL", "list(year = 2000, month = 1)", '"abc"'])
        ok = q % "c(2000, 12, 31)"
    elif k == 3:
        f, g = gen_freq(s), gen_freq(s)
        if f.cls.split("|")[0][:1] == g.cls.split("|")[0][:1]:
            raise Discard()
        q = s.pick(["minus.freqs(%s, %s)", "get.seq(%s, %s)", "bind.variables(list(variable(1:2, %s), variable(1:3, %s)))"])
        code, ok = q % (f.code, g.code), q % (f.code, f.code)
    elif k == 4:
        q = s.pick(["convert.to.weekly(%s, 'mon', 'mean')", "convert.to.multidaily(%s, 2, 'mean')", "convert.to.XxYear(%s, 12, 'mean')", "convert.to.XxYear(%s, 7, sum)", "convert.to.daily(%s)"])
        f = gen_freq(s)
        if (f.kind == "daily") if "to.daily" not in q else (f.kind in ("list-date", "daily-in-week")):
            raise Discard()
        code = q % ("variable(1:5, %s)" % f.code)
        ok = q % ("variable(1:5, f.daily(c(2000, 1, 1)))" if "to.daily" not in q else "variable(1:5, f.daily.in.week(c(2000, 1, 3)))")
    else:
        v = "variable(1:5, f.daily(c(2000, 1, 1)))"
        code, ok = s.pick([("convert.to.weekly(%s, 'abc', 'mean')", "convert.to.weekly(%s, 'fri', 'mean')"),
                           ("convert.to.weekly(%s, 'mon', 'abc')", "convert.to.weekly(%s, 'mon', 'max')"),
                           ("convert.to.multidaily(%s, 0, 'mean')", "convert.to.multidaily(%s, 1, 'mean')"),
                           ("convert.to.XxYear(%s, 0, 'mean')", "convert.to.XxYear(%s, 1, 'mean')"),
                           ("convert.to.XxYear(%s, 12, 3)", "convert.to.XxYear(%s, 12, 'last')"),
                           ("convert.to.multidaily(%s, 2, function(x) stop('no'))", "convert.to.multidaily(%s, 2, function(x) 1)"),
                           ("bind.variables(list(%s), numExo = -1)", "bind.variables(list(%s), numExo = 0)"),
                           ("bind.variables(list(%s), numExo = 2)", "bind.variables(list(%s), numExo = 1)"),
                           ("bind.variables(list(%s), horizon = -1)", "bind.variables(list(%s), horizon = 1)")])
        code, ok = code % v, ok % v
    c.label(str(k))
    c.nontrivial(True)
    check(c.err("{%s; %s}" % (SETUP, code)) is not None, "%s is accepted" % code)
    e = c.err("{%s; %s}" % (SETUP, ok))
    check(e is None, "%s is rejected: %s" % (ok, e))


def gen_vals(s, n, ends=True):
    d = np.array([float(i + 1) + (0.5 if s.coin() else 0) if s.coin() else s.norm() for i in range(n)])
    for i in range(n):
        if s.chance(1, 7):
            d[i] = np.nan
    if ends and s.chance(1, 3):
        d[:s.range(0, n - 1)] = np.nan
    if ends and s.chance(1, 3):
        d[n - s.range(0, n - 1):] = np.nan
    return d


def same(a, b, what, rtol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, "%s: shape %s expected %s" % (what, a.shape, b.shape))
    bad = ~((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.maximum(1, np.abs(b))))
    check(not bad.any(), "%s: %s expected %s" % (what, a.tolist(), b.tolist()))


@facet("variables", "the variable has a name and fields", 500)
def variables(s, c):
    f = gen_freq(s)
    c.label(f.kind)
    n = s.range(1, 8)
    d = gen_vals(s, n, False)
    name = s.pick([None, "x", "my var", "V1(+2)"])
    nf = s.draw(4)
    fields = [("k%d" % i, s.pick(["a", "b c", "d.e"]) + str(i)) for i in range(nf)]
    default = f.kind == "cross-section" and s.chance(1, 4)
    if default:
        f.text = lambda i: str(1 + i)
    r = c.R("""{%s
 v <- variable(%s%s%s%s)
 df <- as.data.frame(v)
 list(n = length(v), x = as.numeric(v), rn = row.names(v), dn = rownames(df), dx = df[[1]], dc = colnames(df), dim = dim(df), t = as.character(v), name = v$name,
  st = as.character(v$startFrequency), attr = identical(attr(df, "ldtf"), v$startFrequency), pr = capture.output(x <- print(v)), cls = class(v))}""" % (
        SETUP, vec(d), "" if default else ", " + f.code, "" if name is None else ", name = " + st(name),
        ", fields = list(%s)" % ", ".join("c(%s, %s)" % (st(a), st(b)) for a, b in fields) if nf else ""))
    c.nontrivial(nf > 0 and name is not None)
    check(int(r["n"].v[0]) == n, "length %s" % r["n"].v)
    same(r["x"].v, d, "as.numeric")
    e = [f.text(i) for i in range(n)]
    check(list(r["rn"].v) == e, "row names %s expected %s" % (r["rn"].v, e))
    check(list(r["dn"].v) == e, "row names of the data frame %s expected %s" % (r["dn"].v, e))
    same(r["dx"].v, d, "data frame")
    check(list(r["dc"].v) == [name or "V"] and list(map(int, r["dim"].v)) == [n, 1], "columns of the data frame %s" % r["dc"].v)
    check(r["attr"].v[0] and r["st"].v[0] == f.text(0), "start is %s" % r["st"].v[0])
    t = r["t"].v[0]
    check("\n" not in t and t.startswith((name or "V") + "\t") and f.text(0) in t and all(a in t and b in t for a, b in fields), "text %r" % t)
    p = "\n".join(r["pr"].v)
    check((name or "") in p and ("Length = %d" % n) in p and f.text(0) in p and all("%s = %s" % x in p for x in fields), "print gives %s" % p)


@facet("binding", "two variables do not cover the same period", 700)
def binding(s, c):
    lead = s.coin()
    f = gen_freq(s, None if not lead else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
    c.label(f.kind)
    q = s.range(1, 4)
    interp = s.coin()
    nexo = s.draw(q) if s.coin() else 0
    hor = s.draw(4)
    vs, codes = [], []
    for i in range(q):
        n = s.range(1, 9)
        if f.list_:
            k = s.range(*f.list_)
            n = s.range(1, f.list_[1] - k + 1)
        else:
            k = s.range(-6, 6)
        d = gen_vals(s, n)
        if np.isnan(d).all():
            d[s.draw(n)] = 1.5
        vs.append((k, d))
        codes.append("variable(%s, next.freq(f, %d), %s)" % (vec(d), k, st("V%d" % i)))
    args = ["list(%s)" % ", ".join(codes)]
    if interp or s.coin():
        args.append("interpolate = %s" % ("TRUE" if interp else "FALSE"))
    if lead or s.coin():
        args.append("adjustLeadLags = %s" % ("TRUE" if lead else "FALSE"))
    if nexo or s.coin():
        args.append("numExo = %d" % nexo)
    if hor:
        args.append("horizon = %d" % hor)
    r = c.R("{%s; f <- %s; r <- bind.variables(%s); list(d = r$data, i = r$info, f = as.character(attr(r$data, 'ldtf')), id = get.class.id(attr(r$data, 'ldtf')))}" % (SETUP, f.code, ", ".join(args)))
    cols = []
    for k, d in vs:
        ok = np.flatnonzero(~np.isnan(d))
        k, d = k + ok[0], d[ok[0]:ok[-1] + 1].copy()
        cnt = 0
        if interp:
            m = np.isnan(d)
            cnt = int(m.sum())
            ix = np.arange(len(d))
            d[m] = np.interp(ix[m], ix[~m], d[~m])
        cols.append([k, d, cnt])
    names = ["V%d" % i for i in range(q)]
    last = cols[0][0] + len(cols[0][1]) - 1
    lags = [0] * q
    for i in range(1, q):
        lags[i] = cols[i][0] + len(cols[i][1]) - 1 - last - (hor if i >= q - nexo else 0)
        if lead and lags[i]:
            cols[i][0] -= lags[i]
            names[i] += "(%+d)" % lags[i]
    lo, hi = min(k for k, _, _ in cols), max(k + len(d) for k, d, _ in cols)
    e = np.full((hi - lo, q), np.nan)
    for i, (k, d, _) in enumerate(cols):
        e[k - lo:k - lo + len(d), i] = d
    D = r["d"]
    same(D.m, e, "data", 1e-9)
    check(list(D.colnames) == names, "columns %s expected %s" % (D.colnames, names))
    rn = [f.text(i) for i in range(lo, hi)]
    check(list(D.rownames) == rn, "rows %s expected %s" % (D.rownames, rn))
    check(r["f"].v[0] == rn[0], "start %s expected %s" % (r["f"].v[0], rn[0]))
    check(r["id"].v[0] == f.cls, "class of the start %s expected %s" % (r["id"].v[0], f.cls))
    ei = [[k - lo + 1, k - lo + len(d), int(np.isnan(d).any()), cnt, 0 if lead else lags[i]] for i, (k, d, cnt) in enumerate(cols)]
    check(np.array_equal(r["i"].m, ei), "information %s expected %s" % (r["i"].m.tolist(), ei))
    check(list(r["i"].colnames) == ["Start_Index", "End_Index", "Has_Missing", "Interpolated_Count", "Lags_Leads"], "columns of the information %s" % r["i"].colnames)
    c.nontrivial(len({(k, len(d)) for k, d in vs}) > 1)


AGGS = [("mean", np.mean), ("ave", np.mean), ("min", np.min), ("max", np.max), ("first", lambda x: x[0]), ("last", lambda x: x[-1])]


@facet("conversions", "there is more than one group", 700)
def conversions(s, c):
    k = s.draw(5)
    if k == 4:  # to daily
        if s.coin():
            n = s.range(1, 8)
            z, days = gen_date(s), []
            for _ in range(n):
                days.append(z)
                z += s.range(1, 30)
            days = [days[i] for i in s.perm(n)] if s.coin() else days
            f = "f.list.date(%s)" % svec([iso(d) for d in days])
        else:
            w = gen_week(s, [4])
            if wday(w.z0) != w.a:
                raise Discard()  # the recorded finding of C03
            n = s.range(1, 30)
            days, f = [w.at(i) for i in range(n)], w.code
        d = gen_vals(s, n, False)
        r = c.R("{%s; v <- convert.to.daily(variable(%s, %s, 'V')); list(x = v$data, t = as.character(v$startFrequency), id = get.class.id(v$startFrequency), name = v$name)}" % (SETUP, vec(d), f))
        lo, hi = min(days), max(days)
        e = np.full(hi - lo + 1, np.nan)
        for a, b in zip(days, d):
            e[a - lo] = b
        same(r["x"].v, e, "daily values of %s" % f)
        check(r["t"].v[0] == iso(lo) and r["id"].v[0] == "d", "start %s %s expected %s" % (r["t"].v[0], r["id"].v[0], iso(lo)))
        c.label("daily")
        c.nontrivial(n > 1)
        return
    z = gen_date(s)
    n = s.range(1, 40) if k < 2 else s.range(1, 400)
    dc = date_code(s, z)
    d = gen_vals(s, n, False)
    key = [None] * n
    if k == 0:
        m, end = s.range(1, 9), s.coin()
        first = n % m if end and n % m else m
        key = [0 if i < first else 1 + (i - first) // m for i in range(n)]
        call = "convert.to.multidaily(v, %d, %%s%s)" % (m, "" if end and s.coin() else ", %s" % ("TRUE" if end else "FALSE"))
        t, cid = iso(z), "d" if m == 1 else "d%d" % m
        pads = None
    elif k == 1:
        wd = s.draw(7)
        w0 = z - (wday(z) - wd) % 7
        key = [(z + i - w0) // 7 for i in range(n)]
        call = "convert.to.weekly(v, %s, %%s)" % st(WD[wd])
        t, cid = iso(w0), "w"
    else:
        mb = k == 2
        x = s.pick([12, 4, 2, 3, 6, 24]) if mb else s.pick([5, 7, 8, 10, 13, 26, 36, 52, 73, 100, 365])

        def part(o):
            q = day(o)
            if not mb:
                y0 = dt.date(q.year, 1, 1).toordinal()
                ln = dt.date(q.year + 1, 1, 1).toordinal() - y0
                return q.year * x + (o - y0) * x // ln
            return q.year * x + ((q.month - 1) * 2 + (q.day > 15) if x == 24 else (q.month - 1) // (12 // x))
        key = [part(z + i) - part(z) for i in range(n)]
        call = "convert.to.XxYear(v, %d, %%s)" % x
        p0 = part(z) % x + 1
        t = "%d%s%d" % (day(z).year, "Q" if x == 4 else "M" if x == 12 else ":", p0)
        cid = {4: "q", 12: "m"}.get(x, "y%d" % x)
    groups = [[] for _ in range(key[-1] + 1)]
    for g, v in zip(key, d):
        groups[g].append(v)
    if s.coin():
        nm, fn = s.pick(AGGS)
        agg = st(nm)
    else:
        nm, agg = "function", "function(x) {x <- x[!is.na(x)]; sum(x * seq_along(x))}"

        def fn(x):
            return float((x * np.arange(1, len(x) + 1)).sum())
    e = []
    skip = False
    for g in groups:
        g = np.array([v for v in g if not np.isnan(v)])
        if len(g) == 0 and nm != "function":
            skip = True
            e.append(np.nan)
        else:
            e.append(fn(g))
    r = c.R("{%s; v <- variable(%s, f.daily(%s), 'V'); w <- %s; list(x = w$data, t = as.character(w$startFrequency), id = get.class.id(w$startFrequency), name = w$name, cls = class(w), keep = v$data)}" % (SETUP, vec(d), dc, call % agg))
    got = np.asarray(r["x"].v, float)
    check(len(got) == len(e), "%s: %d groups expected %d" % (call, len(got), len(e)))
    if skip:  # a group without any value
        keep = ~np.isnan(e)
        got, e = got[keep], np.array(e)[keep]
    same(got, e, call % agg, 1e-9)
    check(r["t"].v[0] == t and r["id"].v[0] == cid, "%s: start %s (%s) expected %s (%s)" % (call, r["t"].v[0], r["id"].v[0], t, cid))
    check(list(r["cls"].v) == ["ldtv", "list"], "class %s" % r["cls"].v)
    same(r["keep"].v, d, "the given variable")
    c.label("%s %s" % (call.split("(")[0], nm if nm == "function" else "named"))
    c.nontrivial(len(groups) > 1)


@facet("growth", "values are trimmed", 500)
def growth(s, c):
    n = s.range(1, 9)
    d = np.array([abs(s.norm()) * 10 + 0.1 for _ in range(n)])
    for i in range(n):
        if s.chance(1, 8):
            d[i] = s.pick([np.nan, 0.0])
    na = s.range(0, n) if s.chance(1, 2) else 0
    nb = s.range(0, n) if s.chance(1, 2) else 0
    for i in list(range(na)) + list(range(n - nb, n)):
        d[i] = s.pick([np.nan, 0.0])
    cont, perc, skipz = s.coin(), s.coin(), not s.chance(1, 3)
    ts, te = s.pick([0, 0, 1, 2, 3, 8, 20]), s.pick([0, 0, 1, 2, 3, 8, 20])
    args = [vec(d)]
    for nm, v, df in (("continuous", cont, False), ("isPercentage", perc, False), ("skipZero", skipz, True)):
        if v != df or s.coin():
            args.append("%s = %s" % (nm, "TRUE" if v else "FALSE"))
    for nm, v in (("trimStart", ts), ("trimEnd", te)):
        if v or s.coin():
            args.append("%s = %d" % (nm, v))

    def bad(v):
        return np.isnan(v) or (skipz and v == 0)
    i0, i1 = 0, n
    while i0 < n and bad(d[i0]):
        i0 += 1
    while i1 > 0 and bad(d[i1 - 1]):
        i1 -= 1
    r = c.R("{%s; get.longrun.growth(%s)}" % (SETUP, ", ".join(args)))
    got = float(r.v[0]) if r.v[0] is not None else np.nan
    c.nontrivial(i0 > 0 or i1 < n)
    what = "growth of %s" % ", ".join(args)
    if i0 == n or i0 > ts or n - i1 > te:
        check(np.isnan(got), "%s is %s, expected a missing value" % (what, got))
        c.label("missing")
        return
    x = d[i0:i1]
    if perc:
        if np.isnan(x).any():
            check(np.isnan(got), "%s is %s, expected a missing value" % (what, got))
            c.label("missing inside")
            return
        e = x.mean() if cont else (np.prod(1 + x / 100) ** (1 / len(x)) - 1) * 100
    else:
        if len(x) < 2 or x[0] == 0 or x[-1] == 0:
            raise Discard()
        e = math.log(x[-1] / x[0]) / (len(x) - 1) * 100 if cont else ((x[-1] / x[0]) ** (1 / (len(x) - 1)) - 1) * 100
    check(close(got, e, 1e-8, 1e-8), "%s is %.12g expected %.12g" % (what, got, e))
    c.label("percentage" if perc else "level")


@facet("remove_na", "there are at least two missing values", 400)
def remove_na(s, c):
    n, k = s.range(2, 7), s.range(2, 6)
    m = np.arange(1.0, n * k + 1).reshape(n, k)
    p = s.pick([2, 4, 8])
    for i in range(n):
        for j in range(k):
            if s.chance(1, p):
                m[i, j] = np.nan
    if s.chance(1, 4):
        m[s.draw(n), :] = np.nan
    if s.chance(1, 4):
        m[:, s.draw(k)] = np.nan
    pw = s.pick([1, 1, 1.5, 3])
    cf = "" if pw == 1 and s.coin() else ", countFun = function(nRows, nCols) nRows * nCols^%s" % pw
    r = c.R("{%s; remove.na.strategies(%s%s)}" % (SETUP, mat(m), cf))
    na = np.isnan(m)
    got = []
    prev = np.inf
    for it in r.v:
        cr = [] if it["colRemove"] is None else [int(x) - 1 for x in it["colRemove"].v]
        rr = [] if it["rowRemove"] is None else [int(x) - 1 for x in it["rowRemove"].v]
        check(sorted(set(cr)) == cr and sorted(set(rr)) == rr and all(0 <= x < k for x in cr) and all(0 <= x < n for x in rr), "removed columns %s rows %s" % (cr, rr))
        kc = [j for j in range(k) if j not in cr]
        kr = [i for i in range(n) if i not in rr]
        check(not na[np.ix_(kr, kc)].any(), "missing values are left when rows %s and columns %s are removed" % (rr, cr))
        check(int(it["nRows"].v[0]) == len(kr) and int(it["nCols"].v[0]) == len(kc), "the counts are %s, %s" % (it["nRows"].v, it["nCols"].v))
        v = len(kr) * len(kc) ** pw
        check(v <= prev + 1e-9, "the strategies are not sorted")
        prev = v
        got.append((frozenset(cr), frozenset(rr)))
    c.nontrivial(int(na.sum()) >= 2)
    # removing the columns (rows) with the most missing values and then what is left; ties are not decided
    best = 0
    for ax in (0, 1):
        cnt = na.sum(axis=ax)
        size = len(cnt)
        order = sorted(range(size), key=lambda j: -cnt[j])
        for i in range(1, size):
            if cnt[order[i - 1]] == cnt[order[i]]:
                continue
            rem = set(order[:i])
            if ax == 0:
                kc = [j for j in range(k) if j not in rem]
                rr = frozenset(q for q in range(n) if na[q, kc].any())
                if len(rr) < n:
                    check((frozenset(rem), rr) in got, "removing the columns %s and the rows %s is not among the strategies" % (sorted(rem), sorted(rr)))
            else:
                kr = [j for j in range(n) if j not in rem]
                cc = frozenset(q for q in range(k) if na[kr, q].any())
                if len(cc) < k:
                    check((cc, frozenset(rem)) in got, "removing the rows %s and the columns %s is not among the strategies" % (sorted(rem), sorted(cc)))
