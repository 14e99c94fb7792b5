"""generators of single models shared by the checks of the R package ldt"""
from .engine import *
from .ref import *
from .gen import *


def same(got, want, what, rtol=1e-6, atol=1e-7):
    want = np.asarray(want, dtype=float)
    check(got is not None, what + " is missing")
    g = got.m if got.dim else np.asarray(got.v, dtype=float)
    check(g.shape == want.shape, lambda: "%s: dimension %r instead of %r" % (what, g.shape, want.shape))
    sc = np.max(np.abs(want[np.isfinite(want)])) if np.any(np.isfinite(want)) else 1.0
    check(close(g, want, rtol, atol * (1e-3 + sc)), lambda: "%s is\n%r\ninstead of\n%r" % (what, g.tolist(), want.tolist()))


def same_num(got, want, what, rtol=1e-7, atol=1e-7):
    v = got.v if isinstance(got, V) else got
    check(len(v) == 1, what + " is not a number")
    check(close(v[0], want, rtol, atol), lambda: "%s is %r instead of %r" % (what, v[0], want))


def named(got, rows, cols, what):
    check(rows is None or list(got.rownames or []) == rows, lambda: "%s: row names %r instead of %r" % (what, got.rownames, rows))
    check(cols is None or list(got.colnames or []) == cols, lambda: "%s: column names %r instead of %r" % (what, got.colnames, cols))


class Sys:
    pass


def gen_reg(s, c, maxne=3, maxnx=3, lam=True, missing=True, pos=False, whole=True):
    g = Sys()
    g.ne, g.icpt = s.range(1, maxne), s.chance(3, 4)
    nx = s.range(0 if g.icpt else 1, maxnx)
    g.k = nx + (1 if g.icpt else 0)
    n = s.range(g.k + g.ne + 4, g.k + g.ne + 25)
    whole = whole and s.chance(1, 5)  # integers everywhere
    b = [[s.norm() for _ in range(g.ne)] for _ in range(nx)]
    x = np.array([[float(s.range(-6, 6)) if whole else s.norm() for _ in range(nx)] for _ in range(n)]).reshape(n, nx)
    e = np.array([[s.norm() for _ in range(g.ne)] for _ in range(n)])
    y = np.round(x @ np.array(b).reshape(nx, g.ne) + e, 4)
    if whole:
        y = np.round(5 * y)
    g.lam = None
    if lam and not whole and s.chance(1, 5):
        g.lam = [s.pick([0.0, 0.5, 1.0, 2.0]) for _ in range(g.ne)]
        y = np.round(np.abs(y) + 0.2, 4)
    names = gen_names(s, g.ne + nx, "")
    g.endo, g.exo = names[:g.ne], (["(Intercept)"] if g.icpt else []) + names[g.ne:]
    a = np.hstack([y, x])
    drop = np.zeros(n, dtype=bool)
    if missing and not whole and g.lam is None and s.chance(1, 4):
        for _ in range(s.range(1, 3)):
            i = s.range(0, n - 1)
            a[i, s.range(0, g.ne + nx - 1)] = float("nan")
            drop[i] = True
        c.label("missing")
    h = s.range(0, 3) if nx else 0
    g.newx = None
    new = np.array([[float(s.range(-6, 6)) if whole else s.norm() for _ in range(nx)] for _ in range(h)]).reshape(h, nx)
    ml = intmat if whole else mat
    code = "get.data(%s, endogenous=%d, addIntercept=%s, lambdas=%s, newData=%s)" % (
        ml(a, names), g.ne, num(g.icpt), "NULL" if g.lam is None else vec(g.lam), ml(new, names[g.ne:]) if h else "NULL")
    c.R("d <- " + code)
    g.n0 = n
    g.keep = ~drop
    g.rawy = y[~drop]
    if g.lam is not None:
        y = np.column_stack([boxcox(y[:, j], g.lam[j]) for j in range(g.ne)])
    y, x = y[~drop], x[~drop]
    g.y = y
    g.x = np.hstack(([np.ones((len(x), 1))] if g.icpt else []) + [x])
    g.n = len(y)
    if h:
        g.newx = np.hstack(([np.ones((h, 1))] if g.icpt else []) + [new])
    if whole:
        c.label("integers")
    if g.lam is not None:
        c.label("lambda")
    return g


def gen_bin(s, c, maxnx=3, weights=True, missing=True):
    g = Sys()
    nx = s.range(0, maxnx)
    n = s.range(12, 50)
    g.whole = s.chance(1, 6)
    b = [s.norm() * 0.7 for _ in range(nx)]
    x = np.array([[float(s.range(-3, 3)) if g.whole else s.norm() for _ in range(nx)] for _ in range(n)]).reshape(n, nx)
    lat = x @ np.array(b).reshape(nx) + np.array([s.norm() for _ in range(n)]) * 1.5
    y = (lat > 0).astype(float)
    names = gen_names(s, 1 + nx, "")
    g.endo, g.exo = names[:1], ["(Intercept)"] + names[1:]
    g.w = None
    if weights and s.chance(1, 3):
        g.w = np.array([round(0.3 + 2 * s.unif(), 3) for _ in range(n)])
        c.label("weights")
    a = np.column_stack([y, x])
    drop = np.zeros(n, dtype=bool)
    if missing and not g.whole and nx and s.chance(1, 4):
        for _ in range(s.range(1, 3)):
            i = s.range(0, n - 1)
            a[i, s.range(1, nx)] = float("nan")
            drop[i] = True
        c.label("missing")
    h = s.range(0, 3) if nx else 0
    new = np.array([[s.norm() for _ in range(nx)] for _ in range(h)]).reshape(h, nx)
    c.R("d <- get.data(%s, endogenous=1, weights=%s, newData=%s)" % (
        (intmat if g.whole else mat)(a, names), "NULL" if g.w is None else vec(g.w), mat(new, names[1:]) if h else "NULL"))
    k = ~drop
    g.n0, g.keep = n, k
    g.y, g.x = y[k], np.column_stack([np.ones(k.sum()), x[k]])
    if g.w is not None:
        g.w = g.w[k]
    g.newx = np.column_stack([np.ones(h), new]) if h else None
    return g


def gen_costs(s):
    r = []
    for _ in range(s.range(0, 2)):
        k = s.range(2, 4)
        if s.chance(1, 4):  # integers
            r.append((np.array([[0, s.range(-1, 3), s.range(-1, 3)], [1, s.range(-1, 3), s.range(-1, 3)]], dtype=float), True))
            continue
        x, t = 0.0, []
        for i in range(k):
            x += (1 - x) * (0.1 + 0.7 * s.unif())
            t.append([1.0 if i == k - 1 else round(x, 4)] + [round(-1 + 4 * s.unif(), 3) for _ in range(2)])
        r.append((np.array(t), False))
    return r


def cost_code(cs):
    return "list(%s)" % ", ".join((intmat if i else mat)(a) for a, i in cs) if cs else "NULL"


NEWTON = "get.options.newton(maxIterations=500, functionTol=1e-14, gradientTol=0)"


def gen_var(s, c, h=0):
    g = Sys()
    g.g = s.range(1, 3)
    g.icpt = s.coin()
    nx = s.range(0, 2)
    g.s = s.pick([0, 0, 0, 2, 4])
    g.o = [s.range(0, 2), s.pick([0, 0, 1]), 0] + ([s.range(0, 1), s.pick([0, 0, 1]), 0] if g.s else [0, 0, 0])
    if g.o[0] + g.o[3] == 0:
        g.o[0] = 1
    g.v = Var(g.o[0], g.o[1], g.o[3], g.o[4], g.s)
    k = len(g.v.ar) * g.g + nx + g.icpt
    g.n = g.v.mx + g.v.dd + k + g.g + s.range(8, 30)
    g.nx = nx + g.icpt
    n = g.n
    x = np.array([[s.norm() for _ in range(nx)] for _ in range(n + h)]).reshape(n + h, nx)
    e = np.array([[s.norm() for _ in range(g.g)] for _ in range(n)])
    a = np.array([[0.25 * math.tanh(s.norm()) + (0.3 if i == j else 0) for j in range(g.g)] for i in range(g.g)])
    y = np.zeros((n, g.g))
    for t in range(n):
        y[t] = e[t] + (y[t - 1] @ a if t else 0) + (x[t].sum() if nx else 0)
    for _ in range(g.o[1] + g.o[4]):
        y = np.cumsum(y, axis=0)
    if s.coin():
        y = y + 30
    y = np.round(y, 4)
    names = gen_names(s, g.g + nx, "")
    g.endo, g.exo = names[:g.g], (["(Intercept)"] if g.icpt else []) + names[g.g:]
    g.lam = None
    new = "NULL"
    if h and nx:
        new = mat(x[n:], names[g.g:])
    c.R("d <- get.data(%s, endogenous=%d, addIntercept=%s, newData=%s)" % (mat(np.hstack([y, x[:n]]), names), g.g, num(g.icpt), new))
    g.y = y
    full = np.hstack(([np.ones((n + h, 1))] if g.icpt else []) + [x])
    g.x = full[:n] if g.nx else None
    g.xf = full[n:] if g.nx else None
    g.par = "params=%s, seasonsCount=%d" % (vec(g.o), g.s)
    return g


class Sub:
    def __init__(self, m):
        self.m, self.dim, self.v = m, list(m.shape), None


def V_cols(v, a):
    return Sub(v.m[:, a:])
