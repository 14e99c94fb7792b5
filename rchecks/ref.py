"""independent estimators (numpy) for the checks of the R packages"""
import math
import numpy as np
from scipy import stats, special
from .engine import Discard


def norm1(a):
    return np.max(np.sum(np.abs(a), axis=0))


class Sur:
    """least squares of the columns of y on x; with a restriction matrix, one feasible GLS step"""
    def __init__(self, y, x, R=None, maxcn=1e7, sigma0=None):
        n, m = y.shape
        k = x.shape[1]
        self.n, self.m, self.k, self.R = n, m, k, None
        xx = x.T @ x
        if not (np.linalg.cond(xx) < maxcn) or n < k:
            raise Discard()
        ix = np.linalg.inv(xx)
        self.cn = norm1(xx) * norm1(ix)
        self.beta = ix @ x.T @ y
        self.resid_(y, x)
        if not np.all(np.diag(self.sigma) > 1e-6 * y.var(axis=0)) or not np.all(y.var(axis=0) > 1e-6 * (1e-6 + np.mean(y ** 2, axis=0))):
            raise Discard()  # (almost) no noise
        self.var = np.kron(self.sigma, ix)
        if R is not None:
            if sigma0 is not None:
                self.sigma = sigma0
            if not (np.linalg.cond(self.sigma) < maxcn):
                raise Discard()
            si = np.linalg.inv(self.sigma)
            a = R.T @ np.kron(si, xx) @ R
            if not (np.linalg.cond(a) < maxcn):
                raise Discard()
            gv = np.linalg.inv(a)
            self.cn = norm1(a) * norm1(gv)
            g = gv @ R.T @ np.kron(si, x.T) @ y.T.reshape(-1)
            self.gamma, self.gvar = g, gv
            self.beta = (R @ g).reshape(m, k).T
            self.resid_(y, x)
            self.var = R @ gv @ R.T
            self.R = R
        self.sd = np.sqrt(np.maximum(0, np.diag(self.var))).reshape(m, k).T
        with np.errstate(all="ignore"):
            self.t = self.beta / self.sd
            self.p = 2 * stats.t.sf(np.abs(self.t), n)
        d = np.linalg.slogdet(self.sigma)[1] if np.linalg.det(self.sigma) > 0 else float("nan")
        self.logl = -0.5 * n * (m * math.log(2 * math.pi) + d) - 0.5 * m * n
        q = k * m
        self.aic = 2 * q - 2 * self.logl
        self.sic = math.log(n) * q - 2 * self.logl
        self.hqic = 2 * math.log(math.log(n)) * q - 2 * self.logl
        self.r2 = 1 - np.sum(self.resid ** 2) / np.sum((y - y.mean(axis=0)) ** 2)

    def resid_(self, y, x):
        self.fitted = x @ self.beta
        self.resid = y - self.fitted
        self.sigma = self.resid.T @ self.resid / self.n

    def project(self, x):
        """means and variances of new observations"""
        mean = x @ self.beta
        var = np.zeros_like(mean)
        for j in range(self.m):
            b = self.var[j * self.k:(j + 1) * self.k, j * self.k:(j + 1) * self.k]
            var[:, j] = self.sigma[j, j] + np.sum((x @ b) * x, axis=1)
        return mean, var


class Bin:
    """maximum likelihood of a binary model"""
    def __init__(self, y, x, w=None, probit=False, maxcn=1e4, maxxb=None):
        n, k = x.shape
        w = np.ones(n) if w is None else w
        if np.all(y == 0) or np.all(y == 1) or n < k:
            raise Discard()
        b = np.zeros(k)
        sgn = 2 * y - 1
        ok = False
        for it in range(60):
            ll, g, h = self.terms(b, y, x, w, sgn, probit)
            try:
                st = np.linalg.solve(-h, g)
            except np.linalg.LinAlgError:
                raise Discard()
            dec = float(st @ g)
            if not math.isfinite(dec):
                raise Discard()
            if dec < 1e-18:
                ok = True
                break
            q = 1.0
            while q > 1e-10 and not self.terms(b + q * st, y, x, w, sgn, probit, True) >= ll - 1e-13 * abs(ll):
                q /= 2
            b = b + q * st
        if not ok or not (np.linalg.cond(h) < maxcn):
            raise Discard()
        if np.max(np.abs(x @ b)) > (maxxb or (3.2 if probit else 6)):
            raise Discard()
        self.beta, self.var, self.probit, self.n, self.k = b, np.linalg.inv(-h), probit, n, k
        self.sd = np.sqrt(np.diag(self.var))
        self.z = b / self.sd
        self.p = 2 * stats.norm.sf(np.abs(self.z))
        self.logl = float(ll)
        self.aic = 2 * k - 2 * self.logl
        self.sic = math.log(n) * k - 2 * self.logl
        self.prob = self.predict(x)

    @staticmethod
    def terms(b, y, x, w, sgn, probit, only=False):
        u = sgn * (x @ b)
        with np.errstate(all="ignore"):
            if probit:
                lF = special.log_ndtr(u)
            else:
                lF = -np.logaddexp(0, -u)
            ll = np.sum(w * lF)
            if only:
                return ll if math.isfinite(ll) else -math.inf
            if probit:
                r = np.exp(-u * u / 2 - 0.5 * math.log(2 * math.pi) - lF)
                d2 = -r * (u + r)
            else:
                F = np.exp(lF)
                r = 1 - F
                d2 = -F * (1 - F)
        return ll, x.T @ (w * sgn * r), (x * (w * d2)[:, None]).T @ x

    def predict(self, x):
        u = x @ self.beta
        return stats.norm.cdf(u) if self.probit else special.expit(u)


def brier(y, p, w=None):
    w = np.ones(len(y)) if w is None else w
    return float(np.sum(w * (y - p) ** 2) / np.sum(w))


def auc(y, p, w=None):
    w = np.ones(len(y)) if w is None else w
    a, b = y == 1, y == 0
    ww = np.outer(w[a], w[b])
    d = p[a][:, None] - p[b][None, :]
    return float(np.sum(ww * ((d > 1e-9) + 0.5 * (np.abs(d) <= 1e-9))) / np.sum(ww))


def cost(c, y, p, w=None):
    w = np.ones(len(y)) if w is None else w
    s = 0.0
    for i in range(len(y)):
        q = p[i] if y[i] == 1 else 1 - p[i]
        r = 0
        while r < len(c) - 1 and c[r, 0] < q:
            r += 1
        s += w[i] * c[r, int(y[i]) + 1]
    return s / float(np.sum(w))


def robust(y, p, costs=()):
    """scores that a rounding error cannot move across a threshold or across each other"""
    for c in costs:
        q = np.where(y == 1, p, 1 - p)
        if np.min(np.abs(q[:, None] - np.asarray(c)[:-1, 0][None, :])) < 1e-5:
            raise Discard()
    d = np.abs(p[y == 1][:, None] - p[y == 0][None, :])
    if np.any((d > 1e-9) & (d < 1e-5)):  # rows of equal scores are equal
        raise Discard()


def pca(x, new=None):
    """standardised principal components and those of new rows"""
    m, s = x.mean(axis=0), x.std(axis=0, ddof=1)
    if not np.all(s > 1e-6 * (1 + np.abs(m))):
        raise Discard()
    z = (x - m) / s
    u, d, vt = np.linalg.svd(z, full_matrices=False)
    if len(d) > 1 and np.min(d[:-1] - d[1:]) < 1e-3 * d[0] or d[-1] < 1e-4 * d[0]:
        raise Discard()
    return z @ vt.T, None if new is None else ((new - m) / s) @ vt.T, d


def boxcox(y, l):
    if l is None or math.isnan(l):
        return y
    with np.errstate(all="ignore"):
        return np.log(y) if l == 0 else (y ** l - 1) / l


def boxcox_inv(v, l):
    if l is None or math.isnan(l):
        return v
    with np.errstate(all="ignore"):
        return np.exp(v) if l == 0 else (l * v + 1) ** (1 / l)


def crps(err, sd):
    z = err / sd
    return sd * (z * (2 * stats.norm.cdf(z) - 1) + 2 * stats.norm.pdf(z) - 1 / math.sqrt(math.pi))


def ar_lags(p, P, s):
    return sorted(set(range(1, p + 1)) | {s * j for j in range(1, P + 1)})


class Var:
    """vector autoregression of the differenced rows of y (time in rows), estimated by least squares"""
    def __init__(self, p, d=0, P=0, D=0, s=0):
        self.ar = ar_lags(p, P, s)
        self.diff = np.array([1.0])
        for _ in range(d):
            self.diff = np.convolve(self.diff, [1.0, -1.0])
        for _ in range(D):
            self.diff = np.convolve(self.diff, [1.0] + [0.0] * (s - 1) + [-1.0])
        self.dd = len(self.diff) - 1
        self.mx = self.ar[-1] if self.ar else 0

    def difference(self, y):
        n = y.shape[0] - self.dd
        return sum(self.diff[k] * y[self.dd - k:self.dd - k + n] for k in range(self.dd + 1))

    def fit(self, y, x, maxcn=1e6):
        w = self.difference(y)
        T = w.shape[0] - self.mx
        cols = [w[self.mx - l:self.mx - l + T] for l in self.ar]
        nx = 0 if x is None else x.shape[1]
        if nx:
            cols.append(x[self.mx + self.dd:y.shape[0]])
        self.X = np.hstack(cols)
        self.W = w[self.mx:]
        if T <= self.X.shape[1] + y.shape[1]:
            raise Discard()
        s = Sur(self.W, self.X, maxcn=1e9)
        if not s.cn < maxcn or not np.linalg.cond(s.sigma) < 1e6 or not np.min(np.diag(s.sigma)) > 1e-8:
            raise Discard()
        self.g, self.nx, self.T, self.f = y.shape[1], nx, T, self.X.shape[1]
        self.beta, self.resid, self.sigma, self.cn = s.beta, s.resid, s.sigma, s.cn
        self.gvar = np.kron(np.linalg.inv(self.X.T @ self.X), self.sigma)  # coefficients of an equation are in the rows
        self.sd = np.sqrt(np.diag(self.gvar)).reshape(self.f, self.g)
        self.t = self.beta / self.sd
        self.p = 2 * stats.t.sf(np.abs(self.t), T * self.g)
        self.logl = s.logl
        q = self.g * self.f
        self.aic, self.sic = 2 * q - 2 * self.logl, math.log(T) * q - 2 * self.logl
        self.y = y
        return self

    def forecast(self, h, xf=None):
        w = list(self.difference(self.y))
        ye = list(self.y)
        n0 = len(ye)
        for t in range(h):
            r = [w[-l] for l in self.ar]
            if self.nx:
                r.append(xf[t])
            v = np.concatenate(r) @ self.beta
            w.append(v)
            ye.append(v - sum((self.diff[k] * ye[-k] for k in range(1, self.dd + 1)), np.zeros(self.g)))
        mean = np.array(ye[n0:]).reshape(h, self.g)
        A = [self.beta[i * self.g:(i + 1) * self.g].T for i in range(len(self.ar))]
        ws, ys, var, acc = [], [], [], np.zeros((self.g, self.g))
        for t in range(h):
            v = np.eye(self.g) if t == 0 else np.zeros((self.g, self.g))
            for a, l in zip(A, self.ar):
                if t >= l:
                    v = v + a @ ws[t - l]
            ws.append(v)
            for k in range(1, self.dd + 1):
                if k <= t:
                    v = v - self.diff[k] * ys[t - k]
            ys.append(v)
            acc = acc + v @ self.sigma @ v.T
            var.append(np.diag(acc).copy())
        return mean, np.array(var).reshape(h, self.g)
