// C19: vector autoregressive moving average models
#include "ols.h"
#include "varma.h"
using namespace ldt;
struct Spec {
  int p = 0, d = 0, q = 0, P = 0, D = 0, Q = 0, s = 0;
  std::vector<int> ar, ma;
  std::vector<long long> diff{1};
  int armax() const { return ar.empty() ? 0 : ar.back(); }
  int mamax() const { return ma.empty() ? 0 : ma.back(); }
  int dd() const { return (int)diff.size() - 1; }
  void expand() {
    auto lags = [&](int a, int A) {
      std::set<int> o;
      for (int i = 1; i <= a; i++)
        o.insert(i);
      for (int i = 1; i <= A; i++)
        o.insert(i * s);
      return std::vector<int>(o.begin(), o.end());
    };
    ar = lags(p, P);
    ma = lags(q, Q);
    diff = {1};
    auto times = [&](int lag) {
      std::vector<long long> n(diff.size() + lag, 0);
      for (size_t i = 0; i < diff.size(); i++) {
        n[i] += diff[i];
        n[i + lag] -= diff[i];
      }
      diff = n;
    };
    for (int i = 0; i < d; i++)
      times(1);
    for (int i = 0; i < D; i++)
      times(s);
  }
  VarmaSizes sizes(int n, int g, int x) const { return VarmaSizes(n, g, x, p, d, q, P, D, Q, s); }
  std::string str() const {
    std::ostringstream o;
    o << "(" << p << "," << d << "," << q << ")(" << P << "," << D << "," << Q << ")" << s;
    return o.str();
  }
  int params(int g, int x) const { return (int)(ar.size() + ma.size()) * g + x; }
};
static Spec gen_spec(Src &s, bool ma, bool ar = true, int maxp = 3, bool diff = true, bool always_ma = false) {
  Spec o;
  if (s.chance(1, 3))
    o.s = s.range(2, 5);
  if (ar) {
    o.p = s.range(0, maxp);
    if (o.s)
      o.P = s.range(0, 2);
  }
  if (ma) {
    o.q = s.range(always_ma ? 1 : 0, 2);
    if (o.s)
      o.Q = s.chance(1, 3);
  }
  if (diff && s.chance(1, 3)) {
    o.d = s.range(0, 2);
    if (o.s)
      o.D = s.range(0, 1);
  }
  if (!o.p && !o.q && !o.P && !o.Q)
    (ar ? o.p : o.q) = 1;
  o.expand();
  return o;
}
static std::vector<int> ints(const std::vector<long long> &v) { return std::vector<int>(v.begin(), v.end()); }
FACET(sizes, "seasonal lags and differences", 3000) {
  Spec o;
  bool seas = s.chance(2, 3);
  o.s = seas ? s.range(2, 6) : s.range(0, 1);
  o.p = s.range(0, 7);
  o.d = s.range(0, 3);
  o.q = s.range(0, 7);
  if (seas) {
    o.P = s.range(0, 3);
    o.D = s.range(0, 2);
    o.Q = s.range(0, 3);
  }
  int n = s.range(1, 100), g = s.range(1, 4), x = s.range(0, 3);
  int bad = s.chance(1, 5) ? s.range(1, 4) : 0;
  if (bad == 1) {
    int v = -s.range(1, 3);
    switch (s.range(0, 5)) {
    case 0: o.p = v; break;
    case 1: o.d = v; break;
    case 2: o.q = v; break;
    case 3: o.P = v; break;
    case 4: o.D = v; break;
    default: o.Q = v;
    }
  } else if (bad == 2) {
    o.s = s.range(-1, 1);
    (s.coin() ? o.P : s.coin() ? o.Q : o.D) = s.range(1, 2);
  } else if (bad == 3)
    o.p = o.q = o.P = o.Q = 0;
  c.desc << o.str() << " observations " << n << " equations " << g << " exogenous " << x;
  bool all0 = !o.p && !o.q && !o.P && !o.Q;
  bool t = true;
  VarmaSizes z;
  try {
    z = o.sizes(n, g, x);
    t = false;
  } catch (const LdtException &) {
  }
  bool invalid = (bad >= 1 && bad <= 3) || all0;
  CHECK(t == invalid, (t ? "valid parameters are rejected" : "invalid parameters are accepted"));
  if (t)
    return;
  o.expand();
  CHECK(z.ArLags == o.ar, "AR lags " << vec_str(z.ArLags) << " instead of " << vec_str(o.ar));
  CHECK(z.MaLags == o.ma, "MA lags " << vec_str(z.MaLags) << " instead of " << vec_str(o.ma));
  CHECK(z.DiffPoly == ints(o.diff), "difference polynomial " << vec_str(z.DiffPoly) << " instead of " << vec_str(o.diff));
  CHECK(z.ArMax == o.armax() && z.MaMax == o.mamax() && z.DiffDegree == o.dd() && z.ArMax_d == o.armax() + o.dd(), "largest lags " << z.ArMax << " " << z.MaMax << " " << z.DiffDegree << " " << z.ArMax_d);
  CHECK(z.T == n - o.armax() - o.dd() && z.NumParamsEq == o.params(g, x) && z.NumParams == g * o.params(g, x) && z.MaStart == (int)o.ar.size() * g + x, "number of observations or parameters " << z.T << " " << z.NumParamsEq << " " << z.NumParams << " " << z.MaStart);
  CHECK(z.HasAr == !o.ar.empty() && z.HasMa == !o.ma.empty() && z.HasDiff == (o.d + o.D > 0) && z.HasArExo == (!o.ar.empty() || x > 0), "flags of the model");
  c.nontrivial(o.P + o.Q > 0 && o.D + o.d > 0);
}
static M difference(const Spec &o, const M &y) {
  M w(y.r, std::max(0, y.c - o.dd()));
  for (int j = 0; j < w.c; j++)
    for (int i = 0; i < y.r; i++) {
      long double v = 0;
      for (int k = 0; k <= o.dd(); k++)
        v += (long double)o.diff[k] * y(i, j + o.dd() - k);
      w(i, j) = (double)v;
    }
  return w;
}
FACET(difference, "a difference of degree two or more", 2000) {
  Spec o;
  o.s = s.coin() ? s.range(2, 5) : 0;
  o.p = 1;
  o.d = s.range(0, 3);
  o.D = o.s ? s.range(0, 2) : 0;
  o.expand();
  int g = s.range(1, 3), n = s.range(1, 30), h = o.dd();
  M y(g, n);
  for (int i = 0; i < y.n(); i++)
    y.p[i] = (double)s.sint(-1000, 1000);
  c.desc << o.str() << " y=" << y.str();
  if (n <= h)
    throw pbt::Discard();
  auto poly = o.sizes(n, g, 0).DiffPoly;
  M w(g, n - h, 77), e = difference(o, y), y0 = y;
  auto wv = w.v(), yv = y.v();
  Varma::Difference(poly, yv, wv);
  same_mat(w, e, "differenced data");
  same_mat(y, y0, "the data after differencing");
  M u(g, n);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < g; i++)
      u(i, j) = j < h ? y(i, j) : e(i, j - h);
  auto uv = u.v();
  Varma::UnDiferences(poly, uv);
  same_mat(u, y, "data after undoing the difference");
  c.nontrivial(h >= 2);
}
FACET(arma, "AR and MA parts with several equations", 1500) {
  Spec o = gen_spec(s, true, s.chance(3, 4));
  int g = s.range(1, 3), x = s.range(0, 2), n = s.range(1, 12);
  VarmaSizes z = o.sizes(60, g, x);
  int f = o.params(g, x);
  M pi = gen_norm(s, g, f);
  for (int i = 0; i < pi.n(); i++)
    pi.p[i] *= 0.4;
  c.desc << o.str() << " length " << n << " exogenous " << x << " coefficients=" << pi.str();
  VarmaArma a(z, n);
  auto st = buf(s, a.StorageSize), wk = buf(s, a.WorkSize);
  auto pv = pi.v();
  a.Calculate(pv, st.get(), wk.get());
  auto coef = [&](const std::vector<int> &lags, int start, double sign) {
    std::vector<M> r;
    r.push_back(eye(g));
    for (int l = 1; l <= (lags.empty() ? 0 : lags.back()); l++) {
      auto it = std::find(lags.begin(), lags.end(), l);
      M m(g, g);
      if (it != lags.end()) {
        m = cols(pi, start + (int)(it - lags.begin()) * g, g);
        for (int i = 0; i < m.n(); i++)
          m.p[i] *= sign;
      }
      r.push_back(m);
    }
    return r;
  };
  auto A = coef(o.ar, 0, -1), B = coef(o.ma, (int)o.ar.size() * g + x, 1);
  CHECK(a.Ar.Coefficients.size() == A.size() && a.Ma.Coefficients.size() == B.size(), "degrees of the polynomials");
  for (size_t i = 0; i < A.size(); i++)
    same_mat(from(*a.Ar.Coefficients[i]), A[i], "AR polynomial");
  for (size_t i = 0; i < B.size(); i++)
    same_mat(from(*a.Ma.Coefficients[i]), B[i], "MA polynomial");
  // AR times difference times the infinite MA representation is the MA polynomial
  std::vector<M> AD(A.size() + o.dd(), M(g, g));
  for (size_t i = 0; i < A.size(); i++)
    for (int j = 0; j <= o.dd(); j++)
      AD[i + j] = add(AD[i + j], A[i], (double)o.diff[j]);
  CHECK((int)a.MaInf.Coefficients.size() >= n, "length of the MA representation");
  double big = 0;
  for (int k = 0; k < n; k++) {
    M sum(g, g);
    double sc = 1;
    for (int j = 0; j <= k && j < (int)AD.size(); j++) {
      M e, q = from(*a.MaInf.Coefficients[k - j]);
      sum = add(sum, mul(AD[j], q, &e));
      sc += e.maxabs();
    }
    big = std::max(big, sc);
    same_mat(sum, k < (int)B.size() ? B[k] : M(g, g), "AR polynomial times the MA representation, term " + std::to_string(k), 0, 1e-10 * big);
  }
  c.nontrivial(g > 1 && A.size() > 1 && B.size() > 1);
}
// data from a stable system
static M gen_data(Src &s, const Spec &o, int g, int n, const M *x, double scale = 1) {
  int burn = 10;
  M e = gen_norm(s, g, n + burn), y(g, n + burn);
  M a = gen_norm(s, g, g), b = gen_norm(s, g, g), l = gen_norm(s, g, g), bx(g, x ? x->r : 1);
  for (int i = 0; i < g; i++)
    for (int j = 0; j < g; j++) {
      a(i, j) = 0.25 * std::tanh(a(i, j)) + (i == j ? 0.3 : 0);
      b(i, j) = 0.3 * std::tanh(b(i, j));
      l(i, j) = i == j ? 1 : j < i ? 0.5 * std::tanh(l(i, j)) : 0;
    }
  if (x)
    for (int i = 0; i < bx.n(); i++)
      bx.p[i] = s.unif(-1, 1);
  e = mul(l, e);
  for (int t = 0; t < n + burn; t++)
    for (int i = 0; i < g; i++) {
      double v = e(i, t);
      for (int j = 0; j < g; j++) {
        if (t > 0)
          v += a(i, j) * y(j, t - 1);
        if (t > 0 && !o.ma.empty())
          v += b(i, j) * e(j, t - 1);
      }
      if (x && t >= burn)
        for (int j = 0; j < x->r; j++)
          v += bx(i, j) * (*x)(j, t - burn);
      y(i, t) = v;
    }
  M w = cols(y, burn, n);
  for (int k = 0; k < o.d + o.D; k++) // integrated
    for (int t = 1; t < n; t++)
      for (int i = 0; i < g; i++)
        w(i, t) += w(i, t - 1);
  for (int i = 0; i < w.n(); i++)
    w.p[i] *= scale;
  return w;
}
static M gen_exo(Src &s, int x, int n, bool icpt) {
  M m = gen_norm(s, x, n);
  if (icpt && x)
    for (int t = 0; t < n; t++)
      m(0, t) = 1;
  return m;
}
// regression form of the model: rows of xt are observations
static void design(const Spec &o, const M &y, const M *x, int se, M &w, M &xt) {
  M dy = difference(o, y);
  int g = y.r, T = dy.c - o.armax() - se, nx = x ? x->r : 0;
  w = M(g, T);
  xt = M(T, o.params(g, nx));
  for (int t = 0; t < T; t++) {
    for (int i = 0; i < g; i++)
      w(i, t) = dy(i, t + o.armax());
    int k = 0;
    for (int l : o.ar)
      for (int i = 0; i < g; i++)
        xt(t, k++) = dy(i, t + o.armax() - l);
    for (int i = 0; i < nx; i++)
      xt(t, k++) = (*x)(i, t + o.armax() + o.dd());
  }
}
// residuals, presample ones are zero; fills the MA columns of xt
static M residuals(const Spec &o, const M &w, M &xt, const M &pi) {
  int g = w.r, T = w.c, f = xt.c, ms = f - (int)o.ma.size() * g;
  M e(g, T);
  for (int t = 0; t < T; t++) {
    int k = ms;
    for (int l : o.ma)
      for (int i = 0; i < g; i++)
        xt(t, k++) = t - l >= 0 ? e(i, t - l) : 0;
    for (int i = 0; i < g; i++) {
      long double v = w(i, t);
      for (int j = 0; j < f; j++)
        v -= (long double)pi(i, j) * xt(t, j);
      e(i, t) = (double)v;
    }
  }
  return e;
}
static M cov(const M &e) {
  M v = mul(e, e.t());
  for (int i = 0; i < v.n(); i++)
    v.p[i] /= e.c;
  return v;
}
static double objective(const Spec &o, const M &w, M &xt, const M &pi) { return w.c * std::log(det(cov(residuals(o, w, xt, pi)))); }
struct RefVar {
  M pi, e, sigma, gvar, w, xt;
  double cn = 0, logl = 0, aic = 0, sic = 0;
  int T = 0, g = 0, f = 0;
  void ols(const Spec &o, const M &y, const M *x, int se) {
    design(o, y, x, se, w, xt);
    g = w.r;
    T = w.c;
    f = xt.c;
    M xx = mul(xt.t(), xt), ix = inv(xx);
    cn = norm1(xx) * norm1(ix);
    pi = mul(mul(w, xt), ix);
    e = residuals(o, w, xt, pi);
    finish();
    gvar = kron(ix, sigma);
  }
  void finish() {
    sigma = cov(e);
    logl = -0.5 * T * g * (std::log(2 * M_PI) + 1) - 0.5 * T * std::log(det(sigma));
    aic = 2.0 * g * f - 2 * logl;
    sic = std::log((double)T) * g * f - 2 * logl;
  }
};
static void well(const RefVar &r) {
  double mx = 0;
  for (int i = 0; i < r.g; i++)
    mx = std::max(mx, r.sigma(i, i));
  double dt = det(r.sigma);
  if (!(r.cn < 1e6) || !(dt > 1e-6 * std::pow(mx, r.g)) || !(mx > 1e-10))
    throw pbt::Discard();
}
static void same_details(const Varma &v, const M &coef, const M &var, int n) {
  M sd(coef.r, coef.c);
  for (int i = 0; i < coef.n(); i++) {
    sd.p[i] = std::sqrt(var(i, i));
    if (!(var(i, i) > 0))
      continue;
    double t = coef.p[i] / sd.p[i], p = 2 * boost::math::cdf(boost::math::complement(boost::math::students_t(n), std::fabs(t)));
    CHECK(close(v.Result.coefstd.Data[i], sd.p[i], 1e-5, 1e-12), "standard error " << i << " is " << v.Result.coefstd.Data[i] << " instead of " << sd.p[i]);
    CHECK(close(v.Result.coeft.Data[i], t, 1e-5, 1e-5), "t-statistic " << i << " is " << v.Result.coeft.Data[i] << " instead of " << t);
    CHECK(close(v.Result.coefprob.Data[i], p, 1e-4, 1e-5), "p-value " << i << " is " << v.Result.coefprob.Data[i] << " instead of " << p);
  }
}
static void same_var(const Varma &v, const RefVar &r, bool details) {
  same_mat(from(v.Result.y), r.w, "used endogenous data", 1e-9, 1e-9 * (1 + r.w.maxabs()));
  same_mat(from(v.Result.Xt), r.xt, "used explanatory data", 1e-9, 1e-9 * (1 + r.xt.maxabs()));
  same_mat(from(v.Result.coef), r.pi, "coefficients", 1e-6, 1e-6 * r.pi.maxabs());
  same_mat(from(v.Result.resid), r.e, "residuals", 1e-6, 1e-6 * (r.w.maxabs() + r.e.maxabs()));
  same_mat(from(v.Result.sigma2), r.sigma, "variance of the residuals", 1e-6, 1e-6 * r.sigma.maxabs());
  same_mat(from(v.Result.gammavar), r.gvar, "variance of the coefficients", 1e-5, 1e-6 * r.gvar.maxabs());
  CHECK(close(v.Result.cn, r.cn, 1e-5, 0), "condition number " << v.Result.cn << " instead of " << r.cn);
  if (!details)
    return;
  CHECK(close(v.Result.LogLikelihood, r.logl, 1e-7, 1e-6), "log-likelihood " << v.Result.LogLikelihood << " instead of " << r.logl);
  CHECK(close(v.Result.Aic, r.aic, 1e-7, 1e-6) && close(v.Result.Sic, r.sic, 1e-7, 1e-6), "AIC " << v.Result.Aic << " SIC " << v.Result.Sic << " instead of " << r.aic << ", " << r.sic);
  same_details(v, r.pi, r.gvar, r.T * r.g);
}
struct Case {
  Spec o;
  int g, nx, n, se;
  M x, y;
  bool icpt;
};
// n observations, se of them out of the sample, and h more rows of exogenous data
static void gen_case(Src &s, Case &k, bool ma, int maxg = 3, int h = 0, bool ar = true, double scale = 1, bool always_ma = false) {
  k.o = gen_spec(s, ma, ar, 3, true, always_ma);
  k.g = s.range(1, maxg);
  k.nx = s.range(0, 2);
  k.se = s.chance(1, 3) ? s.range(1, 5) : 0;
  int f = k.o.params(k.g, k.nx);
  k.n = k.o.armax() + k.o.dd() + k.se + f + k.g + s.range(ma ? 15 : 3, ma ? 40 : 25);
  k.icpt = s.coin();
  k.x = gen_exo(s, k.nx, k.n + h, k.icpt);
  M xn = cols(k.x, 0, k.n);
  k.y = gen_data(s, k.o, k.g, k.n, k.nx ? &xn : nullptr, scale);
}
static void describe(Ctx &c, const Case &k) { c.desc << k.o.str() << " out-of-sample " << k.se << " y=" << k.y.str() << " x=" << k.x.str() << " "; }
FACET(var, "several lags, exogenous data or differences, several equations", 1500) {
  Case k;
  gen_case(s, k, false);
  bool det_ = s.chance(3, 4), once = s.coin();
  describe(c, k);
  RefVar r;
  r.ols(k.o, k.y, k.nx ? &k.x : nullptr, k.se);
  well(r);
  Varma v(k.o.sizes(k.n + s.range(0, 3), k.g, k.nx), s.chance(1, 4), det_, s.coin());
  auto st = buf(s, v.Result.StorageSize), wk = buf(s, v.Result.WorkSize);
  auto yv = k.y.v(), xv = k.x.v();
  M y0 = k.y, x0 = k.x;
  if (!once) { // an earlier estimation with another sample leaves nothing behind
    try {
      v.EstimateMl(yv, k.nx ? &xv : nullptr, wk.get(), st.get(), nullptr, nullptr, k.se + 1);
    } catch (const std::exception &) {
    }
  }
  v.EstimateMl(yv, k.nx ? &xv : nullptr, wk.get(), st.get(), nullptr, nullptr, k.se, s.coin());
  same_var(v, r, det_);
  same_mat(k.y, y0, "the data after the estimation");
  same_mat(k.x, x0, "the exogenous data after the estimation");
  c.nontrivial(k.g > 1 && (k.nx || k.o.dd() || k.o.ar.size() > 1));
}
static void lbfgs(LimitedMemoryBfgsbOptions &op) {
  op.IterationMax = 2000;
}
// no small move of one parameter, inside the bounds, improves the objective
static void local_optimum(const Spec &o, const M &w, M &xt, const M &R, const M &gam, const M &lo, const M &up, double step) {
  int g = w.r, f = xt.c;
  auto pi = [&](const M &b) {
    M p = mul(R, b);
    p.r = g;
    p.c = f;
    return p;
  };
  double best = objective(o, w, xt, pi(gam));
  for (int i = 0; i < gam.n(); i++)
    for (int sg = -1; sg <= 1; sg += 2)
      for (double m : {1.0, 0.1}) {
        M b = gam;
        b.p[i] = std::min(up.p[i], std::max(lo.p[i], b.p[i] + sg * m * step));
        double v = objective(o, w, xt, pi(b));
        CHECK(!(v < best - 0.01 * (1 + 1e-3 * std::fabs(best))), "moving parameter " << i << " from " << gam.p[i] << " to " << b.p[i] << " improves the objective from " << best << " to " << v);
      }
}
static bool start_values(const Spec &o, RefVar &r, const Case &k, bool rest, const M &R, M &gam, M &gvar) {
  // least squares, first without and then with the moving average terms
  design(o, k.y, k.nx ? &k.x : nullptr, k.se, r.w, r.xt);
  r.g = r.w.r;
  r.T = r.w.c;
  r.f = r.xt.c;
  int ms = (int)o.ar.size() * r.g + k.nx;
  if (ms == 0) {
    gam = M(R.c, 1);
    gvar = M(R.c, R.c, INFINITY);
    r.cn = 1;
    r.sigma = cov(r.w);
    return true;
  }
  M x1 = cols(r.xt, 0, ms), xx = mul(x1.t(), x1), ix = inv(xx);
  double cn = norm1(xx) * norm1(ix);
  M b = mul(mul(r.w, x1), ix);
  r.e = add(r.w, mul(b, x1.t()), -1);
  for (int t = 0; t < r.T; t++) {
    int c = ms;
    for (int l : o.ma)
      for (int i = 0; i < r.g; i++)
        r.xt(t, c++) = t - l >= 0 ? r.e(i, t - l) : 0;
  }
  xx = mul(r.xt.t(), r.xt);
  M I = eye(r.g), a = mul(R.t(), mul(kron(xx, I), R)), ia = inv(a);
  M vy = r.w;
  vy.r = r.g * r.T;
  vy.c = 1;
  gam = mul(ia, mul(R.t(), mul(kron(r.xt.t(), I), vy)));
  r.cn = rest ? norm1(a) * norm1(ia) : norm1(xx) * norm1(inv(xx));
  r.cn = std::max(r.cn, cn);
  M p = mul(R, gam);
  p.r = r.g;
  p.c = r.f;
  r.e = add(r.w, mul(p, r.xt.t()), -1);
  r.finish();
  gvar = rest ? ia : mul(ia, mul(mul(R.t(), mul(kron(xx, r.sigma), R)), ia));
  return true;
}
// largest response of the residuals to rounding errors of earlier ones
static double amplification(const Spec &o, const M &coef, int T) {
  int g = coef.r, ms = coef.c - (int)o.ma.size() * g;
  double mx = 1;
  for (int sh = 0; sh < g; sh++) {
    M e(g, T + 20);
    e(sh, 0) = 1;
    for (int t = 1; t < e.c; t++)
      for (int i = 0; i < g; i++) {
        int c = ms;
        double v = 0;
        for (int l : o.ma)
          for (int j = 0; j < g; j++, c++)
            if (t >= l)
              v -= coef(i, c) * e(j, t - l);
        e(i, t) = v;
        mx = std::max(mx, std::isfinite(v) ? std::fabs(v) : 1e300);
      }
  }
  return mx;
}
FACET(likelihood, "several equations", 250) {
  Case k;
  double scale = s.pick<double>({1.0, 1.0, 0.01, 100.0});
  gen_case(s, k, true, 2, 0, s.chance(3, 4), scale, s.chance(4, 5));
  k.se = s.chance(1, 2) ? 0 : k.se;
  bool det_ = s.chance(3, 4), var = s.chance(3, 4);
  VarmaSizes z = k.o.sizes(k.n, k.g, k.nx);
  double mult = s.pick<double>({2.0, 2.0, 0.5, 5.0});
  int kind = k.o.ma.empty() ? 2 : s.range(0, 2); // none, final form, general
  if (k.o.ma.empty() && k.o.ar.empty() && !k.nx)
    throw pbt::Discard();
  int np = z.NumParams;
  std::vector<int> zero;
  VarmaRestriction rs;
  if (kind == 1)
    rs = VarmaRestriction(z, VarmaRestrictionType::kMaFinal);
  if (kind == 2) {
    if (np < 2)
      throw pbt::Discard();
    zero = s.subset(np, s.range(1, std::min(np - 1, 4)));
    rs = VarmaRestriction(z, VarmaRestrictionType::kGeneral, (int)zero.size());
  }
  describe(c, k);
  c.desc << "restriction " << kind << " " << vec_str(zero) << " bounds " << mult << " scale " << scale << " details " << det_ << " variance " << var;
  auto rst = buf(s, rs.StorageSize);
  rs.Calculate(rst.get(), &zero);
  M R = eye(np);
  if (kind == 1 && k.g > 1) {
    int ms = z.MaStart * k.g;
    R = M(np, ms + (int)k.o.ma.size());
    for (int i = 0; i < np; i++) {
      int within = (i - ms) % (k.g * k.g);
      if (i < ms)
        R(i, i) = 1;
      else if (within % (k.g + 1) == 0)
        R(i, ms + (i - ms) / (k.g * k.g)) = 1;
    }
  }
  if (kind == 2) {
    R = M(np, np - (int)zero.size());
    for (int i = 0, j = 0; i < np; i++)
      if (std::find(zero.begin(), zero.end(), i) == zero.end())
        R(i, j++) = 1;
  }
  bool rest = kind == 2 || (kind == 1 && k.g > 1);
  CHECK(rs.IsRestricted == rest, "a model is restricted or not");
  if (rest)
    same_mat(from(rs.R), R, "restriction matrix");
  RefVar r;
  M g0, gv;
  start_values(k.o, r, k, rest, R, g0, gv);
  well(r);
  M lo = g0, up = g0;
  for (int i = 0; i < g0.n(); i++) {
    double sd = std::sqrt(gv(i, i));
    lo.p[i] -= mult * sd;
    up.p[i] += mult * sd;
    if (!std::isfinite(sd)) {
      lo.p[i] = -INFINITY;
      up.p[i] = INFINITY;
    }
  }
  M pi = mul(R, g0);
  pi.r = k.g;
  pi.c = r.f;
  double f0 = objective(k.o, r.w, r.xt, pi);
  LimitedMemoryBfgsbOptions op;
  lbfgs(op);
  Varma v(z, rest, det_, var, &op);
  auto st = buf(s, v.Result.StorageSize), wk = buf(s, v.Result.WorkSize);
  auto yv = k.y.v(), xv = k.x.v();
  M y0 = k.y;
  v.EstimateMl(yv, k.nx ? &xv : nullptr, wk.get(), st.get(), rest ? &rs.R : nullptr, nullptr, k.se, false, mult);
  M gam = from(v.Result.gamma);
  gam.r = R.c;
  gam.c = 1;
  CHECK(v.Result.gamma.length() == R.c, "number of parameters");
  for (int i = 0; i < gam.n(); i++) {
    if (!std::isfinite(gam.p[i]))
      throw pbt::Discard(); // diverged
    double tol = 1e-6 * (1e-9 + std::fabs(gam.p[i]) + (std::isfinite(up.p[i]) ? up.p[i] - lo.p[i] : 0));
    CHECK(rest || (gam.p[i] >= lo.p[i] - tol && gam.p[i] <= up.p[i] + tol), "parameter " << i << ": " << gam.p[i] << " is outside the bounds " << lo.p[i] << ", " << up.p[i]);
  }
  M coef = from(v.Result.coef);
  M ec = mul(R, gam);
  ec.r = k.g;
  ec.c = r.f;
  same_mat(coef, ec, "coefficient matrix", 1e-12, 1e-13);
  r.e = residuals(k.o, r.w, r.xt, coef);
  r.finish();
  if (!(amplification(k.o, coef, r.T) < 50) || !(r.e.maxabs() < 1e3 * (1e-9 + r.w.maxabs())))
    throw pbt::Discard(); // not invertible
  same_mat(from(v.Result.resid), r.e, "residuals", 1e-7, 1e-7 * r.w.maxabs());
  same_mat(from(v.Result.sigma2), r.sigma, "variance of the residuals", 1e-7, 1e-8 * r.sigma.maxabs());
  same_mat(from(v.Result.Xt), r.xt, "used explanatory data", 1e-7, 1e-7 * (r.xt.maxabs() + r.w.maxabs()));
  double f1 = objective(k.o, r.w, r.xt, coef);
  CHECK(f1 <= f0 + 1e-6 * (1 + std::fabs(f0)), "the objective increases from " << f0 << " to " << f1);
  if (det_) {
    CHECK(close(v.Result.LogLikelihood, r.logl, 1e-6, 1e-4), "log-likelihood " << v.Result.LogLikelihood << " instead of " << r.logl);
    if (!rest)
      CHECK(close(v.Result.Aic, r.aic, 1e-6, 1e-4) && close(v.Result.Sic, r.sic, 1e-6, 1e-4), "AIC " << v.Result.Aic << " SIC " << v.Result.Sic << " instead of " << r.aic << ", " << r.sic);
    M gv2 = from(v.Result.gammavar), full = mul(mul(R, gv2), R.t());
    same_details(v, coef, full, r.T * r.g);
  }
  same_mat(k.y, y0, "the data after the estimation");
  if (v.Result.Optim.Task == 21 && !rest && amplification(k.o, pi, r.T) < 3 && amplification(k.o, coef, r.T) < 3) {
    local_optimum(k.o, r.w, r.xt, R, gam, lo, up, 0.02);
    c.label("converged");
  }
  // starting again from the estimates, in a sample of another size, does not lose
  if (!k.o.ma.empty() && var && s.coin()) {
    int se2 = std::max(0, k.se - s.range(0, 3));
    RefVar r2;
    design(k.o, k.y, k.nx ? &k.x : nullptr, se2, r2.w, r2.xt);
    double a0 = objective(k.o, r2.w, r2.xt, coef);
    bool pd = true;
    M gvs = from(v.Result.gammavar);
    for (int i = 0; i < gvs.r; i++)
      pd &= gvs(i, i) > 0;
    if (!pd || !(std::isfinite(a0)))
      return;
    v.EstimateMl(yv, k.nx ? &xv : nullptr, wk.get(), st.get(), rest ? &rs.R : nullptr, nullptr, se2, true, mult);
    M coef2 = from(v.Result.coef);
    double a1 = objective(k.o, r2.w, r2.xt, coef2);
    CHECK(a1 <= a0 + 1e-6 * (1 + std::fabs(a0)), "using current estimates, the objective increases from " << a0 << " to " << a1);
    M gam2 = from(v.Result.gamma);
    for (int i = 0; i < R.c; i++)
      CHECK(std::fabs(gam2.p[i] - gam.p[i]) <= mult * std::sqrt(gvs(i, i)) * (1 + 1e-6) + 1e-9, "using current estimates, parameter " << i << " moves from " << gam.p[i] << " to " << gam2.p[i] << ", its standard error is " << std::sqrt(gvs(i, i)));
    c.label("again");
  }
  c.nontrivial(k.g > 1);
}
// forecasts of the levels and variances of the forecast errors, given the estimated coefficients
static void ref_forecast(const Spec &o, const M &y, const M *xf, int se, const M &coef, const M &resid, const M &sigma, int h, M &f, M &var) {
  int g = y.r, n = y.c - se, nx = xf ? xf->r : 0, T = resid.c;
  M w = difference(o, cols(y, 0, n));
  M we(g, w.c + h), ye(g, n + h), ee(g, T + h);
  std::copy(w.p.get(), w.p.get() + w.n(), we.p.get());
  std::copy(y.p.get(), y.p.get() + (long)g * n, ye.p.get());
  std::copy(resid.p.get(), resid.p.get() + resid.n(), ee.p.get());
  for (int t = 0; t < h; t++)
    for (int i = 0; i < g; i++) {
      double v = 0;
      int c = 0;
      for (int l : o.ar)
        for (int j = 0; j < g; j++)
          v += coef(i, c++) * we(j, w.c + t - l);
      for (int j = 0; j < nx; j++)
        v += coef(i, c++) * (*xf)(j, t);
      for (int l : o.ma)
        for (int j = 0; j < g; j++)
          v += coef(i, c++) * (T + t - l >= 0 ? ee(j, T + t - l) : 0);
      we(i, w.c + t) = v;
      for (int k = 1; k <= o.dd(); k++)
        v -= o.diff[k] * ye(i, n + t - k);
      ye(i, n + t) = v;
    }
  f = cols(ye, n, h);
  // response of the levels to the shocks by simulation
  var = M(g, h);
  M acc(g, g);
  std::vector<M> psi;
  for (int sh = 0; sh < g; sh++) {
    M e(g, h), ww(g, h), yy(g, h);
    e(sh, 0) = 1;
    for (int t = 0; t < h; t++)
      for (int i = 0; i < g; i++) {
        double v = e(i, t);
        int c = 0;
        for (int l : o.ar) {
          for (int j = 0; j < g; j++, c++)
            if (t >= l)
              v += coef(i, c) * ww(j, t - l);
        }
        c += nx;
        for (int l : o.ma)
          for (int j = 0; j < g; j++, c++)
            if (t >= l)
              v += coef(i, c) * e(j, t - l);
        ww(i, t) = v;
        for (int k = 1; k <= o.dd() && k <= t; k++)
          v -= o.diff[k] * yy(i, t - k);
        yy(i, t) = v;
      }
    psi.push_back(yy);
  }
  for (int t = 0; t < h; t++) {
    for (int i = 0; i < g; i++)
      for (int a = 0; a < g; a++)
        for (int b = 0; b < g; b++)
          acc(i, 0) += psi[a](i, t) * sigma(a, b) * psi[b](i, t);
    for (int i = 0; i < g; i++)
      var(i, t) = acc(i, 0);
  }
}
static void same_forecast(const VarmaForecast &f, const Spec &o, const M &y, int se, const M &ef, const M &ev, bool var) {
  int g = y.r, h = ef.c, st = o.armax() + o.dd();
  CHECK(f.StartIndex == st, "the forecasts start at " << f.StartIndex << " instead of " << st);
  CHECK(f.Forecast.ColsCount == st + h && f.Forecast.RowsCount == g, "dimension of the forecasts");
  double sc = y.maxabs() + ef.maxabs() + 1e-9;
  for (int t = 0; t < h; t++)
    for (int i = 0; i < g; i++) {
      CHECK(close(f.Forecast.Get(i, st + t), ef(i, t), 1e-7, 1e-7 * sc), "forecast of variable " << i << " at horizon " << t + 1 << " is " << f.Forecast.Get(i, st + t) << " instead of " << ef(i, t));
      if (var)
        CHECK(close(f.Variance.Get(i, st + t), ev(i, t), 1e-6, 1e-9 * ev.maxabs()), "variance of the forecast of variable " << i << " at horizon " << t + 1 << " is " << f.Variance.Get(i, st + t) << " instead of " << ev(i, t));
    }
  for (int t = 0; t < o.dd(); t++) // observed levels before the forecasts
    for (int i = 0; i < g; i++)
      CHECK(close(f.Forecast.Get(i, t), y(i, y.c - se - st + t), 1e-9, 1e-9 * sc), "level before the forecasts");
  if (!o.dd())
    for (int t = 0; t < st; t++)
      for (int i = 0; i < g; i++)
        CHECK(close(f.Forecast.Get(i, t), y(i, y.c - se - st + t), 1e-9, 1e-9 * sc), "observation before the forecasts");
  else
    for (int t = 0; t < st; t++)
      for (int i = 0; i < g; i++)
        CHECK(close(f.Forecast.Get(i, t), y(i, y.c - se - st + t), 1e-8, 1e-7 * sc), "observation before the forecasts");
}
FACET(forecast, "differences or moving average terms, a horizon of two or more", 800) {
  Case k;
  int h = s.range(1, 8);
  bool ma = s.chance(1, 3);
  gen_case(s, k, ma, 2, h);
  bool var = s.chance(3, 4), isnew = s.coin(), fewer = s.chance(1, 4), det_ = s.coin();
  describe(c, k);
  c.desc << "horizon " << h << " variance " << var << " new exogenous data " << isnew;
  VarmaSizes z = k.o.sizes(k.n, k.g, k.nx);
  if (z.T - k.se < std::max(k.o.armax() + k.o.dd(), k.o.mamax()))
    throw pbt::Discard();
  LimitedMemoryBfgsbOptions op;
  Varma v(z, false, det_, false, &op);
  auto st = buf(s, v.Result.StorageSize), wk = buf(s, v.Result.WorkSize);
  M xn = cols(k.x, 0, k.n), xf = cols(k.x, k.n - k.se, h);
  auto yv = k.y.v(), xv = xn.v(), xfv = xf.v(), xav = k.x.v();
  RefVar r;
  M g0, gv;
  start_values(k.o, r, k, false, eye(z.NumParams), g0, gv);
  well(r);
  v.EstimateMl(yv, k.nx ? &xv : nullptr, wk.get(), st.get(), nullptr, nullptr, k.se);
  M coef = from(v.Result.coef), sig = from(v.Result.sigma2), res = from(v.Result.resid), ef, ev;
  if (!(coef.maxabs() < 1e6) || !(amplification(k.o, coef, r.T) < 50) || !(res.maxabs() < 1e3 * (1e-9 + r.w.maxabs())))
    throw pbt::Discard();
  ref_forecast(k.o, k.y, k.nx ? &xf : nullptr, k.se, coef, res, sig, h, ef, ev);
  if (!(ef.maxabs() < 1e6 * (1 + k.y.maxabs())))
    throw pbt::Discard();
  VarmaForecast f(z, h + (fewer ? 2 : 0), var);
  auto fs = buf(s, f.StorageSize), fw = buf(s, f.WorkSize);
  f.Calculate(v, k.nx ? (isnew ? &xfv : &xav) : nullptr, &yv, fs.get(), fw.get(), h, isnew);
  same_forecast(f, k.o, k.y, k.se, ef, ev, var);
  c.nontrivial(h > 1 && (k.o.dd() || !k.o.ma.empty()));
}
static M transposed_rows(const M &d, int from, int n, int c0, int nc) {
  M o(nc, n);
  for (int i = 0; i < nc; i++)
    for (int t = 0; t < n; t++)
      o(i, t) = d(from + t, c0 + i);
  return o;
}
static bool final_form(const Spec &o, const M &coef, int ms) {
  int g = coef.r;
  for (size_t l = 0; l < o.ma.size(); l++)
    for (int i = 0; i < g; i++)
      for (int j = 0; j < g; j++)
        if (coef(i, ms + (int)l * g + j) != (i == j ? coef(0, ms + (int)l * g) : 0))
          return false;
  return true;
}
FACET(extended, "missing observations around the sample, components, or exogenous data after the sample", 600) {
  Case k;
  int h = s.range(0, 5);
  bool ma = s.chance(1, 4);
  gen_case(s, k, ma, 3, h);
  ma = ma && !k.o.ma.empty();
  int g = k.g, nx = k.nx, n = k.n;
  bool final = ma && s.coin(), check = s.chance(3, 4), det_ = s.coin();
  int lead = check && s.coin() ? s.range(1, 4) : 0, after = s.coin() ? std::max(0, h - k.se) : h;
  if (!check) {
    after = 0;
    if (s.chance(3, 4))
      h = std::min(h, k.se);
  }
  bool px = nx > 1 && s.chance(1, 2), py = g > 1 && !k.o.dd() && s.chance(1, 3);
  PcaAnalysisOptions ox, oy;
  ox.IgnoreFirstCount = px ? s.range(k.icpt, nx - 1) : 0;
  if (s.coin())
    ox.ExactCount = px ? s.range(1, nx - ox.IgnoreFirstCount) : 1;
  else {
    ox.CutoffRate = s.unif(0.3, 0.95);
    ox.CutoffCountMax = s.range(1, 3);
  }
  oy.IgnoreFirstCount = py ? s.range(0, g - 1) : 0;
  oy.ExactCount = py ? s.range(1, g - oy.IgnoreFirstCount) : 1;
  // table: variables in columns; endogenous data end before the exogenous ones
  M d(lead + n + after, g + nx, NAN);
  for (int t = 0; t < n; t++)
    for (int i = 0; i < g; i++)
      d(lead + t, i) = k.y(i, t);
  for (int t = 0; t < n + after; t++)
    for (int i = 0; i < nx; i++)
      d(lead + t, g + i) = k.x(i, t);
  if (lead && nx && s.coin()) // exogenous data before the sample
    for (int t = 0; t < lead; t++)
      for (int i = 0; i < nx; i++)
        d(t, g + i) = 0.5;
  c.desc << k.o.str() << " equations " << g << " out-of-sample " << k.se << " horizon " << h << " final form " << final << " check missing " << check << " details " << det_ << " pca of y " << py << " (ignore " << oy.IgnoreFirstCount << " count " << oy.ExactCount << ") pca of x " << px << " (ignore "
         << ox.IgnoreFirstCount << " count " << ox.ExactCount << " rate " << ox.CutoffRate << " max " << ox.CutoffCountMax << ") data=" << d.str();
  bool enough = !nx || !h || d.r - (lead + n) >= h - k.se;
  // expected
  M ty = k.y.t(), tx = cols(k.x, 0, n).t(), txf;
  if (nx && enough)
    txf = cols(k.x, n - k.se, h).t();
  M ey = ty, ex = tx, ef = txf;
  if (py)
    ref_pca(ty, nullptr, oy, ey, nullptr);
  if (px && enough)
    ref_pca(tx, h ? &txf : nullptr, ox, ex, &ef);
  Case q = k;
  q.g = ey.c;
  q.nx = ex.c;
  q.y = ey.t();
  q.x = ex.t();
  M fx = ef.t();
  RefVar r, r0;
  if (enough) {
    if (ma) {
      M g0, gv;
      start_values(k.o, r0, q, false, eye(k.o.sizes(n, q.g, q.nx).NumParams), g0, gv);
      if (final && q.g > 1)
        throw pbt::Discard();
    } else
      r0.ols(k.o, q.y, q.nx ? &q.x : nullptr, k.se);
    well(r0);
  }
  VarmaSizes z = k.o.sizes(d.r, g, nx);
  if (n - k.o.armax() - k.o.dd() - k.se < std::max(k.o.armax() + k.o.dd(), k.o.mamax()))
    throw pbt::Discard();
  double maxcn = s.chance(1, 4) && enough && !ma ? r0.cn * (s.coin() ? 0.999 : 1.001) : -1;
  int hm = h + (s.chance(1, 4) ? s.range(1, 3) : 0);
  bool toolong = s.chance(1, 20);
  VarmaExtended v(z, final ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone, check, det_, !ma || s.coin(), toolong ? std::max(0, h - 1) : hm, py ? &oy : nullptr, px ? &ox : nullptr, nullptr);
  auto st = buf(s, v.StorageSize), wk = buf(s, v.WorkSize);
  auto dv = d.v();
  M d0 = d;
  bool bad = !enough || (maxcn > 0 && r0.cn > maxcn) || (toolong && h > 0);
  int hole = s.chance(1, 20) && check && n > 2 ? s.range(lead + 1, lead + n - 2) : -1;
  if (hole >= 0) {
    d(hole, s.range(0, g + nx - 1)) = NAN;
    d0 = d;
    bad = true;
  }
  auto run = [&] { v.Calculate(dv, st.get(), wk.get(), false, h, k.se, maxcn); };
  if (bad) {
    CHECK(throws(run), (hole >= 0 ? "missing data inside the sample is accepted" : !enough ? "exogenous data do not cover the horizon" : toolong && h > 0 ? "a horizon larger than the declared one is accepted" : "a large condition number is accepted"));
    c.label("rejected");
    return;
  }
  run();
  same_mat(d, d0, "the data after the estimation");
  const auto &mod = v.Model;
  if (ma) {
    M coef = from(mod.Result.coef), xt = r0.xt, w = r0.w;
    same_mat(from(mod.Result.y), w, "used endogenous data", 1e-8, 1e-8 * (1e-9 + w.maxabs()));
    M e = residuals(k.o, w, xt, coef);
    if (!(amplification(k.o, coef, w.c) < 50) || !(e.maxabs() < 1e3 * (1e-9 + w.maxabs())))
      throw pbt::Discard();
    same_mat(from(mod.Result.resid), e, "residuals", 1e-6, 1e-6 * w.maxabs());
    same_mat(from(mod.Result.Xt), xt, "used explanatory data", 1e-6, 1e-6 * (1 + xt.maxabs()));
    if (final)
      CHECK(final_form(k.o, coef, (int)k.o.ar.size() * q.g + q.nx), "the moving average part is not in the final form: " << coef.str());
    r0.e = e;
    r0.sigma = cov(e);
    r0.pi = coef;
  } else
    same_var(mod, r0, det_);
  if (h) {
    M f, var;
    ref_forecast(k.o, q.y, q.nx ? &fx : nullptr, k.se, r0.pi, r0.e, r0.sigma, h, f, var);
    if (!(f.maxabs() < 1e6 * (1 + q.y.maxabs())))
      throw pbt::Discard();
    same_forecast(v.Forecasts, k.o, q.y, k.se, f, var, true);
  }
  c.nontrivial(lead || px || py || (nx && h > k.se));
}
FACET(simulation, "several valid iterations with two horizons or more", 500) {
  Case k;
  bool ma = s.chance(1, 6), ext = s.coin();
  gen_case(s, k, ma, 2);
  ma = ma && !k.o.ma.empty();
  bool final = ma && s.coin();
  int g = k.g, nx = k.nx, n = k.n;
  double shift = s.coin() ? 20 : 0;
  for (int i = 0; i < k.y.n(); i++)
    k.y.p[i] += shift;
  std::vector<int> hz;
  for (int i : s.subset(6, s.range(1, 3)))
    hz.push_back(i + 1);
  std::sort(hz.begin(), hz.end());
  std::vector<double> lam;
  if (s.chance(1, 4))
    for (int j = 0; j < g; j++)
      lam.push_back(s.pick<double>({NAN, 0.0, 1.0, 0.5}));
  std::vector<ScoringType> me;
  for (auto t : {ScoringType::kDirection, ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps})
    if (s.chance(2, 3) && !(t == ScoringType::kCrps && !lam.empty()))
      me.push_back(t);
  if (s.coin())
    std::reverse(me.begin(), me.end());
  if (me.empty())
    me.push_back(ScoringType::kRmse);
  int cnt = s.range(1, 6), maxinv = !ext && s.chance(1, 3) ? s.range(0, 3) : 1000, lead = ext && s.coin() ? s.range(1, 3) : 0;
  if (n - k.o.armax() - k.o.dd() <= cnt)
    throw pbt::Discard();
  double maxcn = !ma && s.chance(1, 3) ? std::exp(s.unif(1, 10)) : 1e10;
  bool px = ext && nx > 1 && s.coin(), keep = ext && s.coin();
  PcaAnalysisOptions ox;
  ox.IgnoreFirstCount = px ? s.range(k.icpt, nx - 1) : 0;
  ox.ExactCount = px ? s.range(1, nx - ox.IgnoreFirstCount) : 1;
  describe(c, k);
  c.desc << "through tables " << ext << " horizons " << vec_str(hz) << " count " << cnt << " max cn " << maxcn << " max invalid " << maxinv << " lambda " << vec_str(lam) << " shift " << shift << " pca of x " << px << " (" << ox.IgnoreFirstCount << ", " << ox.ExactCount << ") metrics ";
  for (auto t : me)
    c.desc << (int)t << " ";
  VarmaSizes z = k.o.sizes(n + lead, g, nx);
  M ex = k.x.t();
  if (px) {
    M tx = k.x.t();
    ref_pca(tx, nullptr, ox, ex, nullptr); // the components use the whole table
  }
  M xx = ex.t();
  int enx = xx.r;
  VarmaSizes z2 = k.o.sizes(n, g, enx);
  // reference
  VarmaRestriction rs;
  if (final)
    rs = VarmaRestriction(z2, VarmaRestrictionType::kMaFinal);
  auto rst = buf(s, rs.StorageSize);
  if (final)
    rs.Calculate(rst.get());
  bool rest = final && rs.IsRestricted;
  M res((int)me.size(), g);
  int valid = 0, counter = 0, invalid = 0, hmax = hz.back();
  struct Row {
    int se, m, h, v;
    double last, act, forc, err, sd;
  };
  std::vector<Row> det_;
  bool tie = false;
  for (int se = cnt; se > 0; se--) {
    int eh = std::min(se, hmax);
    if (eh < hz[0])
      break;
    if (n - k.o.armax() - k.o.dd() - se < std::max({k.o.armax() + k.o.dd(), k.o.mamax(), k.o.params(g, enx) + g}))
      throw pbt::Discard();
    M f, var, xf = enx ? cols(xx, n - se, eh) : M();
    RefVar r;
    if (!ma) {
      r.ols(k.o, k.y, enx ? &xx : nullptr, se);
      well(r);
      if (std::fabs(r.cn / maxcn - 1) < 1e-4)
        throw pbt::Discard();
      if (r.cn > maxcn) {
        invalid++;
        continue;
      }
      ref_forecast(k.o, k.y, enx ? &xf : nullptr, se, r.pi, r.e, r.sigma, eh, f, var);
    } else { // (the other facets decide the estimation and the forecasts)
      Varma v(z2, rest, true, true);
      RefVar r0;
      M g0, gv;
      Case k0 = k;
      k0.se = se;
      k0.x = xx;
      k0.nx = enx;
      start_values(k.o, r0, k0, false, eye(z2.NumParams), g0, gv);
      well(r0);
      auto vs = buf(s, v.Result.StorageSize), vw = buf(s, v.Result.WorkSize);
      auto yv = k.y.v(), xv = xx.v(), xfv = xf.v();
      v.EstimateMl(yv, enx ? &xv : nullptr, vw.get(), vs.get(), rest ? &rs.R : nullptr, nullptr, se);
      M coef = from(v.Result.coef);
      if (!(coef.maxabs() < 1e6) || !(amplification(k.o, coef, n) < 50) || !(v.Result.cn < 1e8))
        throw pbt::Discard();
      ref_forecast(k.o, k.y, enx ? &xf : nullptr, se, coef, from(v.Result.resid), from(v.Result.sigma2), eh, f, var);
    }
    if (!(f.maxabs() < 1e4 * (1 + k.y.maxabs())) || !(var.maxabs() < 1e8 * (1 + k.y.maxabs())))
      throw pbt::Discard();
    valid++;
    for (int h : hz)
      counter += h <= eh;
    for (size_t m = 0; m < me.size(); m++)
      for (int h : hz) {
        if (h > eh)
          continue;
        for (int i = 0; i < g; i++) {
          double l = k.y(i, n - se - 1), a = k.y(i, n - se - 1 + h), p = f(i, h - 1), sd = std::sqrt(var(i, h - 1));
          if (!lam.empty()) {
            double b = lam[i];
            l = boxcox_inv(l, b);
            a = boxcox_inv(a, b);
            p = boxcox_inv(p, b);
            sd = boxcox_inv(sd, b);
            if (std::isnan(l + a + p) || std::fabs(l) + std::fabs(a) + std::fabs(p) > 1e8)
              throw pbt::Discard();
          }
          double er = a - p, sc = 1e-6 * (std::fabs(l) + std::fabs(a) + std::fabs(p) + 1e-6), v = 0;
          tie |= std::fabs(p - l) < sc || std::fabs(p) < sc || std::fabs(a) < sc || std::fabs(a - l) < sc;
          switch (me[m]) {
          case ScoringType::kDirection: v = (a > l) == (p > l); break;
          case ScoringType::kSign: v = (a > 0) == (p > 0); break;
          case ScoringType::kMae: v = std::fabs(er); break;
          case ScoringType::kMape: v = a > 0 ? 100 * std::fabs(er) / a : NAN; break;
          case ScoringType::kRmse: v = er * er; break;
          case ScoringType::kRmspe: v = a > 0 ? 1e4 * er * er / a / a : NAN; break;
          default: v = crps(er, sd);
          }
          res((int)m, i) += v;
          det_.push_back({se, (int)m, h, i, l, a, p, er, sd});
        }
      }
  }
  if (tie)
    throw pbt::Discard();
  for (size_t m = 0; m < me.size(); m++)
    for (int i = 0; i < g; i++) {
      res((int)m, i) /= counter;
      if (me[m] == ScoringType::kRmse || me[m] == ScoringType::kRmspe)
        res((int)m, i) = std::sqrt(res((int)m, i));
    }
  bool prev = !ma && s.coin(), cancel = false;
  VarmaSimulation q(ext ? z : z2, cnt, hz, me, nullptr, ext, final ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone, true, nullptr, px ? &ox : nullptr);
  q.KeepDetails = keep;
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
  M d(n + lead, g + nx, NAN);
  for (int t = 0; t < n; t++)
    for (int i = 0; i < g + nx; i++)
      d(lead + t, i) = i < g ? k.y(i, t) : k.x(i - g, t);
  auto dv = d.v(), yv = k.y.v(), xv = xx.v();
  auto lp = lam.empty() ? nullptr : &lam;
  auto run = [&] {
    if (ext)
      q.CalculateE(st.get(), wk.get(), dv, maxcn, 2, false, prev, lp);
    else
      q.Calculate(st.get(), wk.get(), yv, cancel, enx ? &xv : nullptr, rest ? &rs.R : nullptr, nullptr, prev, maxcn, 2, false, maxinv, lp);
  };
  if (!ext && (invalid > maxinv || !counter)) {
    CHECK(throws(run), invalid << " invalid simulations and " << counter << " forecasts are accepted, the limit is " << maxinv);
    c.label("rejected");
    return;
  }
  run();
  CHECK(q.ValidCounts == valid, q.ValidCounts << " valid simulations instead of " << valid);
  if (!counter)
    return;
  for (size_t m = 0; m < me.size(); m++)
    for (int i = 0; i < g; i++) {
      double e = res((int)m, i), v = q.ResultAggs.Get((int)m, i);
      if ((me[m] == ScoringType::kMape || me[m] == ScoringType::kRmspe) && std::isnan(e))
        continue; // not positive
      CHECK(close(v, e, 1e-5, 1e-6 * (1e-6 + std::fabs(e))), "metric " << (int)me[m] << " of variable " << i << " is " << v << " instead of " << e);
    }
  if (ext) {
    int er = 0;
    for (auto &a : q.Errors)
      er += a.second;
    CHECK(er == invalid, er << " errors are reported instead of " << invalid);
  }
  CHECK(q.Details.size() == (keep ? det_.size() : 0), q.Details.size() << " detailed rows instead of " << det_.size());
  for (size_t i = 0; keep && i < det_.size(); i++) {
    auto &a = q.Details[i];
    auto &b = det_[i];
    CHECK(std::get<0>(a) == b.se && std::get<1>(a) == b.m && std::get<2>(a) == b.h && std::get<3>(a) == b.v, "keys of the detailed row " << i);
    double sc = 1e-6 * (1e-6 + std::fabs(b.act) + std::fabs(b.forc) + std::fabs(b.last));
    CHECK(close(std::get<4>(a), b.last, 1e-6, sc) && close(std::get<5>(a), b.act, 1e-6, sc) && close(std::get<6>(a), b.forc, 1e-5, sc) && close(std::get<7>(a), b.err, 1e-5, 10 * sc),
          "detailed row " << i << ": last " << std::get<4>(a) << ", actual " << std::get<5>(a) << ", forecast " << std::get<6>(a) << ", error " << std::get<7>(a) << " instead of " << b.last << ", " << b.act << ", " << b.forc << ", " << b.err);
    bool crps_ = std::find(me.begin(), me.end(), ScoringType::kCrps) != me.end();
    if (crps_)
      CHECK(close(std::get<8>(a), b.sd, 1e-5, sc), "standard deviation in the detailed row " << i << " is " << std::get<8>(a) << " instead of " << b.sd);
  }
  c.nontrivial(valid > 1 && counter > valid);
}
FACET(invalid, "a singular model or too short data", 400) {
  Case k;
  gen_case(s, k, false, 2);
  int kind = s.range(0, 3), g = k.g;
  if (kind == 0 && !k.nx)
    kind = 1;
  describe(c, k);
  c.desc << "kind " << kind;
  VarmaSizes z = k.o.sizes(k.n, g, k.nx);
  LimitedMemoryBfgsbOptions op;
  auto est = [&](const VarmaSizes &zz, M &y, M *x, int se, double maxcn = NAN) {
    Varma v(zz, false, true, true, &op);
    auto st = buf(s, v.Result.StorageSize), wk = buf(s, v.Result.WorkSize);
    auto yv = y.v(), xv = x ? x->v() : y.v();
    v.EstimateMl(yv, x ? &xv : nullptr, wk.get(), st.get(), nullptr, nullptr, se, false, 2, std::isnan(maxcn) ? 1e20 : maxcn);
  };
  M *x = k.nx ? &k.x : nullptr;
  if (kind == 0) { // an exogenous variable is zero everywhere
    int j = s.range(0, k.nx - 1);
    for (int t = 0; t < k.x.c; t++)
      k.x(j, t) = 0;
    CHECK(throws([&] { est(z, k.y, x, k.se); }), "a zero exogenous variable is accepted");
  } else if (kind == 1) { // no observation remains
    int se = k.n - k.o.armax() - k.o.dd() + s.range(0, 3);
    CHECK(throws([&] { est(z, k.y, x, se); }), "a sample without observations is accepted");
  } else if (kind == 2) { // condition number
    RefVar r;
    r.ols(k.o, k.y, x, k.se);
    well(r);
    bool bad = s.coin();
    CHECK(throws([&] { est(z, k.y, x, k.se, r.cn * (bad ? 0.999 : 1.001)); }) == bad, "limit of the condition number");
  } else { // number of simulations
    std::vector<int> hz{1};
    std::vector<ScoringType> me{ScoringType::kMae};
    int cnt = s.coin() ? 0 : z.T + s.range(0, 3);
    CHECK(throws([&] { VarmaSimulation q(z, cnt, hz, me); }), cnt << " simulations with " << z.T << " observations are accepted");
  }
  c.nontrivial(kind <= 1);
}
