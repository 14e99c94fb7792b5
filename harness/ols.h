// reference for systems of linear regressions, used by C18 and C20
#pragma once
#include "mat.h"
#include "pca.h"
#include <boost/math/distributions/students_t.hpp>
inline M kron(const M &a, const M &b) {
  M o(a.r * b.r, a.c * b.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++)
      for (int k = 0; k < b.r; k++)
        for (int l = 0; l < b.c; l++)
          o(i * b.r + k, j * b.c + l) = a(i, j) * b(k, l);
  return o;
}
inline double norm1(const M &a) {
  double m = 0;
  for (int j = 0; j < a.c; j++) {
    double x = 0;
    for (int i = 0; i < a.r; i++)
      x += std::fabs(a(i, j));
    m = std::max(m, x);
  }
  return m;
}
inline M cols(const M &a, int from, int n) {
  M o(a.r, n);
  std::copy(a.p.get() + (long)from * a.r, a.p.get() + (long)(from + n) * a.r, o.p.get());
  return o;
}
inline M rows(const M &a, const std::vector<int> &ix) {
  M o((int)ix.size(), a.c);
  for (int i = 0; i < o.r; i++)
    for (int j = 0; j < a.c; j++)
      o(i, j) = a(ix[i], j);
  return o;
}
inline M hcat(const M &a, const M &b) {
  M o(a.r, a.c + b.c);
  std::copy(a.p.get(), a.p.get() + a.n(), o.p.get());
  std::copy(b.p.get(), b.p.get() + b.n(), o.p.get() + a.n());
  return o;
}
inline double det(const M &a) {
  M x;
  long double d;
  gauss(a, eye(a.r), x, &d);
  return (double)d;
}
struct RefSur {
  M beta, gamma, gvar, yhat, resid, sigma, sd, t, p, R;
  double logl = NAN, aic = NAN, sic = NAN, hqic = NAN, r2 = NAN, cn = NAN;
  int N = 0, m = 0, k = 0;
  void residuals(const M &y, const M &x) {
    yhat = mul(x, beta);
    resid = add(y, yhat, -1);
    sigma = mul(resid.t(), resid);
    for (int i = 0; i < sigma.n(); i++)
      sigma.p[i] /= N;
  }
  void probs(bool restricted) {
    M v = restricted ? mul(mul(R, gvar), R.t()) : gvar;
    sd = t = p = M(k, m);
    for (int i = 0; i < k * m; i++) {
      bool fixed = true; // the coefficient is restricted to be zero
      if (restricted)
        for (int j = 0; j < R.c; j++)
          fixed &= R(i, j) == 0;
      else
        fixed = false;
      sd.p[i] = std::sqrt(std::max(0.0, v(i, i)));
      t.p[i] = fixed ? NAN : beta.p[i] / sd.p[i];
      p.p[i] = fixed || !std::isfinite(t.p[i]) ? NAN : 2 * boost::math::cdf(boost::math::complement(boost::math::students_t(N), std::fabs(t.p[i])));
    }
  }
  void unrestricted(const M &y, const M &x) {
    N = y.r;
    m = y.c;
    k = x.c;
    M xx = mul(x.t(), x), ix = inv(xx);
    cn = norm1(xx) * norm1(ix);
    beta = mul(ix, mul(x.t(), y));
    gamma = beta;
    gamma.r = k * m;
    gamma.c = 1;
    residuals(y, x);
    gvar = kron(sigma, ix);
    probs(false);
  }
  // one feasible generalised least squares step with the current residual variance
  void step(const M &y, const M &x, const M &R_) {
    R = R_;
    M w = kron(inv(sigma), mul(x.t(), x));
    M a = mul(R.t(), mul(w, R));
    gvar = inv(a);
    cn = norm1(a) * norm1(gvar);
    M rhs = mul(kron(inv(sigma), x.t()), [&] { M v = y; v.r = N * m; v.c = 1; return v; }());
    gamma = mul(gvar, mul(R.t(), rhs));
    beta = mul(R, gamma);
    beta.r = k;
    beta.c = m;
    residuals(y, x);
    probs(true);
  }
  void finish(const M &y) {
    logl = -0.5 * N * (m * std::log(2 * M_PI) + std::log(det(sigma))) - 0.5 * m * N;
    double km = k * m;
    aic = 2 * km - 2 * logl;
    sic = std::log((double)N) * km - 2 * logl;
    hqic = 2 * std::log(std::log((double)N)) * km - 2 * logl;
    double sr = 0, sy = 0;
    for (int j = 0; j < m; j++) {
      double mean = 0;
      for (int i = 0; i < N; i++)
        mean += y(i, j) / N;
      for (int i = 0; i < N; i++) {
        sy += (y(i, j) - mean) * (y(i, j) - mean);
        sr += resid(i, j) * resid(i, j);
      }
    }
    r2 = 1 - sr / sy;
  }
};
// a system with N observations: intercept in the first column of x (if any), correlated errors
inline void gen_system(Src &s, int N, int m, int k, bool intercept, M &y, M &x) {
  x = M(N, k);
  for (int j = 0; j < k; j++) {
    double sc = s.pick<double>({1.0, 1.0, 0.2, 5.0}), mu = s.coin() ? 0 : s.unif(-2, 2);
    for (int i = 0; i < N; i++)
      x(i, j) = intercept && j == 0 ? 1 : mu + sc * s.norm();
  }
  M b(k, m), l(m, m);
  for (int i = 0; i < b.n(); i++)
    b.p[i] = s.chance(1, 3) ? 0 : s.unif(-2, 2);
  for (int i = 0; i < m; i++)
    for (int j = 0; j <= i; j++)
      l(i, j) = i == j ? s.unif(0.5, 2) : s.unif(-1, 1);
  y = add(mul(x, b), mul(gen_norm(s, N, m), l.t()));
}

// the first columns and the components of the others (C14 decides the components)
inline int ref_pca(const M &a, const M *f, const ldt::PcaAnalysisOptions &o, M &ea, M *ef) {
  int ig = o.IgnoreFirstCount;
  M u = cols(a, ig, a.c - ig), uf = f ? cols(*f, ig, a.c - ig) : M();
  for (int j = 0; j < u.c; j++) {
    double m = 0, v = 0, mx = 0;
    for (int i = 0; i < u.r; i++) {
      m += u(i, j) / u.r;
      mx = std::max(mx, std::fabs(u(i, j)));
    }
    for (int i = 0; i < u.r; i++)
      v += (u(i, j) - m) * (u(i, j) - m) / u.r;
    if (!(v > 1e-8 * mx * mx))
      throw pbt::Discard();
  }
  ldt::PcaAnalysis p(u.r, u.c, f ? f->r : 0, true, true, true, true);
  std::unique_ptr<double[]> st(new double[p.StorageSize]), wk(new double[p.WorkSize]);
  auto uv = u.v(), ufv = uf.v();
  p.Calculate(uv, wk.get(), st.get(), f ? &ufv : nullptr);
  int cc = o.ExactCount ? o.ExactCount : std::min(p.GetCutoffColumn(o.CutoffRate), o.CutoffCountMax);
  ea = hcat(cols(a, 0, ig), cols(from(p.PCs), 0, cc));
  if (f)
    *ef = hcat(cols(*f, 0, ig), cols(from(p.Forecasts), 0, cc));
  return cc;
}
inline double boxcox_inv(double v, double l) { return std::isnan(l) ? v : l == 0 ? std::exp(v) : std::pow(l * v + 1, 1 / l); }
inline double crps(double err, double sd) {
  double z = err / sd, phi = std::exp(-0.5 * z * z) / std::sqrt(2 * M_PI), Phi = 0.5 * std::erfc(-z / std::sqrt(2.0));
  return sd * (z * (2 * Phi - 1) + 2 * phi - 1 / std::sqrt(M_PI));
}
