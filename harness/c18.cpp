// C18: systems of linear regressions
#include "ols.h"
#include "sur.h"
using namespace ldt;
static void same_model(const Sur &q, const RefSur &e, bool details, bool restricted) {
  auto sc = [](const M &a, double f) { return f * (1e-12 + a.maxabs()); };
  same_mat(from(q.beta), e.beta, "coefficients", 1e-6, sc(e.beta, 1e-7));
  M g = e.gamma;
  same_mat(from(q.gamma), g, "estimated parameters", 1e-6, sc(g, 1e-7));
  same_mat(from(q.gamma_var), e.gvar, "variance of the parameters", 1e-5, sc(e.gvar, 1e-6));
  same_mat(from(q.yhat), e.yhat, "fitted values", 1e-6, sc(e.yhat, 1e-7));
  same_mat(from(q.resid), e.resid, "residuals", 1e-6, sc(e.yhat, 1e-7));
  same_mat(from(q.resid_var), e.sigma, "variance of the residuals", 1e-6, sc(e.sigma, 1e-7));
  CHECK(close(q.logLikelihood, e.logl, 1e-7, 1e-6), "log-likelihood " << q.logLikelihood << " instead of " << e.logl);
  CHECK(close(q.condition_number, e.cn, 1e-5, 0), "condition number " << q.condition_number << " instead of " << e.cn);
  if (!details)
    return;
  same_mat(from(q.e_beta_std), e.sd, "standard errors", 1e-5, sc(e.sd, 1e-7));
  for (int i = 0; i < e.t.n(); i++) {
    if (std::isnan(e.t.p[i])) {
      CHECK(std::isnan(q.e_beta_t.Data[i]) && std::isnan(q.e_beta_prob.Data[i]), "a restricted coefficient has a t-statistic or a p-value");
      continue;
    }
    CHECK(close(q.e_beta_t.Data[i], e.t.p[i], 1e-5, 1e-6), "t-statistic " << q.e_beta_t.Data[i] << " instead of " << e.t.p[i]);
    CHECK(close(q.e_beta_prob.Data[i], e.p.p[i], 1e-4, 1e-6), "p-value " << q.e_beta_prob.Data[i] << " instead of " << e.p.p[i]);
  }
  CHECK(close(q.r2, e.r2, 1e-6, 1e-7), "R2 " << q.r2 << " instead of " << e.r2);
  if (!restricted) {
    CHECK(close(q.Aic, e.aic, 1e-7, 1e-6) && close(q.Sic, e.sic, 1e-7, 1e-6) && close(q.Hqic, e.hqic, 1e-7, 1e-6),
          "AIC, SIC, HQIC " << q.Aic << ", " << q.Sic << ", " << q.Hqic << " instead of " << e.aic << ", " << e.sic << ", " << e.hqic);
  }
}
// ill-conditioned systems are not compared
static void well(const RefSur &e) {
  if (!(e.cn < 1e5) || !(det(e.sigma) > 1e-8) || !(e.r2 > -10) || e.sigma.maxabs() > 1e4)
    throw pbt::Discard();
}
static void gen(Src &s, M &y, M &x, bool &icpt, int maxm = 3, int maxk = 4) {
  int m = s.range(1, maxm), k = s.range(1, maxk), N = s.range(2 * k + m + 3, 2 * k + m + 20);
  icpt = s.chance(2, 3);
  gen_system(s, N, m, k, icpt, y, x);
}
static M gen_R(Src &s, int km) {
  if (s.chance(2, 3)) { // some coefficients are zero
    auto ix = s.subset(km, s.range(1, km));
    M R(km, (int)ix.size());
    for (int j = 0; j < R.c; j++)
      R(ix[j], j) = 1;
    return R;
  }
  int q = s.range(1, km); // general linear restrictions
  M R = gen_norm(s, km, q);
  for (int j = 0; j < q; j++)
    R(j, j) += 3;
  return R;
}
FACET(unrestricted, "two equations or more and two regressors or more", 1500) {
  M y, x;
  bool icpt;
  gen(s, y, x, icpt);
  bool details = s.chance(3, 4);
  c.desc << "details " << details << " y=" << y.str() << " x=" << x.str();
  Sur q(y.r + s.range(0, 2), y.c + s.range(0, 1), x.c + s.range(0, 1), false, details);
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
  auto yv = y.v(), xv = x.v();
  M y0 = y, x0 = x;
  q.Calculate(yv, xv, st.get(), wk.get());
  RefSur e;
  e.unrestricted(y, x);
  e.finish(y);
  well(e);
  same_model(q, e, details, false);
  same_mat(y, y0, "the endogenous data after the estimation");
  same_mat(x, x0, "the exogenous data after the estimation");
  c.nontrivial(y.c > 1 && x.c > 1);
}
FACET(restricted, "two equations or more, fewer parameters than coefficients", 1500) {
  M y, x;
  bool icpt;
  gen(s, y, x, icpt);
  M R = gen_R(s, y.c * x.c);
  bool details = s.chance(3, 4);
  c.desc << "details " << details << " R=" << R.str() << " y=" << y.str() << " x=" << x.str();
  Sur q(y.r + s.range(0, 2), y.c + s.range(0, 1), x.c, true, details);
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
  auto yv = y.v(), xv = x.v(), Rv = R.v();
  M y0 = y, R0 = R;
  RefSur e;
  e.unrestricted(y, x);
  e.step(y, x, R);
  e.finish(y);
  well(e);
  q.Calculate(yv, xv, st.get(), wk.get(), &Rv);
  same_model(q, e, details, true);
  same_mat(y, y0, "the endogenous data after the estimation");
  same_mat(R, R0, "the restrictions after the estimation");
  c.nontrivial(y.c > 1 && R.c < R.r);
}
// significance search: estimate, remove the coefficients with a p-value above the threshold, repeat
static bool ref_search(const M &y, const M &x, double maxp, int maxit, RefSur &e, int &iter, bool &none) {
  e.unrestricted(y, x);
  e.R = eye(y.c * x.c);
  none = false;
  size_t last = y.c * x.c;
  for (iter = 0; iter < maxit; iter++) {
    std::vector<int> ix;
    for (int i = 0; i < e.p.n(); i++) {
      if (std::isnan(e.p.p[i]))
        continue;
      if (std::fabs(e.p.p[i] - maxp) < 1e-5)
        return false; // too close to call
      if (e.p.p[i] <= maxp)
        ix.push_back(i);
    }
    if (ix.size() == last)
      break;
    last = ix.size();
    if (ix.empty()) {
      none = true;
      return true;
    }
    M R(y.c * x.c, (int)ix.size());
    for (int j = 0; j < R.c; j++)
      R(ix[j], j) = 1;
    if (!(det(e.sigma) > 1e-8))
      return false;
    e.step(y, x, R);
  }
  e.finish(y);
  return true;
}
FACET(significance, "some but not all coefficients are removed", 2000) {
  M y, x;
  bool icpt;
  gen(s, y, x, icpt);
  double maxp = s.pick<double>({0.05, 0.1, 0.3, 0.6, s.unif(0.01, 0.99), 0.999});
  int maxit = s.pick<int>({1, 2, 3, 10, 10});
  c.desc << "p " << maxp << " iterations " << maxit << " y=" << y.str() << " x=" << x.str();
  RefSur e;
  int it;
  bool none;
  if (!ref_search(y, x, maxp, maxit, e, it, none))
    throw pbt::Discard();
  int km = y.c * x.c;
  if (!none)
    well(e);
  Sur q(y.r, y.c, x.c, s.coin(), s.coin(), maxit);
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize), rd = buf(s, km * km);
  ldt::Matrix<double> R(rd.get(), km, km);
  auto yv = y.v(), xv = x.v();
  if (none) {
    CHECK(throws([&] { q.Calculate(yv, xv, st.get(), wk.get(), &R, maxp); }), "a model without any coefficient is accepted");
    return;
  }
  q.Calculate(yv, xv, st.get(), wk.get(), &R, maxp);
  same_model(q, e, true, true);
  CHECK(q.mSigSearchIter == it, "number of iterations is " << q.mSigSearchIter << " instead of " << it);
  same_mat(from(R), e.R, "restrictions found");
  c.nontrivial(e.R.c > 0 && e.R.c < km);
}
static void same_projection(const SurProjection &p, const RefSur &e, bool restricted, const M &nx, bool var) {
  same_mat(from(p.Means), mul(nx, e.beta), "projected means", 1e-6, 1e-7 * (1 + e.beta.maxabs() * nx.maxabs()));
  if (!var)
    return;
  M g = restricted ? mul(mul(e.R, e.gvar), e.R.t()) : e.gvar;
  M v(nx.r, e.m), cv;
  for (int i = 0; i < nx.r; i++) {
    M z = kron(eye(e.m), rows(nx, {i}));
    cv = add(mul(z, mul(g, z.t())), e.sigma);
    for (int j = 0; j < e.m; j++)
      v(i, j) = cv(j, j);
  }
  same_mat(from(p.Variances), v, "variance of the projections", 1e-5, 1e-6 * v.maxabs());
  same_mat(from(p.Covariance), cv, "covariance of the last projection", 1e-5, 1e-6 * cv.maxabs());
}
FACET(projection, "two equations or more and two new observations or more", 1500) {
  M y, x;
  bool icpt;
  gen(s, y, x, icpt);
  int kind = s.range(0, 2);
  int n = s.range(1, 5);
  M nx = gen_norm(s, n, x.c);
  bool var = s.chance(3, 4);
  M R = kind == 1 ? gen_R(s, y.c * x.c) : M(y.c * x.c, y.c * x.c);
  c.desc << "kind " << kind << " variance " << var << " R=" << R.str() << " y=" << y.str() << " x=" << x.str() << " new x=" << nx.str();
  RefSur e;
  if (kind == 2) {
    int it;
    bool none;
    if (!ref_search(y, x, 0.4, 5, e, it, none) || none)
      throw pbt::Discard();
  } else {
    e.unrestricted(y, x);
    if (!(det(e.sigma) > 1e-8))
      throw pbt::Discard();
    if (kind == 1)
      e.step(y, x, R);
  }
  e.finish(y);
  well(e);
  Sur q(y.r, y.c, x.c, kind > 0, s.coin(), kind == 2 ? 5 : 0);
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
  auto yv = y.v(), xv = x.v(), Rv = R.v(), nv = nx.v();
  q.Calculate(yv, xv, st.get(), wk.get(), kind ? &Rv : nullptr, kind == 2 ? 0.4 : 0);
  SurProjection p(n + s.range(0, 1), y.c, x.c, kind > 0, var);
  auto st2 = buf(s, p.StorageSize), wk2 = buf(s, p.WorkSize);
  p.Calculate(q, nv, st2.get(), wk2.get());
  same_projection(p, e, kind > 0, nx, var);
  c.nontrivial(y.c > 1 && n > 1);
}
FACET(missing, "some but not all rows have a missing value", 1000) {
  M y, x;
  bool icpt;
  gen(s, y, x, icpt);
  int m = y.c, k = x.c, n = s.range(0, 3);
  M d = hcat(y, x);
  std::vector<int> keep;
  for (int i = 0; i < d.r; i++) {
    if (s.chance(1, 8))
      d(i, s.range(0, d.c - 1)) = NAN;
    bool ok = true;
    for (int j = 0; j < d.c; j++)
      ok &= !std::isnan(d(i, j));
    if (ok)
      keep.push_back(i);
  }
  M dk = rows(d, keep);
  M ky = cols(dk, 0, m), kx = cols(dk, m, k);
  if ((int)keep.size() < k + m + 2)
    throw pbt::Discard();
  M nx = gen_norm(s, n, k);
  bool restricted = s.coin();
  M R = gen_R(s, m * k);
  c.desc << "m " << m << " k " << k << " restricted " << restricted << " R=" << R.str() << " data=" << d.str() << " new x=" << nx.str();
  RefSur e;
  e.unrestricted(ky, kx);
  if (restricted)
    e.step(ky, kx, R);
  e.finish(ky);
  well(e);
  SurExtended q(d.r, m, k, restricted, true, true, n, 0, true, nullptr, nullptr);
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
  auto dv = d.v(), Rv = R.v(), nv = nx.v();
  q.Calculate(dv, m, st.get(), wk.get(), restricted ? &Rv : nullptr, 0, n ? &nv : nullptr);
  same_mat(from(q.Y), ky, "used endogenous data");
  same_mat(from(q.X), kx, "used exogenous data");
  same_model(q.Model, e, true, restricted);
  if (n)
    same_projection(q.Projections, e, restricted, nx, true);
  c.nontrivial((int)keep.size() < d.r);
}
FACET(components, "components replace the regressors or the endogenous variables", 1000) {
  M y, x;
  int m = s.range(1, 3), k = s.range(2, 5), N = s.range(2 * k + m + 6, 2 * k + m + 24), n = s.range(0, 3);
  bool icpt = true;
  gen_system(s, N, m, k, icpt, y, x);
  M nx = gen_norm(s, n, k);
  for (int i = 0; i < n; i++)
    nx(i, 0) = 1;
  bool py = m > 1 && s.coin(), px = !py || s.coin();
  PcaAnalysisOptions oy, ox;
  oy.IgnoreFirstCount = m > 2 ? s.range(0, 1) : 0;
  ox.IgnoreFirstCount = s.range(1, k - 1);
  if (s.coin())
    ox.ExactCount = s.range(1, k - ox.IgnoreFirstCount);
  else
    ox.CutoffRate = s.unif(0.2, 0.99);
  if (s.coin())
    ox.CutoffCountMax = s.range(1, k);
  oy.ExactCount = s.range(1, m - oy.IgnoreFirstCount);
  bool missing = s.coin();
  M d = hcat(y, x);
  std::vector<int> keep;
  for (int i = 0; i < N; i++) {
    bool miss = missing && keep.size() + N - i > (size_t)(2 * k + m + 4) && s.chance(1, 6);
    if (miss)
      d(i, s.range(0, d.c - 1)) = NAN;
    else
      keep.push_back(i);
  }
  M dk = rows(d, keep);
  M ky = cols(dk, 0, m), kx = cols(dk, m, k);
  c.desc << "m " << m << " k " << k << " pca of y " << py << " (ignore " << oy.IgnoreFirstCount << " count " << oy.ExactCount << ") pca of x " << px << " (ignore " << ox.IgnoreFirstCount << " count " << ox.ExactCount << " rate " << ox.CutoffRate << " max " << ox.CutoffCountMax
         << ") data=" << d.str() << " new x=" << nx.str();
  // expected data
  M ey = ky, ex = kx, en = nx;
  int all = 0;
  if (py)
    ref_pca(ky, nullptr, oy, ey, nullptr);
  if (px)
    all = ref_pca(kx, n ? &nx : nullptr, ox, ex, &en) + ox.IgnoreFirstCount == k;
  RefSur e;
  e.unrestricted(ey, ex);
  e.finish(ey);
  well(e);
  SurExtended q(N, m, k, false, missing, true, n, 0, true, py ? &oy : nullptr, px ? &ox : nullptr);
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
  auto dv = d.v(), nv = nx.v();
  M d0 = d, n0 = nx;
  q.Calculate(dv, m, st.get(), wk.get(), nullptr, 0, n ? &nv : nullptr);
  same_mat(from(q.Y), ey, "used endogenous data", 1e-8, 1e-9);
  same_mat(from(q.X), ex, "used exogenous data", 1e-8, 1e-9);
  same_model(q.Model, e, true, false);
  same_mat(d, d0, "the data after the estimation");
  same_mat(nx, n0, "the new data after the estimation");
  if (n)
    same_projection(q.Projections, e, false, en, true);
  if (all && !py && n) { // all the components and an intercept span the regressors
    RefSur f;
    f.unrestricted(ky, kx);
    same_mat(from(q.Projections.Means), mul(nx, f.beta), "projections with all the components", 1e-5, 1e-5);
  }
  c.nontrivial(true);
}
FACET(checks, "a check rejects the model", 1500) {
  M y, x;
  bool icpt;
  gen(s, y, x, icpt);
  int m = y.c, k = x.c, N = y.r;
  RefSur e;
  e.unrestricted(y, x);
  e.finish(y);
  well(e);
  SearchModelChecks ch;
  ch.Estimation = true;
  bool bad = false;
  auto d = [&](double v) { return v + (s.coin() ? 1 : -1) * s.unif(0.001, 0.2) * (1 + std::fabs(v)); };
  if (s.chance(1, 3)) {
    ch.MinObsCount = N + s.range(-2, 1);
    bad |= ch.MinObsCount > 0 && N < ch.MinObsCount;
  }
  if (s.chance(1, 3)) {
    ch.MinDof = N - k + s.range(-2, 1);
    bad |= ch.MinDof > 0 && N - k < ch.MinDof;
  }
  if (s.chance(1, 3)) {
    ch.MaxAic = d(e.aic);
    bad |= e.aic > ch.MaxAic;
  }
  if (s.chance(1, 3)) {
    ch.MaxSic = d(e.sic);
    bad |= e.sic > ch.MaxSic;
  }
  if (s.chance(1, 3)) {
    ch.MinR2 = d(e.r2);
    bad |= e.r2 < ch.MinR2;
  }
  if (s.chance(1, 3)) {
    ch.MaxConditionNumber = d(e.cn);
    ch.mCheckCN = ch.mCheckCN_all = true;
    bad |= e.cn > ch.MaxConditionNumber;
  }
  M dd = hcat(y, x);
  c.desc << "m " << m << " checks: observations " << ch.MinObsCount << " dof " << ch.MinDof << " aic " << ch.MaxAic << " sic " << ch.MaxSic << " r2 " << ch.MinR2 << " cn " << ch.MaxConditionNumber << " data=" << dd.str();
  SurExtended q(N, m, k, false, s.coin(), true, 0, 0, false, nullptr, nullptr);
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
  auto dv = dd.v();
  bool t = throws([&] { q.Calculate(dv, m, st.get(), wk.get(), nullptr, 0, nullptr, &ch); });
  CHECK(t == bad, (t ? "a model that satisfies the checks is rejected" : "a model that fails a check is accepted") << ": AIC " << e.aic << " SIC " << e.sic << " R2 " << e.r2 << " condition number " << e.cn);
  c.nontrivial(bad);
}
FACET(invalid, "a singular model", 500) {
  M y, x;
  bool icpt;
  gen(s, y, x, icpt);
  int kind = s.range(0, 4);
  c.desc << "kind " << kind << " y=" << y.str() << " x=" << x.str();
  auto yv = y.v(), xv = x.v();
  int km = y.c * x.c;
  if (kind == 0) { // a regressor is zero everywhere
    int j = s.range(0, x.c - 1);
    for (int i = 0; i < x.r; i++)
      x(i, j) = 0;
    bool r = s.coin();
    Sur q(y.r, y.c, x.c, r, true);
    auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
    M R = eye(km);
    auto Rv = R.v();
    CHECK(throws([&] { q.Calculate(yv, xv, st.get(), wk.get(), r ? &Rv : nullptr); }), "a zero regressor is accepted");
  } else if (kind == 1) { // too small
    Sur q(y.r - 1, y.c, x.c, false, true);
    auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
    CHECK(throws([&] { q.Calculate(yv, xv, st.get(), wk.get()); }), "more observations than declared are accepted");
  } else if (kind == 2) { // wrong restrictions
    M R(km + 1, 1, 1.0), R2(km, km + 1, 1.0);
    auto Rv = s.coin() ? R.v() : R2.v();
    Sur q(y.r, y.c, x.c, true, true);
    auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
    CHECK(throws([&] { q.Calculate(yv, xv, st.get(), wk.get(), &Rv); }), "restrictions of the wrong dimension are accepted");
  } else if (kind == 3) {
    Sur q(y.r, y.c, x.c, true, true);
    auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
    CHECK(throws([&] { q.Calculate(yv, xv, st.get(), wk.get(), nullptr); }), "a restricted model without restrictions is accepted");
  } else { // new data with the wrong number of columns
    M d = hcat(y, x);
    SurExtended q(y.r, y.c, x.c, false, true, true, 2, 0, true, nullptr, nullptr);
    auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize);
    M nx(2, x.c + (x.c > 1 && s.coin() ? -1 : 1));
    auto dv = d.v(), nv = nx.v();
    CHECK(throws([&] { q.Calculate(dv, y.c, st.get(), wk.get(), nullptr, 0, &nv); }), "new data with another number of columns is accepted");
  }
  c.nontrivial(kind == 0);
}
FACET(simulation, "several valid iterations with two test rows or more", 1000) {
  M y, x;
  bool icpt;
  gen(s, y, x, icpt, 2, 3);
  int m = y.c, k = x.c, N = y.r;
  bool rest = s.chance(1, 4), search = !rest && s.chance(1, 4);
  M R = gen_R(s, m * k);
  double maxp = 0.4;
  std::vector<double> lam;
  if (s.chance(1, 3))
    for (int j = 0; j < m; j++)
      lam.push_back(s.pick<double>({NAN, 0.0, 1.0, 0.5}));
  bool neg = false;
  std::vector<ScoringType> me;
  for (auto t : {ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps})
    if (s.chance(2, 3) && !(t == ScoringType::kCrps && !lam.empty()))
      me.push_back(t);
  if (s.coin())
    std::reverse(me.begin(), me.end());
  if (me.empty())
    me.push_back(ScoringType::kMae);
  double ratio = s.unif(0.5, 0.9);
  int fix = s.coin() ? s.range(k + m + 2, N - 1) : 0;
  int n0 = fix ? fix : (int)std::round(N * ratio);
  int it = s.range(1, 4);
  unsigned seed = s.range(1, 10000);
  double maxcn = s.chance(1, 4) ? s.unif(1, 200) : INFINITY;
  int maxinv = s.chance(1, 3) ? s.range(0, 4) : 1000;
  M d = hcat(y, x);
  c.desc << "m " << m << " ratio " << ratio << " fixed " << fix << " iterations " << it << " seed " << seed << " lambda " << vec_str(lam) << " restricted " << rest << " search " << search << " max cn " << maxcn << " max invalid " << maxinv << " R=" << R.str() << " data=" << d.str() << " metrics ";
  for (auto t : me)
    c.desc << (int)t << " ";
  if (n0 < k + m + 2 || n0 >= N)
    throw pbt::Discard();
  // reference
  DataSplit sp(N, m + k);
  std::unique_ptr<double[]> sst(new double[sp.StorageSize]);
  std::unique_ptr<int[]> swk(new int[sp.WorkSizeI]);
  auto dv = d.v();
  sp.Calculate(dv, sst.get(), ratio, fix);
  std::mt19937 eng(seed);
  M res((int)me.size(), m);
  int valid = 0, count = 0, invalid = 0;
  for (int i = 0; i < it; i++) {
    sp.Shuffle(dv, swk.get(), eng);
    M tr = from(sp.Sample0), te = from(sp.Sample1);
    M ty = cols(tr, 0, m), tx = cols(tr, m, k), ny = cols(te, 0, m), nx = cols(te, m, k);
    RefSur e;
    bool none = false;
    if (search) {
      int a;
      if (!ref_search(ty, tx, maxp, 3, e, a, none))
        throw pbt::Discard();
    } else {
      e.unrestricted(ty, tx);
      if (!(det(e.sigma) > 1e-8))
        throw pbt::Discard();
      if (rest)
        e.step(ty, tx, R);
    }
    if (!none) {
      e.finish(ty);
      well(e);
      if (std::fabs(e.cn / maxcn - 1) < 1e-4)
        throw pbt::Discard();
    }
    if (none || e.cn > maxcn) {
      invalid++;
      continue;
    }
    M mean = mul(nx, e.beta);
    M g = e.R.n() ? mul(mul(e.R, e.gvar), e.R.t()) : e.gvar;
    M sd(mean.r, m);
    for (int a = 0; a < mean.r; a++) {
      M z = kron(eye(m), rows(nx, {a}));
      M cv = add(mul(z, mul(g, z.t())), e.sigma);
      for (int j = 0; j < m; j++)
        sd(a, j) = std::sqrt(cv(j, j));
    }
    if (!lam.empty())
      for (int j = 0; j < m; j++)
        for (int a = 0; a < mean.r; a++) {
          mean(a, j) = boxcox_inv(mean(a, j), lam[j]);
          ny(a, j) = boxcox_inv(ny(a, j), lam[j]);
          neg |= std::fabs(mean(a, j)) > 1e6 || std::fabs(ny(a, j)) > 1e6 || std::fabs(ny(a, j)) < 1e-6 || std::fabs(mean(a, j)) < 1e-6;
        }
    if (neg)
      throw pbt::Discard();
    bool nan = false;
    for (int a = 0; a < mean.n(); a++)
      nan |= std::isnan(mean.p[a]) || std::isnan(ny.p[a]);
    if (nan) {
      invalid++;
      continue;
    }
    valid++;
    count += mean.r;
    for (size_t q = 0; q < me.size(); q++)
      for (int j = 0; j < m; j++)
        for (int a = 0; a < mean.r; a++) {
          double er = ny(a, j) - mean(a, j);
          switch (me[q]) {
          case ScoringType::kSign: res(q, j) += ny(a, j) * mean(a, j) > 0; break;
          case ScoringType::kMae: res(q, j) += std::fabs(er); break;
          case ScoringType::kMape: res(q, j) += 100 * std::fabs(er / ny(a, j)); break;
          case ScoringType::kRmse: res(q, j) += er * er; break;
          case ScoringType::kRmspe: res(q, j) += 1e4 * er * er / ny(a, j) / ny(a, j); break;
          default: res(q, j) += crps(er, sd(a, j));
          }
        }
  }
  for (size_t q = 0; q < me.size(); q++)
    for (int j = 0; j < m; j++) {
      res(q, j) /= count;
      if (me[q] == ScoringType::kRmse || me[q] == ScoringType::kRmspe)
        res(q, j) = std::sqrt(res(q, j));
    }
  SurSimulation q(N, m, k, ratio, fix, me, rest || search, search ? 3 : 0, nullptr, nullptr);
  auto st = buf(s, q.StorageSize), wk = buf(s, q.WorkSize), rd = buf(s, m * k * m * k);
  M RR = R;
  ldt::Matrix<double> Rs(rd.get(), m * k, m * k);
  auto Rv = search ? Rs : RR.v();
  bool cancel = false;
  auto run = [&] { q.Calculate(dv, m, st.get(), wk.get(), rest || search ? &Rv : nullptr, cancel, it, seed, maxp, maxcn, maxinv, lam.empty() ? nullptr : &lam); };
  if (invalid > maxinv) {
    CHECK(throws(run), invalid << " invalid simulations are accepted, the limit is " << maxinv);
    return;
  }
  run();
  CHECK(q.ValidIters == valid && q.ValidCounts == count, "valid iterations " << q.ValidIters << " and projections " << q.ValidCounts << " instead of " << valid << " and " << count);
  int er = 0;
  for (auto &z : q.Errors)
    er += z.second;
  CHECK(er == invalid, er << " errors are reported instead of " << invalid);
  if (valid)
    same_mat(from(q.Results), res, "out-of-sample metrics", 1e-5, 1e-6);
  c.nontrivial(valid > 1 && N - n0 > 1);
}
