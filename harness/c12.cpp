// C12: ranks, correlation matrices, and least squares
#include "correlation.h"
#include "mat.h"
#include "statistics.h"
using namespace ldt;
typedef long double L;
typedef Matrix<double> Mx;
static M gen_cols(Src &s, int r, int k, bool ties, bool nan) {
  M m(r, k);
  for (int j = 0; j < k; j++) {
    double off = s.pick<double>({0, 0, 5, -200}), sc = s.pick<double>({1, 1, 0.1, 30});
    for (int i = 0; i < r; i++) {
      double v = ties ? (double)s.sint(-3, 3) : s.norm();
      if (j && s.chance(1, 3))
        v += (m(i, 0) > 0 ? 1 : -1) * (ties ? 1 : 0.7);
      m(i, j) = off + sc * v;
      if (nan && s.chance(1, 5))
        m(i, j) = NAN;
    }
  }
  return m;
}
static M rank_ref(const M &x, bool asc) {
  M o(x.r, x.c);
  for (int j = 0; j < x.c; j++)
    for (int i = 0; i < x.r; i++) {
      int k = 0;
      for (int t = 0; t < x.r; t++)
        k += asc ? x(t, j) < x(i, j) : x(t, j) > x(i, j);
      o(i, j) = k;
    }
  return o;
}
FACET(rank, "at least three rows, with ties in a column", 2000) {
  int r = s.range(1, 10), k = s.range(1, 4);
  bool ties = s.chance(2, 3), asc = s.coin();
  M x = gen_cols(s, r, k, ties, false);
  c.desc << "x=" << x.str() << " ascending=" << asc;
  int er = s.range(0, 2), ek = s.range(0, 2);
  Rank rk(r + er, k + ek);
  auto w = buf(s, rk.WorkSize), st = buf(s, rk.StorageSize);
  rk.Calculate(x.v(), w.get(), st.get(), asc);
  M e = rank_ref(x, asc);
  CHECK(rk.Result.RowsCount == r && rk.Result.ColsCount == k, "dimensions of the ranks");
  bool tie = false;
  for (int j = 0; j < k; j++)
    for (int i = 0; i < r; i++) {
      CHECK(rk.Result.Get(i, j) == e(i, j), "the rank of row " << i << " in column " << j << " is " << rk.Result.Get(i, j) << " but " << e(i, j) << " values come before it");
      for (int t = 0; t < i; t++)
        tie = tie || x(t, j) == x(i, j);
    }
  if (er == 0 && r > 1) {
    Rank small(r - 1, k);
    auto w2 = buf(s, small.WorkSize), st2 = buf(s, small.StorageSize);
    CHECK(throws([&] { small.Calculate(x.v(), w2.get(), st2.get(), asc); }), "a workspace which is too small is accepted");
  }
  c.nontrivial(r > 2 && tie);
}
// covariance or correlation of two columns over the rows where both exist
static double cov_ref(const M &x, int a, int b, bool corr, bool adj, int &n, double &scale) {
  L ma = 0, mb = 0;
  n = 0;
  for (int i = 0; i < x.r; i++)
    if (!std::isnan(x(i, a)) && !std::isnan(x(i, b)))
      ma += x(i, a), mb += x(i, b), n++;
  ma /= n;
  mb /= n;
  L sab = 0, saa = 0, sbb = 0;
  for (int i = 0; i < x.r; i++)
    if (!std::isnan(x(i, a)) && !std::isnan(x(i, b))) {
      L da = x(i, a) - ma, db = x(i, b) - mb;
      sab += da * db;
      saa += da * da;
      sbb += db * db;
    }
  if (n == 0)
    return NAN;
  scale = corr ? 1 : (double)sqrtl(saa * sbb) / std::max(1, n - adj);
  if (corr)
    return (double)(sab / sqrtl(saa * sbb));
  return (double)(sab / (n - adj));
}
template <bool N, CorrelationType T, CorrelationMethod Me> static void corr(Src &s, Ctx &c, const M &x, bool ties) {
  bool adj = s.coin(), low = s.chance(2, 3);
  const bool cr = T == CorrelationType::kCorrelation, sp = Me == CorrelationMethod::kSpearman;
  c.desc << "x=" << x.str() << (cr ? " correlation" : " covariance") << (sp ? " of ranks" : "") << " dropNaN=" << N << " sample=" << adj << " lower=" << low;
  Correlation<N, T, Me> co(x.r + s.range(0, 1), x.c + s.range(0, 1), true);
  auto w = buf(s, co.WorkSize), st = buf(s, co.StorageSize);
  M keep = x;
  M xx = x;
  co.Calculate(xx.v(), w.get(), st.get(), adj, low);
  same_mat(xx, keep, "the data after the call");
  CHECK(co.Result.RowsCount == x.c && co.Result.ColsCount == x.c, "dimensions of the result");
  bool off = false;
  for (int i = 0; i < x.c; i++)
    for (int j = i; j < x.c; j++) {
      M two = x;
      if (sp) { // rank after dropping the incomplete pairs
        std::vector<int> ok;
        for (int t = 0; t < x.r; t++)
          if (!std::isnan(x(t, i)) && !std::isnan(x(t, j)))
            ok.push_back(t);
        M y((int)ok.size(), 2);
        for (size_t t = 0; t < ok.size(); t++)
          y(t, 0) = x(ok[t], i), y(t, 1) = x(ok[t], j);
        two = rank_ref(y, false);
      }
      int n = 0;
      double scale = 0;
      double e = sp ? cov_ref(two, 0, 1, cr, adj, n, scale) : cov_ref(two, i, j, cr, adj, n, scale);
      double g = co.Result.Get(i, j);
      if (n - adj > 0 && n > 1 && std::isfinite(e)) {
        CHECK(close(g, e, 1e-8, 1e-8 * scale), "element " << i << "," << j << " is " << g << " instead of " << e);
        if (cr)
          CHECK(std::fabs(g) <= 1 + 1e-9, "a correlation of " << g);
        if (low || i == j)
          CHECK(co.Result.Get(j, i) == g, "the matrix is not symmetric at " << i << "," << j);
        off = off || (i != j && std::fabs(e) > 1e-3 * scale);
        if constexpr (N)
          if (i != j || (!cr || sp))
            CHECK(co.ResultCounts.Get(i, j) == n, "the number of complete pairs of " << i << "," << j << " is " << co.ResultCounts.Get(i, j) << " instead of " << n);
      }
    }
  c.label(std::string(sp ? "ranks " : "values ") + (cr ? "correlation" : "covariance"));
  c.nontrivial(off && x.c > 1 && x.r > 2);
}
template <bool N> static void corr_any(Src &s, Ctx &c) {
  int r = s.range(2, 12), k = s.range(1, 4);
  bool ties = s.chance(1, 3);
  M x = gen_cols(s, r, k, ties, N);
  for (int j = 0; j < k; j++) { // a constant column has no correlation
    bool constant = true;
    for (int i = 1; i < r; i++)
      constant = constant && x(i, j) == x(0, j);
    if (constant)
      x(0, j) += 1;
  }
  switch (s.range(0, 3)) {
  case 0:
    return corr<N, CorrelationType::kCorrelation, CorrelationMethod::kPearson>(s, c, x, ties);
  case 1:
    return corr<N, CorrelationType::kCovariance, CorrelationMethod::kPearson>(s, c, x, ties);
  case 2:
    return corr<N, CorrelationType::kCorrelation, CorrelationMethod::kSpearman>(s, c, x, ties);
  default:
    return corr<N, CorrelationType::kCovariance, CorrelationMethod::kSpearman>(s, c, x, ties);
  }
}
FACET(correlation, "two or more columns of at least three rows which move together", 2500) { corr_any<false>(s, c); }
FACET(correlation_missing, "two or more columns of at least three rows which move together", 2500) { corr_any<true>(s, c); }

static M gen_x(Src &s, int N, int k) {
  M x = gen_norm(s, N, k);
  if (s.coin())
    for (int i = 0; i < N; i++)
      x(i, 0) = 1;
  if (k > 1 && s.chance(1, 3))
    for (int i = 0; i < N; i++)
      x(i, k - 1) = 10 + 3 * x(i, k - 1);
  return x;
}
// condition of x'x by Gauss elimination growth: skip designs which are numerically singular
static double cond(const M &a) {
  M ai = inv(a);
  if (!std::isfinite(ai.p[0]))
    return INFINITY;
  return a.maxabs() * ai.maxabs() * a.r;
}
FACET(ols, "more rows than regressors and at least two regressors", 2000) {
  int k = s.range(1, 4), N = s.chance(1, 8) ? k : s.range(k, 15), m = s.range(1, 3);
  M x = gen_x(s, N, k), y = gen_norm(s, N, m);
  if (s.coin())
    for (int j = 0; j < m; j++)
      for (int i = 0; i < N; i++)
        y(i, j) += 4 + 2 * x(i, s.range(0, 0));
  M xx = mul(x.t(), x);
  double cn = cond(xx);
  if (!(cn < 1e6))
    throw pbt::Discard();
  bool resid = s.coin(), sigma = s.coin();
  int eN = s.range(0, 2), em = s.range(0, 1), ek = s.range(0, 1);
  c.desc << "y=" << y.str() << " x=" << x.str() << " resid=" << resid << " sigma=" << sigma << " declared larger by " << eN << "," << em << "," << ek;
  Ols o(N + eN, m + em, k + ek, resid, sigma);
  auto st = buf(s, o.StorageSize), w = buf(s, o.WorkSize);
  o.Calculate(y.v(), x.v(), st.get(), w.get());
  M b = solve(xx, mul(x.t(), y));
  double tol = 1e-12 * cn * (1 + b.maxabs());
  same_mat(from(o.Beta), b, "the coefficients are not the solution of the normal equations", 1e-7, tol);
  M e = mul(x, b);
  for (int i = 0; i < e.n(); i++)
    e.p[i] = y.p[i] - e.p[i];
  if (resid || sigma)
    same_mat(from(o.Resid), e, "the residuals are not y - xb", 1e-7, tol * 10 * (1 + x.maxabs()));
  if (sigma)
    same_mat(from(o.Sigma), mul(e.t(), e), "the residual cross products are wrong", 1e-6, 1e-4 * tol + 1e-9 * (1 + e.maxabs()) * (1 + y.maxabs()) * N);
  if (s.chance(1, 4)) {
    Ols small(N - 1 < k ? N : N - 1, m, k - (N - 1 < k), resid, sigma);
    auto st2 = buf(s, small.StorageSize), w2 = buf(s, small.WorkSize);
    CHECK(throws([&] { small.Calculate(y.v(), x.v(), st2.get(), w2.get()); }), "a workspace which is too small is accepted");
    M xs(k > 1 ? k - 1 : 0, k), ys(xs.r, m);
    if (xs.r)
      CHECK(throws([&] { o.Calculate(ys.v(), xs.v(), st.get(), w.get()); }), "fewer rows than regressors are accepted");
  }
  c.nontrivial(N > k && k > 1);
}
FACET(gls, "more rows than regressors and correlated errors", 1500) {
  int k = s.range(1, 3), N = s.range(k + 1, 9), m = s.range(1, 3);
  M x = gen_x(s, N, k), y = gen_norm(s, N, m), om = gen_pd(s, N, 0.5);
  M oi = inv(om);
  M xox = mul(mul(x.t(), oi), x);
  double cn = cond(xox) * cond(om);
  if (!(cn < 1e6))
    throw pbt::Discard();
  bool resid = s.coin(), sigma = s.coin(), isinv = s.coin();
  c.desc << "y=" << y.str() << " x=" << x.str() << " omega=" << om.str() << " resid=" << resid << " sigma=" << sigma << " inverse given=" << isinv;
  Gls g(N + s.range(0, 2), m + s.range(0, 1), k + s.range(0, 1), resid, sigma, isinv);
  auto st = buf(s, g.StorageSize), w = buf(s, g.WorkSize);
  M given = isinv ? oi : om;
  auto gv = given.v();
  g.Calculate(y.v(), x.v(), gv, st.get(), w.get());
  M b = solve(xox, mul(mul(x.t(), oi), y));
  double tol = 1e-12 * cn * (1 + b.maxabs());
  same_mat(from(g.Beta), b, "the coefficients are not the generalised least squares", 1e-6, tol);
  M e = mul(x, b);
  for (int i = 0; i < e.n(); i++)
    e.p[i] = y.p[i] - e.p[i];
  if (resid || sigma)
    same_mat(from(g.Resid), e, "the residuals are not y - xb", 1e-6, tol * 10 * (1 + x.maxabs()));
  if (sigma)
    same_mat(from(g.Sigma), mul(e.t(), e), "the residual cross products are wrong", 1e-6, 1e-3 * tol + 1e-9 * (1 + e.maxabs()) * (1 + y.maxabs()) * N);
  c.nontrivial();
}
