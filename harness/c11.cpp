// C11: moments, running moments, descriptive statistics, filters and trends against two-pass definitions
#include "array.h"
#include "mat.h"
#include "running.h"
#include "statistics.h"
using namespace ldt;
typedef long double L;
typedef Matrix<double> Mx;
struct Mom {
  L sw = 0, mean = NAN, m2 = NAN, m3 = NAN, m4 = NAN; // central moments (population)
  L a2 = 0, a3 = 0, a4 = 0;
  int n = 0;
};
static Mom two_pass(const std::vector<double> &x, const std::vector<double> &w) {
  Mom r;
  L s = 0;
  for (size_t i = 0; i < x.size(); i++)
    if (!std::isnan(x[i]))
      r.sw += w[i], s += (L)w[i] * x[i], r.n++;
  if (r.sw == 0)
    return r;
  r.mean = s / r.sw;
  L c2 = 0, c3 = 0, c4 = 0;
  for (size_t i = 0; i < x.size(); i++)
    if (!std::isnan(x[i])) {
      L d = x[i] - r.mean;
      c2 += w[i] * d * d;
      c3 += w[i] * d * d * d;
      c4 += w[i] * d * d * d * d;
      r.a3 += w[i] * fabsl(d * d * d);
    }
  r.m2 = c2 / r.sw;
  r.m3 = c3 / r.sw;
  r.m4 = c4 / r.sw;
  return r;
}
static void gen_data(Src &s, int n, bool nan, std::vector<double> &x) {
  double off = s.pick<double>({0, 0, 1, -50, 1000}), sc = s.pick<double>({1, 1, 0.1, 20});
  int kind = s.range(0, 3);
  x.clear();
  for (int i = 0; i < n; i++) {
    double v = kind == 0 ? s.norm() : kind == 1 ? (double)s.sint(-4, 4) : kind == 2 ? std::exp(s.norm()) : s.unif(-3, 3);
    if (nan && s.chance(1, 5))
      v = NAN;
    x.push_back(off + sc * v);
  }
}
static void gen_w(Src &s, int n, std::vector<double> &w) {
  int kind = s.range(0, 3);
  w.clear();
  for (int i = 0; i < n; i++)
    w.push_back(kind == 0 ? 1.0 : kind == 1 ? (double)s.range(0, 3) : kind == 2 ? s.unif(0.01, 5) : std::exp(-8 * s.unif()) * (s.chance(1, 6) ? 0 : 1));
}
// the spread must be visible next to the size of the numbers, otherwise every formula is only rounding
static bool spread(const Mom &m, const std::vector<double> &x) {
  double mx = 1e-300;
  for (double v : x)
    if (!std::isnan(v))
      mx = std::max(mx, std::fabs(v));
  return m.sw > 0 && m.m2 > 1e-7L * mx * mx;
}
static void check_moments(double mean, double var, double skew, double kurt, const Mom &m, const std::vector<double> &x, int upto, const char *what) {
  double mx = 0;
  for (double v : x)
    if (!std::isnan(v))
      mx = std::max(mx, std::fabs(v));
  CHECK(close(mean, (double)m.mean, 1e-9, 1e-11 * mx), what << ": the mean is " << mean << ", by definition " << (double)m.mean);
  if (m.sw == 0)
    return;
  double sd = std::sqrt((double)m.m2);
  if (upto >= 2)
    CHECK(close(var, (double)m.m2, 1e-8, 1e-10 * mx * (sd + 1e-4 * mx)), what << ": the variance is " << var << ", by definition " << (double)m.m2);
  if (!spread(m, x))
    return;
  double rs = mx / sd; // the loss of precision
  if (upto >= 3) {
    double e = (double)(m.m3 / powl(m.m2, 1.5L));
    CHECK(close(skew, e, 1e-8, 1e-9 * (1 + rs)), what << ": the skewness is " << skew << ", by definition " << e);
  }
  if (upto == 4) {
    double e = (double)(m.m4 / (m.m2 * m.m2) - 3);
    CHECK(close(kurt, e, 1e-8, 1e-9 * (1 + rs)), what << ": the excess kurtosis is " << kurt << ", by definition " << e);
  }
}

template <bool W, bool N, Ti K> static void arr(const std::vector<double> &x, const std::vector<double> &w, double *o) {
  static const double none = 0;
  Array<double>::Moments<W, N, K>(x.data(), (Ti)x.size(), w.empty() ? &none : w.data(), o[0], K >= 2 ? &o[1] : nullptr, K >= 3 ? &o[2] : nullptr, K >= 4 ? &o[3] : nullptr);
}
template <bool W, bool N> static void arrk(int k, const std::vector<double> &x, const std::vector<double> &w, double *o) {
  k == 1 ? arr<W, N, 1>(x, w, o) : k == 2 ? arr<W, N, 2>(x, w, o) : k == 3 ? arr<W, N, 3>(x, w, o) : arr<W, N, 4>(x, w, o);
}
FACET(array_moments, "at least three observations with different values and a missing value, a zero weight or unequal weights", 2500) {
  int n = s.range(0, s.chance(1, 10) ? 300 : 12), k = s.range(1, 4);
  bool nan = s.coin(), weighted = s.coin();
  std::vector<double> x, w;
  gen_data(s, n, nan, x);
  gen_w(s, n, w);
  c.desc << "x=" << vec_str(x) << " w=" << vec_str(w) << " moments=" << k << " weighted=" << weighted;
  std::vector<double> one(n, 1.0);
  auto m = two_pass(x, weighted ? w : one);
  double o[4] = {NAN, NAN, NAN, NAN};
  if (weighted)
    nan || s.coin() ? arrk<true, true>(k, x, w, o) : arrk<true, false>(k, x, w, o);
  else
    nan || s.coin() ? arrk<false, true>(k, x, w, o) : arrk<false, false>(k, x, w, o);
  check_moments(o[0], o[1], o[2], o[3], m, x, k, "array moments");
  bool zero = false;
  for (double v : w)
    zero = zero || v == 0;
  c.label(weighted ? "weighted" : "equal weights");
  if (weighted && zero)
    c.label("a zero weight");
  c.nontrivial(spread(m, x) && m.n >= 3 && (weighted || nan));
}

template <Ti K, bool N, bool W> static void running(Src &s, Ctx &c) {
  int n = s.range(0, s.chance(1, 10) ? 200 : 14);
  std::vector<double> x, w;
  gen_data(s, n, N, x);
  gen_w(s, n, w);
  if (!W)
    w.assign(n, 1.0);
  c.desc << "K=" << K << " skipNAN=" << N << " weighted=" << W << " x=" << vec_str(x) << " w=" << vec_str(w);
  typedef RunningMoments<K, N, W, double> R;
  // push into several accumulators, then merge them in a random order
  int parts = s.range(1, 4);
  std::vector<R> r(parts);
  std::vector<std::vector<double>> px(parts), pw(parts);
  std::string where;
  for (int i = 0; i < n; i++) {
    int p = s.range(0, parts - 1);
    where += (char)('0' + p);
    r[p].PushNew(x[i], w[i]);
    px[p].push_back(x[i]);
    pw[p].push_back(w[i]);
  }
  c.desc << " parts=" << parts << " where=" << where;
  for (int p = 0; p < parts; p++) {
    auto m = two_pass(px[p], pw[p]);
    check_moments(r[p].GetMean(), r[p].GetVariance(), r[p].GetSkewness(), r[p].GetKurtosis(), m, px[p], K, "pushing");
    CHECK(r[p].Count == m.n, "the number of pushed values is " << r[p].Count << " instead of " << m.n);
    CHECK(close(r[p].SumWeights, (double)m.sw, 1e-12, 0), "the sum of the weights is " << r[p].SumWeights << " instead of " << (double)m.sw);
  }
  std::vector<int> alive;
  for (int p = 0; p < parts; p++)
    alive.push_back(p);
  int merges = 0, bynumbers = 0;
  while (alive.size() > 1) {
    int i = s.range(0, (int)alive.size() - 1), j = s.range(0, (int)alive.size() - 2);
    if (j >= i)
      j++;
    int a = alive[i], b = alive[j];
    bool num = s.chance(1, 3);
    auto mb = two_pass(px[b], pw[b]);
    if (num && (K < 3 || spread(mb, px[b])) && mb.sw > 0) {
      // the same, but the other set is only known by its statistics
      r[a].Combine(r[b].GetMean(), r[b].GetVariance(), r[b].GetSkewness(), r[b].GetKurtosis(), r[b].SumWeights, r[b].Count);
      bynumbers++;
      c.desc << " " << a << "<-stats(" << b << ")";
    } else {
      r[a].Combine(r[b]);
      c.desc << " " << a << "<-" << b;
    }
    px[a].insert(px[a].end(), px[b].begin(), px[b].end());
    pw[a].insert(pw[a].end(), pw[b].begin(), pw[b].end());
    alive.erase(alive.begin() + j);
    merges++;
    auto m = two_pass(px[a], pw[a]);
    check_moments(r[a].GetMean(), r[a].GetVariance(), r[a].GetSkewness(), r[a].GetKurtosis(), m, px[a], K, "after a merge");
    CHECK(r[a].Count == m.n, "the number of pushed values is " << r[a].Count << " instead of " << m.n << " after a merge");
    CHECK(close(r[a].SumWeights, (double)m.sw, 1e-12, 0), "the sum of the weights is " << r[a].SumWeights << " instead of " << (double)m.sw << " after a merge");
  }
  auto all = two_pass(x, w);
  c.label(merges ? "merged" : "one accumulator");
  if (bynumbers)
    c.label("merged by statistics");
  c.nontrivial(merges && spread(all, x) && all.n >= 4);
  if (s.chance(1, 4) && n) {
    auto &q = r[alive[0]];
    q.Reset();
    CHECK(std::isnan(q.GetMean()) && q.Count == 0 && q.SumWeights == 0, "a reset accumulator is not empty");
    std::vector<double> x2, w2;
    gen_data(s, s.range(1, 5), N, x2);
    gen_w(s, (int)x2.size(), w2);
    if (!W)
      w2.assign(x2.size(), 1.0);
    for (size_t i = 0; i < x2.size(); i++)
      q.PushNew(x2[i], W ? w2[i] : s.unif(0, 3)); // without weights, the given one does not count
    auto m2 = two_pass(x2, w2);
    check_moments(q.GetMean(), q.GetVariance(), q.GetSkewness(), q.GetKurtosis(), m2, x2, K, "after a reset");
  }
}
FACET(running_mean, "at least four observations with spread, merged from several accumulators", 800) { s.coin() ? running<1, true, true>(s, c) : running<1, false, false>(s, c); }
FACET(running_variance, "at least four observations with spread, merged from several accumulators", 1200) { s.coin() ? running<2, true, true>(s, c) : running<2, false, true>(s, c); }
FACET(running_skewness, "at least four observations with spread, merged from several accumulators", 800) { s.coin() ? running<3, true, true>(s, c) : running<3, true, false>(s, c); }
FACET(running_kurtosis, "at least four observations with spread, merged from several accumulators", 1500) { s.coin() ? running<4, true, true>(s, c) : running<4, false, false>(s, c); }

FACET(descriptive, "at least four observations with spread", 1500) {
  int n = s.chance(1, 40) ? s.range(46000, 66000) : s.range(1, s.chance(1, 6) ? 80 : 9);
  std::vector<double> x;
  if (n > 1000) {
    c.label("a long series");
    double a = s.unif(0.1, 5);
    for (int i = 0; i < n; i++)
      x.push_back(std::sin(i * a) * 3 + (i % 7) - 2 + (i % 101 == 0 ? 8 : 0));
    c.desc << "long series n=" << n << " a=" << a;
  } else {
    gen_data(s, n, false, x);
    c.desc << "x=" << vec_str(x);
  }
  std::unique_ptr<double[]> d(new double[n]);
  std::copy(x.begin(), x.end(), d.get());
  Mx v(d.get(), n, 1);
  Descriptive de(&v);
  std::vector<double> one(n, 1.0);
  auto m = two_pass(x, one);
  double mn = *std::min_element(x.begin(), x.end()), mxv = *std::max_element(x.begin(), x.end());
  CHECK(de.Minimum() == mn && de.Maximum() == mxv, "the minimum and maximum are " << de.Minimum() << " and " << de.Maximum());
  double mx = std::max(std::fabs(mn), std::fabs(mxv));
  CHECK(close(de.Sum(), (double)(m.mean * n), 1e-10, 1e-11 * mx * n), "the sum is " << de.Sum() << " instead of " << (double)(m.mean * n));
  L ss = 0;
  for (double q : x)
    ss += (L)q * q;
  double sd = std::sqrt((double)m.m2);
  CHECK(close(de.SumOfSquares(false), (double)ss, 1e-10, 1e-300), "the sum of squares is " << de.SumOfSquares(false) << " instead of " << (double)ss);
  CHECK(close(de.SumOfSquares(true), (double)m.m2 * n, 1e-8, 1e-10 * mx * (sd + 1e-4 * mx) * n), "the sum of squared deviations is " << de.SumOfSquares(true) << " instead of " << (double)m.m2 * n);
  for (int sample = 0; sample < 2; sample++) {
    auto [mean, var] = de.MeanVariance(sample);
    auto [mean4, var4, sk4, ku4] = de.MeanVarianceKurtosisSkewness(sample);
    const char *nm = sample ? "sample" : "population";
    CHECK(close(mean, (double)m.mean, 1e-9, 1e-11 * mx) && close(mean4, (double)m.mean, 1e-9, 1e-11 * mx), "the mean is " << mean << " or " << mean4 << " instead of " << (double)m.mean);
    if (n < 2)
      continue;
    double ev = (double)(sample ? m.m2 * n / (n - 1) : m.m2), tol = 1e-10 * mx * (sd + 1e-4 * mx);
    CHECK(close(var, ev, 1e-8, tol), "the " << nm << " variance is " << var << ", by definition " << ev);
    CHECK(close(var4, ev, 1e-8, tol), "the " << nm << " variance (with four moments) is " << var4 << ", by definition " << ev);
    if (!spread(m, x))
      continue;
    L g1 = m.m3 / powl(m.m2, 1.5L), g2 = m.m4 / (m.m2 * m.m2) - 3;
    L N = n;
    double rs = 1e-9 * (1 + mx / sd);
    if (n > 2) {
      double e = (double)(sample ? g1 * sqrtl(N * (N - 1)) / (N - 2) : g1);
      CHECK(close(sk4, e, 1e-8, rs * 4), "the " << nm << " skewness is " << sk4 << ", by definition " << e);
    }
    if (n > 3) {
      double e = (double)(sample ? (N - 1) / ((N - 2) * (N - 3)) * ((N + 1) * g2 + 6) : g2);
      CHECK(close(ku4, e, 1e-8, rs * 20), "the " << nm << " excess kurtosis is " << ku4 << ", by definition " << e);
    }
  }
  c.nontrivial(n > 3 && spread(m, x));
}
FACET(quantile, "at least three different values and a level strictly inside (0,1)", 1500) {
  int n = s.range(1, 12);
  std::vector<double> x;
  gen_data(s, n, false, x);
  std::sort(x.begin(), x.end());
  std::unique_ptr<double[]> d(new double[n]);
  std::copy(x.begin(), x.end(), d.get());
  Mx v(d.get(), 1, n);
  Descriptive de(&v);
  double t1 = s.chance(1, 6) ? s.range(0, 1) : s.chance(1, 3) ? s.range(0, 20) / 20.0 : s.unif(), t2 = s.unif();
  c.desc << "x=" << vec_str(x) << " levels " << t1 << "," << t2;
  auto ref = [&](double t) { // the median-unbiased (type 8) definition
    if (t <= 0)
      return x[0];
    if (t >= 1)
      return x[n - 1];
    double h = (n + 1.0 / 3) * t + 1.0 / 3;
    h = std::min(std::max(h, 1.0), (double)n);
    int f = std::min((int)h, n - 1);
    return n == 1 ? x[0] : x[f - 1] + (h - f) * (x[f] - x[f - 1]);
  };
  double a = de.QuantileSorted(t1), b = de.QuantileSorted(t2);
  double mx = std::max(std::fabs(x[0]), std::fabs(x[n - 1]));
  CHECK(close(a, ref(t1), 1e-9, 1e-10 * mx), "the quantile at " << t1 << " is " << a << " instead of " << ref(t1));
  CHECK(t1 <= t2 ? a <= b + 1e-12 * mx : b <= a + 1e-12 * mx, "quantiles decrease: " << a << " at " << t1 << ", " << b << " at " << t2);
  CHECK(de.MinimumSorted() == x[0] && de.MaximumSorted() == x[n - 1], "ends of a sorted array");
  c.nontrivial(n > 2 && x[0] < x[n - 1] && t1 > 0 && t1 < 1);
}
FACET(filters, "more observations than coefficients and at least two coefficients", 1500) {
  int k = s.range(1, 5), T = s.range(0, 3) == 0 ? s.range(k, k + 2) : s.range(k, 25);
  M x = gen_norm(s, T, 1), co = gen_norm(s, k, 1);
  int extra = s.range(0, 2);
  bool cent = s.coin();
  c.desc << "x=" << x.str() << " coefs=" << co.str() << " centred=" << cent;
  auto xv = x.v(), cv = co.v();
  Descriptive de(&xv);
  {
    auto b = buf(s, T + extra);
    Mx st(b.get(), T + extra, 1);
    de.FilterMa(cv, cent, st);
    int o = cent ? k / 2 : 0;
    for (int i = 0; i < T; i++) {
      int lo = i + o - (k - 1), hi = i + o;
      if (lo < 0 || hi >= T) {
        CHECK(std::isnan(b[i]), "moving average " << i << " is " << b[i] << " but its window leaves the data");
        continue;
      }
      L e = 0, ab = 0;
      for (int j = 0; j < k; j++)
        e += (L)co.p[j] * x.p[i + o - j], ab += fabsl((L)co.p[j] * x.p[i + o - j]);
      CHECK(close(b[i], (double)e, 1e-10, 1e-12 * (double)ab), "moving average " << i << " is " << b[i] << " instead of " << (double)e);
    }
  }
  {
    for (int i = 0; i < k; i++)
      co.p[i] *= 0.5;
    auto b = buf(s, T + extra);
    Mx st(b.get(), T + extra, 1);
    de.FilterAr(&cv, &st);
    double ab = 1;
    for (int i = 0; i < T; i++) {
      double e = x.p[i];
      if (i >= k)
        for (int j = 0; j < k; j++)
          e += co.p[j] * b[i - j - 1], ab = std::max(ab, std::fabs(b[i - j - 1]));
      CHECK(close(b[i], e, 1e-9, 1e-10 * ab), "recursive filter " << i << " is " << b[i] << " instead of " << e);
    }
    // an array which is too short is refused
    if (T > 1) {
      auto q = buf(s, T - 1);
      Mx st2(q.get(), T - 1, 1);
      CHECK(throws([&] { de.FilterMa(cv, cent, st2); }) && throws([&] { de.FilterAr(&cv, &st2); }), "a storage which is too short is accepted");
    }
  }
  c.nontrivial(k > 1 && T > k);
}
FACET(seasonal, "at least two full seasons besides the ends lost by the trend", 600) {
  int f = s.range(2, 6), k = s.coin() ? (f % 2 ? f : f + 1) : s.range(1, 5);
  int T = 2 * f + k + s.range(0, 12);
  bool mult = s.coin(), cent = s.coin(), resid = s.chance(4, 5);
  M x(T, 1);
  for (int i = 0; i < T; i++)
    x.p[i] = (mult ? 20 : 5) + (i % f) + 0.2 * i + s.norm();
  if (mult)
    for (int i = 0; i < T; i++)
      x.p[i] = std::max(x.p[i], 1.0);
  M co(k, 1, 1.0 / k);
  if (k == f + 1 && f % 2 == 0) {
    for (int i = 0; i < k; i++)
      co.p[i] = 1.0 / f;
    co.p[0] /= 2;
    co.p[k - 1] /= 2;
  }
  c.desc << "x=" << x.str() << " seasons=" << f << " trend=" << co.str() << " multiplicative=" << mult << " centred=" << cent << " resid=" << resid;
  auto xv = x.v(), cv = co.v();
  Descriptive de(&xv);
  auto b1 = buf(s, T), b2 = buf(s, T), b3 = buf(s, T), b4 = buf(s, f);
  Mx tr(b1.get(), T, 1), se(b2.get(), T, 1), re(b3.get(), T, 1), me(b4.get(), f, 1);
  de.SeasonalDecompositionMa(tr, se, re, me, &cv, f, mult, resid, cent);
  int o = cent ? k / 2 : 0;
  std::vector<double> trend(T, NAN), sums(f, 0), mean(f, 0);
  std::vector<int> cnt(f, 0);
  for (int i = 0; i < T; i++) {
    int lo = i + o - (k - 1), hi = i + o;
    if (lo >= 0 && hi < T) {
      trend[i] = 0;
      for (int j = 0; j < k; j++)
        trend[i] += co.p[j] * x.p[i + o - j];
      sums[i % f] += mult ? x.p[i] / trend[i] : x.p[i] - trend[i];
      cnt[i % f]++;
    }
    CHECK(close(b1[i], trend[i], 1e-10, 1e-10), "the trend at " << i << " is " << b1[i] << " instead of " << trend[i]);
  }
  double tot = 0;
  for (int j = 0; j < f; j++)
    mean[j] = sums[j] / cnt[j], tot += mean[j] / f;
  for (int j = 0; j < f; j++) {
    mean[j] = mult ? mean[j] / tot : mean[j] - tot;
    CHECK(close(b4[j], mean[j], 1e-9, 1e-10), "the effect of season " << j << " is " << b4[j] << " instead of " << mean[j]);
  }
  for (int i = 0; i < T; i++) {
    CHECK(close(b2[i], mean[i % f], 1e-9, 1e-10), "the seasonal component at " << i << " is " << b2[i] << " instead of " << mean[i % f]);
    if (!resid)
      continue;
    if (std::isnan(trend[i]))
      CHECK(std::isnan(b3[i]), "a residual without a trend");
    else {
      double back = mult ? b1[i] * b2[i] * b3[i] : b1[i] + b2[i] + b3[i];
      CHECK(close(back, x.p[i], 1e-9, 1e-10), "the components at " << i << " do not give the data back: " << back << " instead of " << x.p[i]);
    }
  }
  c.label(mult ? "multiplicative" : "additive");
  c.nontrivial();
}
FACET(trend, "at least three observations", 600) {
  int T = s.range(2, 40);
  M x = gen_norm(s, T, 1);
  double off = s.norm() * 10, sl = s.norm();
  for (int i = 0; i < T; i++)
    x.p[i] += off + sl * i;
  c.desc << "x=" << x.str();
  auto xv = x.v();
  Descriptive de(&xv);
  auto b = buf(s, 2);
  de.RegressionTrend(b.get());
  // normal equations for the regression on 1, 2, ..., T
  L r0 = 0, r1 = 0;
  for (int i = 0; i < T; i++) {
    L e = x.p[i] - b[0] - (L)b[1] * (i + 1);
    r0 += e;
    r1 += e * (i + 1);
  }
  CHECK(fabsl(r0) < 1e-8 * T * (x.maxabs() + 1) && fabsl(r1) < 1e-8 * T * T * (x.maxabs() + 1), "the residuals of the trend " << b[0] << " + " << b[1] << " t are not orthogonal to it: " << (double)r0 << ", " << (double)r1);
  c.nontrivial(T > 2);
}
FACET(box_cox, "a power that is neither zero nor one", 600) {
  int n = s.range(1, 8);
  double lam = s.chance(1, 5) ? 0 : s.chance(1, 5) ? s.range(-2, 2) : s.unif(-2, 3);
  std::vector<double> x(n);
  for (auto &v : x)
    v = std::exp(s.norm());
  c.desc << "lambda=" << lam << " x=" << vec_str(x);
  auto y = x;
  Array<double>::BoxCox(y.data(), n, lam);
  for (int i = 0; i < n; i++) {
    double e = lam == 0 ? std::log(x[i]) : std::expm1(lam * std::log(x[i])) / lam;
    CHECK(close(y[i], e, 1e-8, 1e-9 / std::max(std::fabs(lam), 1e-3)), "the transform of " << x[i] << " is " << y[i] << " instead of " << e);
  }
  Array<double>::BoxCoxInv(y.data(), n, lam);
  for (int i = 0; i < n; i++)
    CHECK(close(y[i], x[i], 1e-6), x[i] << " comes back as " << y[i]);
  auto z = x;
  Array<double>::BoxCox(z.data(), n, NAN);
  CHECK(z == x, "a missing power must change nothing");
  c.nontrivial(lam != 0 && lam != 1);
}
FACET(order_statistics, "missing values and at least three other values", 800) {
  int n = s.range(0, 10);
  std::vector<double> x;
  gen_data(s, n, true, x);
  c.desc << "x=" << vec_str(x);
  double mn = NAN, mxv = NAN, first = NAN, last = NAN;
  int imn = -1, imx = -1, ok = 0;
  for (int i = 0; i < n; i++) {
    if (std::isnan(x[i]))
      continue;
    if (!ok++)
      first = x[i], mn = mxv = x[i], imn = imx = i;
    last = x[i];
    if (x[i] < mn)
      mn = x[i], imn = i;
    if (x[i] > mxv)
      mxv = x[i], imx = i;
  }
  double v = 0;
  Ti ix = -5;
  if (ok || n == 0) {
    Array<double>::Min<true>(x.data(), n, v);
    CHECK(close(v, mn, 0, 0), "the minimum is " << v);
    Array<double>::Max<true>(x.data(), n, v);
    CHECK(close(v, mxv, 0, 0), "the maximum is " << v);
    Array<double>::MinIndex<true>(x.data(), n, v, ix);
    CHECK(close(v, mn, 0, 0) && ix == imn, "the minimum is " << v << " at " << ix);
    Array<double>::MaxIndex<true>(x.data(), n, v, ix);
    CHECK(close(v, mxv, 0, 0) && ix == imx, "the maximum is " << v << " at " << ix);
  }
  if (n) {
    Array<double>::First<false>(x.data(), n, v);
    CHECK(close(v, x[0], 0, 0), "the first element is " << v);
    Array<double>::Last<false>(x.data(), n, v);
    CHECK(close(v, x[n - 1], 0, 0), "the last element is " << v);
  }
  if (ok) {
    std::vector<double> one(n, 1.0);
    auto m = two_pass(x, one);
    double mean, var, std_, sk, ku;
    Array<double>::GetDescriptive<true>(x.data(), n, DescriptiveType::kMean, mean);
    Array<double>::GetDescriptive<true>(x.data(), n, DescriptiveType::kVariancePop, var);
    Array<double>::GetDescriptive<true>(x.data(), n, DescriptiveType::kStdPop, std_);
    Array<double>::GetDescriptive<true>(x.data(), n, DescriptiveType::kSkewnessPop, sk);
    Array<double>::GetDescriptive<true>(x.data(), n, DescriptiveType::kKurtosisPop, ku);
    check_moments(mean, var, sk, ku, m, x, 4, "statistics by name");
    CHECK(close(std_, std::sqrt(var), 1e-12), "the standard deviation is " << std_ << " for a variance of " << var);
    std::vector<std::pair<DescriptiveType, double>> by = {{DescriptiveType::kMin, mn}, {DescriptiveType::kMax, mxv}, {DescriptiveType::kFirst, first}, {DescriptiveType::kLast, last}};
    for (auto &b : by) {
      Array<double>::GetDescriptive<true>(x.data(), n, b.first, v);
      CHECK(v == b.second, ToString(b.first) << " is " << v << " instead of " << b.second);
    }
  }
  Array<double>::First<true>(x.data(), n, v);
  CHECK(close(v, first, 0, 0), "the first value is " << v);
  Array<double>::Last<true>(x.data(), n, v);
  CHECK(close(v, last, 0, 0), "the last value is " << v);
  // equal parts
  if (n) {
    int size = s.range(1, 5);
    bool end = s.coin();
    std::vector<std::vector<double>> parts;
    Array<double>::PartitionEqual(x, parts, size, end);
    std::vector<double> cat;
    for (size_t i = 0; i < parts.size(); i++) {
      bool shortone = end ? i == 0 : i + 1 == parts.size();
      CHECK((int)parts[i].size() == size || (shortone && !parts[i].empty() && (int)parts[i].size() < size), "part " << i << " of " << parts.size() << " has " << parts[i].size() << " values");
      cat.insert(cat.end(), parts[i].begin(), parts[i].end());
    }
    CHECK(cat.size() == x.size(), "the parts do not hold the data");
    for (int i = 0; i < n; i++)
      CHECK(close(cat[i], x[i], 0, 0), "the parts do not hold the data in order");
  }
  c.nontrivial(ok > 2 && ok < n);
}
