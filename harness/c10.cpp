// C10: probability distributions
#include "distributions.h"
#include "mat.h"
#include <boost/math/distributions.hpp>
#include <boost/math/quadrature/gauss_kronrod.hpp>
#include <boost/math/quadrature/tanh_sinh.hpp>
using namespace ldt;
namespace bm = boost::math;
typedef DistributionType T;
typedef DistributionProperty P;
typedef std::unique_ptr<DistributionBase> D;
static D make(T t, double a, double b = 0, double c = 0, double d = 0) { return DistributionBase::GetDistributionFromType(t, a, b, c, d); }
static const double INF = INFINITY;

// ---- continuous distributions: reference in boost ----
struct Ref {
  std::function<double(double)> pdf, cdf, ccdf, q;
  double mean, var, skew, kurt, mode = NAN, lo, hi;
};
template <class B> static Ref ref_of(B b) {
  Ref r;
  r.pdf = [b](double x) { return bm::pdf(b, x); };
  r.cdf = [b](double x) { return bm::cdf(b, x); };
  r.ccdf = [b](double x) { return bm::cdf(bm::complement(b, x)); };
  r.q = [b](double p) -> double {
    try {
      return bm::quantile(b, p);
    } catch (const bm::evaluation_error &) { // happens for symmetric beta distributions
      throw pbt::Discard();
    }
  };
  return r;
}
static double dof(Src &s) { return s.chance(1, 3) ? (double)s.range(1, 40) : s.chance(1, 5) ? std::floor(s.unif(40, 600)) : s.unif(0.3, 30); }
struct Con {
  T t;
  double a = 0, b = 0;
  Ref r;
  std::string name;
};
static Con gen_con(Src &s) {
  Con o;
  switch (s.draw(9)) {
  case 0: {
    o.t = T::kNormal, o.a = s.num(), o.b = s.unif(0.01, 5) * s.pick<double>({1, 1, 100});
    o.r = ref_of(bm::normal(o.a, o.b));
    o.r.mean = o.a, o.r.var = o.b * o.b, o.r.skew = 0, o.r.kurt = 0, o.r.lo = -INF, o.r.hi = INF, o.name = "normal";
    break;
  }
  case 1: {
    o.t = T::kLogNormal, o.a = s.norm(), o.b = s.unif(0.05, 1.5);
    bm::lognormal d(o.a, o.b);
    o.r = ref_of(d);
    double e = std::exp(o.b * o.b);
    o.r.mean = std::exp(o.a + o.b * o.b / 2), o.r.var = (e - 1) * o.r.mean * o.r.mean, o.r.skew = (e + 2) * std::sqrt(e - 1), o.r.kurt = std::pow(e, 4) + 2 * std::pow(e, 3) + 3 * e * e - 6, o.r.lo = 0, o.r.hi = INF, o.name = "log normal";
    break;
  }
  case 2: {
    o.t = T::kUniformCon, o.a = s.num(), o.b = o.a + s.unif(0.01, 20);
    o.r = ref_of(bm::uniform(o.a, o.b));
    double w = o.b - o.a;
    o.r.mean = (o.a + o.b) / 2, o.r.var = w * w / 12, o.r.skew = 0, o.r.kurt = -1.2, o.r.lo = o.a, o.r.hi = o.b, o.name = "uniform";
    break;
  }
  case 3: {
    o.t = T::kChi2, o.a = dof(s);
    bm::chi_squared d(o.a);
    o.r = ref_of(d);
    o.r.mean = o.a, o.r.var = 2 * o.a, o.r.skew = std::sqrt(8 / o.a), o.r.kurt = 12 / o.a, o.r.lo = 0, o.r.hi = INF, o.name = "chi squared";
    break;
  }
  case 4: {
    o.t = T::kT, o.a = dof(s);
    bm::students_t d(o.a);
    o.r = ref_of(d);
    o.r.mean = o.a > 1 ? 0 : NAN, o.r.var = o.a > 2 ? o.a / (o.a - 2) : o.a > 1 ? INF : NAN, o.r.skew = o.a > 3 ? 0 : NAN, o.r.kurt = o.a > 4 ? 6 / (o.a - 4) : o.a > 2 ? INF : NAN, o.r.lo = -INF, o.r.hi = INF, o.name = "t";
    break;
  }
  case 5: {
    o.t = T::kExponential, o.a = s.unif(0.02, 8);
    o.r = ref_of(bm::exponential(o.a));
    o.r.mean = 1 / o.a, o.r.var = 1 / (o.a * o.a), o.r.skew = 2, o.r.kurt = 6, o.r.lo = 0, o.r.hi = INF, o.name = "exponential";
    break;
  }
  case 6: {
    o.t = T::kF, o.a = std::max(1.0, dof(s)), o.b = std::max(1.0, dof(s));
    bm::fisher_f d(o.a, o.b);
    o.r = ref_of(d);
    double m = o.a, n = o.b;
    o.r.mean = n > 2 ? n / (n - 2) : NAN, o.r.var = n > 4 ? 2 * n * n * (m + n - 2) / (m * (n - 2) * (n - 2) * (n - 4)) : NAN;
    o.r.skew = n > 6 ? bm::skewness(d) : NAN, o.r.kurt = n > 8 ? bm::kurtosis_excess(d) : NAN, o.r.lo = 0, o.r.hi = INF, o.name = "F";
    break;
  }
  case 7: {
    o.t = T::kGamma, o.a = dof(s), o.b = s.unif(0.05, 6);
    o.r = ref_of(bm::gamma_distribution<>(o.a, o.b));
    o.r.mean = o.a * o.b, o.r.var = o.a * o.b * o.b, o.r.skew = 2 / std::sqrt(o.a), o.r.kurt = 6 / o.a, o.r.lo = 0, o.r.hi = INF, o.name = "gamma";
    break;
  }
  default: {
    o.t = T::kBeta, o.a = dof(s), o.b = dof(s);
    bm::beta_distribution<> d(o.a, o.b);
    o.r = ref_of(d);
    o.r.mean = o.a / (o.a + o.b), o.r.var = bm::variance(d), o.r.skew = bm::skewness(d), o.r.kurt = bm::kurtosis_excess(d), o.r.lo = 0, o.r.hi = 1, o.name = "beta";
  }
  }
  return o;
}
static double gen_p(Src &s) { return s.chance(1, 6) ? s.pick<double>({1e-6, 1e-4, 0.001, 0.999, 0.9999}) : s.chance(1, 5) ? s.range(1, 19) / 20.0 : s.unif(0.002, 0.998); }

FACET(continuous, "a probability outside the central half or a shape below two", 6000) {
  auto o = gen_con(s);
  D d = make(o.t, o.a, o.b);
  c.desc << o.name << "(" << o.a << "," << o.b << ")";
  c.label(o.name);
  CHECK(d->GetMinimum() == o.r.lo && d->GetMaximum() == o.r.hi, "the support of " << c.desc.str() << " is [" << d->GetMinimum() << "," << d->GetMaximum() << "]");
  CHECK(!d->IsDiscrete() && !d->IsQuantile(), "type of " << c.desc.str());
  double prev = -INF, prevc = 0;
  std::vector<double> ps;
  for (int i = s.range(1, 4); i > 0; i--)
    ps.push_back(gen_p(s));
  std::sort(ps.begin(), ps.end());
  for (double p : ps) {
    double x = o.r.q(p);
    std::string w = std::string(Msg() << c.desc.str() << " at x=" << x << " (p=" << p << ")");
    double f = d->GetPdfOrPmf(x), ef = o.r.pdf(x);
    CHECK(close(f, ef, 1e-7, 1e-250), "density of " << w << " is " << f << " instead of " << ef);
    if (ef > 1e-250 && std::isfinite(ef)) {
      double l = d->GetPdfOrPmfLog(x);
      CHECK(close(l, std::log(ef), 1e-8, 1e-8), "log density of " << w << " is " << l << " instead of " << std::log(ef));
    }
    double F = d->GetCdf(x), eF = o.r.cdf(x);
    CHECK(close(F, eF, 1e-7, 1e-11), "distribution function of " << w << " is " << F << " instead of " << eF);
    CHECK(F >= prevc - 1e-12, "the distribution function decreases at " << w);
    double q = d->GetQuantile(p);
    CHECK(close(d->GetCdf(q), p, 1e-7, 1e-9) || close(q, x, 1e-8, 1e-12), "quantile of " << w << " is " << q << ", where the distribution function is " << d->GetCdf(q));
    CHECK(q >= prev, "the quantile decreases at " << w);
    prev = q, prevc = F;
    c.nontrivial(p < 0.25 || p > 0.75 || o.a < 2);
  }
  // outside and at the ends of the support
  CHECK(d->GetCdf(-INF) == 0 && d->GetCdf(INF) == 1, "distribution function of " << c.desc.str() << " at infinity");
  CHECK(d->GetQuantile(0) == o.r.lo && d->GetQuantile(1) == o.r.hi, "quantiles of " << c.desc.str() << " at 0 and 1 are " << d->GetQuantile(0) << " and " << d->GetQuantile(1));
  for (int side = 0; side < 2; side++) {
    double e = side ? o.r.hi : o.r.lo;
    if (std::isinf(e))
      continue;
    double x = e + (side ? 1 : -1) * s.unif(0.001, 3);
    CHECK(d->GetPdfOrPmf(x) == 0 && d->GetPdfOrPmfLog(x) == -INF && d->GetCdf(x) == side, "outside of the support: " << c.desc.str() << " at " << x << " gives " << d->GetPdfOrPmf(x) << ", " << d->GetPdfOrPmfLog(x) << ", " << d->GetCdf(x));
    CHECK(d->GetCdf(e) == side, "distribution function of " << c.desc.str() << " at " << e << " is " << d->GetCdf(e));
    // the limit of the density
    double lim;
    switch (o.t) {
    case T::kExponential: lim = o.a; break;
    case T::kUniformCon: lim = 1 / (o.b - o.a); break;
    case T::kLogNormal: lim = 0; break;
    case T::kChi2: lim = o.a < 2 ? INF : o.a == 2 ? 0.5 : 0; break;
    case T::kGamma: lim = o.a < 1 ? INF : o.a == 1 ? 1 / o.b : 0; break;
    case T::kF: lim = o.a < 2 ? INF : o.a == 2 ? 1 : 0; break;
    default: {
      double k = side ? o.b : o.a, k2 = side ? o.a : o.b;
      lim = k < 1 ? INF : k == 1 ? k2 : 0;
    }
    }
    double f = d->GetPdfOrPmf(e), l = d->GetPdfOrPmfLog(e);
    CHECK(close(f, lim, 1e-9), "density of " << c.desc.str() << " at " << e << " is " << f << " instead of " << lim);
    CHECK(close(l, std::log(lim), 1e-9, 1e-9), "log density of " << c.desc.str() << " at " << e << " is " << l << " instead of " << std::log(lim));
  }
}
FACET(moments, "all four moments exist", 6000) {
  auto o = gen_con(s);
  D d = make(o.t, o.a, o.b);
  c.desc << o.name << "(" << o.a << "," << o.b << ")";
  auto ck = [&](const char *w, double got, double exp) { CHECK(close(got, exp, 1e-8, 1e-10), w << " of " << c.desc.str() << " is " << got << " instead of " << exp); };
  ck("mean", d->GetMean(), o.r.mean);
  ck("variance", d->GetVariance(), o.r.var);
  ck("standard deviation", d->GetSandardDeviation(), std::sqrt(o.r.var));
  ck("skewness", d->GetSkewness(), o.r.skew);
  ck("kurtosis", d->GetKurtosis(), o.r.kurt);
  double med = d->GetMedian(), mode = d->GetMode();
  if (std::isnan(med))
    CHECK(o.t == T::kF || o.t == T::kGamma || o.t == T::kBeta, "no median of " << c.desc.str());
  else
    CHECK(std::fabs(o.r.cdf(med) - 0.5) < 1e-8, "median of " << c.desc.str() << " is " << med << " where the distribution function is " << o.r.cdf(med));
  if (std::isnan(mode))
    CHECK((o.t == T::kF && o.a <= 2) || (o.t == T::kGamma && o.a < 1), "no mode of " << c.desc.str());
  else {
    CHECK(mode >= o.r.lo && mode <= o.r.hi, "mode of " << c.desc.str() << " is " << mode);
    double at = d->GetPdfOrPmf(mode);
    for (int i = 1; i < 40; i++) {
      double x = o.r.q(i / 40.0), f = o.r.pdf(x);
      CHECK(f <= at * (1 + 1e-9), "mode of " << c.desc.str() << " is " << mode << " with density " << at << ", but it is " << f << " at " << x);
    }
  }
  struct {
    P p;
    double v;
  } pr[] = {{P::kMean, d->GetMean()}, {P::kVariance, d->GetVariance()}, {P::kStandardError, d->GetSandardDeviation()}, {P::kSkewness, d->GetSkewness()}, {P::kKurtosis, d->GetKurtosis()}, {P::kMinimum, d->GetMinimum()}, {P::kMaximum, d->GetMaximum()}, {P::kMedian, med}, {P::kMode, mode}};
  for (auto &q : pr)
    CHECK(close(d->GetProperty(q.p), q.v, 0, 0), "property '" << (char)q.p << "' of " << c.desc.str() << " is " << d->GetProperty(q.p) << " instead of " << q.v);
  CHECK(throws([&] { d->GetPmfSupportSize(0, 1); }) && throws([&] { d->GetPmfSupportIncrement(); }), "a continuous distribution has a discrete support");
  c.nontrivial(std::isfinite(o.r.kurt));
}

// ---- discrete distributions: probabilities by brute force ----
struct Dis {
  T t;
  double a = 0, b = 0;
  std::string name;
  long lo;
  std::vector<double> p; // probabilities from lo
  double hi;
};
static Dis gen_dis(Src &s) {
  Dis o;
  o.lo = 0;
  auto prob = [&] { return s.chance(1, 8) ? s.pick<double>({0.5, 0.25, 0.1, 0.9}) : s.unif(0.02, 0.98); };
  switch (s.draw(5)) {
  case 0: {
    o.t = T::kUniformDis, o.a = s.sint(-20, 20), o.b = o.a + s.range(0, 60), o.name = "discrete uniform";
    o.lo = (long)o.a, o.hi = o.b;
    int n = (int)(o.b - o.a) + 1;
    o.p.assign(n, 1.0 / n);
    break;
  }
  case 1:
    o.t = T::kBernoulli, o.a = s.chance(1, 10) ? s.draw(2) : prob(), o.name = "Bernoulli", o.hi = 1;
    o.p = {1 - o.a, o.a};
    break;
  case 2: {
    o.t = T::kPoisson, o.a = s.chance(1, 12) ? 0 : s.chance(1, 4) ? s.unif(30, 400) : s.coin() ? s.range(1, 30) : s.unif(0.01, 12), o.name = "Poisson", o.hi = INF;
    for (int k = 0; k < o.a + 40 * std::sqrt(o.a) + 60; k++)
      o.p.push_back(o.a == 0 ? k == 0 : bm::pdf(bm::poisson(o.a), k));
    break;
  }
  case 3: {
    o.t = T::kGeometric, o.a = s.chance(1, 12) ? 1 : prob(), o.name = "geometric", o.hi = INF;
    for (int k = 0; k < 40 / o.a + 5; k++)
      o.p.push_back(o.a * std::pow(1 - o.a, k));
    break;
  }
  default: {
    o.t = T::kBinomial, o.a = s.chance(1, 12) ? s.draw(2) : prob(), o.b = s.chance(1, 8) ? s.range(60, 900) : s.range(0, 40), o.name = "binomial", o.hi = o.b;
    for (int k = 0; k <= o.b; k++)
      o.p.push_back(o.a == 0 ? k == 0 : o.a == 1 ? k == o.b : bm::pdf(bm::binomial(o.b, o.a), k));
  }
  }
  return o;
}
FACET(discrete, "at least three values with a probability above 1e-6", 6000) {
  auto o = gen_dis(s);
  D d = make(o.t, o.a, o.b);
  c.desc << o.name << "(" << o.a << "," << o.b << ")";
  c.label(o.name);
  int n = (int)o.p.size();
  CHECK(d->IsDiscrete() && d->GetPmfSupportIncrement() == 1, "type of " << c.desc.str());
  CHECK(d->GetMinimum() == o.lo && d->GetMaximum() == o.hi, "the support of " << c.desc.str() << " is [" << d->GetMinimum() << "," << d->GetMaximum() << "]");
  std::vector<double> cum(n);
  double sum = 0;
  int big = 0;
  for (int i = 0; i < n; i++)
    cum[i] = sum += o.p[i], big += o.p[i] > 1e-6;
  c.nontrivial(big >= 3);
  auto F = [&](double x) {
    double k = std::floor(x) - o.lo;
    return k < 0 ? 0 : k >= n ? 1.0 : cum[(int)k];
  };
  int peak = (int)(std::max_element(o.p.begin(), o.p.end()) - o.p.begin());
  for (int rep = s.range(1, 4); rep > 0; rep--) {
    int k = s.coin() ? s.range(0, n - 1) : std::min(n - 1, std::max(0, peak + (int)s.sint(-6, 6)));
    double x = o.lo + k, e = o.p[k];
    std::string w = std::string(Msg() << c.desc.str() << " at " << x);
    CHECK(close(d->GetPdfOrPmf(x), e, 1e-7, 1e-30), "probability of " << w << " is " << d->GetPdfOrPmf(x) << " instead of " << e);
    if (e > 1e-200 || o.a == 0 || o.a == 1)
      CHECK(close(d->GetPdfOrPmfLog(x), std::log(e), 1e-7, 1e-7), "log probability of " << w << " is " << d->GetPdfOrPmfLog(x) << " instead of " << std::log(e));
    CHECK(close(d->GetCdf(x), cum[k], 1e-7, 1e-9), "distribution function of " << w << " is " << d->GetCdf(x) << " instead of " << cum[k]);
    double y = x + s.unif(0.01, 0.99) * (s.coin() ? 1 : -1);
    CHECK(d->GetPdfOrPmf(y) == 0 && d->GetPdfOrPmfLog(y) == -INF, "probability of " << c.desc.str() << " at " << y << " is " << d->GetPdfOrPmf(y) << " with logarithm " << d->GetPdfOrPmfLog(y));
    CHECK(close(d->GetCdf(y), F(y), 1e-7, 1e-9), "distribution function of " << c.desc.str() << " at " << y << " is " << d->GetCdf(y) << " instead of " << F(y));
  }
  double x = o.lo - s.range(1, 3);
  CHECK(d->GetPdfOrPmf(x) == 0 && d->GetPdfOrPmfLog(x) == -INF && d->GetCdf(x) == 0, "below the support of " << c.desc.str());
  if (std::isfinite(o.hi)) {
    x = o.hi + s.range(1, 3);
    CHECK(d->GetPdfOrPmf(x) == 0 && d->GetPdfOrPmfLog(x) == -INF && d->GetCdf(x) == 1, "above the support of " << c.desc.str());
  }
  CHECK(d->GetCdf(-INF) == 0 && d->GetCdf(INF) == 1, "distribution function of " << c.desc.str() << " at infinity");
  // quantile: the smallest value with at least the given probability
  CHECK(d->GetQuantile(0) == o.lo && d->GetQuantile(1) == o.hi, "quantiles of " << c.desc.str() << " at 0 and 1 are " << d->GetQuantile(0) << " and " << d->GetQuantile(1));
  for (int rep = 0; rep < 3; rep++) {
    double p = gen_p(s);
    double q = d->GetQuantile(p);
    bool ok = q == std::floor(q) && q >= o.lo && q < o.lo + n && F(q) >= p - 1e-9 && (q == o.lo || F(q - 1) <= p + 1e-9);
    CHECK(ok, "quantile of " << c.desc.str() << " at " << p << " is " << q << " (distribution function " << F(q) << ", and " << F(q - 1) << " at the value before it)");
  }
  // moments by summing
  double m = 0, v = 0, s3 = 0, s4 = 0;
  for (int i = 0; i < n; i++)
    m += o.p[i] * (o.lo + i);
  for (int i = 0; i < n; i++) {
    double u = o.lo + i - m;
    v += o.p[i] * u * u, s3 += o.p[i] * u * u * u, s4 += o.p[i] * u * u * u * u;
  }
  auto ck = [&](const char *w, double got, double exp) { CHECK(close(got, exp, 1e-6, 1e-8), w << " of " << c.desc.str() << " is " << got << " instead of " << exp); };
  ck("mean", d->GetMean(), m);
  ck("variance", d->GetVariance(), v);
  ck("standard deviation", d->GetSandardDeviation(), std::sqrt(v));
  if (v > 1e-6) {
    ck("skewness", d->GetSkewness(), s3 / std::pow(v, 1.5));
    ck("kurtosis", d->GetKurtosis(), s4 / v / v - 3);
  }
  double med = d->GetMedian(), mode = d->GetMode();
  CHECK(F(med) >= 0.5 - 1e-9 && (med <= o.lo || F(std::ceil(med) - 1) <= 0.5 + 1e-9) && med >= o.lo && med <= o.hi, "median of " << c.desc.str() << " is " << med);
  if (o.t == T::kUniformDis)
    CHECK(std::isnan(mode), "mode of " << c.desc.str());
  else {
    CHECK(mode == std::floor(mode) && mode >= o.lo && mode < o.lo + n, "mode of " << c.desc.str() << " is " << mode);
    CHECK(o.p[(int)(mode - o.lo)] >= o.p[peak] * (1 - 1e-9), "mode of " << c.desc.str() << " is " << mode << " with probability " << o.p[(int)(mode - o.lo)] << ", but it is " << o.p[peak] << " at " << o.lo + peak);
  }
}
FACET(support, "at least three values", 2500) {
  auto o = gen_dis(s);
  D d = make(o.t, o.a, o.b);
  int n = (int)o.p.size();
  int first = s.range(0, n - 1), len = s.range(1, std::min(n - first, 12));
  double lo = o.lo + first, hi = lo + len - 1;
  c.desc << o.name << "(" << o.a << "," << o.b << ") on [" << lo << "," << hi << "]";
  int size = d->GetPmfSupportSize(lo, hi);
  if (o.t == T::kBernoulli)
    first = 0, lo = 0, len = 2;
  CHECK(size == len, "size of the support of " << c.desc.str() << " is " << size);
  bool lg = s.coin(), plot = s.coin();
  int N = plot ? 3 * size : size;
  std::vector<double> x(N + 1, -7), y(N + 1, -7);
  d->GetPmfSupport(x.data(), y.data(), lg, N, plot, lo);
  for (int i = 0; i < size; i++)
    for (int k = 0; k < (plot ? 3 : 1); k++) {
      int j = plot ? 3 * i + k : i;
      double e = plot && k != 1 ? 0 : lg ? std::log(o.p[first + i]) : o.p[first + i];
      CHECK(x[j] == lo + i, "value " << j << " of the support of " << c.desc.str() << " is " << x[j]);
      if (!std::isinf(e) && (!lg || o.p[first + i] > 1e-200 || (plot && k != 1)))
        CHECK(close(y[j], e, 1e-7, 1e-7), "probability at value " << x[j] << " of the support of " << c.desc.str() << " is " << y[j] << " instead of " << e);
    }
  CHECK(x[N] == -7 && y[N] == -7, "more values are written than asked");
  CHECK(throws([&] { d->GetPmfSupport(x.data(), y.data(), lg, 0, plot, lo); }) && throws([&] { d->GetPmfSupportSize(NAN, 1); }), "an invalid support is accepted");
  c.nontrivial(size >= 3);
}

// ---- generalized lambda distribution ----
static double gld_shape(Src &s, double lo) { return s.chance(1, 5) ? 0 : s.chance(1, 6) ? s.pick<double>({0.25, 0.5, 1, 2}) : s.unif(lo, 3); }
FACET(gld, "the two shapes differ", 3000) {
  double l1 = s.num(), l2 = s.unif(0.1, 5);
  bool inf = s.chance(1, 8);
  double l3 = gld_shape(s, -0.24), l4 = s.chance(1, 6) ? l3 : gld_shape(s, -0.24);
  int which = -1;
  if (inf)
    which = s.draw(2), (which ? l4 : l3) = INF;
  D d = make(T::kGldFkml, l1, l2, l3, l4);
  c.desc << "gld(" << l1 << "," << l2 << "," << l3 << "," << l4 << ")";
  // Q(p) = L1 + (g(p,L3) - g(1-p,L4))/L2, g(p,L) = (p^L-1)/L
  auto g = [](double p, double L) { return std::isinf(L) ? 0.0 : L == 0 ? std::log(p) : (std::pow(p, L) - 1) / L; };
  auto dg = [](double p, double L) { return std::isinf(L) ? 0.0 : std::pow(p, L - 1); };
  CHECK(d->IsQuantile() && !d->IsDiscrete(), "type");
  double prev = -INF;
  std::vector<double> ps{gen_p(s), gen_p(s), gen_p(s)};
  std::sort(ps.begin(), ps.end());
  for (double p : ps) {
    double e = l1 + (g(p, l3) - g(1 - p, l4)) / l2, q = d->GetQuantile(p), dq = d->GetDensityQuantile(p), ed = l2 / (dg(p, l3) + dg(1 - p, l4));
    CHECK(close(q, e, 1e-9, 1e-9), "quantile of " << c.desc.str() << " at " << p << " is " << q << " instead of " << e);
    CHECK(close(dq, ed, 1e-9, 1e-12), "density of " << c.desc.str() << " at " << p << " is " << dq << " instead of " << ed);
    CHECK(q >= prev, "the quantile decreases");
    prev = q;
  }
  double lo = l3 > 0 ? l1 - (std::isinf(l3) ? 0 : 1 / (l2 * l3)) : -INF, hi = l4 > 0 ? l1 + (std::isinf(l4) ? 0 : 1 / (l2 * l4)) : INF;
  CHECK(close(d->GetMinimum(), lo) && close(d->GetMaximum(), hi) && close(d->GetQuantile(0), lo) && close(d->GetQuantile(1), hi), "the support of " << c.desc.str() << " is [" << d->GetMinimum() << "," << d->GetMaximum() << "] instead of [" << lo << "," << hi << "]");
  c.nontrivial(l3 != l4);
  if (inf || std::min(l3 == 0 ? 1 : std::fabs(l3), l4 == 0 ? 1 : std::fabs(l4)) < 0.02) // closed forms lose digits near zero
    return;
  // moments by integrating over the quantile function; u = log(p/(1-p)) on both sides
  auto integrate = [&](std::function<double(double)> h) {
    auto f = [&](double u) {
      double p = u < 0 ? std::exp(u) / (1 + std::exp(u)) : 1 / (1 + std::exp(-u)), r = u < 0 ? 1 / (1 + std::exp(u)) : std::exp(-u) / (1 + std::exp(-u));
      return h(g(p, l3) - g(r, l4)) * p * r;
    };
    double t = 0;
    for (int i = -26; i < 26; i++) // e^-260 is enough for all weights
      t += bm::quadrature::gauss<double, 30>::integrate(f, i * 10.0, (i + 1) * 10.0);
    return t;
  };
  auto cheap = [&](std::function<double(double)> h) {
    double t = 0;
    auto f = [&](double u) {
      double p = u < 0 ? std::exp(u) / (1 + std::exp(u)) : 1 / (1 + std::exp(-u)), r = u < 0 ? 1 / (1 + std::exp(u)) : std::exp(-u) / (1 + std::exp(-u));
      return h(g(p, l3) - g(r, l4)) * p * r;
    };
    for (int i = -20; i < 20; i++)
      t += bm::quadrature::gauss<double, 30>::integrate(f, i * 2.0, (i + 1) * 2.0);
    return t;
  };
  bool heavy = std::min(l3, l4) < 0;
  auto in = [&](std::function<double(double)> h) { return heavy ? integrate(h) : cheap(h); };
  (void)cheap;
  double m = in([](double z) { return z; }), v = in([&](double z) { return (z - m) * (z - m); });
  auto ck = [&](const char *w, double got, double exp, double tol) { CHECK(close(got, exp, tol, tol), w << " of " << c.desc.str() << " is " << got << " instead of " << exp); };
  ck("mean", d->GetMean(), l1 + m / l2, 1e-6);
  ck("variance", d->GetVariance() * l2 * l2, v, 1e-6);
  ck("standard deviation", d->GetSandardDeviation(), std::sqrt(v) / l2, 1e-6);
  if (std::min(l3, l4) > -0.3)
    ck("skewness", d->GetSkewness(), in([&](double z) { return std::pow(z - m, 3); }) / std::pow(v, 1.5), 1e-5);
  if (std::min(l3, l4) > -0.2)
    ck("kurtosis", d->GetKurtosis(), in([&](double z) { return std::pow(z - m, 4); }) / v / v - 3, 1e-4);
  double M[4];
  DistributionGld::GetMs(l3, l4, M[0], M[1], M[2], M[3]);
  for (int k = 1; k <= 4; k++)
    ck("GetMs", M[k - 1], DistributionGld::GetMk(k, l3, l4), 1e-9);
}

// ---- sampling ----
static double ks(std::vector<double> x, const std::function<double(double)> &F, const std::function<double(double)> &Fl) {
  std::sort(x.begin(), x.end());
  double D = 0;
  size_t n = x.size();
  for (size_t i = 0; i < n;) {
    size_t j = i;
    while (j < n && x[j] == x[i])
      j++;
    D = std::max(D, std::max(std::fabs(j / (double)n - F(x[i])), std::fabs(i / (double)n - Fl(x[i]))));
    i = j;
  }
  return D * std::sqrt((double)n);
}
static const double KS = 3.3; // exceeded with probability 2 exp(-2*3.3^2) = 7e-10
FACET(samples, "always", 1200) {
  const int N = 1500;
  std::vector<double> x(N), y(N), z(N);
  unsigned seed = 1 + s.draw(100000);
  D d;
  std::function<double(double)> F, Fl;
  int kind = s.draw(12);
  if (kind < 7) {
    auto o = gen_con(s);
    if (o.t == T::kBeta)
      throw pbt::Discard(); // sampling is not implemented
    d = make(o.t, o.a, o.b);
    c.desc << o.name << "(" << o.a << "," << o.b << ")";
    F = Fl = [o](double v) { return v <= o.r.lo ? 0.0 : v >= o.r.hi ? 1.0 : o.r.cdf(v); };
    c.label(o.name);
  } else if (kind < 11) {
    auto o = gen_dis(s);
    d = make(o.t, o.a, o.b);
    c.desc << o.name << "(" << o.a << "," << o.b << ")";
    std::vector<double> cum(o.p.size());
    double t = 0;
    for (size_t i = 0; i < cum.size(); i++)
      cum[i] = t += o.p[i];
    long lo = o.lo;
    F = [cum, lo](double v) { double k = std::floor(v) - lo; return k < 0 ? 0.0 : k >= cum.size() ? 1.0 : cum[(size_t)k]; };
    Fl = [F](double v) { return F(v - 1); };
    c.label(o.name);
  } else {
    double l1 = s.norm(), l2 = s.unif(0.2, 3), l3 = gld_shape(s, -0.5), l4 = gld_shape(s, -0.5);
    d = make(T::kGldFkml, l1, l2, l3, l4);
    c.desc << "gld(" << l1 << "," << l2 << "," << l3 << "," << l4 << ")";
    DistributionBase *pd = d.get();
    F = Fl = [pd](double v) {
      double a = 0, b = 1;
      for (int i = 0; i < 60; i++) {
        double m = (a + b) / 2;
        (pd->GetQuantile(m) < v ? a : b) = m;
      }
      return (a + b) / 2;
    };
    c.label("gld");
  }
  c.nontrivial();
  d->GetSample(x.data(), N, seed);
  d->GetSample(y.data(), N, seed);
  CHECK(x == y, "the same seed gives other samples of " << c.desc.str());
  d->GetSample(z.data(), N, seed + 1);
  std::mt19937 e(seed);
  for (auto &v : y)
    v = d->GetSample1(e);
  double k1 = ks(x, F, Fl), k2 = ks(y, F, Fl), k3 = ks(z, F, Fl);
  CHECK(k1 < KS && k3 < KS, "samples of " << c.desc.str() << " with seed " << seed << " do not follow the distribution (Kolmogorov-Smirnov " << k1 << ", " << k3 << ")");
  CHECK(k2 < KS, "single samples of " << c.desc.str() << " with seed " << seed << " do not follow the distribution (Kolmogorov-Smirnov " << k2 << ")");
}

// ---- mixtures ----
FACET(mixtures, "at least two different parts", 1500) {
  int n = s.range(1, 4), mode = s.draw(4); // 0: continuous, 1: discrete, 2: both, 3: normals
  std::vector<D> own;
  std::vector<DistributionBase *> ds;
  std::vector<double> w;
  double W = 0;
  std::vector<std::function<double(double)>> cdfs;
  bool allc = true, alld = true;
  for (int i = 0; i < n; i++) {
    bool con = mode == 0 || mode == 3 || (mode == 2 && s.coin());
    if (mode == 3)
      own.push_back(make(T::kNormal, s.num(), s.unif(0.05, 4))), c.desc << "normal";
    else if (con) {
      auto o = gen_con(s);
      own.push_back(make(o.t, o.a, o.b));
      c.desc << o.name;
    } else {
      auto o = gen_dis(s);
      own.push_back(make(o.t, o.a, o.b));
      c.desc << o.name;
    }
    (con ? alld : allc) = false;
    ds.push_back(own.back().get());
    w.push_back(s.coin() ? s.range(1, 5) : s.unif(0.05, 3));
    W += w.back();
    c.desc << "(" << ds[i]->GetParam1() << "," << ds[i]->GetParam2() << ")*" << w[i] << " ";
  }
  DistributionMixture mx(w, ds);
  CHECK(mx.pType == (allc ? DistributionMixtureType::kContinuous : alld ? DistributionMixtureType::kDiscrete : DistributionMixtureType::kBoth), "type of the mixture");
  auto avg = [&](std::function<double(DistributionBase *)> f) {
    double t = 0;
    for (int i = 0; i < n; i++)
      t += w[i] / W * f(ds[i]);
    return t;
  };
  double lo = INF, hi = -INF;
  for (auto d : ds)
    lo = std::min(lo, d->GetMinimum()), hi = std::max(hi, d->GetMaximum());
  CHECK(mx.GetMinimum() == lo && mx.GetMaximum() == hi, "the support of the mixture is [" << mx.GetMinimum() << "," << mx.GetMaximum() << "] instead of [" << lo << "," << hi << "]");
  for (int rep = 0; rep < 3; rep++) {
    double x = ds[s.draw(n)]->GetQuantile(gen_p(s));
    if (!allc && s.coin())
      x = std::floor(x);
    double e = avg([&](DistributionBase *d) { return d->GetCdf(x); });
    CHECK(close(mx.GetCdf(x), e, 1e-9, 1e-12), "distribution function of the mixture at " << x << " is " << mx.GetCdf(x) << " instead of " << e);
    if (!allc && !alld) {
      CHECK(throws([&] { mx.GetPdfOrPmf(x); }), "a mixture of both types has a density");
      continue;
    }
    e = avg([&](DistributionBase *d) { return d->GetPdfOrPmf(x); });
    if (!std::isfinite(e))
      continue;
    CHECK(close(mx.GetPdfOrPmf(x), e, 1e-9, 1e-300) && close(mx.GetPdfOrPmfLog(x), std::log(e), 1e-9, 1e-9), "density of the mixture at " << x << " is " << mx.GetPdfOrPmf(x) << " instead of " << e);
  }
  // moments
  double m, v, sk, ku, m2, v2;
  mx.GetMoments(m, v, sk, ku);
  mx.GetMoments(m2, v2);
  bool fin = true;
  for (auto d : ds)
    fin = fin && std::isfinite(d->GetKurtosis()) && std::isfinite(d->GetSkewness()) && std::isfinite(d->GetVariance()) && d->GetVariance() > 0;
  if (fin) {
    double em = avg([&](DistributionBase *d) { return d->GetMean(); });
    auto cm = [&](int k) {
      return avg([&](DistributionBase *d) {
        double dl = d->GetMean() - em, V = d->GetVariance(), s3 = d->GetSkewness() * std::pow(V, 1.5), s4 = (d->GetKurtosis() + 3) * V * V;
        return k == 2 ? V + dl * dl : k == 3 ? s3 + 3 * V * dl + dl * dl * dl : s4 + 4 * s3 * dl + 6 * V * dl * dl + std::pow(dl, 4);
      });
    };
    double ev = cm(2);
    if (ev > 1e-7 * (em * em + 1e-9)) { // the variance is a difference of raw moments
      auto ck = [&](const char *what, double got, double exp, double tol) { CHECK(close(got, exp, tol, tol), what << " of the mixture is " << got << " instead of " << exp); };
      ck("mean", m, em, 1e-9);
      ck("variance", v, ev, 1e-6);
      ck("skewness", sk, cm(3) / std::pow(ev, 1.5), 1e-5);
      ck("kurtosis", ku, cm(4) / ev / ev - 3, 1e-5);
      ck("mean (two moments)", m2, em, 1e-9);
      ck("variance (two moments)", v2, ev, 1e-6);
      if (mode == 3) {
        double a, b, cc, dd;
        mx.GetMomentsNormal(a, b, cc, dd);
        ck("mean (normals)", a, em, 1e-9);
        ck("variance (normals)", b, ev, 1e-6);
        ck("skewness (normals)", cc, cm(3) / std::pow(ev, 1.5), 1e-5);
        ck("kurtosis (normals)", dd, cm(4) / ev / ev - 3, 1e-5);
      }
    }
  }
  if (alld) {
    double a = std::isinf(lo) ? -5 : lo, b = std::isinf(hi) ? lo + s.range(1, 30) : hi;
    double ra = a - s.range(0, 2), rb = std::isinf(hi) ? b : b + s.range(0, 2);
    int size = mx.GetPmfSupportSize(ra, rb);
    CHECK(ra == a && rb == b && size == (int)(b - a) + 1, "the support of the mixture has " << size << " values on [" << ra << "," << rb << "] instead of [" << a << "," << b << "]");
    std::vector<double> x(size + 1, -7777), y(size + 1, -7777);
    mx.GetPmfSupport(x.data(), y.data(), false, size, false, ra, rb);
    for (int i = 0; i < size; i++)
      CHECK(x[i] == a + i && close(y[i], avg([&](DistributionBase *d) { return d->GetPdfOrPmf(a + i); }), 1e-9, 1e-300), "value " << i << " of the support of the mixture is " << x[i] << " with probability " << y[i]);
    CHECK(x[size] == -7777, "more values are written than asked");
  }
  bool beta = false;
  for (int i = 0; i < n; i++)
    beta = beta || dynamic_cast<Distribution<T::kBeta> *>(ds[i]);
  if (!beta && s.chance(1, 4)) {
    const int N = 1500;
    std::vector<double> x(N), y(N);
    unsigned seed = 1 + s.draw(100000);
    mx.GetSample(x.data(), N, seed);
    mx.GetSample(y.data(), N, seed);
    CHECK(x == y, "the same seed gives other samples of the mixture");
    auto F = [&](double v) { return avg([&](DistributionBase *d) { return d->GetCdf(v); }); };
    auto Fl = [&](double v) { return avg([&](DistributionBase *d) { return d->GetCdf(v) - (d->IsDiscrete() ? d->GetPdfOrPmf(v) : 0); }); };
    double k = ks(x, F, Fl);
    CHECK(k < KS, "samples of the mixture with seed " << seed << " do not follow it (Kolmogorov-Smirnov " << k << ")");
    c.label("sampled");
  }
  auto bad = w;
  bad[s.draw(n)] = s.pick<double>({0, -1});
  CHECK(throws([&] { DistributionMixture q(bad, ds); }), "an invalid weight is accepted");
  bad = w;
  bad.push_back(1);
  CHECK(throws([&] { DistributionMixture q(bad, ds); }), "more weights than distributions are accepted");
  c.nontrivial(n >= 2);
}

// ---- a distribution given by 103 quantiles ----
static std::vector<double> probs103() {
  std::vector<double> p{0.0001, 0.001};
  for (int i = 1; i <= 99; i++)
    p.push_back(i / 100.0);
  p.push_back(0.999), p.push_back(0.9999);
  return p;
}
static std::vector<double> gen103(Src &s) {
  auto p = probs103();
  std::vector<double> q(103);
  if (s.coin()) {
    double m = s.norm() * 3, sd = s.unif(0.2, 4);
    for (int i = 0; i < 103; i++)
      q[i] = m + sd * bm::quantile(bm::normal(), p[i]);
  } else {
    q[0] = s.norm() * 5;
    for (int i = 1; i < 103; i++)
      q[i] = q[i - 1] + s.unif(0.01, 0.3) * (s.chance(1, 10) ? 8 : 1);
  }
  return q;
}
FACET(quantiles103, "at least one probability between the knots", 3000) {
  auto p = probs103();
  auto q = gen103(s);
  DistributionEmpirical103 d(q.data());
  c.desc << "quantiles from " << q[0] << " to " << q[102];
  CHECK(d.GetQuantileApprox(0) == -INF && d.GetQuantileApprox(1) == INF && d.GetCDFApprox(-INF) == 0 && d.GetCDFApprox(INF) == 1, "values at infinity");
  for (int rep = 0; rep < 6; rep++) {
    int i = s.draw(103);
    double pr = s.chance(1, 4) ? p[i] : i < 102 ? p[i] + (p[i + 1] - p[i]) * s.unif() : s.unif(0.9999, 1);
    // linear between the knots, and the first and last slopes outside of them
    int k = 0;
    while (k < 101 && pr >= p[k + 1])
      k++;
    double e = q[k] + (pr - p[k]) / (p[k + 1] - p[k]) * (q[k + 1] - q[k]);
    double got = d.GetQuantileApprox(pr);
    CHECK(close(got, e, 1e-9, 1e-9), "quantile at " << pr << " is " << got << " instead of " << e);
    double x = e, F = d.GetCDFApprox(x);
    CHECK(close(F, pr, 1e-8, 1e-10), "distribution function at " << x << " is " << F << " instead of " << pr);
    c.nontrivial(pr != p[k]);
  }
}
FACET(combined103, "at least two different distributions", 400) {
  auto p = probs103();
  int n = s.range(1, 4);
  std::vector<std::vector<double>> q;
  std::vector<DistributionEmpirical103> ds;
  std::vector<double> w;
  double W = 0;
  for (int i = 0; i < n; i++)
    q.push_back(gen103(s)), w.push_back(s.unif(0.1, 2)), W += w.back();
  for (auto &v : q)
    ds.push_back(DistributionEmpirical103(v.data()));
  for (auto &v : w)
    v /= W;
  bool eq = s.coin();
  if (eq)
    for (auto &v : w)
      v = 1.0 / n;
  std::vector<double> r(104, -7777);
  c.desc << n << " distributions"; for (auto &v : q) c.desc << " [" << v[0] << "," << v[1] << "," << v[2] << " .. " << v[100] << "," << v[101] << "," << v[102] << "]";
  DistributionEmpirical103::Combine(ds, eq ? nullptr : w.data(), r.data());
  CHECK(r[103] == -7777, "more values are written than there are quantiles");
  for (int i = 0; i < 103; i++) {
    double F = 0;
    for (int j = 0; j < n; j++)
      F += w[j] * ds[j].GetCDFApprox(r[i]);
    CHECK(std::fabs(F - p[i]) < 1e-4 || (n == 1 && r[i] == q[0][i]), "quantile " << p[i] << " of the combination is " << r[i] << ", where the average distribution function is " << F);
    CHECK(i == 0 || r[i] >= r[i - 1], "the quantiles of the combination decrease");
  }
  CHECK(throws([&] { std::vector<DistributionEmpirical103> e; DistributionEmpirical103::Combine(e, nullptr, r.data()); }), "an empty list is accepted");
  c.nontrivial(n >= 2);
}
FACET(rejected, "always", 1500) {
  double neg = -s.unif(0.01, 5), z = s.pick<double>({0, neg}), ok = s.unif(0.1, 5), out = s.pick<double>({neg, 1 + ok});
  struct {
    T t;
    double a, b;
  } bad[] = {{T::kNormal, neg, neg}, {T::kLogNormal, ok, neg}, {T::kT, z, ok}, {T::kChi2, z, 0}, {T::kUniformCon, ok, neg}, {T::kExponential, z, 0}, {T::kF, z, ok}, {T::kF, ok, z}, {T::kGamma, z, ok}, {T::kGamma, ok, z}, {T::kBeta, z, ok}, {T::kBeta, ok, z}, {T::kGldFkml, ok, z}, {T::kUniformDis, 3, 1}, {T::kPoisson, neg, 0}, {T::kGeometric, out, 0}, {T::kBernoulli, out, 0}, {T::kBinomial, out, 3}, {T::kBinomial, 0.5, -1}, {T::kNone, 1, 1}};
  auto &b = bad[s.draw(sizeof(bad) / sizeof(bad[0]))];
  c.desc << "type '" << (char)b.t << "' with " << b.a << ", " << b.b;
  CHECK(throws([&] { make(b.t, b.a, b.b, 1, 1); }), "invalid parameters are accepted: " << c.desc.str());
  c.nontrivial();
}
