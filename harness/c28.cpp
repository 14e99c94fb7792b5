// C28: the C interface: frequency handles, texts in caller's buffers, combined variables, distributions, last error
#include "freq_gen.h"
#include "mat.h"
#include "api.h"
#include "distributions.h"
#include "scoring.h"
#include <sanitizer/allocator_interface.h>
using namespace ldt;

static bool same_value(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static std::string last_error() {
  std::unique_ptr<char[]> b(new char[2048]);
  memset(b.get(), '#', 2048);
  LDT_GetLastError(b.get());
  CHECK(memchr(b.get(), 0, 2048), "the error message does not end in a buffer of 2048 characters");
  return b.get();
}
static void ok(const std::string &what) { CHECK(last_error().empty(), what << " failed with '" << last_error() << "'"); }
static void failed(const std::string &what) { CHECK(!last_error().empty(), what << " fails but there is no error message"); }

// both text functions, with every length of a buffer
static void check_text(Src &s, Frequency *f, const std::string &text, const std::string &cls, FrequencyClass k) {
  int need = (int)std::max(text.size(), cls.size()) + 1;
  int len = s.chance(1, 3) ? need : s.chance(1, 3) ? need - 1 : s.range(0, need + 5);
  std::unique_ptr<char[]> a(new char[len]), b(new char[len]);
  memset(a.get(), '#', len), memset(b.get(), '#', len);
  int fc = -77, l = len;
  LDT_FrequencyToString(f, a.get(), b.get(), fc, l);
  ok("writing a frequency");
  if (len < need) {
    CHECK(l == need, "the required length is reported as " << l << " instead of " << need);
    for (int i = 0; i < len; i++)
      CHECK(a[i] == '#' && b[i] == '#', "a short buffer is written");
  } else {
    CHECK(l == len, "the length is changed though the buffer is large enough");
    CHECK(text == a.get(), "the text is '" << a.get() << "' instead of '" << text << "'");
    CHECK(cls == b.get(), "the class text is '" << b.get() << "' instead of '" << cls << "'");
    CHECK(fc == (int)k, "the class is " << fc << " instead of " << (int)k);
  }
  need = (int)text.size() + 1;
  len = s.chance(1, 3) ? need : s.chance(1, 3) ? need - 1 : s.range(0, need + 5);
  a.reset(new char[len]);
  memset(a.get(), '#', len);
  l = len;
  LDT_FrequencyToString0(f, a.get(), l);
  ok("writing a frequency");
  if (len < need) {
    CHECK(l == need, "the required length is reported as " << l << " instead of " << need);
    for (int i = 0; i < len; i++)
      CHECK(a[i] == '#', "a short buffer is written");
  } else
    CHECK(l == len && text == a.get(), "the text is '" << a.get() << "' instead of '" << text << "'");
}
static Frequency *create(const std::string &text, const std::string &cls, FrequencyClass k) {
  int fc = -77;
  auto f = LDT_FrequencyCreate(text.c_str(), cls.c_str(), fc);
  CHECK(f, "creating '" << text << "' of '" << cls << "' failed with '" << last_error() << "'");
  ok("creating a frequency");
  CHECK(fc == (int)k, "the class of '" << cls << "' is " << fc << " instead of " << (int)k);
  return f;
}

FACET(handles, "a handle is copied, and used after the other one is disposed", 9000) {
  auto g = gen_freq(s);
  auto &m = g.m;
  c.label(m.kind);
  c.desc << m.clsDetails << " from " << m.text(0) << ":";
  struct H {
    Frequency *f;
    long long k;
    bool copied;
  };
  std::vector<H> h;
  bool used = false, disposedCopy = false;
  int n = s.range(3, 14);
  for (int step = 0; step < n; step++) {
    int op = h.empty() ? 0 : (int)s.draw(7);
    int i = h.empty() ? 0 : (int)s.draw(h.size());
    if (op == 0) {
      long long k = gen_step(s, m, 0);
      c.desc << " create(" << m.text(k) << ")";
      h.push_back({create(m.text(k), m.clsDetails, g.f->mClass), k, false});
    } else if (op <= 2) {
      c.desc << " copy(" << i << ")";
      auto p = LDT_FrequencyCopy(h[i].f);
      ok("copying");
      CHECK(p && p != h[i].f, "the copy is not a new frequency");
      h[i].copied = true;
      h.push_back({p, h[i].k, true});
    } else if (op == 3) {
      long long st = gen_step(s, m, h[i].k);
      c.desc << " move(" << i << "," << st << ")";
      LDT_FrequencyNext(h[i].f, (int)st);
      ok("moving");
      h[i].k += st;
    } else if (op == 4) {
      int j = (int)s.draw(h.size());
      c.desc << " minus(" << i << "," << j << ")";
      long long d = LDT_FrequencyMinus(h[i].f, h[j].f);
      ok("the distance");
      CHECK(d == h[i].k - h[j].k, "the distance is " << d << " instead of " << h[i].k - h[j].k);
    } else if (op == 5) {
      c.desc << " dispose(" << i << ")";
      disposedCopy |= h[i].copied;
      LDT_DisposeFrequency(h[i].f);
      ok("disposing");
      h.erase(h.begin() + i);
    } else { // a failing call in between
      int fc = 0;
      auto p = LDT_FrequencyCreate("", "@@", fc);
      CHECK(!p, "an invalid class is accepted");
      failed("creating a frequency of an invalid class");
    }
    for (auto &x : h) {
      used |= disposedCopy && x.copied;
      check_text(s, x.f, m.text(x.k), m.clsDetails, g.f->mClass);
    }
  }
  c.nontrivial(used);
  while (!h.empty()) {
    int i = (int)s.draw(h.size());
    LDT_DisposeFrequency(h[i].f);
    ok("disposing");
    h.erase(h.begin() + i);
  }
  LDT_DisposeFrequency(nullptr);
  ok("disposing nothing");
}

FACET(released, "a list, whose items are owned by the handle", 2500) {
  // what the calls allocate is released when the handles are disposed
  auto g = gen_freq(s);
  auto &m = g.m;
  std::string text = m.text(0), cls = m.clsDetails, bad = s.pick<std::string>({"", "x", "10x", text.substr(0, text.size() / 2)});
  std::vector<double> d(4, 1.5), r(8);
  int copies = (int)s.draw(4), fc, n;
  bool failing = s.coin();
  double md;
  c.desc << cls << " " << text << ", copies: " << copies << (failing ? ", and failing calls" : "");
  Frequency *f[6];
  size_t b[3];
  for (int rep = 0; rep < 3; rep++) { // the first one may allocate static things
    b[rep] = __sanitizer_get_current_allocated_bytes();
    int k = 0;
    f[k++] = LDT_FrequencyCreate(text.c_str(), cls.c_str(), fc);
    for (int i = 0; i < copies; i++)
      f[k++] = LDT_FrequencyCopy(f[0]);
    n = 8;
    f[k++] = LDT_VariableCombine(d.data(), 4, f[0], d.data(), 3, f[copies], r.data(), n, md);
    if (failing) {
      LDT_DisposeFrequency(LDT_FrequencyCreate(bad.c_str(), cls.c_str(), fc));
      LDT_DisposeFrequency(LDT_FrequencyCreate(text.c_str(), "@", fc));
      n = 2;
      LDT_VariableCombine(d.data(), 4, f[0], d.data(), 3, f[copies], r.data(), n, md);
    }
    LDT_GetDistributionProperty('n', 'm', 0, failing ? -1 : 1, 0, 0);
    LDT_CombineDistribution103(LDT_CombineDistribution103(nullptr, nullptr, nullptr, nullptr), nullptr, nullptr, nullptr);
    while (k--)
      LDT_DisposeFrequency(f[k]);
  }
  size_t e = __sanitizer_get_current_allocated_bytes();
  CHECK(e <= b[2], e - b[2] << " bytes are not released");
  c.nontrivial(m.list);
  c.label(m.kind);
}

FACET(invalid_text, "the text is rejected", 6000) {
  auto g = gen_freq(s);
  std::string t = g.m.text(0), k = g.m.clsDetails;
  static const std::string al = "0123456789:;|-QqMmyzxdwihosecaLs. mon fri\t~";
  for (auto p : {&t, &k})
    for (int n = s.range(0, 3); n > 0; n--) {
      size_t at = (size_t)s.draw(p->size() + 1);
      if (s.coin() && at < p->size())
        p->erase(at, 1);
      else
        p->insert(at, 1, al[s.draw(al.size())]);
    }
  c.desc << "'" << t << "' of '" << k << "'";
  int fc = -77;
  auto f = LDT_FrequencyCreate(t.c_str(), k.c_str(), fc);
  if (!f) {
    c.nontrivial();
    failed("creating a frequency");
    auto e = last_error();
    CHECK(e == last_error(), "reading the error message changes it");
    c.label("rejected");
  } else {
    ok("creating a frequency");
    c.label("accepted");
    auto text = f->ToString(), cls = f->ToClassString(true);
    CHECK(fc == (int)f->mClass, "class");
    check_text(s, f, text, cls, f->mClass);
    LDT_DisposeFrequency(f);
    ok("disposing");
  }
}

FACET(different_classes, "always", 1500) {
  auto g = gen_freq(s), h = gen_freq(s);
  if (g.f->mClass == h.f->mClass)
    throw pbt::Discard();
  c.nontrivial();
  c.desc << g.m.cls << " and " << h.m.cls;
  auto a = create(g.m.text(0), g.m.clsDetails, g.f->mClass), b = create(h.m.text(0), h.m.clsDetails, h.f->mClass);
  LDT_FrequencyMinus(a, b);
  failed("the distance between two classes");
  double x = 1, y = 2, r[8], d = 7;
  int n = 8;
  auto f = LDT_VariableCombine(&x, 1, a, &y, 1, b, r, n, d);
  CHECK(!f, "variables of two classes are combined");
  failed("combining two classes");
  check_text(s, a, g.m.text(0), g.m.clsDetails, g.f->mClass);
  check_text(s, b, h.m.text(0), h.m.clsDetails, h.f->mClass);
  LDT_DisposeFrequency(b);
  LDT_DisposeFrequency(a);
  ok("disposing");
}

FACET(combine, "both variables have a value at one place", 9000) {
  auto g = gen_freq(s);
  auto &m = g.m;
  c.label(m.kind);
  struct V {
    int k, n, a, b;
    std::unique_ptr<double[]> d;
    Frequency *f;
  } v[2];
  for (int i = 0; i < 2; i++) {
    v[i].k = (int)s.sint(-6, 6), v[i].n = s.range(1, 9);
    v[i].d.reset(new double[v[i].n]);
    int pm = (int)s.pick<int>({0, 1, 1, 4});
    for (int j = 0; j < v[i].n; j++)
      v[i].d[j] = s.chance(pm, 5) ? NAN : s.chance(1, 12) ? 0 : s.num();
    if (i && s.chance(1, 3)) // a revision of the other one
      for (int j = 0; j < v[1].n; j++) {
        int o = v[1].k + j - v[0].k;
        if (o >= 0 && o < v[0].n && s.chance(3, 4))
          v[1].d[j] = v[0].d[o] * (s.coin() ? 1 : s.unif(0.9, 1.1));
      }
    v[i].a = 0, v[i].b = v[i].n;
    while (v[i].a < v[i].n && std::isnan(v[i].d[v[i].a]))
      v[i].a++;
    if (v[i].a == v[i].n)
      v[i].a = 0; // without any value: kept as it is
    else
      while (std::isnan(v[i].d[v[i].b - 1]))
        v[i].b--;
    v[i].f = create(m.text(v[i].k), m.clsDetails, g.f->mClass);
    c.desc << (i ? " and " : m.clsDetails + " ") << m.text(v[i].k) << " " << vec_str(v[i].d.get(), v[i].n);
  }
  int lo = std::min(v[0].k + v[0].a, v[1].k + v[1].a), hi = std::max(v[0].k + v[0].b, v[1].k + v[1].b);
  std::vector<double> e(hi - lo);
  double md = 0;
  bool both = false;
  for (int t = lo; t < hi; t++) {
    double x[2];
    for (int i = 0; i < 2; i++) {
      int j = t - v[i].k;
      x[i] = j < 0 || j >= v[i].n ? NAN : v[i].d[j];
    }
    e[t - lo] = std::isnan(x[1]) ? x[0] : x[1];
    if (!std::isnan(x[0]) && !std::isnan(x[1])) {
      both = true;
      double p = 100 * std::fabs(x[1] - x[0]) / std::fabs(x[0]);
      if (p > md)
        md = p;
    }
  }
  c.nontrivial(both);
  std::vector<double> d0(v[0].d.get(), v[0].d.get() + v[0].n), d1(v[1].d.get(), v[1].d.get() + v[1].n);
  int need = hi - lo, len = s.chance(1, 3) ? need : s.chance(1, 3) ? need - 1 : s.range(0, need + 4), l = len;
  std::unique_ptr<double[]> r(new double[len]);
  std::fill(r.get(), r.get() + len, -7777.0);
  double diff = -5;
  auto f = LDT_VariableCombine(v[0].d.get(), v[0].n, v[0].f, v[1].d.get(), v[1].n, v[1].f, r.get(), l, diff);
  ok("combining");
  CHECK(l == need, "the length is " << l << " instead of " << need);
  if (len < need) {
    CHECK(!f, "a frequency is returned though the buffer is short");
    for (int i = 0; i < len; i++)
      CHECK(r[i] == -7777.0, "a short buffer is written");
    r.reset(new double[l]);
    f = LDT_VariableCombine(v[0].d.get(), v[0].n, v[0].f, v[1].d.get(), v[1].n, v[1].f, r.get(), l, diff);
    ok("combining");
    CHECK(l == need, "the length is changed in the second call");
    len = need;
  }
  CHECK(f, "no frequency is returned");
  for (int i = 0; i < len; i++)
    CHECK(i < need ? same_value(r[i], e[i]) : r[i] == -7777.0, "value " << i << " is " << r[i] << " in " << vec_str(r.get(), need) << " instead of " << vec_str(e));
  CHECK(close(diff, md, 1e-12, 1e-12), "the maximum difference is " << diff << " percent instead of " << md);
  // the arguments are kept
  for (int j = 0; j < v[0].n; j++)
    CHECK(same_value(v[0].d[j], d0[j]), "the first data are changed");
  for (int j = 0; j < v[1].n; j++)
    CHECK(same_value(v[1].d[j], d1[j]), "the second data are changed");
  Frequency *fs[3] = {v[0].f, v[1].f, f};
  int at[3] = {v[0].k, v[1].k, lo};
  for (int i : s.perm(3)) {
    check_text(s, fs[i], m.text(at[i]), m.clsDetails, g.f->mClass);
    LDT_DisposeFrequency(fs[i]);
    ok("disposing");
  }
}

typedef DistributionType T;
static const std::vector<int> TYPES = {(int)T::kNormal, (int)T::kLogNormal, (int)T::kUniformCon, (int)T::kChi2, (int)T::kT, (int)T::kExponential, (int)T::kF, (int)T::kGamma, (int)T::kBeta, (int)T::kGldFkml, (int)T::kUniformDis, (int)T::kBernoulli, (int)T::kPoisson, (int)T::kGeometric, (int)T::kBinomial};
FACET(distribution, "the parameters are valid", 4000) {
  static const std::vector<int> props = {'m', 'v', 's', 'w', 'k', 'n', 'x', 'a', 'o'};
  int t = s.chance(1, 12) ? s.range(0, 127) : s.pick(TYPES), p = s.chance(1, 12) ? s.range(0, 127) : s.pick(props);
  double d[4];
  for (auto &x : d)
    x = s.chance(1, 6) ? s.num() : s.chance(1, 3) ? (double)s.range(1, 9) : s.unif(0.05, t == 'i' || t == 'r' || t == 'a' ? 0.95 : 6);
  if (t == 'u' || t == 'o')
    d[1] += d[0];
  if (t == 'o')
    d[0] = std::floor(d[0]), d[1] = std::floor(d[1]);
  if (t == 'a')
    d[1] = s.range(-1, 30);
  c.desc << "type " << t << " ('" << (char)t << "') property " << p << " ('" << (char)p << "') parameters " << vec_str(d, 4, 17);
  std::unique_ptr<DistributionBase> D;
  try {
    D = DistributionBase::GetDistributionFromType((T)t, d[0], d[1], d[2], d[3]);
  } catch (const std::exception &) {
  }
  bool known = std::find(props.begin(), props.end(), p) != props.end();
  double e = NAN;
  bool thrown = true;
  if (D)
    try {
      e = D->GetProperty((DistributionProperty)p);
      thrown = false;
    } catch (const std::exception &) {
    }
  double got = LDT_GetDistributionProperty(t, p, d[0], d[1], d[2], d[3]);
  if (thrown) {
    CHECK(std::isnan(got), "a property is returned for an invalid request: " << got);
    failed("the property");
  } else {
    CHECK(known, "an unknown property is given");
    ok("the property");
    CHECK(same_value(got, e), "the property is " << got << " instead of " << e);
    // the named function of the class
    double w = p == 'm'   ? D->GetMean()
               : p == 'v' ? D->GetVariance()
               : p == 's' ? D->GetSandardDeviation()
               : p == 'w' ? D->GetSkewness()
               : p == 'k' ? D->GetKurtosis()
               : p == 'n' ? D->GetMinimum()
               : p == 'x' ? D->GetMaximum()
               : p == 'a' ? D->GetMedian()
                          : D->GetMode();
    CHECK(same_value(got, w), "the property is " << got << " instead of " << w);
  }
  int n = s.range(0, 6);
  std::unique_ptr<double[]> pr(new double[n]), q(new double[n]);
  for (int i = 0; i < n; i++)
    pr[i] = s.chance(1, 10) ? s.pick<double>({0, 1}) : s.unif(0.001, 0.999), q[i] = -7777;
  bool qt = !D;
  std::vector<double> eq(n, NAN);
  if (D)
    try {
      for (int i = 0; i < n; i++)
        eq[i] = D->GetQuantile(pr[i]);
    } catch (const std::exception &) {
      qt = true;
    }
  LDT_GetDistributionQuantiles(t, pr.get(), n, q.get(), d[0], d[1], d[2], d[3]);
  if (qt)
    failed("quantiles");
  else {
    ok("quantiles");
    for (int i = 0; i < n; i++)
      CHECK(same_value(q[i], eq[i]), "the quantile at " << pr[i] << " is " << q[i] << " instead of " << eq[i]);
  }
  c.nontrivial(!thrown);
  c.label(thrown ? "rejected" : "valid");
}

FACET(combined_quantiles, "two or more distributions", 120) {
  int n = s.range(0, 3);
  auto dists = LDT_CombineDistribution103(nullptr, nullptr, nullptr, nullptr);
  ok("a new list");
  CHECK(dists && dists->empty(), "the new list is not empty");
  std::vector<std::vector<double>> q(n);
  std::vector<double> w;
  std::vector<DistributionEmpirical103> ds;
  double W = 0;
  for (int i = 0; i < n; i++) {
    double x = 4 * s.norm(), sc = s.unif(0.2, 3);
    for (int j = 0; j < 103; j++)
      q[i].push_back(x), x += sc * s.unif(0.01, 0.1);
    w.push_back(s.unif(0.1, 2)), W += w.back();
  }
  for (auto &x : w)
    x /= W;
  bool eq = s.coin();
  for (int i = 0; i < n; i++) {
    auto r = LDT_CombineDistribution103(dists, q[i].data(), eq ? nullptr : w.data(), nullptr);
    ok("adding to the list");
    CHECK(!r && (int)dists->size() == i + 1, "the list has " << dists->size() << " items after adding " << i + 1);
    ds.push_back(DistributionEmpirical103(q[i].data()));
  }
  c.desc << n << " distributions, equal weights: " << eq;
  std::unique_ptr<double[]> r(new double[103]), e(new double[103]);
  auto copy = q;
  auto z = LDT_CombineDistribution103(dists, nullptr, eq ? nullptr : w.data(), r.get());
  CHECK(!z && (int)dists->size() == n, "the list after the calculation");
  if (n == 0)
    failed("combining nothing");
  else {
    ok("combining");
    DistributionEmpirical103::Combine(ds, eq ? nullptr : w.data(), e.get());
    for (int i = 0; i < 103; i++)
      CHECK(r[i] == e[i], "quantile " << i << " is " << r[i] << " instead of " << e[i]);
    CHECK(q == copy, "the given quantiles are changed");
  }
  LDT_CombineDistribution103(dists, nullptr, nullptr, nullptr);
  ok("disposing the list");
  c.nontrivial(n > 1);
}

FACET(scores_and_error, "always", 3000) {
  double y = s.num(), m = s.norm() * 2, v = std::exp(2 * s.norm());
  c.desc << "y=" << y << " location=" << m << " variance=" << v;
  c.nontrivial();
  bool before = s.coin();
  if (before) {
    LDT_GetLastError_TEST();
    CHECK(last_error() == "LDT ERROR TEST", "the test message is '" << last_error() << "'");
  }
  double a = LDT_GetScoreCrpsNormal(y, m, v), b;
  ok("the score");
  CHECK(same_value(a, Scoring::GetScoreCrpsNormal(y, m, std::sqrt(v))), "the score for the normal distribution is " << a);
  // scale by the standard deviation
  b = LDT_GetScoreCrpsNormal((y - m) / std::sqrt(v), 0, 1) * std::sqrt(v);
  CHECK(close(a, b, 1e-9, 1e-9 * (std::fabs(y) + std::fabs(m) + std::sqrt(v))), "the score is " << a << " but " << b << " after standardizing");
  if (before)
    LDT_GetLastError_TEST();
  a = LDT_GetScoreCrpsLogNormal(y, m, v);
  ok("the score");
  CHECK(same_value(a, Scoring::GetScoreCrpsLogNormal(y, m, std::sqrt(v))), "the score for the log-normal distribution is " << a);
}
