// C14: principal components
#include "mat.h"
#include "pca.h"
using namespace ldt;
typedef Matrix<double> Mx;
static M gen_data(Src &s, int r, int k) {
  M x(r, k);
  int common = s.range(0, 2);
  std::vector<double> f(r);
  for (auto &v : f)
    v = s.norm();
  for (int j = 0; j < k; j++) {
    double off = s.pick<double>({0, 0, 3, -40}), sc = s.pick<double>({1, 1, 0.2, 10}), ld = common ? s.norm() * common : 0;
    for (int i = 0; i < r; i++)
      x(i, j) = off + sc * (s.norm() + ld * f[i]);
  }
  return x;
}
// standardise by hand; drop holds the constant columns
static M standard(const M &x, bool center, bool scale, const std::vector<int> &drop, M *mean = nullptr, M *sd = nullptr) {
  M z = x;
  M mu(x.c, 1), sg(x.c, 1, 1);
  for (int j = 0; j < x.c; j++) {
    long double m = 0, v = 0;
    for (int i = 0; i < x.r; i++)
      m += x(i, j);
    m /= x.r;
    for (int i = 0; i < x.r; i++)
      v += (x(i, j) - m) * (x(i, j) - m);
    if (center)
      mu.p[j] = (double)m;
    if (scale)
      sg.p[j] = (double)sqrtl(v / (x.r - 1));
  }
  if (mean)
    *mean = mu;
  if (sd)
    *sd = sg;
  M o(x.r, x.c - (int)drop.size());
  int q = 0;
  for (int j = 0; j < x.c; j++) {
    if (std::find(drop.begin(), drop.end(), j) != drop.end())
      continue;
    for (int i = 0; i < x.r; i++)
      o(i, q) = (x(i, j) - mu.p[j]) / sg.p[j];
    q++;
  }
  return o;
}
static M standard_with(const M &x, const M &mu, const M &sg, const std::vector<int> &drop) {
  M o(x.r, x.c - (int)drop.size());
  int q = 0;
  for (int j = 0; j < x.c; j++) {
    if (std::find(drop.begin(), drop.end(), j) != drop.end())
      continue;
    for (int i = 0; i < x.r; i++)
      o(i, q) = (x(i, j) - mu.p[j]) / sg.p[j];
    q++;
  }
  return o;
}
// everything that makes D (by rows), the components and the standard deviations a principal component analysis of Z
static void check_pca(const M &Z, const PcaAnalysis &p, bool pcs) {
  int n = Z.r, k = Z.c, mn = std::min(n, k);
  M D = from(p.Directions);
  CHECK(D.r == k && D.c == k, "dimension of the directions " << D.str());
  CHECK(p.Stds.length() == mn && p.Stds2Ratios.length() == mn, "number of standard deviations " << p.Stds.length());
  double sc = std::max(Z.maxabs(), 1e-3) * std::sqrt((double)std::max(n, k));
  for (int a = 0; a < mn; a++)
    for (int b = 0; b <= a; b++) {
      double t = 0;
      for (int j = 0; j < k; j++)
        t += D(a, j) * D(b, j);
      CHECK(close(t, a == b, 0, 1e-8), "the product of directions " << a << " and " << b << " is " << t);
    }
  M C(n, mn); // Z times the directions
  for (int i = 0; i < n; i++)
    for (int a = 0; a < mn; a++)
      for (int j = 0; j < k; j++)
        C(i, a) += Z(i, j) * D(a, j);
  long double tot = 0, totz = 0;
  for (int a = 0; a < mn; a++) {
    for (int b = 0; b <= a; b++) {
      double t = 0;
      for (int i = 0; i < n; i++)
        t += C(i, a) * C(i, b);
      double e = a == b ? p.Stds.Data[a] * p.Stds.Data[a] * (n - 1) : 0;
      CHECK(close(t, e, 1e-8, 1e-9 * sc * sc * n), "the cross product of components " << a << " and " << b << " is " << t << " instead of " << e);
    }
    CHECK(p.Stds.Data[a] >= 0 && (a == 0 || p.Stds.Data[a] <= p.Stds.Data[a - 1] * (1 + 1e-12)), "the standard deviations are not decreasing");
    tot += (long double)p.Stds.Data[a] * p.Stds.Data[a];
  }
  for (int i = 0; i < Z.n(); i++)
    totz += (long double)Z.p[i] * Z.p[i] / (n - 1);
  CHECK(close((double)tot, (double)totz, 1e-8, 1e-12), "the variances add up to " << (double)tot << " instead of " << (double)totz);
  for (int a = 0; a < mn; a++)
    CHECK(close(p.Stds2Ratios.Data[a], (double)(p.Stds.Data[a] * p.Stds.Data[a] / tot), 1e-8, 1e-12), "the share of component " << a << " is " << p.Stds2Ratios.Data[a]);
  if (pcs) {
    CHECK(p.PCs.RowsCount == n && p.PCs.ColsCount == k, "dimension of the components");
    for (int i = 0; i < n; i++)
      for (int a = 0; a < mn; a++)
        CHECK(close(p.PCs.Get(i, a), C(i, a), 1e-8, 1e-9 * sc), "component " << a << " of row " << i << " is " << p.PCs.Get(i, a) << " instead of " << C(i, a));
  }
}
FACET(analysis, "at least three columns, not fewer rows than columns", 1500) {
  int k = s.range(1, 5), r = s.chance(1, 5) ? s.range(2, k + 1) : s.range(k + 2, 14), nf = s.range(0, 3);
  bool center = s.chance(3, 4), scale = s.chance(3, 4), zero = s.coin(), pcs = s.chance(4, 5);
  M x = gen_data(s, r, k), fx = gen_data(s, std::max(nf, 1), k);
  std::vector<int> drop;
  if (k > 1 && s.chance(1, 3)) {
    int j = s.range(0, k - 1);
    if (scale && zero) {
      double v = s.pick<double>({0, 1, 0.1, -7});
      for (int i = 0; i < r; i++)
        x(i, j) = v;
      drop.push_back(j);
      c.label("a constant column");
    }
  }
  c.desc << "x=" << x.str() << " new rows=" << (nf ? fx.str() : "none") << " center=" << center << " scale=" << scale << " drop constant=" << zero;
  PcaAnalysis p(r + s.range(0, 1), k + s.range(0, 1), nf, pcs, zero, center, scale);
  auto w = buf(s, p.WorkSize), st = buf(s, p.StorageSize);
  auto fv = fx.v();
  M keep = x;
  p.Calculate(x.v(), w.get(), st.get(), nf ? &fv : nullptr);
  same_mat(x, keep, "the data after the call");
  M mu, sg, Z = standard(x, center, scale, drop, &mu, &sg);
  check_pca(Z, p, pcs);
  int mn = std::min(Z.r, Z.c);
  if (nf) {
    M zf = standard_with(fx, mu, sg, drop);
    for (int i = 0; i < nf; i++)
      for (int a = 0; a < mn; a++) {
        double e = 0, ab = 1;
        for (int j = 0; j < Z.c; j++)
          e += zf(i, j) * p.Directions.Get(a, j), ab += std::fabs(zf(i, j));
        CHECK(close(p.Forecasts.Get(i, a), e, 1e-8, 1e-9 * ab), "component " << a << " of new row " << i << " is " << p.Forecasts.Get(i, a) << " instead of " << e);
      }
  }
  // the number of components which explain a share
  double rate = s.unif(0.05, 0.99);
  double cum = 0;
  int want = 0;
  bool near = false;
  for (int a = 0; a < mn; a++) {
    double q = cum + p.Stds2Ratios.Data[a];
    near = near || std::fabs(q - rate) < 1e-9;
    want = a + 1;
    cum = q;
    if (cum > rate)
      break;
  }
  if (!near)
    CHECK(p.GetCutoffColumn(rate) == want, p.GetCutoffColumn(rate) << " components for a share of " << rate << " instead of " << want);
  c.nontrivial(Z.c >= 3 && r >= k);
  if (r < Z.c)
    c.label("fewer rows than columns");
}
FACET(for_model, "at least two columns replaced by fewer components", 1200) {
  int ign = s.range(0, 2), k = s.range(1, 4), r = s.range(k + 2, 14), nf = s.range(0, 3);
  M x = gen_data(s, r, ign + k), fx = gen_data(s, std::max(nf, 1), ign + k);
  if (ign && s.coin())
    for (int i = 0; i < r; i++)
      x(i, 0) = 1;
  PcaAnalysisOptions o;
  o.IgnoreFirstCount = ign;
  bool exact = s.coin();
  if (exact)
    o.ExactCount = s.range(1, k);
  else {
    o.CutoffRate = s.unif(0.1, 0.98);
    if (s.coin())
      o.CutoffCountMax = s.range(1, k);
  }
  c.desc << "x=" << x.str() << " new rows=" << (nf ? fx.str() : "none") << " ignore=" << ign << " exact=" << o.ExactCount << " rate=" << o.CutoffRate << " max=" << o.CutoffCountMax;
  o.CheckValidity();
  CHECK(o.IsEnabled(), "the analysis is not enabled");
  M orig = x, forig = fx, Xp(r, k), Fp(fx.r, k);
  for (int j = 0; j < k; j++) {
    for (int i = 0; i < r; i++)
      Xp(i, j) = x(i, ign + j);
    for (int i = 0; i < fx.r; i++)
      Fp(i, j) = fx(i, ign + j);
  }
  PcaAnalysis p(r, k, nf, true, true, true, true);
  auto w = buf(s, p.WorkSize), st = buf(s, p.StorageSize);
  auto xv = x.v(), fv = fx.v();
  o.CalculateForModel(p, xv, w.get(), st.get(), nf ? &fv : nullptr);
  M mu, sg, Z = standard(Xp, true, true, {}, &mu, &sg);
  check_pca(Z, p, false);
  double cum = 0;
  int want = 0;
  bool near = false;
  for (int a = 0; a < k; a++) {
    cum += p.Stds2Ratios.Data[a];
    near = near || std::fabs(cum - o.CutoffRate) < 1e-9;
    want = a + 1;
    if (cum > o.CutoffRate)
      break;
  }
  want = exact ? o.ExactCount : std::min(want, (int)o.CutoffCountMax);
  if (near)
    throw pbt::Discard();
  CHECK(xv.RowsCount == r && xv.ColsCount == ign + want, "the data become " << xv.RowsCount << "x" << xv.ColsCount << " instead of " << r << "x" << ign + want);
  M zf = standard_with(Fp, mu, sg, {});
  for (int part = 0; part < 1 + (nf > 0); part++) {
    auto &v = part ? fv : xv;
    const M &before = part ? forig : orig, &z = part ? zf : Z;
    const char *nm = part ? "new row " : "row ";
    if (part)
      CHECK(fv.RowsCount == nf && fv.ColsCount == ign + want, "the new rows become " << fv.RowsCount << "x" << fv.ColsCount);
    for (int i = 0; i < v.RowsCount; i++) {
      for (int j = 0; j < ign; j++)
        CHECK(v.Get(i, j) == before(i, j), "ignored column " << j << " of " << nm << i << " changes from " << before(i, j) << " to " << v.Get(i, j));
      for (int a = 0; a < want; a++) {
        double e = 0, ab = 1;
        for (int j = 0; j < k; j++)
          e += z(i, j) * p.Directions.Get(a, j), ab += std::fabs(z(i, j));
        CHECK(close(v.Get(i, ign + a), e, 1e-8, 1e-9 * ab), "component " << a << " in " << nm << i << " is " << v.Get(i, ign + a) << " instead of " << e);
      }
    }
  }
  c.nontrivial(k > 1 && want < k);
  c.label(exact ? "exact count" : "share");
}
FACET(invalid, "every case", 400) {
  int k = s.range(1, 3), r = s.range(k + 2, 8);
  M x = gen_data(s, r, k);
  PcaAnalysisOptions o;
  o.IgnoreFirstCount = 0;
  o.ExactCount = 1;
  int what = s.range(0, 5);
  c.desc << "kind " << what << " x=" << x.str();
  PcaAnalysis p(r, k, 1, true, true, true, true);
  auto w = buf(s, p.WorkSize), st = buf(s, p.StorageSize);
  auto xv = x.v();
  if (what == 0)
    o.ExactCount = k + s.range(1, 2); // more components than there are
  else if (what == 1)
    o.IgnoreFirstCount = k + s.range(0, 1);
  else if (what == 2) { // a constant column cannot be scaled
    int j = s.range(0, k - 1);
    for (int i = 0; i < r; i++)
      x(i, j) = 3;
  } else if (what == 3) { // new rows with another number of columns
    M f(1, k + 1);
    auto fv = f.v();
    CHECK(throws([&] { o.CalculateForModel(p, xv, w.get(), st.get(), &fv); }), "new rows with another number of columns are accepted");
    c.nontrivial();
    return;
  } else if (what == 4) {
    o.ExactCount = 0;
    o.CutoffRate = s.pick<double>({1, 1.5, -0.2});
    CHECK(throws([&] { o.CheckValidity(); }), "a share of " << o.CutoffRate << " is accepted");
    o.CutoffRate = 0.5;
    o.CutoffCountMax = 0;
    CHECK(throws([&] { o.CheckValidity(); }), "a maximum of zero components is accepted");
    o.ExactCount = 1;
    o.IgnoreFirstCount = -1;
    CHECK(throws([&] { o.CheckValidity(); }), "a negative number of ignored columns is accepted");
    c.nontrivial();
    return;
  } else {
    M big(r + 1, k);
    CHECK(throws([&] { p.Calculate(gen_data(s, r + 1, k).v(), w.get(), st.get()); }), "more rows than declared are accepted");
    c.nontrivial();
    return;
  }
  CHECK(throws([&] { o.CalculateForModel(p, xv, w.get(), st.get()); }), "invalid options are accepted");
  c.nontrivial();
}
