// C13: AUC/ROC, frequency costs, CRPS, and the conversion between metrics and weights
#include "mat.h"
#include "scoring.h"
using namespace ldt;
typedef long double L;
typedef Matrix<double> Mx;
static const double PI = 3.14159265358979323846;

// area under a piecewise linear curve between two abscissas
static double area(const std::vector<std::pair<double, double>> &p, double lo, double hi) {
  L a = 0;
  for (size_t i = 1; i < p.size(); i++) {
    double x0 = p[i - 1].first, x1 = p[i].first, y0 = p[i - 1].second, y1 = p[i].second;
    double l = std::max(x0, lo), h = std::min(x1, hi);
    if (x1 <= x0 || h <= l)
      continue;
    auto at = [&](double x) { return y0 + (y1 - y0) * (x - x0) / (x1 - x0); };
    a += (L)(h - l) * (at(l) + at(h)) / 2;
  }
  return (double)a;
}
template <bool W, bool C> static void roc(Src &s, Ctx &c) {
  int n = s.range(2, s.chance(1, 8) ? 60 : 10);
  int kind = s.range(0, 2);
  M y(n, 1), sc(n, 1), w(n, 1, 1), co(n, 1, 1), cm(2, 2);
  for (int i = 0; i < n; i++) {
    y.p[i] = s.coin();
    sc.p[i] = kind == 0 ? s.range(0, 10) / 10.0 : kind == 1 ? s.unif() : s.range(0, 3) / 4.0 + 1e-7 * s.range(0, 5);
    if (W)
      w.p[i] = s.coin() ? s.range(1, 3) : s.unif(0.1, 3);
    if (C)
      co.p[i] = s.unif(0.5, 5);
  }
  y.p[s.range(0, n - 1)] = 1;
  int z = s.range(0, n - 1);
  bool pos = false;
  y.p[z] = 0;
  for (int i = 0; i < n; i++)
    pos = pos || y.p[i] == 1;
  if (!pos)
    y.p[(z + 1) % n] = 1;
  RocOptions o;
  bool partial = s.chance(1, 3), pess = s.chance(1, 3);
  o.Pessimistic = pess;
  o.NormalizePoints = s.coin();
  if (kind == 2 && s.coin())
    o.Epsilon = 1e-6;
  double lo = 0, hi = 1;
  if (partial) {
    lo = s.range(0, 9) / 10.0;
    hi = lo + (1 - lo) * (s.chance(1, 4) ? 1 : s.unif(0.05, 1));
    hi = std::min(hi, 1.0);
    o.LowerThreshold = lo;
    o.UpperThreshold = hi;
  }
  if (C) { // benefit of a true positive: a x - b, cost of a false positive: d - c x
    cm(0, 0) = s.unif(0, 2);
    cm(0, 1) = -s.unif(0, 2) - 0.01;
    cm(1, 0) = -s.unif(0, 2) - 0.01;
    cm(1, 1) = s.unif(0, 2);
    o.CostMatrix = cm.v();
    if (s.chance(4, 5))
      o.Costs = co.v();
    else
      co = M(n, 1, 1);
  }
  c.desc << "y=" << y.str() << " scores=" << sc.str() << " weights=" << w.str() << " pessimistic=" << pess << " bounds=" << lo << "," << hi << " normalize=" << o.NormalizePoints << " eps=" << o.Epsilon;
  if (C)
    c.desc << " costs=" << co.str() << " cost matrix=" << cm.str();
  // observations in the order of their scores; equal ones form a group
  std::vector<int> ix(n);
  for (int i = 0; i < n; i++)
    ix[i] = i;
  std::stable_sort(ix.begin(), ix.end(), [&](int a, int b) { return sc.p[a] < sc.p[b]; });
  std::vector<int> grp(n);
  double first = sc.p[ix[0]];
  int g = 0;
  bool ties = false;
  for (int k = 0; k < n; k++) {
    if (std::fabs(sc.p[ix[k]] - first) > o.Epsilon)
      first = sc.p[ix[k]], g++;
    else if (k)
      ties = ties || y.p[ix[k]] != y.p[ix[k - 1]];
    grp[ix[k]] = g;
  }
  std::vector<double> v(n);
  L tn = 0, tp = 0, conc = 0;
  for (int i = 0; i < n; i++) {
    v[i] = w.p[i];
    if (C)
      v[i] *= y.p[i] == 0 ? cm(1, 1) - cm(1, 0) * co.p[i] : cm(0, 0) * co.p[i] - cm(0, 1);
    (y.p[i] == 0 ? tn : tp) += v[i];
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (y.p[i] == 1 && y.p[j] == 0)
        conc += (L)v[i] * v[j] * (grp[i] < grp[j] ? 1 : grp[i] == grp[j] && !pess ? 0.5 : 0);
  std::vector<std::pair<double, double>> curve = {{0, 0}}, plain = {{0, 0}};
  L fp = 0, tpp = 0;
  for (int k = 0; k <= g; k++) {
    L f = 0, t = 0;
    for (int i = 0; i < n; i++)
      if (grp[i] == k)
        (y.p[i] == 0 ? f : t) += v[i];
    fp += f;
    if (pess)
      curve.push_back({(double)(fp / tn), (double)(tpp / tp)});
    tpp += t;
    curve.push_back({(double)(fp / tn), (double)(tpp / tp)});
    plain.push_back(curve.back());
  }
  ROC<W, C> r(n);
  auto wv = w.v();
  r.Calculate(y.v(), sc.v(), W ? &wv : nullptr, o);
  double e = partial ? area(curve, lo, hi) / (hi - lo) : (double)(conc / (tn * tp));
  CHECK(close(r.Result, e, 1e-9, 1e-11 / (hi - lo)), "the area is " << r.Result << " instead of " << e);
  // the curve
  bool norm = o.NormalizePoints || partial;
  double sx = norm ? 1 : (double)tn, sy = norm ? 1 : (double)tp;
  auto &P = r.Points;
  CHECK(P.size() >= 2 && std::get<0>(P[0]) == 0 && std::get<1>(P[0]) == 0, "the curve does not start at the origin");
  for (size_t i = 1; i < P.size(); i++)
    CHECK(std::get<0>(P[i]) >= std::get<0>(P[i - 1]) && std::get<1>(P[i]) >= std::get<1>(P[i - 1]), "the curve goes back at point " << i << " (" << std::get<0>(P[i]) << "," << std::get<1>(P[i]) << ")");
  CHECK(close(std::get<0>(P.back()), sx, 1e-9) && close(std::get<1>(P.back()), sy, 1e-9), "the curve ends at " << std::get<0>(P.back()) << "," << std::get<1>(P.back()));
  for (auto &q : plain) {
    bool found = false;
    for (auto &t : P)
      found = found || (close(std::get<0>(t), q.first * sx, 1e-9, 1e-9) && close(std::get<1>(t), q.second * sy, 1e-9, 1e-9));
    CHECK(found, "the curve does not pass through " << q.first * sx << "," << q.second * sy);
  }
  if (pess) {
    std::vector<std::pair<double, double>> pc;
    for (auto &t : P)
      pc.push_back({std::get<0>(t) / sx, std::get<1>(t) / sy});
    double pa = area(pc, 0, 1);
    CHECK(close(pa, (double)(conc / (tn * tp)), 1e-8, 1e-10), "the area of the pessimistic curve is " << pa);
  } else
    CHECK(P.size() == plain.size(), "the curve has " << P.size() << " points instead of " << plain.size());
  if (ties)
    c.label("tied scores of both kinds");
  if (partial)
    c.label("partial");
  if (pess)
    c.label("pessimistic");
  c.nontrivial(g >= 2 && n >= 4);
  if (s.chance(1, 6)) {
    RocOptions b = o;
    int what = s.range(0, 2);
    b.LowerThreshold = what == 0 ? 0.5 : what == 1 ? -0.1 : 0.2;
    b.UpperThreshold = what == 0 ? 0.4 : what == 1 ? 0.5 : 1.1;
    CHECK(throws([&] { r.Calculate(y.v(), sc.v(), W ? &wv : nullptr, b); }), "invalid bounds are accepted");
    if (C) {
      RocOptions d = o;
      M bad = cm;
      int neg = s.range(0, 1);
      if (neg)
        bad(1, 0) = 50, bad(1, 1) = -60;
      else
        bad(0, 0) = -50, bad(0, 1) = 60;
      d.CostMatrix = bad.v();
      CHECK(throws([&] { r.Calculate(y.v(), sc.v(), W ? &wv : nullptr, d); }), "a cost matrix with a negative benefit or cost is accepted");
      d.CostMatrix = Mx();
      CHECK(throws([&] { r.Calculate(y.v(), sc.v(), W ? &wv : nullptr, d); }), "a missing cost matrix is accepted");
    }
  }
}
FACET(auc, "at least three groups of scores and four observations", 2000) { roc<false, false>(s, c); }
FACET(auc_weighted, "at least three groups of scores and four observations", 1200) { roc<true, false>(s, c); }
FACET(auc_cost, "at least three groups of scores and four observations", 1200) { s.coin() ? roc<true, true>(s, c) : roc<false, true>(s, c); }

template <bool W> static void freq(Src &s, Ctx &c) {
  int n = s.range(1, 10), k = s.range(2, 4), m = s.range(1, 3);
  M y(n, 1), p(n, k), w(n, 1, 1);
  for (int i = 0; i < n; i++) {
    y.p[i] = s.chance(1, 10) ? NAN : s.range(0, k - 1);
    double t = 0;
    for (int j = 0; j < k; j++)
      t += p(i, j) = s.chance(1, 8) ? 0 : s.range(1, 10);
    if (t == 0)
      t = p(i, 0) = 1;
    for (int j = 0; j < k; j++)
      p(i, j) /= t;
    if (W)
      w.p[i] = s.unif(0, 3);
  }
  y.p[0] = s.range(0, k - 1);
  if (W)
    w.p[0] = 1;
  std::vector<M> cs;
  std::vector<Mx> cv;
  for (int q = 0; q < m; q++) {
    int r = s.range(2, 4);
    M t(r, k + 1);
    bool last1 = s.chance(3, 4);
    double x = 0;
    for (int i = 0; i < r; i++) {
      x += (1 - x) * (s.coin() ? 0.5 : s.unif(0.05, 0.9));
      t(i, 0) = i == r - 1 && last1 ? 1 : x;
      for (int j = 0; j < k; j++)
        t(i, j + 1) = s.chance(1, 3) ? 0 : s.num();
    }
    cs.push_back(t);
  }
  for (auto &t : cs) {
    cv.push_back(t.v());
    FrequencyCost<W>::Check(t.v(), k);
  }
  c.desc << "y=" << y.str() << " p=" << p.str() << " w=" << w.str();
  for (auto &t : cs)
    c.desc << " cost=" << t.str();
  FrequencyCost<W> f(m + s.range(0, 1));
  auto st = buf(s, f.StorageSize);
  auto wv = w.v();
  f.Calculate(cv, y.v(), p.v(), W ? &wv : nullptr, st.get());
  L avg = 0;
  bool used = false;
  for (int q = 0; q < m; q++) {
    L sum = 0, cnt = 0;
    for (int i = 0; i < n; i++) {
      if (std::isnan(y.p[i]))
        continue;
      int a = (int)y.p[i], r = 0;
      while (r < cs[q].r - 1 && cs[q](r, 0) < p(i, a))
        r++;
      used = used || r > 0;
      sum += (L)w.p[i] * cs[q](r, a + 1);
      cnt += w.p[i];
    }
    CHECK(close(f.CostSums.Data[q], (double)sum, 1e-9, 1e-9), "the total cost of matrix " << q << " is " << f.CostSums.Data[q] << " instead of " << (double)sum);
    CHECK(close(f.CostCounts.Data[q], (double)cnt, 1e-9, 1e-12), "the weight of matrix " << q << " is " << f.CostCounts.Data[q] << " instead of " << (double)cnt);
    avg += sum / cnt / m;
  }
  CHECK(close(f.AverageRatio, (double)avg, 1e-9, 1e-9), "the average cost is " << f.AverageRatio << " instead of " << (double)avg);
  c.nontrivial(used && n > 1);
  if (s.chance(1, 4)) {
    M t = cs[0];
    int what = s.range(0, 3);
    if (what == 0)
      t(0, 0) = -0.1;
    else if (what == 1)
      t(t.r - 1, 0) = 1.2;
    else if (what == 2)
      t(1, 0) = t(0, 0);
    CHECK(throws([&] { FrequencyCost<W>::Check(t.v(), what == 3 ? k + 1 : k); }), "an invalid cost matrix is accepted: " << t.str());
    M one(1, k + 1, 1);
    CHECK(throws([&] { FrequencyCost<W>::Check(one.v(), k); }), "a cost matrix with one row is accepted");
  }
}
FACET(frequency_cost, "some probability lies above the first threshold, more than one observation", 2500) { s.coin() ? freq<true>(s, c) : freq<false>(s, c); }

static double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
template <class F> static double simpson(F f, double a, double b, int n) {
  if (b <= a)
    return 0;
  double h = (b - a) / n;
  L t = f(a) + f(b);
  for (int i = 1; i < n; i++)
    t += f(a + i * h) * (i % 2 ? 4 : 2);
  return (double)(t * h / 3);
}
FACET(crps, "a positive spread", 600) {
  double y = s.num(), m = s.norm() * 2, sd = s.chance(1, 12) ? 0 : std::exp(s.norm());
  if (std::fabs(y) > 1e4)
    y /= 1e3;
  bool logn = s.coin();
  c.desc << (logn ? "log-normal" : "normal") << " y=" << y << " location=" << m << " scale=" << sd;
  double e;
  if (!logn) {
    // integral of (F(x) - 1{x >= y})^2
    double lo = m - 9.5 * sd, hi = m + 9.5 * sd;
    auto F = [&](double x) { return Phi((x - m) / sd); };
    if (sd == 0)
      e = std::fabs(y - m);
    else {
      e = simpson([&](double x) { return F(x) * F(x); }, lo, std::min(std::max(y, lo), hi), 1200) + simpson([&](double x) { return (1 - F(x)) * (1 - F(x)); }, std::max(std::min(y, hi), lo), hi, 1200);
      e += y > hi ? y - hi : y < lo ? lo - y : 0;
    }
    double g = Scoring::GetScoreCrpsNormal(y, m, sd);
    CHECK(close(g, e, 1e-6, 1e-7 * (1 + sd)), "the CRPS is " << g << " but the integral of its definition is " << e);
    CHECK(g >= -1e-12, "a negative CRPS: " << g);
  } else {
    if (sd == 0)
      sd = 0.5;
    sd = std::min(sd, 1.5);
    double lo = m - 9.5 * sd, hi = m + 9.5 * sd, ly = y > 0 ? std::log(y) : lo;
    auto F = [&](double t) { return Phi((t - m) / sd); };
    e = simpson([&](double t) { return F(t) * F(t) * std::exp(t); }, lo, std::min(std::max(ly, lo), hi), 1600) + simpson([&](double t) { return (1 - F(t)) * (1 - F(t)) * std::exp(t); }, std::max(std::min(ly, hi), lo), hi, 1600);
    if (y > 0)
      e += ly > hi ? y - std::exp(hi) : ly < lo ? std::exp(lo) - y : 0;
    e += ly <= lo ? (y > 0 ? 0 : -y + std::exp(lo)) : 0;
    double g = Scoring::GetScoreCrpsLogNormal(y, m, sd), sc = std::exp(m + 0.5 * sd * sd) + std::fabs(y);
    CHECK(close(g, e, 1e-6, 1e-6 * sc), "the CRPS is " << g << " but the integral of its definition is " << e);
    CHECK(g >= -1e-9 * sc, "a negative CRPS: " << g);
  }
  c.nontrivial(sd > 0);
}

FACET(weights, "a metric away from the minimum", 1500) {
  static const std::vector<GoodnessOfFitType> gi = {GoodnessOfFitType::kAic, GoodnessOfFitType::kSic, GoodnessOfFitType::kFrequencyCost, GoodnessOfFitType::kAuc, GoodnessOfFitType::kBrier};
  static const std::vector<ScoringType> go = {ScoringType::kDirection, ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps, ScoringType::kFrequencyCost, ScoringType::kAuc, ScoringType::kBrier};
  bool in = s.coin();
  int k = s.range(0, (in ? (int)gi.size() : (int)go.size()) - 1);
  std::string name = in ? ToString(gi[k]) : ToString(go[k]);
  bool unit = name == "aucIn" || name == "aucOut" || name == "direction" || name == "sign" || name == "frequencyCostIn" || name == "frequencyCostOut";
  double mn = unit ? 0 : s.norm() * 10, a = unit ? s.unif() : mn + s.unif() * 30, b = unit ? s.unif() : mn + s.unif() * 30;
  c.desc << name << " minimum=" << mn << " metrics=" << a << "," << b;
  auto W = [&](double m) { return in ? GoodnessOfFit::ToWeight(gi[k], m, mn) : Scoring::ToWeight(go[k], m, mn); };
  auto B = [&](double w) { return in ? GoodnessOfFit::FromWeight(gi[k], w, mn) : Scoring::FromWeight(go[k], w, mn); };
  bool posi = in ? GoodnessOfFit::IsPositiveOriented(gi[k]) : Scoring::IsPositiveOriented(go[k]);
  bool pos = name.substr(0, 3) == "auc" || name == "direction" || name == "sign";
  CHECK(posi == pos, name << " has the wrong orientation");
  double wa = W(a), wb = W(b);
  CHECK(wa >= 0 && std::isfinite(wa), "the weight of " << a << " is " << wa);
  CHECK(close(B(wa), a, 1e-8, 1e-9), "the metric " << a << " comes back as " << B(wa));
  if (std::fabs(a - b) > 1e-6)
    CHECK((wa > wb) == (pos ? a > b : a < b), "the better of " << a << " and " << b << " does not have the larger weight: " << wa << ", " << wb);
  double e = pos ? a : unit ? 1 - a : std::exp(-0.5 * (a - mn) / (name == "mape" || name == "rmspe" ? 100 : 1));
  CHECK(close(wa, e, 1e-10), "the weight of " << a << " is " << wa << " instead of " << e);
  // names
  if (in)
    CHECK(FromString_GoodnessOfFitType(name.c_str()) == gi[k], "the name " << name << " is read as " << ToString(FromString_GoodnessOfFitType(name.c_str())));
  else
    CHECK(FromString_ScoringType(name.c_str()) == go[k], "the name " << name << " is read as " << ToString(FromString_ScoringType(name.c_str())));
  c.nontrivial(std::fabs(a - mn) > 1e-3);
}
