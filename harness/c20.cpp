// C20: searching sets of models
#include "dc.h"
#include "ols.h"
#include "discrete_choice.h"
#include "searchers.h"
#include "sur.h"
#include "varma.h"
#include <algorithm>
#include <functional>
#include <map>
#include <numeric>
#include <set>
#ifdef LDT_TEST_OPENMP
extern "C" void omp_set_num_threads(int);
#endif
using namespace ldt;
typedef std::vector<int> V;
typedef GoodnessOfFitType GT;
typedef ScoringType ST;
static V sorted(V v) {
  std::sort(v.begin(), v.end());
  return v;
}
struct Key {
  V endo, exo, extra;
  bool operator<(const Key &o) const { return std::tie(endo, exo, extra) < std::tie(o.endo, o.exo, o.extra); }
  std::string str() const { return "endogenous " + vec_str(endo) + " exogenous " + vec_str(exo) + " extra " + vec_str(extra); }
};
// what one model of the set should give
struct Exp {
  Key key;
  V tpos;   // its targets
  M metric; // metrics x targets
  M mean, var;
  std::string fail;
};
// every way of choosing one item from each of n parts, where the first 'fix' parts are always chosen
static std::vector<V> enumerate(const std::vector<V> &parts, int n, int fix) {
  std::vector<V> res;
  int p = (int)parts.size();
  for (int mask = 0; mask < (1 << p); mask++) {
    if (__builtin_popcount(mask) != n || (mask & ((1 << fix) - 1)) != (1 << fix) - 1)
      continue;
    std::vector<V> cur(1);
    for (int i = 0; i < p; i++)
      if (mask >> i & 1) {
        std::vector<V> nxt;
        for (auto &a : cur)
          for (int it : parts[i]) {
            V b = a;
            b.push_back(it);
            nxt.push_back(b);
          }
        cur = nxt;
      }
    for (auto &a : cur)
      res.push_back(sorted(a));
  }
  return res;
}
// a partition of ids first.. first+n-1 (some of them are left out)
static std::vector<V> gen_parts(Src &s, int first, int n, int maxp = 5, int maxi = 3) {
  auto ids = s.perm(n);
  std::vector<V> parts;
  size_t q = 0;
  int np = s.range(1, std::min(n, maxp));
  for (int i = 0; i < np && q < ids.size(); i++) {
    int k = s.coin() ? 1 : s.range(1, maxi);
    V v;
    while (k-- && q < ids.size())
      v.push_back(first + (int)ids[q++]);
    if (s.coin())
      v = sorted(v);
    parts.push_back(v);
  }
  return parts;
}
static std::string parts_str(const std::vector<V> &p) {
  std::string r = "{";
  for (auto &a : p)
    r += vec_str(a);
  return r + "}";
}
static bool positive(const SearchMetricOptions &m, int i) {
  int k = (int)m.MetricsIn.size();
  if (i < k)
    return m.MetricsIn[i] == GT::kAuc;
  auto o = m.MetricsOut[i - k];
  return o == ST::kAuc || o == ST::kSign || o == ST::kDirection;
}
static double weight_of(const SearchMetricOptions &m, int i, int target, double v) {
  int k = (int)m.MetricsIn.size();
  double mn = 0;
  if (i < k) {
    auto g = m.MetricsIn[i];
    if (m.MinMetricIn.count(g))
      mn = m.MinMetricIn.at(g).at(target);
    return g == GT::kAuc ? v : g == GT::kFrequencyCost ? 1 - v : std::exp(-0.5 * (v - mn));
  }
  auto o = m.MetricsOut[i - k];
  if (m.MinMetricOut.count(o))
    mn = m.MinMetricOut.at(o).at(target);
  switch (o) {
  case ST::kSign:
  case ST::kDirection:
  case ST::kAuc:
    return v;
  case ST::kFrequencyCost:
    return 1 - v;
  case ST::kMape:
  case ST::kRmspe:
    return std::exp(-0.5 * (v - mn) / 100);
  default:
    return std::exp(-0.5 * (v - mn));
  }
}
struct One { // one estimated value
  const Exp *e;
  double metric, w, mean, var;
};
static Key key_of(const EstimationKeep &k) { return {sorted(k.Endogenous), sorted(k.Exogenouses), k.Extra}; }
static void check_bests(const std::vector<std::shared_ptr<EstimationKeep>> &b, std::vector<One> l, int K, bool pos, bool mv, double rt, const std::string &what) {
  std::sort(l.begin(), l.end(), [&](const One &x, const One &y) { return pos ? x.metric > y.metric : x.metric < y.metric; });
  CHECK(b.size() == std::min<size_t>(K, l.size()), what << ": " << b.size() << " best models, " << l.size() << " models and " << K << " are requested");
  std::set<Key> seen;
  for (size_t i = 0; i < b.size(); i++) {
    CHECK(close(b[i]->Metric, l[i].metric, rt, rt), what << ": best " << i << " has metric " << b[i]->Metric << ", it is " << l[i].metric);
    Key k = key_of(*b[i]);
    CHECK(seen.insert(k).second, what << ": a model is twice among the best: " << k.str());
    const One *o = nullptr;
    for (auto &x : l)
      if (!(x.e->key < k) && !(k < x.e->key))
        o = &x;
    CHECK(o, what << ": best " << i << " is not a model of the set: " << k.str());
    CHECK(close(b[i]->Metric, o->metric, rt, rt) && close(b[i]->Weight, o->w, rt * (10 + std::fabs(o->metric)), 1e-300),
          what << ": best " << i << " (" << k.str() << ") has metric and weight " << b[i]->Metric << ", " << b[i]->Weight << " instead of " << o->metric << ", " << o->w);
    if (mv)
      CHECK(close(b[i]->Mean, o->mean, rt, rt) && close(b[i]->Variance, o->var, rt * 10, rt * 1e-3),
            what << ": best " << i << " (" << k.str() << ") has mean and variance " << b[i]->Mean << ", " << b[i]->Variance << " instead of " << o->mean << ", " << o->var);
  }
}
static void verify(Ctx &c, const ModelSet &ms, const SearchItems &items, const SearchMetricOptions &me, const std::vector<Exp> &ex, int nvars, double rt, bool messages = false) {
  SearcherModelingInfo info;
  std::vector<SearcherSummary *> l0, l1, l2;
  ms.CombineInfo(info, l0, l1, l2);
  CHECK(info.ExpectedCount == (int)ex.size() && info.SearchedCount == (int)ex.size(), "expected and searched counts " << info.ExpectedCount << ", " << info.SearchedCount << " instead of " << ex.size());
  std::map<std::string, int> fails;
  int nf = 0, gf = 0;
  for (auto &e : ex)
    if (!e.fail.empty()) {
      fails[e.fail]++;
      nf++;
    }
  for (auto &f : info.FailsCount)
    gf += f.second;
  std::string fs;
  for (auto &f : info.FailsCount)
    fs += f.first + ": " + std::to_string(f.second) + "; ";
  std::string es;
  for (auto &e : ex)
    if (!e.fail.empty())
      es += e.key.str() + ": " + e.fail + "; ";
  CHECK(gf == nf, gf << " models fail (" << fs << "), it should be " << nf << " (" << es << ")");
  if (messages)
    for (auto &f : fails)
      CHECK(info.FailsCount.count(f.first) && info.FailsCount.at(f.first) == f.second, "failures '" << f.first << "' should be " << f.second << ": " << fs);
  c.label(nf == 0 ? "no failure" : nf == (int)ex.size() ? "all fail" : "some fail");
  int nm = items.LengthEvals;
  if (l0.empty() && l1.empty()) { // no searcher
    CHECK(ex.empty(), "nothing is searched");
    return;
  }
  for (int i = 0; i < nm; i++)
    for (int t = 0; t < items.LengthTargets; t++) {
      std::vector<One> l;
      for (auto &e : ex)
        if (e.fail.empty())
          for (size_t j = 0; j < e.tpos.size(); j++)
            if (e.tpos[j] == t && !std::isnan(e.metric(i, (int)j)))
              l.push_back({&e, e.metric(i, (int)j), weight_of(me, i, t, e.metric(i, (int)j)), NAN, NAN});
      for (auto &o : l)
        if (!(std::fabs(o.metric) < 1e12) || !(o.w < 1e200))
          throw pbt::Discard();
      std::string w = "metric " + std::to_string(i) + " target " + std::to_string(t);
      bool pos = positive(me, i);
      if (items.KeepModelEvaluations) {
        std::vector<std::shared_ptr<EstimationKeep>> r;
        if (items.KeepAll) {
          ms.CombineAll(i, t, 0, l0, r);
          CHECK(r.size() == l.size(), w << ": " << r.size() << " models are kept instead of " << l.size());
          check_bests([&] {
            std::stable_sort(r.begin(), r.end(), [&](auto &a, auto &b) { return pos ? a->Metric > b->Metric : a->Metric < b->Metric; });
            return r;
          }(), l, 1 << 20, pos, false, rt, w + " (all)");
        }
        if (items.KeepBestCount) {
          r.clear();
          ms.CombineBests(i, t, 0, l0, r);
          check_bests(r, l, items.KeepBestCount, pos, false, rt, w);
        }
        if (items.KeepInclusionWeights)
          for (int v = 0; v < nvars; v++) {
            double sum = 0, ab = 0;
            int n = 0;
            for (auto &o : l)
              for (auto *q : {&o.e->key.endo, &o.e->key.exo})
                for (int a : *q)
                  if (a == v) {
                    n++;
                    sum += o.w;
                    ab += std::fabs(o.w) * (10 + std::fabs(o.metric));
                  }
            RunningMoments<1, true, false, double> m;
            ms.CombineInclusionWeights(i, t, v, l0, m);
            CHECK(m.Count == n, w << ": variable " << v << " is in " << m.Count << " models instead of " << n);
            if (n)
              CHECK(close(m.GetMean(), sum / n, 1e-9, (rt + 1e-14) * ab / n), w << ": inclusion weight of variable " << v << " is " << m.GetMean() << " instead of " << sum / n);
          }
      }
      for (int q = 0; q < items.Length1; q++) {
        std::vector<One> z;
        for (auto &o : l) {
          int j = (int)(std::find(o.e->tpos.begin(), o.e->tpos.end(), t) - o.e->tpos.begin());
          if (!std::isnan(o.e->mean(q, j))) {
            z.push_back(o);
            z.back().mean = o.e->mean(q, j);
            z.back().var = o.e->var(q, j);
          }
        }
        std::string w1 = w + " item " + std::to_string(q);
        double sw = 0, big = 0, spread = 0, mag = 0;
        for (auto &o : z) {
          sw += o.w;
          big = std::max(big, std::fabs(o.metric));
          spread = std::max(spread, std::sqrt(std::max(0.0, o.var)));
          mag = std::max(mag, std::fabs(o.mean));
        }
        double rw = (rt + 1e-14) * (10 + big); // relative error of a weight
        if (items.KeepBestCount) {
          std::vector<std::shared_ptr<EstimationKeep>> r;
          ms.CombineBests(i, t, q, l1, r);
          check_bests(r, z, items.KeepBestCount, pos, true, rt, w1);
        }
        bool okw = true; // weights which are not too different
        for (auto &o : z)
          okw &= o.w > 1e-100 && o.var > 1e-12 * (o.mean * o.mean) && o.var > 1e-200;
        if (items.CdfsAt.size() && okw)
          for (size_t a = 0; a < items.CdfsAt.size(); a++) {
            RunningMoments<1, true, true, double> m;
            ms.CombineCdfAt(i, t, q, (int)a, l1, m);
            double x = 0, er = 1e-12;
            for (auto &o : z) {
              double sd = std::sqrt(o.var), zz = (items.CdfsAt[a] - o.mean) / sd;
              x += o.w * 0.5 * std::erfc(-zz / std::sqrt(2.0));
              er += o.w * rt * (1 + std::fabs(o.mean) / sd) * 100;
            }
            CHECK(m.Count == (int)z.size() && close(m.SumWeights, sw, 2 * rw, 0), w1 << ": cdf from " << m.Count << " models with weight " << m.SumWeights << " instead of " << z.size() << ", " << sw);
            if (z.size())
              CHECK(close(m.GetMean(), x / sw, 1e-9, er / sw + 2 * rw), w1 << ": cdf at " << items.CdfsAt[a] << " is " << m.GetMean() << " instead of " << x / sw);
          }
        if (items.ExtremeBoundsMultiplier > 0) {
          double a, b, lo = std::numeric_limits<double>::max(), hi = std::numeric_limits<double>::lowest();
          ms.CombineExtremeBounds(i, t, q, l1, a, b);
          for (auto &o : z) {
            lo = std::min(lo, o.mean - items.ExtremeBoundsMultiplier * std::sqrt(o.var));
            hi = std::max(hi, o.mean + items.ExtremeBoundsMultiplier * std::sqrt(o.var));
          }
          double at = z.size() ? 100 * rt * (mag + spread * items.ExtremeBoundsMultiplier) : 0;
          CHECK(close(a, lo, 1e-9, at) && close(b, hi, 1e-9, at), w1 << ": extreme bounds " << a << ", " << b << " instead of " << lo << ", " << hi);
        }
        if (items.KeepMixture && okw && z.size()) {
          RunningMoments<4, true, true, double> m;
          ms.CombineMixture(i, t, q, l1, m);
          long double mu = 0, v = 0, s3 = 0, s4 = 0;
          for (auto &o : z)
            mu += (long double)o.w * o.mean;
          mu /= sw;
          for (auto &o : z) {
            long double d = o.mean - mu, x = o.var, ww = o.w / (long double)sw;
            v += ww * (x + d * d);
            s3 += ww * (3 * x * d + d * d * d);
            s4 += ww * (3 * x * x + 6 * x * d * d + d * d * d * d);
          }
          double sc = mag + (double)sqrtl(v);
          CHECK(m.Count == (int)z.size() && close(m.SumWeights, sw, 2 * rw, 0), w1 << ": mixture of " << m.Count << " models with weight " << m.SumWeights << " instead of " << z.size() << ", " << sw);
          double e1 = rw * 10 + 1e-10;
          CHECK(close(m.GetMean(), (double)mu, 1e-9, e1 * sc), w1 << ": mean of the mixture " << m.GetMean() << " instead of " << (double)mu);
          CHECK(close(m.GetVariance(), (double)v, 1e-8, e1 * sc * sc), w1 << ": variance of the mixture " << m.GetVariance() << " instead of " << (double)v);
          double rel = sc / (double)sqrtl(v);
          if (e1 * rel * rel * rel * rel < 1e-3) {
            double sk = (double)(s3 / powl(v, 1.5L)), ku = (double)(s4 / (v * v) - 3);
            double e4 = 100 * e1 * rel * rel * rel * rel;
            CHECK(close(m.GetSkewness(), sk, 1e-6, e4), w1 << ": skewness of the mixture " << m.GetSkewness() << " instead of " << sk);
            CHECK(close(m.GetKurtosis(), ku, 1e-6, e4 * 4), w1 << ": kurtosis of the mixture " << m.GetKurtosis() << " instead of " << ku);
          }
        }
      }
    }
}
// --- enumeration
struct Rec : Searcher {
  using Searcher::Searcher;
  std::vector<V> seen;
  std::function<std::string(const V &)> f;
  std::string EstimateOne(double *, int *) override {
    seen.push_back(CurrentIndices.Vec);
    return f(sorted(CurrentIndices.Vec));
  }
};
static unsigned hash(const V &v, unsigned seed) {
  unsigned h = seed * 2654435761u + 12345;
  for (int x : v)
    h = (h ^ (unsigned)(x + 1)) * 16777619u + (h >> 13);
  h ^= h >> 15;
  h *= 2246822519u;
  return h ^ h >> 13;
}
static SearchData basic_data(int endo, int exo) {
  SearchData d;
  d.NumEndo = endo;
  d.NumExo = exo;
  d.HasIntercept = false;
  d.HasWeight = false;
  return d;
}
static SearchCombinations combos(const std::vector<int> &sizes, const std::vector<V> &parts, int fix, const std::vector<V> &inner, int targets) {
  SearchCombinations c;
  c.Sizes = sizes;
  c.Partitions = parts;
  c.NumFixPartitions = fix;
  c.NumFixItems = 0;
  c.InnerGroups = inner;
  c.NumTargets = targets;
  return c;
}
FACET(enumeration, "three models or more from partitions with more than one item", 3000) {
  int n = s.range(1, 9);
  auto parts = gen_parts(s, 0, n, 6);
  int P = (int)parts.size(), size = s.range(1, P + (s.chance(1, 10) ? 1 : 0)), fix = s.coin() ? 0 : s.range(0, size + (s.chance(1, 10) ? 1 : 0));
  bool empty = s.coin();
  int targets = s.range(1, n);
  SearchItems it;
  it.LengthEvals = 1;
  it.LengthTargets = targets;
  SearchMetricOptions me;
  me.EvalIsPosOrientation = {true};
  me.MetricsIn = {GT::kAuc};
  SearchModelChecks ch;
  SearchOptions op;
  auto d = basic_data(n, 0);
  auto co = combos({size}, parts, fix, {}, targets);
  unsigned seed = s.range(0, 1000);
  int kind = s.pick<int>({0, 0, 1, 2}), cancel = s.chance(1, 8) ? s.range(1, 6) : 0;
  c.desc << "partitions " << parts_str(parts) << " size " << size << " fixed " << fix << " targets " << targets << " endogenous " << empty << " failures " << kind << " cancel after " << cancel;
  if (fix > size) {
    CHECK(throws([&] { Rec r(d, co, op, it, me, ch, size, empty); }), fix << " fixed partitions are accepted in models of size " << size);
    return;
  }
  Rec r(d, co, op, it, me, ch, size, empty);
  std::map<std::string, int> msgs;
  auto fail = [&](const V &v) -> int { return kind == 0 ? 0 : (int)(hash(v, seed) % (kind == 1 ? 3 : 7)); };
  int cnt = 0;
  r.f = [&](const V &v) -> std::string {
    if (cancel && ++cnt == cancel)
      op.RequestCancel = true;
    switch (fail(v)) {
    case 1:
      return "returned";
    case 2:
      throw LdtException(ErrorType::kLogic, "x", "thrown");
    case 3:
      throw std::string("a string");
    case 4:
      throw "characters";
    case 5:
      throw 3;
    default:
      return "";
    }
  };
  if (size > P) {
    CHECK(throws([&] { r.CheckStart(); }) && throws([&] { r.Start(nullptr, nullptr); }) && throws([&] { r.GetCount(); }), "models of size " << size << " from " << P << " partitions are accepted");
    return;
  }
  auto ex = enumerate(parts, size, fix);
  if (empty)
    ex.erase(std::remove_if(ex.begin(), ex.end(), [&](const V &v) { return v[0] >= targets; }), ex.end());
  CHECK(r.GetCount() == (int)ex.size(), "the expected number of models is " << r.GetCount() << " instead of " << ex.size());
  CHECK(r.GetCount(true) == (int)ex.size() * size * size, "the effective number of models is " << r.GetCount(true));
  r.CheckStart();
  r.Start(nullptr, nullptr);
  std::set<V> all(ex.begin(), ex.end()), got;
  for (auto &v : r.seen) {
    CHECK(all.count(sorted(v)), "estimated a model which is not in the set: " << vec_str(v));
    CHECK(got.insert(sorted(v)).second, "estimated a model twice: " << vec_str(v));
    if (empty)
      CHECK(v[0] < targets && std::is_sorted(v.begin(), v.end()), "the targets are not the first variables: " << vec_str(v));
    switch (fail(sorted(v))) {
    case 1:
      msgs["returned"]++;
      break;
    case 2:
      try {
        throw LdtException(ErrorType::kLogic, "x", "thrown");
      } catch (std::exception &e) {
        msgs[e.what()]++;
      }
      break;
    case 3:
      msgs["a string"]++;
      break;
    case 4:
      msgs["characters"]++;
      break;
    case 5:
      msgs[""]++; // its message is not specified
    }
  }
  if (cancel && (int)ex.size() > cancel)
    CHECK((int)got.size() == cancel, got.size() << " models are estimated, cancelled after " << cancel);
  else
    CHECK(got.size() == ex.size(), got.size() << " models are estimated instead of " << ex.size());
  CHECK(r.Counter == (int)got.size(), "the counter is " << r.Counter << ", " << got.size() << " models are estimated");
  int total = 0, want = 0;
  for (auto &q : r.States)
    total += q.second;
  for (auto &q : msgs) {
    want += q.second;
    if (!q.first.empty())
      CHECK(r.States.count(q.first) && r.States.at(q.first) == q.second, "failure '" << q.first << "' should be reported " << q.second << " times");
  }
  CHECK(total == want, total << " failures are reported instead of " << want);
  if (!cancel)
    CHECK(throws([&] { r.Start(nullptr, nullptr); }), "a searcher can be started twice");
  bool multi = false;
  for (auto &p : parts)
    multi |= p.size() > 1;
  c.nontrivial(ex.size() >= 3 && multi);
}
// --- summaries of a synthetic set
static const std::vector<GT> INS = {GT::kAic, GT::kSic, GT::kAuc, GT::kBrier, GT::kFrequencyCost};
static const std::vector<ST> OUTS = {ST::kSign, ST::kDirection, ST::kMae, ST::kMape, ST::kRmse, ST::kRmspe, ST::kCrps, ST::kAuc, ST::kBrier, ST::kFrequencyCost};
struct Syn : SearcherReg {
  std::function<std::string(const Key &, const V &, M &, M &, M &)> f;
  V extra;
  Syn(const SearchData &d, const SearchCombinations &c, SearchOptions &o, const SearchItems &i, const SearchMetricOptions &m, const SearchModelChecks &k, int n, bool inner_exo, const V &inner, const V &ex)
      : SearcherReg(d, c, o, i, m, k, n, inner_exo, inner, (int)ex.size()), extra(ex) {}
  std::string EstimateOneReg(double *, int *, VMatrix<double> &me, VMatrix<double> &mean, VMatrix<double> &var, VMatrix<int> &ext) override {
    Key k;
    k.endo = IsInnerExogenous ? CurrentIndices.Vec : InnerIndices;
    k.exo = IsInnerExogenous ? InnerIndices : CurrentIndices.Vec;
    k.extra = extra;
    // columns of the data: endogenous, weight, exogenous
    V want = k.endo;
    if (pData->HasWeight)
      want.push_back(pData->NumEndo);
    for (int a : k.exo)
      want.push_back(a + (pData->HasWeight ? 1 : 0));
    CHECK(want == ColIndices, "the columns of the model are " << vec_str(ColIndices) << " instead of " << vec_str(want));
    V tp;
    for (int a : k.endo)
      if (a < pItems->LengthTargets)
        tp.push_back(a);
    CHECK(tp == TargetsPositions, "the targets of the model are " << vec_str(TargetsPositions) << " instead of " << vec_str(tp));
    M a(me.Mat.RowsCount, me.Mat.ColsCount), b(mean.Mat.RowsCount, mean.Mat.ColsCount), v = b;
    k.endo = sorted(k.endo);
    k.exo = sorted(k.exo);
    auto r = f(k, tp, a, b, v);
    std::copy(a.p.get(), a.p.get() + a.n(), me.Mat.Data);
    std::copy(b.p.get(), b.p.get() + b.n(), mean.Mat.Data);
    std::copy(v.p.get(), v.p.get() + v.n(), var.Mat.Data);
    for (size_t i = 0; i < extra.size(); i++)
      ext.Mat.Data[i] = extra[i];
    return r;
  }
};
static void gen_items(Src &s, SearchItems &it, int len1) {
  it.KeepModelEvaluations = len1 == 0 || s.chance(3, 4);
  it.KeepAll = s.coin();
  it.KeepBestCount = s.chance(2, 3) ? s.pick<int>({1, 2, 3, 5, 20}) : 0;
  it.KeepInclusionWeights = s.coin();
  it.Length1 = len1;
  it.Length2 = 0;
  it.KeepMixture = s.coin();
  if (s.coin())
    it.ExtremeBoundsMultiplier = s.pick<double>({1.0, 2.0, s.unif(0.1, 4)});
  if (s.coin())
    for (int i = s.range(1, 3); i > 0; i--)
      it.CdfsAt.push_back(s.chance(1, 3) ? 0 : s.unif(-3, 3));
}
static std::string items_str(const SearchItems &i) {
  std::ostringstream o;
  o << "models " << i.KeepModelEvaluations << " all " << i.KeepAll << " best " << i.KeepBestCount << " inclusion " << i.KeepInclusionWeights << " length " << i.Length1 << " mixture " << i.KeepMixture << " bounds " << i.ExtremeBoundsMultiplier << " cdfs " << vec_str(i.CdfsAt);
  return o.str();
}
static std::string metrics_str(const SearchMetricOptions &m) {
  std::string r = "metrics ";
  for (auto a : m.MetricsIn)
    r += std::string(ToString(a)) + " ";
  r += "/ ";
  for (auto a : m.MetricsOut)
    r += std::string(ToString(a)) + " ";
  for (auto &a : m.MinMetricIn)
    r += std::string("min ") + ToString(a.first) + vec_str(a.second);
  for (auto &a : m.MinMetricOut)
    r += std::string("min ") + ToString(a.first) + vec_str(a.second);
  return r;
}
static void synthetic(Src &s, Ctx &c, bool parallel) {
  int ne = s.range(1, 4), nx = s.range(1, 5), targets = s.range(1, ne), len1 = s.coin() ? 0 : s.range(1, 3);
  SearchData d = basic_data(ne, nx);
  d.HasWeight = s.chance(1, 3);
  SearchItems it;
  gen_items(s, it, len1);
  SearchMetricOptions me;
  int ni = s.range(0, 3), no = ni ? s.range(0, 3) : s.range(1, 3);
  for (int i : s.subset((int)INS.size(), ni))
    me.MetricsIn.push_back(INS[i]);
  for (int i : s.subset((int)OUTS.size(), no))
    me.MetricsOut.push_back(OUTS[i]);
  me.SimFixSize = 1;
  me.TrainFixSize = 1;
  me.Seed = -1;
  SearchModelChecks ch;
  SearchOptions op;
  op.Parallel = parallel;
  it.LengthTargets = targets;
  it.LengthEndogenous = ne;
  it.LengthExogenous = nx;
  // scales of the metrics
  double base = s.pick<double>({0.0, -20.0, 15.0}), scale = s.pick<double>({1.0, 4.0});
  auto gen_min = [&] {
    std::vector<double> v;
    for (int t = 0; t < targets; t++)
      v.push_back(s.coin() ? base : s.unif(base - 2, base + 2));
    return v;
  };
  for (auto g : me.MetricsIn)
    if (s.coin())
      me.MinMetricIn[g] = gen_min();
  for (auto g : me.MetricsOut)
    if (s.coin())
      me.MinMetricOut[g] = gen_min();
  me.Update(true, false);
  ch.Update(me);
  it.Update(me, targets, ne, nx);
  bool inner_exo = s.coin();
  unsigned seed = s.range(0, 100000);
  double nanp = s.pick<double>({0, 0, 0.2, 0.6}), failp = s.pick<double>({0, 0, 0.2, 1});
  int ties = s.pick<int>({0, 0, 3});
  auto parts = gen_parts(s, inner_exo ? 0 : ne, inner_exo ? ne : nx, 5);
  std::vector<V> inner;
  int other = inner_exo ? nx : ne;
  for (int i = s.range(1, 3); i > 0; i--) {
    auto u = s.subset(other, s.range(inner_exo ? 0 : 1, std::min(other, 3)));
    V v(u.begin(), u.end());
    v = sorted(v);
    if (!inner_exo && v[0] >= targets)
      v[0] = 0;
    for (int &a : v)
      a += inner_exo ? ne : 0;
    v = sorted(v);
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (std::find(inner.begin(), inner.end(), v) == inner.end())
      inner.push_back(v);
  }
  std::vector<int> sizes;
  int P = (int)parts.size();
  for (int i : s.subset(P, s.range(1, std::min(P, 3))))
    sizes.push_back(i + 1);
  int fix = s.chance(2, 3) ? 0 : s.range(0, *std::min_element(sizes.begin(), sizes.end()));
  auto co = combos(sizes, parts, fix, inner, targets);
  int nm = (int)(me.MetricsIn.size() + me.MetricsOut.size());
  auto value = [&, seed](const Key &k, int a, int b, int tag) {
    V v = k.endo;
    v.push_back(-9);
    v.insert(v.end(), k.exo.begin(), k.exo.end());
    v.push_back(-8);
    v.insert(v.end(), k.extra.begin(), k.extra.end());
    v.insert(v.end(), {a, b, tag});
    return hash(v, seed) / 4294967296.0;
  };
  auto f = [&](const Key &k, const V &tp, M &m, M &mean, M &var) -> std::string {
    if (value(k, 0, 0, 5) < failp * 0.5)
      return value(k, 0, 0, 6) < 0.5 ? "first" : "second";
    if (value(k, 0, 0, 5) < failp)
      throw LdtException(ErrorType::kLogic, "x", "y");
    for (int i = 0; i < nm; i++) {
      bool unit = i < (int)me.MetricsIn.size() ? (me.MetricsIn[i] == GT::kAuc || me.MetricsIn[i] == GT::kFrequencyCost) : (me.MetricsOut[i - me.MetricsIn.size()] == ST::kAuc || me.MetricsOut[i - me.MetricsIn.size()] == ST::kFrequencyCost || me.MetricsOut[i - me.MetricsIn.size()] == ST::kSign || me.MetricsOut[i - me.MetricsIn.size()] == ST::kDirection);
      for (size_t j = 0; j < tp.size(); j++) {
        double u = value(k, i, tp[j], 1);
        if (ties)
          u = (std::floor(u * ties) + 0.5) / ties;
        m(i, (int)j) = value(k, i, tp[j], 2) < nanp ? NAN : unit ? 0.05 + 0.9 * u : base + scale * (u - 0.3);
      }
    }
    for (int q = 0; q < len1; q++)
      for (size_t j = 0; j < tp.size(); j++) {
        mean(q, (int)j) = value(k, q, tp[j], 3) < nanp ? NAN : 6 * value(k, q, tp[j], 4) - 3;
        var(q, (int)j) = 0.05 + 3 * value(k, q, tp[j], 7);
      }
    return "";
  };
  c.desc << (inner_exo ? "inner exogenous" : "inner endogenous") << " targets " << targets << " of " << ne << " exogenous " << nx << " sizes " << vec_str(sizes) << " partitions " << parts_str(parts) << " fixed " << fix << " inner " << parts_str(inner) << " " << items_str(it) << " " << metrics_str(me) << " weight " << d.HasWeight << " seed " << seed << " nan " << nanp << " fail " << failp << " ties " << ties;
  std::vector<std::unique_ptr<Searcher>> own;
  std::vector<Searcher *> list;
  std::vector<Exp> ex;
  int copies = s.range(1, 2);
  for (int g : sizes)
    for (auto &in : inner)
      for (int e = 0; e < copies; e++) {
        V extra;
        if (copies > 1 || s.coin())
          extra = {e, g};
        auto *p = new Syn(d, co, op, it, me, ch, g, inner_exo, in, extra);
        p->f = f;
        own.emplace_back(p);
        list.push_back(p);
        for (auto &v : enumerate(parts, g, fix)) {
          Exp x;
          x.key = {inner_exo ? v : in, inner_exo ? in : v, extra};
          for (int a : x.key.endo)
            if (a < targets)
              x.tpos.push_back(a);
          if (x.tpos.empty())
            continue;
          x.metric = M(nm, (int)x.tpos.size());
          x.mean = x.var = M(len1, (int)x.tpos.size());
          try {
            x.fail = f(x.key, x.tpos, x.metric, x.mean, x.var);
            bool nan = true;
            for (int i = 0; i < x.metric.n(); i++)
              nan &= std::isnan(x.metric.p[i]);
            if (x.fail.empty() && nan)
              x.fail = "all metrics are NaN";
          } catch (std::exception &e2) {
            x.fail = e2.what();
          }
          ex.push_back(x);
        }
      }
  ModelSet ms(list, d, co, op, it, me, ch);
  ms.ShuffleSearchers = s.coin();
  ms.Start(nullptr, nullptr);
  for (auto &x : ex)
    if (x.fail == "all metrics are NaN")
      x.fail = "all NaN";
  verify(c, ms, it, me, ex, ne + nx, 1e-12);
  int ok = 0;
  for (auto &x : ex)
    ok += x.fail.empty();
  c.nontrivial(ok >= 3 && (it.KeepBestCount || it.KeepAll || len1));
}
FACET(summaries, "three models or more that do not fail, and something is kept", 3000) { synthetic(s, c, false); }
// --- systems of regressions
static M select(const M &d, const V &cols_, bool drop) {
  V r;
  for (int i = 0; i < d.r; i++) {
    bool ok = true;
    for (int j : cols_)
      ok &= std::isfinite(d(i, j));
    if (ok || !drop)
      r.push_back(i);
  }
  M o((int)r.size(), (int)cols_.size());
  for (int i = 0; i < o.r; i++)
    for (int j = 0; j < o.c; j++)
      o(i, j) = d(r[i], cols_[j]);
  return o;
}
static bool near(double a, double b) { return std::isfinite(b) && std::fabs(a - b) < 1e-7 * (1 + std::fabs(b)); }
struct Checks { // thresholds chosen from values around those of the models
  double pick(Src &s, double typical, double width) { return typical + s.unif(-1, 1) * width; }
};
static void minimums(Src &s, SearchMetricOptions &me, int targets, double aic) {
  for (auto g : me.MetricsIn)
    if (s.coin()) {
      std::vector<double> v;
      for (int t = 0; t < targets; t++)
        v.push_back((g == GT::kAic || g == GT::kSic ? aic : 0.1) + s.unif(-1, 1));
      me.MinMetricIn[g] = v;
    }
  for (auto g : me.MetricsOut)
    if (s.chance(1, 3)) {
      std::vector<double> v;
      for (int t = 0; t < targets; t++)
        v.push_back(s.unif(-1, 1));
      me.MinMetricOut[g] = v;
    }
}
static void sur_search(Src &s, Ctx &c, bool parallel) {
  int ne = s.range(1, 3), nx = s.range(1, 4), targets = s.range(1, ne), N = s.range(14, 30);
  M y, x;
  bool icpt = s.coin();
  gen_system(s, N, ne, nx, icpt, y, x);
  M all = hcat(y, x);
  for (int i = s.chance(1, 3) ? s.range(1, 5) : 0; i > 0; i--)
    all(s.range(0, N - 1), s.range(0, all.c - 1)) = s.chance(1, 5) ? INFINITY : NAN;
  for (int i = 0; i < all.n(); i++)
    if (std::isinf(all.p[i]))
      all.p[i] = NAN;
  SearchData d = basic_data(ne, nx);
  d.HasIntercept = icpt;
  ldt::Matrix<double> dv = all.v();
  d.Data = dv;
  std::vector<V> inner;
  for (int i = s.range(1, 3); i > 0; i--) {
    auto u = s.subset(ne, s.range(1, ne));
    V v = sorted(V(u.begin(), u.end()));
    if (std::find(inner.begin(), inner.end(), v) == inner.end())
      inner.push_back(v);
  }
  auto parts = gen_parts(s, ne, nx, 4);
  int P = (int)parts.size();
  std::vector<int> sizes;
  for (int i : s.subset(P, s.range(1, P)))
    sizes.push_back(i + 1);
  int fix = s.chance(2, 3) ? 0 : s.range(0, P);
  SearchItems it;
  int len1 = s.coin() ? 0 : nx;
  gen_items(s, it, len1);
  it.LengthTargets = targets;
  it.LengthEndogenous = ne;
  it.LengthExogenous = nx;
  SearchMetricOptions me;
  SearchModelChecks ch;
  SearchOptions op;
  op.Parallel = parallel;
  int ni = s.range(0, 2);
  for (int i : s.subset(2, ni))
    me.MetricsIn.push_back(i ? GT::kSic : GT::kAic);
  static const std::vector<ST> outs = {ST::kSign, ST::kMae, ST::kRmse, ST::kCrps, ST::kMape, ST::kRmspe};
  bool lam = s.chance(1, 6);
  if (ni == 0 || s.coin())
    for (int i : s.subset(lam ? 3 : 6, s.range(1, 3)))
      me.MetricsOut.push_back(outs[i]);
  bool out = !me.MetricsOut.empty();
  if (lam)
    for (int i = 0; i < ne; i++)
      d.Lambdas.push_back(s.chance(1, 3) ? NAN : s.pick<double>({0.0, 1.0, 1.0}));
  if (out || s.chance(1, 4)) {
    me.SimFixSize = s.range(1, 5);
    if (s.coin())
      me.TrainRatio = s.unif(0.5, 0.85);
    else
      me.TrainFixSize = s.range(8, 12);
    if (s.chance(1, 3))
      ch.MinOutSim = s.range(1, me.SimFixSize);
  }
  me.Seed = -s.range(1, 1000);
  // checks
  ch.Estimation = len1 > 0 || s.coin();
  double aic = N * (2.0 + s.unif(-1, 3));
  if (s.chance(1, 6))
    ch.MinObsCount = s.range(N - 6, N);
  if (s.chance(1, 6))
    ch.MinDof = s.range(N - 8, N - 1);
  if (s.chance(1, 6))
    ch.MinR2 = s.unif(-0.2, 0.7);
  if (s.chance(1, 6))
    ch.MaxAic = s.unif(0.5, 2) * aic;
  if (s.chance(1, 6))
    ch.MaxSic = s.unif(0.5, 2) * aic;
  if (s.chance(1, 5))
    ch.MaxConditionNumber = std::exp(s.unif(1, 7));
  bool est = ch.Estimation || ni || ch.MinObsCount || ch.MinDof || std::isfinite(ch.MinR2) || std::isfinite(ch.MaxAic) || std::isfinite(ch.MaxSic);
  minimums(s, me, targets, aic);
  int sig = s.chance(1, 5) ? s.range(1, 4) : 0;
  double sigp = sig ? s.unif(0.05, 0.6) : 0;
  c.desc << "targets " << targets << " of " << ne << " sizes " << vec_str(sizes) << " partitions " << parts_str(parts) << " fixed " << fix << " groups " << parts_str(inner) << " " << items_str(it) << " " << metrics_str(me) << " simulations " << me.SimFixSize << " train " << me.TrainRatio << "/" << me.TrainFixSize << " lambdas " << vec_str(d.Lambdas)
         << " estimation " << ch.Estimation << " obs " << ch.MinObsCount << " dof " << ch.MinDof << " R2 " << ch.MinR2 << " aic " << ch.MaxAic << " sic " << ch.MaxSic << " cn " << ch.MaxConditionNumber << " valid " << ch.MinOutSim << " significance " << sig << "/" << sigp << " data=" << all.str();
  auto co = combos(sizes, parts, fix, inner, targets);
  std::vector<Exp> ex;
  int nm = (int)(me.MetricsIn.size() + me.MetricsOut.size());
  for (int g : sizes)
    for (auto &in : inner)
      if (g >= fix && in[0] < targets)
        for (auto &v : enumerate(parts, g, fix)) {
          Exp e;
          e.key = {in, v, {}};
          for (int a : in)
            if (a < targets)
              e.tpos.push_back(a);
          int nt = (int)e.tpos.size(), n1 = (int)in.size(), km = n1 * g;
          e.metric = M(nm, nt);
          e.mean = M(len1, nt, NAN);
          e.var = M(len1, nt, NAN);
          V cs = in;
          cs.insert(cs.end(), v.begin(), v.end());
          M dd = select(all, cs, true);
          auto ddv = dd.v();
          auto body = [&] {
            if (est && ch.MinObsCount && dd.r < ch.MinObsCount)
              throw std::runtime_error("observations");
            if (est && ch.MinDof && dd.r - g < ch.MinDof)
              throw std::runtime_error("degrees of freedom");
            SurExtended q(dd.r, n1, g, sig > 0, false, true, 0, sig, false, nullptr, nullptr);
            std::unique_ptr<double[]> st(new double[q.StorageSize]), wk(new double[q.WorkSize]), rd(new double[km * km]);
            ldt::Matrix<double> R(rd.get(), km, km);
            auto &m = q.Model;
            try {
              q.Calculate(ddv, n1, st.get(), wk.get(), sig ? &R : nullptr, sigp, nullptr);
            } catch (const std::exception &) {
              throw pbt::Discard(); // whether a singular model fails depends on rounding
            }
            M sv = from(m.resid_var);
            double vv = 1;
            for (int i = 0; i < n1; i++)
              vv *= sv(i, i);
            if (!(m.condition_number < 1e7) || !(det(sv) > 1e-8 * vv) || !(m.r2 < 1 - 1e-6))
              throw pbt::Discard();
            if (est) {
              if (near(m.condition_number, ch.MaxConditionNumber) || near(m.Aic, ch.MaxAic) || near(m.Sic, ch.MaxSic) || near(m.r2, ch.MinR2))
                throw pbt::Discard();
              if (m.condition_number > ch.MaxConditionNumber)
                throw std::runtime_error("condition number");
              if (m.Aic > ch.MaxAic || m.Sic > ch.MaxSic || m.r2 < ch.MinR2)
                throw std::runtime_error("criteria");
              for (size_t i = 0; i < me.MetricsIn.size(); i++)
                for (int t = 0; t < nt; t++)
                  e.metric((int)i, t) = me.MetricsIn[i] == GT::kAic ? m.Aic : m.Sic;
              if (len1)
                for (int t = 0; t < nt; t++)
                  for (int i = 0; i < g; i++) {
                    e.mean(v[i] - ne, t) = m.beta.Get0(i, t);
                    e.var(v[i] - ne, t) = std::pow(m.e_beta_std.Get0(i, t), 2);
                  }
            }
            if (out) {
              SurSimulation q(dd.r, n1, g, me.TrainRatio, me.TrainFixSize, me.MetricsOut, sig > 0, sig, nullptr, nullptr);
              std::unique_ptr<double[]> st2(new double[q.StorageSize]), wk2(new double[q.WorkSize]), rd2(new double[km * km]);
              ldt::Matrix<double> R2(rd2.get(), km, km);
              bool cancel = false;
              std::vector<double> lm;
              if (lam)
                for (int a : in)
                  lm.push_back(d.Lambdas[a]);
              q.Calculate(ddv, n1, st2.get(), wk2.get(), sig ? &R2 : nullptr, cancel, me.SimFixSize, -me.Seed, sigp, ch.MaxConditionNumber, INT32_MAX, lam ? &lm : nullptr);
              if (!(ch.MaxConditionNumber < 1e6)) { // a singular training sample
                int valid = q.ValidIters;
                SurSimulation q3(dd.r, n1, g, me.TrainRatio, me.TrainFixSize, me.MetricsOut, sig > 0, sig, nullptr, nullptr);
                std::unique_ptr<double[]> s3(new double[q3.StorageSize]);
                try {
                  q3.Calculate(ddv, n1, s3.get(), wk2.get(), sig ? &R2 : nullptr, cancel, me.SimFixSize, -me.Seed, sigp, 1e6, INT32_MAX, lam ? &lm : nullptr);
                } catch (const std::exception &) {
                  throw pbt::Discard();
                }
                if (q3.ValidIters != valid || valid < me.SimFixSize)
                  throw pbt::Discard();
              }
              if (q.ValidIters < ch.MinOutSim)
                throw std::runtime_error("simulations");
              for (size_t i = 0; i < me.MetricsOut.size(); i++)
                for (int t = 0; t < nt; t++)
                  e.metric((int)(me.MetricsIn.size() + i), t) = q.Results.Get0((int)i, t);
            }
            bool nan = true;
            for (int i = 0; i < e.metric.n(); i++)
              nan &= std::isnan(e.metric.p[i]);
            if (nan)
              throw std::runtime_error("nan");
          };
          try {
            body();
          } catch (const std::exception &x2) {
            e.fail = x2.what();
          }
          ex.push_back(e);
        }
  SurModelset q(d, co, op, it, me, ch, sig, sigp);
  auto wk = buf(s, q.Modelset.WorkSize);
  std::unique_ptr<int[]> wi(new int[q.Modelset.WorkSizeI]);
  q.Modelset.Start(wk.get(), wi.get());
  verify(c, q.Modelset, it, me, ex, ne + nx, 1e-8);
  int ok = 0;
  for (auto &e : ex)
    ok += e.fail.empty();
  c.nontrivial(ok >= 3);
  if (sig)
    c.label("significance");
  if (out)
    c.label("simulations");
}
FACET(regressions, "three models or more that do not fail", 1500) { sur_search(s, c, false); }

// --- discrete choice models
static void dc_search(Src &s, Ctx &c, bool parallel) {
  int J = s.chance(2, 3) ? 2 : 3, nx = s.range(2, 4), N = s.range(25, 45);
  bool hw = s.chance(1, 3), logit = s.coin(), probit = !logit || s.coin();
  M y, x;
  gen_dc(s, N, nx, J, true, y, x);
  M w(N, 1);
  for (int i = 0; i < N; i++)
    w.p[i] = s.unif(0.3, 2);
  M all = hw ? hcat(hcat(y, w), x) : hcat(y, x);
  for (int i = s.chance(1, 3) ? s.range(1, 4) : 0; i > 0; i--)
    all(s.range(0, N - 1), s.chance(1, 2) ? all.c - 1 : s.range(0, all.c - 1)) = NAN;
  int mx = 0;
  for (int i = 0; i < N; i++)
    mx = std::max(mx, std::isnan(all(i, 0)) ? 0 : (int)all(i, 0));
  if (mx != J - 1)
    throw pbt::Discard();
  SearchData d = basic_data(1, nx);
  d.HasIntercept = true;
  d.HasWeight = hw;
  ldt::Matrix<double> dv = all.v();
  d.Data = dv;
  std::vector<V> parts = {{1}};
  if (nx > 1)
    for (auto &p : gen_parts(s, 2, nx - 1, 4))
      parts.push_back(p);
  int P = (int)parts.size();
  std::vector<int> sizes;
  for (int i : s.subset(P, s.range(1, P)))
    sizes.push_back(i + 1);
  int fix = s.chance(2, 3) ? 1 : s.range(1, std::min(2, *std::min_element(sizes.begin(), sizes.end())));
  SearchItems it;
  int len1 = s.coin() ? 0 : nx + J - 2;
  gen_items(s, it, len1);
  SearchMetricOptions me;
  SearchModelChecks ch;
  SearchOptions op;
  op.Parallel = parallel;
  static const std::vector<GT> ins = {GT::kAic, GT::kSic, GT::kFrequencyCost, GT::kAuc, GT::kBrier};
  static const std::vector<ST> outs = {ST::kFrequencyCost, ST::kAuc, ST::kBrier};
  int ni = s.range(0, 3);
  for (int i : s.subset(J == 2 ? 5 : 3, ni))
    me.MetricsIn.push_back(ins[i]);
  if (ni == 0 || s.coin())
    for (int i : s.subset(J == 2 ? 3 : 1, s.range(1, J == 2 ? 3 : 1)))
      me.MetricsOut.push_back(outs[i]);
  bool out = !me.MetricsOut.empty(), cost = false, order = false;
  for (auto g : me.MetricsIn) {
    cost |= g == GT::kFrequencyCost;
    order |= g == GT::kAuc;
  }
  for (auto g : me.MetricsOut) {
    cost |= g == ST::kFrequencyCost;
    order |= g == ST::kAuc;
  }
  if (out || s.chance(1, 4)) {
    me.SimFixSize = s.range(1, 4);
    if (s.coin())
      me.TrainRatio = s.unif(0.6, 0.85);
    else
      me.TrainFixSize = s.range(18, 22);
    if (s.chance(1, 3))
      ch.MinOutSim = s.range(1, me.SimFixSize);
  }
  me.Seed = -s.range(1, 1000);
  me.WeightedEval = s.coin();
  std::vector<M> cm;
  std::vector<ldt::Matrix<double>> cv;
  if (cost)
    for (int i = s.range(1, 2); i > 0; i--)
      cm.push_back(gen_cost(s, J));
  for (auto &q : cm)
    cv.push_back(q.v());
  ch.Estimation = len1 > 0 || s.coin();
  double aic = N * 1.4;
  if (s.chance(1, 6))
    ch.MinObsCount = s.range(N - 5, N);
  if (s.chance(1, 6))
    ch.MinDof = s.range(N - 7, N - 1);
  if (s.chance(1, 6))
    ch.MaxAic = s.unif(0.6, 1.5) * aic;
  if (s.chance(1, 6))
    ch.MaxSic = s.unif(0.6, 1.6) * aic;
  if (s.chance(1, 6) && J == 2)
    ch.MaxConditionNumber = std::exp(s.unif(1, 6));
  bool est = ch.Estimation || ni || ch.MinObsCount || ch.MinDof || std::isfinite(ch.MaxAic) || std::isfinite(ch.MaxSic);
  minimums(s, me, 1, aic);
  bool small = s.chance(1, 8); // an iteration limit which some estimations reach
  Newton nw;
  nw.IterationMax = small ? s.range(2, 5) : 100;
  nw.TolFunction = 1e-9;
  nw.TolGradient = 1e-9;
  RocOptions ro;
  c.desc << "choices " << J << (logit ? " logit" : "") << (probit ? " probit" : "") << " weights " << hw << " evaluation " << me.WeightedEval << " sizes " << vec_str(sizes) << " partitions " << parts_str(parts) << " fixed " << fix << " " << items_str(it) << " " << metrics_str(me) << " simulations " << me.SimFixSize << " train " << me.TrainRatio << "/" << me.TrainFixSize << " estimation "
         << ch.Estimation << " obs " << ch.MinObsCount << " dof " << ch.MinDof << " aic " << ch.MaxAic << " sic " << ch.MaxSic << " cn " << ch.MaxConditionNumber << " valid " << ch.MinOutSim << " iterations " << nw.IterationMax;
  for (auto &q : cm)
    c.desc << " cost=" << q.str();
  c.desc << " data=" << all.str();
  std::vector<Exp> ex;
  int nm = (int)(me.MetricsIn.size() + me.MetricsOut.size()), ww = hw ? 1 : 0;
  for (int g : sizes)
    for (int dt = 0; dt < 2; dt++) {
      if (!(dt ? probit : logit))
        continue;
      auto type = dt ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit;
      auto mt = J == 2 ? DiscreteChoiceModelType::kBinary : DiscreteChoiceModelType::kOrdered;
      for (auto &v : enumerate(parts, g, fix)) {
        Exp e;
        e.key = {{0}, v, {(int)type}};
        e.tpos = {0};
        e.metric = M(nm, 1);
        e.mean = M(len1, 1, NAN);
        e.var = M(len1, 1, NAN);
        V cs = {0};
        if (hw)
          cs.push_back(1);
        for (int a : v)
          cs.push_back(a + ww);
        M dd = select(all, cs, true);
        M yy = cols(dd, 0, 1), xx = cols(dd, 1 + ww, g), we = hw ? cols(dd, 1, 1) : M();
        auto yv = yy.v(), xv = xx.v(), wv = we.v(), ddv = dd.v();
        auto body = [&] {
          if (est && ch.MinObsCount && dd.r < ch.MinObsCount)
            throw std::runtime_error("observations");
          if (est && ch.MinDof && dd.r - g - (J - 2) < ch.MinDof)
            throw std::runtime_error("degrees of freedom");
          RefDc ref; // only to know that the model is well determined
          if (!ref.fit(yy, xx, hw ? &we : nullptr, J, dt == 1, 1e5))
            throw pbt::Discard();
          if (est) {
            auto q = DiscreteChoiceBase::GetFromType(mt, type, dd.r, g, J, true);
            q->Optim.IterationMax = nw.IterationMax;
            q->Optim.TolFunction = nw.TolFunction;
            q->Optim.TolGradient = nw.TolGradient;
            q->Optim.UseLineSearch = nw.UseLineSearch;
            std::unique_ptr<double[]> st(new double[q->StorageSize]), wk(new double[q->WorkSize]);
            q->Calculate(yv, xv, hw ? &wv : nullptr, st.get(), wk.get(), J, true);
            if (near(q->condition_number, ch.MaxConditionNumber) || near(q->Aic, ch.MaxAic) || near(q->Sic, ch.MaxSic))
              throw pbt::Discard();
            if (q->condition_number > ch.MaxConditionNumber)
              throw std::runtime_error("condition number");
            if (q->Aic > ch.MaxAic || q->Sic > ch.MaxSic)
              throw std::runtime_error("criteria");
            M pr(dd.r, J);
            auto pv = pr.v();
            std::unique_ptr<double[]> wp(new double[g + dd.r + J]);
            q->GetProbabilities(xv, pv, wp.get());
            const M *wq = hw && me.WeightedEval ? &we : nullptr;
            robust(yy, pr, cm, order && g > 1);
            for (size_t i = 0; i < me.MetricsIn.size(); i++) {
              double r = NAN;
              switch (me.MetricsIn[i]) {
              case GT::kAic:
                r = q->Aic;
                break;
              case GT::kSic:
                r = q->Sic;
                break;
              case GT::kBrier:
                r = ref_brier(yy, pr, wq);
                break;
              case GT::kAuc:
                r = ref_auc(yy, pr, wq);
                break;
              default:
                r = 0;
                for (auto &t : cm) {
                  double a, b;
                  ref_cost(t, yy, pr, wq, a, b);
                  r += a / b / cm.size();
                }
              }
              e.metric((int)i, 0) = r;
            }
            if (len1)
              for (int i = 0; i < g; i++) {
                e.mean(v[i] - 1, 0) = q->Beta.Data[i];
                e.var(v[i] - 1, 0) = q->BetaVar.Get0(i, i);
              }
          }
          if (out) {
            bool hb = false, ha = false;
            for (auto o : me.MetricsOut) {
              hb |= o == ST::kBrier;
              ha |= o == ST::kAuc;
            }
            auto q = DiscreteChoiceSimBase::GetFromType(hw, mt, type, dd.r, dd.c, J, me.TrainRatio, me.TrainFixSize, (int)cm.size(), hb, ha, false, nullptr, me.WeightedEval);
            q->Optim.IterationMax = nw.IterationMax;
            q->Optim.TolFunction = nw.TolFunction;
            q->Optim.TolGradient = nw.TolGradient;
            q->Optim.UseLineSearch = nw.UseLineSearch;
            q->Seed = -me.Seed;
            q->SimulationMax = me.SimFixSize;
            std::unique_ptr<double[]> st(new double[q->StorageSize]), wk(new double[q->WorkSize]);
            std::unique_ptr<int[]> wi(new int[q->WorkSizeI]);
            bool cancel = false;
            q->Calculate(ddv, &cv, st.get(), wk.get(), wi.get(), cancel, ro);
            if (q->ValidSimulationCount < ch.MinOutSim)
              throw std::runtime_error("simulations");
            for (size_t i = 0; i < me.MetricsOut.size(); i++) {
              double r = 0;
              if (me.MetricsOut[i] == ST::kBrier)
                r = q->BrierScore;
              else if (me.MetricsOut[i] == ST::kAuc)
                r = q->Auc;
              else
                for (size_t a = 0; a < cm.size(); a++)
                  r += q->CostRatios.Data[a] / cm.size();
              e.metric((int)(me.MetricsIn.size() + i), 0) = r;
            }
          }
          bool nan = true;
          for (int i = 0; i < e.metric.n(); i++)
            nan &= std::isnan(e.metric.p[i]);
          if (nan)
            throw std::runtime_error("nan");
        };
        try {
          body();
        } catch (const std::exception &x2) {
          e.fail = x2.what();
        }
        ex.push_back(e);
      }
    }
  auto co = combos(sizes, parts, fix, {}, 1);
  std::unique_ptr<DiscreteChoiceModelsetBase> q(DiscreteChoiceModelsetBase::GetFromTypes(J == 2, hw, d, co, op, it, me, ch, dv, cv, logit, probit, nw, ro));
  auto wk = buf(s, q->Modelset.WorkSize);
  std::unique_ptr<int[]> wi(new int[q->Modelset.WorkSizeI]);
  q->Start(wk.get(), wi.get());
  verify(c, q->Modelset, it, me, ex, 1 + nx, 1e-7);
  int ok = 0;
  for (auto &e : ex)
    ok += e.fail.empty();
  c.nontrivial(ok >= 3);
  if (out)
    c.label("simulations");
  if (J > 2)
    c.label("ordered");
}
FACET(choices, "three models or more that do not fail", 600) { dc_search(s, c, false); }
// --- vector autoregressive moving averages
static void varma_search(Src &s, Ctx &c, bool parallel) {
  int ne = s.range(1, 3), nx = s.coin() ? 0 : s.range(1, 2), targets = s.range(1, ne), N = s.range(30, 42), H = s.range(0, 3);
  bool season = s.chance(1, 6), ma = s.chance(1, 3);
  int sc = season ? s.range(2, 4) : 0;
  V maxp = {s.range(ma ? 0 : 1, 2), s.chance(1, 4) ? 1 : 0, ma ? 1 : 0, season ? s.range(0, 1) : 0, season && s.chance(1, 3) ? 1 : 0, 0};
  // data: variables in the rows
  M all(ne + nx, N + H, NAN);
  {
    M a(ne, ne);
    for (int i = 0; i < a.n(); i++)
      a.p[i] = s.unif(-0.35, 0.35);
    for (int i = 0; i < ne; i++)
      a(i, i) += 0.3;
    M l = gen_norm(s, ne, ne);
    double mu = s.chance(1, 3) ? 20 : s.unif(-1, 1);
    M prev(ne, 1), e(ne, 1);
    for (int j = 0; j < nx; j++)
      for (int t = 0; t < N + H; t++)
        all(ne + j, t) = j == 0 && nx == 1 ? 1 : s.norm() + (j == 0);
    for (int t = -10; t < N; t++) {
      for (int i = 0; i < ne; i++)
        e.p[i] = s.norm();
      prev = add(mul(a, prev), mul(l, e));
      for (int i = 0; i < ne && t >= 0; i++)
        all(i, t) = mu + prev.p[i] + (nx ? 0.5 * all(ne, t) : 0) + 0.3 * e.p[i] + 0.3 * s.norm();
    }
  }
  for (int i = 0; i < ne; i++) { // ragged
    if (s.chance(1, 4))
      for (int t = s.range(1, 4) - 1; t >= 0; t--)
        all(i, t) = NAN;
    if (s.chance(1, 5))
      for (int t = s.range(1, 3); t > 0; t--)
        all(i, N - t) = NAN;
  }
  for (int j = 0; j < nx; j++)
    if (s.chance(1, 4)) {
      if (s.coin())
        for (int t = s.range(1, 3) - 1; t >= 0; t--)
          all(ne + j, t) = NAN;
      else
        for (int t = s.range(1, H + 2); t > 0; t--)
          all(ne + j, N + H - t) = NAN;
    }
  auto start = [&](int v) { int t = 0; while (t < N + H && std::isnan(all(v, t))) t++; return t; };
  auto end = [&](int v) { int t = N + H - 1; while (t >= 0 && std::isnan(all(v, t))) t--; return t; };
  SearchData d = basic_data(ne, nx);
  SearchItems it;
  SearchMetricOptions me;
  SearchModelChecks ch;
  SearchOptions op;
  op.Parallel = parallel;
  ch.Prediction = s.chance(2, 3);
  int mh = ch.Prediction ? s.range(1, nx ? std::max(1, H) : 4) : 0;
  int len1 = ch.Prediction && s.chance(2, 3) ? s.range(1, mh) : 0;
  gen_items(s, it, len1);
  it.LengthTargets = targets;
  it.LengthEndogenous = ne;
  it.LengthExogenous = nx;
  int ni = s.range(0, 2);
  for (int i : s.subset(2, ni))
    me.MetricsIn.push_back(i ? GT::kSic : GT::kAic);
  static const std::vector<ST> outs = {ST::kSign, ST::kMae, ST::kRmse, ST::kDirection, ST::kCrps};
  bool lam = s.chance(1, 6);
  if (ni == 0 || s.coin())
    for (int i : s.subset(lam ? 4 : 5, s.range(1, 3)))
      me.MetricsOut.push_back(outs[i]);
  bool out = !me.MetricsOut.empty();
  if (lam)
    for (int i = 0; i < ne; i++)
      d.Lambdas.push_back(s.chance(1, 3) ? NAN : s.pick<double>({0.0, 1.0, 1.0}));
  if (out) {
    auto hs = s.subset(4, s.range(1, 2));
    for (int h : sorted(V(hs.begin(), hs.end())))
      me.Horizons.push_back(h + 1);
    me.SimFixSize = s.range(me.Horizons.back(), 6);
    if (s.chance(1, 3))
      ch.MinOutSim = s.range(1, me.SimFixSize);
  }
  ch.Estimation = s.coin();
  double aic = N * 3;
  if (s.chance(1, 6))
    ch.MinObsCount = s.range(N - 6, N);
  if (s.chance(1, 6))
    ch.MaxAic = s.unif(0.5, 2) * aic;
  if (s.chance(1, 6))
    ch.MaxSic = s.unif(0.5, 2) * aic;
  if (s.chance(1, 5))
    ch.MaxConditionNumber = std::exp(s.unif(1, 8));
  bool est = ch.Estimation || ni || ch.MinObsCount || ch.Prediction || std::isfinite(ch.MaxAic) || std::isfinite(ch.MaxSic);
  M lo(mh, targets, -INFINITY), hi(mh, targets, INFINITY);
  if (ch.Prediction && s.chance(1, 3)) {
    for (int i = 0; i < lo.n(); i++) {
      lo.p[i] = s.chance(1, 4) ? NAN : s.unif(-4, 0) * 2;
      hi.p[i] = s.unif(0, 4) * 2 + (s.coin() ? 20 : 0);
    }
    ch.PredictionLower.SetData(lo.p.get(), mh, targets);
    ch.PredictionUpper.SetData(hi.p.get(), mh, targets);
  }
  minimums(s, me, targets, aic);
  bool prev = s.coin();
  double mult = 2;
  auto parts = gen_parts(s, 0, ne, 3);
  int P = (int)parts.size();
  std::vector<int> sizes;
  for (int i : s.subset(P, s.range(1, P)))
    sizes.push_back(i + 1);
  int fix = s.chance(2, 3) ? 0 : s.range(0, *std::min_element(sizes.begin(), sizes.end()));
  std::vector<V> inner;
  for (int i = nx ? s.range(0, 2) : 0; i > 0; i--) {
    auto u = s.subset(nx, s.range(0, nx));
    V v;
    for (int a : u)
      v.push_back(a + ne);
    v = sorted(v);
    if (std::find(inner.begin(), inner.end(), v) == inner.end())
      inner.push_back(v);
  }
  LimitedMemoryBfgsbOptions optim;
  c.desc << "targets " << targets << " of " << ne << " exogenous " << nx << " sizes " << vec_str(sizes) << " partitions " << parts_str(parts) << " fixed " << fix << " groups " << parts_str(inner) << " parameters " << vec_str(maxp) << " season " << sc << " " << items_str(it) << " " << metrics_str(me) << " horizons " << vec_str(me.Horizons) << " simulations " << me.SimFixSize
         << " lambdas " << vec_str(d.Lambdas) << " prediction " << ch.Prediction << " up to " << mh << " previous " << prev << " estimation " << ch.Estimation << " obs " << ch.MinObsCount << " aic " << ch.MaxAic << " sic " << ch.MaxSic << " cn " << ch.MaxConditionNumber << " valid " << ch.MinOutSim << " bounds " << lo.str() << hi.str() << " data=" << all.str();
  std::vector<Exp> ex;
  int nm = (int)(me.MetricsIn.size() + me.MetricsOut.size());
  auto groups = inner.empty() ? std::vector<V>(1) : inner;
  bool weird = false;
  auto model = [&](int p, int dd, int q, int P_, int D, int Q, const V &exo, const V &v) {
    Exp e;
    e.key = {v, exo, {p, dd, q, P_, D, Q}};
    for (int a : v)
      if (a < targets)
        e.tpos.push_back(a);
    int nt = (int)e.tpos.size(), g = (int)v.size(), k = (int)exo.size();
    e.metric = M(nm, nt);
    e.mean = M(len1, nt, NAN);
    e.var = M(len1, nt, NAN);
    int s0 = 0, s1 = N + H;
    for (auto *w : {&v, &exo})
      for (int a : *w) {
        s0 = std::max(s0, start(a));
        s1 = std::min(s1, end(a));
      }
    int T = s1 - s0 + 1;
    M y(g, T), x(k, N + H - s0);
    for (int t = 0; t < T; t++)
      for (int i = 0; i < g; i++)
        y(i, t) = all(v[i], s0 + t);
    for (int t = 0; t < x.c; t++)
      for (int i = 0; i < k; i++)
        x(i, t) = all(exo[i], s0 + t);
    auto yv = y.v(), xv = x.v();
    auto body = [&] {
      if (est && ch.MinObsCount && T < ch.MinObsCount)
        throw std::runtime_error("observations");
      VarmaSizes z(T, g, k, p, dd, q, P_, D, Q, sc, true);
      if (T - 12 < (z.NumParamsEq + g) * 2 + 2)
        throw pbt::Discard(); // too few observations
      bool rest = z.HasMa;
      VarmaRestriction rs(z, VarmaRestrictionType::kMaFinal);
      std::unique_ptr<double[]> rd(new double[rs.StorageSize]);
      if (rest)
        rs.Calculate(rd.get());
      Varma m(z, true, true, true, &optim);
      std::unique_ptr<double[]> st(new double[m.Result.StorageSize]), wk(new double[m.Result.WorkSize]);
      try {
        m.EstimateMl(yv, k ? &xv : nullptr, wk.get(), st.get(), rest ? &rs.R : nullptr, nullptr, 0, false, mult);
      } catch (const std::exception &) {
        throw pbt::Discard(); // a singular model
      }
      M sv = from(m.Result.sigma2);
      double vv = 1;
      for (int i = 0; i < g; i++)
        vv *= sv(i, i);
      if (!(m.Result.cn < 1e7) || !(det(sv) > 1e-8 * vv) || !(sv.maxabs() > 1e-6 * y.maxabs()) || !(from(m.Result.coef).maxabs() < 1e4))
        throw pbt::Discard();
      weird |= near(m.Result.cn, ch.MaxConditionNumber);
      if (est) {
        if (m.Result.cn > ch.MaxConditionNumber)
          throw std::runtime_error("condition number");
        if (near(m.Result.Aic, ch.MaxAic) || near(m.Result.Sic, ch.MaxSic))
          throw pbt::Discard();
        if (m.Result.Aic > ch.MaxAic || m.Result.Sic > ch.MaxSic)
          throw std::runtime_error("criteria");
        if (ch.Prediction) {
          for (int i = 0; i < k; i++)
            for (int h = 0; h < mh; h++)
              if (T + h >= x.c || std::isnan(x(i, T + h)))
                throw std::runtime_error("no exogenous data");
          VarmaForecast f(z, mh, true);
          std::unique_ptr<double[]> fs(new double[f.StorageSize]), fw(new double[f.WorkSize]);
          f.Calculate(m, k ? &xv : nullptr, &yv, fs.get(), fw.get(), mh, false);
          for (int h = 0; h < mh; h++)
            for (int i = 0; i < nt; i++) {
              double q2 = f.Forecast.Get0(i, f.StartIndex + h);
              if (!(std::fabs(q2) < 1e6))
                throw pbt::Discard();
              if (near(q2, lo(h, e.tpos[i])) || near(q2, hi(h, e.tpos[i])))
                throw pbt::Discard();
              if (h < len1) {
                e.mean(h, i) = q2;
                e.var(h, i) = f.Variance.Get0(i, f.StartIndex + h);
              }
            }
          for (int h = 0; h < mh; h++)
            for (int i = 0; i < nt; i++) {
              double q2 = f.Forecast.Get0(i, f.StartIndex + h);
              if (q2 < lo(h, e.tpos[i]) || q2 > hi(h, e.tpos[i]))
                throw std::runtime_error("bounds");
            }
        }
        for (size_t i = 0; i < me.MetricsIn.size(); i++)
          for (int t = 0; t < nt; t++)
            e.metric((int)i, t) = me.MetricsIn[i] == GT::kAic ? m.Result.Aic : m.Result.Sic;
      }
      if (out) {
        VarmaSimulation q2(z, me.SimFixSize, me.Horizons, me.MetricsOut, &optim);
        std::unique_ptr<double[]> qs(new double[q2.StorageSize]), qw(new double[q2.WorkSize]);
        bool cancel = false;
        std::vector<double> lm;
        if (lam)
          for (int a : v)
            lm.push_back(d.Lambdas[a]);
        q2.Calculate(qs.get(), qw.get(), yv, cancel, k ? &xv : nullptr, rest ? &rs.R : nullptr, nullptr, prev, ch.MaxConditionNumber, mult, false, INT32_MAX, lam ? &lm : nullptr);
        int tried = me.SimFixSize - me.Horizons[0] + 1;
        if (q2.ValidCounts == 0 || tried - q2.ValidCounts > me.SimFixSize - ch.MinOutSim)
          throw std::runtime_error("simulations");
        for (size_t i = 0; i < me.MetricsOut.size(); i++)
          for (int t = 0; t < nt; t++)
            e.metric((int)(me.MetricsIn.size() + i), t) = q2.ResultAggs.Get0((int)i, t);
      }
      bool nan = true;
      for (int i = 0; i < e.metric.n(); i++)
        nan &= std::isnan(e.metric.p[i]);
      if (nan)
        throw std::runtime_error("nan");
    };
    try {
      body();
    } catch (const std::exception &x2) {
      e.fail = x2.what();
    }
    ex.push_back(e);
  };
  int count = 0;
  for (int g : sizes)
    for (int p = 0; p <= maxp[0]; p++)
      for (int dd = 0; dd <= maxp[1]; dd++)
        for (int q = 0; q <= maxp[2]; q++)
          for (int P_ = 0; P_ <= maxp[3]; P_++)
            for (int D = 0; D <= maxp[4]; D++)
              for (int Q = 0; Q <= maxp[5]; Q++)
                if (p || q || P_ || Q)
                  for (auto &exo : groups)
                    for (auto &v : enumerate(parts, g, fix))
                      if (v[0] < targets) {
                        if (++count > (ma ? 12 : 40))
                          throw pbt::Discard();
                        model(p, dd, q, P_, D, Q, exo, v);
                      }
  if (weird)
    throw pbt::Discard();
  DatasetTs<true> src(all.r, all.c, true, true);
  auto dv = all.v();
  src.Data(dv);
  d.Data = dv;
  auto co = combos(sizes, parts, fix, inner, targets);
  VarmaModelset q(d, co, op, it, me, ch, src, maxp, sc, prev, &optim, mult, mh);
  auto wk = buf(s, q.Modelset.WorkSize);
  std::unique_ptr<int[]> wi(new int[q.Modelset.WorkSizeI]);
  q.Modelset.Start(wk.get(), wi.get());
  verify(c, q.Modelset, it, me, ex, ne + nx, 1e-6);
  int ok = 0;
  for (auto &e : ex)
    ok += e.fail.empty();
  c.nontrivial(ok >= 3);
  if (ma)
    c.label("moving average");
  if (out)
    c.label("simulations");
}
FACET(timeseries, "three models or more that do not fail", 500) { varma_search(s, c, false); }

#ifdef LDT_TEST_OPENMP
FACET(parallel, "three models or more that do not fail", 600) {
  omp_set_num_threads(4);
  switch (s.range(0, 3)) {
  case 0:
    c.label("synthetic");
    return synthetic(s, c, true);
  case 1:
    c.label("regression");
    return sur_search(s, c, true);
  case 2:
    c.label("choice");
    return dc_search(s, c, true);
  default:
    c.label("time series");
    return varma_search(s, c, true);
  }
}
#endif
