// C15: distances between variables, hierarchical clustering and grouping
#include "clustering.h"
#include "mat.h"
#include <set>
using namespace ldt;
typedef long double L;
static const DistanceMethod DM[] = {DistanceMethod::kEuclidean, DistanceMethod::kManhattan, DistanceMethod::kMaximum, DistanceMethod::kCorrelation, DistanceMethod::kAbsCorrelation};
static const HClusterLinkage LK[] = {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kAverageU, HClusterLinkage::kAverageW, HClusterLinkage::kWard};
static std::vector<double> ranks(const std::vector<double> &v) { // number of larger values
  std::vector<double> r;
  for (size_t i = 0; i < v.size(); i++) {
    int n = 0;
    for (size_t j = 0; j < v.size(); j++)
      n += v[j] > v[i];
    r.push_back(n);
  }
  return r;
}
static double ref_dist(const M &x, int i, int j, int dm, bool sp) {
  std::vector<double> a, b;
  for (int k = 0; k < x.r; k++)
    if (!std::isnan(x(k, i)) && !std::isnan(x(k, j)))
      a.push_back(x(k, i)), b.push_back(x(k, j));
  L sum = 0;
  int n = (int)a.size();
  if (dm <= 2) {
    for (int k = 0; k < n; k++) {
      L d = fabsl((L)a[k] - b[k]);
      sum = dm == 0 ? sum + d * d : dm == 1 ? sum + d : std::max(sum, d);
    }
    return (double)(dm == 0 ? sqrtl(sum) : sum);
  }
  if (sp)
    a = ranks(a), b = ranks(b);
  L ma = 0, mb = 0, sa = 0, sb = 0, sab = 0;
  for (int k = 0; k < n; k++)
    ma += a[k], mb += b[k];
  ma /= n, mb /= n;
  for (int k = 0; k < n; k++)
    sa += (a[k] - ma) * (a[k] - ma), sb += (b[k] - mb) * (b[k] - mb), sab += (a[k] - ma) * (b[k] - mb);
  bool ca = true, cb = true;
  for (int k = 1; k < n; k++)
    ca &= a[k] == a[0], cb &= b[k] == b[0];
  if (ca && cb)
    return -1; // 0/0: left open
  if (ca || cb)
    return NAN;
  L xa = 0, xb = 0;
  for (int k = 0; k < n; k++)
    xa = std::max(xa, fabsl(a[k])), xb = std::max(xb, fabsl(b[k]));
  if (sqrtl(sa / n) < 1e-2L * xa || sqrtl(sb / n) < 1e-2L * xb)
    return -1; // the spread is lost in rounding
  L r = sab / sqrtl(sa * sb);
  return (double)(dm == 3 ? sqrtl(std::max((L)0, (1 - r) / 2)) : sqrtl(std::max((L)0, 1 - r * r)));
}
static M gen_data(Src &s, int r, int k, bool nan, int dm, bool sp) {
  M x(r, k);
  std::vector<double> f(r);
  for (auto &v : f)
    v = s.norm();
  bool ints = s.chance(1, 4) && !sp;
  for (int j = 0; j < k; j++) {
    double ld = s.coin() ? 2 * s.norm() : 0, off = s.pick<double>({0, 0, 1, -20});
    if (j && s.chance(1, 6)) { // the same or the opposite of an earlier variable
      int o = s.range(0, j - 1);
      double sg = s.coin() ? 1 : s.pick<double>({-1, 0.3, -7});
      for (int i = 0; i < r; i++)
        x(i, j) = sg * x(i, o);
      continue;
    }
    for (int i = 0; i < r; i++)
      x(i, j) = ints ? (double)s.sint(-4, 4) : off + s.norm() + ld * f[i];
  }
  if (nan)
    for (int i = 2; i < r; i++) // the first rows stay complete
      for (int j = 0; j < k; j++)
        if (s.chance(1, 6))
          x(i, j) = NAN;
  if (dm >= 3 && s.chance(1, 8)) { // a constant variable
    int j = s.range(0, k - 1);
    for (int i = 0; i < r; i++)
      x(i, j) = 3;
  }
  return x;
}
FACET(distances, "at least three variables and three rows", 3000) {
  int dm = s.range(0, 4), r = s.range(2, 12), k = s.range(2, 7);
  bool sp = dm >= 3 && s.coin(), nan = s.coin();
  M x = gen_data(s, r, k, nan, dm, sp), x0 = x;
  bool check = nan || s.coin();
  c.desc << ToString(DM[dm]) << (sp ? " spearman" : "") << (check ? " checkNaN " : " ") << x.str();
  auto d = DistanceBase::GetFromType(check, DM[dm], sp ? CorrelationMethod::kSpearman : CorrelationMethod::kPearson, r + s.range(0, 2), k + s.range(0, 1));
  auto st = buf(s, d->StorageSize), w = buf(s, d->WorkSize);
  d = DistanceBase::GetFromType(check, DM[dm], sp ? CorrelationMethod::kSpearman : CorrelationMethod::kPearson, r, k);
  st = buf(s, d->StorageSize), w = buf(s, d->WorkSize);
  d->Calculate(x.v(), st.get(), w.get());
  for (int i = 0; i < k; i++)
    for (int j = 0; j < i; j++) {
      double e = ref_dist(x0, i, j, dm, sp), g = d->Result.Get(i, j), h = d->Result.Get(j, i);
      if (e == -1)
        continue;
      // 1 - r loses half of the digits near r = 1
      CHECK(close(g, e, 1e-8, dm >= 3 ? 1e-6 : 1e-12), "the distance of " << i << " and " << j << " is " << g << " instead of " << e);
      CHECK((std::isnan(g) && std::isnan(h)) || g == h, "the distances are not symmetric");
      if (dm >= 3 && !std::isnan(e))
        CHECK(!std::isnan(g), "the distance of " << i << " and " << j << " is missing");
    }
  for (int i = 0; i < x.n(); i++)
    CHECK(close(x.p[i], x0.p[i], 0, 0), "the data change");
  for (int i = 0; i < 5; i++)
    CHECK(FromString_DistanceMethod(std::vector<const char *>{"euclidean", "manhattan", "maximum", "correlation", "abscorrelation"}[i]) == DM[i], "names of distances");
  if (k >= 3 && r >= 3)
    c.nontrivial();
}
static long pos(int i, int j, int n) { // strictly lower triangle by columns
  if (i < j)
    std::swap(i, j);
  return (long)j * n - (long)j * (j + 1) / 2 + (i - j - 1);
}
struct Node {
  std::set<int> leaves;
  double h;
};
static double lw(int lk, int nl, int nr, int nk, double dl, double dr, double d) {
  switch (lk) {
  case 0: return std::min(dl, dr);
  case 1: return std::max(dl, dr);
  case 2: return (nl * dl + nr * dr) / (nl + nr);
  case 3: return (dl + dr) / 2;
  default: return ((nl + nk) * dl + (nr + nk) * dr - nk * d) / (nl + nr + nk);
  }
}
// agglomeration by its definition: always merge the nearest pair. gap is the smallest advantage of a chosen pair
static std::vector<Node> naive(const M &D, int lk, double &gap) {
  int n = D.r;
  M d = D;
  std::vector<Node> out;
  std::vector<std::set<int>> cl(n);
  std::vector<bool> on(n, true);
  for (int i = 0; i < n; i++)
    cl[i] = {i};
  gap = 1e300;
  for (int q = 0; q + 1 < n; q++) {
    double best = 1e300, second = 1e300;
    int bi = 0, bj = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++)
        if (on[i] && on[j]) {
          if (d(i, j) < best)
            second = best, best = d(i, j), bi = i, bj = j;
          else
            second = std::min(second, d(i, j));
        }
    gap = std::min(gap, second - best);
    for (int k = 0; k < n; k++)
      if (on[k] && k != bi && k != bj)
        d(k, bj) = d(bj, k) = lw(lk, (int)cl[bi].size(), (int)cl[bj].size(), (int)cl[k].size(), d(bi, k), d(bj, k), best);
    cl[bj].insert(cl[bi].begin(), cl[bi].end());
    on[bi] = false;
    out.push_back({cl[bj], best});
  }
  return out;
}
static M gen_dist(Src &s, int n, int kind) { // 0 continuous, 1 squared euclidean, 2 small integers
  M D(n, n);
  if (kind == 1) {
    int dim = s.range(1, 3);
    M p = gen_norm(s, n, dim);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        for (int k = 0; k < dim; k++)
          D(i, j) += (p(i, k) - p(j, k)) * (p(i, k) - p(j, k));
    return D;
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      D(i, j) = D(j, i) = kind == 2 ? (double)s.range(1, 6) : s.unif(0.01, 5);
  return D;
}
// the merge matrix and heights in R's format as a list of nodes; checks that they are a tree
static std::vector<Node> tree(const HClusterBase &m, int n, bool order_exact, std::vector<std::pair<int, int>> *kids = nullptr) {
  std::unique_ptr<double[]> hd(new double[n - 1]);
  std::unique_ptr<int[]> md(new int[2 * (n - 1)]);
  ldt::Matrix<double> h(hd.get(), n - 1);
  ldt::Matrix<int> mg(md.get(), n - 1, 2);
  std::vector<int> order;
  const_cast<HClusterBase &>(m).MergeR(mg, h, order);
  CHECK((int)order.size() == n - 1 && std::set<int>(order.begin(), order.end()).size() == (size_t)(n - 1), "the order is " << vec_str(order));
  std::vector<Node> out(n - 1);
  std::set<int> used;
  std::vector<int> todo(n - 1);
  for (int q = 0; q + 1 < n; q++) {
    out[q].h = h.Data[q];
    CHECK(q == 0 || h.Data[q] >= h.Data[q - 1], "the heights decrease: " << vec_str(h.Data, n - 1));
    for (int t = 0; t < 2; t++) {
      int v = mg.Get(q, t);
      CHECK(v != 0 && v >= -n && v <= n - 1, "merge " << q << " refers to " << v);
      CHECK(used.insert(v).second, v << " is merged twice");
      if (order_exact)
        CHECK(v < 0 || v - 1 < q, "merge " << q + 1 << " refers to the later merge " << v);
    }
    if (kids)
      kids->push_back({mg.Get(q, 0), mg.Get(q, 1)});
  }
  std::function<void(int, std::set<int> &, int)> collect = [&](int q, std::set<int> &into, int depth) {
    CHECK(depth <= n, "the merges are not a tree");
    for (int t = 0; t < 2; t++) {
      int v = mg.Get(q, t);
      if (v < 0)
        into.insert(-v - 1);
      else
        collect(v - 1, into, depth + 1);
    }
  };
  for (int q = 0; q + 1 < n; q++)
    collect(q, out[q].leaves, 0);
  return out;
}
static std::string show(const std::set<int> &g) { return vec_str(std::vector<int>(g.begin(), g.end())); }
typedef std::vector<std::unique_ptr<std::vector<int>>> Map;
static std::vector<std::set<int>> groups(const Map &m, int n, const char *what) {
  std::vector<std::set<int>> o;
  std::set<int> all;
  for (auto &g : m) {
    std::set<int> e(g->begin(), g->end());
    CHECK(e.size() == g->size() && !e.empty(), what << ": a group is empty or repeats a variable: " << vec_str(*g));
    for (int v : e)
      CHECK(v >= 0 && v < n && all.insert(v).second, what << ": variable " << v << " is in two groups or does not exist");
    o.push_back(e);
  }
  CHECK((int)all.size() == n, what << ": " << all.size() << " of " << n << " variables are in a group");
  return o;
}
static void check_groups(const HClusterBase &m, const std::vector<Node> &nodes, int n) {
  std::vector<std::set<int>> prev;
  for (int k = 1; k <= n; k++) {
    Map map;
    for (int i = 0; i < k; i++)
      map.push_back(std::make_unique<std::vector<int>>());
    const_cast<HClusterBase &>(m).Group(map);
    auto g = groups(map, n, "grouping");
    for (auto &e : g) {
      bool branch = e.size() == 1;
      for (auto &q : nodes)
        branch |= q.leaves == e;
      CHECK(branch, "the group " << show(e) << " of " << k << " groups is no branch of the tree");
      if (k > 1) {
        bool inside = false;
        for (auto &q : prev)
          inside |= std::includes(q.begin(), q.end(), e.begin(), e.end());
        CHECK(inside, "the group " << show(e) << " of " << k << " groups is not inside one of the " << k - 1 << " groups");
      }
    }
    prev = g;
  }
}
FACET(agglomeration, "at least four variables", 3000) {
  int n = s.range(2, 12), lk = s.range(0, 4);
  M D = gen_dist(s, n, s.range(0, 1));
  c.desc << ToString(LK[lk]) << " " << D.str();
  double gap;
  auto ref = naive(D, lk, gap);
  if (gap < 1e-7)
    throw pbt::Discard();
  std::unique_ptr<double[]> dd(new double[n * (n - 1) / 2]);
  MatrixSym<false> d(dd.get(), n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      d.Set(i, j, D(i, j));
  auto m = HClusterBase::GetFromType(LK[lk], n);
  m->Calculate(d);
  auto got = tree(*m, n, true);
  for (int q = 0; q + 1 < n; q++) {
    CHECK(close(got[q].h, ref[q].h, 1e-9, 1e-10), "merge " << q + 1 << " is at height " << got[q].h << " instead of " << ref[q].h);
    CHECK(got[q].leaves == ref[q].leaves, "merge " << q + 1 << " gives " << show(got[q].leaves) << " instead of " << show(ref[q].leaves));
  }
  check_groups(*m, got, n);
  if (n >= 4)
    c.nontrivial();
}
// with ties every tree whose merges are at the distance of the two branches
FACET(ties, "at least five variables", 1500) {
  int n = s.range(2, 12), lk = s.range(0, 3);
  M D = gen_dist(s, n, 2);
  c.desc << ToString(LK[lk]) << " " << D.str();
  std::unique_ptr<double[]> dd(new double[n * (n - 1) / 2]);
  MatrixSym<false> d(dd.get(), n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      d.Set(i, j, D(i, j));
  auto m = HClusterBase::GetFromType(LK[lk], n);
  m->Calculate(d);
  std::vector<std::pair<int, int>> kids;
  auto got = tree(*m, n, lk != 2, &kids);
  std::function<void(int, double, std::vector<double> &)> weight = [&](int v, double w, std::vector<double> &o) {
    if (v < 0)
      o[-v - 1] = w;
    else
      weight(kids[v - 1].first, lk == 3 ? w / 2 : w, o), weight(kids[v - 1].second, lk == 3 ? w / 2 : w, o);
  };
  for (int q = 0; q + 1 < n; q++) {
    std::vector<double> a(n, 0), b(n, 0);
    weight(kids[q].first, 1, a);
    weight(kids[q].second, 1, b);
    double mn = 1e300, mx = -1, sum = 0, sw = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (a[i] > 0 && b[j] > 0)
          mn = std::min(mn, D(i, j)), mx = std::max(mx, D(i, j)), sum += a[i] * b[j] * D(i, j), sw += a[i] * b[j];
    double e = lk == 0 ? mn : lk == 1 ? mx : sum / sw;
    CHECK(close(got[q].h, e, 1e-9), "merge " << q + 1 << " is at height " << got[q].h << " but its branches are at a distance of " << e);
  }
  check_groups(*m, got, n);
  if (n >= 5)
    c.nontrivial();
}
FACET(grouping, "a variable is removed, or a constant variable or a missing value is grouped", 2500) {
  int dm = s.range(0, 4), lk = s.range(0, 4), r = s.range(3, 10), k = s.range(2, 8);
  bool sp = dm >= 3 && s.coin(), nan = s.chance(1, 3);
  auto cm = sp ? CorrelationMethod::kSpearman : CorrelationMethod::kPearson;
  auto G = GroupDataBase::GetFromType(LK[lk], DM[dm], cm, r, k);
  int calls = s.range(1, 2); // the object is used again
  for (int call = 0; call < calls; call++) {
    M x = gen_data(s, r, k, nan, dm, sp);
    int ng = s.range(1, k);
    auto d = DistanceBase::GetFromType(true, DM[dm], cm, r, k);
    auto st = buf(s, d->StorageSize), w = buf(s, d->WorkSize);
    d->Calculate(x.v(), st.get(), w.get());
    bool nanfound = false;
    std::vector<double> all;
    M D(k, k);
    for (int i = 0; i < k; i++)
      for (int j = 0; j < i; j++) {
        double v = d->Result.Get(i, j);
        if (std::isnan(v))
          v = 0, nanfound = true;
        D(i, j) = D(j, i) = v;
        all.push_back(v);
      }
    std::sort(all.begin(), all.end());
    double th = 0;
    if (s.chance(3, 4)) { // between two distances
      int q = s.range(0, (int)all.size());
      th = q == (int)all.size() ? all.back() * 1.5 + 1 : q == 0 ? all[0] / 2 : (all[q] + all[q - 1]) / 2;
      for (double v : all)
        if (std::fabs(v - th) < 1e-6)
          th = 0;
    }
    c.desc << "\n" << ToString(LK[lk]) << " " << ToString(DM[dm]) << (sp ? " spearman" : "") << " groups=" << ng << " threshold=" << th << " " << x.str();
    // groups without a threshold: those of the tree of the distances
    std::unique_ptr<double[]> dd(new double[k * (k - 1) / 2]);
    MatrixSym<false> ds(dd.get(), k);
    for (int i = 0; i < k; i++)
      for (int j = 0; j < i; j++)
        ds.Set(i, j, D(i, j));
    auto m = HClusterBase::GetFromType(LK[lk], k);
    m->Calculate(ds);
    Map map;
    for (int i = 0; i < ng; i++)
      map.push_back(std::make_unique<std::vector<int>>());
    m->Group(map);
    std::set<std::vector<int>> want;
    std::set<int> removed;
    for (auto &g : map) {
      std::vector<int> keep;
      for (size_t j = 0; j < g->size(); j++) {
        bool rm = false;
        for (size_t i = 0; i < j; i++)
          rm |= D((*g)[i], (*g)[j]) < th;
        if (rm)
          removed.insert((*g)[j]);
        else
          keep.push_back((*g)[j]);
      }
      want.insert(keep);
    }
    auto work = buf(s, G->WorkSize);
    G->Calculate(x.v(), work.get(), ng, th);
    CHECK((int)G->Groups.size() == ng, G->Groups.size() << " groups instead of " << ng);
    std::set<std::vector<int>> got;
    for (auto &g : G->Groups)
      got.insert(*g);
    CHECK(std::set<int>(G->Removed.begin(), G->Removed.end()) == removed, "removed variables " << show(std::set<int>(G->Removed.begin(), G->Removed.end())) << " instead of " << show(removed));
    if (got != want) {
      Msg o;
      o << "groups";
      for (auto &g : got)
        o << " " << vec_str(g);
      o << " instead of";
      for (auto &g : want)
        o << " " << vec_str(g);
      fail(o);
    }
    CHECK(G->NaNDistanceFound == nanfound, "a missing distance is " << (nanfound ? "not " : "") << "reported");
    if (!removed.empty() || nanfound || nan)
      c.nontrivial();
  }
}
FACET(invalid, "every case", 300) {
  int n = s.range(2, 6), lk = s.range(0, 4);
  M D = gen_dist(s, n, 0);
  std::unique_ptr<double[]> dd(new double[n * (n - 1) / 2]);
  MatrixSym<false> d(dd.get(), n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      d.Set(i, j, D(i, j));
  c.desc << ToString(LK[lk]) << " " << D.str();
  c.nontrivial();
  if (s.coin()) {
    d.Data[s.range(0, n * (n - 1) / 2 - 1)] = NAN;
    auto m = HClusterBase::GetFromType(LK[lk], n);
    CHECK(throws([&] { m->Calculate(d); }), "a missing distance is accepted");
  } else {
    auto m = HClusterBase::GetFromType(LK[lk], n + 1);
    CHECK(throws([&] { m->Calculate(d); }), "the distances of another number of variables are accepted");
  }
}
