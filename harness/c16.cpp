// C16: train and test samples
#include "data_split.h"
#include "mat.h"
using namespace ldt;
// the rows of both samples are exactly the rows of the data; returns the row of the data for each row of a sample
static std::vector<int> rows_of(const ldt::Matrix<double> &a, const ldt::Matrix<double> &b, const M &x, int idcol) {
  std::vector<int> o;
  std::vector<bool> seen(x.r, false);
  for (int t = 0; t < 2; t++) {
    auto &m = t ? b : a;
    CHECK(m.ColsCount == x.c, "a sample has " << m.ColsCount << " columns");
    for (int i = 0; i < m.RowsCount; i++) {
      int id = (int)m.Get(i, idcol);
      CHECK(id >= 0 && id < x.r && !seen[id], "row " << m.Get(i, idcol) << " is twice in the samples or does not exist");
      seen[id] = true;
      for (int j = 0; j < x.c; j++)
        CHECK(m.Get(i, j) == x(id, j), "a row of the samples is not a row of the data: element " << j << " is " << m.Get(i, j) << " instead of " << x(id, j));
      o.push_back(id);
    }
  }
  CHECK((int)o.size() == x.r, o.size() << " of " << x.r << " rows are in the samples");
  return o;
}
FACET(plain, "at least two rows on each side", 2000) {
  int r = s.range(2, 20), k = s.range(1, 4);
  M x = gen_norm(s, r, k);
  for (int i = 0; i < r; i++)
    x(i, 0) = i;
  double ratio = s.unif(0.02, 0.98);
  int fix = s.coin() ? s.range(1, r + 1) : 0;
  unsigned seed = s.range(1, 1000);
  c.desc << r << " rows, ratio " << ratio << " fixed " << fix << " seed " << seed;
  DataSplit d(r + s.range(0, 2), k + s.range(0, 1));
  auto st = buf(s, d.StorageSize);
  std::unique_ptr<int[]> wi(new int[d.WorkSizeI]);
  int n0 = fix > 0 ? fix : (int)std::round(r * ratio);
  if (n0 <= 0 || n0 >= r) {
    CHECK(throws([&] { d.Calculate(x.v(), st.get(), ratio, fix); }), "an empty sample is accepted");
    return;
  }
  d.Calculate(x.v(), st.get(), ratio, fix);
  std::mt19937 e1(seed), e2(seed);
  std::vector<int> first;
  std::vector<int> count(r, 0);
  for (int call = 0; call < 3; call++) {
    d.Shuffle(x.v(), wi.get(), e1);
    CHECK(d.Sample0.RowsCount == n0 && d.Sample1.RowsCount == r - n0, "sizes " << d.Sample0.RowsCount << " and " << d.Sample1.RowsCount << " instead of " << n0 << " and " << r - n0);
    auto o = rows_of(d.Sample0, d.Sample1, x, 0);
    if (call == 0)
      first = o;
  }
  d.Shuffle(x.v(), wi.get(), e2);
  CHECK(rows_of(d.Sample0, d.Sample1, x, 0) == first, "the same generator state gives another split");
  c.nontrivial(n0 >= 2 && r - n0 >= 2);
}
FACET(discrete, "at least two choices with two observations and a test row", 3000) {
  int r = s.range(2, 24), k = s.range(1, 3), nc = s.range(2, 4);
  M x(r, k + 1);
  std::vector<int> cnt(nc, 0);
  bool skew = s.coin();
  for (int i = 0; i < r; i++) {
    int y = skew && s.chance(2, 3) ? 0 : s.range(0, nc - 1);
    x(i, 0) = y;
    cnt[y]++;
    x(i, 1) = i;
    for (int j = 2; j <= k; j++)
      x(i, j) = s.norm();
  }
  double ratio = s.pick<double>({s.unif(0.02, 0.98), 0.5, 0.8, 0.95});
  int fix = s.chance(1, 2) ? s.range(1, r) : 0;
  unsigned seed = s.range(1, 1000);
  c.desc << "choices " << vec_str(cnt) << " ratio " << ratio << " fixed " << fix << " seed " << seed << " x=" << x.str();
  DataSplitDiscrete d(r, k + 1, nc);
  auto st = buf(s, d.StorageSize);
  std::unique_ptr<int[]> wi(new int[d.WorkSizeI]);
  bool empty = false;
  for (int v : cnt)
    empty |= v == 0;
  if (empty) {
    CHECK(throws([&] { d.Calculate(x.v(), st.get(), ratio, fix); }), "a choice without observations is accepted");
    return;
  }
  int n0 = fix > 0 ? fix : (int)std::round(r * ratio);
  double share = fix > 0 ? (double)fix / r : ratio;
  // every choice except the largest gets its share, but keeps a row on each side when it has two
  int big = 0;
  for (int v = 0; v < nc; v++)
    if (cnt[v] >= cnt[big])
      big = v;
  std::vector<int> want(nc);
  int rest = n0;
  for (int v = 0; v < nc; v++)
    if (v != big) {
      want[v] = std::max(1, std::min((int)std::round(share * cnt[v]), cnt[v] - 1));
      rest -= want[v];
    }
  want[big] = rest;
  std::mt19937 e1(seed), e2(seed);
  d.Calculate(x.v(), st.get(), ratio, fix);
  if (rest <= 0 || rest > cnt[big]) {
    CHECK(throws([&] { d.Shuffle(x.v(), wi.get(), e1); }), "a split which is not possible is accepted");
    return;
  }
  std::vector<int> first;
  int two = 0;
  for (int v : cnt)
    two += v >= 2;
  for (int call = 0; call < 3; call++) {
    d.Shuffle(x.v(), wi.get(), e1);
    CHECK(d.Sample0.RowsCount == n0 && d.Sample1.RowsCount == r - n0, "sizes " << d.Sample0.RowsCount << " and " << d.Sample1.RowsCount << " instead of " << n0 << " and " << r - n0);
    auto o = rows_of(d.Sample0, d.Sample1, x, 1);
    if (call == 0)
      first = o;
    std::vector<int> got(nc, 0);
    for (int i = 0; i < n0; i++)
      got[(int)d.Sample0.Get(i, 0)]++;
    CHECK(got == want, "training rows by choice " << vec_str(got) << " instead of " << vec_str(want));
  }
  d.Shuffle(x.v(), wi.get(), e2);
  CHECK(rows_of(d.Sample0, d.Sample1, x, 1) == first, "the same generator state gives another split");
  c.nontrivial(two >= 2 && n0 < r);
}
// every row has the same chance to be in the training sample
FACET(uniform, "every case", 60) {
  bool disc = s.coin();
  int r = s.range(3, 10), n0 = s.range(1, r - 1);
  M x(r, 2);
  for (int i = 0; i < r; i++)
    x(i, 0) = disc ? (i == 0 || i > r / 2) : i, x(i, 1) = i;
  std::mt19937 e(s.range(1, 100000));
  int N = 4000;
  std::vector<double> in(r, 0);
  std::unique_ptr<int[]> wi(new int[r]);
  std::unique_ptr<double[]> st(new double[2 * r]);
  c.desc << r << " rows, " << n0 << " for training" << (disc ? " by choice" : "");
  DataSplit d(r, 2);
  DataSplitDiscrete dd(r, 2, 2);
  if (disc)
    dd.Calculate(x.v(), st.get(), 0, n0);
  else
    d.Calculate(x.v(), st.get(), 0, n0);
  try {
    for (int q = 0; q < N; q++) {
      disc ? dd.Shuffle(x.v(), wi.get(), e) : d.Shuffle(x.v(), wi.get(), e);
      auto &m = disc ? dd.Sample0 : d.Sample0;
      for (int i = 0; i < m.RowsCount; i++)
        in[(int)m.Get(i, 1)] += 1.0 / N;
    }
  } catch (LdtException &) {
    throw pbt::Discard();
  }
  for (int v = 0; v < (disc ? 2 : 1); v++) {
    double mean = 0;
    int n = 0;
    for (int i = 0; i < r; i++)
      if (!disc || x(i, 0) == v)
        mean += in[i], n++;
    mean /= n;
    for (int i = 0; i < r; i++)
      if (!disc || x(i, 0) == v)
        CHECK(std::fabs(in[i] - mean) < 6.5 * std::sqrt(0.25 / N), "row " << i << " is in " << in[i] << " of the training samples, the others of its choice in " << mean);
  }
  c.nontrivial();
}
