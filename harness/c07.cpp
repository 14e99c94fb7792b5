// C07: matrix access, sub-matrices, sorting, missing values, column statistics, data sets
#include "mat.h"
#include "matrix_utils.h"
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::vector<Ti> Is;

static M with_nan(Src &s, M m, int num = 1, int den = 5) {
  for (int i = 0; i < m.n(); i++)
    if (s.chance(num, den))
      m.p[i] = NAN;
  return m;
}
static M seq(int r, int c, double f = 1) { // all elements different
  M m(r, c);
  for (int i = 0; i < m.n(); i++)
    m.p[i] = f * (i + 1);
  return m;
}
static M ties(Src &s, int r, int c) {
  M m(r, c);
  for (int i = 0; i < m.n(); i++)
    m.p[i] = s.range(-3, 3);
  return m;
}

FACET(access, "at least 2 rows and columns", 8000) {
  int r = s.range(1, 6), q = s.range(1, 6);
  M a = gen_mat(s, r, q);
  auto A = a.v();
  int i = (int)s.sint(-2, 8), j = (int)s.sint(-2, 8), k = (int)s.sint(-2, 40);
  double v = s.num();
  c.desc << a.str() << " i=" << i << " j=" << j << " k=" << k << " v=" << v;
  bool in = i >= 0 && i < r && j >= 0 && j < q, ink = k >= 0 && k < r * q;
  M e = a;
  for (int op = 0; op < 5; op++) {
    double got = NAN;
    bool t = throws([&] {
      if (op == 0)
        got = A.Get(i, j);
      else if (op == 1)
        A.Set(i, j, v);
      else if (op == 2)
        A.Set_Plus(i, j, v);
      else if (op == 3)
        A.Set_Minus(i, j, v);
      else
        got = A.Get(k);
    });
    CHECK(t == !(op == 4 ? ink : in), (t ? "a valid index is rejected" : "an index out of range is accepted") << ", operation " << op);
    if (t)
      continue;
    if (op == 0)
      CHECK(close(got, a(i, j), 0, 0), "element");
    if (op == 4)
      CHECK(close(got, a.p[k], 0, 0), "element of the vectorized matrix");
    if (op == 1)
      e(i, j) = v;
    if (op == 2)
      e(i, j) += v;
    if (op == 3)
      e(i, j) -= v;
    same_mat(a, e, "matrix after the operation");
  }
  CHECK(throws([&] { A.Set(k, v); }) == !ink, "setting element k");
  if (ink) {
    e.p[k] = v;
    int x, y;
    A.TranslateIndex(k, x, y);
    CHECK(x == k % r && y == k / r, "position of index " << k << " is " << x << "," << y);
  }
  same_mat(a, e, "matrix after setting element k");
  bool ve = q == 1 && k >= 0 && k < r;
  CHECK(throws([&] { A.GetVector(k); }) == !ve && throws([&] { A.SetVector(k, v); }) == !ve, "vector access");
  CHECK(A.First() == a.p[0] && A.Last() == a.p[r * q - 1], "first and last element");
  CHECK(A.length() == r * q && A.IsVector() == (q == 1) && A.IsSquare() == (r == q) && !A.IsEmpty(), "shape");
  // iterators
  for (int x = 0; x < r; x++) {
    int y = 0;
    auto itEnd = A.RowEnd(x);
    for (auto it = A.RowBegin(x); it != itEnd && y <= q; ++it, y++)
      CHECK(y < q && *it == a(x, y), "row iterator at (" << x << "," << y << ")");
    CHECK(y == q, "row iterator ends after " << y);
  }
  for (int y = 0; y < q; y++)
    CHECK(A.ColBegin(y) == a.p.get() + y * r && A.ColEnd(y) == a.p.get() + (y + 1) * r, "column iterator");
  CHECK(A.begin() == a.p.get() && A.end() == a.p.get() + r * q, "iterator");
  auto B = a.v();
  int nr = s.range(1, 8), nc = s.range(1, 8);
  CHECK(throws([&] { B.Restructure(nr, nc); }) == (nr * nc != r * q), "restructure");
  c.nontrivial(r > 1 && q > 1);
}

FACET(equality, "the matrices differ slightly", 8000) {
  int r = s.range(1, 4), q = s.range(1, 4), w = s.range(0, r * q - 1);
  M a = gen_mat(s, r, q), b = a;
  double d = s.pick(std::vector<double>{0, 0.25, 0.5, 0.999, 1, 1.5, 2, 1e-9}) * (s.coin() ? 1 : -1);
  double eps = s.pick(std::vector<double>{0, 0.3, 1.25, 1e-6});
  bool nan1 = s.chance(1, 4), nan2 = s.chance(1, 4), eq = s.coin();
  for (int i = 0; i < a.n(); i++)
    a.p[i] = b.p[i] = std::floor(a.p[i]);
  b.p[w] += d;
  int w2 = s.range(0, r * q - 1);
  if (nan1)
    a.p[w2] = NAN;
  if (nan2)
    b.p[w2] = NAN;
  c.desc << a.str() << " " << b.str() << " eps=" << eps << " nan equal=" << eq;
  bool e = true;
  for (int i = 0; i < a.n(); i++)
    if (std::isnan(a.p[i]) || std::isnan(b.p[i]))
      e &= std::isnan(a.p[i]) && std::isnan(b.p[i]) && eq;
    else
      e &= std::fabs(a.p[i] - b.p[i]) <= eps;
  auto A = a.v(), B = b.v();
  double diff = 0;
  CHECK(A.Equals(B, eps, true, eq) == e, "equality should be " << e);
  CHECK(A.Equals(B, diff, eps, true, eq) == e, "equality should be " << e);
  M o(r + 1, q);
  auto O = o.v();
  CHECK(!A.Equals(O, eps, false, eq) && throws([&] { A.Equals(O, eps, true, eq); }), "different dimensions");
  // one value
  bool ign = s.coin();
  M k(r, q, 3.0);
  k.p[w] += d;
  if (nan1)
    k.p[w2] = NAN;
  auto K = k.v();
  auto exp = [&](int from, int to) {
    bool x = true;
    for (int i = from; i < to; i++)
      x &= std::isnan(k.p[i]) ? ign : std::fabs(k.p[i] - 3.0) <= eps;
    return x;
  };
  CHECK(K.EqualsValue(3.0, eps, eq, ign) == exp(0, r * q), "equality with a value, ignore NaN=" << ign << " " << k.str());
  for (int j = 0; j < q; j++)
    CHECK(K.EqualsValueColumn(j, 3.0, eps, eq, ign) == exp(j * r, j * r + r), "equality of column " << j << " with a value, ignore NaN=" << ign << " " << k.str());
  bool hn = false;
  for (int i = 0; i < k.n(); i++)
    hn |= std::isnan(k.p[i]);
  CHECK(K.HasNaN() == hn, "has NaN");
  M t = sym(gen_mat(s, r, r));
  int p1 = s.range(0, r - 1), p2 = s.range(0, r - 1);
  double tp = t(p1, p2);
  t(p1, p2) = tp + d;
  double real = std::fabs(t(p1, p2) - t(p2, p1));
  auto T = t.v();
  CHECK(T.IsSymmetric(eps) == (p1 == p2 || real <= eps), "symmetry of " << t.str() << " with tolerance " << eps);
  c.nontrivial(d != 0);
}

FACET(sub_matrix, "the part is smaller than the matrix and not its first corner", 20000) {
  int r = s.range(1, 7), q = s.range(1, 7), op = s.range(0, 6);
  M a = seq(r, q), a0 = a;
  auto A = a.v();
  int i0 = s.range(0, r - 1), j0 = s.range(0, q - 1), n = s.range(1, r - i0), m = s.range(1, q - j0);
  int sr = s.range(0, 2), sc = s.range(0, 2);
  c.desc << "op " << op << " " << r << "x" << q << " from " << i0 << "," << j0 << " size " << n << "x" << m << " storage from " << sr << "," << sc;
  c.nontrivial((i0 || j0) && (n < r || m < q));
  if (op == 0) { // block
    M st(n + sr, m + sc, -1), e = st;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++)
        e(sr + i, sc + j) = a(i0 + i, j0 + j);
    auto S = st.v();
    A.GetSub(i0, j0, n, m, S, sr, sc);
    same_mat(st, e, "sub-matrix");
    CHECK(throws([&] { A.GetSub(i0, j0, r - i0 + 1, m, S, sr, sc); }) && throws([&] { A.GetSub(i0, j0, n, q - j0 + 1, S, sr, sc); }), "a part outside the matrix is accepted");
    M w(n + sr + (int)s.range(1, 2) - 2 * s.coin(), m + sc, -1);
    auto W = w.v();
    if (w.r != st.r && w.r > 0)
      CHECK(throws([&] { A.GetSub(i0, j0, n, m, W, sr, sc); }), "a storage with a wrong dimension is accepted");
  } else if (op == 1 || op == 2) { // one range and one list of indices
    bool byrow = op == 1, ex = s.coin();
    int len = byrow ? q : r, f0 = byrow ? i0 : j0, fn = byrow ? n : m;
    int k = ex ? s.range(0, len - 1) : s.range(1, len);
    auto idx = s.subset(len, k);
    if (!ex && s.coin())
      idx.push_back(idx[0]); // repeated
    Is use = idx;
    if (ex) {
      use.clear();
      for (int i = 0; i < len; i++)
        if (std::find(idx.begin(), idx.end(), i) == idx.end())
          use.push_back(i);
    }
    c.desc << " indices " << vec_str(idx) << " exclude=" << ex;
    int u = (int)use.size();
    M st(byrow ? fn + sr : u + sr, byrow ? u + sc : fn + sc, -1), e = st;
    for (int x = 0; x < fn; x++)
      for (int y = 0; y < u; y++)
        if (byrow)
          e(sr + x, sc + y) = a(f0 + x, use[y]);
        else
          e(sr + y, sc + x) = a(use[y], f0 + x);
    auto S = st.v();
    A.GetSub(f0, fn, idx, byrow, S, sr, sc, ex);
    same_mat(st, e, "sub-matrix");
    M w(st.r + s.coin(), st.c + 1);
    auto W = w.v();
    CHECK(throws([&] { A.GetSub(f0, fn, idx, byrow, W, sr, sc, ex); }), "a storage with a wrong dimension is accepted");
  } else if (op == 3) { // two lists
    auto ri = s.subset(r, s.range(1, r)), ci = s.subset(q, s.range(1, q));
    c.desc << " rows " << vec_str(ri) << " columns " << vec_str(ci);
    M st((int)ri.size() + sr, (int)ci.size() + sc, -1), e = st;
    for (size_t x = 0; x < ri.size(); x++)
      for (size_t y = 0; y < ci.size(); y++)
        e(sr + x, sc + y) = a(ri[x], ci[y]);
    auto S = st.v();
    A.GetSub(ri, ci, S, sr, sc);
    same_mat(st, e, "sub-matrix");
  } else if (op == 4) { // set a block
    M b = seq(n + sr, m + sc, -1), e = a;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++)
        e(i0 + i, j0 + j) = b(sr + i, sc + j);
    auto B = b.v();
    CHECK(throws([&] { A.SetSub(i0, j0, B, sr, sc, r - i0 + 1, m); }) && throws([&] { A.SetSub(i0, j0, B, sr, sc, n, q - j0 + 1); }), "a part outside the matrix is accepted");
    if (n < r - i0)
      CHECK(throws([&] { A.SetSub(i0, j0, B, sr, sc, n + 1, m); }), "a part outside the source is accepted");
    same_mat(a, a0, "the matrix after rejected operations");
    A.SetSub(i0, j0, B, sr, sc, n, m);
    same_mat(a, e, "matrix after setting a part");
  } else if (op == 5) { // set a block from a transposed source
    M b = seq(m, n, -1), e = a;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++)
        e(i0 + i, j0 + j) = b(j, i);
    auto B = b.v();
    A.SetSub_t(i0, j0, B, 0, 0, n, m);
    same_mat(a, e, "matrix after setting a part from a transposed source");
  } else { // vectors
    M v = seq(r, 1), st(n + sr, 1, -1), e = st, b = seq(n + sr, 1, -1);
    auto V = v.v(), S = st.v(), B = b.v();
    for (int i = 0; i < n; i++)
      e.p[sr + i] = v.p[i0 + i];
    V.GetSubVector(i0, n, S, sr);
    same_mat(st, e, "sub-vector");
    M e2 = v;
    for (int i = 0; i < n; i++)
      e2.p[i0 + i] = b.p[sr + i];
    V.SetSubVector(i0, B, sr, n);
    same_mat(v, e2, "vector after setting a part");
    CHECK(throws([&] { V.SetSubVector(i0, B, 0, r - i0 + 1); }), "a part outside the vector is accepted");
  }
  if (op < 4)
    same_mat(a, a0, "the matrix changed");
}

FACET(rows_and_columns, "at least 2 rows and columns", 20000) {
  int r = s.range(1, 6), q = s.range(1, 6), i = s.range(0, r - 1), j = s.range(0, q - 1), op = s.range(0, 14);
  M a = seq(r, q), e = a;
  int r2 = s.range(1, 6), q2 = s.range(1, 6);
  double v = s.num();
  c.desc << "op " << op << " " << r << "x" << q << " i=" << i << " j=" << j;
  c.nontrivial(r > 1 && q > 1);
  auto A = a.v();
  auto row = [&](std::function<double(int)> f) { for (int k = 0; k < q; k++) e(i, k) = f(k); };
  auto col = [&](std::function<double(int)> f) { for (int k = 0; k < r; k++) e(k, j) = f(k); };
  M vr = seq(1, q, -1), vc = seq(r, 1, -1);
  auto VR = vr.v(), VC = vc.v();
  int bad = s.coin() ? -1 : 6;
  std::function<void(int)> run;
  M b;
  Mx B;
  int k2;
  M e0 = e;
  switch (op) {
  case 0: row([&](int k) { return vr.p[k]; }); run = [&](int x) { A.SetRow(x < 0 || x >= 6 ? x : i, VR); }; break;
  case 1: row([&](int) { return v; }); run = [&](int x) { A.SetRow(x < 0 || x >= 6 ? x : i, v); }; break;
  case 2: row([&](int k) { return e0(i, k) + v; }); run = [&](int x) { A.SetRow_plus(x < 0 || x >= 6 ? x : i, v); }; break;
  case 3: row([&](int k) { return e0(i, k) - v; }); run = [&](int x) { A.SetRow_minus(x < 0 || x >= 6 ? x : i, v); }; break;
  case 4: col([&](int k) { return vc.p[k]; }); run = [&](int x) { A.SetColumn(x < 0 || x >= 6 ? x : j, VC); }; break;
  case 5: col([&](int) { return v; }); run = [&](int x) { A.SetColumn(x < 0 || x >= 6 ? x : j, v); }; break;
  case 6: col([&](int k) { return e0(k, j) + v; }); run = [&](int x) { A.SetColumn_plus(x < 0 || x >= 6 ? x : j, v); }; break;
  case 7: col([&](int k) { return e0(k, j) - v; }); run = [&](int x) { A.SetColumn_minus(x < 0 || x >= 6 ? x : j, v); }; break;
  case 8: b = seq(r2, q, -1); k2 = s.range(0, r2 - 1); row([&](int k) { return b(k2, k); }); B = b.v(); run = [&](int x) { A.SetRowFromRow(x < 0 || x >= 6 ? x : i, B, k2); }; break;
  case 9: b = seq(r, q2, -1); k2 = s.range(0, q2 - 1); col([&](int k) { return b(k, k2); }); B = b.v(); run = [&](int x) { A.SetColumnFromColumn(x < 0 || x >= 6 ? x : j, B, k2); }; break;
  case 10: b = seq(r2, r, -1); k2 = s.range(0, r2 - 1); col([&](int k) { return b(k2, k); }); B = b.v(); run = [&](int x) { A.SetColumnFromRow(x < 0 || x >= 6 ? x : j, B, k2); }; break;
  case 11: b = seq(r, r, -1); col([&](int k) { return b(k, k); }); B = b.v(); run = [&](int x) { A.SetColumnFromDiag(x < 0 || x >= 6 ? x : j, B); }; break;
  case 12: b = seq(q, q, -1); row([&](int k) { return b(k, k); }); B = b.v(); run = [&](int x) { A.SetRowFromDiag(x < 0 || x >= 6 ? x : i, B); }; break;
  case 13: {
    int n = s.range(0, q - j);
    for (int k = 0; k < n; k++)
      e(i, j + k) = vr.p[k];
    run = [&, n](int x) { A.SetSubRow(x < 0 || x >= 6 ? x : i, j, VR, n); };
    CHECK(throws([&] { A.SetSubRow(i, j, VR, q - j + 1); }), "a part outside the row is accepted");
    break;
  }
  default: { // read
    M st(1, q, -1), st2(r, 1, -1), dg(std::min(r, q), 1, -1);
    auto S = st.v(), S2 = st2.v(), D = dg.v();
    A.GetRow(i, S);
    A.GetColumn(j, S2);
    for (int k = 0; k < q; k++)
      CHECK(st.p[k] == a(i, k), "row");
    for (int k = 0; k < r; k++)
      CHECK(st2.p[k] == a(k, j), "column");
    CHECK(throws([&] { A.GetRow(bad, S); }) && throws([&] { A.GetColumn(bad, S2); }), "an index out of range is accepted");
    if (r == q) {
      A.GetDiag(D);
      for (int k = 0; k < r; k++)
        CHECK(dg.p[k] == a(k, k), "diagonal");
      double tr = 0;
      for (int k = 0; k < r; k++)
        tr += a(k, k);
      CHECK(close(A.Trace(), tr, 1e-14), "trace");
    } else
      CHECK(throws([&] { A.GetDiag(D); }) && throws([&] { A.Trace(); }), "a matrix that is not square is accepted");
    return;
  }
  }
  M before = a;
  CHECK(throws([&] { run(bad); }), "index " << bad << " is accepted");
  same_mat(a, before, "matrix after a rejected operation");
  run(0);
  same_mat(a, e, "matrix");
}

FACET(set_and_copy, "at least 2 rows and columns", 6000) {
  int r = s.range(1, 5), q = s.coin() ? r : s.range(1, 5);
  M a = gen_mat(s, r, q), b = a, st(r, q, -1), flat(q, r, -1), wr(r + 1, q);
  auto A = a.v(), S = st.v(), F = flat.v(), W = wr.v();
  double v = s.num(), w = s.num();
  c.desc << r << "x" << q << " " << v << " " << w;
  A.CopyTo(S);
  same_mat(st, a, "copy");
  A.CopyTo0(F);
  for (int i = 0; i < a.n(); i++)
    CHECK(flat.p[i] == a.p[i], "copy to a matrix of another shape");
  CHECK(throws([&] { A.CopyTo(W); }) && throws([&] { A.CopyFrom(W); }) && throws([&] { A.CopyTo0(W); }), "a copy with a wrong dimension is accepted");
  M d(r, q, -2);
  auto D = d.v();
  D.CopyFrom(S);
  same_mat(d, a, "copy from");
  D.SetValue(v);
  same_mat(d, M(r, q, v), "one value");
  D.SetSequence(v, 0.5);
  for (int i = 0; i < d.n(); i++)
    CHECK(close(d.p[i], v + 0.5 * i, 1e-13, 1e-13), "sequence: element " << i << " is " << d.p[i]);
  for (int op = 0; op < 4; op++) {
    M e = a;
    M x = a;
    auto X = x.v();
    bool t = throws([&] { op == 0 ? X.SetValueDiag(v) : op == 1 ? X.SetValueDiag(v, w) : op == 2 ? X.SetValueOffDiag(w) : Mx::Diagonal(X, v, w); });
    CHECK(t == (r != q), "a diagonal of a matrix that is not square");
    if (!t) {
      for (int i = 0; i < r; i++)
        for (int j = 0; j < q; j++)
          if (i == j ? op != 2 : op != 0)
            e(i, j) = i == j ? v : w;
      same_mat(x, e, "diagonal operation");
      if (op == 3) {
        CHECK(Mx::IsDiagonal(X, v, w), "is diagonal");
        int p = s.range(0, r * q - 1);
        x.p[p] += 0.75;
        CHECK(!Mx::IsDiagonal(X, v, w), "is diagonal after a change");
      }
    }
  }
  c.nontrivial(r > 1 && q > 1);
}

FACET(sorting, "there are ties and at least 3 rows", 12000) {
  int r = s.range(1, 8), q = s.range(1, 4);
  M a = ties(s, r, q), st(r, q), e = a;
  bool asc = s.coin();
  c.desc << (asc ? "ascending " : "descending ") << a.str();
  auto A = a.v(), S = st.v();
  M a0 = a;
  A.Sort(S, asc);
  for (int j = 0; j < q; j++) {
    std::vector<double> x(e.p.get() + j * r, e.p.get() + (j + 1) * r);
    std::sort(x.begin(), x.end());
    if (!asc)
      std::reverse(x.begin(), x.end());
    std::copy(x.begin(), x.end(), e.p.get() + j * r);
  }
  same_mat(st, e, "sorted columns");
  Is ix;
  A.SortIndicesVector(ix, asc);
  CHECK((int)ix.size() == r * q, "number of indices");
  std::set<int> u(ix.begin(), ix.end());
  CHECK((int)u.size() == r * q && *u.begin() == 0 && *u.rbegin() == r * q - 1, "the indices are not a permutation: " << vec_str(ix));
  for (int i = 1; i < r * q; i++)
    CHECK(a.p[ix[i]] == a.p[ix[i - 1]] ? ix[i] > ix[i - 1] : (a.p[ix[i]] > a.p[ix[i - 1]]) == asc, "order of the indices " << vec_str(ix));
  auto p = s.perm(r), p2 = s.perm(q), p3 = s.perm(r * q);
  A.SortRowsBy(S, p);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < q; j++)
      CHECK(st(i, j) == a(p[i], j), "rows sorted by " << vec_str(p));
  A.SortColumnsBy(S, p2);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < q; j++)
      CHECK(st(i, j) == a(i, p2[j]), "columns sorted by " << vec_str(p2));
  A.SortByVector(S, p3);
  for (int i = 0; i < r * q; i++)
    CHECK(st.p[i] == a.p[p3[i]], "elements sorted by " << vec_str(p3));
  same_mat(a, a0, "the matrix changed");
  p[0] = r;
  p2[0] = q;
  CHECK(throws([&] { A.SortRowsBy(S, p); }) && throws([&] { A.SortColumnsBy(S, p2); }), "an index out of range is accepted");
  p.pop_back();
  CHECK(throws([&] { A.SortRowsBy(S, p); }), "a wrong number of indices is accepted");
  c.nontrivial(r > 2);
}

static void rng(const std::vector<double> &d, int &a, int &b, bool &miss) {
  a = 1, b = 0, miss = false;
  int n = 0;
  for (int i = 0; i < (int)d.size(); i++)
    if (!std::isnan(d[i])) {
      if (!n++)
        a = i;
      b = i;
    }
  miss = n && n < b - a + 1;
}

FACET(missing, "some but not all values are missing", 20000) {
  int r = s.range(1, 7), q = s.range(1, 5);
  M a = with_nan(s, gen_mat(s, r, q), s.range(0, 3), 6), a0 = a;
  for (int i = 0; i < a.n(); i++)
    if (s.chance(1, 15))
      a.p[i] = s.coin() ? INFINITY : -INFINITY;
  a0 = a;
  auto A = a.v();
  c.desc << a.str();
  int nn = 0;
  for (int i = 0; i < a.n(); i++)
    nn += std::isnan(a.p[i]);
  // ranges
  int st = 0, en = r + 1;
  bool any = false, none = false;
  for (int j = 0; j < q; j++) {
    int x, y;
    bool m, m2 = true;
    rng(std::vector<double>(a.p.get() + j * r, a.p.get() + j * r + r), x, y, m);
    auto g = A.GetRangeColumn(m2, j);
    CHECK(g.IsNotValid() == (x > y), "validity of the range of column " << j);
    if (x <= y)
      CHECK(g.StartIndex == x && g.EndIndex == y && m2 == m, "range of column " << j << " is " << g.StartIndex << "-" << g.EndIndex << "," << m2);
    none |= x > y;
    st = std::max(st, x);
    en = std::min(en, y);
    any |= m;
  }
  bool am = false;
  auto g = A.GetRange(am);
  CHECK(g.IsNotValid() == (none || st > en), "validity of the common range");
  if (!none && st <= en)
    CHECK(g.StartIndex == st && g.EndIndex == en && am == any, "common range " << g.StartIndex << "-" << g.EndIndex);
  for (int i = 0; i < r; i++) {
    int x, y;
    bool m, m2 = true;
    std::vector<double> row(q);
    for (int j = 0; j < q; j++)
      row[j] = a(i, j);
    rng(row, x, y, m);
    auto g = A.GetRangeRow(m2, i);
    CHECK(g.IsNotValid() == (x > y), "validity of the range of row " << i);
    if (x <= y)
      CHECK(g.StartIndex == x && g.EndIndex == y && m2 == m, "range of row " << i << " is " << g.StartIndex << "-" << g.EndIndex << "," << m2);
  }
  // rows without NaN
  bool inf = s.coin();
  auto isbad = [&](double v) { return std::isnan(v) || (inf && std::isinf(v)); };
  auto cs = s.subset(q, s.range(1, q));
  Is e1, e2, g1, g2;
  for (int i = 0; i < r; i++) {
    bool b1 = false, b2 = false;
    for (int j = 0; j < q; j++)
      b1 |= isbad(a(i, j));
    for (int j : cs)
      b2 |= isbad(a(i, j));
    if (!b1)
      e1.push_back(i);
    if (!b2)
      e2.push_back(i);
  }
  A.GetAnyNanRow(g1, inf);
  A.GetAnyNanRow(g2, inf, &cs);
  CHECK(g1 == e1, "complete rows are " << vec_str(g1) << " expected " << vec_str(e1));
  CHECK(g2 == e2, "complete rows in columns " << vec_str(cs) << " are " << vec_str(g2) << " expected " << vec_str(e2));
  // removing
  M b = a;
  auto B = b.v();
  B.RemoveColumnsAnyNan_in(inf);
  Is keep;
  for (int j = 0; j < q; j++) {
    bool bad = false;
    for (int i = 0; i < r; i++)
      bad |= isbad(a(i, j));
    if (!bad)
      keep.push_back(j);
  }
  CHECK(B.RowsCount == r && B.ColsCount == (int)keep.size(), "dimension after removing columns with missing values");
  for (size_t k = 0; k < keep.size(); k++)
    for (int i = 0; i < r; i++)
      CHECK(B.Get(i, (int)k) == a(i, keep[k]), "column " << k << " after removing columns");
  M b2 = a;
  auto B2 = b2.v();
  B2.RemoveColumnsIn(cs);
  CHECK(B2.RowsCount == r && B2.ColsCount == q - (int)cs.size(), "dimension after removing columns");
  for (int j = 0, k = 0; j < q; j++)
    if (std::find(cs.begin(), cs.end(), j) == cs.end()) {
      for (int i = 0; i < r; i++)
        CHECK(close(B2.Get(i, k), a(i, j), 0, 0), "column " << k << " after removing columns " << vec_str(cs));
      k++;
    }
  // vector
  bool col = s.coin();
  M v = a;
  auto V = v.v();
  V.RowsCount = col ? r * q : 1;
  V.ColsCount = col ? 1 : r * q;
  V.RemoveNanVector_in(inf);
  std::vector<double> ev;
  for (int i = 0; i < a.n(); i++)
    if (!isbad(a.p[i]))
      ev.push_back(a.p[i]);
  CHECK(V.length() == (int)ev.size(), "length after removing missing values");
  for (size_t i = 0; i < ev.size(); i++)
    CHECK(V.Data[i] == ev[i], "value after removing missing values");
  Mx empty;
  CHECK(Mx::RemoveNanVector(A, empty) == a.n() - nn, "number of values that are not missing");
  // looking for a value
  double val = s.chance(1, 3) ? NAN : a.p[s.range(0, a.n() - 1)];
  Is iv, ei;
  A.IndicesOfVector(val, iv);
  for (int i = 0; i < a.n(); i++)
    if (std::isnan(val) ? std::isnan(a.p[i]) : a.p[i] == val)
      ei.push_back(i);
  CHECK(iv == ei, "indices of " << val << ": " << vec_str(iv) << " expected " << vec_str(ei));
  CHECK(A.Any(val) == !ei.empty() && A.All(val) == ((int)ei.size() == a.n()), "any/all " << val);
  same_mat(a, a0, "the matrix changed");
  c.nontrivial(nn > 0 && nn < a.n());
}

FACET(interpolate, "something is interpolated", 10000) {
  int n = s.range(1, 10), o = s.range(1, 3), w = s.range(0, o - 1);
  bool row = s.coin();
  M a = gen_mat(s, row ? o : n, row ? n : o);
  for (int i = 0; i < a.n(); i++)
    if (s.chance(2, 5))
      a.p[i] = NAN;
  c.desc << (row ? "row " : "column ") << w << " of " << a.str();
  auto at = [&](M &m, int i) -> double & { return row ? m(w, i) : m(i, w); };
  M e = a;
  int last = -1, cnt = 0, first = -1;
  double sc = 0;
  for (int i = 0; i < n; i++)
    if (!std::isnan(at(a, i))) {
      sc = std::max(sc, std::fabs(at(a, i)));
      if (last >= 0)
        for (int k = last + 1; k < i; k++, cnt++)
          at(e, k) = at(a, last) + (at(a, i) - at(a, last)) * (k - last) / (i - last);
      else
        first = i;
      last = i;
    }
  auto A = a.v();
  Ti count = -1;
  auto g = row ? A.InterpolateRow(count, w) : A.InterpolateColumn(count, w);
  CHECK(g.IsNotValid() == (last < 0), "validity of the range");
  if (last >= 0)
    CHECK(g.StartIndex == first && g.EndIndex == last, "range");
  CHECK(count == cnt, "number of the interpolated values is " << count << " expected " << cnt);
  same_mat(a, e, "interpolated", 1e-11, 1e-12 * sc);
  c.nontrivial(cnt > 0);
}

FACET(extremes, "at least 2 rows and columns", 10000) {
  int r = s.range(1, 6), q = s.range(1, 6);
  M a = s.coin() ? ties(s, r, q) : gen_mat(s, r, q);
  if (s.chance(1, 4)) { // all values on one side of zero
    for (int i = 0; i < a.n(); i++)
      a.p[i] = -std::fabs(a.p[i]) - 1;
    if (s.coin())
      for (int i = 0; i < a.n(); i++)
        a.p[i] = -a.p[i];
  }
  c.desc << a.str();
  auto A = a.v();
  double mx = *std::max_element(a.p.get(), a.p.get() + a.n()), mn = *std::min_element(a.p.get(), a.p.get() + a.n());
  int i, j, k;
  CHECK(A.Maximum() == mx && A.Minimum() == mn, "maximum " << A.Maximum() << " minimum " << A.Minimum());
  CHECK(A.max(i, j) == mx && a(i, j) == mx, "position of the maximum");
  CHECK(A.min(i, j) == mn && a(i, j) == mn, "position of the minimum");
  for (int x = 0; x < r; x++) {
    double m1 = a(x, 0), m2 = a(x, 0);
    for (int y = 0; y < q; y++)
      m1 = std::max(m1, a(x, y)), m2 = std::min(m2, a(x, y));
    CHECK(A.MaximumInRow(x, k) == m1 && a(x, k) == m1, "maximum in row " << x);
    CHECK(A.MinimumInRow(x, k) == m2 && a(x, k) == m2, "minimum in row " << x);
  }
  for (int y = 0; y < q; y++) {
    double m1 = a(0, y), m2 = a(0, y);
    for (int x = 0; x < r; x++)
      m1 = std::max(m1, a(x, y)), m2 = std::min(m2, a(x, y));
    CHECK(A.MaximumInColumn(y, k) == m1 && a(k, y) == m1, "maximum in column " << y);
    CHECK(A.MinimumInColumn(y, k) == m2 && a(k, y) == m2, "minimum in column " << y);
  }
  // the same for integers
  std::vector<int> z(r * q);
  for (int t = 0; t < r * q; t++)
    z[t] = (int)std::max(-1e6, std::min(1e6, std::floor(a.p[t])));
  Matrix<Ti> Z(z.data(), r, q);
  CHECK(Z.Maximum() == *std::max_element(z.begin(), z.end()) && Z.Minimum() == *std::min_element(z.begin(), z.end()), "integer maximum " << Z.Maximum() << " minimum " << Z.Minimum());
  c.nontrivial(r > 1 && q > 1);
}

static void stat(const std::vector<double> &x, double &mean, double &m2, double &big) {
  long double t = 0, u = 0;
  big = 0;
  for (double v : x)
    t += v, big = std::max(big, std::fabs(v));
  t /= x.size();
  for (double v : x)
    u += (v - t) * (v - t);
  mean = (double)t;
  m2 = (double)u;
}

FACET(statistics, "missing values are skipped", 20000) {
  int r = s.range(2, 10), q = s.range(1, 4);
  double off = s.pick(std::vector<double>{0, 0, 100, -1e4});
  M a = gen_norm(s, r, q);
  for (int i = 0; i < a.n(); i++)
    a.p[i] = a.p[i] * s.pick(std::vector<double>{1, 3}) + off;
  bool nan = s.coin(), sample = s.coin();
  int nn = 0;
  if (nan)
    for (int i = 0; i < a.n(); i++)
      if (s.chance(1, 4))
        a.p[i] = NAN, nn++;
  if (s.chance(1, 5)) // a constant column
    for (int i = 0; i < r; i++)
      a(i, 0) = 2.5;
  c.desc << "sample=" << sample << " skip missing=" << nan << " " << a.str();
  auto A = a.v();
  auto colv = [&](int j) {
    std::vector<double> x;
    for (int i = 0; i < r; i++)
      if (!std::isnan(a(i, j)))
        x.push_back(a(i, j));
    return x;
  };
  std::vector<double> all;
  for (int i = 0; i < a.n(); i++)
    if (!std::isnan(a.p[i]))
      all.push_back(a.p[i]);
  double me, m2, big, got;
  if (all.size() >= 2) {
    stat(all, me, m2, big);
    CHECK(close(A.Mean(nan), me, 0, 1e-13 * big), "mean is " << A.Mean(nan) << " expected " << me);
    double v = A.Variance(got, sample, nan), ev = m2 / (all.size() - sample);
    CHECK(close(v, ev, 1e-10, 1e-11 * big * big / 1e2 * (off != 0) + 1e-13), "variance is " << v << " expected " << ev);
    CHECK(close(got, me, 0, 1e-13 * big), "mean reported with the variance");
  }
  M mm(q, 1), vv(q, 1), mm2(q, 1), vv2(q, 1);
  auto MM = mm.v(), VV = vv.v(), MM2 = mm2.v(), VV2 = vv2.v();
  A.ColumnsMeans(MM, nan);
  A.ColumnsVariances(VV, sample, nan);
  A.ColumnsMeansVariances(MM2, VV2, sample, nan);
  for (int j = 0; j < q; j++) {
    auto x = colv(j);
    if (x.size() < 2)
      continue;
    stat(x, me, m2, big);
    double ev = m2 / (x.size() - sample), ta = 1e-13 * big, tv = 1e-13 * big * big + 1e-13;
    Ti cnt;
    CHECK(close(mm.p[j], me, 0, ta) && close(mm2.p[j], me, 0, ta), "mean of column " << j << " is " << mm.p[j] << " and " << mm2.p[j] << " expected " << me);
    CHECK(close(vv.p[j], ev, 1e-10, tv) && close(vv2.p[j], ev, 1e-10, tv), "variance of column " << j << " is " << vv.p[j] << " expected " << ev);
    double v = A.VarianceColumn(j, got, cnt, sample, nan);
    CHECK(close(v, ev, 1e-10, tv) && close(got, me, 0, ta) && cnt == (int)x.size(), "variance of one column is " << v << " expected " << ev << ", count " << cnt);
    for (int k = 0; k < q; k++) {
      std::vector<double> y, z;
      for (int i = 0; i < r; i++)
        if (!std::isnan(a(i, j)) && !std::isnan(a(i, k)))
          y.push_back(a(i, j)), z.push_back(a(i, k));
      if (y.size() < 2)
        continue;
      double my, mz, sy, sz, by, bz, cv = 0;
      stat(y, my, sy, by);
      stat(z, mz, sz, bz);
      for (size_t i = 0; i < y.size(); i++)
        cv += (y[i] - my) * (z[i] - mz);
      double d = y.size() - sample, g1, g2, v1, v2;
      double tc = 1e-12 * by * bz + 1e-12;
      double cov = A.CovarianceColumn(j, k, g1, g2, cnt, sample, nan);
      CHECK(close(cov, cv / d, 1e-10, tc) && cnt == (int)y.size() && close(g1, my, 0, 1e-12 * by) && close(g2, mz, 0, 1e-12 * bz), "covariance (" << j << "," << k << ") is " << cov << " expected " << cv / d);
      double cor = A.CorrelationColumn(j, k, g1, g2, v1, v2, cnt, sample, nan);
      CHECK(close(v1, sy / d, 1e-10, 1e-13 * by * by + 1e-13) && close(v2, sz / d, 1e-10, 1e-13 * bz * bz + 1e-13) && cnt == (int)y.size(), "variances reported with the correlation (" << j << "," << k << ") are " << v1 << "," << v2 << " expected " << sy / d << "," << sz / d);
      if (sy > 1e-3 && sz > 1e-3)
        CHECK(close(cor, cv / std::sqrt(sy * sz), 0, 1e-9), "correlation (" << j << "," << k << ") is " << cor << " expected " << cv / std::sqrt(sy * sz));
      else if (sy == 0 && sz == 0)
        CHECK(cor == 1, "correlation of constant columns is " << cor);
    }
  }
  if (!nan) {
    Is ci = s.subset(q, s.range(1, q)), cj = ci, none, none2;
    int m = (int)ci.size();
    M cm(m, 1), cs(m, 1), cc(m, m), rs(r, 1), fm(q, 1);
    auto CM = cm.v(), CS = cs.v(), CC = cc.v(), RS = rs.v(), FM = fm.v();
    A.ColumnsMean(CM, ci);
    A.ColumnsSum(CS, ci);
    A.ColumnsVariance(CC, ci, sample);
    A.RowsSum(RS, none);
    A.ColumnsMean(FM, none2);
    for (int x = 0; x < m; x++) {
      auto u = colv(cj[x]);
      stat(u, me, m2, big);
      CHECK(close(cm.p[x], me, 0, 1e-13 * big) && close(cs.p[x], me * r, 0, 1e-12 * big * r), "mean and sum of column " << cj[x]);
      for (int y = 0; y < m; y++) {
        auto w = colv(cj[y]);
        double mw, sw, bw, cv = 0;
        stat(w, mw, sw, bw);
        for (int i = 0; i < r; i++)
          cv += (u[i] - me) * (w[i] - mw);
        CHECK(close(cc(x, y), cv / (r - sample), 1e-9, 1e-12 * big * bw + 1e-12), "covariance matrix (" << cj[x] << "," << cj[y] << ") is " << cc(x, y) << " expected " << cv / (r - sample));
      }
    }
    for (int j = 0; j < q; j++)
      CHECK(close(fm.p[j], mm.p[j], 0, 1e-12 * (std::fabs(mm.p[j]) + 1)), "means of all columns");
    double tot = 0, ab = 0;
    for (int i = 0; i < r; i++) {
      double t = 0;
      for (int j = 0; j < q; j++)
        t += a(i, j), ab += std::fabs(a(i, j));
      tot += t;
      CHECK(close(rs.p[i], t, 0, 1e-13 * ab), "sum of row " << i);
    }
    CHECK(close(A.Sum(), tot, 0, 1e-13 * ab), "sum");
  }
  c.nontrivial(nn > 0);
}

FACET(standardize, "a constant column is removed or missing values are skipped", 12000) {
  int r = s.range(2, 8), q = s.range(1, 5);
  M a = gen_norm(s, r, q);
  bool nan = s.chance(1, 3), center = s.coin(), scale = s.coin(), rem = s.coin(), sample = s.coin();
  double off = s.range(-5, 5);
  std::vector<bool> cst(q);
  for (int j = 0; j < q; j++) {
    cst[j] = s.chance(1, 4);
    double f = s.pick(std::vector<double>{1, 20});
    for (int i = 0; i < r; i++)
      a(i, j) = cst[j] ? off : a(i, j) * f + off;
    if (nan && !cst[j] && r > 3)
      a(s.range(0, r - 1), j) = NAN;
  }
  bool om = s.chance(1, 4), ov = s.chance(1, 4);
  M mo = gen_norm(s, q, 1), vo(q, 1);
  for (int j = 0; j < q; j++)
    vo.p[j] = s.chance(1, 5) ? 0 : 0.25 + s.unif();
  auto A = a.v(), MO = mo.v(), VO = vo.v();
  c.desc << "center=" << center << " scale=" << scale << " remove=" << rem << " sample=" << sample << " mean given=" << om << " variance given=" << ov << " " << a.str();
  MatrixStandardized<double> z(r + s.range(0, 2), q, rem, center, scale);
  z.Sample = sample;
  z.CheckNan = nan;
  std::unique_ptr<double[]> st(new double[z.StorageSize]);
  M a0 = a;
  z.Calculate(A, st.get(), om ? &MO : nullptr, ov ? &VO : nullptr);
  same_mat(a, a0, "the matrix changed");
  Is keep, removed;
  for (int j = 0; j < q; j++) {
    bool zero = scale && (ov ? vo.p[j] == 0 : cst[j]);
    (zero && rem && scale ? removed : keep).push_back(j);
  }
  CHECK(z.Result.RowsCount == r && z.Result.ColsCount == (int)keep.size(), "dimension " << z.Result.RowsCount << "x" << z.Result.ColsCount << ", columns expected " << vec_str(keep));
  if (rem && scale)
    CHECK(z.RemovedZeroVar == removed, "removed columns " << vec_str(z.RemovedZeroVar) << " expected " << vec_str(removed));
  for (size_t k = 0; k < keep.size(); k++) {
    int j = keep[k];
    std::vector<double> x;
    for (int i = 0; i < r; i++)
      if (!std::isnan(a(i, j)))
        x.push_back(a(i, j));
    double me, m2, big;
    stat(x, me, m2, big);
    double v = m2 / (x.size() - sample);
    if (om)
      me = mo.p[j];
    if (ov)
      v = vo.p[j];
    for (int i = 0; i < r; i++) {
      double e = a(i, j);
      if (scale && v == 0)
        e = NAN;
      else {
        if (center)
          e -= me;
        if (scale)
          e /= std::sqrt(v);
      }
      CHECK(close(z.Result.Get(i, (int)k), e, 1e-9, 1e-11), "element (" << i << "," << j << ") is " << z.Result.Get(i, (int)k) << " expected " << e);
    }
  }
  c.nontrivial(nan || (removed.size() && keep.size()));
}

FACET(datasets, "some but not all rows (or columns) are kept", 15000) {
  int r = s.range(1, 8), q = s.range(1, 5);
  bool nan = s.coin(), sel = s.coin();
  M a = gen_mat(s, r, q);
  for (int i = 0; i < a.n(); i++)
    if (s.chance(1, 8))
      a.p[i] = NAN;
  auto A = a.v();
  auto idx = s.subset(q, s.range(1, q));
  c.desc << "drop missing=" << nan << " select=" << sel << " " << vec_str(idx) << " " << a.str();
  Dataset<double> d(r, q, nan, sel);
  std::unique_ptr<double[]> st(new double[d.StorageSize]);
  d.Calculate(A, sel ? &idx : nullptr, st.get());
  Is cols = idx, rows;
  if (!sel) {
    cols.clear();
    for (int j = 0; j < q; j++)
      cols.push_back(j);
  }
  for (int i = 0; i < r; i++) {
    bool ok = true;
    for (int j : cols)
      ok &= !nan || !std::isnan(a(i, j));
    if (ok)
      rows.push_back(i);
  }
  CHECK(d.Result.RowsCount == (int)rows.size() && d.Result.ColsCount == (int)cols.size(), "dimension " << d.Result.RowsCount << "x" << d.Result.ColsCount);
  for (size_t x = 0; x < rows.size(); x++)
    for (size_t y = 0; y < cols.size(); y++)
      CHECK(close(d.Result.Get((int)x, (int)y), a(rows[x], cols[y]), 0, 0), "element (" << x << "," << y << ")");
  if (sel)
    CHECK(throws([&] { d.Calculate(A, nullptr, st.get()); }), "no indices");
  c.nontrivial(rows.size() && (int)rows.size() < r);
}

template <bool byRow> static void ts(Src &s, Ctx &c) {
  int n = s.range(1, 10), k = s.range(1, 4);
  bool nan = s.coin(), sel = s.coin();
  M a = byRow ? gen_mat(s, k, n) : gen_mat(s, n, k);
  auto at = [&](int v, int t) -> double & { return byRow ? a(v, t) : a(t, v); };
  bool hole = false;
  std::vector<int> lo(k), hi(k);
  for (int v = 0; v < k; v++) {
    lo[v] = nan ? s.range(0, (n - 1) / 2) : 0;
    hi[v] = nan ? n - 1 - s.range(0, (n - 1) / 2 - (n % 2 == 0 && n > 1 ? 0 : 0)) : n - 1;
    hi[v] = std::max(hi[v], (n - 1) / 2);
    for (int t = 0; t < n; t++)
      if (t < lo[v] || t > hi[v])
        at(v, t) = NAN;
    if (nan && hi[v] - lo[v] > 1 && s.chance(1, 6)) {
      at(v, lo[v] + 1) = NAN;
      hole = true;
    }
  }
  auto A = a.v();
  auto idx = s.subset(k, s.range(1, k));
  c.desc << (byRow ? "by row" : "by column") << " missing=" << nan << " select=" << sel << " " << vec_str(idx) << " " << a.str();
  DatasetTs<byRow, double> d(a.r, a.c, nan, sel);
  std::unique_ptr<double[]> st(new double[d.StorageSize]);
  d.Data(A);
  CHECK(d.HasMissingData == hole, "has missing data inside");
  for (int rep = 0; rep < 2; rep++) { // it can be updated again with other indices
    d.Update(sel ? &idx : nullptr, st.get());
    Is vs = idx;
    if (!sel) {
      vs.clear();
      for (int j = 0; j < k; j++)
        vs.push_back(j);
    }
    int L = 0, H = n - 1;
    for (int v : vs)
      L = std::max(L, lo[v]), H = std::min(H, hi[v]);
    int len = H - L + 1, w = (int)vs.size();
    CHECK((byRow ? d.Result.ColsCount : d.Result.RowsCount) == len && (byRow ? d.Result.RowsCount : d.Result.ColsCount) == w, "dimension " << d.Result.RowsCount << "x" << d.Result.ColsCount << " expected periods " << L << "-" << H);
    if (nan || sel)
      CHECK(d.Start == L && d.End == H, "range " << d.Start << "-" << d.End << " expected " << L << "-" << H);
    for (int x = 0; x < w; x++)
      for (int t = 0; t < len; t++)
        CHECK(close(byRow ? d.Result.Get(x, t) : d.Result.Get(t, x), at(vs[x], L + t), 0, 0), "value of variable " << vs[x] << " at " << L + t);
    c.nontrivial(L > 0 || H < n - 1);
    idx = s.subset(k, s.range(1, k));
  }
  if (nan) { // a variable without any value is an error
    for (int t = 0; t < n; t++)
      at(0, t) = NAN;
    DatasetTs<byRow, double> d2(a.r, a.c, nan, sel);
    CHECK(throws([&] { d2.Data(A); }), "a variable without any value is accepted");
  }
}
FACET(time_series_rows, "an end is cut", 10000) { ts<true>(s, c); }
FACET(time_series_columns, "an end is cut", 10000) { ts<false>(s, c); }

FACET(triangular_storage, "at least 3 rows", 8000) {
  int n = s.range(1, 6);
  bool diag = s.coin(), low = s.coin(), symm = s.coin();
  int len = diag ? n * (n + 1) / 2 : n * (n - 1) / 2;
  M el = seq(len, 1), st(n, n, -5), e = st;
  c.desc << "n=" << n << " diagonal=" << diag << " lower=" << low << " symmetric=" << symm;
  auto E = el.v(), S = st.v();
  int k = 0;
  int up = low ? -1 : symm ? 0 : 1;
  for (int i = 0; i < n; i++)
    for (int j = diag ? i : i + 1; j < n; j++) {
      if (up >= 0)
        e(i, j) = el.p[k];
      if (up <= 0)
        e(j, i) = el.p[k];
      k++;
    }
  Mx::MakeTriangular(S, E, up, diag, up >= 0);
  same_mat(st, e, "triangular matrix");
  M w(len + 1, 1), ns(n, n + 1);
  auto W = w.v(), NS = ns.v();
  CHECK(throws([&] { Mx::MakeTriangular(S, W, up, diag, up >= 0); }) && throws([&] { Mx::MakeTriangular(NS, E, up, diag, up >= 0); }), "a wrong dimension is accepted");
  // symmetric storage
  auto test = [&](auto Z, bool dg) {
    std::unique_ptr<double[]> p(new double[Z.length_array() + 1]);
    std::vector<double> data(Z.length_array() + 1);
    CHECK(Z.length_array() == (dg ? n * (n + 1) / 2 : n * (n - 1) / 2), "length of the symmetric storage");
    Z.SetData(7.0, p.get());
    CHECK(Z.length_array() == 0 || (Z.All(7.0) && Z.Any(7.0) && !Z.Any(8.0)), "default value");
    M f(n, n, 7.0);
    for (int t = 0; t < 6; t++) {
      int i = s.range(-1, n), j = s.range(-1, n);
      double v = s.num();
      bool ok = i >= 0 && j >= 0 && i < n && j < n && (dg || i != j);
      CHECK(throws([&] { Z.Set(i, j, v); }) == !ok, "setting (" << i << "," << j << ")");
      CHECK(throws([&] { Z.Get(i, j); }) == !ok, "getting (" << i << "," << j << ")");
      if (ok)
        f(i, j) = f(j, i) = v;
    }
    std::set<double> seen;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (i != j || dg)
          CHECK(Z.Get(i, j) == f(i, j), "element (" << i << "," << j << ") of the symmetric storage is " << Z.Get(i, j) << " expected " << f(i, j));
  };
  if (diag)
    test(MatrixSym<true, double>(n), true);
  else if (n > 1)
    test(MatrixSym<false, double>(n), false);
  c.nontrivial(n > 2);
}
