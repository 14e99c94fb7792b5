// C06: linear algebra: inverse, determinant, Cholesky, triangular and positive definite systems, SVD, QR, norms
#include "mat.h"
#include "matrix_utils.h"
using namespace ldt;
typedef Matrix<double> Mx;

// a square matrix that is not too badly conditioned, or (kind 2) exactly singular
static M gen_square(Src &s, int n, int kind) {
  M a = gen_norm(s, n, n);
  if (kind == 1) { // scaled rows
    for (int i = 0; i < n; i++) {
      double f = std::pow(10.0, (double)s.sint(-3, 3));
      for (int j = 0; j < n; j++)
        a(i, j) *= f;
    }
  } else if (kind == 2) { // small integers with a repeated row or column or a zero row: exactly singular
    for (int i = 0; i < a.n(); i++)
      a.p[i] = s.range(-3, 3);
    int w = n > 1 ? s.range(0, 2) : 2, p = s.range(0, n - 1), q = n > 1 ? (p + s.range(1, n - 1)) % n : p;
    for (int i = 0; i < n; i++)
      if (w == 0)
        a(p, i) = a(q, i);
      else if (w == 1)
        a(i, p) = a(i, q);
      else
        a(p, i) = 0;
  } else if (kind == 3) { // permuted triangular: pivoting is needed
    auto p = s.perm(n);
    M b(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        b(p[i], j) = j > i ? a(i, j) : j == i ? (a(i, j) < 0 ? -1 : 1) * (0.5 + std::fabs(a(i, j))) : 0;
    a = b;
  }
  return a;
}
static double norm_inf(const M &a) {
  double m = 0;
  for (int i = 0; i < a.r; i++) {
    double x = 0;
    for (int j = 0; j < a.c; j++)
      x += std::fabs(a(i, j));
    m = std::max(m, x);
  }
  return m;
}
// condition number (infinity norm); inf when singular
static double cond(const M &a, M &inv) {
  if (!gauss(a, eye(a.r), inv))
    return INFINITY;
  return norm_inf(a) * norm_inf(inv);
}

FACET(inverse, "invertible with at least 2 rows and condition number under 1e8", 25000) {
  int n = s.range(1, 7), kind = s.range(0, 3);
  if (s.chance(1, 60))
    n = s.range(8, 40);
  M a = gen_square(s, n, kind), a0 = a, inv, st(n, n, -5);
  double k = cond(a, inv);
  c.desc << a.str();
  auto A = a.v(), S = st.v();
  M wr(n + 1, n + 1), ns(n, n + 1);
  auto W = wr.v(), N = ns.v();
  CHECK(throws([&] { A.Inv(W); }), "a storage with a wrong dimension is accepted");
  CHECK(throws([&] { N.Inv(N); }), "a matrix that is not square is accepted");
  int info = A.Inv(S);
  same_mat(a, a0, "the matrix changed");
  if (kind == 2) {
    c.label(info ? "singular reported" : "singular not reported");
    // elimination is exact in this case when the pivots stay small integers or halves; otherwise rounding may hide singularity
    if (!info)
      CHECK(st.maxabs() > 1e6 || std::isinf(st.maxabs()) || !std::isfinite(norm_inf(st)), "a singular matrix has the moderate inverse " << st.str());
    return;
  }
  if (!(k < 1e8))
    throw pbt::Discard();
  CHECK(info == 0, "an invertible matrix (condition number " << k << ") is reported as singular, code " << info);
  double nn = norm_inf(inv);
  same_mat(st, inv, "inverse", 0, 1e-14 * n * n * k * nn);
  M b = a;
  auto B = b.v();
  CHECK(B.Inv0() == 0, "inverse in place");
  same_mat(b, st, "inverse in place", 0, 1e-14 * n * n * k * nn);
  if (n == 2) {
    b = a;
    B = b.v();
    CHECK(B.Inv2x2() == 0, "2x2 inverse");
    same_mat(b, inv, "2x2 inverse", 0, 1e-14 * k * nn * std::max(1.0, k));
  }
  c.nontrivial(n > 1);
}

FACET(inverse_2x2, "singular, or condition number under 1e6", 6000) {
  M a = gen_square(s, 2, s.range(0, 3)), inv;
  c.desc << a.str();
  double k = cond(a, inv);
  auto A = a.v();
  bool exact = true;
  for (int i = 0; i < 4; i++)
    exact &= a.p[i] == std::floor(a.p[i]) && std::fabs(a.p[i]) < 1e6;
  int info = A.Inv2x2();
  if (std::isinf(k) && exact) {
    CHECK(info != 0, "a singular matrix is not reported");
    c.label("singular");
    c.nontrivial();
  } else if (k < 1e6) {
    CHECK(info == 0, "code " << info);
    same_mat(a, inv, "inverse", 0, 1e-14 * k * k * norm_inf(inv));
    c.nontrivial();
  }
}

FACET(determinant, "not singular and at least 2 rows", 20000) {
  int n = s.range(1, 7), kind = s.range(0, 4);
  M a = kind == 4 ? gen_pd(s, n) : gen_square(s, n, kind), x;
  c.desc << a.str();
  long double d;
  gauss(a, M(n, 1), x, &d);
  // bound for the error of elimination: product of the row norms
  double had = 1;
  for (int i = 0; i < n; i++) {
    double q = 0;
    for (int j = 0; j < n; j++)
      q += a(i, j) * a(i, j);
    had *= std::sqrt(q);
  }
  M a1 = a, a2 = a, ns(n, n + 1);
  auto A = a1.v(), P = a2.v(), N = ns.v();
  CHECK(throws([&] { N.Det(); }), "the determinant of a matrix that is not square");
  if (kind == 2) {
    double r = NAN;
    bool t = throws([&] { r = A.Det(); });
    CHECK(t || std::fabs(r) <= 1e-12 * std::max(1.0, had), "the determinant of a singular matrix is " << r);
    return;
  }
  double r = A.Det();
  CHECK(close(r, (double)d, 0, 1e-13 * n * n * had), "determinant is " << r << " expected " << (double)d);
  if (kind == 4) {
    double p = P.Det_pd0();
    CHECK(close(p, (double)d, 1e-12, 1e-13 * n * n * had), "determinant of a positive definite matrix is " << p << " expected " << (double)d);
    c.label("positive definite");
  }
  c.nontrivial(n > 1);
}

FACET(cholesky, "at least 2 rows", 15000) {
  int n = s.range(1, 7);
  M a = gen_pd(s, n), a0 = a, st(n, n, -3);
  bool up = s.coin();
  c.desc << (up ? "upper " : "lower ") << a.str();
  auto A = a.v(), S = st.v();
  int info = A.Chol(S, up);
  CHECK(info == 0, "a positive definite matrix is rejected, code " << info);
  same_mat(a, a0, "the matrix changed");
  for (int i = 0; i < n; i++) {
    CHECK(st(i, i) > 0, "diagonal of the factor " << st.str());
    for (int j = 0; j < n; j++)
      if (up ? i > j : i < j)
        CHECK(st(i, j) == 0, "the factor is not triangular: " << st.str());
  }
  same_mat(up ? mul(st.t(), st) : mul(st, st.t()), a, "product of the factors", 0, 1e-14 * n * n * a.maxabs());
  // in place, from one triangle only
  M b = a;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (up ? i > j : i < j)
        b(i, j) = NAN;
  auto B = b.v();
  CHECK(B.Chol0(up) == 0, "in place");
  same_mat(b, st, "factor from one triangle", 1e-12, 1e-13 * a.maxabs());
  // not positive definite: reported; not symmetric or not square: rejected
  M q = a;
  int w = s.range(0, n - 1);
  q(w, w) = s.coin() ? -q(w, w) : -1e-3;
  auto Q = q.v();
  CHECK(Q.Chol(S, up) != 0, "a matrix that is not positive definite is accepted");
  M q2 = q;
  auto Q2 = q2.v();
  if (n > 1)
    CHECK(std::isnan(Q2.Det_pd0()), "determinant of a matrix that is not positive definite");
  M nsq(n, n + 1), ns = a;
  auto NSQ = nsq.v();
  CHECK(throws([&] { NSQ.Chol(S, up); }), "a matrix that is not square is accepted");
  if (n > 1) {
    ns(0, n - 1) += 0.5;
    auto NS = ns.v();
    CHECK(throws([&] { NS.Chol(S, up); }), "a matrix that is not symmetric is accepted");
  }
  c.nontrivial(n > 1);
}

FACET(solve, "at least 2 rows and 2 right-hand sides", 20000) {
  int n = s.range(1, 7), m = s.range(1, 4), op = s.range(0, 1);
  bool up = s.coin(), tr = s.coin(), unit = s.coin();
  M b = gen_norm(s, n, m), x = b, ref;
  M a = op ? gen_pd(s, n) : gen_norm(s, n, n);
  M eff = a;
  if (op == 0)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        if (i == j) {
          a(i, i) = (a(i, i) < 0 ? -1 : 1) * (0.7 + std::fabs(a(i, i)));
          eff(i, i) = unit ? 1 : a(i, i);
        } else if (up ? i > j : i < j) {
          eff(i, j) = 0;
          a(i, j) = NAN; // not used
        }
      }
  else
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (up ? i > j : i < j)
          a(i, j) = NAN;
  if (op == 0 && tr)
    eff = eff.t();
  c.desc << (op ? "positive definite " : "triangular ") << "upper=" << up << " transpose=" << tr << " unit=" << unit << " " << a.str() << " " << b.str();
  M inv;
  double k = cond(eff, inv);
  gauss(eff, b, ref);
  auto A = a.v(), X = x.v();
  M wb(n + 1, m, 1.0), ns(n, n + 1);
  auto WB = wb.v(), NS = ns.v();
  CHECK(throws([&] { op ? A.SolvePos(WB, up) : A.SolveTrian(WB, up, tr, unit); }), "a right-hand side with a wrong dimension is accepted");
  CHECK(throws([&] { op ? NS.SolvePos(X, up) : NS.SolveTrian(X, up, tr, unit); }), "a matrix that is not square is accepted");
  int info = op ? A.SolvePos(X, up) : A.SolveTrian(X, up, tr, unit);
  CHECK(info == 0, "code " << info);
  same_mat(x, ref, "solution", 0, 1e-14 * n * n * k * std::max(1e-300, std::max(ref.maxabs(), norm_inf(inv) * b.maxabs())));
  // singular triangular / not positive definite
  M z = op ? gen_pd(s, n) : eff;
  if (op == 0 && tr)
    z = z.t();
  int w = s.range(0, n - 1);
  z(w, w) = op ? -1 : 0;
  auto Z = z.v();
  if (op || !unit) {
    M y = b;
    auto Y = y.v();
    CHECK((op ? Z.SolvePos(Y, up) : Z.SolveTrian(Y, up, tr, false)) != 0, "a matrix that is " << (op ? "not positive definite" : "singular") << " is accepted");
  }
  c.nontrivial(n > 1 && m > 1);
}

FACET(svd, "not square with at least 2 rows and columns", 15000) {
  int r = s.range(1, 8), q = s.range(1, 8), mn = std::min(r, q);
  int kind = s.range(0, 2);
  M a = gen_norm(s, r, q), a0;
  if (kind == 1 && r > 1)
    for (int j = 0; j < q; j++)
      a(r - 1, j) = 2 * a(0, j); // rank deficient
  if (kind == 2)
    for (int i = 0; i < a.n(); i++)
      a.p[i] = s.range(-2, 2);
  a0 = a;
  char ju = s.coin() ? 'A' : 'N', jv = s.coin() ? 'A' : 'N';
  int extra = s.range(0, 2); // the object may be prepared for a larger matrix
  c.desc << "U=" << ju << " V=" << jv << " " << a.str();
  MatrixSvd<double> d(r + extra, q + extra, ju, jv);
  std::unique_ptr<double[]> st(new double[d.StorageSize]), wk(new double[d.WorkSize]);
  auto A = a.v();
  d.Calculate(A, st.get(), wk.get());
  same_mat(a, a0, "the matrix changed");
  double sc = a.maxabs() * std::sqrt((double)a.n());
  CHECK(d.S.length() == mn, "number of singular values is " << d.S.length());
  double tr = 0, fr = 0;
  for (int i = 0; i < mn; i++) {
    CHECK(d.S.Data[i] >= 0 && (i == 0 || d.S.Data[i] <= d.S.Data[i - 1]), "singular values are not sorted: " << vec_str(d.S.Data, mn));
    tr += d.S.Data[i] * d.S.Data[i];
  }
  for (int i = 0; i < a.n(); i++)
    fr += a.p[i] * a.p[i];
  CHECK(close(tr, fr, 1e-12, 1e-13 * sc * sc), "sum of the squared singular values is " << tr << " expected " << fr);
  auto get = [](Mx &x) {
    M o(x.RowsCount, x.ColsCount);
    for (int i = 0; i < o.n(); i++)
      o.p[i] = x.Data[i];
    return o;
  };
  M U, V;
  if (ju == 'A') {
    U = get(d.U);
    CHECK(U.r == r && U.c == r, "dimension of U");
    same_mat(mul(U.t(), U), eye(r), "U'U", 0, 1e-13 * r);
  }
  if (jv == 'A') {
    V = get(d.VT);
    CHECK(V.r == q && V.c == q, "dimension of V'");
    same_mat(mul(V, V.t()), eye(q), "V'V", 0, 1e-13 * q);
  }
  M aat = mul(a, a.t()), ata = mul(a.t(), a);
  if (ju == 'A' && jv == 'A') {
    M S(r, q);
    for (int i = 0; i < mn; i++)
      S(i, i) = d.S.Data[i];
    same_mat(mul(mul(U, S), V), a, "U S V'", 0, 1e-13 * sc + 1e-300);
  } else if (ju == 'A') { // A A' U = U S^2
    for (int k = 0; k < mn; k++)
      for (int i = 0; i < r; i++) {
        double x = 0;
        for (int j = 0; j < r; j++)
          x += aat(i, j) * U(j, k);
        CHECK(close(x, U(i, k) * d.S.Data[k] * d.S.Data[k], 0, 1e-13 * sc * sc), "left singular vectors");
      }
  } else if (jv == 'A') {
    for (int k = 0; k < mn; k++)
      for (int i = 0; i < q; i++) {
        double x = 0;
        for (int j = 0; j < q; j++)
          x += ata(i, j) * V(k, j);
        CHECK(close(x, V(k, i) * d.S.Data[k] * d.S.Data[k], 0, 1e-13 * sc * sc), "right singular vectors");
      }
  }
  if (extra == 0) {
    M big(r + 3, q + 3, 1.0);
    auto B = big.v();
    CHECK(throws([&] { d.Calculate(B, st.get(), wk.get()); }), "a matrix larger than prepared for is accepted");
  }
  c.nontrivial(r != q && mn > 1);
}

FACET(qr, "at least 2 rows and columns", 12000) {
  int r = s.range(1, 8), q = s.range(1, 8), mn = std::min(r, q);
  M a = gen_norm(s, r, q), f = a;
  c.desc << a.str();
  std::unique_ptr<double[]> tau(new double[mn]);
  auto F = f.v();
  CHECK(F.QR0(tau.get()) == 0, "code");
  M R(r, q);
  for (int i = 0; i < r; i++)
    for (int j = i; j < q; j++)
      R(i, j) = f(i, j);
  // apply the reflectors H_1 ... H_k to R
  M x = R;
  for (int k = mn - 1; k >= 0; k--) {
    std::vector<double> v(r, 0.0);
    v[k] = 1;
    for (int i = k + 1; i < r; i++)
      v[i] = f(i, k);
    for (int j = 0; j < q; j++) {
      double t = 0;
      for (int i = 0; i < r; i++)
        t += v[i] * x(i, j);
      for (int i = 0; i < r; i++)
        x(i, j) -= tau[k] * v[i] * t;
    }
  }
  same_mat(x, a, "Q R", 0, 1e-13 * (1 + a.maxabs()) * r);
  M Q(r, r), RR(q, q), g = a;
  auto G = g.v(), QV = Q.v(), RV = RR.v();
  throws([&] { G.QR(QV, RV); }); // not implemented: an error, not a crash
  c.nontrivial(mn > 1);
}

FACET(norms, "at least 2 rows and columns", 10000) {
  int r = s.range(1, 8), q = s.range(1, 8);
  M a = gen_mat(s, r, q);
  c.desc << a.str();
  auto A = a.v();
  double n1 = 0, f = 0;
  for (int j = 0; j < q; j++) {
    double x = 0;
    for (int i = 0; i < r; i++) {
      x += std::fabs(a(i, j));
      f += a(i, j) * a(i, j);
    }
    n1 = std::max(n1, x);
  }
  CHECK(close(A.Norm('M'), a.maxabs(), 1e-14), "largest absolute value is " << A.Norm('M'));
  CHECK(close(A.Norm('1'), n1, 1e-13), "1-norm is " << A.Norm('1') << " expected " << n1);
  CHECK(close(A.Norm('O'), n1, 1e-13), "1-norm is " << A.Norm('O') << " expected " << n1);
  CHECK(close(A.Norm('I'), norm_inf(a), 1e-13), "infinity norm is " << A.Norm('I') << " expected " << norm_inf(a));
  CHECK(close(A.Norm('F'), std::sqrt(f), 1e-12), "Frobenius norm is " << A.Norm('F') << " expected " << std::sqrt(f));
  c.nontrivial(r > 1 && q > 1);
}
