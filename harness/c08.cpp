// C08: polynomials with scalar and matrix coefficients
#include "mat.h"
#include "polynomial.h"
using namespace ldt;

template <class T> struct Num;
template <> struct Num<double> {
  static double gen(Src &s) { return s.chance(1, 4) ? 0.0 : s.num(); }
  static bool same(double a, double b, double mag) { return std::fabs(a - b) <= 1e-12 * mag; }
};
template <> struct Num<int> {
  static int gen(Src &s) { return (int)s.sint(-5, 5); }
  static bool same(int a, int b, double) { return a == b; }
};
template <class T> struct PolyIn {
  std::vector<T> c;
  std::unique_ptr<T[]> p;
  Matrix<T> m;
  Polynomial<T> poly;
  PolyIn(const std::vector<T> &v, bool trim) : c(v), p(new T[v.size()]) {
    std::copy(v.begin(), v.end(), p.get());
    m = Matrix<T>(p.get(), (Ti)v.size(), 1);
    poly.Data(m, trim);
  }
};
template <class T> std::vector<T> gen_coefs(Src &s, int maxdeg) {
  std::vector<T> v(s.range(1, maxdeg + 1));
  for (auto &x : v)
    x = Num<T>::gen(s);
  return v;
}
template <class T> void naive_mul(const std::vector<T> &a, const std::vector<T> &b, std::vector<T> &r, std::vector<double> &mag) {
  r.assign(a.size() + b.size() - 1, 0);
  mag.assign(r.size(), 0);
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < b.size(); j++) {
      r[i + j] += a[i] * b[j];
      mag[i + j] += std::fabs((double)a[i] * b[j]);
    }
}

template <class T> static void multiply(Src &s, Ctx &c) {
  auto a = gen_coefs<T>(s, 7), b = gen_coefs<T>(s, 7);
  int mx = s.coin() ? INT_MAX : s.range(1, 14), xa = s.range(0, 2), xb = s.range(0, 2);
  c.desc << "a " << vec_str(a) << " b " << vec_str(b) << " max length " << mx;
  PolyIn<T> A(a, false), B(b, false);
  PolynomialMultiply<T> mul((Ti)a.size() - 1 + xa, (Ti)b.size() - 1 + xb, mx);
  std::unique_ptr<T[]> st(new T[mul.StorageSize]);
  for (int i = 0; i < mul.StorageSize; i++)
    st[i] = (T)-77;
  std::vector<T> r;
  std::vector<double> mag;
  naive_mul(a, b, r, mag);
  int n = std::min((int)r.size(), mx);
  for (int rep = 0; rep < 2; rep++) {
    mul.Calculate(A.poly, B.poly, st.get(), mx);
    CHECK(mul.Result.GetDegree() + 1 == n, "length of the product is " << mul.Result.GetDegree() + 1 << ", expected " << n);
    for (int i = 0; i < n; i++)
      CHECK(Num<T>::same(mul.Result.Coefficients.Data[i], r[i], mag[i]), "coefficient " << i << " is " << mul.Result.Coefficients.Data[i] << ", expected " << r[i]);
  }
  for (size_t i = 0; i < a.size(); i++)
    CHECK(A.p[i] == a[i], "the first input changed");
  PolynomialMultiply<T> small(0, 0, mx);
  if (n > small.StorageSize)
    CHECK(throws([&] { small.Calculate(A.poly, B.poly, st.get(), mx); }), "polynomials with larger degrees than expected are accepted");
  c.nontrivial(a.size() > 1 && b.size() > 1);
}
FACET(multiply_real, "both degrees are positive", 12000) { multiply<double>(s, c); }
FACET(multiply_integer, "both degrees are positive", 6000) { multiply<int>(s, c); }

template <class T> static void power(Src &s, Ctx &c) {
  auto a = gen_coefs<T>(s, 3);
  int k = s.range(0, 5), n = k * ((int)a.size() - 1) + 1;
  int mx = s.coin() ? INT_MAX : s.range(1, n + 2);
  c.desc << "a " << vec_str(a) << " power " << k << " max length " << mx;
  PolyIn<T> A(a, false);
  PolynomialPower<T> pw(k, (Ti)a.size() - 1, mx);
  std::unique_ptr<T[]> st(new T[pw.StorageSize]), wk(new T[pw.WorkSize]);
  pw.Calculate(A.poly, k, st.get(), wk.get(), mx);
  std::vector<T> r = {1}, t;
  std::vector<double> mag = {1}, tm;
  std::vector<double> absr = {1};
  for (int i = 0; i < k; i++) {
    naive_mul(r, a, t, tm);
    r = t;
    std::vector<double> aa(a.size()), x, xm;
    for (size_t j = 0; j < a.size(); j++)
      aa[j] = std::fabs((double)a[j]);
    naive_mul(absr, aa, x, xm);
    absr = x;
  }
  n = std::min(n, mx);
  CHECK(pw.Result.GetDegree() + 1 == n, "length is " << pw.Result.GetDegree() + 1 << ", expected " << n);
  for (int i = 0; i < n; i++)
    CHECK(Num<T>::same(pw.Result.Coefficients.Data[i], r[i], absr[i]), "coefficient " << i << " is " << pw.Result.Coefficients.Data[i] << ", expected " << r[i]);
  c.nontrivial(k > 1 && a.size() > 1);
  if (mx < (int)a.size())
    c.label("shorter than the base");
}
FACET(power_real, "power above 1 of a polynomial that is not constant", 8000) { power<double>(s, c); }
FACET(power_integer, "power above 1 of a polynomial that is not constant", 6000) { power<int>(s, c); }

FACET(trim, "the highest coefficients are zero", 4000) {
  auto a = gen_coefs<double>(s, 6);
  int z = s.range(0, 3);
  for (int i = 0; i < z; i++)
    a.push_back(0);
  c.desc << vec_str(a);
  int d = (int)a.size() - 1;
  while (d >= 0 && a[d] == 0)
    d--;
  {
    PolyIn<double> A(a, false);
    CHECK(A.poly.GetDegree() == (int)a.size() - 1, "degree without trimming " << A.poly.GetDegree());
  }
  if (d < 0) {
    CHECK(throws([&] { PolyIn<double> A(a, true); }), "a zero polynomial is accepted");
    return;
  }
  PolyIn<double> A(a, true);
  CHECK(A.poly.GetDegree() == d, "degree " << A.poly.GetDegree() << ", expected " << d);
  for (int i = 0; i <= d; i++)
    CHECK(A.poly.Coefficients.Data[i] == a[i], "coefficient " << i);
  // the same for matrices
  int m = s.range(1, 3);
  std::vector<M> ms;
  for (auto x : a) {
    M t(m, m);
    if (x != 0)
      t(s.range(0, m - 1), s.range(0, m - 1)) = x;
    ms.push_back(t);
  }
  std::vector<Matrix<double>> vs;
  std::vector<Matrix<double> *> ps;
  for (auto &x : ms)
    vs.push_back(x.v());
  for (auto &x : vs)
    ps.push_back(&x);
  PolynomialM pm, pn;
  pm.Data(ps, true);
  CHECK(pm.GetDegree() == d && pm.GetSize() == m, "matrix polynomial has degree " << pm.GetDegree() << ", expected " << d);
  pn.Data(ps, false);
  CHECK(pn.GetDegree() == (int)a.size() - 1, "matrix polynomial has degree without trimming " << pn.GetDegree());
  c.nontrivial(d < (int)a.size() - 1);
}

struct MPoly {
  std::vector<M> a;
  std::vector<Matrix<double>> v;
  std::vector<Matrix<double> *> ptr;
  PolynomialM p;
  std::unique_ptr<double[]> own;
  // by references or from an array
  MPoly(std::vector<M> &&x, bool array) : a(std::move(x)) {
    int m = a[0].r;
    if (array) {
      own.reset(new double[a.size() * m * m]);
      for (size_t i = 0; i < a.size(); i++)
        std::copy(a[i].p.get(), a[i].p.get() + m * m, own.get() + i * m * m);
      CHECK(p.Data((int)a.size() - 1, m, own.get()) == (int)a.size() * m * m, "used storage");
    } else {
      for (auto &y : a)
        v.push_back(y.v());
      for (auto &y : v)
        ptr.push_back(&y);
      p.Data(ptr);
    }
  }
};
static std::vector<M> gen_mpoly(Src &s, int m, int deg, bool norm = false) {
  std::vector<M> a;
  for (int i = 0; i <= deg; i++)
    a.push_back(norm ? gen_norm(s, m, m) : gen_mat(s, m, m));
  return a;
}
static M absm(const M &a) {
  M b = a;
  for (int i = 0; i < b.n(); i++)
    b.p[i] = std::fabs(b.p[i]);
  return b;
}
static M prod(const M &a, const M &b) {
  M r(a.r, b.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < b.c; j++)
      for (int k = 0; k < a.c; k++)
        r(i, j) += a(i, k) * b(k, j);
  return r;
}

FACET(multiply_matrix, "both degrees are positive and at least 2 equations", 8000) {
  int m = s.range(1, 4), d1 = s.range(0, 4), d2 = s.range(0, 4), mx = s.coin() ? INT_MAX : s.range(1, 9);
  MPoly A(gen_mpoly(s, m, d1), s.coin()), B(gen_mpoly(s, m, d2), s.coin());
  c.desc << "size " << m << " degrees " << d1 << "," << d2 << " max length " << mx << " a0 " << A.a[0].str() << " b0 " << B.a[0].str();
  PolynomialMMultiply mul(m, d1 + s.range(0, 1), d2 + s.range(0, 1), mx);
  int n = std::min(d1 + d2 + 1, mx);
  CHECK(mul.StorageSize >= n * m * m, "storage size " << mul.StorageSize);
  std::unique_ptr<double[]> st(buf(s, mul.StorageSize));
  for (int i = 0; i < mul.StorageSize; i++)
    st[i] = -7;
  mul.Calculate(A.p, B.p, st.get(), mx);
  CHECK(mul.Result.GetDegree() == n - 1, "degree " << mul.Result.GetDegree());
  for (int l = 0; l < n; l++) {
    M r(m, m), e(m, m);
    for (int i = 0; i <= d1; i++)
      if (l - i >= 0 && l - i <= d2) {
        M x = prod(A.a[i], B.a[l - i]), y = prod(absm(A.a[i]), absm(B.a[l - i]));
        for (int k = 0; k < m * m; k++)
          r.p[k] += x.p[k], e.p[k] += y.p[k];
      }
    for (int k = 0; k < m * m; k++)
      CHECK(std::fabs(mul.Result.Coefficients[l]->Data[k] - r.p[k]) <= 1e-13 * e.p[k] + 1e-300, "coefficient matrix " << l << " cell " << k << " is " << mul.Result.Coefficients[l]->Data[k] << ", expected " << r.p[k]);
  }
  c.nontrivial(d1 && d2 && m > 1);
}
FACET(multiply_matrix_by_scalar_polynomial, "both degrees are positive and at least 2 equations", 6000) {
  int m = s.range(1, 4), d1 = s.range(0, 4), mx = s.coin() ? INT_MAX : s.range(1, 9);
  MPoly A(gen_mpoly(s, m, d1), s.coin());
  PolyIn<double> B(gen_coefs<double>(s, 4), false);
  int d2 = (int)B.c.size() - 1;
  c.desc << "size " << m << " degree " << d1 << " by " << vec_str(B.c) << " max length " << mx << " a0 " << A.a[0].str();
  PolynomialMMultiply mul(m, d1, d2, mx);
  int n = std::min(d1 + d2 + 1, mx);
  std::unique_ptr<double[]> st(buf(s, mul.StorageSize));
  for (int i = 0; i < mul.StorageSize; i++)
    st[i] = -7;
  mul.Calculate(A.p, B.poly, st.get(), mx);
  CHECK(mul.Result.GetDegree() == n - 1, "degree " << mul.Result.GetDegree());
  for (int l = 0; l < n; l++)
    for (int k = 0; k < m * m; k++) {
      double r = 0, e = 0;
      for (int i = 0; i <= d1; i++)
        if (l - i >= 0 && l - i <= d2)
          r += A.a[i].p[k] * B.c[l - i], e += std::fabs(A.a[i].p[k] * B.c[l - i]);
      CHECK(std::fabs(mul.Result.Coefficients[l]->Data[k] - r) <= 1e-13 * e + 1e-300, "coefficient matrix " << l << " cell " << k << " is " << mul.Result.Coefficients[l]->Data[k] << ", expected " << r);
    }
  c.nontrivial(d1 && d2 && m > 1);
}
FACET(invert_matrix, "positive degree, at least 2 equations and 3 terms", 8000) {
  int m = s.range(1, 4), d = s.range(0, 4), n = s.range(1, 12), kind = s.range(0, 3);
  auto a = gen_mpoly(s, m, d, true);
  if (kind == 0)
    a[0] = eye(m);
  if (kind == 3 && m > 1) { // not invertible
    for (int j = 0; j < m; j++)
      a[0](m - 1, j) = 0;
  }
  M inv0;
  bool ok = gauss(a[0], eye(m), inv0);
  MPoly A(std::move(a), s.coin());
  c.desc << "size " << m << " degree " << d << " terms " << n << " a0 " << A.a[0].str();
  PolynomialMInvert inv(m, d, n);
  std::unique_ptr<double[]> st(buf(s, inv.StorageSize)), wk(buf(s, inv.WorkSize));
  if (kind == 3 && m > 1) {
    CHECK(throws([&] { inv.Calculate(A.p, st.get(), wk.get(), n); }), "a polynomial whose first coefficient is not invertible is inverted");
    c.label("singular");
    return;
  }
  if (!ok || inv0.maxabs() > 30)
    throw pbt::Discard();
  inv.Calculate(A.p, st.get(), wk.get(), n);
  CHECK(inv.Result.GetDegree() == n - 1, "degree " << inv.Result.GetDegree());
  std::vector<M> r;
  double big = 0;
  for (int l = 0; l < n; l++) {
    M x(m, m);
    std::copy(inv.Result.Coefficients[l]->Data, inv.Result.Coefficients[l]->Data + m * m, x.p.get());
    r.push_back(x);
  }
  // A(L) B(L) = I up to the number of terms
  for (int l = 0; l < n; l++) {
    M x(m, m), e(m, m);
    for (int i = 0; i <= std::min(d, l); i++) {
      M y = prod(A.a[i], r[l - i]), z = prod(absm(A.a[i]), absm(r[l - i]));
      for (int k = 0; k < m * m; k++)
        x.p[k] += y.p[k], e.p[k] += z.p[k];
    }
    big = std::max(big, e.maxabs());
    for (int i = 0; i < m; i++)
      for (int j = 0; j < m; j++)
        CHECK(std::fabs(x(i, j) - (l == 0 && i == j)) <= 1e-11 * (1 + big) * (1 + inv0.maxabs()) * (1 + A.a[0].maxabs()), "product with the inverse at lag " << l << " cell " << i << "," << j << " is " << x(i, j));
  }
  c.nontrivial(d > 0 && m > 1 && n > 2);
}
