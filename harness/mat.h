// helper matrices for the harnesses: a column-major matrix that owns exactly the data it needs
#pragma once
#include "common.h"
#include "matrix.h"
#include <memory>
struct M {
  int r = 0, c = 0;
  std::unique_ptr<double[]> p; // exact size, so that the sanitizer sees any access outside
  M() : M(0, 0) {}
  M(int r_, int c_, double v = 0) : r(r_), c(c_), p(new double[r_ * c_]) {
    for (int i = 0; i < r * c; i++)
      p[i] = v;
  }
  M(const M &o) : M(o.r, o.c) { std::copy(o.p.get(), o.p.get() + r * c, p.get()); }
  M &operator=(const M &o) {
    r = o.r;
    c = o.c;
    p.reset(new double[r * c]);
    std::copy(o.p.get(), o.p.get() + r * c, p.get());
    return *this;
  }
  M(M &&) = default;
  M &operator=(M &&) = default;
  double &operator()(int i, int j) { return p[i + (long)r * j]; }
  double operator()(int i, int j) const { return p[i + (long)r * j]; }
  int n() const { return r * c; }
  ldt::Matrix<double> v() { return ldt::Matrix<double>(p.get(), r, c); }
  M t() const {
    M o(c, r);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        o(j, i) = (*this)(i, j);
    return o;
  }
  double maxabs() const {
    double m = 0;
    for (int i = 0; i < n(); i++)
      if (std::isfinite(p[i]))
        m = std::max(m, std::fabs(p[i]));
    return m;
  }
  std::string str() const {
    std::ostringstream o;
    o.precision(6);
    o << r << "x" << c << "[";
    for (int i = 0; i < r; i++) {
      o << (i ? "; " : "");
      for (int j = 0; j < c; j++)
        o << (j ? " " : "") << (*this)(i, j);
    }
    o << "]";
    return o.str();
  }
};
inline M gen_mat(Src &s, int r, int c) {
  M m(r, c);
  for (int i = 0; i < m.n(); i++)
    m.p[i] = s.num();
  return m;
}
inline M gen_norm(Src &s, int r, int c) {
  M m(r, c);
  for (int i = 0; i < m.n(); i++)
    m.p[i] = s.norm();
  return m;
}
// naive product, with an error bound in e (sum of absolute products)
inline M mul(const M &a, const M &b, M *e = nullptr) {
  M o(a.r, b.c);
  if (e)
    *e = M(a.r, b.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < b.c; j++) {
      long double x = 0, y = 0;
      for (int k = 0; k < a.c; k++) {
        long double t = (long double)a(i, k) * b(k, j);
        x += t;
        y += fabsl(t);
      }
      o(i, j) = (double)x;
      if (e)
        (*e)(i, j) = (double)y;
    }
  return o;
}
inline M sym(const M &a) { // a + a'
  M o = a;
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++)
      o(i, j) = a(i, j) + a(j, i);
  return o;
}
// symmetric positive definite with condition number up to about (1+d)^2
inline M gen_pd(Src &s, int n, double ridge = 0.3) {
  M a = gen_norm(s, n, n + 2);
  M o = mul(a, a.t());
  for (int i = 0; i < n; i++)
    o(i, i) += ridge * n;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      o(i, j) = o(j, i);
  return o;
}
inline void same_mat(const M &a, const M &b, const std::string &what, double rt = 0, double at = 0, const M *scale = nullptr) {
  CHECK(a.r == b.r && a.c == b.c, what << ": dimension " << a.r << "x" << a.c << " expected " << b.r << "x" << b.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++)
      CHECK(close(a(i, j), b(i, j), rt, at + (scale ? (*scale)(i, j) : 0)),
            what << ": element (" << i << "," << j << ") is " << a(i, j) << " expected " << b(i, j) << "\n got " << a.str() << "\n expected " << b.str());
}
template <class F> bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
// solve / invert by Gauss-Jordan with full pivoting in long double; returns false when singular; det gets the determinant
inline bool gauss(const M &a, M b, M &x, long double *det = nullptr) {
  int n = a.r, m = b.c;
  std::vector<std::vector<long double>> w(n, std::vector<long double>(n + m));
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++)
      w[i][j] = a(i, j);
    for (int j = 0; j < m; j++)
      w[i][n + j] = b(i, j);
  }
  long double d = 1;
  for (int k = 0; k < n; k++) {
    int q = k;
    for (int i = k; i < n; i++)
      if (fabsl(w[i][k]) > fabsl(w[q][k]))
        q = i;
    if (w[q][k] == 0) {
      if (det)
        *det = 0;
      return false;
    }
    if (q != k) {
      std::swap(w[q], w[k]);
      d = -d;
    }
    d *= w[k][k];
    for (int i = 0; i < n; i++)
      if (i != k) {
        long double f = w[i][k] / w[k][k];
        if (f != 0)
          for (int j = k; j < n + m; j++)
            w[i][j] -= f * w[k][j];
      }
  }
  x = M(n, m);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < m; j++)
      x(i, j) = (double)(w[i][n + j] / w[i][i]);
  if (det)
    *det = d;
  return true;
}
inline M eye(int n) {
  M o(n, n);
  for (int i = 0; i < n; i++)
    o(i, i) = 1;
  return o;
}
inline M solve(const M &a, const M &b) {
  M x(a.r, b.c, NAN);
  gauss(a, b, x);
  return x;
}
inline M inv(const M &a) { return solve(a, eye(a.r)); }
template <class T> M from(const ldt::Matrix<T> &m) {
  M o(m.RowsCount, m.ColsCount);
  for (int i = 0; i < o.n(); i++)
    o.p[i] = m.Data[i];
  return o;
}
inline M add(const M &a, const M &b, double f = 1) {
  M o = a;
  for (int i = 0; i < a.n(); i++)
    o.p[i] += f * b.p[i];
  return o;
}
