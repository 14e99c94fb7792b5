// C09: minimizers and numerical derivatives
#include "mat.h"
#include "functionx.h"
#include "optimization.h"
using namespace ldt;
typedef Matrix<double> Mx;
typedef std::function<double(const Mx &)> Fun;
typedef std::function<void(const Mx &, Mx &)> Vec;

// f = 0.5 x'Ax - b'x + sum w_i exp(v_i'x) : strictly convex and smooth, with known derivatives
struct Convex {
  int n;
  M A, b, V;
  std::vector<double> w;
  long calls = 0;
  double f(const double *x) const {
    double r = 0;
    for (int i = 0; i < n; i++) {
      double t = 0;
      for (int j = 0; j < n; j++)
        t += A(i, j) * x[j];
      r += 0.5 * x[i] * t - b.p[i] * x[i];
    }
    for (size_t k = 0; k < w.size(); k++)
      r += w[k] * std::exp(lin(k, x));
    return r;
  }
  double lin(int k, const double *x) const {
    double t = 0;
    for (int j = 0; j < n; j++)
      t += V(k, j) * x[j];
    return t;
  }
  void grad(const double *x, double *g) const {
    for (int i = 0; i < n; i++) {
      g[i] = -b.p[i];
      for (int j = 0; j < n; j++)
        g[i] += A(i, j) * x[j];
    }
    for (size_t k = 0; k < w.size(); k++) {
      double e = w[k] * std::exp(lin(k, x));
      for (int i = 0; i < n; i++)
        g[i] += e * V(k, i);
    }
  }
  void hess(const double *x, double *h) const {
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        double t = A(i, j);
        for (size_t k = 0; k < w.size(); k++)
          t += w[k] * std::exp(lin(k, x)) * V(k, i) * V(k, j);
        h[i + n * j] = t;
      }
  }
};
static Convex gen_convex(Src &s, int n) {
  Convex q;
  q.n = n;
  q.A = gen_pd(s, n, 0.5);
  q.b = gen_norm(s, n, 1);
  double sc = s.pick<double>({1, 1, 3, 0.2});
  for (int i = 0; i < n; i++)
    q.b.p[i] *= 3 * sc;
  int k = s.range(0, 2);
  q.V = gen_norm(s, k, n);
  for (int i = 0; i < k; i++)
    q.w.push_back(s.unif(0.1, 2));
  for (int i = 0; i < q.V.n(); i++)
    q.V.p[i] *= 0.5;
  return q;
}
static std::vector<double> gen_pt(Src &s, int n, double sc) {
  std::vector<double> x(n);
  for (auto &v : x)
    v = s.chance(1, 5) ? 0.0 : s.norm() * sc;
  return x;
}
// the largest violation of the first-order conditions of the minimum on a box, which are sufficient here
static double kkt(const Convex &q, const double *x, const std::vector<double> &lo, const std::vector<double> &hi, int *active = nullptr) {
  std::vector<double> g(q.n);
  q.grad(x, g.data());
  double w = 0;
  for (int i = 0; i < q.n; i++) {
    double v = lo[i] == hi[i] ? 0 : x[i] <= lo[i] ? std::max(0.0, -g[i]) : x[i] >= hi[i] ? std::max(0.0, g[i]) : std::fabs(g[i]);
    w = std::max(w, v);
    if (active && std::fabs(g[i]) > 1e-3)
      ++*active;
  }
  return w;
}

FACET(newton, "at least 2 variables, not a quadratic, starting away from the minimum", 4000) {
  int n = s.range(1, 5), extra = s.range(0, 1);
  Convex q = gen_convex(s, n);
  auto x0 = gen_pt(s, n, s.pick<double>({0.1, 1, 3}));
  bool two = s.coin(), line = !s.chance(1, 4);
  c.desc << "n " << n << " terms " << q.w.size() << " start " << vec_str(x0) << " A " << q.A.str() << " b " << q.b.str() << (line ? " line search" : " no line search");
  Newton nw(n + extra);
  nw.IterationMax = 200;
  nw.TolGradient = s.coin() ? 1e-8 : 0;
  nw.TolFunction = nw.TolGradient > 0 && s.coin() ? 0 : 1e-10;
  nw.UseLineSearch = line;
  if (!line)
    q.w.clear(); // (pure Newton steps need not decrease other functions)
  std::unique_ptr<double[]> x(new double[n]), st(buf(s, nw.StorageSize)), wk(buf(s, nw.WorkSize)), sg(buf(s, n)), sh(buf(s, n * n));
  std::copy(x0.begin(), x0.end(), x.get());
  Mx X(x.get(), n, 1);
  double f0 = q.f(x.get()), best = f0;
  Fun f = [&](const Mx &v) { double r = q.f(v.Data); best = std::min(best, r); return r; };
  Vec g = [&](const Mx &v, Mx &o) { q.grad(v.Data, o.Data); };
  Vec h = [&](const Mx &v, Mx &o) { q.hess(v.Data, o.Data); };
  if (two)
    nw.Minimize2(f, g, h, X, sg.get(), sh.get(), wk.get());
  else
    nw.Minimize(f, g, h, X, st.get(), wk.get());
  std::vector<double> inf(n, INFINITY), ninf(n, -INFINITY);
  double sc = 1 + std::fabs(f0) + std::fabs(q.f(x.get())), k = kkt(q, x.get(), ninf, inf);
  CHECK(nw.FunctionValue == q.f(x.get()), "the reported value " << nw.FunctionValue << " is not the value at the reported point " << q.f(x.get()));
  CHECK(nw.FunctionValue <= f0, "the value increased");
  CHECK(k <= 3e-4 * sc, "the gradient at the result " << vec_str(x.get(), n) << " is " << k << ", iterations " << nw.Iteration);
  CHECK(nw.Iteration <= nw.IterationMax, "iterations");
  Newton sm(n - 1);
  CHECK(throws([&] { sm.Minimize(f, g, h, X, st.get(), wk.get()); }), "more variables than declared are accepted");
  c.nontrivial(n > 1 && !q.w.empty() && f0 > nw.FunctionValue + 1e-3);
}

FACET(lbfgsb, "at least 2 variables and a bound that is active at the minimum", 6000) {
  int n = s.range(1, 6), kind = s.range(0, 3); // none, lower, upper, both
  Convex q = gen_convex(s, n);
  auto x0 = gen_pt(s, n, 2);
  std::vector<double> lo(n, -INFINITY), hi(n, INFINITY);
  for (int i = 0; i < n; i++) {
    double a = s.norm(), b = a + (s.chance(1, 8) ? 0 : std::fabs(s.norm()) * 2);
    if ((kind & 1) && !s.chance(1, 4))
      lo[i] = a;
    if ((kind & 2) && !s.chance(1, 4))
      hi[i] = b;
  }
  c.desc << "n " << n << " terms " << q.w.size() << " start " << vec_str(x0) << " lower " << vec_str(lo) << " upper " << vec_str(hi) << " A " << q.A.str() << " b " << q.b.str();
  LimitedMemoryBFGSB op(n + s.range(0, 1), s.range(1, 7));
  op.Options.IterationMax = 5000;
  op.Options.Factor = 10;
  op.Options.ProjectedGradientTol = 1e-9;
  std::unique_ptr<double[]> x(new double[n]), st(buf(s, op.StorageSize)), wk(buf(s, op.WorkSize)), pl(new double[n]), pu(new double[n]);
  std::unique_ptr<int[]> wi(new int[op.WorkSizeI]);
  std::copy(x0.begin(), x0.end(), x.get());
  std::copy(lo.begin(), lo.end(), pl.get());
  std::copy(hi.begin(), hi.end(), pu.get());
  Mx X(x.get(), n, 1), L(pl.get(), n, 1), U(pu.get(), n, 1);
  bool feasible = true;
  std::string badpt;
  double last = NAN;
  Fun f = [&](const Mx &v) {
    for (int i = 0; i < n; i++)
      if (v.Data[i] < lo[i] || v.Data[i] > hi[i])
        feasible = false, badpt = vec_str(v.Data, n);
    return last = q.f(v.Data);
  };
  Vec g = [&](const Mx &v, Mx &o) { q.grad(v.Data, o.Data); };
  Mx *pL = (kind & 1) ? &L : nullptr, *pU = (kind & 2) ? &U : nullptr;
  if (s.coin())
    op.Minimize(f, g, X, st.get(), wk.get(), pL, pU);
  else
    op.Minimize0(f, g, X, st.get(), wk.get(), wi.get(), pL, pU);
  CHECK(feasible, "the function is evaluated outside the bounds, at " << badpt);
  for (int i = 0; i < n; i++) {
    CHECK(x[i] >= lo[i] && x[i] <= hi[i], "the result " << vec_str(x.get(), n) << " is outside the bounds");
    CHECK(pl[i] == lo[i] && pu[i] == hi[i], "the bounds changed");
  }
  int active = 0;
  double fx = q.f(x.get()), sc = 1 + std::fabs(fx), k = kkt(q, x.get(), lo, hi, &active);
  CHECK(pbt::close(op.FunctionValue, fx, 1e-9, 1e-9), "the reported value " << op.FunctionValue << " is not the value at the reported point " << fx);
  CHECK(k <= 3e-4 * sc, "the result " << vec_str(x.get(), n) << " is not the minimum: the projected gradient is " << k << ", task " << op.Task << " iterations " << op.Iteration);
  c.nontrivial(n > 1 && active);
  if (kind == 0)
    c.label("no bounds");
}

FACET(nelder_mead, "at least 2 variables and a minimum away from the start", 3000) {
  int n = s.range(1, 4), kind = s.range(0, 3);
  Convex q = gen_convex(s, n);
  auto x0 = gen_pt(s, n, 1);
  std::vector<double> lo(n, -INFINITY), hi(n, INFINITY);
  for (int i = 0; i < n; i++) {
    double a = s.norm() - 1, b = a + 0.5 + std::fabs(s.norm()) * 2;
    if (kind & 1)
      lo[i] = a;
    if (kind & 2)
      hi[i] = b;
  }
  double pen = s.pick<double>({10, 100, 1000});
  bool throwing = s.chance(1, 5);
  c.desc << "n " << n << " start " << vec_str(x0) << " lower " << vec_str(lo) << " upper " << vec_str(hi) << " A " << q.A.str() << " b " << q.b.str() << " penalty " << pen;
  NelderMead nm(n);
  nm.MaxIteration = s.pick<int>({5, 300, 3000});
  nm.Tolerance = 1e-10;
  std::unique_ptr<double[]> x(new double[n]), st(buf(s, nm.StorageSize)), wk(buf(s, nm.WorkSize)), pl(new double[n]), pu(new double[n]);
  std::copy(x0.begin(), x0.end(), x.get());
  std::copy(lo.begin(), lo.end(), pl.get());
  std::copy(hi.begin(), hi.end(), pu.get());
  Mx X(x.get(), n, 1), L(pl.get(), n, 1), U(pu.get(), n, 1);
  double best = INFINITY, f0 = NAN;
  auto penalized = [&](const double *v) {
    double p = 0;
    for (int i = 0; i < n; i++)
      p += v[i] < lo[i] ? (lo[i] - v[i]) * (lo[i] - v[i]) : v[i] > hi[i] ? (v[i] - hi[i]) * (v[i] - hi[i]) : 0;
    return q.f(v) + pen * p;
  };
  long calls = 0;
  Fun f = [&](const Mx &v) {
    if (throwing && ++calls % 7 == 3)
      throw std::logic_error("no value here");
    double r = penalized(v.Data);
    if (std::isnan(f0))
      f0 = r;
    best = std::min(best, r);
    return q.f(v.Data);
  };
  nm.Minimize(f, X, wk.get(), st.get(), (kind & 1) ? &L : nullptr, (kind & 2) ? &U : nullptr, pen);
  CHECK(nm.Result.Data == st.get() && nm.Result.length() == n, "the result is not in the storage");
  double fx = penalized(st.get());
  if (!throwing)
    CHECK(pbt::close(nm.Min, fx, 1e-12, 1e-12), "the reported minimum " << nm.Min << " is not the value at the reported point " << fx);
  CHECK(pbt::close(fx, best, 1e-12, 1e-12), "the value at the result " << fx << " is not the best value that was found, " << best);
  CHECK(fx <= f0, "the value increased");
  CHECK(nm.Iter <= nm.MaxIteration, "iterations " << nm.Iter);
  if (kind == 3) {
    std::swap(pl[0], pu[0]);
    CHECK(throws([&] { nm.Minimize(f, X, wk.get(), st.get(), &L, &U, pen); }), "a lower bound above the upper bound is accepted");
  }
  x[0] = NAN;
  CHECK(throws([&] { nm.Minimize(f, X, wk.get(), st.get(), nullptr, nullptr, pen); }), "a missing starting value is accepted");
  c.nontrivial(n > 1 && f0 > best + 1e-3);
}

FACET(line_minimizer, "a minimum away from the start, or an active bound", 8000) {
  // convex function of one variable
  double m = s.norm() * 2, a = s.unif(0.1, 3), b = s.coin() ? 0 : s.unif(0, 1), x0 = s.chance(1, 6) ? 0 : s.norm() * 2;
  auto fn = [&](double x) { return a * (x - m) * (x - m) + b * std::pow(x - m, 4); };
  int kind = s.range(0, 3);
  double lo = NAN, hi = NAN;
  if (kind & 1)
    lo = s.coin() ? s.unif(0.5, 3) : -s.unif(0.5, 3);
  if (kind & 2)
    hi = std::isnan(lo) ? (s.coin() ? s.unif(0.5, 3) : -s.unif(0.5, 3)) : lo + s.unif(0.3, 2);
  if (std::fabs(hi) < 0.3)
    throw pbt::Discard();
  double tol = s.pick<double>({1e-6, 1e-3, 1e-8});
  c.desc << a << "(x-" << m << ")^2+" << b << "(x-m)^4 start " << x0 << " lower " << lo << " upper " << hi << " tol " << tol;
  double xs = m;
  if (!std::isnan(lo))
    xs = std::max(xs, lo);
  if (!std::isnan(hi))
    xs = std::min(xs, hi);
  std::function<double(const double &)> f = [&](const double &x) { return fn(x); };
  auto r = NelderMead::Minimize1(f, x0, 0.1, 1000, tol, lo, hi);
  double x = std::get<0>(r);
  CHECK(std::fabs(x - xs) <= 10 * tol + 1e-6, "result " << x << ", expected " << xs);
  CHECK(std::get<1>(r) <= 1000, "iterations");
  c.nontrivial(std::fabs(x0 - xs) > 0.2);
}

FACET(first_derivative, "at least 2 variables", 5000) {
  int n = s.range(1, 5), extra = s.range(0, 2), count = s.range(1, 6);
  Convex q = gen_convex(s, n);
  auto x0 = gen_pt(s, n, 1);
  for (auto &v : x0) // (the step is relative, so tiny values are dominated by rounding)
    if (v != 0 && std::fabs(v) < 0.05)
      v = 0.05;
  c.desc << "n " << n << " count " << count << " x " << vec_str(x0) << " A " << q.A.str() << " b " << q.b.str() << " V " << q.V.str();
  bool both = s.coin();
  Derivative d(n + extra, true, both, count);
  std::unique_ptr<double[]> x(new double[n]), st(buf(s, d.StorageSize1)), wk(buf(s, d.WorkSize));
  std::copy(x0.begin(), x0.end(), x.get());
  bool col = s.coin();
  Mx X(x.get(), col ? n : 1, col ? 1 : n);
  double big = 0;
  Fun f = [&](const Mx &v) {
    CHECK(v.RowsCount == X.RowsCount && v.ColsCount == X.ColsCount, "the function is called with another shape");
    double r = q.f(v.Data);
    big = std::max(big, std::fabs(r));
    return r;
  };
  std::vector<double> g(n), h(n * n);
  q.grad(x0.data(), g.data());
  d.CalculateFirst(f, X, st.get(), wk.get());
  CHECK(d.Result1.RowsCount == n && d.Result1.ColsCount == 1 && d.Result1.Data == st.get(), "shape of the result");
  for (int i = 0; i < n; i++) {
    double step = (std::fabs(x0[i]) < 1e-7 ? 1e-5 : 1e-4 * std::fabs(x0[i])) / std::pow(2.0, count - 1);
    double tol = 60e-16 * (1 + big) / step * 10 + 1e-6 * (1 + std::fabs(g[i]));
    CHECK(std::fabs(st[i] - g[i]) <= tol, "derivative " << i << " is " << st[i] << ", expected " << g[i] << " within " << tol);
    CHECK(x[i] == x0[i], "the point changed");
  }
  if (!both)
    CHECK(throws([&] { d.CalculateSecond(f, X, st.get(), wk.get()); }), "a second derivative that is not declared is calculated");
  if (n > 1) {
    Derivative sm(n - 1, true, true, count);
    CHECK(throws([&] { sm.CalculateFirst(f, X, st.get(), wk.get()); }), "more variables than declared are accepted");
  }
  c.nontrivial(n > 1);
}

FACET(second_derivative, "at least 2 variables", 4000) {
  int n = s.range(1, 5), extra = s.range(0, 2), count = s.range(1, 4);
  Convex q = gen_convex(s, n);
  auto x0 = gen_pt(s, n, 2);
  c.desc << "n " << n << " count " << count << " x " << vec_str(x0) << " A " << q.A.str() << " b " << q.b.str() << " V " << q.V.str();
  bool both = s.coin();
  Derivative d(n + extra, both, true, count);
  d.Step0 = d.Step1 = 1e-3;
  std::unique_ptr<double[]> x(new double[n]), st(buf(s, d.StorageSize2)), wk(buf(s, d.WorkSize));
  std::copy(x0.begin(), x0.end(), x.get());
  Mx X(x.get(), n, 1);
  double big = 0;
  Fun f = [&](const Mx &v) {
    double r = q.f(v.Data);
    big = std::max(big, std::fabs(r));
    return r;
  };
  std::vector<double> h(n * n);
  q.hess(x0.data(), h.data());
  d.CalculateSecond(f, X, st.get(), wk.get());
  CHECK(d.Result2.RowsCount == n && d.Result2.ColsCount == n && d.Result2.Data == st.get(), "shape of the result");
  double mx = 0;
  for (auto v : h)
    mx = std::max(mx, std::fabs(v));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double si = std::max(1.0, std::fabs(x0[i])) * 2e-3 / std::pow(2.0, count - 1), sj = std::max(1.0, std::fabs(x0[j])) * 2e-3 / std::pow(2.0, count - 1);
      double tol = 60e-16 * (1 + big) / (si * sj) * 10 + (count == 1 ? 2e-3 : 2e-4) * (1 + mx + big);
      CHECK(std::fabs(st[i + n * j] - h[i + n * j]) <= tol, "second derivative " << i << "," << j << " is " << st[i + n * j] << ", expected " << h[i + n * j] << " within " << tol);
      CHECK(x[i] == x0[i], "the point changed");
    }
  if (!both)
    CHECK(throws([&] { d.CalculateFirst(f, X, st.get(), wk.get()); }), "a first derivative that is not declared is calculated");
  c.nontrivial(n > 1);
}

FACET(area_under_points, "at least 3 points", 8000) {
  int n = s.range(0, 8);
  std::vector<std::tuple<double, double>> p, q;
  double x = s.num(), base = s.coin() ? 0 : s.norm(), area = 0, mag = 0, px = 0, py = 0, x0 = x;
  for (int i = 0; i < n; i++) {
    double y = s.num();
    p.push_back({x, y});
    q.push_back({y, x});
    if (i) {
      double d = (x - px) * ((y - base) + (py - base)) / 2;
      area += d;
      mag += std::fabs(x - px) * (std::fabs(y) + std::fabs(py) + std::fabs(base));
    }
    px = x;
    py = y;
    x += s.chance(1, 5) ? 0 : std::fabs(s.norm());
  }
  (void)x0;
  c.desc << n << " points, base " << base;
  if (n < 2)
    area = 0;
  auto h = AucPoints<false>(p, base), h0 = h;
  auto v = AucPoints<true>(q, base);
  CHECK(std::fabs(h.Result - area) <= 1e-12 * mag + 1e-300, "area " << h.Result << ", expected " << area);
  CHECK(std::fabs(v.Result - area) <= 1e-12 * mag + 1e-300, "area on the vertical axis " << v.Result << ", expected " << area);
  c.nontrivial(n > 2);
}
