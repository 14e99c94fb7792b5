// reference for discrete choice models, used by C17 and C20
#pragma once
#include "ols.h"
#include "discrete_choice.h"
typedef long double L;
// distribution of the latent error: value, density and its derivative
struct Link {
  bool probit;
  L F(L z) const { return probit ? 0.5L * erfcl(-z / sqrtl(2)) : 1 / (1 + expl(-z)); }
  L f(L z) const { return probit ? expl(-0.5L * z * z) / sqrtl(2 * 3.14159265358979323846264338327950288L) : F(z) * F(-z); }
  L d(L z) const { return probit ? -z * f(z) : f(z) * (1 - 2 * F(z)); }
};
// y* = x b + e, y = j when mu_{j-1} <= y* < mu_j with mu_0 = 0; the coefficients are b and mu_1, mu_2, ...
struct RefDc {
  Link link;
  int k = 0, J = 2, n = 0, p = 0;
  std::vector<double> b;
  M var;
  std::vector<double> counts;
  double logl = NAN, aic = NAN, sic = NAN, cn = NAN, maxxb = 0;
  // probability of a label, and the two arguments
  L prob(const std::vector<L> &t, const M &x, int i, int y, L &u, L &v) const {
    L xb = 0;
    for (int j = 0; j < k; j++)
      xb += (L)x(i, j) * t[j];
    auto mu = [&](int j) { return j == 0 ? (L)0 : t[k + j - 1]; };
    bool up = y < J - 1, lo = y > 0;
    u = up ? mu(y) - xb : INFINITY;
    v = lo ? mu(y - 1) - xb : -INFINITY;
    if (up && lo)
      return u + v > 0 ? link.F(-v) - link.F(-u) : link.F(u) - link.F(v);
    return up ? link.F(u) : link.F(-v);
  }
  L eval(const std::vector<L> &t, const M &y, const M &x, const M *w, std::vector<L> *g, std::vector<std::vector<L>> *h) const {
    L ll = 0;
    if (g)
      g->assign(p, 0);
    if (h)
      h->assign(p, std::vector<L>(p, 0));
    for (int i = 0; i < n; i++) {
      L wi = w ? w->p[i] : 1, u, v;
      if (wi == 0)
        continue;
      int yi = (int)y.p[i];
      L P = prob(t, x, i, yi, u, v);
      ll += wi * logl_(P);
      if (!g)
        continue;
      bool up = yi < J - 1, lo = yi > 0;
      std::vector<L> cu(p, 0), cv(p, 0), s(p, 0);
      for (int j = 0; j < k; j++)
        cu[j] = cv[j] = -x(i, j);
      if (up && yi >= 1)
        cu[k + yi - 1] = 1;
      if (lo && yi >= 2)
        cv[k + yi - 2] = 1;
      L fu = up ? link.f(u) : 0, fv = lo ? link.f(v) : 0, du = up ? link.d(u) : 0, dv = lo ? link.d(v) : 0;
      for (int a = 0; a < p; a++)
        s[a] = (fu * cu[a] - fv * cv[a]) / P;
      for (int a = 0; a < p; a++) {
        (*g)[a] += wi * s[a];
        for (int c = 0; c < p; c++)
          (*h)[a][c] += wi * ((du * cu[a] * cu[c] - dv * cv[a] * cv[c]) / P - s[a] * s[c]);
      }
    }
    return ll;
  }
  static L logl_(L P) { return P > 0 ? ::logl(P) : -INFINITY; }
  // returns false when the maximum does not exist or is not well determined
  bool fit(const M &y, const M &x, const M *w, int J_, bool probit, double maxcn = 1e6) {
    link.probit = probit;
    J = J_;
    k = x.c;
    n = y.r;
    p = k + J - 2;
    counts.assign(J, 0);
    for (int i = 0; i < n; i++)
      counts[(int)y.p[i]] += w ? w->p[i] : 1;
    for (double q : counts)
      if (!(q > 0))
        return false;
    std::vector<L> t(p, 0), g;
    for (int j = 1; j < J - 1; j++)
      t[k + j - 1] = j;
    std::vector<std::vector<L>> h;
    L f = eval(t, y, x, w, &g, &h);
    bool ok = false;
    for (int it = 0; it < 60 && !ok; it++) {
      M H(p, p), G(p, 1), st;
      for (int a = 0; a < p; a++) {
        G.p[a] = (double)g[a];
        for (int c = 0; c < p; c++)
          H(a, c) = -(double)h[a][c];
      }
      M iv = inv(H);
      if (!gauss(H, G, st))
        return false;
      double dec = 0;
      for (int a = 0; a < p; a++)
        dec += st.p[a] * G.p[a];
      if (!std::isfinite(dec))
        return false;
      if (dec < 1e-20) {
        var = iv;
        cn = norm1(H) * norm1(iv);
        ok = true;
      }
      L step = 1;
      for (int q = 0; q < 60; q++, step /= 2) {
        std::vector<L> t2 = t;
        for (int a = 0; a < p; a++)
          t2[a] += step * st.p[a];
        bool inc = true;
        for (int j = 0; j < J - 2; j++)
          inc &= t2[k + j] > (j ? t2[k + j - 1] : 0);
        if (!inc)
          continue;
        L f2 = eval(t2, y, x, w, nullptr, nullptr);
        if (f2 >= f - 1e-15L * fabsl(f)) {
          t = t2;
          break;
        }
      }
      f = eval(t, y, x, w, &g, &h);
    }
    if (!ok || !(cn < maxcn))
      return false;
    b.assign(p, 0);
    for (int a = 0; a < p; a++) {
      b[a] = (double)t[a];
      if (!(std::fabs(b[a]) < 1e4) || !(var(a, a) > 0))
        return false;
    }
    for (int i = 0; i < n; i++)
      for (int j = 0; j < J - 1; j++) {
        double xb = j ? -b[k + j - 1] : 0;
        for (int a = 0; a < k; a++)
          xb += x(i, a) * b[a];
        maxxb = std::max(maxxb, std::fabs(xb));
      }
    if (maxxb > (probit ? 5.5 : 15))
      return false;
    logl = (double)f;
    aic = 2 * p - 2 * logl;
    sic = std::log((double)n) * p - 2 * logl;
    return true;
  }
  M probs(const M &x) const {
    M o(x.r, J);
    std::vector<L> t(b.begin(), b.end());
    L u, v;
    for (int i = 0; i < x.r; i++)
      for (int j = 0; j < J; j++)
        o(i, j) = (double)prob(t, x, i, j, u, v);
    return o;
  }
};
inline double ref_brier(const M &y, const M &p, const M *w) {
  L a = 0, b = 0;
  for (int i = 0; i < y.r; i++) {
    L wi = w ? w->p[i] : 1;
    a += wi * (y.p[i] - p(i, 1)) * (y.p[i] - p(i, 1));
    b += wi;
  }
  return (double)(a / b);
}
// probability that an observation with label 1 has the higher score (ties count half)
inline double ref_auc(const M &y, const M &p, const M *w) {
  L a = 0, b = 0;
  for (int i = 0; i < y.r; i++)
    for (int j = 0; j < y.r; j++)
      if (y.p[i] == 1 && y.p[j] == 0) {
        L q = (w ? w->p[i] * w->p[j] : 1);
        b += q;
        a += q * (p(i, 1) > p(j, 1) ? 1 : p(i, 1) == p(j, 1) ? 0.5 : 0);
      }
  return (double)(a / b);
}
// sums and weights of the costs
inline void ref_cost(const M &cost, const M &y, const M &p, const M *w, double &sum, double &cnt) {
  sum = cnt = 0;
  for (int i = 0; i < y.r; i++) {
    int a = (int)y.p[i], r = 0;
    while (r < cost.r - 1 && cost(r, 0) < p(i, a))
      r++;
    double wi = w ? w->p[i] : 1;
    sum += wi * cost(r, a + 1);
    cnt += wi;
  }
}
inline M gen_cost(Src &s, int J) {
  int r = s.range(2, 4);
  M t(r, J + 1);
  double x = 0;
  for (int i = 0; i < r; i++) {
    x += (1 - x) * s.unif(0.1, 0.8);
    t(i, 0) = i == r - 1 ? 1 : x;
    for (int j = 0; j < J; j++)
      t(i, j + 1) = s.chance(1, 3) ? 0 : s.unif(-1, 3);
  }
  return t;
}
// scores which a rounding error cannot move across a threshold or across each other
inline void robust(const M &y, const M &p, const std::vector<M> &costs, bool order) {
  for (int i = 0; i < y.r; i++) {
    for (auto &t : costs)
      for (int q = 0; q < t.r - 1; q++)
        if (std::fabs(t(q, 0) - p(i, (int)y.p[i])) < 1e-6)
          throw pbt::Discard();
    if (order)
      for (int j = 0; j < i; j++)
        if (y.p[i] != y.p[j] && std::fabs(p(i, 1) - p(j, 1)) < 1e-6)
          throw pbt::Discard();
  }
}
// labels from a latent regression
inline void gen_dc(Src &s, int n, int k, int J, bool intercept, M &y, M &x, double strength = 1) {
  x = M(n, k);
  y = M(n, 1);
  std::vector<double> b(k), sc(k);
  for (int j = 0; j < k; j++) {
    double mu = s.chance(1, 4) ? s.unif(-2, 2) : 0;
    sc[j] = s.pick<double>({1.0, 1.0, 0.2, 5.0});
    b[j] = s.chance(1, 3) ? 0 : s.unif(-1, 1) * strength / sc[j];
    for (int i = 0; i < n; i++)
      x(i, j) = intercept && j == 0 ? 1 : mu + sc[j] * s.norm();
  }
  for (int i = 0; i < n; i++) {
    double l = s.norm();
    for (int j = 0; j < k; j++)
      l += b[j] * (x(i, j));
    int a = 0;
    for (int j = 1; j < J; j++)
      a += l > (J == 2 ? 0 : -1 + 2.0 * (j - 1) / (J - 2));
    y.p[i] = a;
  }
}
