// C17: discrete choice models
#include "dc.h"
#include "data_split.h"
using namespace ldt;
typedef DiscreteChoiceModelType MT;
typedef DiscreteChoiceDistType DT;
static M gen_w(Src &s, int n) {
  M w(n, 1, 1);
  int kind = s.range(0, 3);
  for (int i = 0; i < n; i++)
    w.p[i] = kind == 0 ? s.range(1, 3) : kind == 1 ? s.unif(0.2, 3) : kind == 2 ? s.unif(0.01, 0.2) : s.chance(1, 8) ? 0 : 20 * s.unif(0.2, 1);
  return w;
}
static double ncdf2(double z) { return std::erfc(std::fabs(z) / std::sqrt(2.0)); }
static void same_model(const DiscreteChoiceBase &m, const RefDc &e, bool details, const std::string &what = "") {
  CHECK(m.NumObs == e.n && m.NumChoices == e.J && m.NumCutoff == e.J - 1, what << "observations " << m.NumObs << " choices " << m.NumChoices << " cutoffs " << m.NumCutoff << " instead of " << e.n << ", " << e.J << ", " << e.J - 1);
  CHECK(m.Beta.length() == e.p, what << m.Beta.length() << " coefficients instead of " << e.p);
  for (int j = 0; j < e.J; j++)
    CHECK(close(m.Counts.Data[j], e.counts[j], 1e-9, 1e-9), what << "the weight of label " << j << " is " << m.Counts.Data[j] << " instead of " << e.counts[j]);
  double vs = e.var.maxabs();
  for (int a = 0; a < e.p; a++) {
    double sd = std::sqrt(e.var(a, a));
    CHECK(std::fabs(m.Beta.Data[a] - e.b[a]) <= 1e-4 * sd + 1e-7 * std::fabs(e.b[a]), what << "coefficient " << a << " is " << m.Beta.Data[a] << " instead of " << e.b[a] << " (standard error " << sd << ")");
    for (int b = 0; b < e.p; b++)
      CHECK(close(m.BetaVar.Get(a, b), e.var(a, b), 1e-3, 1e-3 * std::sqrt(e.var(a, a) * e.var(b, b)) + 1e-9 * vs), what << "covariance (" << a << "," << b << ") is " << m.BetaVar.Get(a, b) << " instead of " << e.var(a, b));
    if (details) {
      CHECK(close(m.BetaStd.Data[a], std::sqrt(m.BetaVar.Get(a, a)), 1e-9, 0), what << "standard error " << a << " is " << m.BetaStd.Data[a] << " instead of " << sd);
      CHECK(close(m.BetaZ.Data[a], m.Beta.Data[a] / m.BetaStd.Data[a], 1e-9, 0), what << "z statistic " << a << " is " << m.BetaZ.Data[a]);
      CHECK(close(m.BetaProb.Data[a], ncdf2(m.BetaZ.Data[a]), 1e-6, 1e-9), what << "p-value " << a << " is " << m.BetaProb.Data[a] << " instead of " << ncdf2(m.BetaZ.Data[a]));
    }
  }
  CHECK(close(m.LogL, e.logl, 1e-8, 1e-6), what << "log-likelihood " << m.LogL << " instead of " << e.logl);
  CHECK(close(m.Aic, e.aic, 1e-8, 2e-6) && close(m.Sic, e.sic, 1e-8, 2e-6), what << "AIC and SIC " << m.Aic << ", " << m.Sic << " instead of " << e.aic << ", " << e.sic);
  if (e.J == 2)
    CHECK(close(m.condition_number, e.cn, 1e-2, 0), what << "condition number " << m.condition_number << " instead of " << e.cn);
}
static void same_probs(const M &a, const M &e, const std::string &what) {
  same_mat(a, e, what, 1e-4, 1e-6);
  for (int i = 0; i < a.r; i++) {
    double t = 0;
    for (int j = 0; j < a.c; j++)
      t += a(i, j);
    CHECK(std::fabs(t - 1) < 1e-12, what << ": the probabilities of row " << i << " sum to " << t);
  }
}
static void estimation(Src &s, Ctx &c, int J) {
  int k = s.range(1, 4), n = s.range(6 + 3 * k + 4 * (J - 2), 60);
  bool icpt = J > 2 || s.chance(3, 4), probit = s.coin(), hw = s.coin(), det = s.coin(), dispatch = s.coin();
  M y, x;
  gen_dc(s, n, k, J, icpt, y, x);
  M w = gen_w(s, n);
  c.desc << (probit ? "probit" : "logit") << " choices " << J << " weights " << hw << " y=" << y.t().str() << " x=" << x.str() << " w=" << w.t().str();
  RefDc e;
  if (!e.fit(y, x, hw ? &w : nullptr, J, probit))
    throw pbt::Discard();
  int en = s.coin() ? 0 : s.range(1, 5), ek = s.coin() ? 0 : 1;
  auto yv = y.v(), xv = x.v(), wv = w.v();
  std::unique_ptr<DiscreteChoiceBase> m;
  if (dispatch)
    m = DiscreteChoiceBase::GetFromType(J == 2 ? MT::kBinary : MT::kOrdered, probit ? DT::kProbit : DT::kLogit, n + en, k + ek, J, det);
  else if (J == 2 && probit)
    m = std::make_unique<DiscreteChoice<MT::kBinary, DT::kProbit>>(n + en, k + ek, J, det);
  else if (J == 2)
    m = std::make_unique<DiscreteChoice<MT::kBinary, DT::kLogit>>(n + en, k + ek, J, det);
  else if (probit)
    m = std::make_unique<DiscreteChoice<MT::kOrdered, DT::kProbit>>(n + en, k + ek, J, det);
  else
    m = std::make_unique<DiscreteChoice<MT::kOrdered, DT::kLogit>>(n + en, k + ek, J, det);
  m->Optim.TolFunction = 1e-9;
  m->Optim.UseLineSearch = s.chance(3, 4) || J > 2 || e.maxxb > 2;
  auto st = buf(s, m->StorageSize), wk = buf(s, m->WorkSize);
  bool ols = s.chance(3, 4);
  if (!ols) // coefficients which are not set
    st[0] = NAN;
  int nch = s.coin() ? J : -1;
  auto run = [&](bool o) { m->Calculate(yv, xv, hw ? &wv : nullptr, st.get(), wk.get(), nch, o); };
  bool given = s.chance(1, 3); // starting values which are near the maximum
  std::vector<double> start(e.b);
  for (int a = 0; a < e.p; a++)
    start[a] += (given ? 0.2 : 0.0) * s.unif(-1, 1) * std::sqrt(e.var(a, a));
  for (int a = k; a < e.p; a++)
    given &= start[a] > (a > k ? start[a - 1] : 0);
  bool hard = J > 2 || e.cn > 1e3 || e.maxxb > 4, stopped = false;
  try {
    run(ols);
    stopped = hard && m->Optim.iter_line >= 100; // the line search did not find a better point
  } catch (const std::exception &) {
    if (!hard)
      throw;
    stopped = true;
  }
  if (stopped) {
    c.label("no convergence from the default starting values");
    if (!given) // (the likelihood of the starting values can be zero)
      throw pbt::Discard();
  }
  if (given) {
    std::copy(start.begin(), start.end(), m->Beta.Data);
    run(false);
  }
  same_model(*m, e, det);
  int r = s.range(1, n); // (the work array of the estimation is enough for this many rows)
  M nx = gen_norm(s, r, k);
  if (icpt)
    for (int i = 0; i < r; i++)
      nx(i, 0) = 1;
  M np(r, J);
  auto nxv = nx.v(), npv = np.v();
  auto wk2 = buf(s, r + J - 2);
  m->GetProbabilities(nxv, npv, wk2.get());
  M ep = e.probs(nx);
  for (int i = 0; i < r; i++) { // the error of the coefficients is multiplied
    double z = 0;
    for (int j = 0; j < k; j++)
      z = std::max(z, std::fabs(nx(i, j)) * std::sqrt(e.var(j, j)));
    if (z > 20)
      throw pbt::Discard();
  }
  same_mat(np, ep, "probabilities", 1e-3, 1e-3);
  // exactly the probabilities of the estimated coefficients
  RefDc f = e;
  for (int a = 0; a < e.p; a++)
    f.b[a] = m->Beta.Data[a];
  same_mat(np, f.probs(nx), "probabilities of the estimated coefficients", 1e-8, 1e-10);
  c.nontrivial(k > 1 && (hw || J > 2 || probit));
}
FACET(binary, "several regressors; weights or a probit link", 2500) { estimation(s, c, 2); }
FACET(ordered, "several regressors and three labels or more", 1500) { estimation(s, c, s.range(3, 5)); }

struct Gen {
  M data, y, x, w;
  int k;
  bool hw, icpt;
};
FACET(extended, "removed observations, weights, or components", 1500) {
  int k = s.range(1, 4), n = s.range(10 + 4 * k, 60), nf = s.range(0, 3) ? s.range(1, s.chance(1, 4) ? 3 * n : 5) : 0;
  bool hw = s.coin(), probit = s.coin(), weval = s.coin(), missing = s.coin(), det = s.chance(3, 4), icpt = s.chance(3, 4);
  M y, x;
  gen_dc(s, n, k, 2, icpt, y, x);
  M w = gen_w(s, n), nx = gen_norm(s, nf, k);
  if (icpt)
    for (int i = 0; i < nf; i++)
      nx(i, 0) = 1;
  M d = hw ? hcat(hcat(y, w), x) : hcat(y, x);
  bool pca = k > 1 + icpt && s.chance(1, 3);
  PcaAnalysisOptions po;
  if (pca) {
    po.IgnoreFirstCount = s.range(icpt ? 1 : 0, k - 1);
    if (s.coin())
      po.ExactCount = s.range(1, k - po.IgnoreFirstCount);
    else
      po.CutoffRate = s.unif(0.2, 0.99);
    if (s.coin())
      po.CutoffCountMax = s.range(1, k);
  }
  std::vector<int> keep;
  for (int i = 0; i < n; i++) {
    if (missing && s.chance(1, 6))
      d(i, s.range(0, d.c - 1)) = NAN;
    else
      keep.push_back(i);
  }
  int nc = s.chance(2, 3) ? s.range(1, 3) : 0;
  std::vector<M> cm;
  std::vector<ldt::Matrix<double>> cv;
  for (int i = 0; i < nc; i++)
    cm.push_back(gen_cost(s, 2));
  for (auto &q : cm)
    cv.push_back(q.v());
  c.desc << (probit ? "probit" : "logit") << " weights " << hw << " (evaluation " << weval << ") details " << det << " components " << pca << " (ignore " << po.IgnoreFirstCount << " count " << po.ExactCount << " rate " << po.CutoffRate << " max " << po.CutoffCountMax << ") data=" << d.str() << " new x=" << nx.str();
  for (auto &q : cm)
    c.desc << " cost=" << q.str();
  M dk = rows(d, keep), ky = cols(dk, 0, 1), kw = hw ? cols(dk, 1, 1) : M(), kx = cols(dk, hw ? 2 : 1, k), en = nx;
  if ((int)keep.size() < 2 * k + 4)
    throw pbt::Discard();
  if (pca) {
    M ex;
    ref_pca(kx, nf ? &nx : nullptr, po, ex, &en);
    kx = ex;
  }
  RefDc e;
  if (!e.fit(ky, kx, hw ? &kw : nullptr, 2, probit, 2e3))
    throw pbt::Discard();
  int er = s.coin() ? 0 : s.range(1, 4), ef = s.coin() ? 0 : s.range(1, 3);
  DiscreteChoiceExtended m(MT::kBinary, probit ? DT::kProbit : DT::kLogit, n + er, d.c, hw, missing || s.coin(), 2, det, nf + ef, pca ? &po : nullptr, nc ? &cv : nullptr, weval);
  m.Model->Optim.TolFunction = 1e-9;
  auto st = buf(s, m.StorageSize), wk = buf(s, m.WorkSize);
  RocOptions ro;
  ro.NormalizePoints = s.coin();
  auto dv = d.v(), nv = nx.v();
  M d0 = d, n0 = nx;
  m.Calculate(dv, st.get(), wk.get(), true, nf ? &nv : nullptr, ro);
  same_mat(d, d0, "the data after the estimation");
  same_mat(nx, n0, "the new data after the estimation");
  same_mat(from(m.Y), ky, "used labels");
  same_mat(from(m.X), kx, "used exogenous data", 1e-8, 1e-9);
  if (hw)
    same_mat(from(m.W), kw, "used weights");
  same_model(*m.Model, e, det);
  RefDc f = e;
  for (int a = 0; a < e.p; a++)
    f.b[a] = m.Model->Beta.Data[a];
  if (nf) {
    double mx = en.maxabs();
    M p = from(m.PredProbs);
    CHECK(p.r == nf && p.c == 2, "probabilities of " << p.r << "x" << p.c);
    same_mat(p, f.probs(en), "predicted probabilities", 1e-7 * (1 + mx), 1e-8 * (1 + mx));
  }
  if (det) {
    M p = from(m.Projections);
    same_probs(p, e.probs(kx), "projections");
    bool we = hw && weval;
    double br = ref_brier(ky, p, we ? &kw : nullptr), au = ref_auc(ky, p, we ? &kw : nullptr);
    CHECK(close(m.BrierScore, br, 1e-9, 1e-12), "Brier score " << m.BrierScore << " instead of " << br);
    CHECK(close(m.Auc, au, 1e-9, 1e-12), "AUC " << m.Auc << " instead of " << au);
    if (nc) {
      double avg = 0, a, b;
      for (auto &q : cm) {
        ref_cost(q, ky, p, we ? &kw : nullptr, a, b);
        avg += a / b / nc;
      }
      CHECK(close(m.CostRatioAvg, avg, 1e-9, 1e-10), "average cost ratio " << m.CostRatioAvg << " instead of " << avg);
    }
  }
  c.nontrivial((int)keep.size() < n || hw || pca);
}
FACET(simulation, "several valid iterations", 1200) {
  int k = s.range(1, 3), n = s.range(24 + 6 * k, 70);
  bool hw = s.coin(), probit = s.coin(), weval = s.coin(), icpt = s.chance(3, 4);
  M y, x;
  gen_dc(s, n, k, 2, icpt, y, x, 0.6);
  bool rare = k > 1 + icpt && s.chance(1, 3);
  if (rare) { // a regressor which is often zero in the whole training sample
    for (int i = 0; i < n; i++)
      x(i, k - 1) = 0;
    for (int q = 0; q < 2; q++)
      for (int t = 0; t < 20; t++) {
        int i = s.range(0, n - 1);
        if (y.p[i] == q) {
          x(i, k - 1) = q ? 1 : 1.5;
          break;
        }
      }
  }
  M w = gen_w(s, n);
  M d = hw ? hcat(hcat(y, w), x) : hcat(y, x);
  bool pca = !rare && k > 1 + icpt && s.chance(1, 3);
  PcaAnalysisOptions po;
  if (pca) {
    po.IgnoreFirstCount = icpt ? 1 : 0;
    po.ExactCount = s.range(1, k - po.IgnoreFirstCount);
  }
  int nc = s.range(0, 2);
  std::vector<M> cm;
  std::vector<ldt::Matrix<double>> cv;
  for (int i = 0; i < nc; i++)
    cm.push_back(gen_cost(s, 2));
  for (auto &q : cm)
    cv.push_back(q.v());
  bool brier = s.coin(), auc = s.coin(), freq = s.coin();
  if (!nc && !auc && !freq)
    brier = true;
  double ratio = s.unif(0.5, 0.9);
  int fix = s.coin() ? s.range(n / 2, n - 2) : 0, it = s.range(1, 4), maxinv = s.chance(1, 3) ? s.range(0, 2) : 1000;
  int n0 = fix ? fix : (int)std::round(n * ratio), n1 = n - n0;
  unsigned seed = s.range(1, 10000);
  c.desc << (probit ? "probit" : "logit") << " weights " << hw << " (evaluation " << weval << ") ratio " << ratio << " fixed " << fix << " iterations " << it << " seed " << seed << " max invalid " << maxinv << " components " << pca << " (ignore " << po.IgnoreFirstCount << " count " << po.ExactCount << ") brier " << brier << " auc " << auc << " table " << freq << " data=" << d.str();
  for (auto &q : cm)
    c.desc << " cost=" << q.str();
  auto dv = d.v();
  DataSplitDiscrete sp(n, d.c, 2);
  std::unique_ptr<double[]> sst(new double[sp.StorageSize]);
  std::unique_ptr<int[]> swk(new int[sp.WorkSizeI]);
  int pos = 0;
  for (int i = 0; i < n; i++)
    pos += y.p[i] == 1;
  if (pos < 4 || n - pos < 4)
    throw pbt::Discard();
  sp.Calculate(dv, sst.get(), ratio, fix);
  std::mt19937 eng(seed);
  int valid = 0, invalid = 0;
  bool stop = false; // too many invalid simulations
  double sb = 0, sa = 0;
  std::vector<double> cs(nc, 0), cc(nc, 0);
  M tab(10, 2);
  for (int i = 0; i < it; i++) {
    sp.Shuffle(dv, swk.get(), eng);
    M tr = from(sp.Sample0), te = from(sp.Sample1);
    int o = hw ? 2 : 1;
    M ty = cols(tr, 0, 1), tw = hw ? cols(tr, 1, 1) : M(), tx = cols(tr, o, k), ny = cols(te, 0, 1), nw = hw ? cols(te, 1, 1) : M(), nx = cols(te, o, k);
    if (rare) {
      bool z = true;
      for (int q = 0; q < tx.r; q++)
        z &= tx(q, k - 1) == 0;
      if (z) {
        invalid++;
        continue;
      }
    }
    if (pca) {
      M ex, en;
      ref_pca(tx, &nx, po, ex, &en);
      tx = ex;
      nx = en;
    }
    RefDc e;
    if (!e.fit(ty, tx, hw ? &tw : nullptr, 2, probit, 2e3))
      throw pbt::Discard();
    M p = e.probs(nx);
    robust(ny, p, cm, auc && k > 1);
    const M *we = hw && weval ? &nw : nullptr;
    double a, b, sw = 0;
    for (int q = 0; q < n1; q++)
      sw += we ? nw.p[q] : 1;
    if (!(sw > 0))
      throw pbt::Discard();
    sb += ref_brier(ny, p, we);
    sa += ref_auc(ny, p, we);
    for (int q = 0; q < nc; q++) {
      ref_cost(cm[q], ny, p, we, a, b);
      cs[q] += a;
      cc[q] += b;
    }
    for (int q = 0; q < n1; q++) {
      double v = 10 * p(q, (int)ny.p[q]);
      if (freq && std::fabs(v - std::round(v)) < 1e-4)
        throw pbt::Discard();
      tab(std::min(9, (int)v), (int)ny.p[q]) += we ? nw.p[q] : 1;
    }
    valid++;
    stop |= invalid > maxinv;
  }
  stop |= invalid > maxinv;
  int er = s.coin() || fix ? 0 : s.range(1, 4);
  auto m = DiscreteChoiceSimBase::GetFromType(hw, MT::kBinary, probit ? DT::kProbit : DT::kLogit, n + er, d.c, 2, ratio, fix, nc, brier, auc, freq, pca ? &po : nullptr, weval);
  m->Optim.TolFunction = 1e-9;
  m->Seed = seed;
  m->SimulationMax = it;
  auto st = buf(s, m->StorageSize), wk = buf(s, m->WorkSize);
  std::unique_ptr<int[]> wi(new int[m->WorkSizeI]);
  bool cancel = false;
  RocOptions ro;
  ro.NormalizePoints = s.coin();
  std::set<const char *> errs;
  auto run = [&] { m->Calculate(dv, nc ? &cv : nullptr, st.get(), wk.get(), wi.get(), cancel, ro, true, s.coin() ? &errs : nullptr, maxinv); };
  if (stop || valid == 0) {
    CHECK(throws(run), invalid << " invalid simulations of " << it << " are accepted, the limit is " << maxinv);
    return;
  }
  run();
  CHECK(m->ValidSimulationCount == valid && m->N1 == n1 && m->SimulationCounter == it, "valid simulations " << m->ValidSimulationCount << " of " << m->SimulationCounter << ", test size " << m->N1 << " instead of " << valid << " of " << it << ", " << n1);
  if (brier)
    CHECK(close(m->BrierScore, sb / valid, 1e-4, 1e-6), "Brier score " << m->BrierScore << " instead of " << sb / valid);
  if (auc)
    CHECK(close(m->Auc, sa / valid, 1e-6, 1e-7), "AUC " << m->Auc << " instead of " << sa / valid);
  for (int q = 0; q < nc; q++)
    CHECK(close(m->CostRatios.Data[q], cs[q] / cc[q], 1e-7, 1e-9), "cost ratio " << q << " is " << m->CostRatios.Data[q] << " instead of " << cs[q] / cc[q]);
  if (freq)
    same_mat(from(m->FrequencyTable), tab, "frequency table", 1e-7, 1e-9);
  c.nontrivial(valid > 1);
}
FACET(invalid, "every case", 600) {
  int k = s.range(1, 3), n = s.range(12, 30), kind = s.range(0, 8);
  bool probit = s.coin();
  M y, x;
  int J = s.range(3, 4);
  gen_dc(s, n, k, 2, true, y, x);
  auto yv = y.v(), xv = x.v();
  c.desc << "kind " << kind << " " << (probit ? "probit" : "logit") << " y=" << y.t().str() << " x=" << x.str();
  DT dt = probit ? DT::kProbit : DT::kLogit;
  auto calc = [&](DiscreteChoiceBase &m, ldt::Matrix<double> &yv, ldt::Matrix<double> &xv, ldt::Matrix<double> *wv) {
    auto st = buf(s, m.StorageSize), wk = buf(s, m.WorkSize);
    m.Calculate(yv, xv, wv, st.get(), wk.get());
  };
  switch (kind) {
  case 0:
    CHECK(throws([&] { DiscreteChoiceBase::GetFromType(MT::kBinary, dt, n, k, J); }), "a binary model with " << J << " choices is accepted");
    break;
  case 1:
    CHECK(throws([&] { DiscreteChoiceBase::GetFromType(MT::kOrdered, dt, n, k, 2); }), "an ordered model with two choices is accepted");
    break;
  case 2: { // a single label
    double v = s.coin();
    for (int i = 0; i < n; i++)
      y.p[i] = v;
    M w = gen_w(s, n);
    auto wv = w.v();
    auto m = DiscreteChoiceBase::GetFromType(MT::kBinary, dt, n, k);
    CHECK(throws([&] { calc(*m, yv, xv, s.coin() ? &wv : nullptr); }), "a dependent variable with one label is accepted");
    break;
  }
  case 3: { // a label without observations
    int gap = s.range(0, 1);
    for (int i = 0; i < n; i++)
      y.p[i] = i == 0 ? 2 : s.coin() ? 2 : gap;
    auto m = DiscreteChoiceBase::GetFromType(MT::kOrdered, dt, n, k, 3);
    CHECK(throws([&] { calc(*m, yv, xv, nullptr); }), "a label without observations is accepted");
    break;
  }
  case 4: { // too small
    auto m = DiscreteChoiceBase::GetFromType(MT::kBinary, dt, n - 1, k);
    CHECK(throws([&] { calc(*m, yv, xv, nullptr); }), "more observations than declared are accepted");
    break;
  }
  case 5: {
    M x2(n + (s.coin() ? 1 : -1), k, 1);
    auto x2v = x2.v();
    auto m = DiscreteChoiceBase::GetFromType(MT::kBinary, dt, n + 1, k);
    CHECK(throws([&] { calc(*m, yv, x2v, nullptr); }), "regressors with another number of rows are accepted");
    break;
  }
  case 6: {
    M w(n + (s.coin() ? 1 : -1), 1, 1);
    auto wv = w.v();
    auto m = DiscreteChoiceBase::GetFromType(MT::kBinary, dt, n + 1, k);
    CHECK(throws([&] { calc(*m, yv, xv, &wv); }), "weights of another length are accepted");
    break;
  }
  case 7: { // a regressor which is zero everywhere
    int j = s.range(0, k - 1);
    for (int i = 0; i < n; i++)
      x(i, j) = 0;
    y.p[0] = 0;
    y.p[1] = 1;
    auto m = DiscreteChoiceBase::GetFromType(MT::kBinary, dt, n, k);
    CHECK(throws([&] { calc(*m, yv, xv, nullptr); }), "a zero regressor is accepted");
    break;
  }
  default: { // forecasts with another number of columns, simulations without a goal or a test sample
    M d = hcat(y, x);
    auto dv = d.v();
    int what = s.range(0, 3);
    RocOptions ro;
    if (what == 0) {
      DiscreteChoiceExtended m(MT::kBinary, dt, n, d.c, false, false, 2, false, 2, nullptr);
      auto st = buf(s, m.StorageSize), wk = buf(s, m.WorkSize);
      M nx(2, k + (k > 1 && s.coin() ? -1 : 1), 1);
      auto nv = nx.v();
      y.p[0] = 0;
      CHECK(throws([&] { m.Calculate(dv, st.get(), wk.get(), true, &nv, ro); }), "new data with another number of columns is accepted");
    } else if (what == 1) {
      CHECK(throws([&] { DiscreteChoiceSimBase::GetFromType(false, MT::kBinary, dt, n, k + 1, 2, 0.7, 0, 0, false, false, false, nullptr, false); }), "a simulation without a goal is accepted");
    } else if (what == 2) {
      double r = s.pick<double>({0.0, 1.0, -0.5, 1.5, 0.001, 0.999});
      CHECK(throws([&] { DiscreteChoiceSimBase::GetFromType(false, MT::kBinary, dt, n, k + 1, 2, r, 0, 0, true, false, false, nullptr, false); }), "a training ratio of " << r << " is accepted");
    } else
      CHECK(throws([&] { DiscreteChoiceSimBase::GetFromType(false, MT::kBinary, dt, n, k + 1, 2, 0.7, s.coin() ? n : -1, 0, true, false, false, nullptr, false); }), "a training sample of every row is accepted");
  }
  }
  c.nontrivial(true);
}
