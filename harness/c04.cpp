// C04: variables: valid range, trimming, interpolation, partitions, alignment on one time axis, text, Box-Cox
#include "freq_gen.h"
#include "variable.h"
using namespace ldt;

static std::vector<double> gen_nan_data(Src &s, int n) {
  std::vector<double> d(n);
  int lead = s.chance(1, 2) ? (int)s.draw(4) : 0, trail = s.chance(1, 2) ? (int)s.draw(4) : 0;
  bool holes = s.coin();
  for (int i = 0; i < n; i++) {
    d[i] = s.num();
    if (i < lead || i >= n - trail || (holes && s.chance(1, 3)))
      d[i] = NAN;
  }
  return d;
}
static void same(const std::vector<double> &a, const std::vector<double> &b, const std::string &what, double rt = 0, double at = 0) {
  CHECK(a.size() == b.size(), what << ": " << vec_str(a) << " expected " << vec_str(b));
  for (size_t i = 0; i < a.size(); i++)
    CHECK(close(a[i], b[i], rt, at), what << ": value " << i << " in " << vec_str(a, 17) << " expected " << vec_str(b, 17));
}
static void range_of(const std::vector<double> &d, int &a, int &b, bool &miss) {
  a = 1;
  b = 0;
  miss = false;
  std::vector<int> ok;
  for (int i = 0; i < (int)d.size(); i++)
    if (!std::isnan(d[i]))
      ok.push_back(i);
  if (ok.empty())
    return;
  a = ok.front();
  b = ok.back();
  miss = (int)ok.size() < b - a + 1;
}

FACET(range_and_trim, "some but not all values are missing at an end", 12000) {
  auto g = gen_freq(s);
  int n = s.range(1, 15);
  Variable<Tv> v;
  v.Data = gen_nan_data(s, n);
  v.StartFrequency = g.f->Clone();
  c.desc << g.m.cls << " " << g.m.text(0) << " " << vec_str(v.Data);
  auto d = v.Data;
  int a, b;
  bool miss, m2 = false;
  range_of(d, a, b, miss);
  auto end = v.GetEndFrequency();
  CHECK(end->ToString() == g.m.text(n), "the frequency after the last observation is " << end->ToString() << " expected " << g.m.text(n));
  auto r = v.GetRange(m2);
  CHECK(r.IsNotValid() == (a > b), "validity of the range");
  auto r0 = Array<Tv>::GetRange(&d[0], n);
  CHECK(r0.IsNotValid() == (a > b), "validity of the range (array)");
  bool m3 = false;
  std::vector<Variable<Tv> *> one = {&v};
  Variables<Tv> vs(one);
  auto t = vs.GetRange(0, m3);
  if (a <= b) {
    CHECK(r.StartIndex == a && r.EndIndex == b && r.Count() == b - a + 1, "range [" << r.StartIndex << "," << r.EndIndex << "] expected [" << a << "," << b << "]");
    CHECK(r0.StartIndex == a && r0.EndIndex == b, "range (array)");
    CHECK(std::get<0>(t) == a && std::get<1>(t) == b, "range of a column");
    CHECK(m2 == miss && m3 == miss, "'has missing' is " << m2 << "/" << m3 << " expected " << miss);
  } else
    CHECK(std::get<0>(t) > std::get<1>(t), "range of an empty column");
  auto rt = v.Trim();
  CHECK(rt.IsNotValid() == (a > b), "validity of the trim range");
  if (a > b) {
    same(v.Data, d, "data of a variable without any value after trimming");
    return;
  }
  CHECK(rt.StartIndex == a && rt.EndIndex == b, "trim range");
  same(v.Data, std::vector<double>(d.begin() + a, d.begin() + b + 1), "trimmed data");
  CHECK(v.StartFrequency->ToString() == g.m.text(a), "start after trim is " << v.StartFrequency->ToString() << " expected " << g.m.text(a));
  c.nontrivial(a > 0 || b < n - 1);
  c.label(a == 0 && b == n - 1 ? "nothing to trim" : "trimmed");
}

FACET(interpolate, "there is at least one missing value between observations", 12000) {
  int n = s.range(1, 20);
  auto d = gen_nan_data(s, n);
  c.desc << vec_str(d);
  Variable<Tv> v;
  v.Data = d;
  v.StartFrequency = FrequencyYearBased::Yearly(2000);
  Ti cnt = 0;
  auto r = v.Interpolate(cnt);
  int a, b, k = 0;
  bool miss;
  range_of(d, a, b, miss);
  CHECK(r.IsNotValid() == (a > b), "validity");
  auto e = d;
  double sc = 0;
  if (a <= b) {
    CHECK(r.StartIndex == a && r.EndIndex == b, "range");
    int last = a;
    for (int i = a; i <= b; i++)
      if (!std::isnan(d[i])) {
        sc = std::max(sc, std::fabs(d[i]));
        for (int j = last + 1; j < i; j++, k++)
          e[j] = d[last] + (d[i] - d[last]) * (j - last) / (i - last);
        last = i;
      }
  }
  CHECK(cnt == k, "number of interpolated values is " << cnt << " expected " << k);
  same(v.Data, e, "interpolated data", 1e-11, 1e-12 * sc);
  c.nontrivial(k > 0);
}

FACET(partition, "more than one part", 8000) {
  int n = s.range(0, 40), k = s.range(1, 12);
  bool end = s.coin();
  std::vector<double> d(n);
  for (int i = 0; i < n; i++)
    d[i] = i + 1;
  std::vector<std::vector<double>> p;
  Array<Tv>::PartitionEqual(d, p, k, end);
  c.desc << "n=" << n << " size=" << k << " fromEnd=" << end;
  std::vector<double> all;
  for (size_t i = 0; i < p.size(); i++) {
    bool rest = end ? i == 0 : i + 1 == p.size();
    CHECK(p[i].size() > 0 && (rest ? (int)p[i].size() <= k : (int)p[i].size() == k), "part " << i << " has " << p[i].size() << " items");
    all.insert(all.end(), p[i].begin(), p[i].end());
  }
  same(all, d, "the parts put together");
  c.nontrivial(p.size() > 1);
}

FACET(bind, "at least two variables that do not cover the same period", 12000) {
  auto g = gen_freq(s);
  int q = s.range(1, 5);
  std::vector<std::unique_ptr<Variable<Tv>>> own;
  std::vector<Variable<Tv> *> vars;
  std::vector<int> st;
  int lo = 1000, hi = -1000;
  bool diff = false;
  c.desc << g.m.cls << " from " << g.m.text(0) << ":";
  for (int i = 0; i < q; i++) {
    auto v = std::make_unique<Variable<Tv>>();
    int k = (int)s.sint(-6, 6), n = s.range(1, 8);
    v->StartFrequency = g.f->Clone();
    v->StartFrequency->Next(k);
    v->Data = gen_nan_data(s, n);
    v->Name = "V" + std::to_string(i);
    c.desc << " [" << k << "," << k + n << ")";
    if (i && (k != lo || k + n != hi))
      diff = true;
    lo = std::min(lo, k);
    hi = std::max(hi, k + n);
    st.push_back(k);
    vars.push_back(v.get());
    own.push_back(std::move(v));
  }
  Variables<Tv> vs(vars);
  CHECK(vs.NumObs == hi - lo, "number of observations " << vs.NumObs << " expected " << hi - lo);
  CHECK(vs.StartFrequency->ToString() == g.m.text(lo), "start is " << vs.StartFrequency->ToString() << " expected " << g.m.text(lo));
  CHECK((int)vs.Data.size() == q * (hi - lo) && (int)vs.Names.size() == q, "size");
  for (int i = 0; i < q; i++) {
    CHECK(vs.Names[i] == vars[i]->Name, "name of column " << i);
    std::vector<double> e(hi - lo, NAN);
    for (size_t j = 0; j < vars[i]->Data.size(); j++)
      e[st[i] - lo + (int)j] = vars[i]->Data[j];
    same(std::vector<double>(vs.Data.begin() + i * (hi - lo), vs.Data.begin() + (i + 1) * (hi - lo)), e, "column " + std::to_string(i));
  }
  c.nontrivial(q > 1 && diff);
  c.label(g.m.kind);
}

FACET(bind_mixed, "two classes", 3000) {
  auto g = gen_freq(s), h = gen_freq(s);
  if (g.f->mClass == h.f->mClass && g.m.clsDetails == h.m.clsDetails)
    throw pbt::Discard();
  if (g.f->mClass == h.f->mClass && g.m.list) // the class of a list does not depend on its items
    throw pbt::Discard();
  c.desc << g.m.cls << " and " << h.m.cls;
  c.nontrivial();
  Variable<Tv> a, b;
  a.Data = b.Data = {1, 2};
  a.StartFrequency = std::move(g.f);
  b.StartFrequency = std::move(h.f);
  try {
    Variables<Tv> vs({&a, &b});
  } catch (const LdtException &) {
    return;
  }
  fail("variables with frequencies of two classes are put on one axis");
}

static std::string gen_name(Src &s) {
  static const std::string al = "ABCxyz019_ .-,:()";
  std::string o;
  int n = s.range(1, 8);
  for (int i = 0; i < n; i++)
    o += al[s.draw(al.size())];
  return o;
}
FACET(text_round_trip, "several observations and a field", 10000) {
  auto g = gen_freq(s);
  Variable<Tv> v, r;
  int n = s.range(1, 10);
  v.Data = gen_nan_data(s, n);
  v.Name = gen_name(s);
  v.StartFrequency = g.f->Clone();
  int nf = (int)s.draw(4);
  for (int i = 0; i < nf; i++)
    v.Fields.insert({gen_name(s), s.chance(1, 4) ? gen_name(s) + ";" + gen_name(s) : gen_name(s)});
  c.desc << "name '" << v.Name << "' " << g.m.cls << " " << g.m.text(0) << " " << vec_str(v.Data) << " fields " << v.Fields.size();
  std::string t = v.ToString();
  std::vector<std::string> ls;
  std::vector<boost::gregorian::date> ld;
  Variable<Tv>::Parse(t, r, ls, ld);
  CHECK(r.Name == v.Name, "name '" << r.Name << "'");
  CHECK(r.Fields == v.Fields, "fields in " << t);
  CHECK(r.StartFrequency->mClass == v.StartFrequency->mClass && r.StartFrequency->ToString() == g.m.text(0) &&
            r.StartFrequency->ToClassString(true) == g.m.clsDetails,
        "start is " << r.StartFrequency->ToString() << " (" << r.StartFrequency->ToClassString(true) << ")");
  same(r.Data, v.Data, "data of " + t, 2.3e-16, 1e-16);
  auto e1 = r.GetEndFrequency();
  CHECK(e1->ToString() == g.m.text(n), "end");
  bool nan = false;
  for (auto x : v.Data)
    nan = nan || std::isnan(x);
  bool small = true;
  for (auto x : v.Data)
    small = small && std::fabs(x) < 1e9;
  if (!nan && small) {
    CHECK(v.IsEqualTo(r, 1e-6), "the parsed variable is not equal to the original");
    int k = (int)s.draw(n);
    r.Data[k] += 1;
    CHECK(!v.IsEqualTo(r, 1e-6), "variables with different data are equal");
    r.Data[k] = v.Data[k];
    if (s.coin())
      r.StartFrequency->Next(1);
    else
      r.Name += "a";
    CHECK(!v.IsEqualTo(r, 1e-6), "variables with different names or starts are equal");
  }
  c.nontrivial(n > 1 && nf > 0);
}

FACET(malformed, "the text was changed", 10000) {
  auto g = gen_freq(s);
  Variable<Tv> v, r;
  v.Data = gen_nan_data(s, s.range(1, 4));
  v.StartFrequency = g.f->Clone();
  if (s.coin())
    v.Fields.insert({"k", "v"});
  std::string t = v.ToString(), o = t;
  int k = s.range(1, 4);
  for (int i = 0; i < k && !t.empty(); i++) {
    size_t p = s.draw(t.size());
    switch (s.draw(5)) {
    case 0: t.erase(p, 1); break;
    case 1: t.insert(p, 1, "\t;:0Aa-|"[s.draw(8)]); break;
    case 2: t[p] = "\t;:09Aez-|"[s.draw(10)]; break;
    case 3: t.resize(p); break;
    default: t.insert(p, t.substr(0, s.draw(t.size()))); break;
    }
  }
  c.desc << "'" << t << "'";
  c.nontrivial(t != o);
  std::vector<std::string> ls;
  std::vector<boost::gregorian::date> ld;
  try {
    Variable<Tv>::Parse(t, r, ls, ld);
  } catch (const LdtException &) {
    c.label("rejected");
    return;
  }
  c.label("parsed");
}

FACET(box_cox, "lambda is not missing", 8000) {
  int n = s.range(1, 8);
  std::vector<double> d(n);
  for (auto &x : d)
    x = std::exp(s.norm());
  double l = s.draw(4) == 0 ? 0.0 : s.draw(5) == 0 ? NAN : (double)s.sint(-20, 20) / 8.0;
  c.desc << "lambda " << l << " data " << vec_str(d);
  auto t = d;
  Array<Tv>::BoxCox(&t[0], n, l);
  for (int i = 0; i < n; i++) {
    double e = std::isnan(l) ? d[i] : l == 0 ? std::log(d[i]) : (std::pow(d[i], l) - 1) / l;
    CHECK(close(t[i], e, 1e-12, 1e-13), "transformed value " << t[i] << " expected " << e);
  }
  Array<Tv>::BoxCoxInv(&t[0], n, l);
  same(t, d, "data after transforming back", 1e-6, 1e-9);
  c.nontrivial(!std::isnan(l));
}
