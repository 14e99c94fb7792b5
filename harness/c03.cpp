// C03: conversion of daily data
#include "freq_gen.h"
#include "variable.h"
using namespace ldt;
typedef std::function<Tv(const std::vector<Tv> &)> Agg;

static std::vector<double> gen_data(Src &s, int n, bool nan = true) {
  std::vector<double> d(n);
  for (int i = 0; i < n; i++)
    d[i] = (nan && s.chance(1, 8)) ? NAN : (double)(i + 1) + (s.coin() ? 0.5 : 0.0);
  return d;
}
static void same(const std::vector<double> &a, const std::vector<double> &b, const std::string &what) {
  CHECK(a.size() == b.size(), what << ": " << a.size() << " values, expected " << b.size() << " got " << vec_str(a) << " expected " << vec_str(b));
  for (size_t i = 0; i < a.size(); i++)
    CHECK(close(a[i], b[i], 0, 0), what << ": value " << i << " is " << a[i] << " expected " << b[i] << " in " << vec_str(a) << " expected " << vec_str(b));
}
// an aggregate function that remembers what it was given; missing values (padding) are dropped
struct Rec {
  std::vector<std::vector<double>> seen;
  Agg fn() {
    return [this](const std::vector<Tv> &v) {
      std::vector<double> k;
      for (auto x : v)
        if (!std::isnan(x))
          k.push_back(x);
      seen.push_back(k);
      double r = 0;
      for (size_t i = 0; i < k.size(); i++)
        r += k[i] * (double)(i + 1);
      return r;
    };
  }
};
static void check_groups(const Variable<Tv> &res, Rec &rec, const std::vector<std::vector<double>> &groups, const std::string &what) {
  CHECK(res.Data.size() == groups.size(), what << ": " << res.Data.size() << " groups, expected " << groups.size());
  CHECK(rec.seen.size() == groups.size(), what << ": the aggregate function is called " << rec.seen.size() << " times for " << groups.size() << " groups");
  for (size_t i = 0; i < groups.size(); i++) {
    std::vector<double> g;
    for (auto x : groups[i])
      if (!std::isnan(x))
        g.push_back(x);
    same(rec.seen[i], g, what + ": group " + std::to_string(i));
    double r = 0;
    for (size_t j = 0; j < g.size(); j++)
      r += g[j] * (double)(j + 1);
    CHECK(res.Data[i] == r, what << ": value of group " << i);
  }
}

FACET(daily_in_week_to_daily, "the data spans more than one week and the week has outside days", 12000) {
  WeekModel w;
  w.kind = 4;
  w.z = gen_day(s);
  w.a = (int)s.draw(7);
  w.b = (int)s.draw(7);
  while (!in_range(weekday(w.z), w.a, w.b))
    w.z++;
  int n = s.range(1, 40);
  Variable<Tv> v, r;
  v.Name = "x";
  v.StartFrequency = FrequencyWeekBased::DailyInWeek(to_boost(w.z), DayOfWeekRange((DayOfWeek)w.a, (DayOfWeek)w.b), true);
  v.Data = gen_data(s, n);
  c.desc << "daily in week " << w.cls() << " from " << iso(w.z) << " n=" << n;
  auto keep = v.Data;
  v.ConvertTo_Daily(r, nullptr);
  std::vector<double> e;
  for (int i = 0; i < n; i++) {
    long long at = w.at(i);
    while ((long long)e.size() < at - w.z)
      e.push_back(NAN);
    e.push_back(v.Data[i]);
  }
  int L = range_len(w.a, w.b);
  if (weekday(w.z) != w.a && (int)r.Data.size() >= n) {
    // recorded finding: data that starts in the middle of a week is treated as if it started on its first day
    std::vector<double> legacy;
    for (int i = 0; i < n; i++) {
      if (i && i % L == 0)
        legacy.insert(legacy.end(), 7 - L, NAN);
      legacy.push_back(v.Data[i]);
    }
    auto eq = [](const std::vector<double> &p, const std::vector<double> &q) {
      if (p.size() != q.size())
        return false;
      for (size_t i = 0; i < p.size(); i++)
        if (!(p[i] == q[i] || (std::isnan(p[i]) && std::isnan(q[i]))))
          return false;
      return true;
    };
    if (!eq(legacy, e) && eq(r.Data, legacy))
      pbt::fail_known("C03-midweek", "daily-in-week data that starts in the middle of the week: " + vec_str(r.Data) + " expected " + vec_str(e));
  }
  same(r.Data, e, "daily values");
  same(v.Data, keep, "source");
  CHECK(r.StartFrequency->mClass == FrequencyClass::kDaily && r.StartFrequency->ToString() == iso(w.z), "start is " << r.StartFrequency->ToString() << " expected " << iso(w.z));
  CHECK(r.Name == "x", "name");
  c.nontrivial(n > range_len(w.a, w.b) && range_len(w.a, w.b) < 7);
  c.label(weekday(w.z) == w.a ? "starts at week start" : "starts mid-week");
}

FACET(date_list_to_daily, "there are at least 3 dates, not in order", 12000) {
  int n = s.range(1, 10);
  std::vector<long long> days;
  long long z = gen_day(s);
  for (int i = 0; i < n; i++) {
    days.push_back(z);
    z += 1 + (long long)s.draw(30);
  }
  bool sorted = true;
  if (s.coin()) {
    auto p = s.perm(n);
    auto d = days;
    for (int i = 0; i < n; i++)
      days[i] = d[p[i]];
    sorted = std::is_sorted(days.begin(), days.end());
  }
  std::vector<boost::gregorian::date> items;
  for (auto d : days)
    items.push_back(to_boost(d));
  Variable<Tv> v, r;
  v.StartFrequency = std::make_unique<FrequencyList<boost::gregorian::date>>(items[0], &items);
  v.Data = gen_data(s, n);
  for (auto d : days)
    c.desc << iso(d) << " ";
  v.ConvertTo_Daily(r, nullptr);
  long long lo = *std::min_element(days.begin(), days.end()), hi = *std::max_element(days.begin(), days.end());
  std::vector<double> e(hi - lo + 1, NAN);
  for (int i = 0; i < n; i++)
    e[days[i] - lo] = v.Data[i];
  same(r.Data, e, "daily values");
  CHECK(r.StartFrequency->mClass == FrequencyClass::kDaily && r.StartFrequency->ToString() == iso(lo), "start is " << r.StartFrequency->ToString());
  c.nontrivial(n >= 3 && !sorted);
}

FACET(to_multi_daily, "more than one group", 12000) {
  long long z = gen_day(s);
  int n = s.range(1, 40), k = s.range(1, 9);
  bool end = s.coin();
  Variable<Tv> v, r;
  v.Name = "x";
  v.StartFrequency = FrequencyWeekBased::Daily(to_boost(z));
  v.Data = gen_data(s, n);
  c.desc << "daily n=" << n << " k=" << k << " fromEnd=" << end;
  Rec rec;
  Agg f = rec.fn();
  v.ConvertTo_MultiDaily(r, k, &f, end);
  std::vector<std::vector<double>> g;
  int first = end && n % k ? n % k : k;
  for (int i = 0; i < n;) {
    int len = i == 0 ? std::min(first, n) : std::min(k, n - i);
    g.emplace_back(v.Data.begin() + i, v.Data.begin() + i + len);
    i += len;
  }
  check_groups(r, rec, g, "multi-daily");
  CHECK(r.StartFrequency->ToString() == iso(z), "start is " << r.StartFrequency->ToString());
  CHECK(r.StartFrequency->ToClassString() == (k == 1 ? std::string("d") : "d" + std::to_string(k)), "class is " << r.StartFrequency->ToClassString());
  c.nontrivial(n > k);
  c.label(n % k ? "rest" : "divisible");
}

FACET(to_weekly, "the data touches at least 2 weeks", 12000) {
  long long z = gen_day(s);
  int n = s.range(1, 40), fd = (int)s.draw(7);
  Variable<Tv> v, r;
  v.Name = "x";
  v.StartFrequency = FrequencyWeekBased::Daily(to_boost(z));
  v.Data = gen_data(s, n);
  c.desc << "daily from " << iso(z) << " n=" << n << " week starts " << WD[fd];
  Rec rec;
  Agg f = rec.fn();
  v.ConvertTo_Weekly(r, (DayOfWeek)fd, &f);
  long long w0 = z;
  while (weekday(w0) != fd)
    w0--;
  std::vector<std::vector<double>> g;
  for (int i = 0; i < n; i++) {
    size_t k = (size_t)((z + i - w0) / 7);
    if (g.size() <= k)
      g.resize(k + 1);
    g[k].push_back(v.Data[i]);
  }
  check_groups(r, rec, g, "weekly");
  CHECK(r.StartFrequency->ToString() == iso(w0) && r.StartFrequency->ToClassString() == "w", "start is " << r.StartFrequency->ToString() << " expected " << iso(w0));
  // the k-th week of the result is the calendar week of the k-th group
  c.nontrivial(g.size() > 1);
}

static int part_of(long long z, int x, bool monthBased) {
  int y, m, d;
  days_to_civil(z, y, m, d);
  if (!monthBased) {
    long long doy = z - civil_to_days(y, 1, 1), len = civil_to_days(y + 1, 1, 1) - civil_to_days(y, 1, 1);
    return (int)(doy * x / len) + 1;
  }
  if (x == 24)
    return (m - 1) * 2 + (d > 15) + 1;
  return (m - 1) / (12 / x) + 1;
}
static void conv_year(Src &s, Ctx &c, bool monthBased) {
  long long z = gen_day(s);
  static const std::vector<int> mb = {12, 4, 1, 2, 3, 6, 24};
  static const std::vector<int> gen = {5, 7, 8, 9, 10, 13, 14, 26, 36, 48, 52, 60, 73, 100, 183, 182, 305, 364, 365};
  int x = monthBased ? s.pick(mb) : (s.coin() ? s.pick(gen) : s.range(2, 365));
  int n = s.chance(1, 3) ? s.range(1, 900) : s.range(1, 120);
  if (s.chance(1, 4)) { // start close to the end of a year
    int y, m, d;
    days_to_civil(z, y, m, d);
    z = civil_to_days(y + 1, 1, 1) - s.range(1, 5);
  }
  Variable<Tv> v, r;
  v.Name = "x";
  v.StartFrequency = FrequencyWeekBased::Daily(to_boost(z));
  v.Data.resize(n);
  for (int i = 0; i < n; i++)
    v.Data[i] = i + 1;
  c.desc << "daily from " << iso(z) << " n=" << n << " x=" << x << (monthBased ? " (months)" : " (days)");
  Rec rec;
  Agg f = rec.fn();
  if (monthBased)
    switch (x) {
    case 24: v.ConvertTo_XxYear_month_based<24>(r, &f); break;
    case 12: v.ConvertTo_XxYear_month_based<12>(r, &f); break;
    case 6: v.ConvertTo_XxYear_month_based<6>(r, &f); break;
    case 4: v.ConvertTo_XxYear_month_based<4>(r, &f); break;
    case 3: v.ConvertTo_XxYear_month_based<3>(r, &f); break;
    case 2: v.ConvertTo_XxYear_month_based<2>(r, &f); break;
    default: v.ConvertTo_XxYear_month_based<1>(r, &f);
    }
  else
    v.ConvertTo_XxYear(r, x, &f);
  // expected: one group per position of the x-times-a-year frequency
  std::vector<std::vector<double>> g;
  int y0, m, d, p0 = part_of(z, x, monthBased);
  days_to_civil(z, y0, m, d);
  for (int i = 0; i < n; i++) {
    int y;
    days_to_civil(z + i, y, m, d);
    size_t k = (size_t)((y - y0) * x + part_of(z + i, x, monthBased) - p0);
    if (g.size() <= k)
      g.resize(k + 1);
    g[k].push_back(v.Data[i]);
  }
  check_groups(r, rec, g, "x-year");
  std::string cls = x == 1 ? "y" : x == 4 ? "q" : x == 12 ? "m" : "y" + std::to_string(x);
  std::string st = std::to_string(y0) + (x == 1 ? "" : (x == 4 ? "Q" : x == 12 ? "M" : ":") + std::to_string(p0));
  CHECK(r.StartFrequency->ToClassString() == cls && r.StartFrequency->ToString() == st,
        "start is " << r.StartFrequency->ToString() << " (" << r.StartFrequency->ToClassString() << ") expected " << st << " (" << cls << ")");
  c.nontrivial(g.size() > 1);
  c.label("x=" + (monthBased ? std::to_string(x) : std::string("other")));
}
FACET(to_year_months, "at least 2 groups", 12000) { conv_year(s, c, true); }
FACET(to_year_days, "at least 2 groups", 12000) { conv_year(s, c, false); }

FACET(unsupported, "the conversion is not a supported one", 4000) {
  auto g = gen_freq(s);
  Variable<Tv> v, r;
  v.Data = {1, 2, 3};
  bool isDaily = g.f->mClass == FrequencyClass::kDaily;
  bool toDailyOk = g.f->mClass == FrequencyClass::kDailyInWeek || g.f->mClass == FrequencyClass::kListDate;
  v.StartFrequency = std::move(g.f);
  int op = (int)s.draw(5);
  c.desc << g.m.cls << " op " << op;
  bool supported = op == 0 ? toDailyOk : isDaily;
  if (supported)
    throw pbt::Discard();
  c.nontrivial();
  Agg f = [](const std::vector<Tv> &) { return 0.0; };
  try {
    switch (op) {
    case 0: v.ConvertTo_Daily(r, &f); break;
    case 1: v.ConvertTo_MultiDaily(r, 2, &f); break;
    case 2: v.ConvertTo_Weekly(r, DayOfWeek::kMon, &f); break;
    case 3: v.ConvertTo_XxYear(r, 12, &f); break;
    default: v.ConvertTo_XxYear_month_based<12>(r, &f);
    }
  } catch (const LdtException &) {
    return;
  }
  fail("an unsupported conversion is accepted");
}

FACET(aggregates, "the data has missing values", 8000) {
  // descriptive aggregation used by the R interface: min, max, mean, first, last, variance of the non-missing values
  int n = s.range(1, 9);
  auto d = gen_data(s, n);
  for (auto &x : d)
    if (!std::isnan(x))
      x = s.num();
  std::vector<double> k;
  for (auto x : d)
    if (!std::isnan(x))
      k.push_back(x);
  c.nontrivial((int)k.size() < n && k.size() > 0);
  c.desc << vec_str(d);
  if (k.empty()) {
    for (auto t : {DescriptiveType::kFirst, DescriptiveType::kLast, DescriptiveType::kMean, DescriptiveType::kVariance, DescriptiveType::kStd}) {
      double r = 0;
      Array<double>::GetDescriptive<true>(&d[0], n, t, r);
      CHECK(std::isnan(r), "a statistic of data without any valid value is " << r);
    }
    return;
  }
  double mean = 0, ss = 0;
  for (auto x : k)
    mean += x / k.size();
  for (auto x : k)
    ss += (x - mean) * (x - mean);
  double sc = 0;
  for (auto x : k)
    sc = std::max(sc, std::fabs(x));
  auto get = [&](DescriptiveType t) {
    double r;
    Array<double>::GetDescriptive<true>(&d[0], n, t, r);
    return r;
  };
  CHECK(get(DescriptiveType::kMin) == *std::min_element(k.begin(), k.end()), "min");
  CHECK(get(DescriptiveType::kMax) == *std::max_element(k.begin(), k.end()), "max");
  CHECK(get(DescriptiveType::kFirst) == k.front(), "first is " << get(DescriptiveType::kFirst));
  CHECK(get(DescriptiveType::kLast) == k.back(), "last is " << get(DescriptiveType::kLast));
  CHECK(close(get(DescriptiveType::kMean), mean, 1e-10, 1e-12 * sc), "mean " << get(DescriptiveType::kMean) << " expected " << mean);
  double var = get(DescriptiveType::kVariance), sd = get(DescriptiveType::kStd);
  CHECK(close(var, ss / k.size(), 1e-8, 1e-10 * sc * sc), "variance " << var << " expected " << ss / k.size());
  CHECK(close(sd, std::sqrt(ss / k.size()), 1e-6, 1e-5 * sc), "std " << sd);
}
