#pragma once
#include "common.h"
#include "frequency.h"
#include <memory>

// A model of a frequency: an integer position plus a function that writes position -> text.
struct FModel {
  std::string kind, cls, clsDetails;
  std::function<std::string(long long)> text; // text of position base+k
  long long k = 0;                            // current position (relative to the start)
  long long lo, hi;                           // positions that stay inside the calendar
  bool list = false;
  int listLo = 0, listHi = 0; // positions that are inside the list
};
struct FGen {
  std::unique_ptr<ldt::Frequency> f;
  FModel m;
  std::shared_ptr<std::vector<std::string>> ls;
  std::shared_ptr<std::vector<boost::gregorian::date>> ld;
};
static const char *WD[] = {"sun", "mon", "tue", "wed", "thu", "fri", "sat"};

inline boost::gregorian::date to_boost(long long z) {
  int y, m, d;
  days_to_civil(z, y, m, d);
  return boost::gregorian::date(y, m, d);
}

// days of a week range (from..to going forward, possibly through saturday)
inline bool in_range(int wd, int a, int b) {
  for (int i = a;; i = (i + 1) % 7) {
    if (i == wd)
      return true;
    if (i == b)
      return false;
  }
}
inline int range_len(int a, int b) { return ((b - a) % 7 + 7) % 7 + 1; }
// day number of the k-th in-range day counted from in-range day z (k may be negative)
inline long long diw_at(long long z, long long k, int a, int b) {
  int L = range_len(a, b);
  if (L == 7)
    return z + k;
  long long w = k / L, r = k % L;
  if (r < 0) {
    r += L;
    w -= 1;
  }
  long long x = z + 7 * w;
  while (r > 0) {
    x++;
    if (in_range(weekday(x), a, b))
      r--;
  }
  return x;
}

inline long long gen_day(Src &s) {
  // mostly around leap years, century ends, year ends
  int y = s.chance(1, 3) ? s.pick(std::vector<int>{2000, 1900, 2100, 2004, 1999, 1600, 2400})
                         : 1600 + (int)s.draw(801);
  int m = 1 + (int)s.draw(12);
  int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  int n = dim[m - 1] + (m == 2 && leap ? 1 : 0);
  int d = s.chance(1, 4) ? n : 1 + (int)s.draw(n);
  return civil_to_days(y, m, d);
}

struct WeekModel {
  int kind; // 0 daily 1 multi-daily 2 weekly 3 multi-weekly 4 daily in week
  long long z;
  int multi = 1, a = 0, b = 0;
  long long at(long long k) const {
    switch (kind) {
    case 0:
    case 1:
      return z + k * multi;
    case 2:
    case 3:
      return z + 7 * k * multi;
    default:
      return diw_at(z, k, a, b);
    }
  }
  std::string cls() const {
    switch (kind) {
    case 0:
      return "d";
    case 1:
      return "d" + std::to_string(multi);
    case 2:
      return "w";
    case 3:
      return "w" + std::to_string(multi);
    default:
      return std::string("i:") + WD[a] + "-" + WD[b];
    }
  }
};
inline std::unique_ptr<ldt::FrequencyWeekBased> gen_week(Src &s, WeekModel &w,
                                                         bool dailyOnly = false) {
  using namespace ldt;
  w.kind = dailyOnly ? (s.coin() ? 4 : 0) : (int)s.draw(5);
  w.z = gen_day(s);
  switch (w.kind) {
  case 0:
    return FrequencyWeekBased::Daily(to_boost(w.z));
  case 1:
    w.multi = 2 + (int)s.draw(30);
    return FrequencyWeekBased::MultiDaily(to_boost(w.z), w.multi);
  case 2:
    return FrequencyWeekBased::Weekly(to_boost(w.z));
  case 3:
    w.multi = 2 + (int)s.draw(10);
    return FrequencyWeekBased::MultiWeekly(to_boost(w.z), w.multi);
  default: {
    w.a = (int)s.draw(7);
    w.b = (int)s.draw(7);
    bool fwd = !s.coin();
    auto f = FrequencyWeekBased::DailyInWeek(
        to_boost(w.z), DayOfWeekRange((DayOfWeek)w.a, (DayOfWeek)w.b), fwd);
    // moved into the week by the constructor
    while (!in_range(weekday(w.z), w.a, w.b))
      w.z += fwd ? 1 : -1;
    return f;
  }
  }
}

inline FGen gen_freq(Src &s, int only = -1) {
  using namespace ldt;
  FGen g;
  FModel &m = g.m;
  m.lo = -1000000;
  m.hi = 1000000;
  int kind = only >= 0 ? only : (int)s.draw(13);
  switch (kind) {
  case 0: {
    int p = (int)s.sint(-1000, 100000);
    m.kind = "cross-section";
    m.cls = "cs";
    m.text = [p](long long k) { return std::to_string(p + k); };
    g.f = std::make_unique<FrequencyCrossSection>(p);
    break;
  }
  case 1:
  case 2:
  case 3:
  case 4:
  case 5: {
    int Z = 1, X;
    int year = s.chance(1, 5) ? s.range(1, 99) : s.range(1600, 2400);
    if (kind == 1) {
      X = 1;
      m.kind = "yearly";
      m.cls = "y";
    } else if (kind == 2) {
      X = s.coin() ? 12 : 4;
      m.kind = X == 12 ? "monthly" : "quarterly";
      m.cls = X == 12 ? "m" : "q";
    } else if (kind == 3) {
      X = s.pick(std::vector<int>{2, 3, 5, 6, 7, 24, 52, 13, 10, 365, 11, 40});
      m.kind = "x-a-year";
      m.cls = "y" + std::to_string(X);
    } else if (kind == 4) {
      X = 1;
      Z = s.range(2, 25);
      m.kind = "multi-year";
      m.cls = "z" + std::to_string(Z);
    } else {
      X = s.pick(std::vector<int>{2, 3, 4, 5, 12, 24, 7, 120});
      Z = s.range(2, 12);
      m.kind = "x-z-years";
      m.cls = "x" + std::to_string(X) + "z" + std::to_string(Z);
    }
    int pos = 1 + (int)s.draw(X);
    switch (kind) {
    case 1:
      g.f = FrequencyYearBased::Yearly(year);
      break;
    case 2:
      g.f = X == 12 ? FrequencyYearBased::Monthly(year, pos)
                    : FrequencyYearBased::Quarterly(year, pos);
      break;
    case 3:
      g.f = FrequencyYearBased::XTimesAYear(year, X, pos);
      break;
    case 4:
      g.f = FrequencyYearBased::MultiYearly(year, Z);
      break;
    default:
      g.f = FrequencyYearBased::XTimesZYear(year, X, pos, Z);
    }
    char sep = kind == 2 ? (X == 12 ? 'M' : 'Q') : ':';
    m.text = [=](long long k) {
      long long t = (long long)(pos - 1) + k;
      long long q = t / X, r = t % X;
      if (r < 0) {
        r += X;
        q--;
      }
      std::string o = std::to_string(year + q * Z);
      if (X > 1)
        o += sep + std::to_string(r + 1);
      return o;
    };
    break;
  }
  case 6:
  case 7:
  case 8:
  case 9: {
    WeekModel w;
    auto f = gen_week(s, w);
    static const char *nm[] = {"daily", "multi-daily", "weekly", "multi-weekly", "daily-in-week"};
    m.kind = nm[w.kind];
    m.cls = w.cls();
    m.text = [w](long long k) { return iso(w.at(k)); };
    long long per = w.kind == 4 ? 7 : (w.kind >= 2 ? 7 : 1) * w.multi;
    m.lo = -70000 / per;
    m.hi = 700000 / per;
    if (w.kind == 4) {
      m.lo = -3000;
      m.hi = 3000;
    }
    g.f = std::move(f);
    break;
  }
  case 10: {
    WeekModel w;
    auto day = gen_week(s, w, true);
    int c = (int)s.draw(5);
    int X = c == 0 ? 24 : c == 1 ? 1440 : c == 2 ? 86400
            : c == 3 ? s.range(2, 23) : s.pick(std::vector<int>{1, 25, 48, 96, 288, 1439});
    int pos = 1 + (int)s.draw(X);
    if (s.chance(1, 4))
      pos = s.coin() ? X : 1;
    m.kind = c == 0 ? "hourly" : c == 1 ? "minutely" : c == 2 ? "secondly" : "x-a-day";
    m.cls = (c == 0 ? std::string("ho") : c == 1 ? "mi" : c == 2 ? "se" : "da" + std::to_string(X)) +
            "|" + w.cls();
    g.f = c == 0   ? FrequencyDayBased::Hourly(*day, pos)
          : c == 1 ? FrequencyDayBased::Minutely(*day, pos)
          : c == 2 ? FrequencyDayBased::Secondly(*day, pos)
                   : FrequencyDayBased::XTimesADay(*day, X, pos);
    m.text = [=](long long k) {
      long long t = (long long)(pos - 1) + k;
      long long q = t / X, r = t % X;
      if (r < 0) {
        r += X;
        q--;
      }
      return iso(w.at(q)) + ":" + std::to_string(r + 1);
    };
    m.lo = -std::min<long long>(1000000, 3000LL * X);
    m.hi = -m.lo;
    break;
  }
  case 11: {
    m.kind = "list-string";
    m.list = true;
    int n = s.range(1, 12);
    auto items = std::make_shared<std::vector<std::string>>();
    auto p = s.perm(26);
    for (int i = 0; i < n; i++)
      items->push_back(std::string(1, (char)('A' + p[i])) + (s.chance(1, 3) ? std::string(" x") + std::to_string(i) : ""));
    int at = (int)s.draw(n);
    m.cls = "Ls";
    m.clsDetails = "Ls:";
    for (int i = 0; i < n; i++)
      m.clsDetails += (i ? ";" : "") + (*items)[i];
    g.f = std::make_unique<FrequencyList<std::string>>((*items)[at], items.get());
    m.text = [=](long long k) {
      long long j = at + k;
      if (j < 0)
        return "out_item:" + std::to_string(j);
      if (j >= n)
        return "out_item:" + std::to_string(j - n + 1);
      return (*items)[j];
    };
    m.lo = -40;
    m.hi = 40;
    m.listLo = -at;
    m.listHi = n - 1 - at;
    g.ls = items;
    break;
  }
  default: {
    m.kind = "list-date";
    m.list = true;
    int n = s.range(1, 12);
    auto items = std::make_shared<std::vector<boost::gregorian::date>>();
    auto days = std::make_shared<std::vector<long long>>();
    long long z = gen_day(s);
    for (int i = 0; i < n; i++) {
      days->push_back(z);
      items->push_back(to_boost(z));
      z += 1 + (long long)s.draw(500);
    }
    int at = (int)s.draw(n);
    m.cls = "Ld";
    m.clsDetails = "Ld:";
    for (int i = 0; i < n; i++)
      m.clsDetails += (i ? ";" : "") + iso((*days)[i]);
    g.f = std::make_unique<FrequencyList<boost::gregorian::date>>((*items)[at], items.get());
    m.text = [=](long long k) {
      long long j = at + k;
      if (j < 0)
        return "out_item:" + std::to_string(j);
      if (j >= n)
        return "out_item:" + std::to_string(j - n + 1);
      return iso((*days)[j]);
    };
    m.lo = -40;
    m.hi = 40;
    m.listLo = -at;
    m.listHi = n - 1 - at;
    g.ld = items;
    break;
  }
  }
  if (m.clsDetails.empty())
    m.clsDetails = m.cls;
  return g;
}
// a step that keeps the position inside [lo,hi]
inline long long gen_step(Src &s, const FModel &m, long long k) {
  long long st;
  switch (s.draw(4)) {
  case 0:
    st = s.sint(-2, 2);
    break;
  case 1:
    st = s.sint(-30, 30);
    break;
  case 2:
    st = s.sint(-800, 800);
    break;
  default:
    st = s.sint(-200000, 200000);
  }
  long long t = std::max(m.lo, std::min(m.hi, k + st));
  return t - k;
}
