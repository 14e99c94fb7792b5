#pragma once
#include "pbt.h"
#include <memory>
using pbt::Ctx;
using pbt::Msg;
using pbt::Src;
using pbt::close;
using pbt::fail;

// independent proleptic Gregorian calendar
inline long long civil_to_days(long long y, int m, int d) {
  y -= m <= 2;
  long long era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = (unsigned)(y - era * 400);
  unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (long long)doe - 719468;
}
inline void days_to_civil(long long z, int &y, int &m, int &d) {
  z += 719468;
  long long era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = (unsigned)(z - era * 146097);
  unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long long yy = (long long)yoe + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned mp = (5 * doy + 2) / 153;
  d = doy - (153 * mp + 2) / 5 + 1;
  m = mp < 10 ? mp + 3 : mp - 9;
  y = (int)(yy + (m <= 2));
}
inline int weekday(long long z) { // 0 = Sunday
  long long r = (z + 4) % 7;
  return (int)(r < 0 ? r + 7 : r);
}
inline std::string iso(long long z) {
  int y, m, d;
  days_to_civil(z, y, m, d);
  char b[32];
  snprintf(b, 32, "%04d%02d%02d", y, m, d);
  return b;
}
template <class T> std::string vec_str(const T *p, long n, int prec = 6) {
  std::ostringstream o;
  o.precision(prec);
  o << "[";
  for (long i = 0; i < n; i++)
    o << (i ? "," : "") << p[i];
  o << "]";
  return o.str();
}
template <class T>
std::string vec_str(const std::vector<T> &v, int prec = 6) {
  return vec_str(v.data(), (long)v.size(), prec);
}
// work and storage arrays: exact size, and what they contain before a call must not matter
inline std::unique_ptr<double[]> buf(Src &s, long n) {
  std::unique_ptr<double[]> p(new double[n > 0 ? n : 0]);
  double v = s.pick<double>({0.0, NAN, 1e300, -7.0, INFINITY});
  for (long i = 0; i < n; i++)
    p[i] = v;
  return p;
}
