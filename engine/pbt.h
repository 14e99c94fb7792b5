// A small property-based testing engine: every property is a function of a stream of choices.
// Random generation, integrated shrinking (on the choice sequence), exact replay, coverage counters.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Fail : std::runtime_error {
  explicit Fail(const std::string &m) : std::runtime_error(m) {}
};
struct Discard {};

double qnorm_(double p); // defined in pbt_main.cpp

struct Src {
  std::vector<uint64_t> choices; // recorded (or being replayed)
  size_t pos = 0;
  bool replay = false;
  uint64_t rng = 0;
  // fuzz mode
  const uint8_t *fz = nullptr;
  size_t fzn = 0;

  // raw draw in [0,n)
  uint64_t draw(uint64_t n) {
    if (n <= 1)
      return 0;
    uint64_t v;
    if (replay) {
      v = pos < choices.size() ? choices[pos] : 0;
      if (v >= n)
        v = n - 1;
      pos++;
      used.push_back(v);
      return v;
    }
    if (fz) {
      uint64_t x = 0, m = n - 1;
      while (m) {
        x = (x << 8) | (fzn ? (fzn--, *fz++) : 0);
        m >>= 8;
      }
      v = x % n;
    } else
      v = splitmix(rng) % n;
    used.push_back(v);
    pos++;
    return v;
  }
  std::vector<uint64_t> used;

  int range(int a, int b) { return a + (int)draw((uint64_t)(b - a + 1)); }
  // integer in [lo,hi] shrinking toward zero (lo<=0<=hi)
  long long sint(long long lo, long long hi) {
    uint64_t v = draw((uint64_t)(hi - lo + 1));
    // zig-zag around zero while both sides have room
    long long a = -lo, b = hi, m = std::min(a, b);
    if (v <= (uint64_t)(2 * m)) {
      return (v & 1) ? -(long long)((v + 1) / 2) : (long long)(v / 2);
    }
    long long r = (long long)v - 2 * m;
    return a > b ? -(m + r) : (m + r);
  }
  bool coin() { return draw(2) == 1; }
  // true with probability num/den ; shrinks to false
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }
  double unif() { return ((double)draw(1ull << 32) + 0.5) / 4294967296.0; } // (0,1)
  double unif(double a, double b) { return a + (b - a) * unif(); }
  double norm() {
    uint64_t v = draw(1ull << 32);
    double u = ((double)(v >> 1)) / 4294967296.0; // [0,0.5)
    double z = qnorm_(0.5 + u * 0.9999999);
    return (v & 1) ? -z : z;
  }
  // assorted finite doubles of moderate magnitude
  double num() {
    switch (draw(6)) {
    case 0:
      return (double)sint(-9, 9);
    case 1:
      return (double)sint(-40, 40) / 4.0;
    case 2:
    case 3:
      return norm();
    case 4:
      return norm() * 100;
    default:
      return norm() * std::pow(10.0, (double)sint(-5, 5));
    }
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[draw(v.size())];
  }
  // permutation of 0..n-1
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++)
      p[i] = i;
    for (int i = 0; i + 1 < n; i++)
      std::swap(p[i], p[i + (int)draw(n - i)]);
    return p;
  }
  // k distinct values out of 0..n-1 (order random)
  std::vector<int> subset(int n, int k) {
    auto p = perm(n);
    p.resize(k);
    return p;
  }
};

struct Ctx {
  bool nontrivial_ = false;
  std::map<std::string, long> labels;
  std::ostringstream desc; // description of the case; written to samples / replay files
  void nontrivial(bool b = true) {
    if (b)
      nontrivial_ = true;
  }
  void label(const std::string &s) { labels[s]++; }
};

[[noreturn]] inline void fail(const std::string &m) { throw Fail(m); }

struct Msg {
  std::ostringstream o;
  Msg() { o.precision(17); }
  template <class T> Msg &operator<<(const T &t) {
    o << t;
    return *this;
  }
  operator std::string() const { return o.str(); }
};
#define CHECK(cond, ...)                                                       \
  do {                                                                         \
    if (!(cond))                                                               \
      pbt::fail(std::string(pbt::Msg() << __VA_ARGS__) + "   [" #cond "]");    \
  } while (0)

inline bool close(double a, double b, double rtol = 1e-9, double atol = 1e-12) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b))
    return a == b;
  return std::fabs(a - b) <=
         atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

typedef std::function<void(Src &, Ctx &)> Prop;
struct Facet {
  std::string name;
  std::string rule; // what makes a case non-trivial
  long quick;       // number of cases in the quick tier
  Prop fn;
  double thorough_factor = 25;
};
std::vector<Facet> &facets();
struct Reg {
  Reg(const char *name, const char *rule, long quick, Prop fn) {
    facets().push_back({name, rule, quick, fn});
  }
};
#define FACET(name, rule, quick)                                               \
  static void facet_##name(pbt::Src &s, pbt::Ctx &c);                          \
  static pbt::Reg reg_##name(#name, rule, quick, facet_##name);                \
  static void facet_##name(pbt::Src &s, pbt::Ctx &c)

// Is the finding with this id listed (by the driver) as a known finding?
bool known_listed(const std::string &id);
// A failure that matches the exact signature of a recorded finding.
struct Known {
  std::string id, msg;
};
[[noreturn]] inline void fail_known(const std::string &id,
                                    const std::string &m) {
  if (known_listed(id))
    throw Known{id, m};
  throw Fail(m);
}
} // namespace pbt
