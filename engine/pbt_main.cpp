#include "pbt.h"
#include <csignal>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <chrono>
#include <fcntl.h>
#include <unistd.h>

namespace pbt {
std::vector<Facet> &facets() {
  static std::vector<Facet> f;
  return f;
}
double qnorm_(double p) { // Acklam
  static const double a[] = {-3.969683028665376e+01, 2.209460984245205e+02,
                             -2.759285104469687e+02, 1.383577518672690e+02,
                             -3.066479806614716e+01, 2.506628277459239e+00};
  static const double b[] = {-5.447609879822406e+01, 1.615858368580409e+02,
                             -1.556989798598866e+02, 6.680131188771972e+01,
                             -1.328068155288572e+01};
  static const double c[] = {-7.784894002430293e-03, -3.223964580411365e-01,
                             -2.400758277161838e+00, -2.549732539343734e+00,
                             4.374664141464968e+00, 2.938163982698783e+00};
  static const double d[] = {7.784695709041462e-03, 3.224671290700398e-01,
                             2.445134137142996e+00, 3.754408661907416e+00};
  if (p < 0.02425) {
    double q = std::sqrt(-2 * std::log(p));
    return (((((c[0] * q + c[1]) * q + c[2]) * q + c[3]) * q + c[4]) * q + c[5]) /
           ((((d[0] * q + d[1]) * q + d[2]) * q + d[3]) * q + 1);
  }
  if (p > 1 - 0.02425)
    return -qnorm_(1 - p);
  double q = p - 0.5, r = q * q;
  return (((((a[0] * r + a[1]) * r + a[2]) * r + a[3]) * r + a[4]) * r + a[5]) * q /
         (((((b[0] * r + b[1]) * r + b[2]) * r + b[3]) * r + b[4]) * r + 1);
}
static std::set<std::string> g_known;
bool known_listed(const std::string &id) { return g_known.count(id) > 0; }
} // namespace pbt
using namespace pbt;

static uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}
static uint64_t case_seed(uint64_t seed, const std::string &facet, long i) {
  uint64_t x = seed * 0x9E3779B97F4A7C15ull ^ hash_str(facet);
  splitmix(x);
  x ^= (uint64_t)i * 0xD1B54A32D192ED03ull;
  return splitmix(x);
}
static uint64_t hash_choices(const std::vector<uint64_t> &v) {
  uint64_t h = 1469598103934665603ull;
  for (auto c : v) {
    h = (h ^ c) * 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, 8, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}

enum Outcome { OK, FAILED, DISCARD, KNOWN };
struct Result {
  Outcome o = OK;
  std::string msg, known;
};
static Result run_case(const Facet &f, Src &s, Ctx &c) {
  Result r;
  try {
    f.fn(s, c);
  } catch (const Fail &e) {
    r.o = FAILED;
    r.msg = e.what();
  } catch (const Known &k) {
    r.o = KNOWN;
    r.msg = k.msg;
    r.known = k.id;
  } catch (const Discard &) {
    r.o = DISCARD;
  } catch (const std::exception &e) {
    r.o = FAILED;
    r.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    r.o = FAILED;
    r.msg = "unexpected exception of unknown type";
  }
  return r;
}

static double g_case_limit = 20; // cpu seconds
static void on_prof(int) {
  const char m[] = "TIMEOUT\n";
  if (write(2, m, sizeof(m) - 1)) {
  }
  _exit(77);
}
static void arm(double s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s;
  it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

// Runs a choice sequence in a child. Returns true when it fails.
struct Att {
  bool failed = false;
  std::string msg, desc;
  std::vector<uint64_t> used;
};
static Att attempt(const Facet &f, const std::vector<uint64_t> &ch) {
  Att a;
  int p[2];
  if (pipe(p))
    abort();
  char errf[] = "/tmp/pbt_errXXXXXX";
  int efd = mkstemp(errf);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    dup2(efd, 2);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    signal(SIGPROF, on_prof);
    arm(g_case_limit);
    Src s;
    s.replay = true;
    s.choices = ch;
    Ctx c;
    Result r = run_case(f, s, c);
    std::string out = (r.o == FAILED ? "F" : "O");
    uint64_t n = s.used.size(), m = r.msg.size();
    std::string d = c.desc.str();
    out.append((char *)&n, 8);
    out.append((char *)s.used.data(), 8 * n);
    out.append((char *)&m, 8);
    out += r.msg;
    out += d;
    size_t off = 0;
    while (off < out.size()) {
      ssize_t k = write(p[1], out.data() + off, out.size() - off);
      if (k <= 0)
        break;
      off += k;
    }
    _exit(0);
  }
  close(p[1]);
  std::string in;
  char buf[65536];
  ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0)
    in.append(buf, k);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && in.size() >= 9) {
    a.failed = in[0] == 'F';
    uint64_t n, m;
    memcpy(&n, in.data() + 1, 8);
    a.used.resize(n);
    memcpy(a.used.data(), in.data() + 9, 8 * n);
    memcpy(&m, in.data() + 9 + 8 * n, 8);
    a.msg = in.substr(17 + 8 * n, m);
    a.desc = in.substr(17 + 8 * n + m);
  } else {
    a.failed = true;
    std::ostringstream o;
    if (WIFSIGNALED(st))
      o << "crashed with signal " << WTERMSIG(st);
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
      o << "did not return within " << g_case_limit << " CPU seconds";
    else
      o << "aborted with exit status " << WEXITSTATUS(st);
    std::ifstream e(errf);
    std::string all((std::istreambuf_iterator<char>(e)),
                    std::istreambuf_iterator<char>());
    auto q = all.find("ERROR: ");
    auto rt = all.find("runtime error: ");
    if (q != std::string::npos)
      all = all.substr(q);
    else if (rt != std::string::npos) {
      auto b = all.rfind('\n', rt);
      all = all.substr(b == std::string::npos ? 0 : b + 1);
    }
    o << ": " << all.substr(0, 1800);
    a.msg = o.str();
    a.used = ch;
  }
  close(efd);
  unlink(errf);
  return a;
}
static bool simpler(const std::vector<uint64_t> &a,
                    const std::vector<uint64_t> &b) {
  if (a.size() != b.size())
    return a.size() < b.size();
  return a < b;
}
static Att shrink(const Facet &f, std::vector<uint64_t> ch, double budget) {
  auto t0 = std::chrono::steady_clock::now();
  auto left = [&] {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
               .count() < budget;
  };
  Att best = attempt(f, ch);
  if (!best.failed)
    return best;
  auto cur = best.used;
  auto tryit = [&](const std::vector<uint64_t> &c) {
    if (!left())
      return false;
    Att a = attempt(f, c);
    if (!a.failed)
      return false;
    auto u = a.used;
    if (u.size() > c.size())
      u = c; // crash: used == c
    if (!simpler(u, cur))
      return false;
    cur = u;
    best = a;
    return true;
  };
  bool prog = true;
  while (prog && left()) {
    prog = false;
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= cur.size() && left();) {
        auto c = cur;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (tryit(c))
          prog = true;
        else
          i += len;
      }
      if (len == 1)
        break;
    }
    // delete one element while decrementing an earlier one (a length prefix)
    for (size_t i = 0; i + 1 < cur.size() && left(); i++) {
      if (cur[i] == 0 || cur[i] > 64)
        continue;
      for (size_t len = 1; len <= 3 && i + 1 + len <= cur.size() && left();
           len++)
        for (size_t j = i + 1; j + len <= cur.size() && j < i + 12 && left(); j++) {
          if (cur[i] == 0)
            break;
          auto c = cur;
          c[i]--;
          c.erase(c.begin() + j, c.begin() + j + len);
          if (tryit(c))
            prog = true;
        }
    }
    for (size_t i = 0; i < cur.size() && left(); i++) {
      if (cur[i] == 0)
        continue;
      auto c = cur;
      c[i] = 0;
      if (tryit(c)) {
        prog = true;
        continue;
      }
      // binary search toward zero
      uint64_t lo = 0, hi = cur[i];
      while (hi - lo > 1 && left() && i < cur.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto d = cur;
        d[i] = mid;
        if (tryit(d)) {
          prog = true;
          if (i >= cur.size())
            break;
          hi = cur[i];
          if (hi <= lo)
            break;
        } else
          lo = mid;
      }
      if (i < cur.size() && cur[i] > 0) {
        auto d = cur;
        d[i]--;
        if (tryit(d))
          prog = true;
      }
    }
  }
  best.used = cur;
  return best;
}

struct Slot {
  volatile long facet, index;
};

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (size < 2)
    return 0;
  auto &fs = facets();
  static const char *only = getenv("PBT_FACET");
  size_t k = data[0] % fs.size();
  if (only)
    for (size_t i = 0; i < fs.size(); i++)
      if (fs[i].name == only)
        k = i;
  Src s;
  s.fz = data + 1;
  s.fzn = size - 1;
  Ctx c;
  static const char *out = getenv("PBT_OUT");
  Result r = run_case(fs[k], s, c);
  if (r.o == FAILED) {
    if (out) {
      std::ofstream o(out);
      o << fs[k].name << "\n";
      for (auto v : s.used)
        o << v << " ";
      o << "\n" << r.msg << "\n";
    }
    fprintf(stderr, "FAIL %s: %s\n", fs[k].name.c_str(), r.msg.c_str());
    __builtin_trap();
  }
  return 0;
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  if (const char *k = getenv("PBT_KNOWN")) {
    std::istringstream is(k);
    std::string w;
    while (std::getline(is, w, ','))
      g_known.insert(w);
  }
  return 0;
}
#else

// usage: harness --out DIR --seed N [--scale X] [--only FACET] [--workers N] [--known a,b]
//        harness --replay FACET c1,c2,...        (exit 1 when it fails)
int main(int argc, char **argv) {
  std::string outdir = ".", only, replayf, replayc;
  uint64_t seed = 1;
  double scale = 1;
  bool thorough = false;
  int workers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out")
      outdir = nx();
    else if (a == "--seed")
      seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--scale")
      scale = atof(nx().c_str());
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--only")
      only = nx();
    else if (a == "--workers")
      workers = atoi(nx().c_str());
    else if (a == "--limit")
      g_case_limit = atof(nx().c_str());
    else if (a == "--known") {
      std::istringstream is(nx());
      std::string w;
      while (std::getline(is, w, ','))
        g_known.insert(w);
    } else if (a == "--replay") {
      replayf = nx();
      replayc = nx();
    }
  }
  auto &fs = facets();
  if (!replayf.empty()) {
    std::vector<uint64_t> ch;
    std::istringstream is(replayc);
    std::string w;
    while (std::getline(is, w, ','))
      if (!w.empty())
        ch.push_back(strtoull(w.c_str(), 0, 10));
    for (auto &f : fs)
      if (f.name == replayf) {
        Att a = attempt(f, ch);
        printf("%s\ncase: %s\n%s\n", a.failed ? "FAILED" : "PASSED",
               a.desc.c_str(), a.msg.c_str());
        return a.failed ? 1 : 0;
      }
    fprintf(stderr, "no such facet\n");
    return 2;
  }
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * workers,
                             PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                             -1, 0);
  // facet failed flags: stop working on a facet once a failure was seen
  volatile char *ff = (volatile char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids(workers);
  std::vector<long> counts(fs.size());
  for (size_t k = 0; k < fs.size(); k++)
    counts[k] = (long)std::ceil(fs[k].quick * scale *
                                (thorough ? fs[k].thorough_factor : 1));
  auto start_worker = [&](int w, long fk, long fi) {
    pid_t pid = fork();
    if (pid)
      return pid;
    {
      std::string ef = outdir + "/w" + std::to_string(w) + ".err";
      int efd = open(ef.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
      dup2(efd, 2);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
    }
    signal(SIGPROF, on_prof);
    std::ofstream o(outdir + "/w" + std::to_string(w) + ".txt", std::ios::app);
    o.precision(17);
    for (size_t k = fk; k < fs.size(); k++) {
      auto &f = fs[k];
      if (!only.empty() && f.name != only)
        continue;
      long ev = 0, disc = 0, known = 0;
      std::unordered_set<uint64_t> nt;
      std::map<std::string, long> labels;
      std::map<std::string, std::string> knownmsg;
      std::vector<std::string> samples;
      std::string failline;
      for (long i = (k == (size_t)fk ? fi : w); i < counts[k]; i += workers) {
        if (ff[k])
          break;
        slots[w].facet = k;
        slots[w].index = i;
        arm(g_case_limit);
        Src s;
        s.rng = case_seed(seed, f.name, i);
        Ctx c;
        Result r = run_case(f, s, c);
        if (r.o == DISCARD) {
          disc++;
          continue;
        }
        ev++;
        for (auto &l : c.labels)
          labels[l.first] += 1;
        if (c.nontrivial_) {
          bool isnew = nt.insert(hash_choices(s.used)).second;
          if (isnew && (samples.size() < 2 || (ev % 997 == 0 && samples.size() < 4)) &&
              !c.desc.str().empty())
            samples.push_back(c.desc.str().substr(0, 600));
        }
        if (r.o == KNOWN) {
          known++;
          if (!knownmsg.count(r.known))
            knownmsg[r.known] = r.msg;
        }
        if (r.o == FAILED) {
          ff[k] = 1;
          std::ostringstream l;
          l << "FAIL\t" << k << "\t" << i << "\t";
          for (auto v : s.used)
            l << v << ",";
          failline = l.str();
          break;
        }
      }
      arm(0);
      o << "FACET\t" << k << "\t" << ev << "\t" << disc << "\t" << known << "\n";
      for (auto &l : labels)
        o << "LABEL\t" << k << "\t" << l.first << "\t" << l.second << "\n";
      o << "NT\t" << k;
      for (auto h : nt)
        o << "\t" << h;
      o << "\n";
      for (auto &sm : samples) {
        std::string t = sm;
        for (auto &ch : t)
          if (ch == '\n' || ch == '\t')
            ch = ' ';
        o << "SAMPLE\t" << k << "\t" << t << "\n";
      }
      for (auto &km : knownmsg) {
        std::string t = km.second;
        for (auto &ch : t)
          if (ch == '\n' || ch == '\t')
            ch = ' ';
        o << "KNOWN\t" << k << "\t" << km.first << "\t" << t << "\n";
      }
      if (!failline.empty())
        o << failline << "\n";
      o.flush();
    }
    _exit(0);
    return pid;
  };
  for (int w = 0; w < workers; w++) {
    unlink((outdir + "/w" + std::to_string(w) + ".txt").c_str());
    unlink((outdir + "/w" + std::to_string(w) + ".err").c_str());
  }
  for (int w = 0; w < workers; w++)
    pids[w] = start_worker(w, 0, w);
  struct Failure {
    size_t k;
    long i;
    std::vector<uint64_t> ch;
  };
  std::vector<Failure> fails;
  int alive = workers;
  while (alive) {
    int st;
    pid_t p = wait(&st);
    if (p <= 0)
      break;
    int w = -1;
    for (int q = 0; q < workers; q++)
      if (pids[q] == p)
        w = q;
    if (w < 0)
      continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      alive--;
      continue;
    }
    // crashed or timed out: regenerate the choices of that case in a child that only records them
    long k = slots[w].facet, i = slots[w].index;
    Failure fl{(size_t)k, i, {}};
    fails.push_back(fl);
    ff[k] = 1;
    // go on with the next facet
    if ((size_t)k + 1 < fs.size())
      pids[w] = start_worker(w, k + 1, w);
    else
      alive--;
  }
  // aggregate
  std::vector<long> ev(fs.size()), disc(fs.size()), known(fs.size());
  std::vector<std::set<uint64_t>> nt(fs.size());
  std::vector<std::map<std::string, long>> labels(fs.size());
  std::vector<std::vector<std::string>> samples(fs.size());
  std::map<std::string, std::string> knownmsgs;
  for (int w = 0; w < workers; w++) {
    std::ifstream in(outdir + "/w" + std::to_string(w) + ".txt");
    std::string line;
    while (std::getline(in, line)) {
      std::vector<std::string> t;
      std::istringstream is(line);
      std::string x;
      while (std::getline(is, x, '\t'))
        t.push_back(x);
      if (t.size() < 2)
        continue;
      size_t k = atol(t[1].c_str());
      if (t[0] == "FACET") {
        ev[k] += atol(t[2].c_str());
        disc[k] += atol(t[3].c_str());
        known[k] += atol(t[4].c_str());
      } else if (t[0] == "LABEL")
        labels[k][t[2]] += atol(t[3].c_str());
      else if (t[0] == "NT")
        for (size_t j = 2; j < t.size(); j++)
          nt[k].insert(strtoull(t[j].c_str(), 0, 10));
      else if (t[0] == "SAMPLE" && t.size() > 2)
        samples[k].push_back(t[2]);
      else if (t[0] == "KNOWN" && t.size() > 2)
        knownmsgs[t[2]] = t.size() > 3 ? t[3] : "";
      else if (t[0] == "FAIL") {
        Failure f{k, atol(t[2].c_str()), {}};
        if (t.size() > 3) {
          std::istringstream cs(t[3]);
          std::string v;
          while (std::getline(cs, v, ','))
            if (!v.empty())
              f.ch.push_back(strtoull(v.c_str(), 0, 10));
        }
        fails.push_back(f);
      }
    }
  }
  // shrink + confirm
  std::ostringstream js;
  js << "{\"facets\":[";
  bool first = true;
  for (size_t k = 0; k < fs.size(); k++) {
    if (!only.empty() && fs[k].name != only)
      continue;
    if (!first)
      js << ",";
    first = false;
    js << "\n{\"name\":" << jstr(fs[k].name) << ",\"rule\":" << jstr(fs[k].rule)
       << ",\"planned\":" << counts[k] << ",\"evaluations\":" << ev[k]
       << ",\"discarded\":" << disc[k] << ",\"known\":" << known[k]
       << ",\"distinct_nontrivial\":" << nt[k].size() << ",\"labels\":{";
    bool f2 = true;
    for (auto &l : labels[k]) {
      js << (f2 ? "" : ",") << jstr(l.first) << ":" << l.second;
      f2 = false;
    }
    js << "},\"samples\":[";
    for (size_t j = 0; j < samples[k].size() && j < 3; j++)
      js << (j ? "," : "") << jstr(samples[k][j]);
    js << "]}";
  }
  js << "],\"known\":{";
  first = true;
  for (auto &k : knownmsgs) {
    js << (first ? "" : ",") << jstr(k.first) << ":" << jstr(k.second);
    first = false;
  }
  js << "},\"failures\":[";
  first = true;
  std::set<size_t> done;
  std::sort(fails.begin(), fails.end(), [](const Failure &a, const Failure &b) {
    return a.k != b.k ? a.k < b.k : a.i < b.i;
  });
  int nrep = 0;
  for (auto &f : fails) {
    if (done.count(f.k) || nrep >= 4)
      continue;
    // regenerate from the seed in a child that reports the choices it makes (crash-safe):
    if (f.ch.empty()) {
      // shared memory recorder
      size_t cap = 1 << 20;
      uint64_t *rec = (uint64_t *)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      // a long random stream: replay with the raw generator is not possible through
      // modulo mapping, so re-run with a recording vector stored in shared memory.
      pid_t pid = fork();
      if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        signal(SIGPROF, on_prof);
        arm(g_case_limit + 5);
        struct RSrc : Src {};
        Src s;
        s.rng = case_seed(seed, fs[f.k].name, f.i);
        s.used.reserve(cap);
        // record continuously through a watcher thread-free trick: poll in atexit is impossible
        // after a crash, so used's storage itself is placed in shared memory:
        // (std::vector cannot do that; instead install a death handler)
        static Src *sp;
        static uint64_t *rp;
        sp = &s;
        rp = rec;
        auto dump = [](int) {
          uint64_t n = sp->used.size();
          rp[0] = n;
          memcpy(rp + 1, sp->used.data(), 8 * n);
          _exit(1);
        };
        signal(SIGSEGV, dump);
        signal(SIGABRT, dump);
        signal(SIGBUS, dump);
        signal(SIGFPE, dump);
        signal(SIGILL, dump);
        signal(SIGPROF, dump);
        signal(SIGTRAP, dump);
        Ctx c;
        run_case(fs[f.k], s, c);
        dump(0);
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      if (rec[0] == 0 && fs.size()) { // nothing recorded
      }
      f.ch.assign(rec + 1, rec + 1 + rec[0]);
      munmap(rec, cap * 8);
    }
    Att a = shrink(fs[f.k], f.ch, 40);
    int again = 0;
    if (a.failed)
      for (int r = 0; r < 3; r++)
        if (attempt(fs[f.k], a.used).failed)
          again++;
    if (!first)
      js << ",";
    first = false;
    js << "\n{\"facet\":" << jstr(fs[f.k].name) << ",\"index\":" << f.i
       << ",\"confirmed\":" << (a.failed && again == 3 ? "true" : "false")
       << ",\"choices\":\"";
    for (size_t j = 0; j < a.used.size(); j++)
      js << (j ? "," : "") << a.used[j];
    js << "\",\"message\":" << jstr(a.msg) << ",\"case\":" << jstr(a.desc) << "}";
    if (a.failed && again == 3) {
      done.insert(f.k);
      nrep++;
    }
  }
  js << "]}\n";
  std::ofstream o(outdir + "/result.json");
  o << js.str();
  o.close();
  return 0;
}
#endif
