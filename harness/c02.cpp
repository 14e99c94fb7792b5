// C02: text form of frequencies
#include "freq_gen.h"
using namespace ldt;

static std::unique_ptr<Frequency> parse_any(FGen &g, const std::string &str, const std::string &cls,
                                            std::vector<std::string> &ls, std::vector<boost::gregorian::date> &ld,
                                            FrequencyClass &fc) {
  if (g.ls)
    return FrequencyList<std::string>::ParseList(str, cls, fc, ls);
  if (g.ld)
    return FrequencyList<boost::gregorian::date>::ParseList(str, cls, fc, ld);
  return Frequency::Parse(str, cls, fc);
}

FACET(round_trip, "the frequency was moved before it is written", 24000) {
  auto g = gen_freq(s);
  auto &m = g.m;
  long long k = gen_step(s, m, 0);
  g.f->Next((Ti)k);
  c.label(m.kind);
  std::string str = g.f->ToString(), cls = g.f->ToClassString(), det = g.f->ToClassString(true);
  c.desc << m.kind << " text=" << str << " class=" << det << " moved " << k;
  CHECK(str == m.text(k), "text " << str << " expected " << m.text(k));
  CHECK(cls == m.cls, "class text " << cls << " expected " << m.cls);
  CHECK(det == m.clsDetails, "detailed class text " << det << " expected " << m.clsDetails);
  CHECK(Frequency::GetClass(cls) == g.f->mClass, "the class text " << cls << " names another class");
  CHECK(Frequency::GetClass(det) == g.f->mClass, "the class text " << det << " names another class");
  FrequencyClass fc;
  std::vector<std::string> ls;
  std::vector<boost::gregorian::date> ld;
  auto p = parse_any(g, str, det, ls, ld, fc);
  CHECK(fc == g.f->mClass && p->mClass == fc, "class after parsing");
  CHECK(p->ToString() == str, "parsed text is " << p->ToString() << " expected " << str);
  CHECK(p->ToClassString() == cls && p->ToClassString(true) == det, "parsed class is " << p->ToClassString(true) << " expected " << det);
  // the parsed one behaves as the original
  CHECK(p->CompareTo(*g.f) == 0 && p->Minus(*g.f) == 0, "the parsed frequency is not equal to the original");
  for (int i = 0; i < 2; i++) {
    long long st = gen_step(s, m, k);
    k += st;
    g.f->Next((Ti)st);
    p->Next((Ti)st);
    CHECK(p->ToString() == m.text(k) && g.f->ToString() == m.text(k), "after moving " << st << " parsed " << p->ToString() << " original " << g.f->ToString() << " expected " << m.text(k));
    CHECK(p->Minus(*g.f) == 0, "distance after moving both");
  }
  c.nontrivial(str != m.text(0));
}

FACET(week_range_text, "any", 400) {
  int a = (int)s.draw(7), b = (int)s.draw(7);
  DayOfWeekRange r((DayOfWeek)a, (DayOfWeek)b);
  auto t = r.ToString();
  c.desc << t;
  c.nontrivial();
  CHECK(t == std::string(WD[a]) + "-" + WD[b], "text of range " << t);
  auto q = DayOfWeekRange::Parse(t);
  CHECK(q.mStart == r.mStart && q.mEnd == r.mEnd, "parsed range " << q.ToString());
}

FACET(malformed, "parsing was rejected or the text differs from a valid one", 20000) {
  // any text is either parsed or rejected with the library's own error
  auto g = gen_freq(s);
  std::string str = g.f->ToString(), cls = g.f->ToClassString(true);
  auto mutate = [&](std::string &t) {
    static const std::string al = "0123456789:;|-QqMmyzxdwihosecaLs. mon fri\t~";
    int n = s.range(0, 3);
    for (int i = 0; i < n; i++) {
      int op = (int)s.draw(3);
      size_t at = (size_t)s.draw(t.size() + 1);
      if (op == 0 && at < t.size())
        t.erase(at, 1);
      else if (op == 1)
        t.insert(at, 1, al[s.draw(al.size())]);
      else if (at < t.size())
        t[at] = al[s.draw(al.size())];
    }
  };
  mutate(str);
  mutate(cls);
  if (s.chance(1, 20))
    str = "";
  if (s.chance(1, 20))
    cls = "";
  c.desc << "text='" << str << "' class='" << cls << "'";
  FrequencyClass fc;
  std::vector<std::string> ls;
  std::vector<boost::gregorian::date> ld;
  try {
    auto p = parse_any(g, str, cls, ls, ld, fc);
    CHECK(p != nullptr, "null result");
    p->ToString();
    p->ToClassString();
    c.label("accepted");
    c.nontrivial(str != g.f->ToString() || cls != g.f->ToClassString(true));
  } catch (const LdtException &) {
    c.label("rejected");
    c.nontrivial();
  }
}
