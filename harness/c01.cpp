// C01: moving, subtracting and ordering frequencies
#include "freq_gen.h"
using namespace ldt;

FACET(walk, "at least 3 moves, one of them negative", 24000) {
  auto g = gen_freq(s);
  auto &m = g.m;
  c.desc << m.kind << " class=" << m.cls << " start=" << m.text(0) << " steps:";
  c.label(m.kind);
  CHECK(g.f->ToString() == m.text(0), "initial text " << g.f->ToString() << " expected " << m.text(0));
  std::vector<std::pair<long long, std::unique_ptr<Frequency>>> seen;
  seen.emplace_back(0, g.f->Clone());
  int n = s.range(1, 8);
  long long k = 0;
  int neg = 0;
  for (int i = 0; i < n; i++) {
    long long st = gen_step(s, m, k);
    c.desc << " " << st;
    if (st < 0)
      neg++;
    std::string before = g.f->ToString();
    auto keep = g.f->Clone();
    g.f->Next((Ti)st);
    CHECK(keep->ToString() == before, "moving a frequency changed its clone");
    k += st;
    CHECK(g.f->ToString() == m.text(k), m.kind << ": after " << k << " steps (last " << st << ") from " << m.text(0)
                                               << " text is " << g.f->ToString() << " expected " << m.text(k));
    CHECK(g.f->ToClassString() == m.cls, "class text " << g.f->ToClassString() << " expected " << m.cls);
    for (auto &o : seen) {
      long long d = k - o.first;
      Ti md = g.f->Minus(*o.second);
      CHECK((long long)md == d, m.kind << " " << m.text(k) << " minus " << m.text(o.first) << " = " << md << " expected " << d);
      Ti mo = o.second->Minus(*g.f);
      CHECK((long long)mo == -d, m.kind << " " << m.text(o.first) << " minus " << m.text(k) << " = " << mo << " expected " << -d);
      Ti cm = g.f->CompareTo(*o.second);
      CHECK((cm > 0) == (d > 0) && (cm < 0) == (d < 0), m.kind << " compare(" << m.text(k) << "," << m.text(o.first) << ") = " << cm << " distance " << d);
      CHECK(g.f->IsNewerThan(*o.second) == (d > 0) && g.f->IsOlderThan(*o.second) == (d < 0) &&
                g.f->IsEqualTo(*o.second) == (d == 0) && g.f->IsEqualOrNewerThan(*o.second) == (d >= 0) &&
                g.f->IsEqualOrOlderThan(*o.second) == (d <= 0),
            "order predicates disagree with the distance " << d);
    }
    seen.emplace_back(k, g.f->Clone());
  }
  c.nontrivial(n >= 3 && neg > 0);
}

FACET(split_steps, "both parts non-zero", 10000) {
  // moving by a then b equals moving by a+b
  auto g = gen_freq(s);
  auto &m = g.m;
  long long a = gen_step(s, m, 0), b = gen_step(s, m, a);
  c.desc << m.kind << " " << m.text(0) << " a=" << a << " b=" << b;
  c.label(m.kind);
  auto x = g.f->Clone(), y = g.f->Clone();
  x->Next((Ti)a);
  x->Next((Ti)b);
  y->Next((Ti)(a + b));
  CHECK(x->ToString() == y->ToString(), "next(a);next(b) -> " << x->ToString() << " but next(a+b) -> " << y->ToString());
  CHECK(x->Minus(*y) == 0 && x->CompareTo(*y) == 0, "equal frequencies have a distance");
  CHECK(x->Minus(*g.f) == (Ti)(a + b), "minus after two moves");
  x->Next((Ti)(-a - b));
  CHECK(x->ToString() == m.text(0), "moving back does not return: " << x->ToString() << " expected " << m.text(0));
  c.nontrivial(a != 0 && b != 0);
}

FACET(mixed_classes, "the two class texts differ", 6000) {
  auto g = gen_freq(s), h = gen_freq(s);
  c.desc << g.m.cls << " " << g.m.text(0) << " vs " << h.m.cls << " " << h.m.text(0);
  bool same = g.m.cls == h.m.cls;
  c.nontrivial(!same);
  c.label(same ? "same" : "different");
  if (same)
    return;
  for (int i = 0; i < 2; i++) {
    bool threw = false;
    try {
      if (i)
        g.f->Minus(*h.f);
      else
        g.f->CompareTo(*h.f);
    } catch (const LdtException &) {
      threw = true;
    }
    CHECK(threw, (i ? "minus" : "compare") << " of different classes " << g.m.cls << " and " << h.m.cls << " is accepted");
  }
}

FACET(week_ranges, "the range is neither one day nor the whole week", 1500) {
  int a = (int)s.draw(7), b = (int)s.draw(7), v = (int)s.draw(7);
  DayOfWeekRange r((DayOfWeek)a, (DayOfWeek)b);
  c.desc << WD[a] << "-" << WD[b] << " day " << WD[v];
  int L = range_len(a, b);
  c.nontrivial(L != 1 && L != 7);
  CHECK(r.GetLength() == L, "length of " << WD[a] << "-" << WD[b] << " is " << r.GetLength());
  bool in = in_range(v, a, b);
  CHECK(r.IsInRange((DayOfWeek)v) == in, WD[v] << " in " << WD[a] << "-" << WD[b]);
  Ti st = 0;
  bool out = r.IsOutsideRange((DayOfWeek)v, true, st);
  CHECK(out == !in, "outside");
  if (out) {
    int k = 0, x = v;
    while (!in_range(x, a, b)) {
      x = (x + 1) % 7;
      k++;
    }
    CHECK(st == k, "forward steps " << st << " expected " << k);
  }
  out = r.IsOutsideRange((DayOfWeek)v, false, st);
  CHECK(out == !in, "outside");
  if (out) {
    int k = 0, x = v;
    while (!in_range(x, a, b)) {
      x = (x + 6) % 7;
      k--;
    }
    CHECK(st == k, "backward steps " << st << " expected " << k);
  }
  CHECK(DayOfWeekRange::Distance((DayOfWeek)a, (DayOfWeek)b, true) == (b - a + 7) % 7, "forward distance");
  CHECK(DayOfWeekRange::Distance((DayOfWeek)a, (DayOfWeek)b, false) == (a - b + 7) % 7, "backward distance");
}
