// C26: time stamps compute exactly with seconds and nanoseconds
#include "mon.hpp"
#include <ecl/time/timestamp.hpp>
#include <ecl/time/duration.hpp>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
#include <ctime>
using ecl::TimeStamp;
using ecl::TimeStampBase;
using mon::Rng;
using mon::cat;
typedef __int128 I;
static const I G = 1000000000;
static std::string text(I v) {
  if (v == 0) return "0";
  bool n = v < 0; if (n) v = -v;
  std::string s; while (v) { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; }
  return n ? "-" + s : s;
}
static I total(const TimeStampBase& t) { return I(t.sec()) * G + t.nsec(); }
static std::string show(const TimeStampBase& t) { return cat("(", t.sec(), "s,", t.nsec(), "ns)"); }
// both parts of one sign, nanoseconds below a second
static bool normal(const TimeStampBase& t) {
  return t.nsec() > -1000000000L && t.nsec() < 1000000000L && !(t.sec() > 0 && t.nsec() < 0) && !(t.sec() < 0 && t.nsec() > 0);
}
static TimeStamp make(I v) { return TimeStamp(time_t(v / G), long(v % G)); }

static I drawTotal(Rng& r) {
  static const long edges[] = {0, 1, 999999999, 500000000, 999, 1000, 999999, 1000000, 99999999, 100000000, 9, 10, 999999998, 10000, 100000, 10000000};
  I s;
  switch (r.below(7)) {
    case 0: s = 0; break;
    case 1: s = r.below(3); break;
    case 2: s = r.below(100); break;
    case 3: s = r.below(4000000000ull); break;
    case 4: s = I(1) << r.below(50); break;
    case 5: s = 1700000000ull + r.below(1000000); break;
    default: s = r.below(1ull << r.range(1, 50)); break;
  }
  long n = r.flip() ? edges[r.below(sizeof edges / sizeof *edges)] : long(r.below(1000000000));
  I v = s * G + n;
  return r.flip() ? v : -v;
}
static std::string expectText(I v) {
  I a = v < 0 ? -v : v;
  std::string n = text(a % G);
  return (v < 0 ? std::string("-") : std::string()) + text(a / G) + "." + std::string(9 - n.size(), '0') + n;
}
static void audit(const char* what, const TimeStampBase& t, I v) {
  CHECK(normal(t), cat("normal form of ", what), what, "gave", show(t), "for", text(v), "ns");
  CHECK(total(t) == v, cat("value of ", what), what, "gave", show(t), "for", text(v), "ns");
  long sign = v < 0 ? -1 : 1;
  I a = v < 0 ? -v : v;
  CHECK(I(t.sec()) == v / G && I(t.nsec()) == v % G, "seconds and nanoseconds", what, show(t));
  CHECK(t.msec() == sign * long(a % G / 1000000) && t.usec() == sign * long(a % G / 1000), "milli and microseconds", what, show(t), t.msec(), t.usec());
  double d = t, want = (long double)(v) / 1e9L;
  CHECK(std::fabs(d - want) <= 4e-16 * std::fabs(want) + 1e-18, "decimal seconds of a stamp", what, show(t), d);
  std::ostringstream o; o << t;
  CHECK(o.str() == expectText(v), "text of a stamp", what, show(t), "printed", mon::quote(o.str()), "for", mon::quote(expectText(v)));
}
template <typename A, typename B>
static void compare(const char* what, A& a, B& b, I x, I y) {
  CHECK((a == b) == (x == y), cat("equality ", what), show(a), show(b));
  CHECK((a != b) == (x != y), cat("inequality ", what), show(a), show(b));
  CHECK((a < b) == (x < y), cat("less than ", what), show(a), show(b));
  CHECK((a <= b) == (x <= y), cat("less or equal ", what), show(a), show(b));
  CHECK((a > b) == (x > y), cat("greater than ", what), show(a), show(b));
  CHECK((a >= b) == (x >= y), cat("greater or equal ", what), show(a), show(b));
}
GROUP(pairs, 60000, 3000000) { Rng& r = R; 
  I x = drawTotal(r), y;
  switch (r.below(5)) {
    case 0: y = x + I(r.range(-2, 2)); break;
    case 1: y = -x + I(r.range(-2, 2)); break;
    case 2: y = -(x % G) + G * I(r.range(-2, 2)); break;
    default: y = drawTotal(r); break;
  }
  TimeStamp a = make(x), b = make(y);
  audit("construction", a, x); audit("construction", b, y);
  compare("of stamps", a, b, x, y);
  const TimeStamp ca(a), cb = b;
  audit("copying", ca, x);
  compare("of constant stamps", ca, cb, x, y);
  compare("of a stamp and a constant one", a, cb, x, y);
  const TimeStampBase ba(a), bb(b);
  compare("of base stamps", ba, bb, x, y);
  { TimeStamp s = a + b; audit("+", s, x + y); TimeStamp t = ca + cb; audit("+ of constant stamps", t, x + y); }
  { TimeStamp s = a - b; audit("-", s, x - y); TimeStamp t = ca - cb; audit("- of constant stamps", t, x - y); }
  { TimeStamp s(a); s += b; audit("+=", s, x + y); }
  { TimeStamp s(a); s -= b; audit("-=", s, x - y); }
  { TimeStamp s(a); s += s; audit("+= of itself", s, x + x); s = a; s -= s; audit("-= of itself", s, 0); }
  { TimeStamp s(a); s = b; audit("assignment", s, y); s = s; audit("assignment to itself", s, y); }
  audit("an operand afterwards", a, x); audit("an operand afterwards", b, y); audit("an operand afterwards", ca, x); audit("an operand afterwards", cb, y);
  { TimeStamp s; s.stamp(time_t(x / G), long(x % G)); audit("stamp(sec,nsec)", s, x); const TimeStampBase& z = s.stamp(time_t(y / G), long(y % G)); audit("stamp(sec,nsec)", z, y); CHECK(&z == &s, "stamp returns the stamp", ""); }
  if ((x < 0) != (y < 0)) mon::obs("pairs of opposite signs");
  if (x / G == y / G) mon::obs("pairs within a second");
  if ((x % G + y % G >= G) || (x % G + y % G <= -G)) mon::obs("sums that carry");
  mon::nontrivial(mon::mix(uint64_t(x), uint64_t(y)));
  mon::sample(cat(show(a), " and ", show(b)));
}
REQUIRE_OBS("pairs of opposite signs", 1000);
REQUIRE_OBS("pairs within a second", 1000);
REQUIRE_OBS("sums that carry", 1000);

GROUP(histories, 4000, 200000) { Rng& r = R; 
  // running sums stay exact and in normal form over any sequence
  std::vector<TimeStamp> t(4); std::vector<I> v(4);
  for (int i = 0; i < 4; ++i) { v[i] = drawTotal(r) / (1 << r.below(12)); t[i] = make(v[i]); }
  uint64_t h = 1; int n = int(r.range(5, 60));
  const I bound = I(1) << 92;
  for (int k = 0; k < n; ++k) {
    int i = int(r.below(4)), j = int(r.below(4)), l = int(r.below(4));
    switch (r.below(6)) {
      case 0: t[i] += t[j]; v[i] += v[j]; break;
      case 1: t[i] -= t[j]; v[i] -= v[j]; break;
      case 2: { t[i] = t[j] + t[l]; v[i] = v[j] + v[l]; break; }
      case 3: { t[i] = t[j] - t[l]; v[i] = v[j] - v[l]; break; }
      case 4: t[i] = t[j]; v[i] = v[j]; break;
      default: v[i] = drawTotal(r) / (1 << r.below(12)); t[i].stamp(time_t(v[i] / G), long(v[i] % G)); break;
    }
    if (v[i] > bound || v[i] < -bound) { v[i] = 1; t[i].stamp(0, 1); }
    for (int q = 0; q < 4; ++q) audit("a step of a history", t[q], v[q]);
    compare("within a history", t[i], t[j], v[i], v[j]);
    h = mon::mix(h, uint64_t(v[i]));
  }
  mon::obs("steps of histories", n);
  mon::nontrivial(h);
}
GROUP(decimals, 40000, 2000000) { Rng& r = R; 
  // decimal seconds: to the nanosecond below, or to the precision of the decimal number
  double d;
  switch (r.below(4)) {
    case 0: d = double(r.below(1000000000)) * 1e-9; break;
    case 1: d = double(r.below(1ull << r.range(1, 40))) * std::ldexp(1.0, -int(r.below(40))); break;
    case 2: d = double(r.below(100000)) + double(r.below(1000000000)) * 1e-9; break;
    default: { d = double(r.below(1000)); d = r.flip() ? std::nextafter(d, 1e9) : std::nextafter(d, 0.0); break; }
  }
  if (r.flip()) d = -d;
  long double want = (long double)d * 1e9L;
  auto ok = [&](const TimeStampBase& t) { return normal(t) && fabsl((long double)total(t) - want) <= 1.0L + fabsl(want) * 2.3e-16L; };
  TimeStamp a(d); TimeStampBase b(d); TimeStamp c(3, 5); c.stamp(d);
  CHECK(ok(a), "stamp from decimal seconds", d, show(a));
  CHECK(ok(b), "base stamp from decimal seconds", d, show(b));
  CHECK(ok(c), "stamping decimal seconds", d, show(c));
  CHECK(fabsl((long double)double(a) - d) <= 1e-9L + 4e-16L * fabsl((long double)d), "decimal seconds and back", d, double(a));
  mon::nontrivial(mon::hash(cat(d, d * 1e9)));
  mon::sample(cat(d, " is ", show(a)));
}
GROUP(refused, 3000, 100000) { Rng& r = R; 
  // parts of contradicting signs are refused (in debug builds), and a refused stamp leaves the old time
  long s = 1 + long(r.below(1ull << r.range(1, 50))), n = 1 + long(r.below(999999999));
  if (r.flip()) s = -s; else n = -n;
#ifndef NDEBUG
  bool threw = false;
  try { TimeStamp t(s, n); } catch (const ecl::StandardException& e) { threw = e.flag() == ecl::InvalidInputError; }
  CHECK(threw, "parts of different signs are refused", s, n);
  TimeStamp t(7, 9); threw = false;
  try { t.stamp(s, n); } catch (const ecl::StandardException& e) { threw = e.flag() == ecl::InvalidInputError; }
  CHECK(threw && t.sec() == 7 && t.nsec() == 9, "stamping parts of different signs is refused", s, n, show(t));
#endif
  // with no seconds either sign will do
  TimeStamp z(0, n); audit("fractions of a second", z, n);
  mon::nontrivial(mon::mix(uint64_t(s), uint64_t(n)));
}
GROUP(now, 2000, 50000) { Rng& r = R; 
  auto read = [](clockid_t c) { timespec t; clock_gettime(c, &t); return I(t.tv_sec) * G + t.tv_nsec; };
  I m0 = read(CLOCK_MONOTONIC); TimeStamp a; TimeStamp b; b.stamp(); I m1 = read(CLOCK_MONOTONIC);
  CHECK(normal(a) && normal(b) && total(a) >= m0 && total(a) <= total(b) && total(b) <= m1, "stamps of now lie in order between readings of the clock", show(a), show(b), text(m0), text(m1));
#if defined(ECL_HAS_RT_TIMERS)
  for (int k = 0; k < 3; ++k) {   // the wall clock may be stepped meanwhile
    I r0 = read(CLOCK_REALTIME); TimeStamp c = TimeStamp::realtime_now(); I r1 = read(CLOCK_REALTIME);
    bool ok = normal(c) && total(c) >= r0 && total(c) <= r1;
    if (ok) break;
    CHECK(k < 2, "real time stamps lie between readings of the wall clock", show(c), text(r0), text(r1));
  }
  mon::obs("real time stamps");
#endif
  mon::nontrivial(uint64_t(m0));
}
REQUIRE_OBS("real time stamps", 100);
