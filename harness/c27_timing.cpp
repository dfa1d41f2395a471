// C27: sleepers, snoozers, stopwatches and rate monitors keep time
#include "mon.hpp"
#include <ecl/time_lite/functions.hpp>
#include <unistd.h>
#include <ecl/time/sleep.hpp>
#include <ecl/time/snooze.hpp>
#include <ecl/time/stopwatch.hpp>
#include <ecl/time/cpuwatch.hpp>
#include <ecl/time/frequency.hpp>
#include <ecl/time/time_data.hpp>
#include <ecl/time/random_number_generator.hpp>
#include <sys/syscall.h>
#include <time.h>
#include <cmath>
#include <cerrno>
#include <string>
#include <vector>
using mon::Rng;
using mon::cat;
using ecl::Duration;
using ecl::TimeStamp;
static const long long G = 1000000000LL;
static long long total(const ecl::TimeStampBase& t) { return t.sec() * G + t.nsec(); }
static Duration dur(long long ns) { return Duration(time_t(ns / G), long(ns % G)); }
static long long monotonic() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * G + t.tv_nsec; }

// The system's sleeping calls: with the virtual clock on they advance it, and a case can have them interrupted.
static long long interrupt_after = -1;
static long sleeps_made = 0;
static int sleepFor(const timespec* want, timespec* left, long long& slept) {
  slept = 0;
  if (want->tv_sec < 0 || want->tv_nsec < 0 || want->tv_nsec >= G) { errno = EINVAL; return -1; }
  ++sleeps_made;
  long long n = want->tv_sec * G + want->tv_nsec;
  if (interrupt_after >= 0 && interrupt_after < n) {
    slept = interrupt_after; interrupt_after = -1;
    if (left) { left->tv_sec = (n - slept) / G; left->tv_nsec = (n - slept) % G; }
    verif_clock::state().ns += slept; errno = EINTR; return -1;
  }
  slept = n; verif_clock::state().ns += n; return 0;
}
extern "C" int nanosleep(const timespec* want, timespec* left) {
  if (!verif_clock::state().on) return int(syscall(SYS_nanosleep, want, left));
  long long s; return sleepFor(want, left, s);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* want, timespec* left) {
  if (!verif_clock::state().on) { long e = syscall(SYS_clock_nanosleep, c, flags, want, left); return e == -1 ? errno : 0; }
  if (want->tv_sec < 0 || want->tv_nsec < 0 || want->tv_nsec >= G) return EINVAL;
  timespec w = *want;
  if (flags & TIMER_ABSTIME) {
    long long d = want->tv_sec * G + want->tv_nsec - verif_clock::state().ns - (c == CLOCK_REALTIME ? verif_clock::state().real_ahead : 0);
    if (d < 0) d = 0;
    w.tv_sec = d / G; w.tv_nsec = d % G;
  }
  long long s; return sleepFor(&w, (flags & TIMER_ABSTIME) ? 0 : left, s) == 0 ? 0 : errno;
}
struct Virtual {
  Virtual(long long start, long long ahead = 0) { verif_clock::State& s = verif_clock::state(); s.ns = start; s.real_ahead = ahead; s.cpu_ns = start / 7; s.sleeps = 0; s.on = true; interrupt_after = -1; }
  ~Virtual() { verif_clock::state().on = false; interrupt_after = -1; }
  long long now() const { return verif_clock::state().ns; }
  void pass(long long n) { verif_clock::state().ns += n; }
  void work(long long n) { verif_clock::state().cpu_ns += n; }
};
static long long drawStart(Rng& r) {
  long long s = (1 + (long long)r.below(1ull << r.range(1, 30))) * G;
  switch (r.below(4)) { case 0: return s; case 1: return s + 990000000LL; case 2: return s + (long long)r.below(100) * 10000000LL; default: return s + (long long)r.below(G); }
}
// 0 seconds (plus a duration), 1 milliseconds, 2 microseconds, 3 nanoseconds
static const char* unitName[] = {"seconds", "milliseconds", "microseconds", "nanoseconds"};
static const long long unitNs[] = {G, 1000000, 1000, 1};
static unsigned long drawCount(Rng& r, int u) {
  unsigned long perSecond = (unsigned long)(G / unitNs[u]);
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return perSecond;
    case 3: return perSecond - 1;
    case 4: return perSecond + 1;
    case 5: return perSecond * (1 + r.below(5000)) + r.below(perSecond);
    case 6: return (unsigned long)(r.below(1ull << r.range(1, 44)) / unsigned(unitNs[u])) ;
    default: return r.below(perSecond);
  }
}
template <typename S> static uint64_t sleeperLife(Rng& r, int u, Virtual& v) {
  unsigned long first = drawCount(r, u);
  S s(first);
  long long configured = (long long)first * unitNs[u];
  CHECK(total(s.duration()) == configured, cat("preconfigured time in ", unitName[u]), first, total(s.duration()));
  uint64_t h = mon::mix(first, u);
  for (int k = 0, n = int(r.range(1, 6)); k < n; ++k) {
    bool given = r.flip();
    unsigned long c = given ? drawCount(r, u) : 0;
    if (given) configured = (long long)c * unitNs[u];
    bool interrupted = configured > 0 && r.chance(1, 6);
    if (interrupted) interrupt_after = (long long)r.below(configured);
    long long t0 = v.now(); bool threw = false; std::string flagged;
    try { if (given) s(c); else s(); } catch (const ecl::StandardException& e) { threw = true; flagged = e.what(); if (e.flag() != ecl::InterruptedError) flagged = "?" + flagged; }
    long long slept = v.now() - t0; interrupt_after = -1;
    if (interrupted) {
#ifndef NDEBUG
      CHECK((threw && flagged[0] != '?') || (!threw && slept >= configured), cat("interrupted sleep in ", unitName[u]), "asked", configured, "slept", slept, flagged);
#endif
      mon::obs("interrupted sleeps");
    } else {
      CHECK(!threw, cat("sleep refused in ", unitName[u]), "asked", configured, flagged);
      CHECK(slept >= configured, cat("short sleep in ", unitName[u]), "asked", configured, "slept", slept);
      CHECK(slept <= configured, cat("long sleep in ", unitName[u]), "asked", configured, "slept", slept);
      mon::obs(cat("sleeps in ", unitName[u]).c_str());
      if (configured >= G) mon::obs("sleeps of a second or more");
    }
    CHECK(total(s.duration()) == configured, cat("configured time in ", unitName[u]), configured, total(s.duration()));
    h = mon::mix(h, uint64_t(configured));
  }
  return h;
}
GROUP(sleeps, 20000, 400000) { Rng& r = R; 
  Virtual v(drawStart(r));
  int u = int(r.below(4)); uint64_t h;
  if (u == 0) h = sleeperLife<ecl::Sleep>(r, u, v);
  else if (u == 1) h = sleeperLife<ecl::MilliSleep>(r, u, v);
  else if (u == 2) h = sleeperLife<ecl::MicroSleep>(r, u, v);
  else h = sleeperLife<ecl::NanoSleep>(r, u, v);
  // by duration, at any resolution
  long long d = (long long)r.below(1ull << r.range(1, 45)), e = (long long)r.below(1ull << r.range(1, 45));
  ecl::Sleep s{dur(d)};
  long long t0 = v.now(); s(); CHECK(v.now() - t0 == d && total(s.duration()) == d, "sleep of a duration", d, v.now() - t0);
  t0 = v.now(); s(dur(e)); CHECK(v.now() - t0 == e && total(s.duration()) == e, "sleep of a new duration", e, v.now() - t0);
  t0 = v.now(); s(); CHECK(v.now() - t0 == e, "sleep of the last duration", e, v.now() - t0);
#ifndef NDEBUG
  bool threw = false; t0 = v.now();
  try { s(dur(-1 - d)); } catch (const ecl::StandardException& x) { threw = x.flag() == ecl::InvalidInputError; }
  CHECK(threw && v.now() == t0, "sleep of a negative duration is refused", -1 - d);
#endif
  mon::nontrivial(mon::mix(h, uint64_t(d)));
}
REQUIRE_OBS("interrupted sleeps", 100);
REQUIRE_OBS("sleeps of a second or more", 1000);

GROUP(real_sleeps, 24, 200) { Rng& r = R; 
  // lower bounds by the real clock, also across whole seconds
  int u = int(r.below(3)) + 1;
  long long ns = r.chance(1, 3) ? G + (long long)r.below(150000000) : (long long)r.below(30000000);
  unsigned long c = (unsigned long)(ns / unitNs[u]); ns = (long long)c * unitNs[u];
  bool given = r.flip(); long long t0, t1;
  auto run = [&](auto& s) { t0 = monotonic(); if (given) s(c); else s(); t1 = monotonic(); };
  if (u == 1) { ecl::MilliSleep s(given ? 0 : c); run(s); } else if (u == 2) { ecl::MicroSleep s(given ? 0 : c); run(s); } else { ecl::NanoSleep s(given ? 0 : c); run(s); }
  CHECK(t1 - t0 >= ns, cat("real sleep too short in ", unitName[u]), "asked", ns, "slept", t1 - t0);
  mon::obs("real sleeps"); mon::nontrivial(uint64_t(t1 - t0));
  t0 = monotonic(); ecl::Sleep s{dur(ns)}; s(); t1 = monotonic();
  CHECK(t1 - t0 >= ns, "real sleep of a duration too short", "asked", ns, "slept", t1 - t0);
}
GROUP(snoozes, 12000, 400000) { Rng& r = R; 
  Virtual v(drawStart(r));
  long long p = 10000000; bool val = false;
  long long t = v.now();
  ecl::Snooze first, *z = &first;
  auto draw = [&]() -> long long {
    switch (r.below(6)) { case 0: return 10000000; case 1: return (1 + (long long)r.below(99)) * 10000000LL; case 2: return (1 + (long long)r.below(4)) * G; case 3: return G - 1; case 4: return 1 + (long long)r.below(1000); default: return 1 + (long long)r.below(5 * G); }
  };
  ecl::Snooze* mine = 0;
  if (r.flip()) { p = draw(); val = r.flip(); t = v.now(); mine = new ecl::Snooze(dur(p), val); z = mine; }
  long behind = 0; uint64_t h = uint64_t(p); int n = int(r.range(3, 80));
  for (int k = 0; k < n; ++k) {
    // what the caller does in between: nothing, a little, just a period, too long
    switch (r.below(8)) {
      case 0: break;
      case 1: v.pass(p); break;
      case 2: v.pass(p + 1); break;
      case 3: v.pass(p - 1); break;
      case 4: if (r.chance(1, 3)) v.pass((long long)r.below(uint64_t(p) * 5 + 2)); break;
      default: v.pass((long long)r.below(uint64_t(p))); break;
    }
    if (r.chance(1, 25)) { p = draw(); val = r.flip(); z->period(dur(p), val); t = v.now(); mon::obs("period changes"); }
    else if (r.chance(1, 25)) { z->initialise(); t = v.now(); mon::obs("snoozers restarted"); }
    CHECK(total(z->period()) == p, "period in force", p, total(z->period()));
    long long now = v.now(), expect;
    t += p;
    if (now > t) { ++behind; if (val) { t = now + p; expect = t; } else expect = now; } else expect = t;
    (*z)();
    CHECK(v.now() >= expect, cat("snooze ends early", val ? " (validating)" : ""), "period", p, "release due", expect, "released", v.now(), "called", now);
    CHECK(v.now() <= expect, cat("snooze ends late", val ? " (validating)" : ""), "period", p, "release due", expect, "released", v.now(), "called", now);
    if (t % G == 0) mon::obs("releases on a whole second");
    h = mon::mix(h, uint64_t(v.now()));
  }
  mon::obs("releases", n); if (behind) mon::obs("releases of a caller behind", behind);
  delete mine;
  mon::nontrivial(h);
}
REQUIRE_OBS("releases on a whole second", 100);
REQUIRE_OBS("releases of a caller behind", 1000);
GROUP(real_snoozes, 12, 60) { Rng& r = R; 
  long long p = 1000000 + (long long)r.below(15000000);
  long long start = monotonic();
  ecl::Snooze s(dur(p));
  if (r.flip()) { start = monotonic(); s.initialise(); }
  for (int k = 1; k <= 25; ++k) {
    s(); long long now = monotonic();
    CHECK(now >= start + k * p, "real snooze released early", "period", p, "release", k, "at", now - start);
    if (r.chance(1, 5)) { timespec w = {0, long(p * 3 / 2 % 900000000)}; nanosleep(&w, 0); }
  }
  mon::obs("real releases", 25); mon::nontrivial(uint64_t(p));
}
GROUP(watches, 10000, 300000) { Rng& r = R; 
  {
    Virtual v(drawStart(r));
    ecl::StopWatch w; long long start = v.now(), split = start; uint64_t h = 1;
    ecl::CpuWatch c; long long cs = verif_clock::state().cpu_ns, cp = cs;
    long long sum = 0, csum = 0;
    for (int k = 0, n = int(r.range(1, 40)); k < n; ++k) {
      long long d = (long long)r.below(1ull << r.below(40)), e = (long long)r.below(1ull << r.below(36)); v.pass(d); v.work(e);
      long long now = v.now(), cn = verif_clock::state().cpu_ns;
      switch (r.below(5)) {
        case 0: { TimeStamp t = w.elapsed(); CHECK(total(t) == now - start, "elapsed time", total(t), now - start); break; }
        case 1: { TimeStamp t = w.split(); CHECK(total(t) == now - split, "split time", total(t), now - split); split = now; sum += total(t); CHECK(sum == total(w.elapsed()), "splits add up to the elapsed time", sum); break; }
        case 2: { TimeStamp t = c.elapsed(); CHECK(total(t) == cn - cs, "elapsed cpu time", total(t), cn - cs); break; }
        case 3: { TimeStamp t = c.split(); CHECK(total(t) == cn - cp, "split cpu time", total(t), cn - cp); cp = cn; csum += total(t); CHECK(csum == total(c.elapsed()), "cpu splits add up to the elapsed cpu time", csum); break; }
        default: if (r.flip()) { w.restart(); start = split = now; sum = 0; } else { c.restart(); cs = cp = cn; csum = 0; } break;
      }
      h = mon::mix(h, uint64_t(now));
    }
    mon::nontrivial(h);
  }
  if (r.chance(1, 20)) {   // by the real clocks
    long long a = monotonic(); ecl::StopWatch w; long long b = monotonic(); ecl::CpuWatch c; long long last = 0, lastCpu = 0, sum = 0;
    volatile double x = 1;
    for (int k = 0; k < 20; ++k) {
      for (int q = 0; q < 2000; ++q) x = x * 1.0000001;
      long long t0 = monotonic(), e = total(w.elapsed()), t1 = monotonic(), u = total(c.elapsed());
      CHECK(e >= last && u >= lastCpu, "watches never run backwards", e, last, u, lastCpu);
      CHECK(e >= t0 - b && e <= t1 - a, "elapsed time by the real clock", e, t0 - b, t1 - a);
      last = e; lastCpu = u;
      long long s = total(w.split()); sum += s; CHECK(s >= 0, "splits never run backwards", s);
      CHECK(total(c.split()) >= 0, "cpu splits never run backwards", "");
    }
    CHECK(sum <= total(w.elapsed()), "splits are part of the elapsed time", sum);
    mon::obs("real watches");
  }
}
REQUIRE_OBS("real watches", 50);
GROUP(rates, 8000, 200000) { Rng& r = R; 
  Virtual v(drawStart(r), r.flip() ? 1700000000LL * G + (long long)r.below(G) : -(v.now() / 2));
  bool real = r.flip();
  static const float windows[] = {0.5f, 2.0f, 1.0f, 0.25f, 10.0f, 0.1f};
  float window = windows[r.below(6)]; long long wns = (long long)std::floor((double)window * 1e9);
  ecl::FrequencyMonitor m(window, real);
  auto now = [&] { return v.now() + (real ? verif_clock::state().real_ahead : 0); };
  long long analysed = now(), incoming = now(), lo = -1, hi = -1; long count = 0;
  bool conn = false; double hz = -1, mn = -1, mx = -1; bool fresh = true; uint64_t h = wns;
  auto close = [](double got, double want) { return std::fabs(got - want) <= 3e-6 * std::fabs(want) + 2e-9; };
  auto audit = [&](const ecl::FrequencyDiagnostics& d) {
    CHECK(d.has_connection == conn, "connection reported", d.has_connection, conn);
    CHECK(close(d.hz, hz), "rate reported", d.hz, "events say", hz, "window", window);
    CHECK(close(d.minimum_interval, mn), "shortest interval reported", d.minimum_interval, "events say", mn);
    CHECK(close(d.maximum_interval, mx), "longest interval reported", d.maximum_interval, "events say", mx);
  };
  audit(m.diagnostics());
  for (int k = 0, n = int(r.range(5, 60)); k < n; ++k) {
    v.pass((long long)r.below(uint64_t(wns) / (1 + r.below(8)) + 1));
    if (r.chance(1, 12)) v.pass(wns * 2);
    if (r.chance(1, 400)) { // more events at once than eight or sixteen bits can count
      int many = r.chance(1, 8) ? 65500 + int(r.below(200)) : 200 + int(r.below(200));
      for (int q = 0; q < many; ++q) { v.pass((long long)r.below(2000)); m.update(); long long d = now() - incoming; incoming = now(); ++count; conn = true; if (lo < 0 || d < lo) lo = d; if (d > hi) hi = d; }
      mon::obs("bursts of events");
    }
    if (r.chance(3, 5)) {
      m.update(); long long d = now() - incoming; incoming = now(); ++count; conn = true;
      if (lo < 0 || d < lo) lo = d;
      if (d > hi) hi = d;
      CHECK(m.diagnostics().has_connection, "connection reported at once", "");
    } else {
      long long d = now() - analysed;
      if (d >= wns - 100 && d <= wns + 100) { v.pass(1000); d += 1000; }
      const ecl::FrequencyDiagnostics& got = m.analyse();
      if (d > wns) {
        analysed = now(); mon::obs("windows analysed");
        if (count == 0) { conn = false; hz = mn = mx = 0; mon::obs("silent windows"); }
        else { conn = true; hz = double(count) / (double(d) * 1e-9); mn = lo * 1e-9; mx = hi * 1e-9; }
        count = 0; lo = hi = -1; fresh = false;
      }
      audit(got); audit(m.diagnostics());
      CHECK(std::fabs(got.last_incoming - incoming * 1e-9) <= 1.2e-7 * std::fabs(incoming * 1e-9) + 1e-9, "last incoming reported", got.last_incoming, incoming);
      h = mon::mix(h, uint64_t(d));
    }
  }
  if (!fresh) mon::nontrivial(h);
}
REQUIRE_OBS("windows analysed", 1000); REQUIRE_OBS("bursts of events", 100);
REQUIRE_OBS("silent windows", 100);
GROUP(timings, 5000, 100000) { Rng& r = R; 
  ecl::TimeData data; uint64_t h = 1;
  for (int round = 0; round < 2; ++round) {
    int n = int(r.range(1, 40)); std::vector<long double> x; long double sum = 0; int bits = int(r.range(1, 40));
    for (int k = 0; k < n; ++k) { long long d = (long long)r.below(1ull << bits); if (r.chance(1, 10)) d = -d; data.push_back(dur(d)); x.push_back(d * 1e-9L); sum += x.back(); h = mon::mix(h, uint64_t(d)); }
    long double avg = sum / n, var = 0; for (long double q : x) var += (q - avg) * (q - avg); var /= n;
    long double big = 0; for (long double q : x) if (fabsl(q) > big) big = fabsl(q);
    CHECK(fabsl((long double)double(data.average()) - avg) <= 2e-9L + big * 1e-14L, "average of timings", double(data.average()), double(avg));
    CHECK(fabsl((long double)double(data.variance()) - var) <= 2e-9L + big * 5e-9L + big * big * 1e-13L, "variance of timings", double(data.variance()), double(var));
    long double sd = sqrtl(var);
    CHECK(fabsl((long double)double(data.stdDev()) - sd) <= 5e-9L + big * 1e-6L * (sd < big * 1e-6L) + big * 1e-13L + 1e-12L * sd, "standard deviation of timings", double(data.stdDev()), double(sd));
    data.clear();
  }
  mon::nontrivial(h);
}
template <typename T> static void randomNumbers(Rng& r, const char* type) {
  unsigned int seed = unsigned(r.next()); T range = T(r.uniform(0.1, 1000)), sd = T(r.uniform(0.1, 50)), mu = T(r.uniform(-100, 100));
  const int n = 600; std::vector<T> first; long double su = 0, sg = 0, sg2 = 0;
  std::vector<int> kinds; for (int k = 0; k < n; ++k) kinds.push_back(int(r.below(3)));
  int ng = 0, nu = 0;
  for (int pass = 0; pass < 2; ++pass) {
    ecl::RandomNumberGenerator<T> g(seed);
    for (int k = 0; k < n; ++k) {
      T x;
      if (kinds[k] == 0) { x = g.uniform(); CHECK(x >= 0 && x <= 1, cat("uniform numbers within [0,1], ", type), x); if (!pass) { su += x; ++nu; } }
      else if (kinds[k] == 1) { x = g.uniform(range); CHECK(x >= -range && x <= range, cat("uniform numbers within their range, ", type), x, range); if (!pass) { su += (x / range + 1) / 2; ++nu; } }
      else { x = g.gaussian(sd, mu); CHECK(std::isfinite(x) && std::fabs(x - mu) < 8.7 * sd, cat("normal numbers, ", type), x, mu, sd); if (!pass) { long double y = (x - mu) / sd; sg += y; sg2 += y * y; ++ng; } }
      if (!pass) first.push_back(x); else CHECK(first[k] == x, cat("the same seed gives the same numbers, ", type), "kind", kinds[k], "number", k, first[k], x);
    }
  }
  CHECK(nu == 0 || fabsl(su / nu - 0.5L) < 7 * 0.2887L / sqrtl(nu), cat("uniform numbers are centred, ", type), double(su / nu));
  CHECK(ng == 0 || fabsl(sg / ng) < 7 / sqrtl(ng), cat("normal numbers are centred, ", type), double(sg / ng));
  CHECK(ng == 0 || fabsl(sg2 / ng - 1) < 7 * 1.4143L / sqrtl(ng), cat("normal numbers have the spread asked for, ", type), double(sg2 / ng));
  if (r.chance(1, 10)) { ecl::RandomNumberGenerator<T> own; for (int k = 0; k < 50; ++k) { T x = own.uniform(); CHECK(x >= 0 && x <= 1, cat("uniform numbers of an own seed, ", type), x); } }
  mon::obs("random numbers", n); mon::nontrivial(seed);
}
GROUP_OPT(random, 400, 8000, "serial") { Rng& r = R;  if (r.flip()) randomNumbers<double>(r, "double"); else randomNumbers<float>(r, "float"); }
