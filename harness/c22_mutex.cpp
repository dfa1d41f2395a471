// C22: mutexes exclude, and trying respects the wait asked for. Built with the race detector, with ASan, and in release mode.
#include "mon.hpp"
#include <ecl/threads/mutex.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <atomic>
#include <memory>
#include <thread>
#include <sched.h>
#include <unistd.h>
#include <time.h>
using ecl::Mutex; using ecl::Duration; using ecl::StandardException;
REQUIRE_OBS("guarded sections entered", 30000); REQUIRE_OBS("sections entered after another thread", 3000); REQUIRE_OBS("tries refused while held", 300); REQUIRE_OBS("timed waits that ran out", 100); REQUIRE_OBS("timed waits that got the lock", 60); REQUIRE_OBS("threads seen queueing", 200);
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void nap(double s) { timespec t; t.tv_sec = (time_t)s; t.tv_nsec = (long)((s - t.tv_sec) * 1e9); while (nanosleep(&t, &t)) {} }
static Duration dur(double s) { Duration d; d.stamp((unsigned long)s, (unsigned long)((s - (unsigned long)s) * 1e9)); return d; }
struct Shared { Mutex m; int inside = 0; uint64_t count = 0; int last = -1; uint64_t words[8] = {0}; };   // everything but m is plain: the race detector watches it
static void section(Shared& s, int me, mon::Rng& R) {
  if (s.inside++) mon::fail("two-inside", mon::cat("thread ", me, " found ", s.inside - 1, " inside")); if (s.last >= 0 && s.last != me) mon::obs("sections entered after another thread"); s.last = me; uint64_t k = s.words[0]; for (int i = 1; i < 8; ++i) if (s.words[i] != k) mon::fail("stale-or-torn", mon::cat("word ", i)); switch (R.below(8)) { case 0: sched_yield(); break; case 1: usleep(R.below(50)); break; } for (int i = 0; i < 8; ++i) s.words[i] = k + 1; ++s.count; --s.inside;
}
GROUP_OPT(exclusion, 60, 3000, "serial") {
  int n = R.range(2, 8), steps = R.range(50, 250); std::unique_ptr<Shared> s(new Shared); std::atomic<uint64_t> entered(0); std::atomic<int> ready(0); std::atomic<bool> go(false), done(false); uint64_t seed = R.next(); std::vector<std::thread> ts; int style = R.below(4);
  std::thread watcher; bool watch = R.flip(); if (watch) watcher = std::thread([&] { while (!done) { unsigned c = s->m.locks(); if (c > (unsigned)n) mon::fail("count", mon::cat(c, " locks by ", n, " threads")); sched_yield(); } });
  for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { mon::Rng Q(seed + i * 7919); ++ready; while (!go) sched_yield(); for (int k = 0; k < steps; ++k) { bool in = true; switch (style ? Q.below(3) : 0) { case 0: s->m.lock(); break; case 1: in = s->m.trylock(); break; default: { Duration d = dur(Q.chance(1, 3) ? 0 : Q.below(2000) * 1e-6); in = s->m.trylock(d); } } if (!in) { if (Q.flip()) sched_yield(); continue; } section(*s, i, Q); ++entered; mon::obs("guarded sections entered"); s->m.unlock(); if (Q.chance(1, 4)) sched_yield(); } });
  while (ready < n) sched_yield(); go = true; for (auto& t : ts) t.join(); done = true; if (watch) watcher.join();
  CHECK(s->count == entered, "lost-update", s->count, " of ", (uint64_t)entered); CHECK(s->m.locks() == 0, "count", s->m.locks(), " at rest"); CHECK(s->m.trylock() && s->m.locks() == 1, "free-lock-refused", ""); s->m.unlock(); mon::nontrivial(mon::mix(entered, n)); mon::sample(mon::cat(n, " threads, ", (uint64_t)entered, " sections"));
}
// one holder and one that tries: refusals, waits and successes at chosen moments; many pairs side by side, as they mostly sleep
static void pair(uint64_t seed, int what) {
  mon::Rng R(seed); Mutex m(R.flip()); if (m.locks() == 0) { if (!m.trylock()) mon::fail("free-lock-refused", ""); } else if (m.locks() != 1) mon::fail("count", "constructed locked");
  std::atomic<int> stage(0); double wait = R.chance(1, 3) ? R.below(3) * 0.001 : 0.02 + 0.4 * R.unit(); double let_go = what == 2 ? wait * R.uniform(0.1, 0.6) : 0; bool got = false; double began = 0, ended = 0, released = 0;
  std::thread t([&] { if (m.trylock()) { mon::fail("held-lock-taken", "trylock"); } else mon::obs("tries refused while held"); if (m.rawType().__data.__lock == 0) mon::fail("held-lock-taken", "raw"); Duration zero(0.0); if (m.trylock(zero)) mon::fail("held-lock-taken", "no wait"); else mon::obs("tries refused while held"); stage = 1; if (what == 0) return; Duration d = dur(wait); began = now(); got = m.trylock(d); ended = now(); stage = 2; if (got) m.unlock(); });
  while (stage < 1) sched_yield(); if (what == 2) { nap(let_go); released = 0; m.unlock(); released = now(); } else if (what == 1) while (stage < 2) usleep(200);
  t.join();
  if (what == 1) { if (got) mon::fail("held-lock-taken", "timed"); double took = ended - began; if (took < wait * 0.995 - 0.002) mon::fail("gave-up-early", mon::cat("after ", took, " of ", wait, " s")); if (took > wait + 5) mon::fail("waited-on", mon::cat("after ", took, " of ", wait, " s")); mon::obs("timed waits that ran out"); }
  if (what == 2) { if (!got && released < began + wait - 0.02) mon::fail("released-lock-not-taken", mon::cat("released after ", released - began, " s of ", wait)); if (got && wait > 0.25 && ended - released > 5) mon::fail("waited-on", mon::cat(ended - released, " s after the release")); if (got) mon::obs("timed waits that got the lock"); if (m.locks() != 0) mon::fail("count", mon::cat(m.locks(), " after")); }
  else { if (m.locks() != 1) mon::fail("count", mon::cat(m.locks(), " while held")); m.unlock(); }
  Duration any = dur(R.flip() ? R.below(100000) + R.unit() : 0); double b = now(); if (!m.trylock(any)) mon::fail("free-lock-refused", "timed"); else { if (now() - b > 5) mon::fail("waited-on", "free lock"); if (m.locks() != 1) mon::fail("count", "timed"); m.unlock(); }
  Duration neg(-0.5 * R.unit()); m.lock(); std::thread t2([&] { if (m.trylock(neg)) mon::fail("held-lock-taken", "negative wait"); else mon::obs("tries refused while held"); }); t2.join(); m.unlock(); if (m.locks() != 0) mon::fail("count", "at rest");
}
GROUP(trying, 24, 500) { uint64_t seed = R.next(); std::vector<std::thread> ts; for (int i = 0; i < 12; ++i) ts.emplace_back(pair, seed + i * 104729, i % 3); for (auto& t : ts) t.join(); mon::nontrivial(seed); mon::sample("a held lock tried without waiting, until the time ran out, and until it was released"); }
// every thread in the queue gets in, one at a time
GROUP(queueing, 60, 1500) {
  int n = R.range(1, 7); Shared s; s.m.lock(); uint64_t seed = R.next(); std::vector<std::thread> ts; for (int i = 0; i < n; ++i) { ts.emplace_back([&, i] { mon::Rng Q(seed + i); s.m.lock(); section(s, i, Q); mon::obs("guarded sections entered"); s.m.unlock(); }); while (s.m.locks() != (unsigned)(i + 2)) sched_yield(); mon::obs("threads seen queueing"); }
  CHECK(s.count == 0, "held-lock-taken", s.count); s.m.unlock(); for (auto& t : ts) t.join(); CHECK(s.count == (uint64_t)n && s.m.locks() == 0, "lost-update", s.count); mon::nontrivial(mon::mix(n, seed)); mon::sample(mon::cat(n, " threads queueing"));
}
// what only the holder may do; debug builds refuse the rest and nothing changes
GROUP(misuse, 60, 1500) {
  Mutex m; bool held = false; uint64_t h = 0; auto others = [&] { bool got = false; std::thread t([&] { got = m.trylock(); if (got) m.unlock(); }); t.join(); CHECK(got != held, held ? "held-lock-taken" : "free-lock-refused", "other thread"); CHECK(m.locks() == (held ? 1u : 0u), "count", m.locks()); };
  auto refused = [&](const char* what, std::function<void()> f) { bool threw = false; try { f(); } catch (const StandardException&) { threw = true; } CHECK(threw, "misuse-accepted", what); (void)what; };
  for (int i = R.range(5, 25); i > 0; --i) { int op = R.below(6); h = mon::mix(h, op); switch (op) {
    case 0: if (!held) { m.lock(); held = true; } else {
#if !defined(NDEBUG) && !defined(__SANITIZE_THREAD__)
      refused("locking twice", [&] { m.lock(); });
#endif
    } break;
    case 1: if (held) { m.unlock(); held = false; } else {
#if !defined(NDEBUG) && !defined(__SANITIZE_THREAD__)
      refused("unlocking a free mutex", [&] { m.unlock(); });
#endif
    } break;
    case 2: { bool got = m.trylock(); CHECK(got == !held, "trylock", got); held = true; break; }
    case 3: { Duration d(0.001); if (!held) { CHECK(m.trylock(d), "free-lock-refused", "timed"); held = true; } else {
#if !defined(NDEBUG) && !defined(__SANITIZE_THREAD__)
      refused("waiting for oneself", [&] { m.trylock(d); });
#elif defined(NDEBUG)
      CHECK(!m.trylock(d), "held-lock-taken", "by its holder");
#endif
      } break; }
    case 4: if (held) {
#if !defined(NDEBUG) && !defined(__SANITIZE_THREAD__)
      std::thread t([&] { refused("unlocking another's lock", [&] { m.unlock(); }); }); t.join();
#endif
    } break;
    default: { Mutex fresh(held); bool got = fresh.trylock(); CHECK(got == !held && fresh.locks() == 1, "constructed", held); fresh.unlock(); } }
    others(); }
  if (held) m.unlock(); mon::nontrivial(h); mon::sample("locking, trying and unlocking by holder and others");
}
// more threads than a byte can count
GROUP_OPT(crowd, 3, 60, "serial") {
  int n = R.range(256, 300); std::unique_ptr<Shared> s(new Shared); s->m.lock(); uint64_t seed = R.next(); std::vector<std::thread> ts; std::atomic<int> refused(0); bool bad = false;
  for (int i = 0; i < n && !bad; ++i) { ts.emplace_back([&, i] { mon::Rng Q(seed + i); if (Q.chance(1, 3)) { if (s->m.trylock()) mon::fail("held-lock-taken", "trylock in a crowd"); ++refused; } s->m.lock(); section(*s, i, Q); mon::obs("guarded sections entered"); s->m.unlock(); }); unsigned want = i + 2; double began = now(); while (s->m.locks() < want && now() - began < 20) sched_yield(); if (s->m.locks() != want) { mon::fail("count", mon::cat(s->m.locks(), " with ", i + 1, " queueing")); bad = true; } mon::obs("threads seen queueing"); }
  CHECK(s->count == 0, "held-lock-taken", s->count); s->m.unlock(); for (auto& t : ts) t.join(); CHECK(s->count == ts.size() && s->m.locks() == 0, "lost-update", s->count, " of ", n); mon::obs("crowds of hundreds"); mon::nontrivial(seed); mon::sample(mon::cat(n, " threads queueing")); }
REQUIRE_OBS("crowds of hundreds", 3);
