// C38: unrelated objects used by different threads do not disturb each other.  A job is a function of a seed that works on objects
// of its own and tells everything it saw; what it tells alone is what it has to tell in a crowd.  The thread sanitizer watches.
#ifndef VERIF_C38_COMMON_HPP_
#define VERIF_C38_COMMON_HPP_
#include "mon.hpp"
#include <atomic>
#include <cstring>
#include <functional>
#include <iomanip>
#include <map>
#include <memory>
#include <pthread.h>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using mon::Rng; using mon::cat;
// the C library's own locks are invisible to the sanitizer
extern "C" const char* __tsan_default_suppressions() { return "called_from_lib:libc.so.6\n"; }
REQUIRE_OBS("jobs in a crowd", 3000); REQUIRE_OBS("overlapping jobs", 1500); REQUIRE_OBS("kinds of jobs", 1);
struct Out { std::ostringstream o; Out() { o.precision(17); } template <class T> Out& operator<<(const T& t) { o << t << ' '; return *this; } std::string str() const { return o.str(); } void flush() { o.flush(); } };
// where the thread is: everything named by a job carries this
struct Place { int thread; Rng r; Out o; Place(int t, uint64_t seed) : thread(t), r(seed) {} };
typedef void (*Job)(Place&);
struct Named { const char* name; Job job; };
static std::string perform(const Named& n, int thread, uint64_t seed) { Place p(thread, seed); try { n.job(p); } catch (const std::exception& e) { p.o << "exception" << e.what(); } return p.o.str(); }
struct Gate { pthread_barrier_t b; explicit Gate(unsigned n) { pthread_barrier_init(&b, 0, n); } ~Gate() { pthread_barrier_destroy(&b); } void pass() { pthread_barrier_wait(&b); } };
// everybody does the same kind of job, or each what comes
static void crowd(Rng& r, const std::vector<Named>& jobs, int kind) {
  int threads = int(r.range(2, 6)), rounds = int(r.range(3, 10)); struct Task { const Named* n; uint64_t seed; std::string alone, together; }; std::vector<std::vector<Task>> tasks(threads);
  for (int t = 0; t < threads; ++t) for (int k = 0; k < rounds; ++k) { Task x; x.n = &jobs[kind >= 0 ? kind : int(r.below(jobs.size()))]; x.seed = r.next(); tasks[t].push_back(x); }
  bool before = r.flip(); // alone first, or the crowd first: whoever initialises something must not matter
  auto single = [&] { for (int t = 0; t < threads; ++t) for (Task& x : tasks[t]) x.alone = perform(*x.n, t, x.seed); };
  if (before) single();
  std::atomic<int> inside(0), overlaps(0); Gate gate(threads); std::vector<std::thread> ts; bool every = r.flip();
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { gate.pass(); for (Task& x : tasks[t]) { if (every) gate.pass(); if (inside.fetch_add(1, std::memory_order_relaxed) > 0) overlaps.fetch_add(1, std::memory_order_relaxed); x.together = perform(*x.n, t, x.seed); inside.fetch_sub(1, std::memory_order_relaxed); } });
  for (auto& t : ts) t.join();
  if (!before) single();
  for (int t = 0; t < threads; ++t) for (Task& x : tasks[t]) CHECK(x.alone == x.together, "disturbed", x.n->name, " seed ", x.seed, " in a crowd of ", threads, " tells ", mon::quote(x.together).substr(0, 300), " instead of ", mon::quote(x.alone).substr(0, 300));
  mon::obs("jobs in a crowd", uint64_t(threads) * rounds); mon::obs("overlapping jobs", uint64_t(overlaps.load())); mon::obs("kinds of jobs"); if (kind >= 0) mon::obs(cat("crowds of ", jobs[kind].name).c_str()); mon::nontrivial(mon::mix(kind + 1, r.next())); mon::sample(cat(kind >= 0 ? jobs[kind].name : "mixed", " in ", threads, " threads: ", tasks[0][0].together.substr(0, 120)));
}
#endif
