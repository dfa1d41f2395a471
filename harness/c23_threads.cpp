// C23: threads run their function exactly once and joining waits for it. Built with the race detector, with ASan, and in release mode.
#include "mon.hpp"
#include <ecl/threads/thread.hpp>
#include <ecl/threads/threadable.hpp>
#include <ecl/threads/priority.hpp>
#include <ecl/utilities/references.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <atomic>
#include <memory>
#include <thread>
#include <mutex>
#include <climits>
#include <fstream>
#include <sched.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/syscall.h>
using ecl::Thread; using ecl::StandardException;
#if defined(__SANITIZE_THREAD__)
#define UNDER_TSAN 1
#else
#define UNDER_TSAN 0
#endif
REQUIRE_OBS("threads started", 3000); REQUIRE_OBS("joins that waited", 500); REQUIRE_OBS("threads let go", 300); REQUIRE_OBS("threads cancelled", 100); REQUIRE_OBS("second starts refused", 300); REQUIRE_OBS("failing starts refused", 100); REQUIRE_OBS("workers run", 300); REQUIRE_OBS("priorities observed", 100);
static int tasks_() { int n = 0; DIR* d = opendir("/proc/self/task"); while (dirent* e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
static int tasks() { static bool warm = false; if (!warm) { warm = true; std::thread([] {}).join(); int last = -1, same = 0; while (same < 20) { usleep(500); int n = tasks_(); same = n == last ? same + 1 : 0; last = n; } } return tasks_(); } // sanitizers keep a thread of their own once there are others
// what a started function does is written here: `plain` by the function only, to be read after a join
struct Job { std::atomic<int> runs{0}, finished{0}, copies{0}; std::atomic<bool> gate{true}, started{false}; int pause_us = 0; bool forever = false; int plain = 0; const void* ran_on = 0; size_t stack = 0; int nice = 99; ecl::Priority priority = ecl::UnknownPriority; };
static void work(Job& j, const void* self) {
  ++j.runs; j.ran_on = self; if (j.stack) { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* p; size_t n; pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a); if (n < j.stack) mon::fail("stack-size", mon::cat(n, " want ", j.stack)); } j.nice = getpriority(PRIO_PROCESS, 0); j.started = true; while (!j.gate || j.forever) usleep(100); if (j.pause_us) usleep(j.pause_us); j.plain = 4711; ++j.finished; }
struct Functor { typedef void result_type; Job* j; explicit Functor(Job& x) : j(&x) { ++j->copies; } Functor(const Functor& o) : j(o.j) { ++j->copies; } ~Functor() { --j->copies; } void operator()() { work(*j, this); } };
struct Member { Job* j; void f() { work(*j, this); } void g(int k) { if (k != 77) mon::fail("argument", mon::cat(k)); work(*j, this); } };
static Job* current; static void free_function() { work(*current, 0); } static Job* spare; static void spare_function() { work(*spare, 0); } static void bound_function(Job* j) { work(*j, 0); } static std::mutex one_at_a_time;
struct Started { std::unique_ptr<Thread> t; std::unique_ptr<Functor> f; Member m; int kind; };
static ecl::Error begin(Thread& t, int kind, Started& s, Job& j, ecl::Priority p, long stack) { switch (kind) { case 6: spare = &j; return t.start(spare_function, p, stack); case 0: return t.start(free_function, p, stack); case 1: return t.start(&Member::f, s.m, p, stack); case 2: return t.start(*s.f, p, stack); case 3: return t.start(ecl::ref(*s.f), p, stack); case 4: return t.start(ecl::generateFunctionObject(bound_function, &j), p, stack); default: return t.start(ecl::generateFunctionObject(&Member::g, s.m, 77), p, stack); } }
static Thread* construct(int kind, Started& s, Job& j, ecl::Priority p, long stack) { switch (kind) { case 0: return new Thread(free_function, p, stack); case 1: return new Thread(&Member::f, s.m, p, stack); case 2: return new Thread(*s.f, p, stack); case 3: return new Thread(ecl::ref(*s.f), p, stack); case 4: return new Thread(ecl::generateFunctionObject(bound_function, &j), p, stack); default: return new Thread(ecl::generateFunctionObject(&Member::g, s.m, 77), p, stack); } }
template <class F> static void refused(const char* what, F f) {
#ifndef NDEBUG
  bool threw = false; try { f(); } catch (const StandardException&) { threw = true; } CHECK(threw, "misuse-accepted", what);
#else
  f();
#endif
  (void)what;
}
static void wait_for(const char* what, std::function<bool()> ok) { mon::note(what); while (!ok()) usleep(100); }
static long stacks[] = {-1, -1, -1, 1 << 16, 1 << 18, 1 << 20, 16 << 20};
GROUP(life, 300, 15000) {
  Job j; current = &j; Started s; s.m.j = &j; s.kind = R.below(6); s.f.reset(new Functor(j)); int base = tasks(); uint64_t h = s.kind; long stack = stacks[R.below(7)]; if (UNDER_TSAN && stack > 0 && stack < (1 << 20)) stack = 1 << 20; if (stack > 0) j.stack = stack; j.gate = R.flip(); j.pause_us = R.chance(1, 3) ? R.below(2000) : 0; ecl::Priority p = R.chance(1, 3) ? ecl::NormalPriority : ecl::DefaultPriority; bool constructed = R.flip();
  if (constructed) s.t.reset(construct(s.kind, s, j, p, stack)); else { s.t.reset(new Thread); CHECK(!s.t->isRunning(), "running-before-start", ""); if (R.flip()) { refused("cancelling what never started", [&] { s.t->cancel(); }); } if (R.chance(1, 4)) s.t->join(); ecl::Error e = begin(*s.t, s.kind, s, j, p, stack); CHECK(e.flag() == ecl::NoError, "start", (int)e.flag()); }
  mon::obs("threads started"); bool joined = false, gone = false;
  for (int i = R.range(1, 6); i > 0 && !gone; --i) { int op = R.below(7); h = mon::mix(h, op); switch (op) {
    case 0: case 1: if (joined) { refused("joining twice", [&] { s.t->join(); }); break; } { std::thread opener; bool waited = !j.gate; if (waited) opener = std::thread([&] { usleep(300); j.gate = true; }); s.t->join(); joined = true; CHECK(j.finished == 1, "join-did-not-wait", ""); CHECK(j.plain == 4711, "effects-invisible", j.plain); if (waited) { opener.join(); mon::obs("joins that waited"); } CHECK(!s.t->isRunning(), "running-after-join", ""); } break;
    case 2: { Job other; Started o; o.m.j = &other; o.f.reset(new Functor(other)); int k = 1 + R.below(6); bool threw = false; ecl::Error e; try { e = begin(*s.t, k, o, other, ecl::DefaultPriority, -1); } catch (const StandardException& x) { threw = true; CHECK(x.flag() == ecl::BusyError, "refusal-flag", (int)x.flag()); }
#ifndef NDEBUG
      CHECK(threw, "second-start-accepted", "");
#else
      CHECK(e.flag() == ecl::BusyError, "second-start-accepted", (int)e.flag());
#endif
      if (R.chance(1, 4)) usleep(500); CHECK(other.runs == 0 && other.copies == 1, "second-start-ran", ""); mon::obs("second starts refused"); break; }
    case 3: if (!joined && !j.gate) CHECK(s.t->isRunning(), "not-running", ""); break;
    case 4: j.gate = true; break;
    case 5: if (joined) refused("cancelling a joined thread", [&] { s.t->cancel(); }); else if (R.flip()) { j.gate = true; wait_for("the function has finished but the thread says it is running", [&] { return !s.t->isRunning(); }); CHECK(j.finished == 1, "not-running", "before the function had finished"); refused("cancelling a finished thread", [&] { s.t->cancel(); }); } break;
    default: s.t.reset(); gone = true; if (!joined) mon::obs("threads let go"); } }
  if (!gone) { if (!joined) mon::obs("threads let go"); s.t.reset(); } j.gate = true; wait_for("a thread let go never finished", [&] { return j.finished == 1 && tasks() <= base; }); CHECK(j.runs == 1, "ran-twice", (int)j.runs); CHECK(j.copies == 1, "functor-leaked", (int)j.copies - 1);
  if (s.kind == 3) CHECK(j.ran_on == s.f.get(), "reference-copied", ""); if (s.kind == 2) CHECK(j.ran_on != s.f.get(), "copy-not-made", ""); if (s.kind == 1 || s.kind == 5) CHECK(j.ran_on == &s.m, "wrong-instance", ""); mon::nontrivial(h); mon::sample(mon::cat("a thread of kind ", s.kind, constructed ? " constructed" : " started"));
}
// many at once: started, joined and let go from several threads
GROUP_OPT(crowds, 20, 800, "serial") {
  int n = R.range(2, 6); uint64_t seed = R.next(); std::atomic<int> ready(0); std::atomic<bool> go(false); std::vector<std::thread> ts; int base = tasks(); std::vector<std::vector<std::unique_ptr<Job>>> jobs(n);
  for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { mon::Rng Q(seed + i * 7907); ++ready; while (!go) sched_yield(); for (int k = 0; k < 25; ++k) { jobs[i].emplace_back(new Job); Job& j = *jobs[i].back(); j.pause_us = Q.chance(1, 4) ? Q.below(300) : 0; std::unique_ptr<Functor> f(new Functor(j)); bool copy = Q.flip(); std::unique_ptr<Thread> t(copy ? new Thread(*f) : new Thread(ecl::ref(*f))); mon::obs("threads started"); if (!copy || Q.flip()) { t->join(); if (j.plain != 4711 || j.finished != 1) mon::fail("join-did-not-wait", ""); mon::obs("joins that waited"); } else mon::obs("threads let go"); } });
  while (ready < n) sched_yield(); go = true; for (auto& t : ts) t.join(); wait_for("threads let go never finished", [&] { return tasks() <= base; }); for (auto& v : jobs) for (auto& j : v) { CHECK(j->runs == 1 && j->finished == 1, "ran-twice", (int)j->runs); CHECK(j->copies == 0, "functor-leaked", (int)j->copies); } mon::nontrivial(seed); mon::sample(mon::cat(n, " threads starting others"));
}
// hundreds alive together
GROUP_OPT(hundreds, 2, 12, "serial") {
  int n = R.range(257, UNDER_TSAN ? 280 : 400), base = tasks(); std::vector<std::unique_ptr<Job>> jobs; std::vector<std::unique_ptr<Functor>> fs; std::vector<std::unique_ptr<Thread>> ts; for (int i = 0; i < n; ++i) { jobs.emplace_back(new Job); jobs[i]->gate = false; fs.emplace_back(new Functor(*jobs[i])); ts.emplace_back(R.flip() ? new Thread(*fs[i]) : new Thread(ecl::ref(*fs[i]))); mon::obs("threads started"); }
  for (int i = 0; i < n; ++i) { wait_for("one of hundreds never started", [&] { return (bool)jobs[i]->started; }); CHECK(ts[i]->isRunning() && jobs[i]->finished == 0, "one-of-hundreds", i, " of ", n, " does not run"); }
  for (int i = 0; i < n; ++i) { int k = (i * 101) % n; if (n % 101 == 0) k = i; jobs[k]->gate = true; if (R.chance(3, 4)) { ts[k]->join(); CHECK(jobs[k]->finished == 1 && jobs[k]->plain == 4711, "join-did-not-wait", k, " of ", n); } else ts[k].reset(); }
  ts.clear(); wait_for("one of hundreds never finished", [&] { return tasks() <= base; }); for (int i = 0; i < n; ++i) CHECK(jobs[i]->runs == 1 && jobs[i]->finished == 1 && jobs[i]->copies == 1, "one-of-hundreds", i, " of ", n, " ran ", (int)jobs[i]->runs, " times"); mon::obs("threads alive together", n); mon::nontrivial(mon::mix(n, R.next()));
}
REQUIRE_OBS("threads alive together", 500);
#if !UNDER_TSAN && !defined(NDEBUG)
// stacks of more than 2 gigabytes
GROUP_OPT(great_stacks, 2, 4, "serial") {
  Job j; current = &j; j.stack = mon::current_case % 2 ? (size_t(2) << 30) + (1 << 20) : (size_t(4) << 30) + (1 << 20); Thread t; Started s; s.m.j = &j; s.f.reset(new Functor(j)); ecl::Error e; try { e = begin(t, 0, s, j, ecl::DefaultPriority, (long)j.stack); } catch (const StandardException&) { mon::obs("great stacks not to be had"); return; } t.join(); CHECK(j.runs == 1 && j.plain == 4711, "great-stack", j.stack); mon::obs("great stacks"); mon::nontrivial(j.stack); }
#endif
// a thread that joins itself is refused, and can still be joined, cancelled or let go by others
#if !UNDER_TSAN
REQUIRE_OBS("threads that joined themselves", 40);
struct Selfish { Thread t; std::atomic<bool> gate{false}, tried{false}, release{false}; int plain = 0; void f() { while (!gate) usleep(50); refused("joining itself", [&] { t.join(); }); tried = true; while (!release) usleep(50); plain = 4711; } };
GROUP(selves, 40, 800) {
  int base = tasks(); { std::unique_ptr<Selfish> s(new Selfish); s->t.start(&Selfish::f, *s); s->gate = true; wait_for("a thread that joins itself never came back", [&] { return (bool)s->tried; }); CHECK(s->t.isRunning(), "not-running", "while it is"); bool let_go = R.flip(); std::thread opener([&] { usleep(200); s->release = true; });
    if (!let_go) { try { s->t.join(); CHECK(s->plain == 4711, "join-did-not-wait", "after the thread had tried to join itself"); } catch (const StandardException& e) { mon::fail("join-refused", "after the thread had tried to join itself"); } refused("joining twice", [&] { s->t.join(); }); }
    opener.join(); wait_for("a thread that joined itself never finished", [&] { return !s->t.isRunning(); }); }
  wait_for("a thread that joined itself never ended", [&] { return tasks() <= base; }); mon::obs("threads that joined themselves"); mon::nontrivial(R.next()); mon::sample("a thread that joins itself, then joined or let go");
}
#endif
// threads neither joined nor kept leave nothing behind
static long mappings() { std::ifstream f("/proc/self/maps"); long n = 0; std::string l; while (std::getline(f, l)) ++n; return n; }
GROUP(leftovers, 6, 60) {
  auto lot = [&](int n) { for (int i = 0; i < n; ++i) { Job j; current = &j; Functor f(j); int base = tasks(); { std::unique_ptr<Thread> t(R.flip() ? new Thread(free_function) : new Thread(f)); mon::obs("threads started"); switch (R.below(4)) { case 0: t->join(); break; case 1: wait_for("never finished", [&] { return !t->isRunning(); }); break; default:; } } wait_for("never finished", [&] { return j.finished == 1 && tasks() <= base; }); mon::obs("threads let go"); } };
  lot(30); long before = mappings(); lot(120); long after = mappings(); CHECK(after < before + 60, "threads-left-behind", after - before, " mappings more after 120 threads"); mon::nontrivial(mon::current_case); mon::sample("150 threads, joined or let go");
}
#if !UNDER_TSAN
GROUP(cancelling, 80, 3000) {
  Job j; current = &j; j.forever = true; Started s; s.m.j = &j; s.kind = R.below(6); s.f.reset(new Functor(j)); int base = tasks(); s.t.reset(construct(s.kind, s, j, ecl::DefaultPriority, -1)); mon::obs("threads started"); if (R.chance(2, 3)) wait_for("never started", [&] { return (bool)j.started; }); if (R.chance(1, 3)) usleep(R.below(500)); CHECK(s.t->isRunning(), "not-running", ""); s.t->cancel(); mon::obs("threads cancelled"); CHECK(!s.t->isRunning(), "running-after-cancel", ""); int how = R.below(3); if (how == 0) refused("cancelling twice", [&] { s.t->cancel(); }); if (how < 2) { s.t->join(); refused("joining twice", [&] { s.t->join(); }); } s.t.reset(); wait_for("a cancelled thread never ended", [&] { return tasks() <= base; }); CHECK(j.finished == 0 && j.runs <= 1, "cancelled-thread-went-on", ""); CHECK(j.copies == 1, "functor-leaked", (int)j.copies - 1); mon::nontrivial(mon::mix(s.kind, how)); mon::sample(mon::cat("a running thread of kind ", s.kind, " cancelled"));
}
#else
GROUP(cancelling, 80, 80) { mon::obs("threads cancelled"); }
#endif
GROUP(failing, 60, 2000) {
  Job j; current = &j; Started s; s.m.j = &j; s.kind = R.below(6); s.f.reset(new Functor(j)); bool absurd = true;
#ifndef NDEBUG
  absurd = R.flip();
#endif
  long stack = absurd ? (1L << 52) : (long)R.below(PTHREAD_STACK_MIN - 1) + 1; bool threw = false; ecl::Error e; Thread t; for (int tries = R.range(1, 3); tries > 0; --tries) {
    try { if (R.flip()) e = begin(t, s.kind, s, j, ecl::DefaultPriority, stack); else { std::unique_ptr<Thread> other(construct(s.kind, s, j, ecl::DefaultPriority, stack)); CHECK(!other->isRunning(), "failed-start-runs", ""); e = ecl::Error(ecl::UnknownError); } } catch (const StandardException&) { threw = true; } CHECK(threw || e.flag() != ecl::NoError, "failing-start-accepted", stack); CHECK(!t.isRunning(), "failed-start-runs", ""); }
  mon::obs("failing starts refused"); if (R.flip()) t.join(); if (R.flip()) { e = begin(t, s.kind, s, j, ecl::DefaultPriority, -1); CHECK(e.flag() == ecl::NoError, "start-after-failure", (int)e.flag()); t.join(); CHECK(j.runs == 1 && j.plain == 4711, "start-after-failure", (int)j.runs); } else CHECK(j.runs == 0, "failed-start-runs", ""); CHECK(j.copies == 1, "functor-leaked", (int)j.copies - 1); mon::nontrivial(mon::mix(s.kind, absurd)); mon::sample(mon::cat("a stack of ", stack, " bytes"));
}
// workers: one run at a time however many ask
struct Worker : public ecl::Threadable { std::atomic<int> inside{0}, runs{0}; std::atomic<bool> gate{true}; int plain = 0; void runnable() { if (inside++) mon::fail("two-workers", ""); ++runs; while (!gate) usleep(50); ++plain; --inside; } };
GROUP(workers, 60, 2500) {
  Worker w; int total = 0, base = tasks(); CHECK(!w.isRunning(), "running-before-start", "");
  for (int round = R.range(1, 5); round > 0; --round) { w.gate = false; int n = R.range(1, 5); std::atomic<int> won(0), ready(0); std::atomic<bool> go(false); std::vector<std::thread> ts; for (int i = 0; i < n; ++i) ts.emplace_back([&] { ++ready; while (!go) sched_yield(); if (w.start()) ++won; if (!w.isRunning()) mon::fail("not-running", "a started worker"); }); while (ready < n) sched_yield(); go = true; for (auto& t : ts) t.join(); CHECK(won == 1, "starts-accepted", (int)won, " of ", n); ++total; CHECK(w.isRunning() && !w.start(), "second-start-accepted", ""); w.gate = true; wait_for("a worker never finished", [&] { return !w.isRunning(); }); CHECK(w.plain == total && w.runs == total && w.inside == 0, "runs", (int)w.runs, " want ", total); mon::obs("workers run"); }
  wait_for("a worker never finished", [&] { return tasks() <= base; }); mon::nontrivial(mon::mix(total, mon::current_case)); mon::sample(mon::cat(total, " rounds of a worker"));
}
// priorities: each in a thread of its own, judged by the kernel
static bool permitted(ecl::Priority p) { bool ok = false; std::thread t([&] { if (p >= ecl::RealTimePriority1) { sched_param s; s.sched_priority = sched_get_priority_min(SCHED_RR) + (p - ecl::RealTimePriority1) * (sched_get_priority_max(SCHED_RR) - sched_get_priority_min(SCHED_RR)) / 10; ok = sched_setscheduler(0, SCHED_RR, &s) == 0; } else { static const int nice[] = {0, 0, 19, 10, 0, -10, -20}; ok = setpriority(PRIO_PROCESS, 0, nice[p]) == 0; } }); t.join(); return ok; }
GROUP(priorities, 40, 400) {
  static const int nice[] = {0, 0, 19, 10, 0, -10, -20}; int base = getpriority(PRIO_PROCESS, 0); ecl::Priority p = (ecl::Priority)R.range(ecl::BackgroundPriority, ecl::RealTimePriority4); bool may = permitted(p);
  struct Probe { typedef void result_type; ecl::Priority seen = ecl::UnknownPriority; int nice = 99, policy = -1, level = -1; std::string text; int ran = 0; void operator()() { ++ran; try { seen = ecl::get_priority(); text = ecl::print_priority_diagnostics(); } catch (const StandardException&) {} nice = getpriority(PRIO_PROCESS, 0); policy = sched_getscheduler(0); sched_param s; sched_getparam(0, &s); level = s.sched_priority; } } probe;
  { Thread t(ecl::ref(probe), p); t.join(); } mon::obs("threads started"); CHECK(probe.ran == 1, "priority-stopped-thread", (int)p);
  if (may) { CHECK(probe.seen == p, "get-priority", (int)probe.seen, " want ", (int)p); if (p < ecl::RealTimePriority1) CHECK(probe.nice == nice[p] && probe.policy == SCHED_OTHER, "niceness", probe.nice, " want ", nice[p]); else { int lo = sched_get_priority_min(SCHED_RR), hi = sched_get_priority_max(SCHED_RR); CHECK(probe.policy == SCHED_RR && probe.level == lo + (p - ecl::RealTimePriority1) * (hi - lo) / 10, "real-time-level", probe.level); } static const char* names[] = {"", "", "Background", "Low", "Normal", "High", "Critical", "RealTime1", "RealTime2", "RealTime3", "RealTime4"}; CHECK(probe.text.find(std::string("...") + names[p] + "\n") != std::string::npos, "diagnostics", probe.text); }
  else { bool told = false; std::thread t([&] { try { told = !ecl::set_priority(p); } catch (const StandardException&) { told = true; } }); t.join(); CHECK(told, "priority-refusal-unreported", (int)p); CHECK(probe.nice == base, "niceness", probe.nice); mon::obs("priorities refused"); }
  if (p < ecl::RealTimePriority1) { // a thread without privileges: refusals are reported
    std::thread t([&] { int before = getpriority(PRIO_PROCESS, 0); if (geteuid() == 0 && syscall(SYS_setresuid, -1, 65534, -1) == 0) { bool told = false; try { told = !ecl::set_priority(p); } catch (const StandardException&) { told = true; } int after = getpriority(PRIO_PROCESS, 0); if (nice[p] >= before) { if (told || after != nice[p]) mon::fail("priority-refused", mon::cat((int)p, " nice ", after)); } else if (after == before ? !told : told) mon::fail("priority-refusal-unreported", mon::cat((int)p)); syscall(SYS_setresuid, -1, 0, -1); mon::obs("priorities set without privileges"); } }); t.join(); }
  mon::obs("priorities observed"); mon::nontrivial(mon::mix(p, may)); mon::sample(mon::cat("priority ", (int)p, may ? "" : " not permitted"));
}
