// C25: semaphores and shared memory coordinate processes
#include "mon.hpp"
#include <unistd.h>
#include <ecl/ipc/semaphore.hpp>
#include <ecl/ipc/shared_memory.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dirent.h>
#include <dlfcn.h>
#include <poll.h>
#include <signal.h>
#include <atomic>
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
using mon::Rng;
using mon::cat;
static const long long G = 1000000000LL;
static long long clockNs(clockid_t c) { timespec t; clock_gettime(c, &t); return t.tv_sec * G + t.tv_nsec; }
static ecl::Duration dur(long long ns) { return ecl::Duration(time_t(ns / G), long(ns % G)); }
static std::string unique(Rng& r, const char* what) { static long n = 0; return cat("verif-", what, "-", getpid(), "-", ++n, "-", r.below(1000000)); }
static long openFds() { long n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static long mappingsOf(const std::string& part) { std::ifstream in("/proc/self/maps"); std::string l; long n = 0; while (std::getline(in, l)) if (l.find(part) != std::string::npos) ++n; return n; }
// whatever a case leaves behind (after a violation, say) goes with it
struct Names { std::vector<std::string> shm, sem; ~Names() { for (auto& n : shm) shm_unlink(("/" + n).c_str()); for (auto& n : sem) sem_unlink(("/" + n).c_str()); } };

#if defined(__SANITIZE_THREAD__)
#define VERIF_THREADS_ONLY 1
#endif

#ifndef VERIF_THREADS_ONLY
// deadlines asked of the system, without waiting for them
static bool capture = false; static timespec captured; static int captures = 0; static int captureErrno = ETIMEDOUT;
extern "C" int sem_timedwait(sem_t* s, const timespec* t) {
  static int (*real)(sem_t*, const timespec*) = (int (*)(sem_t*, const timespec*))dlsym(RTLD_NEXT, "sem_timedwait");
  if (!capture) return real(s, t);
  captured = *t; ++captures;
  if (sem_trywait(s) == 0) return 0;
  errno = (t->tv_nsec < 0 || t->tv_nsec >= G) ? EINVAL : captureErrno; return -1;
}
// the same by another name, told by the realtime clock as the other
extern "C" int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) {
  if (c == CLOCK_REALTIME || t->tv_nsec < 0 || t->tv_nsec >= G) return sem_timedwait(s, t);
  long long at = t->tv_sec * G + t->tv_nsec + clockNs(CLOCK_REALTIME) - clockNs(c); if (at < 0) at = 0; timespec x; x.tv_sec = at / G; x.tv_nsec = at % G; return sem_timedwait(s, &x);
}
#endif

// ---------------------------------------------------------------- threads and processes contending
struct Arena { std::atomic<int> inside, breaches, ready, go, done, refusedWhileFree; std::atomic<long> entries, signals, spurious; volatile long plain; };
static std::atomic<long>* signalCount = 0;
static void onSignal(int) { if (signalCount) ++*signalCount; }
static void contend(ecl::Semaphore& s, Arena& a, Rng r, int rounds) {
  a.ready++; while (!a.go) sched_yield();
  for (int k = 0; k < rounds; ++k) {
    bool got = false;
    switch (r.below(4)) {
      case 0: while (!got) { got = s.trylock(); if (!got) sched_yield(); } break;
      case 1: for (int q = 0; !got; ++q) { try { got = s.trylock(dur((long long)r.below(2000000))); } catch (const ecl::StandardException& e) { if (e.flag() != ecl::InterruptedError) a.spurious++; } } break;
      default: s.lock(); break;
    }
    if (++a.inside != 1) a.breaches++;
    long p = a.plain; if (r.chance(1, 4)) sched_yield(); a.plain = p + 1;
    if (r.chance(1, 30)) usleep(200);
    if (--a.inside != 0) a.breaches++;
    a.entries++;
    s.unlock();
  }
  a.done++;
}
GROUP_OPT(threads, 40, 800, "serial") { Rng& r = R;
  Names names; std::string name = unique(r, "sem"); names.sem.push_back(name);
  static Arena a; a.inside = a.breaches = a.ready = a.go = a.done = a.refusedWhileFree = 0; a.entries = a.spurious = 0; a.plain = 0;
  int n = int(r.range(2, 6)), rounds = int(r.range(50, 300)); bool own = r.flip();
  {
    std::vector<std::unique_ptr<ecl::Semaphore>> handles; for (int k = 0; k < (own ? n : 1); ++k) handles.emplace_back(new ecl::Semaphore(name));
    std::vector<std::thread> t;
    for (int k = 0; k < n; ++k) { uint64_t seed = r.next(); ecl::Semaphore* h = handles[own ? k : 0].get(); t.emplace_back([=] { contend(*h, a, Rng(seed), rounds); }); }
    while (a.ready < n) sched_yield();
    a.go = 1;
    for (auto& x : t) x.join();
  }
  CHECK(a.breaches == 0, "one holder at a time among threads", a.breaches.load());
  CHECK(a.plain == long(n) * rounds && a.entries == a.plain, "updates under the semaphore among threads", a.plain, long(n) * rounds);
  CHECK(a.spurious == 0, "timed tries raise errors", a.spurious.load());
  mon::obs("entries of threads", a.entries); mon::nontrivial(mon::mix(n, rounds));
}
REQUIRE_OBS("entries of threads", 2000);

#ifndef VERIF_THREADS_ONLY
GROUP_OPT(processes, 40, 800, "serial hang=60") { Rng& r = R;
  Names names; std::string name = unique(r, "sem"); names.sem.push_back(name);
  Arena* a = (Arena*)mmap(0, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (a) Arena(); a->inside = a->breaches = a->ready = a->go = a->done = 0; a->entries = a->signals = a->spurious = 0; a->plain = 0;
  int n = int(r.range(2, 5)), rounds = int(r.range(50, 300)); bool signals = r.flip();
  std::vector<pid_t> kids;
  for (int k = 0; k < n; ++k) {
    uint64_t seed = r.next();
    pid_t p = fork();
    if (p == 0) {
      signalCount = &a->signals;
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sigaction(SIGALRM, &sa, 0);   // no SA_RESTART
      {
        ecl::Semaphore s(name);
        if (signals) { itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 300; it.it_value = it.it_interval; setitimer(ITIMER_REAL, &it, 0); }
        contend(s, *a, Rng(seed), rounds);
        itimerval off; memset(&off, 0, sizeof off); setitimer(ITIMER_REAL, &off, 0);
        for (int q = 0; q < 40000 && a->done < n; ++q) usleep(500);   // names go with the first handle closed: wait for all
      }
      _exit(0);
    }
    kids.push_back(p);
  }
  long long t0 = clockNs(CLOCK_MONOTONIC); bool stuck = false;
  while (a->ready < n && !stuck) { usleep(200); stuck = clockNs(CLOCK_MONOTONIC) - t0 > 20 * G; }
  a->go = 1;
  while (a->done < n && !stuck) { usleep(200); stuck = clockNs(CLOCK_MONOTONIC) - t0 > 25 * G; }
  for (pid_t p : kids) { if (stuck) kill(p, SIGKILL); int st = 0; waitpid(p, &st, 0); if (!stuck) CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a contending process died", st); }
  CHECK(!stuck, "processes wait for ever for a semaphore", "entries", a->entries.load(), "of", long(n) * rounds);
  if (!stuck) {
    CHECK(a->breaches == 0, cat("one holder at a time among processes", signals ? " receiving signals" : ""), a->breaches.load());
    CHECK(a->plain == long(n) * rounds && a->entries == a->plain, cat("updates under the semaphore among processes", signals ? " receiving signals" : ""), a->plain, long(n) * rounds);
    CHECK(a->spurious == 0, "timed tries of processes raise errors", a->spurious.load());
  }
  mon::obs("entries of processes", a->entries); mon::obs("signals received while contending", a->signals);
  mon::nontrivial(mon::mix(n * 2 + signals, rounds));
  munmap(a, sizeof(Arena));
}
REQUIRE_OBS("entries of processes", 2000);
REQUIRE_OBS("signals received while contending", 100);

// ---------------------------------------------------------------- deadlines of timed tries
GROUP(deadlines, 400, 6000) { Rng& r = R;
  Names names; std::string name = unique(r, "sem"); names.sem.push_back(name);
  ecl::Semaphore s(name); capture = true;
  for (int k = 0; k < 400; ++k) {
    long long d; long long now = clockNs(CLOCK_REALTIME);
    switch (r.below(5)) {
      case 0: d = (long long)r.below(1000); break;
      case 1: d = (G - now % G) + (long long)r.range(-300, 300); if (d < 0) d = 0; break;          // up to a full second
      case 2: d = (2 * G - 1 - now % G) + (long long)r.range(-400, 300); break;
      case 3: d = (long long)r.below(10 * G); break;
      default: d = (1 + (long long)r.below(3000)) * G; break;
    }
    bool free = r.flip(); if (!free) s.lock();
    captures = 0; captureErrno = ETIMEDOUT; bool threw = false, got = false;
    long long before = clockNs(CLOCK_REALTIME);
    try { got = s.trylock(dur(d)); } catch (const ecl::StandardException&) { threw = true; }
    long long after = clockNs(CLOCK_REALTIME);
    CHECK(!threw && got == free, "timed try of a semaphore", free ? "free" : "held", d, threw, got);
    if (captures == 1 && after - before < G && after >= before) {
      long long at = captured.tv_sec * G + captured.tv_nsec;
      CHECK(captured.tv_nsec >= 0 && captured.tv_nsec < G, "deadline of a timed try is a valid time", captured.tv_nsec);
      CHECK(at - d >= before && at - d <= after, "deadline of a timed try", "asked", d, "deadline", at - before, "after the call, which took", after - before);
      mon::obs("deadlines seen");
    }
    if (got || !free) s.unlock();
    if (r.chance(1, 20)) {
      s.lock(); captureErrno = EINTR; threw = false; got = true;
      try { got = s.trylock(dur(d)); } catch (const ecl::StandardException& e) { threw = e.flag() == ecl::InterruptedError; got = false; }
#ifndef NDEBUG
      CHECK(threw, "an interrupted timed try says so", got);
#endif
      CHECK(!got, "an interrupted timed try does not have the lock", got);
      s.unlock();
    }
  }
  capture = false; mon::nontrivial(r.next());
}

// ---------------------------------------------------------------- histories over servant processes
struct Blob { int magic; int cells[300]; Blob() : magic(0x5eed) { for (int k = 0; k < 300; ++k) cells[k] = k * 7 + 1; } };
typedef ecl::SharedMemory<Blob> Shm;
struct Command { int op, slot, index; long long value; char name[80]; };
struct Reply { int ok; long long value, took; uint64_t sum; };
enum { SemOpen, SemClose, SemLock, SemTry, SemTimed, SemUnlock, ShmOpen, ShmClose, ShmWrite, ShmSum, ShmUnlink, Quit };
static uint64_t sumOf(const Blob& b) { uint64_t h = mon::mix(1, b.magic); for (int k = 0; k < 300; ++k) h = mon::mix(h, b.cells[k]); return h; }
[[noreturn]] static void serve(int fd) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sigaction(SIGUSR1, &sa, 0);
  std::unique_ptr<ecl::Semaphore> sem[3]; std::unique_ptr<Shm> shm[4];
  for (;;) {
    Command c; Reply p; memset(&p, 0, sizeof p);
    ssize_t got; do got = read(fd, &c, sizeof c); while (got < 0 && errno == EINTR);
    if (got != sizeof c || c.op == Quit) break;
    long long t0 = clockNs(CLOCK_REALTIME); p.ok = 1;
    try {
      switch (c.op) {
        case SemOpen: sem[c.slot].reset(new ecl::Semaphore(c.name)); break;
        case SemClose: sem[c.slot].reset(); break;
        case SemLock: sem[c.slot]->lock(); break;
        case SemTry: p.value = sem[c.slot]->trylock(); break;
        case SemTimed: p.value = sem[c.slot]->trylock(dur(c.value)); break;
        case SemUnlock: sem[c.slot]->unlock(); break;
        case ShmOpen: shm[c.slot].reset(new Shm(c.name)); p.sum = sumOf(*shm[c.slot]->data()); break;
        case ShmClose: shm[c.slot].reset(); break;
        case ShmWrite: shm[c.slot]->data()->cells[c.index] = int(c.value); p.sum = sumOf(*shm[c.slot]->data()); break;
        case ShmSum: p.sum = sumOf(*shm[c.slot]->data()); break;
        case ShmUnlink: shm[c.slot]->unlink(); break;
      }
    } catch (const ecl::StandardException& e) { p.ok = 0; }
    p.took = clockNs(CLOCK_REALTIME) - t0;
    if (write(fd, &p, sizeof p) != sizeof p) break;
  }
  for (auto& s : sem) s.reset();
  for (auto& s : shm) s.reset();
  _exit(0);
}
struct Servant {
  pid_t pid; int fd;
  explicit Servant(std::vector<int> close_) { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) mon::harness_error("socketpair"); pid = fork(); if (pid == 0) { for (int f : close_) close(f); close(sv[0]); serve(sv[1]); } close(sv[1]); fd = sv[0]; }
  void send(int op, int slot, const std::string& name = "", int index = 0, long long value = 0) { Command c; memset(&c, 0, sizeof c); c.op = op; c.slot = slot; c.index = index; c.value = value; strncpy(c.name, name.c_str(), sizeof c.name - 1); if (write(fd, &c, sizeof c) != (ssize_t)sizeof c) mon::harness_error("servant gone"); }
  bool answered(int ms) { pollfd p = {fd, POLLIN, 0}; return poll(&p, 1, ms) > 0; }
  // false: no answer (hanging or dead)
  bool receive(Reply& p, int ms = 15000) { if (!answered(ms)) return false; return read(fd, &p, sizeof p) == (ssize_t)sizeof p; }
  bool ask(Reply& p, int op, int slot, const std::string& name = "", int index = 0, long long value = 0) { send(op, slot, name, index, value); return receive(p); }
  ~Servant() { kill(pid, SIGKILL); close(fd); waitpid(pid, 0, 0); }
};
struct Dead {};
GROUP_OPT(histories, 350, 8000, "hang=60") { Rng& r = R;
  signal(SIGPIPE, SIG_IGN);
  Names names; const int NP = int(r.range(1, 3)), NS = 3;
  std::string semName[2] = {unique(r, "sem"), unique(r, "sem")}, shmName[3] = {unique(r, "shm"), unique(r, "shm"), unique(r, "shm")};
  for (auto& n : semName) names.sem.push_back(n);
  for (auto& n : shmName) names.shm.push_back(n);
  std::vector<std::unique_ptr<Servant>> sv; std::vector<int> fds;
  for (int k = 0; k < NP; ++k) { sv.emplace_back(new Servant(fds)); fds.push_back(sv.back()->fd); }
  struct Handle { int object = -1, name = -1; bool manager = false; };
  struct Object { Blob blob; };
  std::vector<std::unique_ptr<Object>> objects; int bound[3] = {-1, -1, -1}; Handle h[3][4];
  int holder[2] = {-1, -1}; uint64_t fp = NP; Reply p;
  auto ask = [&](int s, int op, int slot, const std::string& name = "", int index = 0, long long value = 0) {
    if (!sv[s]->ask(p, op, slot, name, index, value)) { mon::fail(cat("no answer to operation ", op), "a process hangs or died"); throw Dead(); }
    return p.ok;
  };
  try {
    for (int k = 0; k < NP; ++k) for (int q = 0; q < 2; ++q) CHECK(ask(k, SemOpen, q, semName[q]), "opening a semaphore", semName[q]);
    for (int step = 0, n = int(r.range(20, 70)); step < n; ++step) {
      int s = int(r.below(NP)), slot = int(r.below(4)), q = int(r.below(2)); Handle& z = h[s][slot];
      switch (r.below(10)) {
        case 0: case 1: case 2: {
          if (z.object >= 0) {   // close
            ask(s, ShmClose, slot); if (z.manager && bound[z.name] >= 0 && z.manager) { bound[z.name] = -1; } z = Handle(); mon::obs("shared memory closed");
          } else {
            int nm = int(r.below(NS)); bool fresh = bound[nm] < 0;
            CHECK(ask(s, ShmOpen, slot, shmName[nm]), "opening shared memory", shmName[nm]); if (!p.ok) throw Dead();
            if (fresh) { objects.emplace_back(new Object()); bound[nm] = int(objects.size()) - 1; }
            z.object = bound[nm]; z.name = nm; z.manager = fresh;
            CHECK(p.sum == sumOf(objects[z.object]->blob), fresh ? "new shared memory holds a default value" : "opened shared memory shows what others wrote", "process", s);
            struct stat st; std::string f = "/dev/shm/" + shmName[nm];
            if (stat(f.c_str(), &st) == 0) CHECK(st.st_size >= (off_t)sizeof(Blob), "size of shared memory", st.st_size);
            mon::obs(fresh ? "shared memory created" : "shared memory joined");
          }
          break;
        }
        case 3: case 4: if (z.object >= 0) {
          int i = int(r.below(300)); if (r.chance(1, 4)) i = 299; int v = r.integer<int>();
          objects[z.object]->blob.cells[i] = v; ask(s, ShmWrite, slot, "", i, v);
          int seen = 0;
          for (int a = 0; a < NP; ++a) for (int b = 0; b < 4; ++b) if (h[a][b].object >= 0) {
            ask(a, ShmSum, b); ++seen;
            CHECK(p.sum == sumOf(objects[h[a][b].object]->blob), h[a][b].object == z.object ? "a write shows through every handle of the memory" : "a write changes no other memory", "process", a, "handle", b);
          }
          mon::obs("memories compared", seen);
        } break;
        case 5: if (z.object >= 0 && z.manager && r.flip()) { ask(s, ShmUnlink, slot); bound[z.name] = -1; z.manager = false; mon::obs("shared memory unlinked"); } break;
        case 6: { ask(s, SemTry, q); CHECK((p.value != 0) == (holder[q] < 0), "try of a semaphore", p.value ? "got it while held" : "refused while free"); if (p.value) holder[q] = s; break; }
        case 7: {
          long long d = (long long)r.below(4000000); bool free = holder[q] < 0;
          CHECK(ask(s, SemTimed, q, "", 0, d), "timed try raised an error", d);
          CHECK((p.value != 0) == free, "timed try of a semaphore", p.value ? "got it while held" : "refused while free");
          if (!free) { CHECK(p.took >= d - 100000, "timed try gives up early", "asked", d, "took", p.took); mon::obs("timed tries that ran out"); }
          if (p.value) holder[q] = s;
          break;
        }
        case 8: if (holder[q] >= 0) { ask(r.chance(1, 3) ? int(r.below(NP)) : holder[q], SemUnlock, q); holder[q] = -1; } else if (r.chance(1, 3)) { ask(s, SemUnlock, q); mon::obs("free semaphores unlocked"); } break;
        default:
          if (holder[q] < 0) { ask(s, SemLock, q); holder[q] = s; }
          else if (NP > 1 && r.flip()) {   // wait for it, be signalled, be let in by the holder
            int w = (holder[q] + 1) % NP; bool timed = r.flip();
            sv[w]->send(timed ? SemTimed : SemLock, q, "", 0, 10 * G);
            bool early = sv[w]->answered(2);
            if (!early && !timed && r.flip()) { kill(sv[w]->pid, SIGUSR1); early = sv[w]->answered(2); mon::obs("waiting lockers signalled"); }
            CHECK(!early, "a locker is let into a held semaphore", timed ? "timed try" : "lock");
            ask(holder[q], SemUnlock, q);
            if (!sv[w]->receive(p)) { mon::fail("a waiting locker is never let in", timed ? "timed try" : "lock"); throw Dead(); }
            if (timed) { CHECK(p.ok && p.value, "a timed try is let in when the holder leaves", p.ok, p.took); }
            holder[q] = w; mon::obs("waiting lockers let in");
          }
          break;
      }
      for (int k = 0; k < NS; ++k) { struct stat st; bool there = stat(("/dev/shm/" + shmName[k]).c_str(), &st) == 0; CHECK(there == (bound[k] >= 0), "shared memory is there until its creator removes it", there ? "still there" : "gone", "after step", step); }
      fp = mon::mix(fp, mon::mix(s * 4 + slot, uint64_t(bound[0] + 1) * 64 + uint64_t(holder[0] + 1) * 8 + uint64_t(holder[1] + 1)));
    }
    for (int q = 0; q < 2; ++q) if (holder[q] >= 0) ask(holder[q], SemUnlock, q);
    for (int k = 0; k < NP; ++k) sv[k]->send(Quit, 0);
    for (int k = 0; k < NP; ++k) { char c; if (sv[k]->answered(15000)) CHECK(read(sv[k]->fd, &c, 1) == 0, "a process ends cleanly", ""); else mon::fail("a process ends cleanly", "hangs"); int st = 0; waitpid(sv[k]->pid, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a process ends cleanly", "status", st); }
    for (int k = 0; k < NS; ++k) { struct stat st; CHECK(stat(("/dev/shm/" + shmName[k]).c_str(), &st) != 0, "nothing is left of shared memory after its last user", shmName[k]); }
    for (int k = 0; k < 2; ++k) { struct stat st; CHECK(stat(("/dev/shm/sem." + semName[k]).c_str(), &st) != 0, "nothing is left of a semaphore after its last user", semName[k]); }
  } catch (const Dead&) {}
  mon::nontrivial(fp); mon::obs("histories");
}
REQUIRE_OBS("memories compared", 1000);
REQUIRE_OBS("shared memory joined", 300);
REQUIRE_OBS("waiting lockers let in", 100);
REQUIRE_OBS("waiting lockers signalled", 20);
REQUIRE_OBS("timed tries that ran out", 100);
REQUIRE_OBS("free semaphores unlocked", 30);

// ---------------------------------------------------------------- one process: sizes, leftovers, refusals, faults
template <int N> struct Sized { unsigned char b[N]; };
template <int N> static void sized(Rng& r, Names& names) {
  std::string name = unique(r, "size"); names.shm.push_back(name);
  long fds = openFds();
  {
    ecl::SharedMemory<Sized<N>> a(name), b(name);
    unsigned char *x = a.data()->b, *y = b.data()->b; int bad = 0;
    for (int k = 0; k < N; ++k) bad += x[k] != 0;
    CHECK(bad == 0, "new memory is value initialised", N, bad);
    for (int k = 0; k < N; ++k) x[k] = (unsigned char)(k * 31 + 7);
    for (int k = 0; k < N; ++k) bad += y[k] != (unsigned char)(k * 31 + 7);
    CHECK(bad == 0, "all bytes of the type are shared", N, bad);
    CHECK(openFds() == fds, "open shared memory keeps no descriptor", openFds(), fds);
  }
  CHECK(openFds() == fds && mappingsOf(name) == 0, "closed shared memory leaves nothing behind", "descriptors", openFds() - fds, "mappings", mappingsOf(name));
  mon::obs("sizes");
}
static std::atomic<int> churning(0);
GROUP(single, 250, 5000) { Rng& r = R;
  Names names;
  switch (r.below(5)) { case 0: sized<1>(r, names); break; case 1: sized<4096>(r, names); break; case 2: sized<4097>(r, names); break; case 3: sized<100000>(r, names); break; default: sized<333>(r, names); break; }
  // names nothing can have
  std::vector<std::string> bad = {"a/b", std::string(300, 'x'), "", "no-such-dir/x"};
  std::string n = r.pick(bad); long fds = openFds(); bool threw = false;
  try { ecl::SharedMemory<Blob> s(n); } catch (const ecl::StandardException&) { threw = true; }
  CHECK(threw, "shared memory of an impossible name is refused", mon::quote(n.substr(0, 20)));
#ifndef NDEBUG
  threw = false;
  try { ecl::Semaphore s(n); } catch (const ecl::StandardException&) { threw = true; }
  CHECK(threw, "a semaphore of an impossible name is refused", mon::quote(n.substr(0, 20)));
#endif
  CHECK(openFds() == fds, "refusals leave no descriptor behind", openFds(), fds);
  // without permission
  if (r.chance(1, 10)) {
    std::string name = unique(r, "perm"); names.shm.push_back(name); names.sem.push_back(name);
    ecl::SharedMemory<Blob> mine(name); ecl::Semaphore sem(name); chmod(("/dev/shm/sem." + name).c_str(), 0600);
    pid_t p = fork();
    if (p == 0) {
      if (setgid(65534) != 0 || setuid(65534) != 0) _exit(3);
      int code = 0;
      try { ecl::SharedMemory<Blob> theirs(name); code |= 1; } catch (const ecl::StandardException& e) { if (e.flag() != ecl::PermissionsError) code |= 4; }
#ifndef NDEBUG
      try { ecl::Semaphore theirs(name); code |= 8; } catch (const ecl::StandardException& e) { if (e.flag() != ecl::PermissionsError) code |= 16; }
#endif
      _exit(code);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) != 3) { CHECK(WEXITSTATUS(st) == 0, "opening without permission is refused as such", WEXITSTATUS(st)); mon::obs("opens without permission"); }
    CHECK(mine.data()->magic == 0x5eed && access(("/dev/shm/" + name).c_str(), F_OK) == 0, "a refused open leaves the memory alone", "");
  }
  mon::nontrivial(r.next());
}
// hundreds of names at a time, and hundreds of handles of one name
GROUP_OPT(hundreds, 2, 10, "hang=120") { Rng& r = R;
  Names names; int n = int(r.range(257, 330)); std::vector<std::string> sn, mn; std::vector<std::unique_ptr<ecl::Semaphore>> s; std::vector<std::unique_ptr<ecl::SharedMemory<Sized<64>>>> m, again;
  for (int i = 0; i < n; ++i) { sn.push_back(unique(r, "many")); names.sem.push_back(sn.back()); mn.push_back(unique(r, "many")); names.shm.push_back(mn.back()); s.emplace_back(new ecl::Semaphore(sn[i])); m.emplace_back(new ecl::SharedMemory<Sized<64>>(mn[i])); for (int k = 0; k < 64; ++k) m[i]->data()->b[k] = (unsigned char)(i * 7 + k + (i >> 8)); }
  for (int i = 0; i < n; ++i) { CHECK(s[i]->trylock(), "one of hundreds of names is free", i, "of", n); CHECK(!s[i]->trylock(), "one of hundreds of names is held", i, "of", n); }
  for (int i = 0; i < n; ++i) { again.emplace_back(new ecl::SharedMemory<Sized<64>>(mn[i])); for (int k = 0; k < 64; ++k) CHECK(again[i]->data()->b[k] == (unsigned char)(i * 7 + k + (i >> 8)), "one of hundreds of memories", i, "of", n, "byte", k); }
  for (int i = 0; i < n; i += 2) s[i]->unlock();
  for (int i = 0; i < n; ++i) CHECK(s[i]->trylock() == (i % 2 == 0), "every other of hundreds of names was freed", i, "of", n);
  { std::vector<std::unique_ptr<ecl::SharedMemory<Sized<64>>>> h; for (int i = 0; i < n; ++i) { h.emplace_back(new ecl::SharedMemory<Sized<64>>(mn[0])); h.back()->data()->b[i % 64] = (unsigned char)(i + 1); CHECK(m[0]->data()->b[i % 64] == (unsigned char)(i + 1), "one of hundreds of handles of a memory", i, "of", n); } }
  again.clear(); m.clear(); for (int i = 0; i < n; ++i) CHECK(access(("/dev/shm/" + mn[i]).c_str(), F_OK) != 0, "nothing is left of hundreds of memories", i, "of", n);
  { std::string name = unique(r, "crowd"); names.sem.push_back(name); ecl::Semaphore one(name); std::vector<std::thread> t; std::atomic<int> inside(0), breaches(0); volatile long plain = 0; int each = 3;
    for (int i = 0; i < n; ++i) t.emplace_back([&] { for (int k = 0; k < each; ++k) { one.lock(); if (++inside != 1) ++breaches; plain = plain + 1; --inside; one.unlock(); } }); for (auto& x : t) x.join();
    CHECK(breaches == 0 && plain == long(n) * each, "hundreds of threads at one semaphore", breaches.load(), plain, "of", long(n) * each); }
  mon::obs("names held together", n); mon::nontrivial(r.next());
}
REQUIRE_OBS("names held together", 500);
GROUP_OPT(churn, 12, 200, "hang=60") { Rng& r = R;
  // processes opening and closing one name all the time: every open succeeds
  Names names; std::string name = unique(r, "churn"); names.shm.push_back(name); std::vector<pid_t> kids;
  for (int k = 0; k < 3; ++k) { pid_t p = fork(); if (p == 0) { int bad = 0; for (int q = 0; q < 1500; ++q) { try { ecl::SharedMemory<Sized<64>> s(name); volatile unsigned char c = s.data()->b[63]; (void)c; } catch (const ecl::StandardException&) { ++bad; } } _exit(bad > 100 ? 100 : bad); } kids.push_back(p); }
  for (pid_t p : kids) { int st = 0; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "opening a name others open and close", "status", st); }
  CHECK(access(("/dev/shm/" + name).c_str(), F_OK) != 0, "nothing is left after coming and going", name);
  mon::obs("opens in a churn", 4500); mon::nontrivial(r.next());
}
#if !defined(__SANITIZE_ADDRESS__)
static int failMap = 0, failTruncate = 0;
extern "C" void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t o) __THROW;
extern "C" void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t o) __THROW {
  if (failMap && (flags & MAP_SHARED) && fd >= 0) { errno = failMap; return MAP_FAILED; }
  return (void*)syscall(SYS_mmap, a, n, prot, flags, fd, o);
}
extern "C" int ftruncate(int fd, off_t n) __THROW { if (failTruncate) { errno = failTruncate; return -1; } return int(syscall(SYS_ftruncate, fd, n)); }
GROUP(faults, 200, 3000) { Rng& r = R;
  Names names; std::string name = unique(r, "fault"); names.shm.push_back(name);
  bool existing = r.flip(); std::unique_ptr<Shm> other; if (existing) { other.reset(new Shm(name)); other->data()->cells[5] = 77; }
  long fds = openFds(), maps = mappingsOf(name); bool threw = false; ecl::ErrorFlag flag = ecl::NoError; bool map = r.flip();
  if (map) failMap = ENOMEM; else failTruncate = EINVAL;
  try { Shm s(name); } catch (const ecl::StandardException& e) { threw = true; flag = e.flag(); }
  bool injected = true; failMap = failTruncate = 0;
  if (existing && !map && !threw) injected = false;   // memory that is there already need not be grown
  if (injected) {
    CHECK(threw, cat("failing to ", map ? "map" : "size", " shared memory is reported"), existing);
    if (map) CHECK(flag == ecl::MemoryError, "the failure reported is the one that happened", int(flag));
    CHECK(openFds() == fds, "a failed open leaves no descriptor behind", openFds(), fds);
    CHECK(mappingsOf(name) == maps, "a failed open leaves no mapping behind", mappingsOf(name), maps);
  }
  CHECK((access(("/dev/shm/" + name).c_str(), F_OK) == 0) == existing, existing ? "a failed open leaves the memory of others in place" : "a failed creation leaves nothing behind", "");
  { Shm again(name); CHECK(again.data()->cells[5] == (existing ? 77 : 36), "shared memory can be opened after a failure", again.data()->cells[5]); }
  mon::obs("failed opens"); mon::nontrivial(r.next());
}
#endif
#endif
