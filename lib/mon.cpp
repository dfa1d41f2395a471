#include "mon.hpp"
#include <atomic>
#include <mutex>
#include <map>
#include <set>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <cstdlib>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#define MON_HOOKS 1
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" void AnnotateIgnoreReadsBegin(const char*, int) __attribute__((weak));
#endif

namespace mon {
uint64_t seed = 1; bool thorough = false; std::string current_group; uint64_t current_case = 0;
static FILE* out = 0;
struct State { volatile uint64_t idx; volatile uint64_t beat; char note[3000]; };
static State dummy; static State* state = &dummy;
static std::mutex& mx() { static std::mutex* m = new std::mutex; return *m; }
static std::map<std::string, uint64_t>& counters() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
static std::map<std::string, int>& fails() { static auto* m = new std::map<std::string, int>; return *m; }
static std::set<uint64_t>& prints() { static auto* m = new std::set<uint64_t>; return *m; }
static std::vector<std::string>& samples() { static auto* m = new std::vector<std::string>; return *m; }
static std::vector<Group*>& groups() { static auto* g = new std::vector<Group*>; return *g; }
struct Req { std::string what; uint64_t q, t; };
static std::vector<Req>& reqs() { static auto* g = new std::vector<Req>; return *g; }
static std::atomic<long> live(0);
static pid_t main_pid = 0;

Group::Group(const char* n, uint64_t q, uint64_t t, const char* o, void (*f)(Rng&)) : name(n), quick(q), thorough(t), opt(o), fn(f) { groups().push_back(this); }
void require_obs(const char* w, uint64_t q, uint64_t t) { reqs().push_back(Req{w, q, t ? t : q}); }

std::string quote(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
void fail(const std::string& aspect, const std::string& detail) {
  std::lock_guard<std::mutex> l(mx());
  std::string key = current_group + "/" + aspect;
  if (++fails()[key] > 3) return;
  fprintf(out, "V {\"key\":%s,\"case\":%llu,\"detail\":%s}\n", quote(key).c_str(), (unsigned long long)current_case,
          quote(detail.size() > 2000 ? detail.substr(0, 2000) + "..." : detail).c_str());
  fflush(out);
}
void obs(const char* w, uint64_t n) { std::lock_guard<std::mutex> l(mx()); counters()[w] += n; }
static uint64_t case_print = 0; static bool case_has_print = false; // one fingerprint per case, whatever it was combined from
void nontrivial(uint64_t f) { std::lock_guard<std::mutex> l(mx()); case_print = mix(case_print, mix(f, hash(current_group))); case_has_print = true; }
void sample(const std::string& s) {
  std::lock_guard<std::mutex> l(mx());
  if (samples().size() < 2) samples().push_back(current_group + ": " + (s.size() > 400 ? s.substr(0, 400) + "..." : s));
}
void note(const std::string& s) {
  size_t n = s.size() < sizeof(state->note) - 1 ? s.size() : sizeof(state->note) - 1;
  memcpy(state->note, s.data(), n); state->note[n] = 0; state->beat = state->beat + 1;
}
void inconclusive(const std::string& why) {
  std::lock_guard<std::mutex> l(mx());
  counters()["inconclusive"]++;
  fprintf(out, "I {\"case\":%llu,\"group\":%s,\"why\":%s}\n", (unsigned long long)current_case, quote(current_group).c_str(), quote(why).c_str()); fflush(out);
}
void harness_error(const std::string& why) { fprintf(stderr, "HARNESS-ERROR: %s\n", why.c_str()); fflush(stderr); _exit(3); }
uint64_t hash(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
long live_blocks() { return live.load(); }
std::string scratch() {
  const char* d = getenv("MON_SCRATCH"); if (!d) harness_error("MON_SCRATCH not set");
  return d;
}
static void on_malloc(const volatile void*, size_t) { live.fetch_add(1, std::memory_order_relaxed); }
static void on_free(const volatile void* p) { if (p) live.fetch_sub(1, std::memory_order_relaxed); }
static void finish() {
  for (auto& c : counters()) fprintf(out, "C {\"name\":%s,\"n\":%llu}\n", quote(c.first).c_str(), (unsigned long long)c.second);
  for (auto& s : samples()) fprintf(out, "S %s\n", quote(s).c_str());
  for (auto p : prints()) fprintf(out, "P %llx\n", (unsigned long long)p);
}
}
using namespace mon;
int main(int argc, char** argv) {
  std::string group, outf, statef; uint64_t from = 0, to = 0; bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--list") list = true; else if (a == "--group") group = val(); else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
    else if (a == "--to") to = strtoull(val().c_str(), 0, 10); else if (a == "--seed") mon::seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--thorough") mon::thorough = true; else if (a == "--out") outf = val(); else if (a == "--state") statef = val();
  }
  if (list) {
    for (auto* g : groups()) printf("G %s %llu %llu %s\n", g->name, (unsigned long long)g->quick, (unsigned long long)g->thorough, g->opt);
    for (auto& r : reqs()) printf("R %llu %llu %s\n", (unsigned long long)r.q, (unsigned long long)r.t, r.what.c_str());
    return 0;
  }
  main_pid = getpid();
  out = outf.empty() ? stdout : fopen(outf.c_str(), "a");
  if (!out) harness_error("cannot open out file");
  if (!statef.empty()) {
    int fd = open(statef.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) harness_error("state file");
    state = (State*)mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    if (state == MAP_FAILED) harness_error("state mmap");
  }
#ifdef MON_HOOKS
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
  Group* g = 0; for (auto* x : groups()) if (group == x->name) g = x;
  if (!g) harness_error("no such group " + group);
  mon::current_group = group;
  for (uint64_t i = from; i < to; ++i) {
    mon::current_case = i; state->note[0] = 0; state->idx = i; state->beat = state->beat + 1;
    Rng r(mix(mix(mon::seed * 0x9E3779B97F4A7C15ULL, hash(group)), i * 0xD1342543DE82EF95ULL + 1));
    r.next();
    try { g->fn(r); }
    catch (std::exception& e) {
      int st = 0; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
      std::string tn = st == 0 ? n : typeid(e).name(); free(n);
      mon::fail("unexpected-exception:" + tn, std::string(e.what()) + " | " + state->note);
    }
    catch (...) { mon::fail("unexpected-exception", state->note); }
    if (getpid() != main_pid) _exit(99);
    if (case_has_print) prints().insert(case_print); case_print = 0; case_has_print = false;
  }
  finish();
  fprintf(out, "E %llu\n", (unsigned long long)(to - from)); fflush(out);
  fflush(stdout); fflush(stderr);
  _exit(0);
}
#if defined(__SANITIZE_THREAD__)
// gcc's thread sanitizer knows nothing of this way to lock: show it the one it knows
#include <pthread.h>
#include <time.h>
extern "C" __attribute__((weak)) int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) noexcept {
  if (c == CLOCK_REALTIME || t->tv_nsec < 0 || t->tv_nsec >= 1000000000L) return pthread_mutex_timedlock(m, t);
  struct timespec a, b; clock_gettime(c, &a); clock_gettime(CLOCK_REALTIME, &b); struct timespec x = {t->tv_sec - a.tv_sec + b.tv_sec, t->tv_nsec - a.tv_nsec + b.tv_nsec};
  while (x.tv_nsec < 0) { x.tv_nsec += 1000000000L; --x.tv_sec; } while (x.tv_nsec >= 1000000000L) { x.tv_nsec -= 1000000000L; ++x.tv_sec; } if (x.tv_sec < 0) x.tv_sec = 0;
  return pthread_mutex_timedlock(m, &x);
}
#endif
