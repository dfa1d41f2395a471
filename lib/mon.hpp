// Monitoring library: case driver, seeded randomness, verdict recording, observation counters.
// Every harness is a set of GROUPs; run.py drives (group, case range) shards and watches them.
#ifndef VERIF_MON_HPP_
#define VERIF_MON_HPP_
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <type_traits>
#include <limits>

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  bool flip() { return next() & 1; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <class C> auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }
  // any value of an integral type, biased to extremes, small numbers and powers of two
  template <class I> I integer() {
    typedef std::numeric_limits<I> L;
    switch (below(8)) {
      case 0: return L::max();
      case 1: return L::min();
      case 2: return (I)(L::max() - (I)below(3));
      case 3: return (I)(L::min() + (I)below(3));
      case 4: return (I)((I)below(21) - (L::is_signed ? 10 : 0));
      case 5: { uint64_t v = (uint64_t)1 << below(sizeof(I) * 8); return (I)(flip() ? v : v - 1); }
      default: return (I)next();
    }
  }
};

extern uint64_t seed;
extern bool thorough;
extern std::string current_group;
extern uint64_t current_case;

std::string cat_();
template <class T> inline void put_(std::ostringstream& o, const T& t) { o << t; }
template <> inline void put_<float>(std::ostringstream& o, const float& t) { o.precision(9); o << t; }
template <> inline void put_<double>(std::ostringstream& o, const double& t) { o.precision(17); o << t; }
template <> inline void put_<long double>(std::ostringstream& o, const long double& t) { o.precision(21); o << t; }
inline void cat__(std::ostringstream&) {}
template <class T, class... R> inline void cat__(std::ostringstream& o, const T& t, const R&... r) { put_(o, t); cat__(o, r...); }
template <class... R> inline std::string cat(const R&... r) { std::ostringstream o; cat__(o, r...); return o.str(); }
std::string quote(const std::string& s);

void fail(const std::string& aspect, const std::string& detail);     // record a violation (thread safe)
void obs(const char* what, uint64_t n = 1);                          // count an observation (thread safe)
void nontrivial(uint64_t fingerprint);                               // this case exercised something; its identity
void sample(const std::string& s);                                   // candidate sample for the evidence
void note(const std::string& s);                                     // what is being done now (reported on a crash)
void inconclusive(const std::string& why);                           // could not decide this case
[[noreturn]] void harness_error(const std::string& why);             // the machinery itself is broken
void require_obs(const char* what, uint64_t min_quick, uint64_t min_thorough = 0); // coverage floor over the whole run

uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hash(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t a, uint64_t b) { return (a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdULL; }

// live heap blocks (needs a sanitizer build; counts malloc/new calls minus frees)
long live_blocks();

std::string scratch();    // a private scratch directory of this process (removed by run.py)

struct Group {
  const char* name; uint64_t quick, thorough; const char* opt; void (*fn)(Rng&);
  Group(const char* n, uint64_t q, uint64_t t, const char* o, void (*f)(Rng&));
};
}
// opt: "serial" = not beside other shards; "hang=SECONDS" = per-case watchdog
#define GROUP_OPT(id, quickn, thoroughn, opt) \
  static void group_fn_##id(mon::Rng& R); \
  static mon::Group group_##id(#id, quickn, thoroughn, opt, &group_fn_##id); \
  static void group_fn_##id(mon::Rng& R)
#define GROUP(id, quickn, thoroughn) GROUP_OPT(id, quickn, thoroughn, "")
#define CHECK(cond, aspect, ...) do { if (!(cond)) mon::fail(aspect, mon::cat(__VA_ARGS__)); } while (0)
// as CHECK, to be used in a condition: whether it held
#define EXPECT(cond, aspect, ...) ((cond) ? true : (mon::fail(aspect, mon::cat(__VA_ARGS__)), false))
#define MON_CAT_(a, b) a##b
#define MON_CAT(a, b) MON_CAT_(a, b)
// REQUIRE_OBS(counter, floor at quick [, floor at thorough]): the run is inconclusive below that floor
#define REQUIRE_OBS(...) static const bool MON_CAT(mon_req_, __COUNTER__) = (mon::require_obs(__VA_ARGS__), true)
#endif
