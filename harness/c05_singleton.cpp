// C05: a singleton accessor yields one instance, constructed once, from every thread, from the first use on. Built with the race detector.
#include "mon.hpp"
#include <ecl/utilities/singleton.hpp>
#include <thread>
#include <atomic>
REQUIRE_OBS("concurrent first uses", 800);
REQUIRE_OBS("threads arriving while the instance was being built", 20);
static std::atomic<int> built[256], inside[256]; static std::atomic<long> overlapped;
template <int K> struct Plain { int data[8]; int self; Plain() { ++inside[K]; built[K]++; for (int i = 0; i < 8; ++i) { data[i] = K * 8 + i; if (i & 1) std::this_thread::yield(); } std::this_thread::sleep_for(std::chrono::microseconds(K % 3 * 150)); self = K; --inside[K]; } };
template <int K> struct Derived : ecl::Singleton<Derived<K>> { friend class ecl::Singleton<Derived<K>>; int v[4]; std::string s; protected: Derived() : s(20, 'a' + K % 26) { built[K]++; std::this_thread::sleep_for(std::chrono::microseconds(80)); for (int i = 0; i < 4; ++i) v[i] = K; } };
template <int K> static const void* use(bool& whole) {
  if (inside[K]) ++overlapped;
  if (K % 2) { Derived<K>& d = Derived<K>::instance(); whole = d.s == std::string(20, 'a' + K % 26); for (int x : d.v) whole &= x == K; return &d; }
  Plain<K>& p = ecl::Singleton<Plain<K>>::instance(); whole = p.self == K; for (int i = 0; i < 8; ++i) whole &= p.data[i] == K * 8 + i; return &p;
}
typedef const void* (*Fn)(bool&);
template <int... I> static const Fn* table(std::integer_sequence<int, I...>) { static const Fn t[] = {&use<I>...}; return t; }
GROUP(first_use, 240, 240) {
  static const Fn* fns = table(std::make_integer_sequence<int, 240>()); int k = mon::current_case; const int n = R.range(2, 8);
  std::atomic<int> ready(0); std::atomic<bool> go(false); std::vector<const void*> seen(n * 4); std::vector<int> whole(n, 1); std::vector<std::thread> ts;
  int lag = R.below(3);
  for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
    ++ready; while (!go.load()) {} for (int i = 0; i < lag * t * 40; ++i) { volatile int z = i; (void)z; }
    for (int j = 0; j < 4; ++j) { bool w = false; seen[t * 4 + j] = fns[k](w); if (!w) whole[t] = 0; } });
  while (ready < n) std::this_thread::yield();
  go = true; for (auto& t : ts) t.join();
  for (int t = 0; t < n; ++t) { CHECK(whole[t], "half-built-instance-seen", k); for (int j = 0; j < 4; ++j) CHECK(seen[t * 4 + j] == seen[0], "different-instances", "singleton ", k, " thread ", t); }
  CHECK(built[k] == 1, "constructed-times", built[k].load(), " times by ", n, " threads");
  mon::obs("concurrent first uses", n); mon::obs("threads arriving while the instance was being built", overlapped.exchange(0)); mon::nontrivial(k * 16 + n); mon::sample(mon::cat("singleton ", k, " raced by ", n, " threads"));
}
