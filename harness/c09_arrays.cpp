// C09: arrays hold what was put in them and never reach outside their storage.
// Built twice: plain and with ECL_MEM_CHECK_ARRAYS (guarded arrays).
#include "mon.hpp"
#include "array_values.hpp"
#include <ecl/containers/array.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <memory>
#include <list>
REQUIRE_OBS("operations audited", 20000); REQUIRE_OBS("refused accesses", 5000); REQUIRE_OBS("refused initialisations", 500); REQUIRE_OBS("self assignments", 100); REQUIRE_OBS("saved blueprints applied", 100); REQUIRE_OBS("arrays of constructed elements destroyed", 100);
#ifdef ECL_MEM_CHECK_ARRAYS
REQUIRE_OBS("overruns made and reported", 500); REQUIRE_OBS("guards found intact", 20000);
#endif
using ecl::Array; using ecl::StandardException;
template <class F> static bool refused(F f) { try { f(); } catch (const StandardException& e) { return e.flag() == ecl::OutOfRangeError; } return false; }

// contents known to the reference: value or "not yet written"
template <class T> struct Cell { T v; bool known; };
template <class T> struct Model { std::vector<T> v; std::vector<char> known; bool unallocated;
  Model() : unallocated(true) {} static Model none() { Model m; m.unallocated = false; return m; } void size(size_t n) { v.assign(n, T()); known.assign(n, ElementTraits<T>::constructed ? 1 : 0); unallocated = false; } void set(size_t i, const T& x) { v[i] = x; known[i] = 1; } size_t n() const { return v.size(); } };

template <class A> static bool guards_intact(A& a) {
#ifdef ECL_MEM_CHECK_ARRAYS
  mon::obs("guards found intact"); return !a.bufferUnderRun() && !a.bufferOverRun() && !a.bufferOverFlow();
#else
  (void)a; return true;
#endif
}
// every way of reading must show the same elements
template <class T, class A> static void audit(A& a, const Model<T>& m, const std::string& trace) {
  const A& c = a; size_t n = m.n(); mon::obs("operations audited");
  CHECK(a.size() == n && c.size() == n, "size", trace, ": size ", a.size(), " want ", n); if (a.size() != n) return;
  CHECK(guards_intact(a), "guard-false-alarm", trace);
  if (m.unallocated) {
    CHECK(refused([&] { (void)a.begin(); }) && refused([&] { (void)c.end(); }) && refused([&] { (void)a.front(); }) && refused([&] { (void)c.back(); }) && refused([&] { (void)a.rbegin(); }) && refused([&] { (void)c.rend(); }), "unallocated", trace, ": begin/end/front/back/rbegin/rend of an array without storage");
  } else if (n) { // an array of no elements may or may not have storage
    size_t i = 0; for (typename A::iterator it = a.begin(); it != a.end() && i <= n; ++it, ++i) { if (i < n && m.known[i]) { CHECK(same(*it, m.v[i]), "iterator", trace, ": element ", i, " is ", show(*it), " want ", show(m.v[i])); CHECK(&*it == &a[i], "iterator-address", trace, ": element ", i); } }
    CHECK(i == n, "iterator-count", trace, ": ", i, " steps for ", n);
    i = 0; for (typename A::const_iterator it = c.begin(); it != c.end() && i <= n; ++it, ++i) if (i < n && m.known[i]) CHECK(same(*it, m.v[i]), "const-iterator", trace, ": element ", i); CHECK(i == n, "const-iterator-count", trace);
    i = 0; for (typename A::reverse_iterator it = a.rbegin(); it != a.rend() && i <= n; ++it, ++i) if (i < n && m.known[n - 1 - i]) CHECK(same(*it, m.v[n - 1 - i]), "reverse-iterator", trace, ": step ", i); CHECK(i == n, "reverse-iterator-count", trace);
    i = 0; for (typename A::const_reverse_iterator it = c.rbegin(); it != c.rend() && i <= n; ++it, ++i) if (i < n && m.known[n - 1 - i]) CHECK(same(*it, m.v[n - 1 - i]), "const-reverse-iterator", trace, ": step ", i); CHECK(i == n, "const-reverse-iterator-count", trace);
    CHECK(&a.front() == &a[0] && &c.front() == &c[0], "front", trace); CHECK(&a.back() == &a[n - 1] && &c.back() == &c[n - 1], "back", trace);
  }
  for (size_t i = 0; i < n; ++i) if (m.known[i]) { CHECK(same(c[i], m.v[i]) && same(a[i], m.v[i]), "index", trace, ": element ", i, " is ", show(c[i]), " want ", show(m.v[i])); CHECK(same(c.at(i), m.v[i]) && &a.at(i) == &a[i], "at", trace, ": element ", i); }
}
template <class A> static void refusals(A& a, mon::Rng& R, const std::string& trace) {
  const A& c = a; size_t n = a.size(); size_t far[] = {n, n + 1, n + 2 + R.below(100), (size_t)-1, (size_t)-1 - R.below(8), (size_t)1 << 32, ((size_t)1 << 32) + (n ? R.below(n) : 0), (size_t)INT32_MAX, (size_t)UINT32_MAX, (size_t)R.next() | ((size_t)1 << 40), ((size_t)1 << 16) + (n ? R.below(n) : 0), ((size_t)1 << 8) + (n ? R.below(n) : 0)};
  size_t i = far[R.below(12)]; if (i < n) i = n;
  CHECK(refused([&] { (void)a.at(i); }), "at-outside", trace, ": at(", i, ") of ", n, " elements"); CHECK(refused([&] { (void)c.at(i); }), "const-at-outside", trace, ": at(", i, ") of ", n, " elements");
  CHECK(refused([&] { (void)a[i]; }), "index-outside", trace, ": [", i, "] of ", n, " elements"); CHECK(refused([&] { (void)c[i]; }), "const-index-outside", trace, ": [", i, "] of ", n, " elements"); mon::obs("refused accesses", 4);
}
// comma initialisation with k values; returns false when it had to be refused
template <class T, class A> static void comma(A& a, Model<T>& m, mon::Rng& R, std::string& trace, bool may_overfill) {
  size_t n = m.n(), k; switch (R.below(4)) { case 0: k = n ? n : 1; break; case 1: k = n ? 1 + R.below(n) : 1; break; case 2: k = may_overfill ? n + 1 + R.below(3) : (n ? n : 1); break; default: k = 1; }
  std::vector<T> v; for (size_t i = 0; i < k; ++i) v.push_back(ElementTraits<T>::draw(R)); trace += mon::cat(" <<", k, "/", n); mon::note(trace); bool thrown = false; size_t done = 0;
  try { auto init = (a << v[0]); done = 1; for (size_t i = 1; i < k; ++i) { init, v[i]; done = i + 1; } } catch (const StandardException& e) { thrown = true; CHECK(e.flag() == ecl::OutOfRangeError, "overfill-flag", trace, ": flag ", (int)e.flag()); }
  CHECK(thrown == (k > n), "overfill", trace, thrown ? ": refused" : ": not refused"); CHECK(done == std::min(k, n), "overfill-point", trace, ": took ", done); for (size_t i = 0; i < std::min(k, n); ++i) m.set(i, v[i]); if (k > n) mon::obs("refused initialisations");
}
template <class T, class A> static void write_some(A& a, Model<T>& m, mon::Rng& R, std::string& trace) {
  size_t n = m.n(); if (!n) return; size_t i = R.below(n); T x = ElementTraits<T>::draw(R); int how = R.below(7); trace += mon::cat(" w", how, "@", i); mon::note(trace);
  switch (how) { case 0: a[i] = x; m.set(i, x); break; case 1: a.at(i) = x; m.set(i, x); break; case 2: *(a.begin() + i) = x; m.set(i, x); break; case 3: *(a.rbegin() + i) = x; m.set(n - 1 - i, x); break; case 4: a.front() = x; m.set(0, x); break; case 5: a.back() = x; m.set(n - 1, x); break; default: std::fill(a.begin(), a.end(), x); for (size_t j = 0; j < n; ++j) m.set(j, x); }
}
template <class T, class A> static void stream(const A& a, const Model<T>& m, const std::string& trace) {
  for (char k : m.known) if (!k) return;
  std::ostringstream o, w; o << a; w << "[ "; for (const T& x : m.v) w << x << " "; w << "]"; CHECK(o.str() == w.str(), "stream", trace, ": ", mon::quote(o.str()), " want ", mon::quote(w.str()));
}
// writes across one edge and asks the guards; the array is put right afterwards
template <class T, class A> static void overrun(A& a, Model<T>& m, mon::Rng& R, const std::string& trace) {
#ifdef ECL_MEM_CHECK_ARRAYS
  if (!m.n() || !ElementTraits<T>::raw) return; bool under = R.flip(); volatile unsigned char* p = (volatile unsigned char*)(under ? (unsigned char*)&a[0] - sizeof(T) : (unsigned char*)&a[0] + m.n() * sizeof(T)); unsigned char old[sizeof(T)], now[sizeof(T)];
  size_t width = under ? sizeof(T) : std::min(sizeof(T), (size_t)4); for (size_t i = 0; i < width; ++i) { old[i] = p[i]; now[i] = (unsigned char)R.next(); if (now[i] == 0xCC) now[i] = 0; } for (size_t i = 0; i < width; ++i) p[i] = now[i];
  CHECK(under ? a.bufferUnderRun() : a.bufferOverRun(), under ? "underrun-unseen" : "overrun-unseen", trace); CHECK(!(under ? a.bufferOverRun() : a.bufferUnderRun()), "overrun-wrong-edge", trace); CHECK(a.bufferOverFlow(), "overflow-unseen", trace); mon::obs("overruns made and reported");
  for (size_t i = 0; i < width; ++i) p[i] = old[i];
#else
  (void)a; (void)m; (void)R; (void)trace;
#endif
}

template <class T> static void dynamic_history(mon::Rng& R) {
  long live0 = Tracked::live, blocks = mon::live_blocks(); uint64_t h = 0; std::string tr = mon::cat(ElementTraits<T>::name(), ":");
  { typedef Array<T> A; std::vector<std::unique_ptr<A>> a(3); std::vector<Model<T>> m(3); for (int i = 0; i < 3; ++i) a[i].reset(new A); auto sz = [&]() -> size_t { switch (R.below(6)) { case 0: return 0; case 1: return 1; case 2: return R.below(300); default: return R.range(1, 12); } };
    const auto konst = [&](size_t n, const T& x) { return A::Constant(n, x); };
    int steps = R.range(5, 30);
    for (int s = 0; s < steps; ++s) {
      int k = R.below(3), j = R.below(3); A& x = *a[k]; Model<T>& y = m[k]; int op = R.below(13); h = mon::mix(h, op * 16 + k * 4 + j);
      if (op == 0) { tr += mon::cat(" new", k); mon::note(tr); size_t n = sz(); a[k].reset(); if (R.flip()) { a[k].reset(new A((unsigned int)n)); y.size(n); } else { a[k].reset(new A); y = Model<T>(); } h = mon::mix(h, n); }
      else if (op == 1) { size_t n = sz(); tr += mon::cat(" resize", k, "=", n); mon::note(tr); x.resize(n); y.size(n); h = mon::mix(h, n); }
      else if (op == 2 && R.flip()) { tr += mon::cat(" clear", k); mon::note(tr); x.clear(); y = Model<T>(); }
      else if (op == 3) { tr += mon::cat(" ", k, "=", j); mon::note(tr); for (size_t i = 0; i < m[j].n(); ++i) if (!m[j].known[i]) { T v = ElementTraits<T>::draw(R); (*a[j])[i] = v; m[j].set(i, v); } x = *a[j]; if (j == k) mon::obs("self assignments"); else y = m[j]; if (!y.n()) y = Model<T>::none(); }
      else if (op == 4) { tr += mon::cat(" ", k, "=copy of ", j); mon::note(tr); for (size_t i = 0; i < m[j].n(); ++i) if (!m[j].known[i]) { T v = ElementTraits<T>::draw(R); (*a[j])[i] = v; m[j].set(i, v); } std::unique_ptr<A> c(new A(*a[j])); Model<T> cm = m[j]; if (!cm.n()) cm = Model<T>::none(); audit(*c, cm, tr); if (cm.n()) { size_t i = R.below(cm.n()); T v = ElementTraits<T>::draw(R); (*c)[i] = v; audit(*a[j], m[j], tr + " (original after write to the copy)"); cm.set(i, v); } a[k].swap(c); m[k] = cm; }
      else if (op == 5) { size_t n = sz(); T v = ElementTraits<T>::draw(R); tr += mon::cat(" ", k, "=Constant(", n, ")"); mon::note(tr); int how = R.below(4); y.size(n); for (size_t i = 0; i < n; ++i) y.set(i, v);
        if (how == 0) { a[k].reset(new A(konst(n, v))); } else if (how == 1) { x = A::Constant(n, v); if (!n) y = Model<T>::none(); } else if (how == 2) { ecl::blueprints::ConstantDynamicArray<T> bp(n, v); if (R.flip()) v = ElementTraits<T>::draw(R); A z(bp); audit(z, y, tr + " (saved blueprint)"); bp.apply(x); mon::obs("saved blueprints applied"); } else { auto bp = A::Factory::Constant(n, v); a[k].reset(new A(bp.instantiate())); } if (!n) y = Model<T>::none(); h = mon::mix(h, n); }
      else if (op < 8) { comma<T>(x, y, R, tr, true); }
      else if (op < 10) { write_some<T>(x, y, R, tr); }
      else if (op == 10) refusals(x, R, tr);
      else if (op == 11) { mon::note(tr + " stream"); stream<T>(x, y, tr); }
      else { overrun<T>(x, y, R, tr); std::list<A> l; for (int i = 0; i < 3; ++i) l.push_back(*a[j]); l.reverse(); l.pop_back(); }
      for (int i = 0; i < 3; ++i) audit(*a[i], m[i], tr); if (tr.size() > 1500) tr = "...";
    } }
  CHECK(Tracked::live == live0, "element-lifetime", tr, ": ", Tracked::live - live0, " elements left"); if (std::is_same<T, Tracked>::value) mon::obs("arrays of constructed elements destroyed");
  tr = std::string(); tr.shrink_to_fit(); mon::nontrivial(h); (void)blocks;
}
template <class T> static void leak(mon::Rng& R) { // the same kinds of operations, nothing kept
  typedef Array<T> A; size_t n = 1 + R.below(20); long before = mon::live_blocks(); { A a((unsigned int)n), b; a.resize(n + 3); { A z; a = z; } a = A::Constant(n, ElementTraits<T>::draw(R)); b = a; A c(b); c.clear(); c.resize(2); b = b; A d = A::Constant(n, ElementTraits<T>::draw(R)); try { a << ElementTraits<T>::draw(R); A e; e << ElementTraits<T>::draw(R); } catch (const StandardException&) {} }
  CHECK(mon::live_blocks() == before, "leak", ElementTraits<T>::name(), ": ", mon::live_blocks() - before, " blocks"); mon::nontrivial(n);
}

template <class T, size_t N> static void fixed_history(mon::Rng& R) {
  long live0 = Tracked::live; uint64_t h = N; std::string tr = mon::cat(ElementTraits<T>::name(), "[", N, "]:");
  { typedef Array<T, N> A; std::vector<std::unique_ptr<A>> a(3); std::vector<Model<T>> m(3); for (int i = 0; i < 3; ++i) { a[i].reset(new A); m[i].size(N); }
    int steps = R.range(4, 16);
    for (int s = 0; s < steps; ++s) {
      int k = R.below(3), j = R.below(3); A& x = *a[k]; Model<T>& y = m[k]; int op = R.below(10); h = mon::mix(h, op * 16 + k * 4 + j);
      auto complete = [&](int q) { for (size_t i = 0; i < N; ++i) if (!m[q].known[i]) { T v = ElementTraits<T>::draw(R); (*a[q])[i] = v; m[q].set(i, v); } };
      if (op == 0) { tr += mon::cat(" ", k, "=", j); mon::note(tr); complete(j); x = *a[j]; y = m[j]; if (j == k) mon::obs("self assignments"); }
      else if (op == 1) { tr += mon::cat(" ", k, "=copy of ", j); mon::note(tr); complete(j); std::unique_ptr<A> c(new A(*a[j])); Model<T> cm = m[j]; size_t i = R.below(N); T v = ElementTraits<T>::draw(R); (*c)[i] = v; cm.set(i, v); audit(*a[j], m[j], tr + " (original after write to the copy)"); a[k].swap(c); m[k] = cm; }
      else if (op == 2) { T v = ElementTraits<T>::draw(R); tr += mon::cat(" ", k, "=Constant"); mon::note(tr); for (size_t i = 0; i < N; ++i) y.set(i, v); int how = R.below(4);
        if (how == 0) a[k].reset(new A(A::Constant(v))); else if (how == 1) x = A::Constant(v); else if (how == 2) { ecl::blueprints::ConstantArray<T, N> bp = [&] { T gone = v; return ecl::blueprints::ConstantArray<T, N>(gone); }(); A z(bp); audit(z, y, tr + " (saved blueprint)"); bp.apply(x); mon::obs("saved blueprints applied"); } else { auto bp = A::Factory::Constant(v); a[k].reset(new A(bp.instantiate())); } }
      else if (op < 5) comma<T>(x, y, R, tr, true);
      else if (op < 7) write_some<T>(x, y, R, tr);
      else if (op == 7) refusals(x, R, tr);
      else if (op == 8) { mon::note(tr + " stream"); stream<T>(x, y, tr); }
      else overrun<T>(x, y, R, tr);
      for (int i = 0; i < 3; ++i) audit(*a[i], m[i], tr);
    } }
  CHECK(Tracked::live == live0, "element-lifetime", tr, ": ", Tracked::live - live0, " elements left"); mon::nontrivial(h);
}
GROUP(dynamic, 1500, 60000) { switch (R.below(6)) { case 0: dynamic_history<int>(R); break; case 1: dynamic_history<double>(R); break; case 2: dynamic_history<unsigned char>(R); break; case 3: dynamic_history<std::string>(R); break; case 4: dynamic_history<Tracked>(R); break; default: dynamic_history<Odd>(R); } }
#ifdef ECL_MEM_CHECK_ARRAYS
GROUP(fixed, 1200, 60000) { switch (R.below(6)) { case 0: fixed_history<int, 4>(R); break; case 1: fixed_history<double, 3>(R); break; case 2: fixed_history<unsigned char, 7>(R); break; case 3: fixed_history<Tracked, 6>(R); break; case 4: fixed_history<Odd, 1>(R); break; default: fixed_history<double, 130>(R); } }
#else
GROUP(fixed, 1500, 60000) { switch (R.below(8)) { case 0: fixed_history<int, 1>(R); break; case 1: fixed_history<int, 4>(R); break; case 2: fixed_history<double, 3>(R); break; case 3: fixed_history<unsigned char, 7>(R); break; case 4: fixed_history<std::string, 5>(R); break; case 5: fixed_history<Tracked, 6>(R); break; case 6: fixed_history<Odd, 1>(R); break; default: fixed_history<double, 130>(R); } }
#endif
GROUP(leaks, 60, 1000) { leak<int>(R); leak<double>(R); leak<std::string>(R); leak<unsigned char>(R); }
// elements whose construction fails part way through a resize
struct Bomb { static long live, fuse; int* p; Bomb() { if (fuse-- == 0) throw 42; p = new int(5); ++live; } Bomb(const Bomb& o) : p(new int(*o.p)) { ++live; } Bomb& operator=(const Bomb& o) { *p = *o.p; return *this; } ~Bomb() { delete p; --live; } };
long Bomb::live = 0, Bomb::fuse = -1;
REQUIRE_OBS("allocations that failed part way", 50);
GROUP(failing_elements, 80, 2000) {
  Bomb::fuse = -1; mon::obs("allocations that failed part way", 0); mon::note(mon::cat("", 1)); try { throw 1; } catch (int) {} long before = mon::live_blocks(); { Array<Bomb> a; size_t n0 = R.below(5), n = R.range(1, 20); if (n0) a.resize(n0); Bomb::fuse = R.below(n); bool thrown = false; mon::note(mon::cat("resize from ", n0, " to ", n, " failing at element ", Bomb::fuse)); try { if (R.chance(1, 4)) { Array<Bomb> b((unsigned int)n); } else a.resize(n); } catch (int) { thrown = true; } Bomb::fuse = -1; CHECK(thrown, "failure-hidden", "resize"); mon::obs("allocations that failed part way");
    size_t s = a.size(); CHECK(s == 0 || s == n0, "failed-resize-size", "size ", s, " after a failed resize from ", n0, " to ", n); for (size_t i = 0; i < s; ++i) CHECK(*a[i].p == 5, "failed-resize-contents", i); if (R.flip()) { a.resize(3); CHECK(*a[2].p == 5, "resize-after-failure", ""); } mon::nontrivial(mon::mix(n0, n)); }
  CHECK(Bomb::live == 0 && mon::live_blocks() == before, "leak", Bomb::live, " elements, ", mon::live_blocks() - before, " blocks"); Bomb::live = 0; }
// long arrays: sizes beyond what one or two bytes can count
REQUIRE_OBS("long arrays", 60);
template <class T, class A> static void long_one(A& a, size_t n, mon::Rng& R, const char* what) {
  std::string tr = mon::cat(ElementTraits<T>::name(), " of ", n, " ", what, ":"); mon::note(tr); Model<T> m; m.size(n); mon::obs("long arrays"); for (size_t i = 0; i < n; ++i) { T v = ElementTraits<T>::draw(R); if (i % 3 == 0) a[i] = v; else if (i % 3 == 1) a.at(i) = v; else *(a.begin() + i) = v; m.set(i, v); } audit(a, m, tr); refusals(a, R, tr); refusals(a, R, tr); write_some<T>(a, m, R, tr); { A b(a); audit(b, m, tr + " copy"); b[n - 1] = a[0]; } overrun<T>(a, m, R, tr);
  { std::vector<T> v; for (size_t i = 0; i < n + 1; ++i) v.push_back(ElementTraits<T>::draw(R)); size_t k = R.flip() ? n : n + 1, done = 0; bool thrown = false; tr += mon::cat(" <<", k); mon::note(tr); try { auto init = (a << v[0]); done = 1; for (size_t i = 1; i < k; ++i) { init, v[i]; done = i + 1; } } catch (const StandardException& e) { thrown = e.flag() == ecl::OutOfRangeError; } CHECK(thrown == (k > n) && done == n, "overfill", tr, thrown ? ": refused" : ": not refused", " after ", done); for (size_t i = 0; i < n; ++i) m.set(i, v[i]); } audit(a, m, tr); if (n < 2000) stream<T>(a, m, tr); }
template <class T> static void long_arrays(mon::Rng& R) { long live0 = Tracked::live; { size_t g[] = {127, 128, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65537, 70000, 131072, 200000}; size_t n = g[R.below(R.chance(2, 3) ? 7 : 14)]; Array<T> a((unsigned)n); long_one<T>(a, n, R, "made"); size_t k = g[R.below(R.chance(2, 3) ? 7 : 14)]; a.resize(k); long_one<T>(a, k, R, "resized"); T v = ElementTraits<T>::draw(R); n = g[R.below(R.chance(2, 3) ? 7 : 14)]; Array<T> c = Array<T>::Constant(n, v); Model<T> m; m.size(n); for (size_t i = 0; i < n; ++i) m.set(i, v); audit(c, m, mon::cat("constant of ", n)); a = c; audit(a, m, mon::cat("assigned ", n, " over ", k)); mon::nontrivial(mon::mix(n, k)); } CHECK(Tracked::live == live0, "element-lifetime", ""); }
GROUP(great, 60, 2500) { switch (R.below(5)) { case 0: long_arrays<int>(R); break; case 1: long_arrays<unsigned char>(R); break; case 2: long_arrays<Tracked>(R); break; case 3: { std::unique_ptr<Array<int, 300>> a(new Array<int, 300>); long_one<int>(*a, 300, R, "fixed"); std::unique_ptr<Array<unsigned char, 66000>> b(new Array<unsigned char, 66000>); long_one<unsigned char>(*b, 66000, R, "fixed"); break; } default: long_arrays<double>(R); } }
