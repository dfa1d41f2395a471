// C10: stencils view exactly their window of the underlying container.
#include "mon.hpp"
#include "array_values.hpp"
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <memory>
REQUIRE_OBS("operations audited", 20000); REQUIRE_OBS("refused windows", 2000); REQUIRE_OBS("refused accesses", 5000); REQUIRE_OBS("refused initialisations", 200); REQUIRE_OBS("copies between containers", 300); REQUIRE_OBS("refused copies", 100); REQUIRE_OBS("moves onto another window", 300); REQUIRE_OBS("empty windows", 200);
using ecl::Array; using ecl::Stencil; using ecl::StandardException;
template <class F> static bool refused(F f) { try { f(); } catch (const StandardException& e) { return e.flag() == ecl::OutOfRangeError; } return false; }
template <class T> struct Model { std::vector<T> v; size_t b, e; size_t n() const { return e - b; } };

// one storage of each kind, with the ways of opening a stencil on it
template <class C> struct Store { typedef typename C::value_type T; typedef Stencil<C> S; C c; static const bool copies = true, writable = true;
  static void make(Store& s, size_t n) { s.c.resize(n); } explicit Store(size_t n) { make(*this, n); } size_t size() const { return c.size(); } T get(size_t i) const { return c[i]; } void set(size_t i, const T& x) { c[i] = x; }
  S open(unsigned b, unsigned n) { return S(c, b, n); } S open_iter(long b, long e) { return S(c, c.begin() + b, c.begin() + e); } S empty() { return S(c); } static const char* kind(); const T* first() { return &c[0]; } };
template <class T0, size_t N> struct Store<Array<T0, N>> { typedef Array<T0, N> C; typedef T0 T; typedef Stencil<C> S; C c; static const bool copies = true, writable = true;
  explicit Store(size_t) {} size_t size() const { return N; } T get(size_t i) const { return c[i]; } void set(size_t i, const T& x) { c[i] = x; }
  S open(unsigned b, unsigned n) { return !(b == N && !n) && (b & 1) ? c.stencil(b, n) : S(c, b, n); } S open_iter(long b, long e) { return S(c, c.begin() + b, c.begin() + e); } S empty() { return S(c); } const T* first() { return &c[0]; } };
template <class T0> struct Store<Array<T0, ecl::DynamicStorage>> { typedef Array<T0> C; typedef T0 T; typedef Stencil<C> S; C c; static const bool copies = true, writable = true;
  explicit Store(size_t n) : c((unsigned)n) {} size_t size() const { return c.size(); } T get(size_t i) const { return c[i]; } void set(size_t i, const T& x) { c[i] = x; }
  S open(unsigned b, unsigned n) { return !(b == c.size() && !n) && (b & 1) ? c.stencil(b, n) : S(c, b, n); } S open_iter(long b, long e) { return S(c, c.begin() + b, c.begin() + e); } S empty() { return S(c); } const T* first() { return &c[0]; } };
struct Bytes {}; struct ConstBytes {};
template <> struct Store<Bytes> { typedef unsigned char T; typedef Stencil<unsigned char*> S; std::unique_ptr<unsigned char[]> p; size_t n; static const bool copies = false, writable = true;
  explicit Store(size_t k) : p(new unsigned char[k]), n(k) {} size_t size() const { return n; } T get(size_t i) const { return p[i]; } void set(size_t i, T x) { p[i] = x; }
  S open(unsigned b, unsigned k) { return S(p.get(), (unsigned)n, b, k); } S open_iter(long b, long e) { return S(p.get(), (unsigned)n, p.get() + b, p.get() + e); } S empty() { return S(p.get(), (unsigned)n); } const T* first() { return p.get(); } };
template <> struct Store<ConstBytes> { typedef unsigned char T; typedef Stencil<const unsigned char*> S; std::unique_ptr<unsigned char[]> p; size_t n; static const bool copies = false, writable = false;
  explicit Store(size_t k) : p(new unsigned char[k]), n(k) {} size_t size() const { return n; } T get(size_t i) const { return p[i]; } void set(size_t i, T x) { p[i] = x; }
  S open(unsigned b, unsigned k) { return S(p.get(), (unsigned)n, b, k); } S open_iter(long b, long e) { return S(p.get(), (unsigned)n, p.get() + b, p.get() + e); } S empty() { return S(p.get(), (unsigned)n); } const T* first() { return p.get(); } };

template <class S, class T> static void audit(S& s, const Model<T>& m, const T* first, const std::string& tr) {
  const S& c = s; size_t n = m.n(), i; mon::obs("operations audited"); if (!n) mon::obs("empty windows");
  CHECK(s.size() == n && c.size() == n, "size", tr, ": ", s.size(), " want ", n); if (s.size() != n) return;
  i = 0; for (auto it = s.begin(); it != s.end() && i <= n; ++it, ++i) if (i < n) CHECK(&*it == first + m.b + i, "iterator", tr, ": step ", i); CHECK(i == n, "iterator-count", tr);
  i = 0; for (auto it = c.begin(); it != c.end() && i <= n; ++it, ++i) if (i < n) CHECK(&*it == first + m.b + i, "const-iterator", tr, ": step ", i); CHECK(i == n, "const-iterator-count", tr);
  i = 0; for (auto it = s.rbegin(); it != s.rend() && i <= n; ++it, ++i) if (i < n) CHECK(&*it == first + m.e - 1 - i, "reverse-iterator", tr, ": step ", i); CHECK(i == n, "reverse-iterator-count", tr);
  i = 0; for (auto it = c.rbegin(); it != c.rend() && i <= n; ++it, ++i) if (i < n) CHECK(&*it == first + m.e - 1 - i, "const-reverse-iterator", tr, ": step ", i); CHECK(i == n, "const-reverse-iterator-count", tr);
  for (i = 0; i < n; ++i) { CHECK(&s[i] == first + m.b + i && &c[i] == first + m.b + i, "index", tr, ": element ", i); CHECK(&s.at(i) == first + m.b + i && &c.at(i) == first + m.b + i, "at", tr, ": element ", i); CHECK(same(c[i], m.v[m.b + i]), "value", tr, ": element ", i, " is ", show(c[i]), " want ", show(m.v[m.b + i])); }
  if (n) { CHECK(&s.front() == first + m.b && &c.front() == first + m.b, "front", tr); CHECK(&s.back() == first + m.e - 1 && &c.back() == first + m.e - 1, "back", tr); }
}
template <class S> static void refusals(S& s, size_t total, size_t b, mon::Rng& R, const std::string& tr) {
  const S& c = s; size_t n = s.size(), far[] = {n, n + 1, n + R.below(20), total - b, total, (size_t)-1, (size_t)0 - b, (size_t)0 - b - 1, (size_t)1 << 32, ((size_t)1 << 32) + R.below(n + 1), (size_t)R.next() >> 20 | ((size_t)1 << 40), ((size_t)1 << 16) + R.below(n + 1), ((size_t)1 << 8) + R.below(n + 1)}; size_t i = far[R.below(13)]; if (i < n) i = n;
  CHECK(refused([&] { (void)s.at(i); }), "at-outside", tr, ": at(", i, ") in a window of ", n, " at ", b, " of ", total); CHECK(refused([&] { (void)c.at(i); }), "const-at-outside", tr, ": at(", i, ") in a window of ", n);
  CHECK(refused([&] { (void)s[i]; }), "index-outside", tr, ": [", i, "] in a window of ", n, " at ", b, " of ", total); CHECK(refused([&] { (void)c[i]; }), "const-index-outside", tr, ": [", i, "] in a window of ", n); mon::obs("refused accesses", 4);
}
template <class K> static void bad_windows(Store<K>& st, typename Store<K>::S& s, Model<typename Store<K>::T>& m, mon::Rng& R, const std::string& tr) {
  size_t N = st.size(); unsigned b = R.below(N + 1), n = N - b + 1 + R.below(3); switch (R.below(5)) { case 0: b = N + 1 + R.below(3); n = 0; break; case 1: n = 0xffffffffu - R.below(3); break; case 2: b = 0xffffffffu - R.below(3); n = R.below(6); break; case 3: b = N + 1; n = 0xffffffffu - N; break; default: break; }
  CHECK(refused([&] { st.open(b, n); }), "window-outside", tr, ": opening (", b, ",", n, ") on ", N); CHECK(refused([&] { s.resettle(b, n); }), "move-outside", tr, ": moving to (", b, ",", n, ") on ", N); audit(s, m, st.first(), tr + " (after a refused move)");
  long lo = R.below(N + 1), hi = N + 1 + R.below(3); if (R.flip()) { hi = lo; lo = -1 - (long)R.below(3); } else if (lo > 0 && R.flip()) { hi = R.below(lo); } CHECK(refused([&] { st.open_iter(lo, hi); }), "window-outside", tr, ": opening [", lo, ",", hi, ") on ", N);
  unsigned sn = N - m.b + 1 + R.below(3); CHECK(refused([&] { s.stencil(0, sn); }), "substencil-outside", tr, ": window at ", m.b, " of ", N, " opened (0,", sn, ")"); unsigned sb = N - m.b + 1 + R.below(3); CHECK(refused([&] { s.stencil(sb, 0); }), "substencil-outside", tr, ": window at ", m.b, " of ", N, " opened (", sb, ",0)"); mon::obs("refused windows", 5);
}
// what only writable stencils do
template <bool W> struct Write { template <class K> static void go(Store<K>& st, typename Store<K>::S& s, Model<typename Store<K>::T>& m, mon::Rng& R, std::string& tr) {
  typedef typename Store<K>::T T; size_t n = m.n(); (void)st;
  if (R.flip() && n) { size_t i = R.below(n); T x = ElementTraits<T>::draw(R); int how = R.below(6); tr += mon::cat(" w", how, "@", i); mon::note(tr);
    switch (how) { case 0: s[i] = x; m.v[m.b + i] = x; break; case 1: s.at(i) = x; m.v[m.b + i] = x; break; case 2: *(s.begin() + i) = x; m.v[m.b + i] = x; break; case 3: *(s.rbegin() + i) = x; m.v[m.e - 1 - i] = x; break; case 4: s.front() = x; m.v[m.b] = x; break; default: s.back() = x; m.v[m.e - 1] = x; } }
  else { size_t k = R.chance(1, 3) ? n + 1 + R.below(2) : n ? 1 + R.below(n) : 1; std::vector<T> v; for (size_t i = 0; i < k; ++i) v.push_back(ElementTraits<T>::draw(R)); tr += mon::cat(" <<", k, "/", n); mon::note(tr); bool thrown = false;
    try { auto init = (s << v[0]); for (size_t i = 1; i < k; ++i) init, v[i]; } catch (const StandardException& e) { thrown = e.flag() == ecl::OutOfRangeError; }
    CHECK(thrown == (k > n), "overfill", tr, thrown ? ": refused" : ": not refused"); if (k > n) mon::obs("refused initialisations"); for (size_t i = 0; i < std::min(k, n); ++i) m.v[m.b + i] = v[i]; } } };
template <> struct Write<false> { template <class K> static void go(Store<K>&, typename Store<K>::S&, Model<typename Store<K>::T>&, mon::Rng&, std::string&) {} };
template <bool C> struct Stream { template <class S, class T> static void go(const S& s, const Model<T>& m, const std::string& tr) { std::ostringstream o, w; o << s; w << "[ "; for (size_t i = m.b; i < m.e; ++i) w << m.v[i] << " "; w << "]"; CHECK(o.str() == w.str(), "stream", tr, ": ", mon::quote(o.str()), " want ", mon::quote(w.str())); } };
template <> struct Stream<false> { template <class S, class T> static void go(const S&, const Model<T>&, const std::string&) {} };

template <class K> static void history(mon::Rng& R, const char* kind, size_t great = 0) {
  typedef Store<K> St; typedef typename St::T T; typedef typename St::S S; size_t n = great ? great : R.chance(1, 6) ? 1 : R.range(2, R.chance(1, 5) ? 80 : 9); St a(n), o(great && R.flip() ? great / 2 : R.range(1, 12)); n = a.size(); Model<T> m, mo; std::string tr = mon::cat(kind, " of ", n, ":");
  for (size_t i = 0; i < n; ++i) { m.v.push_back(ElementTraits<T>::draw(R)); a.set(i, m.v[i]); } for (size_t i = 0; i < o.size(); ++i) { mo.v.push_back(ElementTraits<T>::draw(R)); o.set(i, mo.v[i]); }
  auto window = [&](size_t N, size_t& b, size_t& e) { b = R.below(N + 1); e = b + R.below(N - b + 1); if (R.chance(1, 4)) { b = 0; e = N; } if (R.chance(1, 6)) e = N; };
  window(n, m.b, m.e); window(mo.v.size(), mo.b, mo.e); tr += mon::cat(" (", m.b, ",", m.n(), ")"); mon::note(tr);
  std::unique_ptr<S> s; int how = R.below(3); if (how == 0) s.reset(new S(a.open_iter(m.b, m.e))); else if (how == 1 || m.b + m.e) s.reset(new S(a.open(m.b, m.n()))); else { s.reset(new S(a.empty())); m.b = m.e = 0; } S so(o.open(mo.b, mo.n())); uint64_t h = mon::mix(n, m.b * 1000 + m.e);
  auto all = [&] { for (size_t i = 0; i < n; ++i) CHECK(same(a.get(i), m.v[i]), "outside-changed", tr, ": storage element ", i, " is ", show(a.get(i)), " want ", show(m.v[i])); for (size_t i = 0; i < mo.v.size(); ++i) CHECK(same(o.get(i), mo.v[i]), "other-changed", tr, ": element ", i); };
  audit(*s, m, a.first(), tr); all(); int steps = great > 5000 ? R.range(2, 5) : R.range(3, 14);
  for (int q = 0; q < steps; ++q) {
    int op = R.below(9); h = mon::mix(h, op);
    if (op < 3) Write<St::writable>::template go<K>(a, *s, m, R, tr);
    else if (op == 3) { size_t b, e; window(n, b, e); tr += mon::cat(" resettle(", b, ",", e - b, ")"); mon::note(tr); s->resettle(b, e - b); m.b = b; m.e = e; mon::obs("moves onto another window"); h = mon::mix(h, b * 100 + e); }
    else if (op == 4) { size_t b, e; window(n, b, e); tr += mon::cat(" =own(", b, ",", e - b, ")"); mon::note(tr); S t(a.open(b, e - b)); S& r = (*s = t); CHECK(&r == s.get(), "assign-result", tr); m.b = b; m.e = e; mon::obs("moves onto another window"); }
    else if (op == 5 && St::copies) { tr += mon::cat(" =other ", mo.n()); mon::note(tr); bool thrown = refused([&] { *s = so; }); CHECK(thrown == (mo.n() > m.n()), "copy-refusal", tr, ": ", mo.n(), " into ", m.n(), thrown ? " refused" : " accepted"); if (thrown) mon::obs("refused copies"); else { for (size_t i = 0; i < mo.n(); ++i) m.v[m.b + i] = mo.v[mo.b + i]; mon::obs("copies between containers"); } audit(so, mo, o.first(), tr + " (source)"); }
    else if (op == 5) { S t(*s); t = so; audit(t, mo, o.first(), tr + " (rebound)"); mon::obs("copies between containers"); }
    else if (op == 6 && m.n()) { size_t b = R.below(m.n()), k = R.below(m.n() - b + 1); tr += mon::cat(" sub(", b, ",", k, ")"); mon::note(tr); S t(s->stencil(b, k)); Model<T> mt = m; mt.b = m.b + b; mt.e = mt.b + k; audit(t, mt, a.first(), tr); S c(t); audit(c, mt, a.first(), tr + " (copy)"); if (R.flip()) { s.reset(new S(t)); m.b = mt.b; m.e = mt.e; } }
    else if (op == 7) { mon::note(tr + " refusals"); refusals(*s, n, m.b, R, tr); bad_windows(a, *s, m, R, tr); }
    else { mon::note(tr + " stream"); Stream<St::copies>::go(*s, m, tr); refusals(*s, n, m.b, R, tr); }
    audit(*s, m, a.first(), tr); all();
  }
  mon::nontrivial(h); mon::sample(tr);
}
template <> struct ElementTraits<char> { static const bool constructed = false, raw = true; static char draw(mon::Rng& R) { return (char)(' ' + R.below(95)); } };
GROUP(arrays, 2000, 100000) { switch (R.below(5)) { case 0: history<Array<int, 6>>(R, "Array<int,6>"); break; case 1: history<Array<double>>(R, "Array<double>"); break; case 2: history<Array<unsigned char, 9>>(R, "Array<unsigned char,9>"); break; case 3: history<Array<Tracked>>(R, "Array<tracked>"); break; default: history<Array<int, 1>>(R, "Array<int,1>"); } }
GROUP(others, 2000, 100000) { switch (R.below(4)) { case 0: history<std::vector<int>>(R, "vector<int>"); break; case 1: history<std::string>(R, "string"); break; case 2: history<Bytes>(R, "unsigned char*"); break; default: history<ConstBytes>(R, "const unsigned char*"); } }
// long containers: windows beyond what one or two bytes can count
GROUP(great, 60, 2500) { size_t g[] = {127, 128, 255, 256, 257, 300, 1000, 40000, 65535, 65536, 65537, 70000, 140000}; size_t n = g[R.below(R.chance(1, 2) ? 7 : 13)]; mon::obs("long containers"); switch (R.below(6)) { case 0: history<Array<int>>(R, "Array<int>", n); break; case 1: history<std::vector<int>>(R, "vector<int>", n); break; case 2: history<Bytes>(R, "unsigned char*", n); break; case 3: history<ConstBytes>(R, "const unsigned char*", n); break; case 4: history<std::string>(R, "string", n); break; default: history<Array<int, 300>>(R, "Array<int,300>", 300); } }
REQUIRE_OBS("long containers", 60);
