// C12: container formatters print every element, faithfully and in order.
#include "mon.hpp"
#include <ecl/formatters.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/push_and_pop.hpp>
#include <ecl/containers/array/formatters.hpp>
#include <ecl/containers/stencil/formatters.hpp>
#include <ecl/containers/push_and_pop/formatters.hpp>
#include <sstream>
#include <memory>
#include <cmath>
using namespace ecl;
REQUIRE_OBS("floating outputs compared", 20000); REQUIRE_OBS("one-off settings in place of others", 1500); REQUIRE_OBS("byte outputs compared", 10000); REQUIRE_OBS("plain outputs compared", 3000); REQUIRE_OBS("one-off settings followed by an output without", 1500); REQUIRE_OBS("outputs without a container refused", 500); REQUIRE_OBS("outputs of empty containers", 50); REQUIRE_OBS("automatic widths compared", 5000);
template <class F> static std::string out(F&& f) { std::ostringstream o; o << f; return o.str(); }
template <class F> static void expect_refusal(F& f, const std::string& what) { std::ostringstream o; bool r = false; try { o << f; } catch (const StandardException& e) { r = e.flag() == UsageError; } CHECK(r && o.str().empty(), "output-without-container", what, " gave ", mon::quote(o.str())); mon::obs("outputs without a container refused"); }
static std::vector<std::string> entries(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string t; while (i >> t) v.push_back(t); return v; }
template <class T> static T real(mon::Rng& R, int style) { typedef std::numeric_limits<T> L; switch (style) { case 0: return (T)R.uniform(-10, 10); case 1: return (T)R.range(-1000, 1000); case 2: { T a[] = {0, (T)-0.0, (T)9.999, (T)-9.999, (T)99.5, 10, 100, 1000, (T)0.5, (T)-0.004, (T)999999}; return a[R.below(11)]; } case 3: return (T)std::ldexp(R.uniform(-1, 1), (int)R.range(L::min_exponent, L::max_exponent - 1)); case 4: return (T)R.uniform(0, 1e6); default: return (T)std::ldexp(R.uniform(-1, 1), (int)R.range(-8, 16)); } }
template <class T> static std::string fixed(T v, int p) { char b[900]; snprintf(b, 900, "%.*f", p, (double)v); return b; }
// the whole text is compared when a width was asked for; with the automatic width every entry must read back and line up
template <class T> static void compare(const std::string& got, const std::vector<T>& v, int p, int w, const std::string& what) {
  mon::obs("floating outputs compared"); if (v.empty()) mon::obs("outputs of empty containers");
  if (w != -1) { std::string want = "[ "; for (T x : v) { std::string t = fixed(x, p); if ((int)t.size() < w) t.insert(0, w - t.size(), ' '); want += t + " "; } want += "]"; CHECK(got == want, "floating-text", what, " gave ", mon::quote(got.substr(0, 300)), " want ", mon::quote(want.substr(0, 300))); return; }
  std::vector<std::string> e = entries(got), want{"["}; for (T x : v) want.push_back(fixed(x, p)); want.push_back("]"); CHECK(e == want, "floating-entries", what, " gave ", mon::quote(got.substr(0, 300))); 
  bool modest = true; for (T x : v) if (!(std::fabs(x) < 1e6) || (x == 0 && std::signbit(x))) modest = false; if (!modest || v.empty()) return;
  size_t cell = (got.size() - 3) / v.size(); bool lined = got.size() == 3 + v.size() * cell && got.compare(0, 2, "[ ") == 0 && got[got.size() - 1] == ']'; for (size_t i = 0; lined && i < v.size(); ++i) { std::string c = got.substr(2 + i * cell, cell - 1), t = fixed(v[i], p); lined = got[2 + i * cell + cell - 1] == ' ' && c.size() >= t.size() && c == std::string(c.size() - t.size(), ' ') + t; }
  CHECK(lined, "automatic-width", what, " gave ", mon::quote(got.substr(0, 300))); mon::obs("automatic widths compared");
}
template <class F> static typename std::enable_if<std::is_constructible<F, int, int>::value, F>::type made(int p, int w) { return F(p, w); }
template <class F> static typename std::enable_if<!std::is_constructible<F, int, int>::value, F>::type made(int p, int w) { F f; f(p, w); return f; }
// a history of settings and outputs on one formatter type, given containers by a generator
template <class F, class C, class T, class Make> static void history(mon::Rng& R, const char* type, Make make) {
  struct Obj { F f; int p, w; }; std::vector<std::unique_ptr<Obj>> objs; std::string trace = type; bool once = false; auto anyw = [&] { return R.chance(1, 3) ? -1 : R.chance(1, 40) ? R.pick({127, 128, 129, 255, 256, 257, 300, 1000}) : (int)R.below(24); }; auto anyp = [&] { return R.chance(1, 10) ? (int)R.range(10, 30) : (int)R.below(8); };
  if (R.flip()) { int p = anyp(), w = anyw(); objs.push_back(std::unique_ptr<Obj>(new Obj{made<F>(p, w), p, w})); trace += mon::cat(" new(", p, ",", w, ")"); } else objs.push_back(std::unique_ptr<Obj>(new Obj{F(), 2, -1}));
  expect_refusal(objs[0]->f, trace);
  for (int i = 0, n = R.range(5, 20); i < n; ++i) {
    Obj& o = *objs[R.below(objs.size())]; int p = anyp(), w = anyw(); std::vector<T> v; auto c = make(v); mon::note(trace);
    switch (R.below(9)) {
      case 0: o.f.width(w); o.w = w; trace += mon::cat(" width", w); break;
      case 1: o.f.precision(p); o.p = p; trace += mon::cat(" precision", p); break;
      case 2: o.f(p, w); o.p = p; o.w = w; trace += mon::cat(" set(", p, ",", w, ")"); break;
      case 3: case 4: { trace += mon::cat(" once(", p, ",", w, ")x", v.size()); if (R.chance(1, 4)) { std::vector<T> u; auto c2 = make(u); o.f(*c2, anyp(), anyw()); trace += "(in place of another)"; mon::obs("one-off settings in place of others"); } compare(out(o.f(*c, p, w)), v, p, w, trace); once = true; CHECK((int)o.f.precision() == o.p, "precision-after-one-off", trace, ": ", o.f.precision(), " want ", o.p); break; }
      case 5: expect_refusal(o.f, trace); break;
      case 6: if (objs.size() < 4) { std::unique_ptr<Obj> k(new Obj(o)); o.f.width(w); o.w = w; objs.push_back(std::move(k)); trace += mon::cat(" copied,width", w); if (R.flip()) { objs.erase(objs.begin()); trace += ",first-gone"; } } break;
      default: { const C& cc = *c; compare(out(o.f(cc)), v, o.p, o.w, mon::cat(trace, " now(", o.p, ",", o.w, ")x", v.size())); if (once) mon::obs("one-off settings followed by an output without"); if (R.chance(1, 3)) expect_refusal(o.f, trace + " again"); CHECK((int)o.f.precision() == o.p, "precision-reported", trace); }
    }
  }
  for (auto& o : objs) { std::vector<T> v; auto c = make(v); compare(out(o->f(*c)), v, o->p, o->w, trace + " at the end"); }
  mon::nontrivial(mon::hash(trace)); mon::sample(trace);
}
template <class T, size_t N> static void fixed_array(mon::Rng& R, const char* t) { typedef Array<T, N> A; auto make = [&](std::vector<T>& v) { std::unique_ptr<A> a(new A); int s = R.below(6); for (size_t i = 0; i < N; ++i) { (*a)[i] = real<T>(R, s); v.push_back((*a)[i]); } return a; }; if (R.flip()) history<Format<A>, A, T>(R, t, make); else history<typename A::Formatter, A, T>(R, t, make); }
template <class T> static void dynamic_array(mon::Rng& R, const char* t) { typedef Array<T> A; auto make = [&](std::vector<T>& v) { size_t n = R.chance(1, 60) ? R.range(120, 300) : R.below(12); std::unique_ptr<A> a(new A(n)); int s = R.below(6); for (size_t i = 0; i < n; ++i) { (*a)[i] = real<T>(R, s); v.push_back((*a)[i]); } return a; }; history<typename A::Formatter, A, T>(R, t, make); }
template <class T> static void stencil(mon::Rng& R, const char* t) { typedef Array<T> A; typedef Stencil<A> S; int all = R.chance(1, 30) ? R.range(257, 400) : 16; A under(all); int s = R.below(6); for (int i = 0; i < all; ++i) under[i] = real<T>(R, s); auto make = [&](std::vector<T>& v) { size_t at = R.below(all), n = R.below(all - at + 1); for (size_t i = 0; i < n; ++i) v.push_back(under[at + i]); return std::unique_ptr<S>(new S(under.stencil(at, n))); }; history<typename S::Formatter, S, T>(R, t, make); }
template <class T> static void vector_stencil(mon::Rng& R, const char* t) { typedef std::vector<T> A; typedef Stencil<A> S; int all = R.chance(1, 30) ? R.range(257, 400) : 16; A under(all); int s = R.below(6); for (int i = 0; i < all; ++i) under[i] = real<T>(R, s); auto make = [&](std::vector<T>& v) { size_t at = R.below(all), n = R.below(all - at + 1); for (size_t i = 0; i < n; ++i) v.push_back(under[at + i]); return std::unique_ptr<S>(new S(under, under.begin() + at, under.begin() + at + n)); }; history<typename S::Formatter, S, T>(R, t, make); }
GROUP(floating, 4000, 250000) {
  switch (R.below(9)) { case 0: fixed_array<float, 5>(R, "Array<float,5>"); break; case 1: fixed_array<double, 4>(R, "Array<double,4>"); break; case 2: fixed_array<double, 1>(R, "Array<double,1>"); break; case 3: dynamic_array<float>(R, "Array<float>"); break; case 4: dynamic_array<double>(R, "Array<double>"); break; case 5: stencil<float>(R, "Stencil<Array<float>>"); break; case 6: stencil<double>(R, "Stencil<Array<double>>"); break; case 7: vector_stencil<double>(R, "Stencil<vector<double>>"); break; default: vector_stencil<float>(R, "Stencil<vector<float>>"); }
}
static std::string hex(const std::vector<unsigned char>& v) { std::string s = "[ "; char b[8]; for (unsigned char c : v) { snprintf(b, 8, "0x%02x ", c); s += b; } return s + "]"; }
static void cmp(const std::string& got, const std::vector<unsigned char>& v, const std::string& what) { std::string want = hex(v); CHECK(got == want, "byte-text", what, " gave ", mon::quote(got), " want ", mon::quote(want)); mon::obs("byte outputs compared"); if (v.empty()) mon::obs("outputs of empty containers"); }
template <class B, size_t N> static void bytes_fixed(mon::Rng& R, const std::string& what) {
  typedef Array<B, N> A; Format<A> f; expect_refusal(f, what); typename A::Formatter g; for (int k = 0; k < 4; ++k) { A a; std::vector<unsigned char> v; for (size_t i = 0; i < N; ++i) { a[i] = (B)R.integer<B>(); v.push_back((unsigned char)a[i]); } const A& ca = a; cmp(out(f(ca)), v, what); size_t at = R.below(N + 1), n = R.below(N - at + 1); std::vector<unsigned char> w(v.begin() + at, v.begin() + at + n); cmp(out(f(ca.begin() + at, ca.begin() + at + n)), w, what + " by iterators"); Stencil<A> s(a, a.begin() + at, a.begin() + at + n); cmp(out(g(s)), w, what + " by stencil"); std::ostringstream o; o << f(a) << ' ' << g(s); CHECK(o.str() == hex(v) + " " + hex(w), "byte-text", "two in one stream"); }
}
template <class B> static void bytes_dynamic(mon::Rng& R, const std::string& what) {
  typedef Array<B> A; typename A::Formatter f; expect_refusal(f, what); for (int k = 0; k < 4; ++k) { size_t n = R.chance(1, 20) ? R.range(120, 1200) : R.below(40); A a(n); std::vector<unsigned char> v; for (size_t i = 0; i < n; ++i) { a[i] = R.integer<B>(); v.push_back((unsigned char)a[i]); } const A& ca = a; cmp(out(f(ca)), v, what); if (n) { size_t at = R.below(n + 1), m = R.below(n - at + 1); cmp(out(f(ca.begin() + at, ca.begin() + at + m)), std::vector<unsigned char>(v.begin() + at, v.begin() + at + m), what + " by iterators"); } }
}
template <size_t N> static void bytes_sliding(mon::Rng& R, const std::string& what) {
  typedef PushAndPop<unsigned char, N> P; typename P::Formatter f; P p; std::vector<unsigned char> v; for (int i = 0, n = R.below(3 * N + 2); i < n; ++i) { if (v.size() && R.chance(1, 4)) { p.pop_front(); v.erase(v.begin()); } else { unsigned char c = R.integer<unsigned char>(); p.push_back(c); v.push_back(c); if (v.size() > N) v.erase(v.begin()); } if (R.chance(1, 3)) cmp(out(f(p)), v, what); } cmp(out(f(p)), v, what); const P& cp = p; cmp(out(f(cp)), v, what);
}
GROUP(bytes, 2500, 100000) {
  bytes_fixed<char, 6>(R, "Array<char,6>"); bytes_fixed<signed char, 3>(R, "Array<signed char,3>"); bytes_fixed<unsigned char, 9>(R, "Array<unsigned char,9>"); bytes_dynamic<char>(R, "Array<char>"); bytes_dynamic<signed char>(R, "Array<signed char>"); bytes_dynamic<unsigned char>(R, "Array<unsigned char>"); bytes_sliding<5>(R, "PushAndPop<unsigned char,5>"); bytes_sliding<1>(R, "PushAndPop<unsigned char,1>");
  typedef PushAndPop<unsigned char> D; size_t cap = R.range(1, 9); D d(cap); typename D::Formatter f; std::vector<unsigned char> v; for (int i = R.below(6); i > 0; --i) { unsigned char c = R.integer<unsigned char>(); d.push_back(c); v.push_back(c); if (v.size() > cap) v.erase(v.begin()); } cmp(out(f(d)), v, "PushAndPop<unsigned char>");
  mon::nontrivial(R.s); mon::sample("byte arrays, stencils, sub-ranges and sliding buffers of drawn bytes");
}
template <class T> static std::string list(const std::vector<T>& v) { std::ostringstream o; o << "[ "; for (const T& x : v) o << x << " "; o << "]"; return o.str(); }
template <class T> static void plain(mon::Rng& R, const char* what) {
  Array<T, 5> a; std::vector<T> v; for (int i = 0; i < 5; ++i) { a[i] = R.integer<T>(); v.push_back(a[i]); } Format<Array<T, 5>> f; CHECK(out(f(a)) == list(v), "plain-text", what, " gave ", out(f(a)), " want ", list(v)); 
  Array<T> d(R.chance(1, 10) ? R.range(120, 1200) : R.below(9)); std::vector<T> w; for (size_t i = 0; i < d.size(); ++i) { d[i] = R.integer<T>(); w.push_back(d[i]); } typename Array<T>::Formatter g; CHECK(out(g(d)) == list(w), "plain-text", what, " dynamic gave ", out(g(d)));
  size_t at = R.below(6), n = R.below(5 - at + 1); Stencil<Array<T, 5>> s(a, a.begin() + at, a.begin() + at + n); typename Stencil<Array<T, 5>>::Formatter h; std::vector<T> x(v.begin() + at, v.begin() + at + n); CHECK(out(h(s)) == list(x), "plain-text", what, " stencil gave ", out(h(s))); mon::obs("plain outputs compared", 3);
}
GROUP(integers, 400, 20000) { plain<int>(R, "int"); plain<unsigned>(R, "unsigned"); plain<short>(R, "short"); plain<long>(R, "long"); plain<unsigned long>(R, "unsigned long"); mon::nontrivial(R.s); mon::sample("integer arrays and stencils through their formatters"); }
