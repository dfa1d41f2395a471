// C15: formatters render the value at the width, alignment, base and precision asked for.
#include "mon.hpp"
#include <ecl/formatters.hpp>
#include <sstream>
#include <memory>
#include <cmath>
using namespace ecl;
REQUIRE_OBS("waiting formatters copied", 5000); REQUIRE_OBS("outputs compared", 50000); REQUIRE_OBS("one-off settings followed by an output without", 5000); REQUIRE_OBS("outputs without a value refused", 1000); REQUIRE_OBS("outputs padded", 10000); REQUIRE_OBS("outputs wider than asked for", 2000);
struct Set { int w; Alignment a; int p; int b; };   // b: base of an integer
static void set_width(Set& s, int w) { s.w = w; if (w > 0 && s.a == NoAlign) s.a = RightAlign; }
static void set_align(Set& s, Alignment a) { s.a = a; if (a == NoAlign) s.w = 0; }
static std::string pad(const std::string& t, const Set& s) {
  int n = s.w - (int)t.size(); if (n <= 0) { if (s.w > 0) mon::obs("outputs wider than asked for"); return t; } if (s.a != NoAlign) mon::obs("outputs padded");
  switch (s.a) { case LeftAlign: return t + std::string(n, ' '); case RightAlign: return std::string(n, ' ') + t; case CentreAlign: return std::string(n - n / 2, ' ') + t + std::string(n / 2, ' '); default: return t; }
}
template <class T> static std::string number_text(T v, int base) {
  if (base == Dec) return mon::cat((long long)v < 0 && std::numeric_limits<T>::is_signed ? std::to_string((long long)v) : std::to_string((unsigned long long)v));
  unsigned long long u = (unsigned long long)v; std::string s; int bits = base == Bin ? 1 : 4; for (int i = 0; i < (int)(sizeof(T) * 8) / bits; ++i) { s.insert(s.begin(), "0123456789abcdef"[u & ((1u << bits) - 1)]); u >>= bits; } return (base == Bin ? "0b" : "0x") + s;
}
template <class T> static std::string float_text(T v, int p) { char b[2200]; snprintf(b, 2200, "%.*f", p, (double)v); return b; }
static Alignment any_align(mon::Rng& R) { return std::vector<Alignment>{NoAlign, LeftAlign, RightAlign, CentreAlign}[R.below(4)]; }
static Alignment some_align(mon::Rng& R) { return R.chance(1, 6) ? NoAlign : std::vector<Alignment>{LeftAlign, RightAlign, CentreAlign}[R.below(3)]; }
static int any_width(mon::Rng& R) { switch (R.below(8)) { case 0: return -1; case 1: return 0; case 2: return R.chance(1, 4) ? R.pick({127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 4097}) : R.chance(1, 60) ? R.pick({32767, 32768, 65535, 65536, 65537}) : (int)R.range(20, 90); case 3: return 1; default: return (int)R.range(2, 24); } }
static const char* aname(Alignment a) { return a == NoAlign ? "none" : a == LeftAlign ? "left" : a == RightAlign ? "right" : "centre"; }
static std::string show(const Set& s) { return mon::cat("[w", s.w, " ", aname(s.a), " p", s.p, " b", s.b, "]"); }
template <class F> static std::string out(F& f) { std::ostringstream o; o << f; return o.str(); }
// an expected output, or a refusal when there is no value; always followed by a refusal
template <class F> static void expect(F& f, const std::string& want, const std::string& what) {
  std::string got; try { got = out(f); } catch (const StandardException& e) { mon::fail("output-refused", what); return; } CHECK(got == want, "output", what, " gave ", mon::quote(got), " want ", mon::quote(want)); mon::obs("outputs compared");
}
template <class F> static void expect_refusal(F& f, const std::string& what) {
  std::ostringstream o; bool r = false; try { o << f; } catch (const StandardException& e) { r = true; CHECK(e.flag() == UsageError, "refusal-flag", what); } CHECK(r, "output-without-value", what, " gave ", mon::quote(o.str())); CHECK(o.str().empty(), "refused-output-wrote", what); mon::obs("outputs without a value refused");
}
// a formatter with a value and settings for one output: copies of it give that output too, once, and then go on with the permanent ones
template <class F, class G> static void waiting_copy(mon::Rng& R, F& f, const std::string& want, G again, const std::string& what) {
  F k(f); F l; if (R.flip()) l = f; else l = k; mon::obs("waiting formatters copied");
  for (F* c : {&k, &l}) { expect(*c, want, what + " waiting copy"); expect_refusal(*c, what + " waiting copy again"); again(*c); }
}
template <class T> static T number(mon::Rng& R) { return R.integer<T>(); }
template <class T> static void numbers(mon::Rng& R, const char* type) {
  typedef Format<T> F; struct Obj { F f; Set s; }; std::vector<std::unique_ptr<Obj>> objs; uint64_t h = R.s; std::string trace = type; bool temp_before = false;
  auto fresh = [&] { Set s{any_width(R), any_align(R), 0, (int)std::vector<IntegralBase>{Bin, Hex, Dec}[R.below(3)]}; if (R.chance(1, 3)) { s = Set{-1, NoAlign, 0, Dec}; objs.push_back(std::unique_ptr<Obj>(new Obj{F(), s})); } else objs.push_back(std::unique_ptr<Obj>(new Obj{F(s.w, s.a, (IntegralBase)s.b), s})); trace += " new" + show(s); };
  fresh(); fresh(); expect_refusal(objs[0]->f, "a new formatter of " + trace);
  for (int i = 0, n = R.range(5, 25); i < n; ++i) {
    Obj& o = *objs[R.below(objs.size())]; int w = any_width(R); Alignment a = some_align(R); IntegralBase b = std::vector<IntegralBase>{Bin, Hex, Dec, Dec}[R.below(4)]; T v = number<T>(R); int op = R.below(11); mon::note(trace);
    switch (op) {
      case 0: o.f.width(w); set_width(o.s, w); trace += mon::cat(" width", w); break;
      case 1: o.f.align(a); set_align(o.s, a); trace += mon::cat(" align-", aname(a)); break;
      case 2: o.f.base(b); o.s.b = b; trace += mon::cat(" base", b); break;
      case 3: { auto& r = o.f(w, a, b); CHECK((void*)&r == (void*)&o.f, "returns-itself", trace); set_width(o.s, w); set_align(o.s, a); o.s.b = b; trace += mon::cat(" all", w, aname(a), b); break; }
      case 4: { Set t = o.s; t.b = b; set_width(t, w); trace += mon::cat(" once(", w, ",", (int)b, ")"); if (R.chance(1, 4)) o.f(number<T>(R), any_width(R), some_align(R), Bin); o.f(v, w, b); if (R.chance(1, 4)) waiting_copy(R, o.f, pad(number_text(v, t.b), t), [&](F& k) { expect(k(v), pad(number_text(v, o.s.b), o.s), trace + " of a copy" + show(o.s)); }, trace); expect(o.f, pad(number_text(v, t.b), t), trace + show(o.s)); temp_before = true; continue; }
      case 5: { Set t = o.s; t.b = b; set_width(t, w); set_align(t, a); trace += mon::cat(" once(", w, ",", aname(a), ",", (int)b, ")"); if (R.chance(1, 4)) o.f(number<T>(R), any_width(R), Hex); o.f(v, w, a, b); if (R.chance(1, 4)) waiting_copy(R, o.f, pad(number_text(v, t.b), t), [&](F& k) { expect(k(v), pad(number_text(v, o.s.b), o.s), trace + " of a copy" + show(o.s)); }, trace); expect(o.f, pad(number_text(v, t.b), t), trace + show(o.s)); temp_before = true; continue; }
      case 6: expect_refusal(o.f, trace); break;
      case 7: { std::unique_ptr<Obj> c(new Obj{o.f, o.s}); std::string x = trace + " copy"; T u = number<T>(R); o.f.width(w); set_width(o.s, w); expect(c->f(u), pad(number_text(u, c->s.b), c->s), x); if (R.flip()) { c->f.align(a); set_align(c->s, a); } objs.push_back(std::move(c)); trace += " copied"; if (R.flip()) { objs.erase(objs.begin()); trace += " first-gone"; } if (R.flip()) { Obj& d = *objs[R.below(objs.size())]; Obj& e = *objs[R.below(objs.size())]; d.f = e.f; d.s = e.s; trace += " assigned"; } continue; }
      case 8: if (objs.size() < 4) fresh(); break;
      default: { T u = number<T>(R); o.f(u); o.f(v); expect(o.f, pad(number_text(v, o.s.b), o.s), trace + show(o.s)); if (temp_before) mon::obs("one-off settings followed by an output without"); if (R.chance(1, 3)) expect_refusal(o.f, trace + " again"); }
    }
    h = mon::mix(h, op * 1000 + w);
  }
  for (auto& o : objs) { T v = number<T>(R); expect(o->f(v), pad(number_text(v, o->s.b), o->s), trace + " at the end" + show(o->s)); }
  { // several formatters in one stream
    T u = number<T>(R), v = number<T>(R); Obj& x = *objs.front(); Obj& y = *objs.back(); if (&x != &y) { std::ostringstream s; s << x.f(u) << '|' << y.f(v); std::string want = pad(number_text(u, x.s.b), x.s) + "|" + pad(number_text(v, y.s.b), y.s); CHECK(s.str() == want, "two-formatters", s.str(), " want ", want); } }
  mon::nontrivial(h); mon::sample(trace);
}
GROUP(integers, 8000, 150000) {
  switch (R.below(9)) { case 0: numbers<short>(R, "short"); break; case 1: numbers<int>(R, "int"); break; case 2: numbers<long>(R, "long"); break; case 3: numbers<char>(R, "char"); break; case 4: numbers<signed char>(R, "signed char"); break; case 5: numbers<unsigned short>(R, "unsigned short"); break; case 6: numbers<unsigned>(R, "unsigned"); break; case 7: numbers<unsigned long>(R, "unsigned long"); break; default: numbers<unsigned char>(R, "unsigned char"); }
}
template <class T> static T real(mon::Rng& R) { typedef std::numeric_limits<T> L; switch (R.below(8)) { case 0: return (T)R.range(-1000, 1000); case 1: { T a[] = {0, (T)-0.0, L::max(), L::lowest(), L::min(), (T)0.5, (T)1.5, (T)2.5, (T)9.99995, (T)-0.00004, (T)1e20}; return a[R.below(11)]; } case 2: return (T)std::ldexp(R.uniform(-1, 1), (int)R.range(L::min_exponent, L::max_exponent - 1)); case 3: return (T)std::ldexp(R.uniform(-1, 1), (int)R.range(-10, 80)); default: return (T)R.uniform(-10000, 10000); } }
template <class T> static void floats(mon::Rng& R, const char* type) {
  typedef Format<T> F; struct Obj { F f; Set s; }; std::vector<std::unique_ptr<Obj>> objs; uint64_t h = R.s; std::string trace = type; bool temp_before = false; auto prec = [&] { return R.chance(1, 150) ? (int)R.range(61, 1500) : R.chance(1, 8) ? (int)R.range(15, 60) : (int)R.below(12); };
  auto fresh = [&] { Set s{any_width(R), any_align(R), prec(), 0}; if (R.chance(1, 3)) { s = Set{-1, NoAlign, 4, 0}; objs.push_back(std::unique_ptr<Obj>(new Obj{F(), s})); } else objs.push_back(std::unique_ptr<Obj>(new Obj{F(s.w, s.p, s.a, Fixed), s})); trace += " new" + show(s); };
  fresh(); fresh(); expect_refusal(objs[0]->f, "a new formatter of " + trace);
  for (int i = 0, n = R.range(5, 25); i < n; ++i) {
    Obj& o = *objs[R.below(objs.size())]; int w = any_width(R); Alignment a = some_align(R); unsigned p = prec(); T v = real<T>(R); int op = R.below(12); mon::note(trace);
    switch (op) {
      case 0: o.f.width(w); set_width(o.s, w); trace += mon::cat(" width", w); break;
      case 1: o.f.align(a); set_align(o.s, a); trace += mon::cat(" align-", aname(a)); break;
      case 2: o.f.precision(p); o.s.p = p; trace += mon::cat(" precision", p); break;
      case 3: o.f(p, w); set_width(o.s, w); o.s.p = p; trace += mon::cat(" set(", p, ",", w, ")"); break;
      case 4: o.f(p, w, a, Fixed); set_width(o.s, w); o.s.p = p; set_align(o.s, a); trace += mon::cat(" set(", p, ",", w, ",", aname(a), ")"); break;
      case 5: { Set t = o.s; t.p = p; set_width(t, w); trace += mon::cat(" once(", p, ",", w, ")"); if (R.chance(1, 4)) o.f(real<T>(R), prec(), any_width(R), some_align(R), Fixed); o.f(v, p, w); if (R.chance(1, 4)) waiting_copy(R, o.f, pad(float_text(v, t.p), t), [&](F& k) { expect(k(v), pad(float_text(v, o.s.p), o.s), trace + " of a copy" + show(o.s)); }, trace); expect(o.f, pad(float_text(v, t.p), t), mon::cat(trace, show(o.s), " of ", v)); temp_before = true; continue; }
      case 6: { Set t = o.s; t.p = p; set_width(t, w); set_align(t, a); trace += mon::cat(" once(", p, ",", w, ",", aname(a), ")"); if (R.chance(1, 4)) o.f(real<T>(R), prec(), any_width(R)); o.f(v, p, w, a, Fixed); if (R.chance(1, 4)) waiting_copy(R, o.f, pad(float_text(v, t.p), t), [&](F& k) { expect(k(v), pad(float_text(v, o.s.p), o.s), trace + " of a copy" + show(o.s)); }, trace); expect(o.f, pad(float_text(v, t.p), t), mon::cat(trace, show(o.s), " of ", v)); temp_before = true; continue; }
      case 7: expect_refusal(o.f, trace); break;
      case 8: { std::unique_ptr<Obj> c(new Obj{o.f, o.s}); T u = real<T>(R); o.f.width(w); set_width(o.s, w); o.f.precision(p); o.s.p = p; expect(c->f(u), pad(float_text(u, c->s.p), c->s), trace + " copy"); objs.push_back(std::move(c)); trace += " copied"; if (R.flip()) { objs.erase(objs.begin()); trace += " first-gone"; } if (R.flip()) { Obj& d = *objs[R.below(objs.size())]; Obj& e = *objs[R.below(objs.size())]; d.f = e.f; d.s = e.s; trace += " assigned"; } continue; }
      default: { o.f(real<T>(R)); o.f(v); CHECK(o.f.width() == o.s.w && o.f.precision() == o.s.p, "settings-reported", trace, ": width ", o.f.width(), " precision ", o.f.precision(), " want ", show(o.s)); expect(o.f, pad(float_text(v, o.s.p), o.s), mon::cat(trace, show(o.s), " of ", v)); if (temp_before) mon::obs("one-off settings followed by an output without"); if (R.chance(1, 3)) expect_refusal(o.f, trace + " again"); }
    }
    h = mon::mix(h, op * 1000 + w + p * 7);
  }
  for (auto& o : objs) { T v = real<T>(R); expect(o->f(v), pad(float_text(v, o->s.p), o->s), trace + " at the end" + show(o->s)); }
  mon::nontrivial(h); mon::sample(trace);
}
GROUP(reals, 6000, 100000) { if (R.flip()) floats<float>(R, "float"); else floats<double>(R, "double"); }
GROUP(strings, 4000, 60000) {
  typedef Format<std::string> F; struct Obj { F f; Set s; }; std::vector<std::unique_ptr<Obj>> objs; std::string trace = "string"; bool temp_before = false;
  auto fresh = [&] { Set s{any_width(R), any_align(R), 0, 0}; if (R.chance(1, 3)) { s = Set{-1, NoAlign, 0, 0}; objs.push_back(std::unique_ptr<Obj>(new Obj{F(), s})); } else objs.push_back(std::unique_ptr<Obj>(new Obj{F(s.w, s.a), s})); trace += " new" + show(s); };
  auto text = [&] { std::string t; for (int i = R.chance(1, 10) ? (int)R.range(50, 300) : (int)R.below(20); i > 0; --i) t += (char)(R.chance(1, 5) ? ' ' : R.chance(1, 20) ? R.next() : R.range(33, 126)); return t; };
  fresh(); fresh(); expect_refusal(objs[0]->f, "a new formatter of " + trace);
  for (int i = 0, n = R.range(5, 25); i < n; ++i) {
    Obj& o = *objs[R.below(objs.size())]; int w = any_width(R); Alignment a = any_align(R); std::string v = text(); mon::note(trace);
    switch (R.below(9)) {
      case 0: o.f.width(w); o.s.w = w; trace += mon::cat(" width", w); break; case 1: o.f.align(a); o.s.a = a; trace += mon::cat(" align-", aname(a)); break; case 2: o.f(w, a); o.s.w = w; o.s.a = a; trace += mon::cat(" set(", w, ",", aname(a), ")"); break;
      case 3: { Set t = o.s; t.w = w; trace += mon::cat(" once(", w, ")"); if (R.chance(1, 4)) o.f(text(), any_width(R), any_align(R)); o.f(v, w); if (R.chance(1, 4)) waiting_copy(R, o.f, pad(v, t), [&](F& k) { expect(k(v), pad(v, o.s), trace + " of a copy" + show(o.s)); }, trace); expect(o.f, pad(v, t), trace + show(o.s)); temp_before = true; break; }
      case 4: { Set t{w, a, 0, 0}; trace += mon::cat(" once(", w, ",", aname(a), ")"); if (R.chance(1, 4)) o.f(text(), any_width(R)); o.f(v, w, a); if (R.chance(1, 4)) waiting_copy(R, o.f, pad(v, t), [&](F& k) { expect(k(v), pad(v, o.s), trace + " of a copy" + show(o.s)); }, trace); expect(o.f, pad(v, t), trace + show(o.s)); temp_before = true; break; }
      case 5: expect_refusal(o.f, trace); break;
      case 6: { std::unique_ptr<Obj> c(new Obj{o.f, o.s}); o.f.width(w); o.s.w = w; expect(c->f(v), pad(v, c->s), trace + " copy"); objs.push_back(std::move(c)); trace += " copied"; if (R.flip()) objs.erase(objs.begin()); break; }
      default: o.f(text()); expect(o.f(v), pad(v, o.s), trace + show(o.s)); if (temp_before) mon::obs("one-off settings followed by an output without");
    }
  }
  for (auto& o : objs) { std::string v = text(); expect(o->f(v), pad(v, o->s), trace + " at the end" + show(o->s)); }
  mon::nontrivial(mon::hash(trace)); mon::sample(trace);
}
