// C14: numbers and text convert into each other without loss or silent error.
#include "mon.hpp"
#include <ecl/converters/char.hpp>
#include <ecl/converters/char_strings.hpp>
#include <ecl/converters/string.hpp>
#include <ecl/converters/integers.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <memory>
#include <cmath>
#include <climits>
using ecl::Converter;
REQUIRE_OBS("integers converted to text", 50000); REQUIRE_OBS("buffers too small", 5000); REQUIRE_OBS("floating numbers converted to text", 5000); REQUIRE_OBS("texts converted to integers", 1000); REQUIRE_OBS("texts refused", 1000); REQUIRE_OBS("floating texts cut to the buffer", 300);
template <class C, class F> static bool refused(C& conv, F f) {
#ifdef NDEBUG
  f(); return conv.error().flag() != ecl::NoError;
#else
  try { f(); } catch (const ecl::StandardException&) { return true; } (void)conv; return false;
#endif
}
template <class T> static std::string plain(T v) { char b[64]; if (std::numeric_limits<T>::is_signed) snprintf(b, 64, "%lld", (long long)v); else snprintf(b, 64, "%llu", (unsigned long long)v); return b; }
template <> std::string plain<bool>(bool v) { return v ? "true" : "false"; }
// an external buffer of `room` characters of text plus the terminator, its end at the very end of a heap block
struct Ext { std::unique_ptr<char[]> p; size_t room; explicit Ext(size_t n) : p(new char[n + 1]), room(n) { memset(p.get(), '~', n + 1); } char* begin() { return p.get(); } char* end() { return p.get() + room; } };
static void check_text(const char* got, const std::string& want, size_t room, const char* lo, const char* hi, const std::string& what) {
  bool fits = want.size() <= room; if (!fits) { CHECK(got == 0, "too-small-buffer-accepted", what, " in room for ", room, " gave ", got ? mon::quote(std::string(got).substr(0, 60)) : "nothing"); mon::obs("buffers too small"); return; }
  if (!got) { mon::fail("text-refused", what); return; } CHECK(want == got, "integer-text", what, " gave ", mon::quote(got), " want ", want); if (lo) CHECK(got >= lo && got + want.size() <= hi, "text-outside-buffer", what);
}
template <class T> static void integral(mon::Rng& R, const char* type) {
  std::vector<T> vs; for (int i = 0; i < 6; ++i) vs.push_back(R.integer<T>()); vs.push_back(std::numeric_limits<T>::min()); vs.push_back(std::numeric_limits<T>::max()); vs.push_back(0);
  static Converter<char*, T> internal; static Converter<char*> family; size_t n = R.range(1, 24); Converter<char*, T> sized((int)n + 1); Converter<char*> sized_family((int)n + 1); Ext e(R.below(24)), f(R.below(24)); Converter<char*, T> ext(e.begin(), e.end()); Converter<char*> ext_family(f.begin(), f.end());
  for (T v : vs) {
    std::string w = plain(v), what = std::string(type) + " " + w; mon::note(what); check_text(internal(v), w, 249, 0, 0, what); check_text(family(v), w, 249, 0, 0, what + " (family)");
    check_text(sized(v), w, n, 0, 0, what + " (own buffer)"); check_text(sized_family(v), w, n, 0, 0, what + " (family's own buffer)"); check_text(ext(v), w, e.room, e.begin(), e.end(), what + " (given buffer)"); check_text(ext_family(v), w, f.room, f.begin(), f.end(), what + " (family, given buffer)"); mon::obs("integers converted to text");
  }
}
GROUP(integers_to_text, 1500, 80000) {
  integral<char>(R, "char"); integral<unsigned char>(R, "unsigned char"); integral<short>(R, "short"); integral<unsigned short>(R, "unsigned short"); integral<int>(R, "int"); integral<unsigned>(R, "unsigned"); integral<long>(R, "long"); integral<unsigned long>(R, "unsigned long"); integral<long long>(R, "long long"); integral<unsigned long long>(R, "unsigned long long"); mon::nontrivial(R.s); mon::sample("nine values of each of ten types through six kinds of buffer");
}
// every value of the 16 bit types and every char
GROUP(small_types_whole, 64, 64) {
  Converter<char*, short> s; Converter<char*, unsigned short> u; Converter<std::string, int> str; Converter<int, std::string> back; Converter<char*> family; for (int i = 0; i < 1024; ++i) { int v = (int)mon::current_case * 1024 + i; CHECK(plain((short)v) == s((short)v), "integer-text", "short ", (short)v); CHECK(plain((unsigned short)v) == u((unsigned short)v), "integer-text", "unsigned short ", v); int w = (short)v; CHECK(plain(w) == str(w), "string-text", w); CHECK(back(str(w)) == w, "round-trip", w); CHECK(plain(w) == family(w), "integer-text", "family ", w); mon::obs("integers converted to text", 4); }
  if (mon::current_case == 0) { Converter<char*, char> c; Converter<char*, unsigned char> uc; for (int i = 0; i < 256; ++i) { CHECK(plain((char)i) == c((char)i), "integer-text", "char ", i); CHECK(plain((unsigned char)i) == uc((unsigned char)i), "integer-text", "unsigned char ", i); } }
  mon::nontrivial(mon::current_case); mon::sample("1024 consecutive values of the 16 bit types");
}
template <class F> static F floating(mon::Rng& R) {
  switch (R.below(8)) { case 0: return (F)R.range(-1000, 1000); case 1: return (F)(R.range(-100000, 100000) / 8.0); case 2: { F a[] = {0, (F)-0.0, std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), std::numeric_limits<F>::min(), std::numeric_limits<F>::denorm_min(), (F)0.5, (F)1.5, (F)2.5, (F)9.9999999, (F)0.05}; return a[R.below(11)]; } case 3: return (F)std::ldexp(R.uniform(-1, 1), (int)R.range(std::numeric_limits<F>::min_exponent, std::numeric_limits<F>::max_exponent - 1)); case 4: return (F)std::ldexp(R.uniform(-1, 1), (int)R.range(-10, 40)); default: return (F)R.uniform(-1000, 1000); }
}
template <class F> static std::string fixed(F v, int prec) { char b[600]; snprintf(b, 600, prec < 0 ? "%f" : "%.*f", prec, (double)v); if (prec < 0) snprintf(b, 600, "%f", (double)v); return b; }
// the whole text when it fits, else its beginning up to the buffer's end
static void check_float(const char* got, const std::string& want, size_t room, const std::string& what) {
  if (!got) { mon::fail("floating-text", what + " gave nothing"); return; } std::string g(got); size_t least = std::min(want.size(), room ? room - 1 : 0); CHECK(g.size() >= least && g.size() <= want.size() && g == want.substr(0, g.size()), "floating-text", what, " gave ", mon::quote(g), " want ", want, " in room for ", room); mon::obs("floating numbers converted to text"); if (g.size() < want.size()) mon::obs("floating texts cut to the buffer");
}
template <class F> static void floats(mon::Rng& R, const char* type) {
  static Converter<char*, F> internal; static Converter<char*> family; int n = R.range(2, 60); Converter<char*, F> sized(n + 1); Ext e(R.range(1, 60)), f(R.range(1, 400)); Converter<char*, F> ext(e.begin(), e.end()); Converter<char*> ext_family(f.begin(), f.end());
  for (int i = 0; i < 8; ++i) { F v = floating<F>(R); int prec = R.chance(1, 4) ? -1 : (int)R.below(21); std::string w = fixed(v, prec), what = mon::cat(type, " ", v, " precision ", prec); mon::note(what);
    check_float(internal(v, prec), w, 249, what); check_float(family(v, prec), w, 249, what + " (family)"); check_float(sized(v, prec), w, n, what + " (own buffer)"); check_float(ext(v, prec), w, e.room, what + " (given buffer)"); check_float(ext_family(v, prec), w, f.room, what + " (family, given buffer)");
    if (prec < 0) { check_float(internal(v), w, 249, what); check_float(family(v), w, 249, what); }
    if (w.size() < 200 && prec >= 0) { double back = strtod(internal(v, prec), 0); CHECK(std::fabs(back - (double)v) <= 0.5001 * std::pow(10.0, -prec) + std::fabs((double)v) * 1e-15, "floating-round-trip", what, " came back as ", back); } }
}
GROUP(floats_to_text, 500, 40000) { floats<float>(R, "float"); floats<double>(R, "double"); mon::nontrivial(R.s); mon::sample("floats and doubles at drawn precisions"); }
GROUP(booleans, 200, 5000) {
  Converter<char*, bool> b; Converter<char*> family; Ext e(R.below(8)); Converter<char*> ext(e.begin(), e.end()); Converter<char*> sized(R.range(1, 8)); (void)sized; for (int i = 0; i < 6; ++i) { bool v = R.flip(); std::string w = plain(v); check_text(b(v), w, 5, 0, 0, "bool " + w); check_text(family(v), w, 249, 0, 0, "bool " + w + " (family)"); check_text(ext(v), w, e.room, e.begin(), e.end(), "bool " + w + " (given buffer)"); check_text(Converter<char*>(e.begin(), e.end())(v), w, e.room, e.begin(), e.end(), "bool " + w); } mon::nontrivial(R.s); mon::sample("booleans");
}
// one family converter used for everything in turn, sharing one buffer
GROUP(mixed_use, 400, 30000) {
  Converter<char*> c; for (int i = 0; i < 30; ++i) switch (R.below(6)) { case 0: { int v = R.integer<int>(); CHECK(plain(v) == c(v), "integer-text", "mixed int ", v); break; } case 1: { unsigned long v = R.integer<unsigned long>(); CHECK(plain(v) == c(v), "integer-text", "mixed unsigned long ", v); break; } case 2: { double v = floating<double>(R); int p = R.below(21); check_float(c(v, p), fixed(v, p), 249, mon::cat("mixed double ", v)); break; } case 3: { bool v = R.flip(); CHECK(plain(v) == c(v), "boolean-text", "mixed bool ", v); break; } case 4: { char v = (char)R.next(); CHECK(plain(v) == c(v), "integer-text", "mixed char ", (int)v); break; } default: { float v = floating<float>(R); int p = R.range(-1, 20); check_float(c(v, p), fixed(v, p), 249, mon::cat("mixed float ", v)); } }
  mon::nontrivial(R.s); mon::sample("thirty conversions of any type through one converter");
}
GROUP(digits, 300, 5000) {
  Converter<char, int> ci; Converter<char, unsigned> cu; Converter<char> c; Converter<int, char> ic; Converter<int> fi;
  for (int i = 0; i < 20; ++i) { int v = R.chance(2, 3) ? (int)R.below(10) : R.integer<int>(); bool ok = v >= 0 && v <= 9; { Converter<char, int> k; char g = 0; bool r = refused(k, [&] { g = k(v); }); CHECK(r == !ok && (!ok || g == '0' + v), "digit", "int ", v, " gave ", (int)g); } { Converter<char, unsigned> k; char g = 0; bool r = refused(k, [&] { g = k((unsigned)v); }); CHECK(r == !ok && (!ok || g == '0' + v), "digit", "unsigned ", v, " gave ", (int)g); } if (ok) CHECK(c(v) == '0' + v && c((unsigned)v) == '0' + v && ci(v) == '0' + v && cu(v) == '0' + v, "digit", "family ", v); mon::obs(ok ? "texts converted to integers" : "texts refused"); }
  for (int i = 0; i < 256; ++i) { char ch = (char)i; bool ok = ch >= '0' && ch <= '9'; Converter<int, char> k; int g = -77; bool r = refused(k, [&] { g = k(ch); }); CHECK(r == !ok, "digit-char", "char ", i); if (ok) CHECK(g == ch - '0' && fi(ch) == g, "digit-char", "char ", i, " gave ", g);
#ifdef NDEBUG
    else CHECK(g == -1, "digit-char-failure", "char ", i, " gave ", g);
#endif
  }
  mon::nontrivial(R.s); mon::sample("digits and all characters");
}
GROUP(text_to_int, 2500, 150000) {
  long long v = R.integer<int>(); std::string t = std::to_string(v); switch (R.below(12)) { case 0: case 1: case 2: break; case 3: t = std::to_string((long long)(R.flip() ? INT_MAX : INT_MIN) + R.range(-3, 3)); break; case 4: t = std::to_string((long long)R.next() >> R.below(34)); break; case 5: t += "0123456789.,-+eExX abcf\n\t"[R.below(25)]; break; case 6: t.insert(R.below(t.size() + 1), 1, "0123456789.-x e"[R.below(15)]); break; case 7: t = ""; break; case 8: t = "-"; break; case 9: t = std::string(R.below(30), '0') + std::to_string(v < 0 ? -(v + 1) : v); break; case 10: { t.clear(); for (int i = R.below(8); i > 0; --i) t += "0123456789.-+xe z"[R.below(17)]; break; } default: t += std::string(1, '\0'); }
  if (!t.empty() && (isspace((unsigned char)t[0]) || t[0] == '+')) { mon::obs("texts not judged"); return; } // blanks and plus signs in front are the stream's business
  bool ok = !t.empty(); size_t i = t[0] == '-'; if (i == t.size()) ok = false; __int128 n = 0; for (size_t k = i; k < t.size() && ok; ++k) { if (t[k] < '0' || t[k] > '9') ok = false; else if (n < ((__int128)1 << 100)) n = n * 10 + (t[k] - '0'); } if (i) n = -n; if (n > INT_MAX || n < INT_MIN) ok = false;
  mon::note(mon::quote(t)); Converter<int, std::string> conv; int g = 7; bool r = refused(conv, [&] { g = conv(t); }); CHECK(r == !ok, ok ? "good-text-refused" : "bad-text-accepted", mon::quote(t), " gave ", g); if (ok) { CHECK(g == (int)n, "text-value", mon::quote(t), " gave ", g); Converter<int> f; CHECK(f(t) == (int)n, "text-value", "family ", mon::quote(t)); mon::obs("texts converted to integers"); Converter<std::string> s; Converter<std::string, int> s2; CHECK(s((int)n) == plain((int)n) && s2((int)n) == plain((int)n), "string-text", (int)n, " gave ", s((int)n)); CHECK(conv(s((int)n)) == g, "round-trip", g); }
  else { mon::obs("texts refused");
#ifdef NDEBUG
    CHECK(g == INT_MIN, "failure-value", mon::quote(t), " gave ", g); CHECK(conv.error().flag() == ecl::ConversionError, "failure-error", "");
#endif
    Converter<int, std::string> again; CHECK(again("-42") == -42, "text-value", "after a refusal"); }
  mon::nontrivial(mon::hash(t)); mon::sample(mon::quote(t));
}
