// C13: byte array conversions are exact inverses in the documented (little endian) order.
#include "mon.hpp"
#include <ecl/converters/to_byte_array.hpp>
#include <ecl/converters/from_byte_array.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/converters.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <memory>
using ecl::Converter; using ecl::Array; using ecl::Stencil;
REQUIRE_OBS("values written as bytes", 30000); REQUIRE_OBS("values read from bytes", 50000); REQUIRE_OBS("sizes refused", 5000); REQUIRE_OBS("hex texts converted", 500); REQUIRE_OBS("hex texts refused", 500);
typedef unsigned char uchar; typedef signed char schar;
static std::string hex(const std::vector<uchar>& b) { std::string s; char t[8]; for (uchar c : b) { snprintf(t, 8, "%02x ", c); s += t; } return s; }
// the outcome of a call: refused (exception or error state) or done
template <class C, class F> static bool refused(C& conv, F f) {
#ifdef NDEBUG
  f(); return conv.error().flag() == ecl::ConversionError;
#else
  try { f(); } catch (const ecl::StandardException& e) { CHECK(e.flag() == ecl::ConversionError, "refusal-flag", e.what()); return true; } (void)conv; return false;
#endif
}
template <class I> static std::vector<uchar> bytes_of(I v) { std::vector<uchar> b; unsigned __int128 u = (unsigned __int128)(__int128)v; for (size_t i = 0; i < sizeof(I); ++i) { b.push_back((uchar)(u & 255)); u >>= 8; } return b; }
template <class I> static I value_of(const std::vector<uchar>& b) { unsigned __int128 u = 0; for (size_t i = b.size(); i-- > 0;) u = (u << 8) | b[i]; unsigned __int128 m = ((unsigned __int128)1 << (8 * sizeof(I))); if (std::numeric_limits<I>::is_signed && b.size() == sizeof(I) && (b.back() & 128)) return (I)((__int128)u - (__int128)m); return (I)u; }
static uint64_t fp;
// write v into storage `s` (of the right size or not); `peek` returns all bytes of the storage and of what surrounds it
template <class S, class I, class P> static void write(const char* what, Converter<S, I>& conv, S& s, I v, size_t offset, P peek) {
  std::vector<uchar> before = peek(), want = before; size_t n = s.size(); bool ok = n == sizeof(I); std::vector<uchar> b = bytes_of(v); if (ok) std::copy(b.begin(), b.end(), want.begin() + offset);
  mon::note(mon::cat(what, ": writing ", (long long)v, " of ", sizeof(I), " bytes into ", n)); Converter<S, I> fresh; const S* back = 0; bool r = refused(fresh, [&] { back = &fresh(s, v); });
  CHECK(r == !ok, ok ? "write-refused" : "wrong-size-accepted", what, " of ", n, " bytes for a value of ", sizeof(I)); if (ok) CHECK(back == &s, "write-returns-storage", what);
  std::vector<uchar> after = peek(); CHECK(after == want, ok ? "bytes-written" : "refused-write-touched-storage", what, ": value ", (long long)v, " gave ", hex(after), " want ", hex(want));
  if (ok) { CHECK(fresh.error().flag() == ecl::NoError, "write-error-state", what); s = conv(s, v); CHECK(peek() == want, "bytes-written", what, " again"); } else CHECK(fresh.error().flag() == ecl::ConversionError, "refusal-error-state", what);
  mon::obs(ok ? "values written as bytes" : "sizes refused"); fp = mon::mix(fp, (uint64_t)v + n);
}
template <class I, class S> static void read(const char* what, const S& s, const std::vector<uchar>& b) {
  bool ok = b.size() <= sizeof(I); mon::note(mon::cat(what, ": reading ", b.size(), " bytes into a value of ", sizeof(I))); Converter<I, S> conv; I v = 0; bool r = refused(conv, [&] { v = conv(s); });
  CHECK(r == !ok, ok ? "read-refused" : "too-long-accepted", what, " of ", b.size(), " bytes for ", sizeof(I)); if (!ok) { mon::obs("sizes refused"); return; }
  I w = value_of<I>(b); CHECK(v == w, "value-read", what, " of ", b.size(), " bytes ", hex(b), "into ", sizeof(I), std::numeric_limits<I>::is_signed ? " signed" : " unsigned", " gave ", (long long)v, " want ", (long long)w);
  I v2 = conv(s); CHECK(v2 == w, "value-read", what, " a second time"); CHECK(conv.error().flag() == ecl::NoError, "read-error-state", what); mon::obs("values read from bytes"); fp = mon::mix(fp, (uint64_t)v);
}
template <class S> static void read_all(const char* what, const S& s, const std::vector<uchar>& b) { read<short>(what, s, b); read<unsigned short>(what, s, b); read<int>(what, s, b); read<unsigned>(what, s, b); read<long>(what, s, b); read<unsigned long>(what, s, b); read<long long>(what, s, b); read<unsigned long long>(what, s, b); }
static size_t size_for(mon::Rng& R, size_t want) { if (R.chance(1, 120)) { mon::obs("great containers"); return (R.chance(1, 4) ? 65536 : 256 * R.range(1, 3)) + (R.flip() ? 0 : want - 1 + R.below(3)); } return R.chance(3, 5) ? want : R.chance(1, 2) ? R.below(2 * want + 2) : (size_t)std::vector<int>{0, 1, 2, 4, 8, 16}[R.below(6)]; }
static std::vector<uchar> random_bytes(mon::Rng& R, size_t n) { std::vector<uchar> b(n); int kind = R.below(4); for (auto& c : b) c = kind == 0 ? (uchar)R.next() : kind == 1 ? (R.flip() ? 0 : 255) : kind == 2 ? (uchar)(127 + R.below(3)) : (uchar)(R.chance(1, 6) ? R.next() : 0); return b; }
template <class C, class I> static void vector_write(mon::Rng& R, const char* what) {
  static Converter<std::vector<C>, I> conv; size_t n = size_for(R, sizeof(I)); std::vector<uchar> init = random_bytes(R, n); std::vector<C> s(init.begin(), init.end()); s.shrink_to_fit();
  write<std::vector<C>, I>(what, conv, s, R.integer<I>(), 0, [&] { return std::vector<uchar>(s.begin(), s.end()); });
}
template <class C, class I> static void array_write(mon::Rng& R, const char* what) {
  static Converter<Array<C>, I> conv; size_t n = size_for(R, sizeof(I)); std::vector<uchar> init = random_bytes(R, n); Array<C> s(n); for (size_t i = 0; i < n; ++i) s[i] = (C)init[i];
  write<Array<C>, I>(what, conv, s, R.integer<I>(), 0, [&] { std::vector<uchar> r; for (size_t i = 0; i < s.size(); ++i) r.push_back((uchar)s[i]); return r; });
}
template <class C, class I> static void stencil_write(mon::Rng& R, const char* what) {
  typedef Array<C, 24> A; Array<C, 24> a; std::vector<uchar> init = random_bytes(R, 24); for (int i = 0; i < 24; ++i) a[i] = (C)init[i]; size_t n = std::min<size_t>(size_for(R, sizeof(I)), 24), at = R.below(24 - n + 1);
  static Converter<Stencil<A>, I> conv; Stencil<A> s(a, a.begin() + at, a.begin() + at + n); write<Stencil<A>, I>(what, conv, s, R.integer<I>(), at, [&] { std::vector<uchar> r; for (int i = 0; i < 24; ++i) r.push_back((uchar)a[i]); return r; });
}
template <class I> static void stencil_vector_write(mon::Rng& R) {
  typedef std::vector<uchar> A; A a = random_bytes(R, 24); size_t n = std::min<size_t>(size_for(R, sizeof(I)), 24), at = R.below(24 - n + 1);
  static Converter<Stencil<A>, I> conv; Stencil<A> s(a, a.begin() + at, a.begin() + at + n); write<Stencil<A>, I>("stencil of vector<uchar>", conv, s, R.integer<I>(), at, [&] { return a; });
}
template <class C> static void all_writes(mon::Rng& R, const char* v, const char* a, const char* s) {
  vector_write<C, int>(R, v); vector_write<C, unsigned>(R, v); vector_write<C, long>(R, v); vector_write<C, unsigned long>(R, v); vector_write<C, long long>(R, v);
  array_write<C, short>(R, a); array_write<C, unsigned short>(R, a); array_write<C, int>(R, a); array_write<C, unsigned>(R, a); array_write<C, long>(R, a); array_write<C, unsigned long>(R, a); array_write<C, long long>(R, a); array_write<C, unsigned long long>(R, a);
  stencil_write<C, short>(R, s); stencil_write<C, unsigned short>(R, s); stencil_write<C, int>(R, s); stencil_write<C, unsigned>(R, s); stencil_write<C, long>(R, s); stencil_write<C, unsigned long>(R, s); stencil_write<C, long long>(R, s); stencil_write<C, unsigned long long>(R, s);
}
static void hush() { static FILE* f = freopen("/dev/null", "w", stdout); (void)f; }  // the converters announce size mismatches on stdout
REQUIRE_OBS("great containers", 150); REQUIRE_OBS("great texts of bytes", 20);
GROUP(writing, 700, 60000) {
  hush(); fp = R.s; all_writes<char>(R, "vector<char>", "Array<char>", "stencil of Array<char>"); all_writes<schar>(R, "vector<signed char>", "Array<signed char>", "stencil of Array<signed char>"); all_writes<uchar>(R, "vector<unsigned char>", "Array<unsigned char>", "stencil of Array<unsigned char>");
  stencil_vector_write<int>(R); stencil_vector_write<unsigned>(R); stencil_vector_write<long>(R); stencil_vector_write<long long>(R); mon::nontrivial(fp); mon::sample("one value of each type into each kind of container");
}
template <class C, size_t N> static void fixed_reads(mon::Rng& R, const char* what) { std::vector<uchar> b = random_bytes(R, N); Array<C, N> a; for (size_t i = 0; i < N; ++i) a[i] = (C)b[i]; read_all(what, a, b); }
template <class C> static void reads(mon::Rng& R, const char* v, const char* ar, const char* st) {
  { std::vector<uchar> b = random_bytes(R, size_for(R, std::vector<int>{1, 2, 4, 8}[R.below(4)])); std::vector<C> s(b.begin(), b.end()); s.shrink_to_fit(); read_all(v, s, b); }
  { std::vector<uchar> b = random_bytes(R, size_for(R, std::vector<int>{1, 2, 4, 8}[R.below(4)])); Array<C> a(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = (C)b[i]; read_all(ar, a, b); }
  switch (R.below(6)) { case 0: fixed_reads<C, 1>(R, ar); break; case 1: fixed_reads<C, 2>(R, ar); break; case 2: fixed_reads<C, 4>(R, ar); break; case 3: fixed_reads<C, 8>(R, ar); break; case 4: fixed_reads<C, 7>(R, ar); break; default: fixed_reads<C, 9>(R, ar); }
  { std::vector<uchar> b = random_bytes(R, 24); Array<C, 24> a; for (int i = 0; i < 24; ++i) a[i] = (C)b[i]; size_t n = std::min<size_t>(24, size_for(R, std::vector<int>{1, 2, 4, 8}[R.below(4)])), at = R.below(24 - n + 1); Stencil<Array<C, 24>> s(a, a.begin() + at, a.begin() + at + n); read_all(st, s, std::vector<uchar>(b.begin() + at, b.begin() + at + n)); }
}
GROUP(reading, 500, 40000) {
  hush(); fp = R.s; reads<char>(R, "vector<char>", "Array<char>", "stencil of Array<char>"); reads<schar>(R, "vector<signed char>", "Array<signed char>", "stencil of Array<signed char>"); reads<uchar>(R, "vector<unsigned char>", "Array<unsigned char>", "stencil of Array<unsigned char>");
  { size_t n = size_for(R, R.flip() ? 4 : 8); std::vector<uchar> b = random_bytes(R, n); std::unique_ptr<uchar[]> raw(new uchar[n]); std::copy(b.begin(), b.end(), raw.get()); const uchar* p = raw.get(); Stencil<const uchar*> s(p, n, p, p + n); read_all("stencil of const unsigned char*", s, b); }
  { std::vector<uchar> b = random_bytes(R, R.below(9)); std::string s(b.begin(), b.end()); if (b.size() <= 8) { ecl::converters::FromByteArray<unsigned long, std::string> f; CHECK(f(s) == value_of<unsigned long>(b), "value-read", "string ", hex(b)); } if (b.size() <= 4) { ecl::converters::FromByteArray<int, std::string> f; CHECK(f(s) == value_of<int>(b), "value-read", "string ", hex(b)); } }
  mon::nontrivial(fp); mon::sample("one byte sequence of each kind of container read as each integral type");
}
// every value of 16 bits and every byte position of wider ones, there and back
template <class S, class I> static void there_and_back(I v) { S s(sizeof(I)); ecl::converters::IntegralToByteArray<S, I> to; ecl::converters::FromByteArray<I, S> from; to(s, v); for (size_t i = 0; i < sizeof(I); ++i) CHECK((uchar)s[i] == bytes_of(v)[i], "bytes-written", (long long)v); CHECK(from(s) == v, "round-trip", "value ", (long long)v, " of ", sizeof(I), " bytes came back as ", (long long)from(s)); mon::obs("values there and back"); }
GROUP(round_trips, 256, 256) {
  hush(); for (int i = 0; i < 256; ++i) { int v = (int)mon::current_case * 256 + i; there_and_back<std::vector<char>, short>((short)v); there_and_back<Array<unsigned char>, unsigned short>((unsigned short)v); for (int shift = 0; shift < 64; shift += 12) { there_and_back<std::vector<signed char>, long>((long)((unsigned long)v << shift)); there_and_back<std::vector<unsigned char>, unsigned long>((unsigned long)v << shift); } there_and_back<std::vector<char>, int>((int)((unsigned)v << 16)); there_and_back<Array<char>, int>(v); there_and_back<std::vector<unsigned char>, unsigned>((unsigned)v << R.below(17)); }
  mon::nontrivial(mon::current_case); mon::sample("256 consecutive 16 bit patterns at every position of every width");
}
GROUP(families, 400, 20000) {
  hush(); Converter<std::vector<char>> c; Converter<std::vector<uchar>> u; Converter<std::vector<schar>> s;
  auto each = [&](auto v) { typedef decltype(v) I; std::vector<char> a(sizeof(I)); std::vector<uchar> b(sizeof(I)); std::vector<schar> d(sizeof(I)); c(a, v); u(b, v); s(d, v); CHECK(b == bytes_of(v), "family-bytes", "unsigned char ", (long long)v); CHECK(std::vector<uchar>(a.begin(), a.end()) == b, "family-bytes", "char ", (long long)v); CHECK(std::vector<uchar>(d.begin(), d.end()) == b, "family-bytes", "signed char ", (long long)v); };
  each(R.integer<int>()); each(R.integer<unsigned>()); each(R.integer<long>()); each(R.integer<unsigned long>()); mon::nontrivial(R.s); mon::sample("family converters");
}
// "0x12 0xAB ..." text: the documented form, and texts with one fault
GROUP(hex_text, 3000, 150000) {
  hush(); std::vector<uchar> b = random_bytes(R, R.chance(1, 400) ? 65000 + R.below(3000) : R.chance(1, 60) ? 200 + R.below(200) : R.below(20)); if (b.size() > 199) mon::obs("great texts of bytes"); std::string t; for (int i = R.below(3); i > 0; --i) t += ' ';
  for (size_t i = 0; i < b.size(); ++i) { char x[8]; snprintf(x, 8, R.flip() ? "0x%02x" : "0x%02X", b[i]); t += x; int n = i + 1 < b.size() ? R.range(1, 3) : R.below(3); for (; n > 0; --n) t += ' '; }
  bool bad = false; std::string good = t;
  if (R.flip() && !t.empty()) { size_t p = R.below(t.size()); switch (R.below(4)) { case 0: t = t.substr(0, p); break; case 1: t[p] = (char)R.range(1, 127); break; case 2: t.erase(p, 1); break; default: t.insert(p, 1, (char)R.range(33, 126)); } }
  // the reference: blank separated or adjacent groups 0xHH
  std::vector<uchar> want; size_t p = 0; for (;;) { while (p < t.size() && t[p] == ' ') ++p; if (p == t.size()) break; auto dig = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }; if (p + 4 <= t.size() && t[p] == '0' && t[p + 1] == 'x' && dig(t[p + 2]) >= 0 && dig(t[p + 3]) >= 0) { want.push_back(dig(t[p + 2]) * 16 + dig(t[p + 3])); p += 4; } else { bad = true; break; } }
  std::unique_ptr<char[]> heap(new char[t.size() + 1]); memcpy(heap.get(), t.c_str(), t.size() + 1); mon::note(t); Converter<std::vector<char>, char*> conv; std::vector<char> got; bool r = refused(conv, [&] { got = conv(heap.get()); });
  CHECK(r == bad, bad ? "bad-hex-accepted" : "good-hex-refused", mon::quote(t)); if (!bad) { CHECK(std::vector<uchar>(got.begin(), got.end()) == want, "hex-bytes", mon::quote(t), " gave ", hex(std::vector<uchar>(got.begin(), got.end()))); mon::obs("hex texts converted"); } else { CHECK(got.empty(), "bad-hex-gave-bytes", mon::quote(t)); mon::obs("hex texts refused"); memcpy(heap.get(), "", 1); 
    // a refused text leaves nothing behind in the converter
    got = conv("0x41 0x42"); CHECK(got.size() == 2 && got[0] == 'A' && got[1] == 'B', "hex-after-refusal", mon::quote(t)); }
  mon::nontrivial(mon::hash(t)); mon::sample(mon::quote(t));
}
