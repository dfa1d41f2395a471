// C16: text streams read back what they wrote.
#include "mon.hpp"
#include <ecl/streams/string_stream.hpp>
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/log_stream.hpp>
#include <ecl/streams/manipulators.hpp>
#include <unistd.h>
#include <functional>
#include <cmath>
#include <climits>
#include <fstream>
#include <memory>
#include <sstream>
REQUIRE_OBS("values written", 20000); REQUIRE_OBS("values read back", 20000); REQUIRE_OBS("texts refused", 2000); REQUIRE_OBS("texts accepted", 2000); REQUIRE_OBS("device errors reported", 200); REQUIRE_OBS("log lines", 300); REQUIRE_OBS("file streams", 100);
// A device of our own: counts what is asked of it and fails where it is told to.
namespace mine { struct Device { std::string in, out; size_t at = 0, fail_at = (size_t)-1, flushes = 0, flushed = 0; bool opened = true;
  bool open() { return opened; } bool isOpen() { return opened; }
  long read(char& c) { if (at == fail_at) return -1; if (at >= in.size()) return 0; c = in[at++]; return 1; }
  long read(char* s, unsigned long n) { unsigned long k = 0; while (k < n && read(s[k]) == 1) ++k; return (long)k; }
  long write(char c) { out += c; return 1; } long write(const char* s, unsigned long n) { out.append(s, n); return (long)n; } void flush() { ++flushes; flushed = out.size(); } }; }
namespace ecl { template <> class is_sink<mine::Device> : public True {}; template <> class is_source<mine::Device> : public True {}; template <> class is_sourcesink<mine::Device> : public True {}; }
typedef ecl::TextStream<mine::Device> Mine;
enum Kind { CHAR, CSTR, STR, SHORT, INT, LONG, LLONG, USHORT, UINT, ULONG, ULLONG, BOOL, FLOAT, DOUBLE, KINDS };
struct Item { Kind k; std::string text; __int128 n; double d; bool b; };
template <class T> static std::string dec(T v) { std::ostringstream o; o << v; return o.str(); }
static std::string fix(double d) { char b[400]; snprintf(b, 400, "%f", d); return b; }
static std::string word(mon::Rng& R, bool blanks = false) { std::string s; size_t n = R.chance(1, 20) ? R.range(200, 700) : R.range(1, 20); for (size_t i = 0; i < n; ++i) { char c = (char)R.range(33, 126); if (R.chance(1, 12)) c = (char)R.range(128, 255); if (blanks && R.chance(1, 6)) c = " \n\t"[R.below(3)]; s += c; } return s; }
template <class F> static F floating(mon::Rng& R) { switch (R.below(7)) { case 0: return (F)R.range(-1000, 1000); case 1: return (F)(R.range(-1000000, 1000000) / 8.0); case 2: { F a[] = {0, std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), std::numeric_limits<F>::min(), (F)0.5, (F)-0.25, (F)1e9, (F)9.9999999}; return a[R.below(8)]; } case 3: return (F)std::ldexp(R.uniform(-1, 1), (int)R.range(0, std::numeric_limits<F>::max_exponent - 1)); case 4: return (F)std::ldexp(R.uniform(-1, 1), (int)R.range(-30, 60)); default: return (F)R.uniform(-1000, 1000); } }
// insert one drawn item, its separator included, and say what should have appeared
template <class S> static Item put(mon::Rng& R, S& s) {
  Item it; it.k = (Kind)R.below(KINDS); it.n = 0; it.d = 0; it.b = false;
  switch (it.k) {
    case CHAR: { char c = (char)R.range(33, 126); s << c; it.text = std::string(1, c); break; }
    case CSTR: { std::string w = word(R); s << w.c_str(); it.text = w; break; }
    case STR: { std::string w = word(R); s << w; it.text = w; break; }
#define N(K, T) case K: { T v = R.integer<T>(); if (R.chance(1, 8)) v = R.flip() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); if (R.chance(1, 10)) v = (T)R.below(11); s << v; it.n = v; it.text = dec(v); break; }
    N(SHORT, short) N(INT, int) N(LONG, long) N(LLONG, long long) N(USHORT, unsigned short) N(UINT, unsigned) N(ULONG, unsigned long) N(ULLONG, unsigned long long)
#undef N
    case BOOL: it.b = R.flip(); s << it.b; it.text = it.b ? "true" : "false"; break;
    case FLOAT: { float f = floating<float>(R); s << f; it.d = f; it.text = fix(f); break; }
    default: { double f = floating<double>(R); s << f; it.d = f; it.text = fix(f); break; }
  }
  mon::obs("values written"); return it;
}
template <class S> static void get(S& s, const Item& it) {
  const std::string what = mon::cat("kind ", (int)it.k, " ", mon::quote(it.text)); mon::note(what);
  switch (it.k) {
    case CHAR: { char c = 0; s >> c; CHECK(c == it.text[0], "char", what, " read ", (int)c); break; }
    case CSTR: case STR: { std::string w = "before"; s >> w; CHECK(w == it.text, "word", what, " read ", mon::quote(w)); break; }
#define N(K, T) case K: { T v = 77; s >> v; CHECK((__int128)v == it.n, "integer", what, " read ", v); break; }
    N(SHORT, short) N(INT, int) N(LONG, long) N(LLONG, long long) N(USHORT, unsigned short) N(UINT, unsigned) N(ULONG, unsigned long) N(ULLONG, unsigned long long)
#undef N
    case BOOL: { bool b = !it.b; s >> b; CHECK(b == it.b, "bool", what); break; }
    case FLOAT: { float f = 77; s >> f; CHECK(std::fabs((double)f - it.d) <= 5.1e-7 + std::fabs(it.d) * 1.2e-7, "float", what, " read ", f); break; }
    default: { double f = 77; s >> f; CHECK(std::fabs(f - it.d) <= 5.1e-7 + std::fabs(it.d) * 4.5e-16, "double", what, " read ", f); break; }
  }
  CHECK(!s.fail() && s.errorStatus().flag() == ecl::NoError, "fails-on-good-text", what); mon::obs("values read back");
}
static std::string sep(mon::Rng& R, bool last) { if (last && R.flip()) return ""; std::string s; int n = R.chance(1, 4) ? R.range(1, 5) : 1; for (int i = 0; i < n; ++i) s += R.flip() ? ' ' : '\n'; return s; }
// everything written, then everything read
template <class S> static void whole(mon::Rng& R, S& s, std::string (*contents)(S&), size_t (*left)(S&)) {
  std::vector<Item> items; std::string want = sep(R, true); s << want; int n = R.range(1, 25); for (int i = 0; i < n; ++i) { items.push_back(put(R, s)); want += items.back().text; CHECK(contents(s) == want, "text-written", mon::quote(items.back().text), " device ends in ", mon::quote(contents(s).substr(std::min(contents(s).size(), want.size() - items.back().text.size())))); std::string p = sep(R, i + 1 == n); if (p == "\n" && R.flip()) s << ecl::endl; else if (p.size() == 1) s << p[0]; else if (R.flip()) s << p; else s << p.c_str(); want += p; }
  CHECK(contents(s) == want, "text-written", mon::quote(want), " became ", mon::quote(contents(s))); size_t pos = 0;
  for (auto& it : items) { while (pos < want.size() && (want[pos] == ' ' || want[pos] == '\n')) ++pos; get(s, it); pos += it.text.size(); size_t used = want.size() - left(s); CHECK(used >= pos && used <= std::min(pos + (it.k == CHAR ? 0 : 1), want.size()), "reads-further-than-needed", "kind ", (int)it.k, " ", mon::quote(it.text), " ends at ", pos, ", stream is at ", used, " of ", want.size()); }
  // nothing left
  int i = 5; s >> i; CHECK(s.fail() && i == 5, "reads-past-the-end", ""); s << "7 "; s >> i; CHECK(!s.fail() && i == 7, "recovery-after-the-end", i);
  mon::nontrivial(mon::hash(want)); mon::sample(mon::quote(want.substr(0, 150)));
}
static std::string contents(ecl::StringStream& s) { return s.str(); } static size_t left(ecl::StringStream& s) { return s.device().remaining(); }
static std::string contents(Mine& s) { s.device().in = s.device().out; return s.device().out; } static size_t left(Mine& s) { return s.device().in.size() - s.device().at; }
GROUP(string_streams, 3000, 40000) { ecl::StringStream s; whole<ecl::StringStream>(R, s, contents, left); CHECK(s.c_str() == s.str(), "c_str", ""); if (R.flip()) { s.clear(); CHECK(s.str() == "" && s.device().remaining() == 0, "clear", ""); int v = R.integer<int>(), w = 0; s << v; s >> w; CHECK(v == w && s.str() == dec(v), "after-clear", v, " read ", w); } }
GROUP(own_device_streams, 1600, 20000) {
  Mine s; std::vector<Item> items; std::string want; int n = R.range(1, 20); size_t flushes = 0;
  for (int i = 0; i < n; ++i) { items.push_back(put(R, s)); want += items.back().text; switch (R.below(4)) { case 0: s << ecl::endl; want += "\n"; ++flushes; CHECK(s.device().flushed == s.device().out.size(), "endl-does-not-flush", ""); break; case 1: s << ecl::clrscr; want += std::string(80, '\n'); break; case 2: s << " "; want += " "; s.flush(); ++flushes; break; default: s << '\n'; want += "\n"; } }
  CHECK(s.device().out == want, "text-written", mon::quote(want), " became ", mon::quote(s.device().out)); CHECK(s.device().flushes == flushes, "flushes", s.device().flushes, " want ", flushes);
  s.device().in = want; for (auto& it : items) get(s, it); mon::nontrivial(mon::hash(want)); mon::sample(mon::quote(want.substr(0, 120)));
}
// reads and writes in turn on one stream: a queue of values
GROUP(interleaved, 1200, 15000) {
  ecl::StringStream s; std::vector<Item> q; size_t head = 0; int steps = R.range(5, 60); uint64_t h = 0; for (int i = 0; i < steps; ++i) if (head == q.size() || R.flip()) { q.push_back(put(R, s)); s << (R.flip() ? ' ' : '\n'); h = mon::mix(h, q.back().k + 2); } else { get(s, q[head++]); h = mon::mix(h, 1); } while (head < q.size()) get(s, q[head++]); mon::nontrivial(mon::mix(h, R.s)); mon::sample(mon::cat(q.size(), " values, writes and reads in turn"));
}
// ---------------------------------------------------------------- texts of any kind
static std::string token(mon::Rng& R) {
  switch (R.below(13)) {
    case 0: case 1: case 2: return std::to_string((long long)R.integer<long long>()); case 3: return std::to_string(R.integer<unsigned long long>()); case 4: return std::to_string(R.integer<int>()); case 5: return std::to_string(R.integer<short>());
    case 6: { static const __int128 lim[] = {SHRT_MAX, SHRT_MIN, USHRT_MAX, INT_MAX, INT_MIN, UINT_MAX, LONG_MAX, LONG_MIN, ULONG_MAX, 255, 0}; __int128 v = lim[R.below(11)] + R.range(-12, 12); if (R.chance(1, 4)) v *= 10; std::string s; bool neg = v < 0; unsigned __int128 u = neg ? -v : v; do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u); return (neg ? "-" : "") + s; }
    case 7: return std::string(R.below(40), '0') + std::to_string(R.integer<unsigned short>()); case 8: return "+" + std::to_string(R.integer<unsigned>());
    case 9: { std::string s; for (int i = R.range(1, 45); i > 0; --i) s += (char)('0' + R.below(10)); return (R.flip() ? "-" : "") + s; }
    case 10: { std::string s = std::to_string(R.integer<short>()); s.insert(R.below(s.size() + 1), 1, "0123456789.-+xeE,:a"[R.below(19)]); return s; }
    case 11: { static const char* a[] = {"-", "+", "--1", "+-1", "x", ".", "abc", "true", "1.5", "-.5", ".25", "3.", "1,2", "0,", "0.", "00", "-0", "+0", "e5", "1e5"}; return a[R.below(20)]; }
    default: { std::string s; for (int i = R.range(1, 8); i > 0; --i) s += "0123456789.-+, z"[R.below(15)]; return s; }
  }
}
template <class T> static void integer_text(mon::Rng& R, const char* type) {
  std::string lead = R.chance(1, 3) ? sep(R, true) : "", t = token(R), tail = R.flip() ? sep(R, true) : ""; while (!t.empty() && t[0] == ' ') { lead += ' '; t.erase(0, 1); } if (t.empty()) t = "z"; size_t i = 0; bool neg = false; if (t.size() > 1 && t[0] == '0' && t[1] == 'x') return; if (t[0] == 'x') return;
  if (t[0] == '-') { neg = true; ++i; } else if (t[0] == '+') ++i; size_t d = i; __int128 n = 0; bool huge = false; while (i < t.size() && isdigit((unsigned char)t[i])) { if (n < ((__int128)1 << 110)) n = n * 10 + (t[i] - '0'); else huge = true; ++i; } if (neg) n = -n;
  if (neg && !std::numeric_limits<T>::is_signed) { d = i; } bool digits = i > d, fits = !huge && n >= (__int128)std::numeric_limits<T>::min() && n <= (__int128)std::numeric_limits<T>::max();
  ecl::StringStream s; if (R.flip()) s.enableRawCharReads(); s << lead << t << tail; T v = 42; s >> v; std::string what = std::string(type) + " from " + mon::quote(lead + t + tail); mon::note(what); size_t used = lead.size() + t.size() + tail.size() - s.device().remaining();
  if (digits && fits) { CHECK(!s.fail() && (__int128)v == n, "good-text", what, " read ", +v, s.fail() ? " (failed)" : ""); CHECK(used <= lead.size() + i + 1, "reads-further-than-needed", what, " used ", used); mon::obs("texts accepted"); }
  else { CHECK(s.fail(), "bad-text-accepted", what, " read ", +v); CHECK(v == 42, "failed-read-changes-value", what, " left ", +v); mon::obs("texts refused"); if (digits) CHECK(s.errorStatus().flag() == ecl::OutOfRangeError, "error-flag", what); CHECK(used <= lead.size() + std::max(i, (size_t)1) + 1, "reads-further-than-needed", what, " used ", used); }
  mon::nontrivial(mon::hash(what)); mon::sample(what);
}
template <class T> static void hex_text(mon::Rng& R, const char* type) {
  unsigned long long u = R.integer<unsigned long long>() >> R.below(64); if (R.chance(1, 5)) u = (unsigned long long)std::numeric_limits<T>::max() + R.range(-2, 2); char b[40]; snprintf(b, 40, R.flip() ? "%llx" : "%llX", u); std::string t = (R.chance(3, 4) ? "0x" : "x") + std::string(R.chance(1, 4) ? R.below(30) : 0, '0') + b, tail = R.flip() ? sep(R, true) : ""; bool fits = u <= (unsigned long long)std::numeric_limits<T>::max();
  ecl::StringStream s; if (R.flip()) s.enableRawCharReads(); s << t << tail; T v = 42; s >> v; std::string what = std::string(type) + " from " + mon::quote(t + tail); if (fits) { CHECK(!s.fail() && (unsigned long long)v == u, "hex-text", what, " read ", +v); mon::obs("texts accepted"); } else { CHECK(s.fail() && v == 42, "hex-overflow-accepted", what, " read ", +v); mon::obs("texts refused"); }
}
template <class F> static void float_text(mon::Rng& R, const char* type) {
  std::string t; switch (R.below(8)) { case 6: t = (R.flip() ? "-" : "") + std::to_string(R.below(3)) + "." + std::string(R.below(sizeof(F) == 4 ? 38 : 300), '0') + std::to_string(1 + R.below(999999)); break; case 0: t = fix((double)floating<F>(R)); break; case 1: { char b[500]; snprintf(b, 500, "%.*f", (int)R.below(30), (double)floating<F>(R)); t = b; break; } case 2: t = token(R); break; case 3: t = (R.flip() ? "-" : "") + std::string(R.below(20), '0') + "." + std::to_string(R.next()) + (R.flip() ? std::to_string(R.next()) : ""); break; case 4: t = std::to_string(R.next()) + (R.flip() ? "" : "." + std::string(R.below(50), '0') + std::to_string(R.next())); break; default: t = (R.flip() ? "+" : "") + std::to_string(R.below(100000)) + "." + std::to_string(R.below(1000000)); }
  while (!t.empty() && t[0] == ' ') t.erase(0, 1); if (t.empty()) t = "z"; std::string tail = R.flip() ? sep(R, true) : ""; size_t i = t[0] == '-' || t[0] == '+', b = i; size_t k = 0; while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++k; } if (i + 1 < (t + tail).size() && i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char)t[i])) { ++i; ++k; } } else if (i < t.size() && t[i] == '.') return; (void)b;
  ecl::StringStream s; if (R.flip()) s.enableRawCharReads(); s << t << tail; F v = 42; s >> v; std::string what = std::string(type) + " from " + mon::quote(t + tail); mon::note(what); size_t used = t.size() + tail.size() - s.device().remaining();
  if (k == 0) { CHECK(s.fail() && v == 42, "bad-text-accepted", what, " read ", v); mon::obs("texts refused"); return; }
  long double w = strtold(t.substr(0, i).c_str(), 0); F f = (F)w; if (std::isinf(f)) { CHECK(s.fail() && v == 42, "overflow-accepted", what, " read ", v); mon::obs("texts refused"); return; }
  CHECK(!s.fail() && std::fabs((long double)v - w) <= std::fabs(w) * (long double)std::numeric_limits<F>::epsilon() + (long double)std::numeric_limits<F>::denorm_min(), "float-text", what, " read ", v, s.fail() ? " (failed)" : ""); CHECK(used <= i + 1, "reads-further-than-needed", what, " used ", used, " of ", i); mon::obs("texts accepted"); mon::nontrivial(mon::hash(what)); mon::sample(what);
}
GROUP(number_texts, 8000, 100000) {
  integer_text<short>(R, "short"); integer_text<int>(R, "int"); integer_text<long>(R, "long"); integer_text<long long>(R, "long long"); integer_text<unsigned char>(R, "unsigned char"); integer_text<unsigned short>(R, "unsigned short"); integer_text<unsigned>(R, "unsigned"); integer_text<unsigned long>(R, "unsigned long"); integer_text<unsigned long long>(R, "unsigned long long");
  hex_text<short>(R, "short"); hex_text<int>(R, "int"); hex_text<long>(R, "long"); hex_text<unsigned char>(R, "unsigned char"); hex_text<unsigned short>(R, "unsigned short"); hex_text<unsigned>(R, "unsigned"); hex_text<unsigned long long>(R, "unsigned long long"); float_text<float>(R, "float"); float_text<double>(R, "double");
}
GROUP(bool_texts, 300, 10000) {
  static const char* good[] = {"true", "TRUE", "True", "false", "FALSE", "False"}; std::string t; bool ok = R.flip(), want = false; if (ok) { int i = R.below(6); t = good[i]; want = i < 3; } else { t = R.flip() ? word(R) : good[R.below(6)]; if (R.flip()) t += "x"; else if (R.flip()) t[0] = 'x'; else t = R.flip() ? "1" : "0"; for (int i = 0; i < 6; ++i) if (t == good[i]) { ok = true; want = i < 3; } }
  ecl::StringStream s; if (R.flip()) s.enableRawCharReads(); s << sep(R, true) << t << sep(R, true); bool b = R.flip(), before = b; s >> b; if (ok) CHECK(!s.fail() && b == want, "bool", t); else CHECK(s.fail() && b == before, "bad-bool-accepted", mon::quote(t)); mon::obs(ok ? "texts accepted" : "texts refused"); mon::nontrivial(mon::hash(t)); mon::sample(mon::quote(t));
}
// characters one by one, with and without blanks
GROUP(characters, 300, 10000) {
  std::string t = word(R, true); if (R.flip()) t = " " + t; ecl::StringStream s; s << t; bool raw = R.flip(); if (raw) s.enableRawCharReads(); size_t i = 0, n = 0; for (;;) { if (R.chance(1, 15)) { raw = !raw; if (raw) s.enableRawCharReads(); else s.disableRawCharReads(); } if (!raw) while (i < t.size() && (t[i] == ' ' || t[i] == '\n')) ++i; char c = '~'; s >> c; if (i >= t.size()) { CHECK(s.fail(), "char-past-the-end", ""); break; } CHECK(!s.fail() && c == t[i], raw ? "raw-char" : "char", "at ", i, " of ", mon::quote(t), " read ", (int)c); ++i; ++n; CHECK(s.device().remaining() == t.size() - i, "reads-further-than-needed", "char"); }
  mon::nontrivial(mon::hash(t)); mon::sample(mon::quote(t.substr(0, 100)));
}
// the device fails in the middle: no value may be made of what came before, and no device is read after that
template <class T> static void broken(mon::Rng& R, const std::string& t, T v, const char* type) {
  Mine s; s.device().in = t + " "; s.device().fail_at = R.below(t.size()); T before = v; s >> v; CHECK(s.fail(), "device-error-unreported", type, " from ", mon::quote(t), " failing at ", s.device().fail_at); (void)before; mon::obs("device errors reported");
}
GROUP(device_errors, 600, 5000) {
  broken<int>(R, std::to_string(R.integer<int>()), 1, "int"); broken<unsigned long>(R, std::to_string(R.integer<unsigned long>()), 1, "unsigned long"); broken<int>(R, "0x" + std::to_string(R.below(1000)), 1, "hex"); broken<double>(R, fix(R.uniform(-1000, 1000)), 1, "double"); broken<float>(R, fix(R.uniform(-10, 10)), 1, "float"); broken<bool>(R, "false", true, "bool"); broken<std::string>(R, word(R), "x", "string"); broken<char>(R, "c", 'x', "char");
  Mine s; s.device().opened = false; bool threw = false; int v = 3; std::string w; try { switch (R.below(6)) { case 0: s << 1; break; case 1: s << "x"; break; case 2: s << 2.5; break; case 3: s >> v; break; case 4: s >> w; break; default: s.flush(); } } catch (const ecl::StandardException& e) { threw = e.flag() == ecl::OpenError; } CHECK(threw, "closed-device-used", ""); mon::nontrivial(R.s); mon::sample("a device that fails at a drawn place, and a closed one");
}
// ---------------------------------------------------------------- files and logs
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
template <class S> static void file(mon::Rng& R, const std::string& f, bool direct) {
  std::string want; bool fresh = true; for (int round = R.range(1, 3); round > 0; --round) { bool append = !fresh && R.flip(); { S s(f, append ? ecl::Append : ecl::New); CHECK(!s.fail(), "open", f); if (!append) want.clear(); for (int i = R.range(1, 40); i > 0; --i) { Item it = put(R, s); want += it.text; if (R.flip()) { s << '\n'; want += '\n'; } else { s << ecl::endl; want += "\n"; if (direct) CHECK(slurp(f) == want, "endl-does-not-reach-the-file", want.size()); } } s.flush(); if (direct) CHECK(slurp(f) == want, "flush-does-not-reach-the-file", slurp(f).size(), " of ", want.size()); } CHECK(slurp(f) == want, "file-contents", ""); fresh = false; }
  mon::obs("file streams"); mon::nontrivial(mon::hash(want)); mon::sample(mon::quote(want.substr(0, 100))); ::unlink(f.c_str());
}
GROUP(file_streams, 300, 2500) { file<ecl::OFileStream>(R, mon::scratch() + "/o" + dec(mon::current_case), true); file<ecl::SharedFileStream>(R, mon::scratch() + "/s" + dec(mon::current_case), false); }
GROUP(log_streams, 500, 3000) {
  std::string f = mon::scratch() + "/l" + dec(mon::current_case); struct Line { bool stamp, header, any; std::string h, text; }; std::vector<Line> lines; std::map<int, std::string> modes; bool stamp = true, header = true; struct timespec a, b, a2, b2; clock_gettime(CLOCK_REALTIME, &a); clock_gettime(CLOCK_MONOTONIC, &a2); bool raii = R.flip();
  { ecl::LogStream* p = raii ? new ecl::LogStream(f, ecl::New) : new ecl::LogStream; std::unique_ptr<ecl::LogStream> own(p); ecl::LogStream& log = *p; if (!raii) log.device().open(f, ecl::New);
    int n = R.range(5, 40); for (int i = 0; i < n; ++i) { int m = R.below(5); switch (R.below(9)) { case 0: { std::string h = word(R).substr(0, 10); log.enableMode(m, h); modes[m] = h; break; } case 1: log.disableMode(m); modes.erase(m); break; case 2: if ((stamp = R.flip())) log.enableTimeStamp(); else log.disableTimeStamp(); break; case 3: if ((header = R.flip())) log.enableHeader(); else log.disableHeader(); break; case 4: CHECK(log.isEnabled() == !modes.empty() && log.isModeEnabled(m) == (modes.count(m) > 0), "mode-state", ""); FLUSH(log) break; default: { std::string t = "text" + dec(R.next()); int evaluated = 0; LOG(log, m) << (++evaluated, t) << " " << 3 << "\n"; CHECK(evaluated == (int)modes.count(m), "log-evaluation", ""); if (modes.count(m)) lines.push_back(Line{stamp, header, true, modes[m], t + " 3"}); } } }
    log.flush(); }
  clock_gettime(CLOCK_REALTIME, &b); clock_gettime(CLOCK_MONOTONIC, &b2); std::istringstream in(slurp(f)); std::string l; size_t i = 0; while (std::getline(in, l)) { if (i >= lines.size()) { mon::fail("log-extra-line", mon::quote(l)); break; } const Line& w = lines[i++]; std::string rest = l; if (w.stamp) { size_t sp = l.find(' '); char* e = 0; long long sec = strtoll(l.c_str(), &e, 10); CHECK(sp != std::string::npos && *e == '.' && e + 10 == l.c_str() + sp && ((sec >= (long long)a.tv_sec - 1 && sec <= (long long)b.tv_sec + 1) || (sec >= (long long)a2.tv_sec - 1 && sec <= (long long)b2.tv_sec + 1)), "log-time-stamp", mon::quote(l), " want a time in ", (long)a.tv_sec, "..", (long)b.tv_sec); if (sp != std::string::npos) rest = l.substr(sp + 1); } std::string want = (w.header ? "[" + w.h + "] " : "") + (w.stamp || w.header ? ": " : "") + w.text; CHECK(rest == want, "log-line", mon::quote(rest), " want ", mon::quote(want)); mon::obs("log lines"); }
  CHECK(i == lines.size(), "log-lines-missing", i, " of ", lines.size()); ::unlink(f.c_str()); mon::nontrivial(R.s); mon::sample(mon::cat(lines.size(), " log lines"));
}

// long words, long gaps, long numbers and thousands of values
REQUIRE_OBS("great texts", 60); REQUIRE_OBS("thousands of values", 10);
GROUP(great_texts, 60, 2000) {
  size_t base[] = {127, 255, 256, 300, 1000, 1023, 1024, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 131072}; auto big = [&] { return base[R.below(15)] + R.range(-1, 1); }; std::string want; ecl::StringStream s; Mine d; std::vector<std::string> words; std::vector<int> numbers; uint64_t h = 0;
  for (int n = R.range(1, 4); n > 0; --n) { size_t k = big(), g = R.flip() ? big() : 1, z = R.flip() ? big() : R.below(300); std::string w(k, 0), gap(g, R.flip() ? ' ' : '\n'); for (char& c : w) c = (char)R.range(33, 126); words.push_back(w); int v = R.integer<int>(); if (v < 0) v = -(v + 1); numbers.push_back(v); std::string num = (R.flip() ? "-" : "") + std::string(z, '0') + std::to_string(v); if (num[0] == '-') numbers.back() = -v; if (R.flip()) { s << w.c_str(); d << w.c_str(); } else { s << w; d << w; } s << gap << num << '\n'; d << gap << num << '\n'; want += w + gap + num + "\n"; h = mon::mix(h, k * 1000 + z); }
  CHECK(s.str() == want && d.device().out == want, "text-written", s.str().size(), " and ", d.device().out.size(), " bytes, want ", want.size()); d.device().in = want; auto back = [&](std::function<bool(std::string&)> rw, std::function<bool(int&)> ri, const char* what) { for (size_t i = 0; i < words.size(); ++i) { std::string w = "before"; CHECK(rw(w) && w == words[i], "word", what, ": ", w.size(), " of ", words[i].size(), " characters"); int v = 77; CHECK(ri(v) && v == numbers[i], "integer", what, ": ", v, " want ", numbers[i]); mon::obs("values read back", 2); } };
  back([&](std::string& w) { s >> w; return !s.fail(); }, [&](int& v) { s >> v; return !s.fail(); }, "string stream"); back([&](std::string& w) { d >> w; return !d.fail(); }, [&](int& v) { d >> v; return !d.fail(); }, "own device");
  std::string file = mon::scratch() + "/great" + std::to_string(mon::current_case); { ecl::OFileStream f(file, ecl::New); for (size_t at = 0; at < want.size();) { size_t n = std::min<size_t>(want.size() - at, R.flip() ? big() : want.size()); f << want.substr(at, n); at += n; if (R.chance(1, 4)) f.flush(); } f << ecl::endl; } { std::ifstream i(file, std::ios::binary); std::string got((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); CHECK(got == want + "\n", "file-text", got.size(), " bytes, want ", want.size() + 1); } { ecl::SharedFileStream f(file, ecl::New); f << want << want; } { std::ifstream i(file, std::ios::binary); std::string got((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); CHECK(got == want + want, "file-text", "shared: ", got.size(), " bytes, want ", 2 * want.size()); } ::unlink(file.c_str()); mon::obs("great texts"); mon::nontrivial(h); }
GROUP(thousands, 12, 400) { ecl::StringStream s; std::vector<Item> q; for (int n = R.range(1000, 4000); n > 0; --n) { q.push_back(put(R, s)); s << (R.flip() ? ' ' : '\n'); } for (auto& it : q) get(s, it); mon::obs("thousands of values"); mon::nontrivial(q.size()); }
