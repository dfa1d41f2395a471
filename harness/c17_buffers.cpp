// C17: staging buffers and string devices conserve bytes in order, up to capacity.
#include "mon.hpp"
#include <ecl/devices/detail/character_buffer.hpp>
#include <ecl/devices/string.hpp>
#include <ecl/concepts/devices.hpp>
#include <memory>
REQUIRE_OBS("operations audited", 50000); REQUIRE_OBS("buffers filled to the brim", 50); REQUIRE_OBS("writes cut short by a full buffer", 100); REQUIRE_OBS("string devices grown", 50); REQUIRE_OBS("string devices cleared and reused", 50);
// a block to write: sizes from nothing to beyond the capacity, any byte, on the heap so that reading past it is seen
static std::string block(mon::Rng& R, size_t room) {
  size_t n; switch (R.below(8)) { case 0: n = 0; break; case 1: n = room; break; case 2: n = room + R.range(1, 40); break; case 3: n = room ? room - 1 : 0; break; case 4: n = R.below(room + 2); break; case 5: n = R.below(5000); break; default: n = R.below(60); }
  std::string s(n, 0); int kind = R.below(3); for (size_t i = 0; i < n; ++i) s[i] = kind == 0 ? (char)R.next() : kind == 1 ? (char)('a' + R.below(26)) : (char)R.below(3); return s;
}
struct Heap { std::unique_ptr<char[]> p; size_t n; explicit Heap(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); } };
static std::string text(const std::string& s) { return mon::quote(s.size() > 80 ? s.substr(0, 80) + "..." : s); }

static void audit(ecl::devices::CharBuffer& b, const std::string& m, const char* after) {
  CHECK(b.size() == m.size(), "size", "CharBuffer after ", after, ": ", b.size(), " want ", m.size()); CHECK(b.remaining() == 4096 - m.size(), "remaining", "CharBuffer after ", after, ": ", b.remaining()); CHECK(b.full() == (m.size() == 4096), "full", "CharBuffer with ", m.size());
  CHECK(memcmp(b.c_ptr(), m.data(), m.size()) == 0, "contents", "CharBuffer after ", after, " holds ", text(std::string(b.c_ptr(), m.size())), " want ", text(m)); mon::obs("operations audited");
}
static void audit(ecl::devices::CharStringBuffer& b, const std::string& m, const char* after) {
  CHECK(b.remaining() == 4095 - m.size(), "remaining", "CharStringBuffer after ", after, ": ", b.remaining(), " with ", m.size()); CHECK(b.full() == (m.size() == 4095), "full", "CharStringBuffer with ", m.size());
  const char* c = b.c_str(); CHECK(memcmp(c, m.data(), m.size()) == 0 && c[m.size()] == 0, "contents", "CharStringBuffer after ", after, " holds ", text(std::string(c, m.size() + 1)), " want ", text(m)); mon::obs("operations audited");
}
template <class B> static void history(mon::Rng& R, size_t cap) {
  std::unique_ptr<B> b(new B), guard(new B); std::string m; uint64_t h = cap; int steps = R.range(5, 40); CHECK(B::buffer_size == cap, "capacity", B::buffer_size + 0);
  audit(*b, m, "construction"); int style = R.below(3);
  for (int i = 0; i < steps; ++i) {
    int op = R.below(10); size_t room = cap - m.size();
    if (op < 2 || style == 1) { int k = R.chance(1, 6) ? R.range(1, 6000) : R.range(1, 30); for (int j = 0; j < k; ++j) { char c = (char)R.next(); long r = b->append(c); long w = m.size() < cap; if (w) m += c; else mon::obs("writes cut short by a full buffer"); if (r != w) { mon::fail("append-char-count", mon::cat("returned ", r, " with ", m.size(), " held")); break; } } audit(*b, m, "append(char)"); h = mon::mix(h, k); }
    else if (op < 8) { Heap s(block(R, room)); long r = b->append(s.p.get(), s.n); size_t w = std::min(s.n, room); CHECK(r == (long)w, "append-count", "took ", r, " of ", s.n, " with room ", room); m.append(s.p.get(), w); if (w < s.n) mon::obs("writes cut short by a full buffer"); audit(*b, m, "append(block)"); h = mon::mix(h, s.n); }
    else if (op == 8) { b->clear(); m.clear(); audit(*b, m, "clear"); h = mon::mix(h, 77); }
    else { B c(*b); audit(c, m, "copying"); c.append("x", 1); audit(*b, m, "append to a copy"); B d; d.append('q'); d = *b; audit(d, m, "assigning"); b->append("yz", 2); if (m.size() < cap) m += 'y'; if (m.size() < cap) m += 'z'; std::string none; (void)none; audit(*b, m, "append after assigning"); h = mon::mix(h, 78); }
    if (m.size() == cap) mon::obs("buffers filled to the brim");
  }
  audit(*guard, "", "use of its neighbour"); mon::nontrivial(h); mon::sample(mon::cat("capacity ", cap, ", ", steps, " operations, ends with ", m.size(), " bytes"));
}
GROUP(char_buffer, 600, 40000) { history<ecl::devices::CharBuffer>(R, 4096); }
GROUP(char_string_buffer, 600, 40000) { history<ecl::devices::CharStringBuffer>(R, 4095); }

static void audit(ecl::String& s, const std::string& all, size_t rd, const std::string& after) {
  CHECK(s.size() == all.size(), "size", "String after ", after, ": ", s.size(), " want ", all.size()); CHECK(s.remaining() == all.size() - rd, "remaining", "String after ", after, ": ", s.remaining(), " want ", all.size() - rd);
  std::string got = s.str(); CHECK(got == all, "contents", "String after ", after, " holds ", text(got), " want ", text(all)); mon::obs("operations audited");
}
GROUP(string_device, 2500, 120000) {
  std::string all = R.flip() ? "" : block(R, 20); for (char& c : all) if (!c) c = 'n'; { Heap z(std::string(all.c_str(), all.size() + 1)); } uint64_t h = mon::hash(all); size_t rd = 0; int steps = R.range(4, 40); std::string trace = mon::cat("String(", all.size(), ")");
  std::unique_ptr<ecl::String> s; { std::unique_ptr<char[]> lit(new char[all.size() + 1]); memcpy(lit.get(), all.c_str(), all.size() + 1); s.reset(all.empty() && R.flip() ? new ecl::String() : new ecl::String(lit.get())); }
  CHECK(s->open() && s->isOpen(), "open", ""); audit(*s, all, rd, trace); size_t cap0 = all.size();
  for (int i = 0; i < steps; ++i) {
    int op = R.below(14);
    if (op < 3) { int k = R.chance(1, 5) ? R.range(200, 700) : R.range(1, 5); trace += mon::cat(" c", k); mon::note(trace); for (int j = 0; j < k; ++j) { char c = (char)R.next(); long r = s->write(c); all += c; if (r != 1) { mon::fail("write-char-count", trace); break; } } h = mon::mix(h, k); }
    else if (op < 6) { Heap b(block(R, R.below(300))); trace += mon::cat(" w", b.n); mon::note(trace); long r = s->write(b.p.get(), b.n); CHECK(r == (long)b.n, "write-count", trace, " returned ", r); all.append(b.p.get(), b.n); h = mon::mix(h, b.n + 1000); }
    else if (op < 8) { int k = R.range(1, 8); trace += mon::cat(" r", k); mon::note(trace); for (int j = 0; j < k; ++j) { char c = '#'; long r = s->read(c); if (rd < all.size()) { CHECK(r == 1 && c == all[rd], "read-char", trace, " gave ", r, " ", (int)c, " want ", (int)all[rd]); ++rd; } else CHECK(r == 0 && c == '#', "read-char-at-end", trace, " gave ", r); } h = mon::mix(h, k + 2000); }
    else if (op < 11) { size_t left = all.size() - rd, n; switch (R.below(5)) { case 0: n = left; break; case 1: n = left + R.range(1, 20); break; case 2: n = 0; break; default: n = R.below(left + 1); } trace += mon::cat(" R", n); mon::note(trace); std::unique_ptr<char[]> p(new char[n + 1]); memset(p.get(), '#', n + 1); long r = s->read(p.get(), n); size_t w = std::min(n, left); CHECK(r == (long)w, "read-count", trace, " gave ", r, " want ", w); CHECK(memcmp(p.get(), all.data() + rd, w) == 0, "read-contents", trace); CHECK(p[w] == '#', "read-too-far", trace); rd += w; h = mon::mix(h, n + 3000); }
    else if (op == 11) { trace += " z"; mon::note(trace); const char* c = s->c_str(); CHECK(memcmp(c, all.data(), all.size()) == 0 && c[all.size()] == 0, "c_str", trace); h = mon::mix(h, 4000); }
    else if (op == 12 && R.flip()) { trace += " C"; mon::note(trace); s->clear(); all.clear(); rd = 0; cap0 = 0; mon::obs("string devices cleared and reused"); h = mon::mix(h, 5000); }
    else { trace += " copy"; mon::note(trace); { ecl::String c(*s); audit(c, all, rd, trace + " (copy)"); c.write('!'); audit(c, all + "!", rd, trace + " (copy)"); ecl::String d("zzz"); d = *s; audit(d, all, rd, trace + " (assigned)"); d = d; audit(d, all, rd, trace + " (assigned to itself)"); d.clear(); } h = mon::mix(h, 6000); }
    if (all.size() > cap0 + 256) mon::obs("string devices grown"); audit(*s, all, rd, trace);
  }
  s->flush(); mon::nontrivial(h); mon::sample(trace);
}
GROUP(string_no_leak, 40, 400) { long before = mon::live_blocks(); { ecl::String s("abc"); for (int i = 0; i < 20; ++i) { std::string b = block(R, 100); s.write(b.data(), b.size()); if (R.chance(1, 5)) s.clear(); } ecl::String t(s); t = s; } CHECK(mon::live_blocks() == before, "leak", mon::live_blocks() - before); mon::nontrivial(R.next()); }
// great blocks: lengths that narrower counters lose, to a string device and into the buffers
REQUIRE_OBS("great blocks", 200); REQUIRE_OBS("blocks of gigabytes", 6);
GROUP(great_strings, 60, 2000) {
  ecl::String s; std::string all; size_t rd = 0; uint64_t h = 0; std::string trace = "String()";
  for (int i = R.range(2, 6); i > 0; --i) { size_t base[] = {127, 255, 256, 4096, 32768, 65535, 65536, 131072, 262144, 524288, 1 << 20}; size_t n = base[R.below(11)] + R.range(-2, 300); Heap b(std::string(n, 0)); for (size_t k = 0; k < n; ++k) b.p[k] = (char)R.next(); trace += mon::cat(" w", n); mon::note(trace); long r = s.write(b.p.get(), n); CHECK(r == (long)n, "write-count", trace, " returned ", r); all.append(b.p.get(), n); audit(s, all, rd, trace);
    for (int k = R.range(1, 300); k > 0; --k) { char c = (char)R.next(); s.write(c); all += c; } size_t want = R.chance(1, 3) ? all.size() - rd : R.chance(1, 2) ? base[R.below(11)] + R.range(-2, 2) : R.below(all.size() - rd + 1), w = std::min(want, all.size() - rd); trace += mon::cat(" R", want); mon::note(trace); std::unique_ptr<char[]> p(new char[want + 1]); p[w] = '#'; long g = s.read(p.get(), want); CHECK(g == (long)w, "read-count", trace, " gave ", g, " want ", w); CHECK(memcmp(p.get(), all.data() + rd, w) == 0, "read-contents", trace); CHECK(p[w] == '#', "read-too-far", trace); rd += w; audit(s, all, rd, trace); h = mon::mix(h, n + want); mon::obs("great blocks"); }
  const char* c = s.c_str(); CHECK(memcmp(c, all.data(), all.size()) == 0 && c[all.size()] == 0, "c_str", trace); ecl::String t(s); audit(t, all, rd, trace + " (copy)"); mon::nontrivial(h); }
#include <sys/mman.h>
template <class B> static void brim(mon::Rng& R, size_t cap, const char* big, size_t n) { std::unique_ptr<B> b(new B); std::string m; for (size_t k = R.below(cap); k > 0; --k) { m += 'a' + k % 20; b->append(m.back()); } size_t room = cap - m.size(); long r = b->append(big, n); CHECK(r == (long)room, "append-count", "took ", r, " of ", n, " with room ", room); m.append(room, 0); audit(*b, m, "append(block of gigabytes)"); mon::obs("blocks of gigabytes"); }
GROUP_OPT(gigabytes, 1, 4, "serial hang=600") {
  size_t room = (size_t)9 << 30; char* big = (char*)mmap(0, room, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == (char*)MAP_FAILED) { mon::inconclusive("no address space"); return; }
  size_t sizes[] = {(size_t)1 << 31, ((size_t)1 << 32), ((size_t)1 << 32) + 5, ((size_t)1 << 31) - 1, ((size_t)1 << 32) - 1, (size_t)1 << 33}; for (size_t n : sizes) { brim<ecl::devices::CharBuffer>(R, 4096, big, n); brim<ecl::devices::CharStringBuffer>(R, 4095, big, n); }
  size_t n = mon::current_case % 2 ? ((size_t)1 << 32) + R.range(1, 300) : ((size_t)1 << 31) - R.range(1, 256); std::unique_ptr<ecl::String> s(new ecl::String("begin")); long r = s->write(big, n); CHECK(r == (long)n, "write-count", r, " of ", n); CHECK(s->write("end", 3) == 3, "write-count", ""); CHECK(s->size() == n + 8 && s->remaining() == n + 8, "size", s->size(), " want ", n + 8);
  { char first[6] = {0}; CHECK(s->read(first, 5) == 5 && !strcmp(first, "begin"), "read-contents", mon::quote(first)); std::unique_ptr<char[]> p(new char[n + 4]); long g = s->read(p.get(), n + 4); CHECK(g == (long)n + 3, "read-count", g, " want ", n + 3); CHECK(!memcmp(p.get() + n, "end", 3), "read-contents", "end"); size_t bad = 0; for (size_t i = 0; i < n; i += 4099) bad += p[i] != 0; CHECK(!bad, "read-contents", bad); CHECK(s->remaining() == 0, "remaining", s->remaining()); mon::obs("blocks of gigabytes"); }
  munmap(big, room); mon::nontrivial(n); }
