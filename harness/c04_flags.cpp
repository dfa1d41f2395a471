// C04: flag sets behave as sets of their enumerators.
#include "mon.hpp"
#include <ecl/utilities/flags.hpp>
#include <map>
REQUIRE_OBS("operations", 20000);
REQUIRE_OBS("membership tests", 500000);
enum Small { None = 0, P = 1, Q = 2, S4 = 4, T8 = 8, PQ = 3, PQST = 15, QT = 10 };
enum Wide { W0 = 0, W1 = 1, W2 = 2, W8 = 0x80, W15 = 0x8000, W16 = 0x10000, W23 = 0x800000, W24 = 0x1000000, W29 = 0x20000000, W30 = 0x40000000, WMix = 0x40018083, WHi = 0x61000000 };
enum Full : unsigned char { F0 = 0, F1 = 1, F7 = 0x40, F8 = 0x80, FAll = 0xFF };
static const Small smalls[] = {None, P, Q, S4, T8, PQ, PQST, QT};
static const Wide wides[] = {W0, W1, W2, W8, W15, W16, W23, W24, W29, W30, WMix, WHi};
static const ecl::Bits bits[] = {ecl::Bit0, ecl::Bit1, ecl::Bit2, ecl::Bit3, ecl::Bit4, ecl::Bit5, ecl::Bit6, ecl::Bit7, ecl::Bit8, ecl::Bit9, ecl::Bit10, ecl::Bit11, ecl::Bit12, ecl::Bit13, ecl::Bit14, ecl::Bit15, ecl::Bit16};
static const Full fulls[] = {F0, F1, F7, F8, FAll};

template <class E, size_t N> static void history(mon::Rng& R, const E (&es)[N], const char* tag, int steps) {
  typedef ecl::Flags<E> F;
  const int n = 5; F f[n]; int m[n]; uint64_t h = 0; std::string log;
  for (int i = 0; i < n; ++i) { m[i] = 0; CHECK((int)f[i] == 0, "default-not-empty", tag); }
  auto audit = [&](const std::string& op) {
    for (int i = 0; i < n; ++i) {
      const F& c = f[i];
      CHECK((int)c == m[i], "contents", tag, " after ", op, " set ", i, " is ", (int)c, " want ", m[i], " history:", log);
      for (E e : es) {
        bool want = (int)e == 0 ? m[i] == 0 : (m[i] & (int)e) != 0;
        CHECK(c.testFlag(e) == want, "membership", tag, " after ", op, " set ", i, "=", m[i], " test ", (int)e, " got ", c.testFlag(e), " history:", log);
        mon::obs("membership tests");
      }
      CHECK((int)c == m[i], "test-changed-set", tag);
      for (int j = 0; j < n; ++j) { CHECK((c == f[j]) == (m[i] == m[j]), "equality", tag, m[i], " ", m[j]); CHECK((c != f[j]) == (m[i] != m[j]), "inequality", tag); }
    }
  };
  for (int s = 0; s < steps; ++s) {
    int a = R.below(n), b = R.below(n), d = R.below(n); E e = es[R.below(N)], e2 = es[R.below(N)]; int mask = R.flip() ? (int)e | (int)e2 : (int)R.next(); std::string op;
    const F& ca = f[a]; const F& cb = f[b];
    switch (R.below(23)) {
      case 0: f[d] = e; m[d] = e; op = "=enum"; break;
      case 1: f[d] = ca; m[d] = m[a]; op = "=set"; break;
      case 2: f[d] = ca | e; m[d] = m[a] | e; op = "set|enum"; break;
      case 3: f[d] = ca | cb; m[d] = m[a] | m[b]; op = "set|set"; break;
      case 4: f[d] = e | ca; m[d] = m[a] | e; op = "enum|set"; break;
      case 5: f[d] = ca & e; m[d] = m[a] & e; op = "set&enum"; break;
      case 6: f[d] = ca & mask; m[d] = m[a] & mask; op = "set&mask"; break;
      case 7: f[d] = ca & (int)cb; m[d] = m[a] & m[b]; op = "set&set"; break;
      case 8: f[d] = ca ^ e; m[d] = m[a] ^ e; op = "set^enum"; break;
      case 9: f[d] = ca ^ cb; m[d] = m[a] ^ m[b]; op = "set^set"; break;
      case 10: f[d] = ~ca; m[d] = ~m[a]; op = "~set"; break;
      case 11: f[d] = ca & ~cb; m[d] = m[a] & ~m[b]; op = "set&~set"; break;
      case 12: { F& r = (f[d] &= mask); m[d] &= mask; op = "&=mask"; CHECK(&r == &f[d], "returns-self", tag, op); break; }
      case 13: { F& r = (f[d] |= e); m[d] |= e; op = "|=enum"; CHECK(&r == &f[d], "returns-self", tag, op); break; }
      case 14: { F& r = (f[d] |= cb); m[d] |= m[b]; op = "|=set"; CHECK(&r == &f[d], "returns-self", tag, op); break; }
      case 15: { F& r = (f[d] ^= e); m[d] ^= e; op = "^=enum"; CHECK(&r == &f[d], "returns-self", tag, op); break; }
      case 16: { F& r = (f[d] ^= cb); m[d] ^= m[b]; op = "^=set"; CHECK(&r == &f[d], "returns-self", tag, op); break; }
      case 17: f[d].clear(); m[d] = 0; op = "clear"; break;
      case 18: { F c(ca); CHECK((int)c == m[a], "copy", tag); c |= e; c.clear(); op = "copy"; break; }
      case 19: { F c(e); CHECK((int)c == (int)e, "from-enum", tag); f[d] = c; m[d] = e; op = "from enum"; break; }
      case 20: { F& r = ((f[d] = e) |= e2); m[d] = e | e2; op = "chain"; CHECK(&r == &f[d], "returns-self", tag, op); break; }
      case 21: f[d] &= (int)(F)e; m[d] &= e; op = "&=enum"; break;
      case 22: f[d] = (ca | e) & ~(cb ^ e2); m[d] = (m[a] | e) & ~(m[b] ^ e2); op = "expr"; break;
    }
    log += mon::cat(" ", d, ":", op, "(", a, ",", b, ",", (int)e, ")"); if (log.size() > 300) log = log.substr(log.size() - 300);
    h = mon::mix(h, m[d]); mon::obs("operations"); audit(op);
  }
  mon::nontrivial(mon::mix(h, mon::hash(tag))); mon::sample(tag + log);
}
GROUP(small, 400, 6000) { history(R, smalls, "small", R.range(1, 60)); }
GROUP(wide, 400, 6000) { history(R, wides, "wide", R.range(1, 60)); }
GROUP(published_bits, 300, 4000) { history(R, bits, "bits", R.range(1, 50)); }
GROUP(byte_enum, 200, 3000) { history(R, fulls, "byte", R.range(1, 50)); }
// every pair of small sets, exhaustively
GROUP(pairs, 16, 16) {
  typedef ecl::Flags<Small> F; int x = mon::current_case; (void)R;
  for (int y = 0; y < 16; ++y) {
    F a, b; for (Small e : {P, Q, S4, T8}) { if (x & e) a |= e; if (y & e) b = b | e; }
    const F ca = a, cb = b;
    CHECK((int)(ca | cb) == (x | y) && (int)(ca ^ cb) == (x ^ y) && (int)(ca & (int)cb) == (x & y) && (int)(ca & ~cb) == (x & ~y) && (ca == cb) == (x == y), "pairs", x, " ", y);
    F c = a; c |= b; CHECK((int)c == (x | y), "pairs", "|="); c = a; c ^= b; CHECK((int)c == (x ^ y), "pairs", "^="); c = a; c &= b; CHECK((int)c == (x & y), "pairs", "&=");
    CHECK((int)a == x && (int)b == y, "operand-changed", x, " ", y);
    if (y == 0) mon::nontrivial(1000 + x);
    if (x) CHECK((bool)a, "truth", x); else CHECK(!a, "truth", x);
    mon::obs("operations", 9);
  }
  for (int k = 0; k <= 16; ++k) CHECK((int)bits[k] == (k ? 1 << (k - 1) : 0), "published-bit", k, " ", (int)bits[k]);
}
