// C11: sliding buffers keep the most recent values in order.
#include "mon.hpp"
#include "array_values.hpp"
#include <ecl/containers/push_and_pop.hpp>
#include <ecl/containers/fifo.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <deque>
#include <memory>
REQUIRE_OBS("operations audited", 50000); REQUIRE_OBS("wrap-arounds", 2000); REQUIRE_OBS("values displaced", 5000); REQUIRE_OBS("pops refused", 200); REQUIRE_OBS("resizes", 500); REQUIRE_OBS("indices outside", 2000);
using ecl::PushAndPop; using ecl::FiFo; using ecl::StandardException;
template <class F> static bool refused(F f) { try { f(); } catch (const StandardException& e) { return e.flag() == ecl::OutOfRangeError; } return false; }
static std::string cut(std::string& s) { if (s.size() > 1500) s = "..." + s.substr(s.size() - 1200); return s; }

// the buffer as its user sees it: the last `room` values pushed and not popped
template <class T> struct Model { size_t room; std::deque<T> d; bool everywhere; T filled; size_t pushes; Model() : room(0), everywhere(false), pushes(0) {}
  void push(const T& x) { d.push_back(x); if (d.size() > room) { d.pop_front(); if (room) mon::obs("values displaced"); } everywhere = false; if (++pushes % (room + 1) == 0) mon::obs("wrap-arounds"); } void fill(const T& x) { for (T& y : d) y = x; filled = x; everywhere = true; } void clear() { d.clear(); } };
template <class T, class B> static void audit(B& b, const Model<T>& m, mon::Rng& R, const std::string& tr) {
  const B& c = b; mon::obs("operations audited"); CHECK(b.size() == m.d.size() && c.size() == m.d.size(), "size", tr, ": ", b.size(), " want ", m.d.size()); CHECK(b.asize() == m.room + 1, "asize", tr, ": ", b.asize(), " want ", m.room + 1);
  for (size_t i = 0; i < m.d.size(); ++i) { CHECK(same(b[i], m.d[i]), "index", tr, ": [", i, "] is ", show(b[i]), " want ", show(m.d[i])); CHECK(&c[i] == &b[i], "const-index", tr, ": [", i, "]"); }
  if (m.everywhere) for (size_t i = 0; i <= m.room; ++i) CHECK(same(b[i], m.filled), "filled", tr, ": [", i, "] is ", show(b[i]));
  if (R.chance(1, 3)) { long far[] = {(long)m.d.size(), (long)m.room, (long)m.room + 1, -1, -2, -(long)m.room - 1, 1000000, -1000000, R.range(-2000, 2000)}; int i = far[R.below(9)]; mon::note(mon::cat(tr, " [", i, "]")); const T* p = &b[i]; bool inside = false; for (size_t k = 0; k <= m.room; ++k) inside |= p == &b[k]; CHECK(inside, "index-escapes", tr, ": [", i, "] is not an element of the buffer"); mon::obs("indices outside"); }
}
template <class T, class B> static void mutate(B& b, Model<T>& m, mon::Rng& R, std::string& tr, uint64_t& h, int style) {
  int op = style == 0 ? (R.chance(4, 5) ? 0 : R.below(8)) : style == 1 ? R.below(4) : R.below(10); h = mon::mix(h, op);
  if (op == 0 || op == 2) { int k = R.chance(1, 4) ? R.range(1, 2 * (int)m.room + 3) : 1; tr += mon::cat(" +", k); mon::note(cut(tr)); for (int i = 0; i < k; ++i) { T x = ElementTraits<T>::draw(R); b.push_back(x); m.push(x); if (i % 7 == 0) audit(b, m, R, tr); } }
  else if (op == 1 || op == 3 || op == 4) { tr += " -"; mon::note(cut(tr)); if (m.d.empty()) { CHECK(refused([&] { b.pop_front(); }), "pop-of-nothing", tr); mon::obs("pops refused"); } else { T w = m.d.front(); m.d.pop_front(); m.everywhere = false; T g = b.pop_front(); CHECK(same(g, w), "pop", tr, ": ", show(g), " want ", show(w)); } }
  else if (op == 5) { T x = ElementTraits<T>::draw(R); tr += " fill"; mon::note(cut(tr)); b.fill(x); m.fill(x); }
  else if (op == 6) { tr += " clear"; mon::note(cut(tr)); b.clear(); m.clear(); }
  else if (op == 7 && !m.d.empty()) { size_t i = R.below(m.d.size()); T x = ElementTraits<T>::draw(R); tr += mon::cat(" [", i, "]="); mon::note(cut(tr)); b[i] = x; m.d[i] = x; m.everywhere = false; }
  else { tr += " copy"; mon::note(cut(tr)); B c(b); audit(c, m, R, tr + " (copy)"); T x = ElementTraits<T>::draw(R); c.push_back(x); Model<T> mc = m; mc.push(x); audit(c, mc, R, tr + " (copy pushed)"); audit(b, m, R, tr + " (original)"); if (R.flip()) { b = c; m = mc; } else if (R.flip()) { b(c); m = mc; } else { const B& self = b; b = self; } }
}
template <class T, size_t N> static void fixed(mon::Rng& R) {
  long live = Tracked::live; { typedef PushAndPop<T, N> B; std::unique_ptr<B> b; Model<T> m; m.room = N; std::string tr = mon::cat(ElementTraits<T>::name(), "/", N, ":"); uint64_t h = N; if (R.flip()) b.reset(new B); else { T x = ElementTraits<T>::draw(R); b.reset(new B(x)); m.fill(x); tr += " filled"; }
  audit(*b, m, R, tr); int style = R.below(3), steps = R.range(5, 60); for (int i = 0; i < steps; ++i) { mutate(*b, m, R, tr, h, style); audit(*b, m, R, tr); } mon::nontrivial(h); mon::sample(tr); } CHECK(Tracked::live == live, "element-lifetime", N);
}
template <class T> static void dynamic(mon::Rng& R) {
  long live = Tracked::live; { typedef PushAndPop<T> B; std::unique_ptr<B> b; Model<T> m; std::string tr = mon::cat(ElementTraits<T>::name(), ":"); int how = R.below(4); auto len = [&]() -> unsigned { return R.chance(1, 8) ? R.range(0, 1) : R.chance(1, 8) ? R.range(60, 200) : R.range(2, 12); };
  if (how == 0) { b.reset(new B); tr += " ()"; } else { m.room = len(); T x = ElementTraits<T>::draw(R); tr += mon::cat(" (", m.room, how == 1 ? ",x)" : ")"); if (how == 1) { b.reset(new B(m.room, x)); m.fill(x); } else b.reset(new B(m.room)); }
  mon::note(tr); audit(*b, m, R, tr); int style = R.below(3), steps = R.range(5, 60); uint64_t h = m.room;
  for (int i = 0; i < steps; ++i) {
    if (R.chance(1, 12)) { unsigned n = len(); tr += mon::cat(" resize ", n); mon::note(cut(tr)); b->resize(n); m = Model<T>(); m.room = n; mon::obs("resizes"); h = mon::mix(h, n); }
    else if (R.chance(1, 15)) { unsigned n = len(); tr += mon::cat(" =other(", n, ")"); mon::note(cut(tr)); B o(n); Model<T> mo; mo.room = n; int k = R.below(2 * n + 3); for (int j = 0; j < k; ++j) { T x = ElementTraits<T>::draw(R); o.push_back(x); mo.push(x); } if (R.flip()) *b = o; else (*b)(o); m = mo; audit(o, mo, R, tr + " (source)"); h = mon::mix(h, n + 500); }
    else mutate(*b, m, R, tr, h, style);
    audit(*b, m, R, tr);
  } mon::nontrivial(h); mon::sample(tr); } CHECK(Tracked::live == live, "element-lifetime", "");
}
// the ring: last n values written, oldest first
template <class T> static void ring(mon::Rng& R) {
  long live = Tracked::live; { typedef FiFo<T> B; std::unique_ptr<B> b; std::deque<T> d; std::deque<char> known; std::string tr = mon::cat(ElementTraits<T>::name(), " ring"); auto len = [&]() -> unsigned { return R.chance(1, 8) ? 1 : R.chance(1, 8) ? R.range(60, 200) : R.range(2, 12); }; unsigned n = R.chance(1, 6) ? 0 : len(); T x = ElementTraits<T>::draw(R); bool v = n && R.flip(); if (v) b.reset(new B(n, x)); else if (!n && R.flip()) b.reset(new B); else b.reset(new B(n)); d.assign(n, x); known.assign(n, v); tr += mon::cat("(", n, v ? ",x)" : ")"); uint64_t h = n; size_t pushes = 0;
  auto look = [&](B& q, const std::string& t) { const B& c = q; mon::obs("operations audited"); if (!n) { CHECK(refused([&] { (void)q[0]; }) && refused([&] { (void)c[3]; }), "no-storage", t); return; } for (unsigned i = 0; i < n; ++i) { if (known[i]) CHECK(same(q[i], d[i]), "index", t, ": [", i, "] is ", show(q[i]), " want ", show(d[i])); CHECK(&q[i] == &c[i], "const-index", t); CHECK(&q[i + n] == &q[i], "index-period", t, ": [", i, "]"); } CHECK(q.get_idx() < n, "get_idx", t, ": ", q.get_idx(), " of ", n); };
  auto push = [&](B& q) { T y = ElementTraits<T>::draw(R); q.push_back(y); d.pop_front(); known.pop_front(); d.push_back(y); known.push_back(1); if (++pushes % n == 0) mon::obs("wrap-arounds"); };
  look(*b, tr); int steps = R.range(5, 50);
  for (int i = 0; i < steps; ++i) { int op = R.below(10); h = mon::mix(h, op);
    if (!n && op < 8) { tr += " +?"; mon::note(cut(tr)); if (R.flip()) CHECK(refused([&] { b->push_back(x); }), "push-without-storage", tr); b->fill(x); }
    else if (op < 5) { int k = R.chance(1, 4) ? R.range(1, 2 * n + 3) : 1; tr += mon::cat(" +", k); mon::note(cut(tr)); for (int j = 0; j < k; ++j) push(*b); mon::obs("values displaced", k); }
    else if (op == 5) { T y = ElementTraits<T>::draw(R); tr += " fill"; mon::note(cut(tr)); b->fill(y); d.assign(n, y); known.assign(n, 1); }
    else if (op == 6) { unsigned j = R.below(n); T y = ElementTraits<T>::draw(R); tr += mon::cat(" [", j, "]="); mon::note(cut(tr)); (*b)[j] = y; d[j] = y; known[j] = 1; }
    else if (op == 7) { int j = R.flip() ? R.range(-3000, 3000) : (int)R.range(n, 3 * n); mon::note(mon::cat(tr, " [", j, "]")); T* p = &(*b)[j]; bool in = false; for (unsigned k = 0; k < n; ++k) in |= p == &(*b)[k]; CHECK(in, "index-escapes", tr, ": [", j, "]"); mon::obs("indices outside"); }
    else if (op == 8) { unsigned k = len(); tr += mon::cat(" resize ", k); mon::note(cut(tr)); if (R.chance(1, 4)) { CHECK(refused([&] { b->resize(0); }), "resize-to-nothing", tr); look(*b, tr + " (after refused resize)"); } b->resize(k); n = k; d.assign(n, x); known.assign(n, 0); pushes = 0; mon::obs("resizes"); }
    else if (n) { tr += " copy"; mon::note(cut(tr)); B c(*b); look(c, tr + " (copy)"); if (R.flip()) { push(c); look(c, tr + " (copy pushed)"); *b = c; } else { const B& self = *b; *b = self; } }
    look(*b, tr); }
  mon::nontrivial(h); mon::sample(tr); } CHECK(Tracked::live == live, "element-lifetime", "");
}
GROUP(push_and_pop_fixed, 1500, 60000) { switch (R.below(5)) { case 0: fixed<int, 1>(R); break; case 1: fixed<int, 5>(R); break; case 2: fixed<std::string, 3>(R); break; case 3: fixed<Tracked, 4>(R); break; default: fixed<double, 40>(R); } }
GROUP(push_and_pop_dynamic, 1500, 60000) { switch (R.below(3)) { case 0: dynamic<int>(R); break; case 1: dynamic<std::string>(R); break; default: dynamic<Tracked>(R); } }
GROUP(fifo, 1500, 60000) { switch (R.below(3)) { case 0: ring<int>(R); break; case 1: ring<std::string>(R); break; default: ring<Tracked>(R); } }
// great buffers: lengths around the bounds of narrower counters
static size_t great(mon::Rng& R) { size_t n[] = {126, 127, 128, 254, 255, 256, 257, 300, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 200000}; return R.chance(1, 4) ? n[R.below(18)] : R.chance(1, 4) ? 65000 + R.below(2000) : 250 + R.below(20); }
template <class B> static void bulk(B& b, std::deque<int>& d, size_t room, size_t k, mon::Rng& R) { for (size_t i = 0; i < k; ++i) { int x = (int)R.next(); b.push_back(x); d.push_back(x); if (d.size() > room) { d.pop_front(); } } mon::obs("values displaced", k); }
template <class B> static void judge(B& b, const std::deque<int>& d, size_t room, const std::string& tr) { const B& c = b; mon::obs("operations audited"); CHECK(b.size() == d.size() && b.asize() == room + 1, "size", tr, ": ", b.size(), " want ", d.size(), ", ", b.asize(), " want ", room + 1); for (size_t i = 0; i < d.size(); ++i) if (b[i] != d[i] || &c[i] != &b[i]) { mon::fail("index", mon::cat(tr, ": [", i, "] is ", b[i], " want ", d[i])); return; } }
template <class B> static void play(B& b, size_t room, bool resizes, mon::Rng& R, std::string tr) {
  std::deque<int> d; judge(b, d, room, tr); int steps = R.range(2, 6);
  for (int s = 0; s < steps; ++s) switch (R.below(resizes ? 7 : 6)) {
    case 0: case 1: { size_t k = R.pick(std::vector<size_t>{room / 2, room, room + 1, room + 2, room > 3 ? room - 1 : 1, R.below(room + 1), 2 * room + 1}); bulk(b, d, room, k, R); tr += mon::cat(" +", k); judge(b, d, room, tr); break; }
    case 2: { size_t k = R.flip() ? d.size() : R.below(d.size() + 1); tr += mon::cat(" -", k); for (size_t i = 0; i < k; ++i) { int g = b.pop_front(); if (g != d.front()) { mon::fail("pop", mon::cat(tr, ": the ", i, "th is ", g, " want ", d.front())); return; } d.pop_front(); } judge(b, d, room, tr); break; }
    case 3: { for (size_t k = 1 + room / (1 + R.below(8)); k > 0; --k) { bulk(b, d, room, 2, R); int g = b.pop_front(); if (g != d.front()) { mon::fail("pop", mon::cat(tr, ": ", g, " want ", d.front())); return; } d.pop_front(); } tr += " +2-1.."; judge(b, d, room, tr); mon::obs("wrap-arounds"); break; }
    case 4: { tr += " copy"; B c(b); std::deque<int> dc = d; judge(c, dc, room, tr); bulk(c, dc, room, 3, R); judge(c, dc, room, tr + " pushed"); judge(b, d, room, tr + " original"); if (R.flip()) { b = c; d = dc; judge(b, d, room, tr + " assigned"); } break; }
    case 5: { long far[] = {(long)room, (long)room + 1, -1, -(long)room - 1, (long)room + 2, 3 * (long)room}; for (long i : far) { const int* p = &b[(int)i]; const int* lo = &b[0]; const int* hi = &b[0]; for (size_t k = 0; k <= room; ++k) { const int* q = &b[(int)k]; if (q < lo) lo = q; if (q > hi) hi = q; } CHECK((size_t)(hi - lo) == room && p >= lo && p <= hi, "index-escapes", tr, ": [", i, "]"); mon::obs("indices outside"); } break; }
    default: break; }
  if (resizes) mon::obs("resizes"); mon::obs("great buffers played"); mon::nontrivial(mon::mix(room, steps)); }
GROUP(great_push_and_pop, 150, 6000) { if (R.chance(1, 4)) { if (R.flip()) { std::unique_ptr<PushAndPop<int, 300>> b(new PushAndPop<int, 300>); play(*b, 300, false, R, "int/300"); } else if (R.flip()) { std::unique_ptr<PushAndPop<int, 255>> b(new PushAndPop<int, 255>); play(*b, 255, false, R, "int/255"); } else { std::unique_ptr<PushAndPop<int, 66000>> b(new PushAndPop<int, 66000>); play(*b, 66000, false, R, "int/66000"); } } else { size_t n = great(R); PushAndPop<int> b(n); play(b, n, true, R, mon::cat("int (", n, ")")); size_t k = great(R); b.resize(k); play(b, k, true, R, mon::cat("int resized ", k)); } }
GROUP(great_fifo, 150, 6000) {
  size_t n = great(R); int x = (int)R.next(); FiFo<int> b(n, x); std::deque<int> d(n, x); std::string tr = mon::cat("ring(", n, ")"); auto look = [&](FiFo<int>& q, const std::deque<int>& w, const std::string& t) { mon::obs("operations audited"); const FiFo<int>& c = q; for (size_t i = 0; i < w.size(); ++i) if (q[i] != w[i] || &c[i] != &q[i] || &q[i + w.size()] != &q[i]) { mon::fail("index", mon::cat(t, ": [", i, "] is ", q[i], " want ", w[i])); return; } CHECK(q.get_idx() < w.size(), "get_idx", t); };
  auto add = [&](FiFo<int>& q, std::deque<int>& w, size_t k) { for (size_t i = 0; i < k; ++i) { int y = (int)R.next(); q.push_back(y); w.push_back(y); w.pop_front(); } mon::obs("values displaced", k); };
  look(b, d, tr); for (int s = R.range(2, 6); s > 0; --s) switch (R.below(4)) { case 0: case 1: { size_t k = R.pick(std::vector<size_t>{n / 2, n - 1, n, n + 1, R.below(n + 1), 2 * n + 1}); add(b, d, k); tr += mon::cat(" +", k); look(b, d, tr); mon::obs("wrap-arounds"); break; } case 2: { FiFo<int> c(b); std::deque<int> dc = d; add(c, dc, 2); look(c, dc, tr + " copy pushed"); look(b, d, tr + " original"); break; } default: { size_t k = great(R); b.resize(k); n = k; b.fill(x); d.assign(n, x); tr += mon::cat(" resize ", n); look(b, d, tr); } }
  mon::obs("great buffers played"); mon::nontrivial(n); }
REQUIRE_OBS("great buffers played", 300);
