// C24: signals reach exactly the slots connected to them. Built with ASan and with the race detector.
#include "mon.hpp"
#include <ecl/sigslots.hpp>
#include <atomic>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <sched.h>
#include <unistd.h>
#include <sys/wait.h>
using ecl::Signal; using ecl::Slot; using ecl::SigSlotsManager;
REQUIRE_OBS("emissions", 20000); REQUIRE_OBS("slot calls compared", 15000); REQUIRE_OBS("calls through relays", 1000); REQUIRE_OBS("parties copied", 2000); REQUIRE_OBS("parties destroyed", 3000); REQUIRE_OBS("topic statistics compared", 500); REQUIRE_OBS("calls while connections changed", 500); REQUIRE_OBS("calls from several threads", 2000);
struct Big { uint64_t a[5]; bool operator<(const Big& o) const { return memcmp(a, o.a, sizeof a) < 0; } bool operator==(const Big& o) const { return !memcmp(a, o.a, sizeof a); } };
// how each kind of data is drawn, emitted and logged; slots take exactly the signal's type
template <class D> struct Kind;
template <> struct Kind<ecl::Void> { typedef int V; static V draw(mon::Rng&) { return 0; } template <class S> static void emit(S& s, const V&) { s.emit(); } };
template <> struct Kind<int> { typedef int V; static V draw(mon::Rng& R) { return R.integer<int>(); } template <class S> static void emit(S& s, const V& v) { s.emit(v); } };
template <> struct Kind<const std::string&> { typedef std::string V; static V draw(mon::Rng& R) { return std::string(R.below(60), (char)R.range('a', 'z')); } template <class S> static void emit(S& s, const V& v) { s.emit(v); } };
template <> struct Kind<Big> { typedef Big V; static V draw(mon::Rng& R) { Big b; for (auto& x : b.a) x = R.next(); return b; } template <class S> static void emit(S& s, const V& v) { s.emit(v); } };
template <class D> using Log = std::multiset<std::pair<int, typename Kind<D>::V>>;
template <class D> static Log<D>& seen() { static Log<D> l; return l; }
template <class D> struct Target { int id; void call(D d) { seen<D>().insert(std::make_pair(id, typename Kind<D>::V(d))); } };
template <> struct Target<ecl::Void> { int id; void call() { seen<ecl::Void>().insert(std::make_pair(id, 0)); } };
template <class D, int N> struct Free { static void call(D d) { seen<D>().insert(std::make_pair(1000 + N, typename Kind<D>::V(d))); } };
template <int N> struct Free<ecl::Void, N> { static void call() { seen<ecl::Void>().insert(std::make_pair(1000 + N, 0)); } };
template <class D> static Slot<D>* make_slot(int how, Target<D>& t, const std::string* topic) { switch (how) { case 0: return topic ? new Slot<D>(&Free<D, 0>::call, *topic) : new Slot<D>(&Free<D, 0>::call); case 1: return topic ? new Slot<D>(&Free<D, 1>::call, *topic) : new Slot<D>(&Free<D, 1>::call); default: return topic ? new Slot<D>(&Target<D>::call, t, *topic) : new Slot<D>(&Target<D>::call, t); } }
static bool topics_of(Slot<ecl::Void>&, const std::set<int>&, const std::vector<std::string>&) { return true; }
template <class D> static bool topics_of(Slot<D>& s, const std::set<int>& want, const std::vector<std::string>& names) { std::set<std::string> w; for (int t : want) w.insert(names[t]); return s.connections() == w; }
template <class D> struct Model {
  struct Party { bool slot; int callee; std::set<int> pub, sub; int handles; };
  std::vector<std::string> names; std::map<int, Party> parties; int next = 0;
  // calls an emission makes; false if it would go round in circles
  bool emit(int p, std::vector<int>& on_path, std::vector<int>& callees, int depth = 0) { for (int q : on_path) if (q == p) return false; on_path.push_back(p); bool ok = true; for (int t : parties[p].pub) for (auto& q : parties) if (q.second.sub.count(t)) { if (q.second.slot) { callees.push_back(q.second.callee); if (depth) mon::obs("calls through relays"); if (callees.size() > 3000) return false; } else ok = emit(q.first, on_path, callees, depth + 1) && ok; if (!ok) return false; } on_path.pop_back(); return ok; }
};
template <class D> static void history(mon::Rng& R, const char* kind) {
  typedef typename Kind<D>::V V; Model<D> m; static uint64_t unique = 0; ++unique; int nt = R.range(1, 5); for (int i = 0; i < nt; ++i) m.names.push_back(R.chance(1, 8) && i == 0 ? "" : "t" + std::to_string(i)); std::unique_ptr<Target<D>[]> targets(new Target<D>[40]); for (int i = 0; i < 40; ++i) targets[i].id = i; struct H { int party; std::unique_ptr<Signal<D>> g; std::unique_ptr<Slot<D>> s; }; std::vector<H> hs; hs.reserve(200); uint64_t h = 0; seen<D>().clear();
  auto drop = [&](int p) { auto& q = m.parties[p]; if (--q.handles == 0) { m.parties.erase(p); mon::obs("parties destroyed"); } };
  int steps = R.range(10, 90);
  for (int k = 0; k < steps; ++k) { int op = R.below(12); h = mon::mix(h, op);
    if (hs.empty() || (op < 3 && m.next < 40)) { int id = m.next++; if (id >= 40) break; typename Model<D>::Party p; p.slot = R.chance(3, 5); p.handles = 1; p.callee = 0; H n; n.party = id; bool now = R.flip(); int t = R.below(nt); if (p.slot) { int how = R.below(6); p.callee = how < 2 ? 1000 + how : id; n.s.reset(make_slot<D>(how, targets[id], now ? &m.names[t] : 0)); if (now) p.sub.insert(t); } else { n.g.reset(now ? new Signal<D>(m.names[t]) : new Signal<D>); if (now) p.pub.insert(t); } m.parties[id] = p; hs.push_back(std::move(n)); continue; }
    H& x = hs[R.below(hs.size())]; auto& p = m.parties[x.party]; int t = R.below(nt);
    if (op < 5) { if (x.s) { x.s->connect(m.names[t]); p.sub.insert(t); } else if (R.chance(1, 3)) { x.g->connectAsSlot(m.names[t]); p.sub.insert(t); } else { x.g->connect(m.names[t]); p.pub.insert(t); } }
    else if (op == 5 && R.flip()) { if (x.s) x.s->disconnect(); else x.g->disconnect(); p.pub.clear(); p.sub.clear(); }
    else if (op == 6) { H n; n.party = x.party; if (x.s) n.s.reset(new Slot<D>(*x.s)); else n.g.reset(new Signal<D>(*x.g)); ++p.handles; hs.push_back(std::move(n)); mon::obs("parties copied"); }
    else if (op == 7) { H& y = hs[R.below(hs.size())]; if (!x.s == !y.s) /* itself too */ { int old = x.party; ++m.parties[y.party].handles; if (x.s) *x.s = *y.s; else *x.g = *y.g; x.party = y.party; drop(old); mon::obs("parties copied"); } }
    else if (op == 8 && R.flip()) { int party = x.party; hs.erase(hs.begin() + (&x - &hs[0])); drop(party); continue; }
    else if (x.g) { std::vector<int> path, callees; if (!m.emit(x.party, path, callees)) continue; V v = Kind<D>::draw(R); Log<D> want; for (int c : callees) want.insert(std::make_pair(c, v)); seen<D>().clear(); Kind<D>::emit(*x.g, v); mon::obs("emissions"); mon::obs("slot calls compared", want.size()); h = mon::mix(h, want.size()); if (seen<D>() != want) { int extra = (int)seen<D>().size() - (int)want.size(); mon::fail(extra > 0 ? "calls-too-many" : extra < 0 ? "calls-missing" : "calls-differ", mon::cat(kind, ": ", seen<D>().size(), " calls, want ", want.size())); return; } }
    if (x.s) CHECK(topics_of(*x.s, m.parties[x.party].sub, m.names), "connections", kind);
    if (R.chance(1, 12)) { std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); SigSlotsManager<D>::printStatistics(); std::cout.rdbuf(old); std::map<std::string, std::pair<int, int>> c; for (auto& q : m.parties) { for (int i : q.second.sub) ++c[m.names[i]].first; for (int i : q.second.pub) ++c[m.names[i]].second; } std::string want = "Topics\n"; for (auto& e : c) want += mon::cat("  Name: ", e.first, "\n    # Subscribers: ", e.second.first, "\n    # Publishers : ", e.second.second, "\n"); CHECK(o.str() == want, "statistics", mon::quote(o.str()), " want ", mon::quote(want)); mon::obs("topic statistics compared"); } }
  while (!hs.empty()) { int i = R.below(hs.size()); int party = hs[i].party; hs.erase(hs.begin() + i); drop(party); } { std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); SigSlotsManager<D>::printStatistics(); std::cout.rdbuf(old); CHECK(o.str() == "Topics\n", "topics-left-behind", mon::quote(o.str())); }
  mon::nontrivial(h); mon::sample(mon::cat(kind, ": ", steps, " steps on ", nt, " topics"));
}
GROUP(nothing, 900, 20000) { history<ecl::Void>(R, "void"); }
GROUP(integers, 900, 20000) { history<int>(R, "int"); }
GROUP(references, 900, 20000) { history<const std::string&>(R, "reference"); }
GROUP(structures, 500, 10000) { history<Big>(R, "structure"); }
// the different kinds of data do not see each other's topics
GROUP(kinds_apart, 30, 1000) { Target<int> a{1}; Target<ecl::Void> b{2}; Slot<int> sa(&Target<int>::call, a, "same"); Slot<ecl::Void> sb(&Target<ecl::Void>::call, b, "same"); seen<int>().clear(); seen<ecl::Void>().clear(); Signal<int> ga("same"); Signal<ecl::Void> gb("same"); int x = R.range(0, 5), y = R.range(0, 5); for (int i = 0; i < x; ++i) ga.emit(i); for (int i = 0; i < y; ++i) gb.emit(); CHECK((int)seen<int>().size() == x && (int)seen<ecl::Void>().size() == y, "other-kind-called", ""); mon::obs("emissions", x + y); mon::nontrivial(mon::mix(x, y)); mon::sample("one topic name used for two kinds"); }
// callbacks that connect, disconnect and destroy slots while they are being called
template <class D> struct Plot; template <class D> struct Actor { Plot<D>* p; int id; void call(D) { acted(p, id); } }; template <> struct Actor<ecl::Void> { Plot<ecl::Void>* p; int id; void call(); };
template <class D> struct Plot { std::vector<std::unique_ptr<Slot<D>>> slots; std::vector<Actor<D>> actors; std::vector<int> calls, order; std::vector<bool> connected, victim; std::vector<std::function<void()>> acts; Signal<D>* signal = 0; bool signal_gone = false; };
template <class D> static void acted(Plot<D>* p, int id) { ++p->calls[id]; if (!p->connected[id] || p->signal_gone) mon::fail("called-after-disconnect", mon::cat("slot ", id)); mon::obs("calls while connections changed"); if (p->acts[id]) { auto f = p->acts[id]; p->acts[id] = nullptr; f(); } }
void Actor<ecl::Void>::call() { acted(p, id); }
template <class D> static void while_emitting(mon::Rng& R) {
  typedef typename Kind<D>::V V; const V a = Kind<D>::draw(R), a2 = Kind<D>::draw(R), a3 = Kind<D>::draw(R); Plot<D> P; int n = R.range(2, 8); std::string topic = "plot", other = "other"; P.calls.assign(n, 0); P.connected.assign(n, true); P.victim.assign(n, false); P.acts.resize(n); P.actors.resize(n); for (int i = 0; i < n; ++i) { P.actors[i].p = &P; P.actors[i].id = i; } std::vector<int> idx; for (int i = 0; i < n; ++i) { P.slots.emplace_back(new Slot<D>(&Actor<D>::call, P.actors[i])); if (R.chance(4, 5)) P.slots[i]->connect(topic); else { P.connected[i] = false; } } std::vector<bool> initially(P.connected.begin(), P.connected.end()); Signal<D> g(topic); P.signal = &g; bool cut = false; uint64_t h = n;
  for (int i = 0; i < n; ++i) if (R.chance(1, 2)) { int v = R.below(n), what = R.below(6); h = mon::mix(h, what * 16 + v); switch (what) { case 0: P.acts[i] = [&P, v] { P.slots[v] ? P.slots[v]->disconnect() : (void)0; P.connected[v] = false; P.victim[v] = true; }; break; case 1: if (v != i) P.acts[i] = [&P, v] { if (P.slots[v]) { P.slots[v].reset(); P.connected[v] = false; P.victim[v] = true; } }; break; case 2: P.acts[i] = [&P, v, other] { if (P.slots[v]) P.slots[v]->connect(other); }; break; case 3: P.acts[i] = [&P, v, topic] { if (P.slots[v]) { P.slots[v]->connect(topic); P.connected[v] = true; P.victim[v] = true; } }; break; case 4: P.acts[i] = [&P, &cut, n] { P.signal->disconnect(); P.signal_gone = true; cut = true; for (int k = 0; k < n; ++k) { if (P.slots[k]) P.slots[k]->disconnect(); P.connected[k] = false; P.victim[k] = true; } }; break; default: P.acts[i] = [&P, &cut] { P.signal->disconnect(); P.signal_gone = true; cut = true; }; } }
  Kind<D>::emit(g, a); mon::obs("emissions"); for (int i = 0; i < n; ++i) { if (!P.victim[i] && !cut) CHECK(P.calls[i] == (initially[i] ? 1 : 0), initially[i] ? "calls-missing" : "calls-too-many", "slot ", i, " called ", P.calls[i], " times"); else CHECK(P.calls[i] <= 1, "calls-too-many", P.calls[i]); }
  for (auto& a : P.acts) a = nullptr; std::vector<int> before = P.calls; if (cut) { Kind<D>::emit(g, a2); CHECK(P.calls == before, "calls-too-many", "after disconnecting"); g.connect(topic); P.signal_gone = false; } Kind<D>::emit(g, a3); for (int i = 0; i < n; ++i) CHECK(P.calls[i] == before[i] + (P.connected[i] && P.slots[i] ? 1 : 0), "calls-after-changes", "slot ", i); mon::nontrivial(h); mon::sample(mon::cat(n, " slots changing connections when called"));
}
GROUP(while_emitting, 500, 20000) { switch (R.below(4)) { case 0: while_emitting<int>(R); break; case 1: while_emitting<ecl::Void>(R); break; case 2: while_emitting<const std::string&>(R); break; default: while_emitting<Big>(R); } }
// each thread with its own topics; then all threads emitting to slots connected beforehand
struct Counter { std::atomic<int> n{0}; void call(int) { ++n; } };
GROUP_OPT(threads, 40, 1500, "serial") {
  int n = R.range(2, 6); uint64_t seed = R.next(); std::atomic<int> ready(0); std::atomic<bool> go(false); std::vector<std::thread> ts; Counter shared[3]; std::vector<std::unique_ptr<Slot<int>>> common; for (auto& c : shared) common.emplace_back(new Slot<int>(&Counter::call, c, "common")); std::vector<std::unique_ptr<Signal<int>>> sg; for (int i = 0; i < n; ++i) sg.emplace_back(new Signal<int>("common")); std::atomic<int> sent(0);
  for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { mon::Rng Q(seed + i * 7907); std::string mine = "mine" + std::to_string(i); ++ready; while (!go) sched_yield(); for (int k = 0; k < 30; ++k) { Counter a, b; { Slot<int> s(&Counter::call, a, mine); Signal<int> g(mine); g.emit(1); { Slot<int> s2(&Counter::call, b, mine); Slot<int> copy(s2); g.emit(2); } g.emit(3); Signal<int> relay; relay.connectAsSlot(mine); relay.connect(mine + "x"); Slot<int> end(&Counter::call, b, mine + "x"); g.emit(4); s.disconnect(); g.emit(5); } if (a.n != 4 || b.n != 3) mon::fail("threads-disturb-each-other", mon::cat((int)a.n, " ", (int)b.n)); mon::obs("calls from several threads", 7); if (Q.flip()) { sg[i]->emit(k); ++sent; } if (Q.flip()) { Counter passing; Slot<int> p(&Counter::call, passing, "common"); if (Q.flip()) sched_yield(); if (Q.flip()) { sg[i]->emit(k); ++sent; if (passing.n < 1) mon::fail("calls-missing", "a slot just connected"); } } } });
  while (ready < n) sched_yield(); go = true; for (auto& t : ts) t.join(); for (auto& c : shared) CHECK(c.n == sent, "calls-from-threads", (int)c.n, " want ", (int)sent); mon::obs("calls from several threads", 3 * sent); mon::nontrivial(seed); mon::sample(mon::cat(n, " threads"));
}
// signals and slots that outlive main, in a child
struct Rare { int x; }; static void rare(Rare) {} static void rare2(float) {}
GROUP(at_exit, 4, 40) {
  int how = mon::current_case % 4; fflush(0); pid_t p = fork(); if (p == 0) { alarm(60); switch (how) { case 0: { static Slot<Rare> s(rare); s.connect("exit"); break; } case 1: { static Signal<Rare> g; static Slot<Rare> s(rare, "exit"); g.connect("exit"); g.emit(Rare()); break; } case 2: { static Slot<float> s(rare2); static Slot<float> c(s); s.connect("x"); break; } default: { static Signal<Rare> g("exit"); static Slot<Rare> s(rare); s.connect("exit"); } } exit(0); }
  int st = 0; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit", how, " status ", st); mon::nontrivial(how); mon::sample("objects destroyed after main");
}
// hundreds of everything: copies of one party, slots on one topic, topics of one party, relays in a row
REQUIRE_OBS("rounds of hundreds", 20);
struct Tally { int n = 0; long sum = 0; void call(int d) { ++n; sum += d; } };
GROUP(hundreds, 24, 800) {
  int n = R.pick({255, 256, 257, 258, 300, 513}), how = mon::current_case % 4, x = R.range(1, 1000); mon::note(mon::cat(how, " x", n)); auto nothing_left = [&] { std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); SigSlotsManager<int>::printStatistics(); std::cout.rdbuf(old); CHECK(o.str() == "Topics\n", "topics-left-behind", mon::quote(o.str().substr(0, 200))); };
  { Tally t;
  if (how == 0) { bool slot = R.flip(); std::vector<std::unique_ptr<Slot<int>>> ss; std::vector<std::unique_ptr<Signal<int>>> gs; Signal<int> g("h"); Slot<int> s0(&Tally::call, t, "h"); if (slot) { s0.disconnect(); ss.emplace_back(new Slot<int>(&Tally::call, t, "h")); while ((int)ss.size() < n) ss.emplace_back(new Slot<int>(*ss[R.below(ss.size())])); } else { g.disconnect(); gs.emplace_back(new Signal<int>("h")); while ((int)gs.size() < n) gs.emplace_back(new Signal<int>(*gs[R.below(gs.size())])); }
    int want = 0; long sum = 0; for (int k = n; k > 0; --k) { if (k % 16 < 2 || (k & 255) < 3 || k < 5) { int v = x + k; if (slot) g.emit(v); else gs[R.below(gs.size())]->emit(v); ++want; sum += v; CHECK(t.n == want && t.sum == sum, t.n < want ? "calls-missing" : "calls-too-many", t.n, " want ", want, " with ", k, " copies left"); mon::obs("emissions"); } if (slot) { ss.erase(ss.begin() + R.below(ss.size())); } else gs.erase(gs.begin() + R.below(gs.size())); mon::obs("parties destroyed"); }
    if (slot) g.emit(7); CHECK(t.n == want, "calls-too-many", t.n, " after the last copy"); }
  else if (how == 1) { std::vector<Tally> ts(n); std::vector<std::unique_ptr<Slot<int>>> ss; Signal<int> g("h"); for (int i = 0; i < n; ++i) ss.emplace_back(new Slot<int>(&Tally::call, ts[i], "h")); g.emit(x); for (auto& q : ts) CHECK(q.n == 1 && q.sum == x, "calls-missing", q.n, " among ", n, " slots"); std::vector<bool> on(n, true); for (int i = 0; i < n; ++i) if (R.flip()) { on[i] = false; if (R.flip()) ss[i]->disconnect(); else ss[i].reset(); } g.emit(x + 1); for (int i = 0; i < n; ++i) CHECK(ts[i].n == (on[i] ? 2 : 1), on[i] ? "calls-missing" : "calls-too-many", "slot ", i, " of ", n); mon::obs("slot calls compared", 2 * n); mon::obs("emissions", 2); }
  else if (how == 2) { auto topic = [](int i) { return "topic-" + std::to_string(i) + std::string(i % 3 == 0 ? 300 : 0, 'x'); }; Slot<int> s(&Tally::call, t); for (int i = 0; i < n; ++i) s.connect(topic(i)); CHECK((int)s.connections().size() == n, "connections", s.connections().size()); long sum = 0; Signal<int> all; for (int i = 0; i < n; ++i) { Signal<int> g(topic(i)); g.emit(i); sum += i; all.connect(topic(i)); CHECK(t.n == i + 1 && t.sum == sum, "calls-missing", "topic ", i, " of ", n); } all.emit(1); CHECK(t.n == 2 * n && t.sum == sum + n, "calls-missing", t.n, " want ", 2 * n); s.disconnect(); all.emit(1); CHECK(t.n == 2 * n, "calls-too-many", t.n); mon::obs("emissions", n + 2); }
  else { std::vector<std::unique_ptr<Signal<int>>> relays; auto topic = [](int i) { return "r" + std::to_string(i); }; for (int i = 0; i < n; ++i) { relays.emplace_back(new Signal<int>); relays[i]->connectAsSlot(topic(i)); relays[i]->connect(topic(i + 1)); } Slot<int> s(&Tally::call, t, topic(n)); Signal<int> g(topic(0)); for (int k = 1; k <= 3; ++k) { g.emit(x); CHECK(t.n == k && t.sum == (long)k * x, "calls-missing", t.n, " through ", n, " relays"); } relays[R.below(n)].reset(); g.emit(x); CHECK(t.n == 3, "calls-too-many", t.n); mon::obs("calls through relays", 3 * n); } }
  nothing_left(); mon::obs("rounds of hundreds"); mon::nontrivial(mon::mix(n, how)); }
