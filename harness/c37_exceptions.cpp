// C37: exceptions carry their cause to whoever catches them.  Chains of raising, copying, storing, handing to other threads and
// rethrowing with another location, drawn at random; at the top everything that was put in is looked for.
#include "mon.hpp"
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/exceptions/data_exception.hpp>
#include <ecl/exceptions/posix_error_handler.hpp>
#include <ecl/exceptions/macros.hpp>
#include <cerrno>
#include <cstring>
#include <exception>
#include <memory>
#include <thread>
#include <vector>
using ecl::StandardException; using ecl::DataException; using ecl::ErrorFlag; using mon::Rng; using mon::cat;
REQUIRE_OBS("standard chains", 8000); REQUIRE_OBS("places passed again at once", 3000); REQUIRE_OBS("data chains", 8000); REQUIRE_OBS("rethrown as it is", 5000); REQUIRE_OBS("rethrown with a location", 5000); REQUIRE_OBS("copied", 3000); REQUIRE_OBS("through another thread", 300); REQUIRE_OBS("stored", 2000); REQUIRE_OBS("long texts", 1000); REQUIRE_OBS("deep chains", 20); REQUIRE_OBS("posix errors", 3000); REQUIRE_OBS("macros", 5000);
static long alive = 0; // objects of the counted payload
struct Payload { std::string text; int number; Payload(const std::string& t = "", int n = 0) : text(t), number(n) { ++alive; } Payload(const Payload& o) : text(o.text), number(o.number) { ++alive; } Payload& operator=(const Payload& o) { text = o.text; number = o.number; return *this; } ~Payload() { --alive; } bool operator==(const Payload& o) const { return text == o.text && number == o.number; } };
std::ostream& operator<<(std::ostream& o, const Payload& p) { return o << "<" << p.text << "|" << p.number << ">"; }
static std::string token(Rng& r, const char* what) { static const char alphabet[] = "abcdefghijklmnopqrstuvwxyz"; std::string s = cat(what, "_"); for (int i = 0; i < 10; ++i) s += alphabet[r.below(26)]; return s; }
static std::string text(Rng& r, const char* what) { std::string s = token(r, what); size_t extra = r.chance(1, 400) ? 60000 + r.below(10000) : r.chance(1, 6) ? r.below(4000) : r.below(40); static const char alphabet[] = "abcxyz 0189%\\\"':/.-\t\x80\xff{}"; if (extra > 500) mon::obs("long texts"); s.reserve(s.size() + extra + 12); for (size_t i = 0; i < extra; ++i) s += r.chance(1, 60) ? '\n' : alphabet[r.below(sizeof alphabet - 1)]; s += token(r, "end"); return s; }
struct Want { ErrorFlag flag; std::string message; std::string payload; std::vector<std::string> locations; };
static void inorder(const std::string& what, const Want& w, const char* who, const std::string& history) {
  size_t at = 0; for (size_t i = w.locations.size(); i-- > 0;) { size_t k = what.find(w.locations[i], at); if (!EXPECT(k != std::string::npos, "location-lost", who, " after ", history, ": location ", w.locations.size() - 1 - i, " of ", w.locations.size(), " (", mon::quote(w.locations[i]).substr(0, 80), ") is not where it should be in ", mon::quote(what).substr(0, 800))) return; CHECK(what.find(w.locations[i], k + 1) == std::string::npos, "location-repeated", who, " after ", history, ": ", mon::quote(what).substr(0, 800)); at = k + w.locations[i].size(); }
  size_t k = what.find(ecl::Error(w.flag).what(), at); CHECK(k != std::string::npos, "flag-text", who, " after ", history, ": no text of flag ", w.flag, " in ", mon::quote(what).substr(0, 800)); if (k == std::string::npos) return;
  if (!w.message.empty()) { k = what.find(w.message, k); CHECK(k != std::string::npos, "message-text", who, " after ", history, ": no message in ", mon::quote(what).substr(0, 800)); if (k == std::string::npos) return; CHECK(what.find(w.message, k + 1) == std::string::npos, "message-repeated", who, " after ", history, ": ", mon::quote(what).substr(0, 800)); }
  if (!w.payload.empty()) { k = what.find(w.payload, k); CHECK(k != std::string::npos, "data-text", who, " after ", history, ": no data in ", mon::quote(what).substr(0, 800)); }
}
static void verify(const StandardException& e, const Want& w, const Payload*, const std::string& h) { CHECK(e.flag() == w.flag, "flag", "after ", h, ": flag ", e.flag(), " was ", w.flag); CHECK(e.message() == w.message, "message", "after ", h, ": ", mon::quote(e.message()).substr(0, 300), " was ", mon::quote(w.message).substr(0, 300)); inorder(e.what(), w, "StandardException", h); const ecl::Exception& base = e; const std::exception& root = e; CHECK(!strcmp(base.what(), e.what()) && !strcmp(root.what(), e.what()), "what-by-base", "after ", h); }
template <class D> static void verify(const DataException<D>& e, const Want& w, const D* d, const std::string& h) { CHECK(e.flag() == w.flag, "flag", "after ", h, ": flag ", e.flag(), " was ", w.flag); CHECK(e.data() == *d, "data", "after ", h); inorder(e.what(), w, "DataException", h); const ecl::Exception& base = e; const std::exception& root = e; CHECK(!strcmp(base.what(), e.what()) && !strcmp(root.what(), e.what()), "what-by-base", "after ", h); }
// a location as LOC gives it, in memory that does not outlive the call
struct Loc { std::vector<char> s; explicit Loc(const std::string& t) : s(t.begin(), t.end()) { s.push_back(0); } ~Loc() { for (char& c : s) c = '#'; } operator const char*() const { return s.data(); } };
template <class E, class D> struct Chain {
  Rng& r; Want want; const D* datum; std::string history; std::vector<E> kept; std::vector<Want> keptWant; std::vector<std::string> keptText; std::vector<std::exception_ptr> pointers;
  Chain(Rng& rr) : r(rr), datum(nullptr) {}
  std::string place() { std::string l = cat("/some/where/", token(r, "file"), r.flip() ? ".cpp:" : ".hpp:", r.range(1, 9999)); want.locations.push_back(l); return l; }
  void keep(const E& e) { if (kept.size() < 6) { kept.push_back(e); keptWant.push_back(want); keptText.push_back(e.what()); mon::obs("stored"); } }
  // runs the levels below and passes on what comes out of them
  template <class Raise> void level(int n, const Raise& raise) {
    if (n == 0) { raise(*this); return; }
    switch (r.below(9)) {
      case 0: level(n - 1, raise); return; // not interested
      case 1: try { level(n - 1, raise); } catch (const E& e) { history += " rethrow"; if (r.flip()) verify(e, want, datum, history); mon::obs("rethrown as it is"); throw; }
        return;
      case 2: try { level(n - 1, raise); } catch (const std::exception& e) { history += " rethrow-base"; inorder(e.what(), want, "std::exception", history); mon::obs("rethrown as it is"); throw; }
        return;
      case 3: try { level(n - 1, raise); } catch (ecl::Exception& e) { history += " rethrow-ecl-base"; inorder(e.what(), want, "ecl::Exception", history); mon::obs("rethrown as it is"); throw; }
        return;
      case 4: case 5: try { level(n - 1, raise); } catch (const E& e) { std::string before = e.what(); history += " wrap"; Want was = want; E* copy = nullptr; if (r.chance(1, 3)) keep(e); try { Loc l(place()); E next(l, e); CHECK(before == e.what(), "original-changed", "after ", history); verify(e, was, datum, history); mon::obs("rethrown with a location"); throw next; } catch (...) { delete copy; throw; } }
        return;
      case 6: try { level(n - 1, raise); } catch (E e) { history += " copy"; mon::obs("copied"); E second(e); if (r.flip()) { E third(std::move(second)); verify(third, want, datum, history); throw third; } throw second; }
        return;
      case 7: { std::exception_ptr p; std::thread other; try { level(n - 1, raise); return; } catch (...) { p = std::current_exception(); }
        history += " thread"; Chain* self = this; bool direct = r.chance(7, 8);
        auto look = [self, p] { try { std::rethrow_exception(p); } catch (const E& e) { verify(e, self->want, self->datum, self->history); } };
        if (direct) { mon::obs("copied"); look(); } else { std::thread t(look); t.join(); mon::obs("through another thread"); } if (pointers.size() < 4 && r.flip()) pointers.push_back(p); std::rethrow_exception(p); }
      default: { std::unique_ptr<E> box; try { level(n - 1, raise); return; } catch (const E& e) { box.reset(new E(e)); }
        history += " boxed"; mon::obs("stored"); Loc* l = nullptr; std::unique_ptr<Loc> holder; if (r.flip()) { holder.reset(new Loc(place())); l = holder.get(); mon::obs("rethrown with a location"); } if (l) { std::unique_ptr<E> next(new E(*l, *box)); holder.reset(); box = std::move(next); } throw E(*box); }
    }
  }
  void finish() { for (size_t i = 0; i < kept.size(); ++i) { verify(kept[i], keptWant[i], datum, "keeping it"); CHECK(keptText[i] == kept[i].what(), "stored-changed", "a stored exception tells something else later"); } }
};
template <class D> static D draw(Rng& r);
template <> int draw<int>(Rng& r) { return r.integer<int>(); }
template <> long long draw<long long>(Rng& r) { return r.integer<long long>(); }
template <> std::string draw<std::string>(Rng& r) { return text(r, "data"); }
template <> Payload draw<Payload>(Rng& r) { return Payload(text(r, "payload"), r.integer<int>()); }
static ErrorFlag flag(Rng& r) { return ErrorFlag(r.below(ecl::ErrorFlagCount)); }
static int deep(Rng& r) { mon::obs("deep chains"); return int(260 + r.below(400)); }
static uint64_t standard(Rng& r) {
  Chain<StandardException, Payload> c(r); int depth = r.chance(1, 250) ? deep(r) : int(r.below(r.chance(1, 10) ? 40 : 8)); bool caught = false; ErrorFlag f = flag(r); bool worded = r.chance(3, 4); std::string message = worded ? text(r, "message") : ""; if (r.chance(1, 20)) message = "", worded = true;
  c.want.flag = f; c.want.message = message;
  auto raise = [&](Chain<StandardException, Payload>& self) { Loc l(self.place()); if (!worded) throw StandardException(l, f); std::string given = message; StandardException e(l, f, given); given.assign(given.size(), '#'); throw e; };
  try { c.level(depth, raise); } catch (const StandardException& e) { caught = true; verify(e, c.want, nullptr, c.history); if (mon::current_case < 3) mon::sample(e.what()); }
  CHECK(caught, "not-caught", "after", c.history); c.finish(); mon::obs("standard chains"); return mon::hash(c.history, f);
}
template <class D> static uint64_t data(Rng& r) {
  Chain<DataException<D>, D> c(r); int depth = r.chance(1, 250) ? deep(r) : int(r.below(r.chance(1, 10) ? 40 : 8)); bool caught = false; ErrorFlag f = flag(r); bool worded = r.chance(3, 4); std::string message = worded ? text(r, "message") : ""; D value = draw<D>(r); const D record(value);
  c.want.flag = f; c.want.message = message; c.want.payload = cat(value); c.datum = &record;
  auto raise = [&](Chain<DataException<D>, D>& self) { Loc l(self.place()); D local(value); if (!worded) { DataException<D> e(l, f, local); local = D(); throw e; } std::string given = message; DataException<D> e(l, f, given, local); local = D(); given.assign(given.size(), '#'); throw e; };
  try { c.level(depth, raise); } catch (const DataException<D>& e) { caught = true; verify(e, c.want, &record, c.history); if (mon::current_case < 3) mon::sample(e.what()); }
  CHECK(caught, "not-caught", "after", c.history); c.finish(); mon::obs("data chains"); return mon::hash(c.history, f);
}
GROUP(chains, 500, 6000) {
  Rng& r = R; static bool warm = false; if (!warm) { warm = true; Rng w(r); for (int i = 0; i < 40; ++i) { standard(w); data<int>(w); } }
  for (int i = 0; i < 25; ++i) {
    uint64_t h = 0; long had = mon::live_blocks(), were = alive;
    switch (r.below(5)) { case 0: case 1: h = standard(r); break; case 2: h = data<Payload>(r); break; case 3: h = data<std::string>(r); break; default: h = r.flip() ? data<int>(r) : data<long long>(r); }
    CHECK(alive == were, "data-kept", alive - were, " objects of the carried type were left"); (void)had;
    mon::nontrivial(h);
  }
}
// nothing is left behind by a chain
GROUP_OPT(memory, 60, 600, "serial") {
  Rng& r = R; Rng again(r); standard(again); Rng again2(r); data<std::string>(again2);
  { Rng x(r); standard(x); } long had = mon::live_blocks(); { Rng x(r); standard(x); } long left = mon::live_blocks() - had; CHECK(left == 0, "memory", "a standard exception leaves ", left, " blocks");
  { Rng x(r); data<std::string>(x); } had = mon::live_blocks(); { Rng x(r); data<std::string>(x); } left = mon::live_blocks() - had; CHECK(left == 0, "memory", "a data exception leaves ", left, " blocks"); mon::nontrivial(r.next());
}
struct A {}; struct B {};
GROUP(posix, 300, 3000) {
  Rng& r = R; for (int i = 0; i < 15; ++i) {
    int n = int(r.below(140)); Want w; w.flag = ecl::PosixError; std::string loc = cat("/here/", token(r, "file"), ":", r.range(1, 500)); w.locations.push_back(loc); w.message = strerror(n);
    errno = n; StandardException e = r.flip() ? ecl::PosixErrorHandler<A>::GenerateStandardException(loc.c_str()) : ecl::PosixErrorHandler<B>::GenerateStandardException(loc.c_str());
    CHECK(e.flag() == ecl::PosixError, "posix", "errno ", n, " came as flag ", e.flag()); CHECK(e.message().find(w.message) == 0, "posix", "errno ", n, " came as ", mon::quote(e.message())); inorder(e.what(), w, "PosixErrorHandler", ""); mon::obs("posix errors"); mon::nontrivial(n);
  }
}
// the macros throw exactly what they are given, when they should
static int evaluated = 0; static ErrorFlag counted(ErrorFlag f) { ++evaluated; return f; } static bool condition(bool c) { ++evaluated; return c; }
// an exception that passes the same place several times, and places whose names begin alike: each passage is told, the last one first
static std::vector<int> passages(const std::string& what) { static const std::string mark = "/some/where/walk.cpp:"; std::vector<int> v; for (size_t k = 0; (k = what.find(mark, k)) != std::string::npos; k += mark.size()) v.push_back(atoi(what.c_str() + k + mark.size())); return v; }
template <class E, class Make> static void walk(Rng& r, const char* who, Make make) {
  std::vector<int> lines; int line = int(r.range(1, 30)), n = r.chance(1, 30) ? int(r.range(100, 300)) : int(r.range(1, 9)); std::unique_ptr<E> e;
  for (int i = 0; i < n; ++i) { switch (r.below(4)) { case 0: break; case 1: line = line < 100000 ? line * 10 + int(r.below(10)) : 1; break; case 2: line = line >= 10 ? line / 10 : line; break; default: line = int(r.range(1, 30)); } Loc l(cat("/some/where/walk.cpp:", line)); lines.insert(lines.begin(), line); if (!e) e.reset(new E(make(l))); else { E next(l, *e); e.reset(new E(next)); } mon::obs("places passed"); if (lines.size() > 1 && lines[0] == lines[1]) mon::obs("places passed again at once"); if (n < 20 || i == n - 1) { std::vector<int> got = passages(e->what()); CHECK(got == lines, "passages", who, " at line ", line, " after ", lines.size(), " places tells ", got.size(), " of them: ", mon::quote(e->what()).substr(0, 600)); } }
  try { throw *e; } catch (const std::exception& x) { CHECK(passages(x.what()) == lines, "passages", who, " caught: ", mon::quote(x.what()).substr(0, 600)); }
  mon::nontrivial(mon::hash(e->what())); mon::sample(e->what());
}
GROUP(recursions, 3000, 60000) { Rng& r = R;
  ErrorFlag f = r.flip() ? ecl::ReadError : ecl::UsageError; std::string m = r.flip() ? token(r, "msg") : ""; int d = int(r.below(1000));
  walk<StandardException>(r, "StandardException", [&](const char* l) { return m.empty() ? StandardException(l, f) : StandardException(l, f, m); });
  walk<DataException<int>>(r, "DataException", [&](const char* l) { return m.empty() ? DataException<int>(l, f, d) : DataException<int>(l, f, m, d); });
}
GROUP(macros, 300, 3000) {
  Rng& r = R;
#ifdef NDEBUG
  const bool debug = false;
#else
  const bool debug = true;
#endif
  for (int i = 0; i < 20; ++i) {
    ErrorFlag f = flag(r); int kind = int(r.below(4)); bool holds = r.flip(), after = false, thrown = false; ErrorFlag got = ecl::NoError; evaluated = 0; std::string m = token(r, "message"), gotMessage;
    try {
      switch (kind) {
        case 0: { ecl_throw(StandardException(LOC, counted(f), m)); break; }
        case 1: { ecl_debug_throw(StandardException(LOC, counted(f), m)); break; }
        case 2: { ecl_assert_throw(condition(holds), StandardException(LOC, f, m)); break; }
        default: { ecl_assert_throw(holds, StandardException(LOC, counted(f), m)); }
      }
      after = true;
    } catch (const StandardException& e) { thrown = true; got = e.flag(); gotMessage = e.message(); }
    bool want = kind == 0 ? true : kind == 1 ? debug : debug && !holds; static const char* names[] = {"ecl_throw", "ecl_debug_throw", "ecl_assert_throw", "ecl_assert_throw"};
    CHECK(thrown == want && after == !want, "macro", names[kind], " condition ", holds, thrown ? " threw" : " did not throw"); if (thrown) CHECK(got == f && gotMessage == m, "macro", names[kind], " threw ", got, " instead of ", f);
    int evals = kind == 0 ? 1 : kind == 1 ? (debug ? 1 : 0) : kind == 2 ? (debug ? 1 : 0) : (want ? 1 : 0); CHECK(evaluated == evals, "macro", names[kind], " evaluated its argument ", evaluated, " times"); mon::obs("macros"); mon::nontrivial(mon::mix(kind * 2 + holds, f));
    bool insideTry = false, insideCatch = false;
    ecl_try { insideTry = true; if (r.flip()) { ecl_throw(StandardException(LOC, f)); insideTry = false; } } ecl_catch(const StandardException& e) { insideCatch = e.flag() == f; }
    CHECK(insideTry, "macro", "ecl_try/ecl_throw/ecl_catch"); (void)insideCatch;
  }
}
