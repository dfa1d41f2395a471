// C05: parameters and references denote exactly one object (sequential part).
#include "mon.hpp"
#include <ecl/utilities/parameter.hpp>
#include <ecl/utilities/references.hpp>
#include <ecl/utilities/void.hpp>
#include <memory>
#include <sstream>
REQUIRE_OBS("parameter reads", 20000);
REQUIRE_OBS("reference uses", 20000);
using ecl::Parameter; using ecl::ReferenceWrapper;

struct Tracked { static long live; int v; std::string s; std::vector<int> w;
  Tracked() : v(0) { ++live; } explicit Tracked(int x) : v(x), s(std::to_string(x)), w(x & 7, x) { ++live; } Tracked(const Tracked& o) : v(o.v), s(o.s), w(o.w) { ++live; } ~Tracked() { --live; v = -77; }
  Tracked& operator=(const Tracked& o) { v = o.v; s = o.s; w = o.w; return *this; } bool operator==(const Tracked& o) const { return v == o.v && s == o.s && w == o.w; } };
long Tracked::live = 0;
inline std::ostream& operator<<(std::ostream& o, const Tracked& t) { return o << t.v; }
// a type whose address operator lies
struct Shy { int v; Shy(int x = 0) : v(x) {} Shy* operator&() { return 0; } const Shy* operator&() const { return 0; } };

template <class T> static void parameters(mon::Rng& R, std::function<T()> make, const char* tag) {
  const int n = 4; std::vector<Parameter<T>> p; std::vector<T> m; uint64_t h = mon::hash(tag);
  { Parameter<T> d; CHECK(d() == T(), "default", tag); }
  for (int i = 0; i < n; ++i) { T v = make(); p.push_back(Parameter<T>(v)); m.push_back(v); }
  for (int s = 0; s < 30; ++s) {
    int a = R.below(n), b = R.below(n); T v = make(); int op = R.below(6);
    switch (op) {
      case 0: p[a] = v; m[a] = v; break;
      case 1: p[a](v); m[a] = v; break;
      case 2: p[a] = p[b]; m[a] = m[b]; break;
      case 3: { Parameter<T> c(p[a]); c = v; CHECK(c() == v, "copy-assign", tag); CHECK(p[a]() == m[a], "copy-shares-state", tag); break; }
      case 4: p[a] = p[b](); m[a] = m[b]; break;
      case 5: p[a] = static_cast<const T&>(p[a]); break;
    }
    for (int i = 0; i < n; ++i) { const Parameter<T>& c = p[i]; const T& x = c; const T& y = c(); CHECK(x == m[i] && y == m[i] && &x == &y, "value", tag, " op ", op, " of ", a, " parameter ", i); mon::obs("parameter reads", 2); }
    h = mon::mix(h, op * 16 + a * 4 + b);
  }
  mon::nontrivial(h); mon::sample(mon::cat(tag, " parameters, history ", h));
}
GROUP(parameter_int, 150, 3000) { parameters<int>(R, [&] { return R.integer<int>(); }, "int"); }
GROUP(parameter_double, 100, 2000) { parameters<double>(R, [&] { return R.uniform(-1e9, 1e9); }, "double"); }
GROUP(parameter_string, 100, 2000) { parameters<std::string>(R, [&] { return std::string(R.below(60), (char)R.range('a', 'z')); }, "string"); }
GROUP(parameter_char, 60, 1000) { parameters<unsigned char>(R, [&] { return R.integer<unsigned char>(); }, "uchar"); }
GROUP(parameter_bool, 60, 1000) { parameters<bool>(R, [&] { return R.flip(); }, "bool"); }
GROUP(parameter_class, 100, 2000) { long l = Tracked::live; parameters<Tracked>(R, [&] { return Tracked(R.range(0, 99)); }, "class"); CHECK(Tracked::live == l, "leaked-copies", Tracked::live - l); }

template <class T> static void references(mon::Rng& R, std::function<T()> make, const char* tag) {
  const int n = 5; std::vector<std::unique_ptr<T>> o; std::vector<T> m; for (int i = 0; i < n; ++i) { T v = make(); o.emplace_back(new T(v)); m.push_back(v); }
  std::vector<ReferenceWrapper<T>> w; std::vector<int> to; for (int i = 0; i < n; ++i) { w.push_back(ecl::ref(*o[i])); to.push_back(i); }
  std::vector<ReferenceWrapper<const T>> cw; for (int i = 0; i < n; ++i) cw.push_back(ecl::cref(*o[i]));
  uint64_t h = mon::hash(tag, 3);
  for (int s = 0; s < 30; ++s) {
    int a = R.below(n), b = R.below(n); T v = make(); int op = R.below(7);
    switch (op) {
      case 0: { T& r = w[a]; r = v; m[to[a]] = v; break; }
      case 1: w[a].reference() = v; m[to[a]] = v; break;
      case 2: *w[a].pointer() = v; m[to[a]] = v; break;
      case 3: w[a] = w[b]; to[a] = to[b]; break;
      case 4: { ReferenceWrapper<T> c(w[a]); c.reference() = v; m[to[a]] = v; break; }
      case 5: *o[a] = v; m[a] = v; break;
      case 6: { ReferenceWrapper<T> c(*o[b]); const ReferenceWrapper<T>& k = c; k.reference() = v; m[b] = v; w[a] = c; to[a] = b; break; }
    }
    for (int i = 0; i < n; ++i) {
      const ReferenceWrapper<T>& k = w[i]; T& r = k; const T& cr = cw[i];
      CHECK(std::addressof(r) == o[to[i]].get() && std::addressof(k.reference()) == o[to[i]].get() && k.pointer() == o[to[i]].get(), "identity", tag, " op ", op);
      CHECK(std::addressof(cr) == o[i].get() && std::addressof(cw[i].reference()) == o[i].get() && cw[i].pointer() == o[i].get(), "const-identity", tag, " op ", op);
      CHECK(*o[i] == m[i] && r == m[to[i]] && cr == m[i], "value", tag, " op ", op); mon::obs("reference uses", 5);
    }
    h = mon::mix(h, op * 64 + a * 8 + b);
  }
  mon::nontrivial(h); mon::sample(mon::cat(tag, " references, history ", h));
}
GROUP(reference_int, 120, 2500) { references<int>(R, [&] { return R.integer<int>(); }, "int"); }
GROUP(reference_double, 120, 2500) { references<double>(R, [&] { return R.uniform(-5, 5); }, "double"); }
GROUP(reference_char, 100, 2000) { references<char>(R, [&] { return R.integer<char>(); }, "char"); }
GROUP(reference_class, 120, 2500) { long l = Tracked::live; references<Tracked>(R, [&] { return Tracked(R.range(0, 99)); }, "class"); CHECK(Tracked::live == l, "reference-copied-object", Tracked::live - l); }
template <class A, class B> static bool same() { return std::is_same<A, B>::value; }
template <class T> static bool wrapped() { bool b = ecl::is_reference_wrapper<T>::value; return b; }
GROUP(traits, 1, 1) {
  (void)R;
  CHECK(wrapped<ReferenceWrapper<int>>() && wrapped<ReferenceWrapper<const int>>() && wrapped<ReferenceWrapper<Tracked>>() && wrapped<ReferenceWrapper<ReferenceWrapper<int>>>(), "wrapped-types-recognised", "");
  CHECK(!wrapped<int>() && !wrapped<int&>() && !wrapped<Tracked>() && !wrapped<int*>() && !wrapped<std::string>() && !wrapped<void>() && !wrapped<Parameter<int>>(), "plain-types-recognised", "");
  CHECK((same<ReferenceWrapper<int>::type, int>() && same<ReferenceWrapper<const double>::type, const double>()), "wrapped-type", "");
  int i = 1; const int ci = 2;
  CHECK((same<decltype(ecl::ref(i)), ReferenceWrapper<int>>() && same<decltype(ecl::cref(i)), ReferenceWrapper<const int>>() && same<decltype(ecl::ref(ci)), ReferenceWrapper<const int>>() && same<decltype(ecl::cref(ci)), ReferenceWrapper<const int>>()), "constness", "");
  CHECK((same<decltype(ecl::cref(i).reference()), const int&>() && same<decltype(ecl::ref(i).reference()), int&>() && same<decltype(ecl::cref(i).pointer()), const int*>()), "constness", "");
  Shy s(5); const Shy cs(6); volatile int vi = 3;
  CHECK(ecl::ref(s).pointer() == std::addressof(s) && ecl::cref(cs).pointer() == std::addressof(cs) && ecl::addressOf(s) == std::addressof(s) && ecl::addressOf(cs) == std::addressof(cs) && ecl::addressOf(vi) == &vi, "overloaded-address", "");
  ecl::Void v; std::ostringstream o; o << "a" << v << "b"; CHECK(o.str() == "ab", "void-streams-nothing", o.str());
  mon::obs("reference uses", 12); mon::nontrivial(1);
}
