// Element types for container histories, with drawing, comparing and showing.
#ifndef VERIF_ARRAY_VALUES_HPP_
#define VERIF_ARRAY_VALUES_HPP_
#include "mon.hpp"
// counts its live instances and knows whether it was ever constructed
struct Tracked { Tracked* self; int v; static long live;
  Tracked(int x = 7) : self(this), v(x) { ++live; } Tracked(const Tracked& o) : self(this), v(o.v) { o.alive(); ++live; }
  Tracked& operator=(const Tracked& o) { alive(); o.alive(); v = o.v; return *this; } ~Tracked() { alive(); self = 0; --live; }
  void alive() const { if (self != this) { mon::fail("element-lifetime", "an element was used that is not a live object"); } } };
long Tracked::live = 0;
inline std::ostream& operator<<(std::ostream& o, const Tracked& t) { return o << "T" << t.v; }
struct Odd { unsigned char b[3]; }; // odd size, no alignment
inline std::ostream& operator<<(std::ostream& o, const Odd& t) { return o << (int)t.b[0] << ":" << (int)t.b[1] << ":" << (int)t.b[2]; }
template <class T> inline bool same(const T& a, const T& b) { return a == b; }
inline bool same(const Tracked& a, const Tracked& b) { a.alive(); return a.v == b.v; }
inline bool same(const Odd& a, const Odd& b) { return !memcmp(a.b, b.b, 3); }
template <class T> inline std::string show(const T& a) { return mon::cat(a); }
inline std::string show(unsigned char a) { return mon::cat((int)a); }
inline std::string show(char a) { return mon::cat((int)a); }
template <class T> struct ElementTraits { static const bool constructed = false, raw = true; static const char* name() { return "integer"; } static T draw(mon::Rng& R) { return R.template integer<T>(); } };
template <> struct ElementTraits<double> { static const bool constructed = false, raw = true; static const char* name() { return "double"; } static double draw(mon::Rng& R) { return R.uniform(-1e6, 1e6); } };
template <> struct ElementTraits<float> { static const bool constructed = false, raw = true; static const char* name() { return "float"; } static float draw(mon::Rng& R) { return (float)R.uniform(-1e6, 1e6); } };
template <> struct ElementTraits<std::string> { static const bool constructed = true, raw = false; static const char* name() { return "string"; } static std::string draw(mon::Rng& R) { return std::string(R.below(60), (char)('a' + R.below(26))); } };
template <> struct ElementTraits<Tracked> { static const bool constructed = true, raw = false; static const char* name() { return "tracked"; } static Tracked draw(mon::Rng& R) { return Tracked((int)R.next()); } };
template <> struct ElementTraits<Odd> { static const bool constructed = false, raw = true; static const char* name() { return "odd"; } static Odd draw(mon::Rng& R) { Odd o; for (unsigned char& c : o.b) c = (unsigned char)R.next(); return o; } };
#endif
