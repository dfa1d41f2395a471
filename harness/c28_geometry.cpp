// C28: angles, points and line segments obey Euclidean geometry.
#include "mon.hpp"
#include <ecl/geometry/angle.hpp>
#include <ecl/geometry/cartesian_point.hpp>
#include <ecl/geometry/homogeneous_point.hpp>
#include <ecl/geometry/linear_segment.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <cmath>
#include <memory>
REQUIRE_OBS("angles compared", 100000); REQUIRE_OBS("distances compared", 20000); REQUIRE_OBS("vertical segments", 1000); REQUIRE_OBS("segments of no length", 300); REQUIRE_OBS("points compared", 5000);
REQUIRE_OBS("foot inside the segment", 5000); REQUIRE_OBS("foot beyond an end", 5000);
typedef long double LD; static const LD PI = 3.14159265358979323846264338327950288L;
template <class T> static T any_angle(mon::Rng& R) {
  T v; switch (R.below(10)) { case 0: v = 0; break; case 1: v = (T)(PI * R.range(-8, 8)); break; case 2: v = (T)(PI / 2 * R.range(-9, 9)); break; case 3: v = (T)(PI * R.range(-8, 8)) + (T)R.uniform(-1e-3, 1e-3); break; case 4: v = (T)R.uniform(-1000, 1000); break; case 5: v = (T)R.uniform(-1e5, 1e5); break; case 6: v = (T)R.uniform(-1e-6, 1e-6); break; case 7: v = std::nextafter((T)PI * R.range(-1, 1), (T)R.range(-9, 9)); break; default: v = (T)R.uniform(-4 * PI, 4 * PI); } return v; }
// how far from a whole number of turns two angles are apart
static LD off_turn(LD a, LD b) { LD d = a - b; return std::fabs(d - 2 * PI * std::round(d / (2 * PI))); }
template <class T> struct Eps; template <> struct Eps<double> { static LD of(LD mag) { return 4e-15L * (mag + 1); } }; template <> struct Eps<float> { static LD of(LD mag) { return 1e-6L * (mag + 1); } };
template <class T> static void wrapped(const char* what, T got, LD want, LD mag, const std::string& in) {
  CHECK(std::fabs((LD)got) <= PI + Eps<T>::of(0), "range", what, " of ", in, " gives ", got); CHECK(off_turn(got, want) <= Eps<T>::of(mag), "congruence", what, " of ", in, " gives ", got, " want ", want); mon::obs("angles compared"); }
template <class T> static void angles(mon::Rng& R, const char* t) {
  using ecl::Angle; T a = any_angle<T>(R), b = any_angle<T>(R), k = (T)R.uniform(-20, 20); std::string in = mon::cat(t, " ", a, " and ", b);
  { T x = a; const T& r = ecl::wrap_angle(x); CHECK(&r == &x, "wrap-in-place", in); wrapped("wrap_angle in place", x, a, std::fabs((LD)a), in); const T c = a; T y = ecl::wrap_angle(c); wrapped("wrap_angle", y, a, std::fabs((LD)a), in); CHECK(x == y, "wrap-agree", in, ": ", x, " ", y); CHECK(c == a, "wrap-const", in);
    if (std::fabs((LD)a) < PI - Eps<T>::of(0)) CHECK(x == a, "already-wrapped-unchanged", in, " gives ", x); T z = x; ecl::wrap_angle(z); CHECK(off_turn(z, x) < Eps<T>::of(0), "wrap-idempotent", in); }
  T wa = ecl::wrap_angle((const T&)a), wb = ecl::wrap_angle((const T&)b); const Angle<T> A(a), B(b); const T &va = A, &vb = B; CHECK(va == wa && vb == wb, "construction", in, " gives ", va, " ", vb);
  { Angle<T> d; CHECK((T)d == 0, "default", (T)d); Angle<T> c; const Angle<T>& r = (c = b); CHECK(&r == &c && (T)c == wb, "assignment", in); c = A; CHECK((T)c == va, "copy", in); }
  LD m = 8; wrapped<T>("Angle + value", A + b, (LD)va + b, m + std::fabs((LD)b), in); wrapped<T>("Angle + Angle", A + B, (LD)va + vb, m, in); wrapped<T>("Angle - value", A - b, (LD)va - b, m + std::fabs((LD)b), in); wrapped<T>("Angle - Angle", A - B, (LD)va - vb, m, in); wrapped<T>("Angle * value", A * k, (LD)va * k, 80, in);
  { Angle<T> c(A); c += b; wrapped<T>("Angle += value", c, (LD)va + b, m + std::fabs((LD)b), in); } { Angle<T> c(A); c += B; wrapped<T>("Angle += Angle", c, (LD)va + vb, m, in); } { Angle<T> c(A); c -= b; wrapped<T>("Angle -= value", c, (LD)va - b, m + std::fabs((LD)b), in); } { Angle<T> c(A); c -= B; wrapped<T>("Angle -= Angle", c, (LD)va - vb, m, in); } { Angle<T> c(A); c *= k; wrapped<T>("Angle *= value", c, (LD)va * k, 80, in); } { Angle<T> c(A); c += c; wrapped<T>("Angle += itself", c, 2 * (LD)va, m, in); c = a; c -= c; wrapped<T>("Angle -= itself", c, 0, m, in); }
  CHECK((T)A == va && (T)B == vb && va == wa, "operands-unchanged", in);
  { T deg = (T)ecl::radians_to_degrees(a); CHECK(std::fabs((LD)deg - (LD)a * 180 / PI) <= Eps<T>::of(0) * (std::fabs((LD)deg) + 1e-3L), "radians-to-degrees", in, " gives ", deg); T rad = (T)ecl::degrees_to_radians(a); CHECK(std::fabs((LD)rad - (LD)a * PI / 180) <= Eps<T>::of(0) * (std::fabs((LD)rad) + 1e-3L), "degrees-to-radians", in, " gives ", rad); T back = ecl::degrees_to_radians(deg); CHECK(std::fabs((LD)back - a) <= Eps<T>::of(0) * (std::fabs((LD)a) + 1e-3L), "units-inverse", in, " back to ", back);
    Angle<T> dg = Angle<T>::Degrees(a); wrapped<T>("Degrees", dg, (LD)a * PI / 180, std::fabs((LD)a) / 57, in); Angle<T> rd = Angle<T>::Radians(a); CHECK((T)rd == wa, "Radians", in); Angle<T> c(A); T dd = c.degrees(); CHECK(std::fabs((LD)dd - (LD)va * 180 / PI) <= Eps<T>::of(0) * 200, "degrees", in, " gives ", dd); }
  { typename Angle<T>::RotationMatrix M = A.rotationMatrix(); LD c = cosl((LD)va), s = sinl((LD)va), e = Eps<T>::of(0); CHECK(std::fabs(M(0, 0) - c) < e && std::fabs(M(1, 1) - c) < e && std::fabs(M(1, 0) - s) < e && std::fabs(M(0, 1) + s) < e, "rotation-matrix", in); Angle<T> back(M); CHECK(off_turn((T)back, va) < 4 * e, "from-rotation-matrix", in, " gives ", (T)back); CHECK(std::fabs((LD)(T)back) <= PI + e, "from-rotation-matrix-range", in); mon::obs("angles compared", 2); }
  mon::nontrivial(mon::hash(&a, sizeof a, mon::hash(&b, sizeof b))); mon::sample(in);
}
GROUP(angles_double, 8000, 800000) { angles<double>(R, "double"); }
GROUP(angles_float, 5000, 500000) { angles<float>(R, "float"); }

static LD sq(LD x) { return x * x; }
static LD point_segment(LD x1, LD y1, LD x2, LD y2, LD x, LD y, int* where) { LD dx = x2 - x1, dy = y2 - y1, l = dx * dx + dy * dy, t = l > 0 ? ((x - x1) * dx + (y - y1) * dy) / l : 0; *where = t < 0 ? -1 : t > 1 ? 1 : 0; if (t < 0) t = 0; if (t > 1) t = 1; return sq(x - x1 - t * dx) + sq(y - y1 - t * dy); }
static double coord(mon::Rng& R, double scale) { switch (R.below(4)) { case 0: return R.range(-5, 5); case 1: return R.range(-5, 5) * scale; default: return R.uniform(-1, 1) * scale; } }
GROUP(segments, 12000, 1200000) {
  double sc[] = {1, 1, 10, 1000, 1e-3, 1e6}; double scale = sc[R.below(6)], x1 = coord(R, scale), y1 = coord(R, scale), x2 = coord(R, scale), y2 = coord(R, scale); int shape = R.below(8); if (shape == 0) x2 = x1; if (shape == 1) y2 = y1; if (shape == 2) { x2 = x1; y2 = y1; } if (shape == 3) x2 = x1 + (R.flip() ? 1e-4 : -1e-4) * scale; if (shape == 4) { x2 = x1; if (y1 == y2) y2 += scale; }
  ecl::LinearSegment s(x1, y1, x2, y2); LD M = std::max(std::max(std::fabs(x1), std::fabs(y1)), std::max(std::fabs(x2), std::fabs(y2))); std::string in = mon::cat("(", x1, ",", y1, ")-(", x2, ",", y2, ")");
  double A = s.A(), B = s.B(), C = s.C();
  if (x1 == x2) { mon::obs("vertical segments"); CHECK(A == 1 && B == 0 && C == x1, "vertical-form", in, " ", A, " ", B, " ", C); }
  else { CHECK(B == 1, "normal-form", in, " B ", B); LD slope = ((LD)y2 - y1) / ((LD)x2 - x1); LD e = 1e-15L * 16; CHECK(std::fabs(A + slope) <= e * (std::fabs(slope) + M / std::fabs((LD)x2 - x1)), "slope", in, " A ", A); for (int i = 0; i < 2; ++i) { LD x = i ? x2 : x1, y = i ? y2 : y1, r = A * x + B * y + C; CHECK(std::fabs(r) <= e * (std::fabs(A * (LD)x1) + std::fabs(A * (LD)x2) + 2 * M), "vanishes-on-end", in, " end ", i, " residual ", r); } }
  if (x1 == x2 && y1 == y2) mon::obs("segments of no length");
  for (int i = 0; i < 6; ++i) {
    LD t = R.uniform(-1, 2); if (R.chance(1, 4)) t = R.range(0, 1); double x, y, off = R.chance(1, 4) ? 0 : R.uniform(-2, 2); x = x1 + t * (x2 - x1) - off * (y2 - y1); y = y1 + t * (y2 - y1) + off * (x2 - x1); if (R.chance(1, 4)) { x = coord(R, scale); y = coord(R, scale); } if (i == 0) { x = x1; y = y1; } if (i == 1) { x = x2; y = y2; }
    double got = s.squaredDistanceFromPoint(x, y); int where; LD want = point_segment(x1, y1, x2, y2, x, y, &where); LD MM = std::max(M, std::max(std::fabs((LD)x), std::fabs((LD)y))); LD e = 64 * 1.2e-16L * MM, tol = e * std::sqrt(want) + e * e + 8e-16L * want;
    CHECK(std::fabs(got - want) <= tol, where ? "distance-beyond-end" : "distance", in, " to (", x, ",", y, ") gives ", got, " want ", want); mon::obs("distances compared"); mon::obs(where ? "foot beyond an end" : "foot inside the segment");
    ecl::LinearSegment r(x2, y2, x1, y1); double rev = r.squaredDistanceFromPoint(x, y); CHECK(std::fabs((LD)rev - got) <= 2 * tol, "distance-of-reversed", in, " to (", x, ",", y, ")");
    double d1 = sq(x - x1) + sq(y - y1), d2 = sq(x - x2) + sq(y - y2); CHECK(got <= std::min(d1, d2) + tol, "not-farther-than-ends", in, " to (", x, ",", y, ")"); }
  { ecl::LinearSegment c(s); CHECK(c.A() == A && c.B() == B && c.C() == C && c.squaredDistanceFromPoint(1, 2) == s.squaredDistanceFromPoint(1, 2), "copy", in); }
  mon::nontrivial(mon::hash(in)); mon::sample(in);
}
template <class F> static bool refused(F f) { try { f(); } catch (const ecl::StandardException& e) { return e.flag() == ecl::OutOfRangeError || e.flag() == ecl::InvalidInputError; } return false; }
template <class T, unsigned int N> static void general(mon::Rng& R, const char* t) {
  ecl::CartesianPoint<T, N> z; for (unsigned i = 0; i < N; ++i) CHECK(z[i] == T(), "default", t, " ", i); T v = (T)R.range(-100, 100); ecl::CartesianPoint<T, N> c(v); for (unsigned i = 0; i < N; ++i) CHECK(c[i] == v, "constant", t, " ", i);
  T w[N]; for (unsigned i = 0; i < N; ++i) { w[i] = (T)R.uniform(-1000, 1000); c[i] = w[i]; } const ecl::CartesianPoint<T, N> k(c); ecl::CartesianPoint<T, N> a; a = k; for (unsigned i = 0; i < N; ++i) CHECK(k[i] == w[i] && a[i] == w[i] && k.positionVector()[i] == w[i] && a.positionVector()[i] == w[i], "elements", t, " ", i);
  unsigned bad = N + R.below(5); if (R.flip()) bad = (unsigned)-1; CHECK(refused([&] { c[bad]; }) && refused([&] { k[bad]; }), "index-refused", t, " ", bad); ecl::linear_algebra::Matrix<T, N, 1> vec; for (unsigned i = 0; i < N; ++i) vec[i] = w[i]; ecl::CartesianPoint<T, N> p(vec); for (unsigned i = 0; i < N; ++i) CHECK(p[i] == w[i], "from-vector", t, " ", i); p.positionVector()[N - 1] = 7; CHECK(p[N - 1] == 7, "vector-access", t); mon::obs("points compared", 4);
}
template <class T> static void planar(mon::Rng& R, const char* t) {
  typedef ecl::CartesianPoint<T, 2> P; LD e = sizeof(T) == 4 ? 4e-6L : 1e-14L; T x = (T)coord(R, 100), y = (T)coord(R, 100), u = (T)coord(R, 100), v = (T)coord(R, 100); if (R.chance(1, 8)) x = 0; if (R.chance(1, 8)) y = 0; P p(x, y), q(u, v); const P cp(p); std::string in = mon::cat(t, " (", x, ",", y, ") (", u, ",", v, ")"); LD len = std::sqrt(sq(x) + sq(y));
  CHECK(p.x() == x && p.y() == y && cp.x() == x && cp.y() == y && p[0] == x && p[1] == y && cp[0] == x && cp[1] == y && p.size() == 2, "coordinates", in); { P d; CHECK(d.x() == 0 && d.y() == 0, "default", in); P k((T)3); CHECK(k.x() == 3 && k.y() == 3, "constant", in); P s; s << x, y; CHECK(s.x() == x && s.y() == y, "comma", in); s.x(v); s.y(u); CHECK(s.x() == v && s.y() == u, "setters", in); s[0] = x; s[1] = u; CHECK(s.x() == x && s.y() == u, "index-write", in); typename ecl::linear_algebra::Matrix<T, 2, 1> m; m << u, x; P fv(m); CHECK(fv.x() == u && fv.y() == x && fv.positionVector() == m, "from-vector", in); const P& r = (s = q); (void)r; CHECK(s.x() == u && s.y() == v, "assignment", in); s = s; CHECK(s.x() == u && s.y() == v, "self-assignment", in); }
  P a = p + q, b = p - q; CHECK(a.x() == (T)(x + u) && a.y() == (T)(y + v), "sum", in); CHECK(b.x() == (T)(x - u) && b.y() == (T)(y - v), "difference", in); { P s(p); s += q; CHECK(s.x() == (T)(x + u) && s.y() == (T)(y + v), "in-place-sum", in); s = p; s += s; CHECK(s.x() == (T)(x + x) && s.y() == (T)(y + y), "doubling", in); }
  { bool eq = x == u && y == v; CHECK((p == q) == eq && (p != q) == !eq, "equality", in); P s(p); CHECK(s == p && !(s != p), "equality-copy", in); s.x(x + 1); CHECK(!(s == p) && s != p, "inequality-x", in); s = p; s.y(y + 1); CHECK(!(s == p) && s != p, "inequality-y", in); }
  { LD want = std::sqrt(sq((LD)x - u) + sq((LD)y - v)); CHECK(std::fabs(p.distance(q) - want) <= e * (want + std::fabs(x) + std::fabs(u) + std::fabs(y) + std::fabs(v)), "distance", in, " gives ", p.distance(q)); CHECK(p.distance(p) == 0, "distance-to-itself", in); CHECK(std::fabs(p.Norm() - len) <= e * len, "norm", in, " gives ", p.Norm()); if (len > 0) CHECK(std::fabs(p.get_angle() - std::atan2((LD)y, (LD)x)) <= e, "angle", in, " gives ", p.get_angle()); }
  { double th = R.chance(1, 4) ? (double)PI / 2 * R.range(-4, 4) : R.uniform(-10, 10); P r(p); r.rotate(th); LD c = cosl(th), s = sinl(th); CHECK(std::fabs(r.x() - (x * c - y * s)) <= e * (len + 1e-3L) && std::fabs(r.y() - (x * s + y * c)) <= e * (len + 1e-3L), "rotate", in, " by ", th, " gives ", r.x(), ",", r.y()); }
  { P n(p); T mag = n.Normalize(); CHECK(std::fabs(mag - len) <= e * len, "normalize-magnitude", in); if (len > 0) CHECK(std::fabs(n.x() - x / len) <= e && std::fabs(n.y() - y / len) <= e, "normalize", in, " gives ", n.x(), ",", n.y()); else CHECK(n.x() == 1 && n.y() == 0, "normalize-zero", in); }
  { std::ostringstream o; o.precision(17); o << p; std::string bo, bc; T gx, gy; std::istringstream i(o.str()); i >> bo >> gx >> gy >> bc; CHECK(i && bo == "[" && bc == "]" && gx == x && gy == y, "stream", in, " prints ", o.str()); }
  unsigned bad = 2 + R.below(4); CHECK(refused([&] { p[bad]; }) && refused([&] { cp[bad]; }), "index-refused", in, " ", bad); CHECK(p.x() == x && p.y() == y && q.x() == u && q.y() == v, "operands-unchanged", in); mon::obs("points compared", 20); mon::nontrivial(mon::hash(in)); mon::sample(in);
}
template <class T> static void scaled(mon::Rng& R) { typedef ecl::CartesianPoint<T, 2> P; T x = coord(R, 100), y = coord(R, 100); double k = R.uniform(-9, 9); P p(x, y), s = p * k; CHECK(std::fabs((LD)s.x() - (LD)x * k) <= 1e-14L * std::fabs(x * k) && std::fabs((LD)s.y() - (LD)y * k) <= 1e-14L * std::fabs(y * k), "scale", x, ",", y, " by ", k); mon::obs("points compared"); }
template <class T> static void spatial(mon::Rng& R, const char* t) {
  typedef ecl::CartesianPoint<T, 3> P; T x = (T)coord(R, 100), y = (T)coord(R, 100), z = (T)coord(R, 100); P p(x, y, z); const P c(p); std::string in = mon::cat(t, " ", x, ",", y, ",", z); CHECK(p.x() == x && p.y() == y && p.z() == z && c.x() == x && c.y() == y && c.z() == z && p.size() == 3, "coordinates", in);
  { P d, k((T)4), s; CHECK(d.x() == 0 && d.y() == 0 && d.z() == 0 && k.x() == 4 && k.y() == 4 && k.z() == 4, "constant", in); s << z, x, y; CHECK(s.x() == z && s.y() == x && s.z() == y, "comma", in); s.x(x); s.y(y); s.z(z); CHECK(s.x() == x && s.y() == y && s.z() == z && s.positionVector() == p.positionVector(), "setters", in); P f(c.positionVector()); CHECK(f.x() == x && f.y() == y && f.z() == z, "from-vector", in); }
  std::ostringstream o; o.precision(17); o << p; std::string bo, bc; T gx, gy, gz; std::istringstream i(o.str()); i >> bo >> gx >> gy >> gz >> bc; CHECK(i && bo == "[" && bc == "]" && gx == x && gy == y && gz == z, "stream", in, " prints ", o.str()); mon::obs("points compared", 5);
}
template <class T> static void homogeneous(mon::Rng& R, const char* t) {
  typedef ecl::HomogeneousPoint<T> P; T x = (T)coord(R, 100), y = (T)coord(R, 100), z = (T)coord(R, 100); P p(x, y, z); const P c(p); std::string in = mon::cat(t, " homogeneous ", x, ",", y, ",", z); auto& v = c.positionVector(); CHECK(p.x() == x && p.y() == y && p.z() == z && c.x() == x && c.y() == y && c.z() == z && v[0] == x && v[1] == y && v[2] == z && v[3] == 1, "coordinates", in);
  { P d, k((T)4); CHECK(d.x() == 0 && d.y() == 0 && d.z() == 0 && d.positionVector()[3] == 1 && k.x() == 4 && k.y() == 4 && k.z() == 4 && k.positionVector()[3] == 1, "constant", in); ecl::linear_algebra::Matrix<T, 3, 1> m; m << z, x, y; P f(m); CHECK(f.x() == z && f.y() == x && f.z() == y && f.positionVector()[3] == 1, "from-vector", in); ecl::linear_algebra::Matrix<T, 4, 1> h; h << z, x, y, 1; P g(h); CHECK(g.positionVector() == f.positionVector(), "from-homogeneous-vector", in); h[3] = R.chance(1, 2) ? 0 : (T)R.uniform(1.5, 3); CHECK(refused([&] { P b(h); }), "weight-refused", in, " ", h[3]); P s; s << y, x, z, 1; CHECK(s.x() == y && s.y() == x && s.z() == z, "comma", in); s.x(x); s.y(y); s.z(z); CHECK(s.positionVector() == v, "setters", in); }
  std::ostringstream o; o.precision(17); o << p; std::string bo, bc; T gx, gy, gz; std::istringstream i(o.str()); i >> bo >> gx >> gy >> gz >> bc; CHECK(i && bo == "[" && bc == "]" && gx == x && gy == y && gz == z, "stream", in, " prints ", o.str()); mon::obs("points compared", 5);
}
GROUP(points, 4000, 300000) { planar<double>(R, "double"); planar<float>(R, "float"); scaled<double>(R); spatial<double>(R, "double"); spatial<float>(R, "float"); spatial<int>(R, "int"); homogeneous<double>(R, "double"); homogeneous<float>(R, "float"); general<double, 4>(R, "double4"); general<float, 5>(R, "float5"); general<int, 6>(R, "int6"); }
GROUP(integer_points, 1000, 20000) { typedef ecl::CartesianPoint<int, 2> P; int x = R.range(-100, 100), y = R.range(-100, 100), u = R.range(-100, 100), v = R.range(-100, 100); P p(x, y), q(u, v), a = p + q, b = p - q; CHECK(a.x() == x + u && a.y() == y + v && b.x() == x - u && b.y() == y - v, "sum", x, y, u, v); CHECK((p == q) == (x == u && y == v), "equality", ""); p += q; CHECK(p.x() == x + u && p.y() == y + v && p[0] == x + u, "in-place-sum", ""); p << 5, 6; CHECK(p.x() == 5 && p.y() == 6, "comma", ""); std::ostringstream o; o << q; CHECK(o.str() == mon::cat("[ ", u, " ", v, " ]"), "stream", o.str()); mon::obs("points compared", 4); mon::nontrivial(mon::mix(mon::mix(x, y), mon::mix(u, v))); }
