// C29: polynomials evaluate, differentiate, shift and interpolate exactly.
#include "mon.hpp"
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/pascals_triangle.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <cmath>
#include <algorithm>
#include <sstream>
typedef long double L; typedef std::vector<L> P; using std::string;
static const L E = 2.3e-16L;
REQUIRE_OBS("evaluations compared", 20000, 200000); REQUIRE_OBS("shifts compared", 2000, 20000); REQUIRE_OBS("roots compared", 4000, 40000); REQUIRE_OBS("cubics with a single real root", 300, 3000); REQUIRE_OBS("cubics with three real roots", 300, 3000); REQUIRE_OBS("cubics that are no cubics", 100, 1000); REQUIRE_OBS("extrema inside the interval", 500, 5000); REQUIRE_OBS("intersections compared", 500, 5000); REQUIRE_OBS("parallel lines refused", 100, 1000); REQUIRE_OBS("end conditions met", 6000, 60000);
static L ev(const P& p, L x) { L v = 0; for (size_t i = p.size(); i--;) v = v * x + p[i]; return v; }
static L mag(const P& p, L x) { L v = 0; for (size_t i = p.size(); i--;) v = v * fabsl(x) + fabsl(p[i]); return v; }
static P der(const P& p) { P d; for (size_t i = 1; i < p.size(); ++i) d.push_back(p[i] * i); if (d.empty()) d.push_back(0); return d; }
template <unsigned N> static P of(const ecl::Polynomial<N>& p) { P r; for (unsigned i = 0; i <= N; ++i) r.push_back(p.coefficients()[i]); return r; }
static string show(const P& p) { string s; for (L a : p) s += mon::cat((double)a, " "); return s; }
static bool close(L got, L want, L tol) { return std::isfinite(got) && fabsl(got - want) <= tol; }
template <unsigned N> static void set(ecl::Polynomial<N>& p, const std::vector<double>& a) { for (unsigned i = 0; i <= N; ++i) p.coefficients()[i] = a[i]; }
static double number(mon::Rng& r, int e) { switch (r.below(8)) { case 0: return 0; case 1: return (double)r.range(-5, 5); case 2: return r.uniform(-1, 1); default: return r.uniform(-1, 1) * std::pow(10.0, (double)r.range(-e, e)); } }
template <unsigned N> struct Deg {
  static void evaluate(const ecl::Polynomial<N>& p, const P& a, L x, const char* what) {
    const L t = 64 * (N + 1) * E; P d = der(a), dd = der(d); double xd = (double)x, y = p(xd), y1 = p.derivative(xd), y2 = p.dderivative(xd);
    CHECK(close(y, ev(a, x), t * mag(a, x)), "value", what, " degree ", N, " [", show(a), "] at ", xd, " gives ", y, " not ", (double)ev(a, x));
    CHECK(close(y1, ev(d, x), t * mag(d, x)), "derivative-value", what, " degree ", N, " [", show(a), "] at ", xd, " gives ", y1, " not ", (double)ev(d, x));
    CHECK(close(y2, ev(dd, x), t * mag(dd, x)), "second-derivative-value", what, " degree ", N, " [", show(a), "] at ", xd, " gives ", y2, " not ", (double)ev(dd, x)); mon::obs("evaluations compared");
  }
  static void derivative(const ecl::Polynomial<N>& p, const P& a) {
    ecl::Polynomial<N - 1> q = p.derivative(); P d = der(a), g = of<N - 1>(q); for (unsigned i = 0; i < N; ++i) CHECK(close(g[i], d[i], 4 * E * fabsl(d[i])), "derivative-coefficient", "degree ", N, " [", show(a), "] gives [", show(g), "]");
  }
  static void shift(ecl::Polynomial<N>& p, const P& a, double s, mon::Rng& r) {
    P want(N + 1, 0), m(N + 1, 0), mabs(N + 1, 0); for (unsigned i = 0; i <= N; ++i) { L c = 1, f = 1; for (unsigned j = i; j <= N; ++j) { want[i] += c * f * a[j]; mabs[i] += fabsl(c * f * a[j]); c = c * (j + 1) / (j + 1 - i); f *= -(L)s; } }
    p.shift_horizontal(s); P g = of<N>(p); for (unsigned i = 0; i <= N; ++i) CHECK(close(g[i], want[i], 64 * (N + 1) * E * mabs[i]), "shift", "degree ", N, " [", show(a), "] by ", s, " gives [", show(g), "] not [", show(want), "]");
    for (int k = 0; k < 3; ++k) { double x = number(r, 3); L tol = 256 * (N + 1) * E * (mag(mabs, (L)x + s) + mag(a, x)); CHECK(close(p((double)((L)x + s)), ev(a, (L)x), tol + fabsl(ev(der(want), (L)x + s)) * E * 4 * (fabsl((L)x) + fabsl((L)s))), "shift-translates-graph", "degree ", N, " [", show(a), "] by ", s, " at ", x); }
    mon::obs("shifts compared");
  }
  static void text(const ecl::Polynomial<N>& p, const P& a) {
    string want; char b[400]; for (unsigned i = 0; i <= N; ++i) { snprintf(b, sizeof b, "%.2f", (double)a[i]); want += (i ? " + " : "") + string(b); if (i) want += mon::cat("x^", i); }
    std::ostringstream o; o << p; CHECK(o.str() == want, "text", o.str(), " not ", want); mon::obs("texts compared");
  }
  static uint64_t run(mon::Rng& r) {
    ecl::Polynomial<N> p; { P z = of<N>(p); for (L c : z) CHECK(c == 0, "default-is-zero", show(z)); }
    int e = (int)r.pick(std::vector<int>{0, 1, 2, 6, 12}); std::vector<double> a(N + 1); for (double& x : a) x = number(r, e); set<N>(p, a); P A(a.begin(), a.end());
    for (int k = 0; k < 6; ++k) evaluate(p, A, number(r, r.flip() ? 1 : 8), "polynomial");
    derivative(p, A); if (e <= 2) text(p, A);
    ecl::Polynomial<N> q(p), o; o = p; set<N>(q, std::vector<double>(N + 1, 1.5)); CHECK(of<N>(p) == A && of<N>(o) == A, "copies-are-independent", show(of<N>(p))); for (L c : of<N>(q)) CHECK(c == 1.5L, "copy-takes-coefficients", (double)c);
    double s = number(r, e <= 2 ? 2 : 4); if (r.chance(1, 4)) { s = (r.flip() ? s : 1) * std::pow(10.0, -(double)r.range(3, 14)); mon::obs("tiny shifts"); } shift(o, A, s, r); CHECK(of<N>(p) == A, "copies-are-independent", "after shifting a copy"); P B = of<N>(o); shift(o, B, number(r, 1), r); for (int k = 0; k < 2; ++k) evaluate(o, of<N>(o), number(r, 2), "shifted");
    ecl::Polynomial<N> z(p); z.shift_horizontal(0.0); CHECK(of<N>(z) == A, "shift-by-nothing", show(of<N>(z)));
    return mon::hash(&a[0], sizeof(double) * (N + 1), mon::hash(&s, sizeof s, N));
  }
};
GROUP(polynomials, 15000, 1200000) {
  uint64_t h = 0;
  switch (R.below(10)) { case 0: h = Deg<1>::run(R); break; case 1: case 2: h = Deg<2>::run(R); break; case 3: case 4: h = Deg<3>::run(R); break; case 5: h = Deg<4>::run(R); break; case 6: case 7: h = Deg<5>::run(R); break; case 8: h = Deg<7>::run(R); break;
    default: { h = Deg<10>::run(R); ecl::Polynomial<0> z; CHECK(z(number(R, 5)) == 0 && z.derivative(3.0) == 0 && z.dderivative(1.0) == 0, "constant", "default"); double v = number(R, 5); z.coefficients()[0] = v; z.shift_horizontal(number(R, 3)); CHECK(z(number(R, 3)) == v && z.derivative(2.0) == 0 && z.dderivative(2.0) == 0 && z.derivative()(1.0) == 0, "constant", v); } }
  mon::nontrivial(h);
}
// ---- Pascal's triangle
template <int N> static void triangle() {
  ecl::PascalsTriangle<N> t; std::vector<std::vector<long> > want; for (int i = 0; i <= N; ++i) { want.push_back({}); long c = 1; for (int j = 0; j <= N - i; ++j) { want[i].push_back(c); c = c * (i + j + 1) / (j + 1); } }
  long first = 0; for (int i = 0; i <= N; ++i) { std::vector<long> g; int n = 0; for (typename ecl::PascalsTriangle<N>::const_iterator it = t.begin(i); it != t.end(i) && n <= N + 1; ++it, ++n) g.push_back(*it); CHECK(g == want[i], "pascals-triangle", "of ", N, " diagonal ", i, " has ", g.size(), " entries"); CHECK(t.end(i) - t.begin(i) == N + 1 - i, "pascals-triangle-diagonal-length", "of ", N, " diagonal ", i); first += N + 1 - i; }
  { typename ecl::PascalsTriangle<N>::const_iterator it = t.begin(); CHECK(*it == 1 && t.begin() == t.begin(0) && t.end() == t.end(0) , "pascals-triangle-default-diagonal", N); }
  std::ostringstream o; o << t; std::istringstream in(o.str()); string line; int i = 0; while (std::getline(in, line)) { std::istringstream l(line); std::vector<long> g; long v; while (l >> v) g.push_back(v); CHECK(i <= N && g == want[i] && l.eof(), "pascals-triangle-text", "of ", N, " line ", i, ": ", line); ++i; } CHECK(i == N + 1, "pascals-triangle-text", "of ", N, " has ", i, " lines");
  ecl::PascalsTriangle<N> c(t); std::ostringstream o2; o2 << c; CHECK(o.str() == o2.str(), "pascals-triangle-copy", N); mon::obs("triangles compared");
}
GROUP(triangles, 1, 1) { triangle<0>(); triangle<1>(); triangle<2>(); triangle<3>(); triangle<4>(); triangle<5>(); triangle<6>(); triangle<7>(); triangle<10>(); triangle<15>(); triangle<20>(); triangle<30>(); mon::nontrivial(1); mon::sample("triangles of degree 0..30"); }
// ---- synthetic division
GROUP(division, 3600, 200000) {
  mon::Rng& r = R; double f = number(r, 3), rem = 4711; P d, g; L R_ = 0;
  if (r.flip()) { ecl::QuadraticPolynomial p; set<2>(p, {number(r, 3), number(r, 3), number(r, 3)}); d = of<2>(p); ecl::LinearFunction q = r.flip() ? ecl::Division<ecl::QuadraticPolynomial>()(p, f, rem) : ecl::QuadraticPolynomial::Division(p, f, rem); g = of<1>(q); CHECK(of<2>(p) == d, "division-keeps-dividend", show(d)); }
  else { ecl::CubicPolynomial p; set<3>(p, {number(r, 3), number(r, 3), number(r, 3), number(r, 3)}); d = of<3>(p); ecl::QuadraticPolynomial q = r.flip() ? ecl::Division<ecl::CubicPolynomial>()(p, f, rem) : ecl::CubicPolynomial::Division(p, f, rem); g = of<2>(q); CHECK(of<3>(p) == d, "division-keeps-dividend", show(d)); }
  L tol = 64 * E * mag(d, f); CHECK(close(rem, ev(d, f), tol), "division-remainder", "[", show(d), "] by x - ", f, " leaves ", rem, " not ", (double)ev(d, f));
  for (size_t i = 0; i < d.size(); ++i) { L back = (i ? g[i - 1] : (L)rem) - (i < g.size() ? f * g[i] : 0), m = 0; for (size_t k = i; k < d.size(); ++k) m += fabsl(d[k]) * powl(fabsl((L)f), k - i); CHECK(close(back, d[i], 64 * E * m), "division", "[", show(d), "] by x - ", f, " gives [", show(g), "] remainder ", rem); } (void)R_;
  mon::obs("divisions compared"); mon::nontrivial(mon::hash(&d[0], sizeof(L) * d.size(), mon::hash(&f, 8)));
}
// ---- roots
static std::vector<L> list(const ecl::Array<double>& a) { std::vector<L> r; for (unsigned i = 0; i < a.size(); ++i) r.push_back(a[i]); return r; }
static string vals(const std::vector<L>& v) { string s = "{"; for (L x : v) s += mon::cat((double)x, " "); return s + "}"; }
// every value returned is a root
static void residuals(const P& p, const std::vector<L>& g, L tol) { L far = 0; for (size_t n = p.size() - 1, i = 0; i < n; ++i) if (p[n] != 0) far = std::max(far, powl(fabsl(p[i] / p[n]), (L)1 / (n - i))); // of the size of the largest root, real or not
   for (L x : g) CHECK(std::isfinite(x) && fabsl(ev(p, x)) <= tol * mag(p, fabsl(x) + 1e-3L * far) + 1e-300L, "root-does-not-solve", "[", show(p), "] gives ", vals(g), ", value ", (double)ev(p, x)); }
static void same(const P& p, std::vector<L> g, std::vector<L> w, L tol) {
  std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); bool ok = g.size() == w.size(); for (size_t i = 0; ok && i < g.size(); ++i) ok = close(g[i], w[i], tol); CHECK(ok, "roots", "[", show(p), "] gives ", vals(g), " not ", vals(w)); mon::obs("roots compared", w.size());
}
static std::vector<L> roots(const P& p, mon::Rng& r) {
  std::vector<double> a(p.begin(), p.end());
  if (p.size() == 2) { ecl::LinearFunction f; set<1>(f, a); return list(r.flip() ? ecl::Roots<ecl::LinearFunction>()(f) : ecl::LinearFunction::Roots(f)); }
  if (p.size() == 3) { ecl::QuadraticPolynomial f; set<2>(f, a); return list(r.flip() ? ecl::Roots<ecl::QuadraticPolynomial>()(f) : ecl::QuadraticPolynomial::Roots(f)); }
  ecl::CubicPolynomial f; set<3>(f, a); return list(r.flip() ? ecl::Roots<ecl::CubicPolynomial>()(f) : ecl::CubicPolynomial::Roots(f));
}
static void linear_roots(mon::Rng& r, L b, L a, size_t degree) { // padded with zero leading coefficients up to that degree
  P p{b, a}; p.resize(degree + 1, 0); std::vector<L> g = roots(p, r);
  if (a != 0) { CHECK(g.size() == 1, "root-count", "[", show(p), "] gives ", vals(g)); if (g.size() == 1) CHECK(close(g[0], -b / a, 8 * E * fabsl(b / a)), "roots", "[", show(p), "] gives ", vals(g)); mon::obs("roots compared"); }
  else if (b != 0) CHECK(g.empty(), "root-of-constant", "[", show(p), "] gives ", vals(g));
}
static void quadratic_roots(mon::Rng& r, L c, L b, L a, size_t degree) {
  P p{c, b, a}; p.resize(degree + 1, 0); std::vector<L> g = roots(p, r); L D = b * b - 4 * a * c, M = b * b + 4 * fabsl(a * c);
  if (fabsl(D) > 1e-13L * M) {
    if (D < 0) { CHECK(g.empty(), "root-count", "[", show(p), "] gives ", vals(g), " but has none"); mon::obs("quadratics without roots"); return; }
    L s = sqrtl(D), q = -(b + (b < 0 ? -s : s)) / 2; std::vector<L> w{q / a, c / q}; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); L rel = 1e-12L * (1 + M / (s * (fabsl(b) + s)));
    bool ok = g.size() == 2; for (int i = 0; ok && i < 2; ++i) ok = close(g[i], w[i], rel * fabsl(w[i])); CHECK(ok, "roots", "[", show(p), "] gives ", vals(g), " not ", vals(w)); mon::obs("roots compared", 2);
  } else if (D == 0 && (double)(b * b) == b * b && (double)(4 * a * c) == 4 * a * c) { // rounding plays no part
    CHECK(g.size() == 1 && close(g[0], -b / (2 * a), 8 * E * fabsl(b / a)), "double-root", "[", show(p), "] gives ", vals(g)); mon::obs("roots compared");
  } else residuals(p, g, 1e-12L);
}
GROUP(low_roots, 12000, 800000) {
  mon::Rng& r = R; size_t pad = r.below(3); int e = (int)r.pick(std::vector<int>{0, 1, 3, 6}); double a = number(r, e), b = number(r, e), c = number(r, e);
  if (pad) mon::obs("polynomials with vanishing leading coefficients");
  if (r.chance(1, 3)) { linear_roots(r, b, a, std::min<size_t>(1 + pad, 3)); if (pad == 2) mon::obs("cubics that are no cubics"); }
  else { if (r.chance(1, 4)) a *= std::pow(10.0, -(double)r.range(5, 15)); if (r.chance(1, 5)) { a = (double)r.range(1, 9) * (r.flip() ? 1 : -1); long x = r.range(-9, 9); b = -2 * a * x; c = a * x * x; }
    if (a == 0) linear_roots(r, c, b, 2); else { quadratic_roots(r, c, b, a, pad ? 3 : 2); if (pad) mon::obs("cubics that are no cubics"); } }
  double f[3] = {a, b, c}; mon::nontrivial(mon::hash(f, sizeof f, pad));
}
GROUP(cubic_roots, 18000, 1200000) {
  mon::Rng& r = R; P p(4); std::vector<L> w; L tol = 1e-8L; double lead = r.pick(std::vector<double>{1, -1, 2, 0.5, r.uniform(0.01, 10), -r.uniform(0.01, 10)}); bool complete = true;
  switch (r.below(8)) {
    case 0: { // three separated roots
      double x = r.uniform(-5, 3), y = x + r.uniform(0.1, 2), z = y + r.uniform(0.1, 2); w = {x, y, z}; p = {(double)(-lead * w[0] * w[1] * w[2]), (double)(lead * (w[0] * w[1] + w[0] * w[2] + w[1] * w[2])), (double)(-lead * (w[0] + w[1] + w[2])), lead}; mon::obs("cubics with three real roots"); break; }
    case 1: { // one root and a complex pair u +- iv
      L x = r.uniform(-5, 5), u = r.uniform(-5, 5), v = r.uniform(0.1, 3); w = {x}; p = {(double)(-lead * x * (u * u + v * v)), (double)(lead * (u * u + v * v + 2 * u * x)), (double)(-lead * (2 * u + x)), lead}; mon::obs("cubics with a single real root"); break; }
    case 2: { // shifted whole numbers: (x - s)^3 + p (x - s) + q with one of p and q nothing
      L s = r.range(-6, 6), P_ = 0, Q = 0; int k = (int)r.below(4); if (k == 1) P_ = r.range(-9, 9); if (k == 2) Q = r.range(-30, 30); if (k == 3) P_ = r.range(1, 12);
      L a = (L)r.pick(std::vector<int>{1, -1, 2, 3}); p = {a * (-s * s * s - P_ * s + Q), a * (3 * s * s + P_), a * -3 * s, a}; if (P_ < 0) w = {s, s + sqrtl(-P_), s - sqrtl(-P_)}; else if (P_ > 0) { w = {s}; mon::obs("cubics with a single real root"); } else w = {s + cbrtl(-Q)};
      if (P_ == 0 && Q == 0) tol = 1e-4L; break; } // a triple root: the cube root of rounding
    case 3: { // a double root in whole numbers
      L s = r.range(-4, 4), d = r.range(1, 6) * (r.flip() ? 1 : -1); L x = s, y = s + 3 * d; L a = (L)r.pick(std::vector<int>{1, -1}); p = {-a * x * x * y, a * (x * x + 2 * x * y), -a * (2 * x + y), a}; w = {x, y}; tol = 1e-5L; break; }
    case 4: { // roots next to each other: any of the right ones, near enough
      L x = r.uniform(-3, 3), y = x + r.pick(std::vector<double>{0, 1e-12, 1e-9, 1e-8, 1e-7, 1e-5, 1e-3}) * r.unit(), z = r.uniform(-3, 3); complete = false; p = {(double)(-lead * x * y * z), (double)(lead * (x * y + x * z + y * z)), (double)(-lead * (x + y + z)), lead}; mon::obs("cubics next to a double root"); break; }
    case 5: { // no term but a few
      complete = false; for (int i = 0; i < 3; ++i) p[i] = r.chance(1, 3) ? 0 : number(r, 1); p[3] = lead; break; }
    default: { complete = false; for (int i = 0; i < 3; ++i) p[i] = r.uniform(-10, 10); p[3] = lead; } }
  std::vector<L> g = roots(p, r); residuals(p, g, 1e-8L); CHECK(!g.empty() && g.size() <= 3, "root-count", "[", show(p), "] gives ", vals(g));
  if (complete && w.size() == 2) { bool ok = true; for (L x : w) { bool have = false; for (L y : g) have |= close(y, x, tol); ok = ok && (have || x == w[0]); } for (L y : g) { bool near = false; for (L x : w) near |= close(y, x, tol); ok = ok && near; } CHECK(ok, "roots", "[", show(p), "] gives ", vals(g), " not ", vals(w)); mon::obs("roots compared", 2); mon::obs("cubics with a double root"); }
  else if (complete) same(p, g, w, tol);
  else { // every change of sign between well separated arguments means a root between them
    for (int k = 0; k < 4; ++k) { L x = r.uniform(-20, 20), y = x + r.uniform(0.5, 30), fx = ev(p, x), fy = ev(p, y); if ((fx < 0) == (fy < 0) || fabsl(fx) < 1e-5L * mag(p, x) || fabsl(fy) < 1e-5L * mag(p, y)) continue; bool in = false; for (L t : g) in |= t > x && t < y; CHECK(in, "root-missed", "[", show(p), "] gives ", vals(g), " but changes sign between ", (double)x, " and ", (double)y); mon::obs("sign changes explained"); } }
  std::vector<double> f(p.begin(), p.end()); mon::nontrivial(mon::hash(&f[0], 32));
}
// ---- extrema on an interval
GROUP(extrema, 12000, 800000) {
  mon::Rng& r = R; double xb = number(r, 1), xe = xb + (r.chance(1, 8) ? 0 : r.uniform(0, 8)); P p; double lo, hi;
  if (r.chance(1, 4)) { ecl::LinearFunction f; set<1>(f, {number(r, 2), number(r, 2)}); p = of<1>(f); if (r.flip()) { lo = ecl::Minimum<ecl::LinearFunction>()(xb, xe, f); hi = ecl::Maximum<ecl::LinearFunction>()(xb, xe, f); } else { lo = ecl::LinearFunction::Minimum(xb, xe, f); hi = ecl::LinearFunction::Maximum(xb, xe, f); } }
  else { ecl::CubicPolynomial f; double a = r.chance(1, 4) ? 0 : number(r, 1), b = r.chance(1, 4) ? 0 : number(r, 1), c = number(r, 1), d = number(r, 1); if (r.chance(1, 5)) a = r.uniform(-1, 1) * std::pow(10.0, -(double)r.range(8, 20));
    if (r.chance(1, 3)) { L u = xb + (xe - xb) * r.uniform(-.5, 1.5), v = xb + (xe - xb) * r.uniform(-.5, 1.5); if (a == 0) a = r.uniform(-2, 2); b = (double)(-3 * a * (u + v) / 2); c = (double)(3 * a * u * v); } // turning points around here
    set<3>(f, {d, c, b, a}); p = of<3>(f); if (r.flip()) { lo = ecl::Minimum<ecl::CubicPolynomial>()(xb, xe, f); hi = ecl::Maximum<ecl::CubicPolynomial>()(xb, xe, f); } else { lo = ecl::CubicPolynomial::Minimum(xb, xe, f); hi = ecl::CubicPolynomial::Maximum(xb, xe, f); } }
  L X = std::max(fabsl(xb), fabsl(xe)), tol = 1e-10L * mag(p, X) + 1e-300L; std::vector<L> at{xb, xe}; P d = der(p); d.resize(3, 0); L A = d[2], B = d[1], C = d[0];
  if (A != 0) { L D = B * B - 4 * A * C; if (D >= 0) { L q = -(B + (B < 0 ? -sqrtl(D) : sqrtl(D))) / 2; at.push_back(q / A); if (q != 0) at.push_back(C / q); } } else if (B != 0) at.push_back(-C / B);
  L wl = INFINITY, wh = -INFINITY; bool inside = false; for (L x : at) if (x >= xb && x <= xe) { L y = ev(p, x); if ((y < wl || y > wh) && x != xb && x != xe) inside = true; wl = std::min(wl, y); wh = std::max(wh, y); }
  CHECK(close(lo, wl, tol), "minimum", "[", show(p), "] on ", xb, " .. ", xe, " gives ", lo, " not ", (double)wl); CHECK(close(hi, wh, tol), "maximum", "[", show(p), "] on ", xb, " .. ", xe, " gives ", hi, " not ", (double)wh);
  for (int k = 0; k < 40; ++k) { L x = xb + ((L)xe - xb) * k / 39, y = ev(p, x); CHECK(y >= lo - tol && y <= hi + tol, "beyond-extremum", "[", show(p), "] on ", xb, " .. ", xe, ": ", (double)y, " at ", (double)x, " is outside ", lo, " .. ", hi); }
  mon::obs("extrema compared", 2); if (inside) mon::obs("extrema inside the interval"); std::vector<double> f(p.begin(), p.end()); f.push_back(xb); f.push_back(xe); mon::nontrivial(mon::hash(&f[0], 8 * f.size()));
}
// ---- intersections of lines
GROUP(intersections, 4800, 300000) {
  mon::Rng& r = R; ecl::Intersection<ecl::LinearFunction> op; uint64_t h = 0; CHECK(!op.fail(), "intersection-failure-flag", "before the first operation");
  for (int k = 0; k < 6; ++k) {
    double a0 = number(r, 3), b0 = number(r, 3), a1 = number(r, 3), b1 = r.chance(1, 3) ? b0 : number(r, 3); if (r.chance(1, 6)) b1 = b0 * (1 + r.pick(std::vector<double>{1e-3, -1e-4, 1e-5})); bool parallel = b0 == b1; if (!parallel && std::fabs(b0 - b1) < 1e-6 * std::max(std::fabs(b0), std::fabs(b1))) continue;
    ecl::LinearFunction f, g; set<1>(f, {a0, b0}); set<1>(g, {a1, b1}); bool thrown = false; int flag = 0; ecl::CartesianPoint2d p; bool member = r.flip(); string what = mon::cat(a0, " + ", b0, " x and ", a1, " + ", b1, " x");
    try { p = member ? op(f, g) : ecl::LinearFunction::Intersection(f, g); } catch (const ecl::StandardException& e) { thrown = true; flag = e.flag(); }
    CHECK(thrown == parallel, parallel ? "parallel-lines-accepted" : "intersection-refused", what); if (thrown) CHECK(flag == ecl::OutOfRangeError, "parallel-lines-flag", what, " refused with ", flag); if (member) CHECK(op.fail() == parallel, "intersection-failure-flag", what, " leaves ", op.fail());
    if (parallel) mon::obs("parallel lines refused");
    else if (!thrown) { L x = p.x(), y = p.y(), tol = 64 * E * (fabsl(a0) + fabsl(a1) + fabsl(x) * (fabsl(b0) + fabsl(b1))) + 1e-300L; CHECK(std::isfinite(x) && close(y, a0 + b0 * x, tol) && close(y, a1 + b1 * x, tol), "intersection", what, " gives ", (double)x, " ", (double)y); mon::obs("intersections compared"); }
    double v[4] = {a0, b0, a1, b1}; h = mon::hash(v, sizeof v, h);
  }
  mon::nontrivial(h);
}
// ---- blueprints
struct End { double x, y, v, a; };
template <unsigned N> static void meets(const ecl::Polynomial<N>& p, const P& C, double x0, const End& e, int order, bool skip1, const char* what) { // C: magnitudes of the terms the coefficients about x0 are made of
  P d = C; const L K = 512 * E; double got[3] = {p(e.x), p.derivative(e.x), p.dderivative(e.x)}, want[3] = {e.y, e.v, e.a};
  for (int k = 0; k <= order; ++k) { L tol = K * mag(d, fabsl(e.x) + fabsl(x0)) + K * fabsl(want[k]); if (!(k == 1 && skip1)) { CHECK(close(got[k], want[k], tol), "end-condition", what, " derivative ", k, " at ", e.x, " is ", got[k], " not ", want[k], " (tolerance ", (double)tol, ")"); mon::obs("end conditions met"); } d = der(d); }
}
template <unsigned N, class BP> static ecl::Polynomial<N> build(BP bp, mon::Rng& r) { // every way from a blueprint to a polynomial
  switch (r.below(4)) { case 0: { ecl::Polynomial<N> p(bp); return p; } case 1: { ecl::Polynomial<N> p; set<N>(p, std::vector<double>(N + 1, 7.5)); p = bp; return p; } case 2: return bp.instantiate(); default: { ecl::Polynomial<N> p; set<N>(p, std::vector<double>(N + 1, -3.25)); bp.apply(p); return p; } }
}
GROUP(blueprints, 15000, 1000000) {
  mon::Rng& r = R; int e = (int)r.below(3); End i{number(r, 1), number(r, e), number(r, e), number(r, e)}, f{0, number(r, e), number(r, e), number(r, e)}; L dx = r.uniform(0.05, 5) * (r.chance(1, 4) ? -1 : 1); if (r.chance(1, 10)) dx *= 100; if (r.chance(1, 10)) dx /= 100; f.x = (double)(i.x + dx); dx = fabsl((L)f.x - i.x); L Y = fabsl(i.y) + fabsl(f.y); string what;
  int kind = (int)r.below(5);
  switch (kind) {
    case 0: { auto p = build<1>(ecl::LinearFunction::Interpolation(i.x, i.y, f.x, f.y), r); P C{Y + Y / dx * fabsl(i.x), Y / dx}; meets<1>(p, C, i.x, i, 0, false, "linear"); meets<1>(p, C, i.x, f, 0, false, "linear"); break; }
    case 1: { auto p = build<1>(ecl::LinearFunction::PointSlopeForm(f.x, f.y, f.v), r); P C{fabsl(f.y) + fabsl(f.v * f.x), fabsl(f.v)}; meets<1>(p, C, f.x, f, 1, false, "point and slope"); CHECK(p.coefficients()[1] == f.v, "end-condition", "slope ", f.v, " becomes ", p.coefficients()[1]); break; }
    case 2: { auto p = build<3>(ecl::CubicPolynomial::DerivativeInterpolation(i.x, i.y, i.v, f.x, f.y, f.v), r); L V = fabsl(i.v) + fabsl(f.v); P C{Y, V, 3 * Y / (dx * dx) + 2 * V / dx, 2 * Y / (dx * dx * dx) + V / (dx * dx)}; meets<3>(p, C, i.x, i, 1, false, "cubic"); meets<3>(p, C, i.x, f, 1, false, "cubic"); break; }
    case 3: { auto p = build<3>(ecl::CubicPolynomial::SecondDerivativeInterpolation(i.x, i.y, i.a, f.x, f.y, f.a), r); L A = fabsl(i.a) + fabsl(f.a); P C{Y, Y / dx + A * dx, A, A / dx}; meets<3>(p, C, i.x, i, 2, true, "cubic by curvature"); meets<3>(p, C, i.x, f, 2, true, "cubic by curvature"); break; }
    default: { auto p = build<5>(ecl::QuinticPolynomial::Interpolation(i.x, i.y, i.v, i.a, f.x, f.y, f.v, f.a), r); L V = fabsl(i.v) + fabsl(f.v), A = fabsl(i.a) + fabsl(f.a); L S = 30 * Y + 16 * V * dx + 3 * A * dx * dx; P C{Y, V, A, S / (2 * powl(dx, 3)), S / (2 * powl(dx, 4)), S / (2 * powl(dx, 5))}; meets<5>(p, C, i.x, i, 2, false, "quintic"); meets<5>(p, C, i.x, f, 2, false, "quintic"); }
  }
  double v[8] = {i.x, i.y, i.v, i.a, f.x, f.y, f.v, f.a}; mon::nontrivial(mon::hash(v, sizeof v, kind));
}
