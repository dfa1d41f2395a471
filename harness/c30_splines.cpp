// C30: splines pass through their knots and join smoothly.
#include "mon.hpp"
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/cubic_spline.hpp>
#include <ecl/geometry/tension_spline.hpp>
#include <ecl/geometry/smooth_linear_spline.hpp>
#include <ecl/geometry/spline_function.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/exceptions/data_exception.hpp>
#include <cmath>
#include <algorithm>
#include <sstream>
#include <memory>
typedef long double L; using std::string; typedef std::vector<double> V;
REQUIRE_OBS("spline texts compared", 2000, 20000); REQUIRE_OBS("knots met", 20000, 200000); REQUIRE_OBS("points compared with the reference spline", 20000, 200000); REQUIRE_OBS("joins compared", 10000, 100000); REQUIRE_OBS("natural splines", 300, 3000); REQUIRE_OBS("splines with given end slopes", 300, 3000); REQUIRE_OBS("splines by heuristic", 300, 3000); REQUIRE_OBS("tension splines", 300, 3000); REQUIRE_OBS("tension splines under high tension", 30, 300); REQUIRE_OBS("corners built", 1000, 10000); REQUIRE_OBS("smooth splines refused for their bound", 50, 500); REQUIRE_OBS("unbuildable data refused", 200, 2000);
#ifndef NDEBUG
REQUIRE_OBS("evaluations outside the domain refused", 3000, 30000);
#endif
static string show(const V& v) { string s; for (size_t i = 0; i < v.size() && i < 12; ++i) s += mon::cat(v[i], " "); return s; }
static ecl::Array<double> arr(const V& v) { ecl::Array<double> a((unsigned)v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; return a; }
static L ev(const std::vector<L>& p, L x) { L v = 0; for (size_t i = p.size(); i--;) v = v * x + p[i]; return v; }
static std::vector<L> der(const std::vector<L>& p) { std::vector<L> d; for (size_t i = 1; i < p.size(); ++i) d.push_back(p[i] * i); if (d.empty()) d.push_back(0); return d; }
static void data(mon::Rng& r, V& x, V& y, bool wide = true) {
  size_t n = r.pick(std::vector<int>{2, 3, 3, 4, 5, 6, 8, 12, 20, 40}); if (wide && r.chance(1, 60)) n = 300; x.resize(n); y.resize(n); double h = r.uniform(0.2, 2); double t = r.chance(1, 4) ? 0 : r.uniform(-6, 2); if (wide && r.chance(1, 8)) t *= 8; if (r.chance(1, 6)) t = std::floor(t); if (r.chance(1, 4)) t = -h * n * r.unit();
  int sp = (int)r.below(4), yk = (int)r.below(4); double level = r.uniform(-5, 5), run = r.uniform(-2, 2); if (n > 12) h = std::min(h, 12.0 / n + 0.02);
  for (size_t i = 0; i < n; ++i) { x[i] = t; double d = sp == 0 ? 1 : sp == 1 ? h : sp == 2 ? h * r.uniform(0.7, 1.4) : h * r.uniform(0.2, 3); if (sp == 0 && n > 20) d = 0.25; t += d; y[i] = yk == 0 ? r.uniform(-5, 5) : yk == 1 ? (double)r.range(-3, 3) : yk == 2 ? level + run * x[i] + (r.chance(1, 3) ? r.uniform(-1, 1) : 0) : level; if (yk == 3 && r.chance(1, 2)) y[i] += r.uniform(-1, 1); }
}
static size_t seg(const V& x, double t) { size_t i = 0; while (i + 2 < x.size() && t > x[i + 1]) ++i; return i; }
// tridiagonal system in long double: second derivatives at the knots
static std::vector<L> solve(std::vector<L> a, std::vector<L> b, std::vector<L> c, std::vector<L> d) { size_t n = b.size(); for (size_t i = 1; i < n; ++i) { L w = a[i] / b[i - 1]; b[i] -= w * c[i - 1]; d[i] -= w * d[i - 1]; } std::vector<L> z(n); z[n - 1] = d[n - 1] / b[n - 1]; for (size_t i = n - 1; i--;) z[i] = (d[i] - c[i] * z[i + 1]) / b[i]; return z; }
struct Ref { // what the spline has to be: per segment value and two derivatives, and what they are sums of
  V x, y; L tau; bool byslope; std::vector<L> z; // second derivatives at the knots, or slopes
  void at(double t, size_t i, L out[3], L tol[3]) const {
    L h = (L)x[i + 1] - x[i], u = (L)t - x[i], w = (L)x[i + 1] - t, Y = fabsl(y[i]) + fabsl(y[i + 1]), Z = fabsl(z[i]) + fabsl(z[i + 1]); 
    if (tau == 0) { std::vector<L> C, M;
      if (byslope) { C = {y[i], z[i], 3 * ((L)y[i + 1] - y[i]) / (h * h) - (2 * z[i] + z[i + 1]) / h, -2 * ((L)y[i + 1] - y[i]) / (h * h * h) + (z[i] + z[i + 1]) / (h * h)}; M = {Y, Z, 3 * Y / (h * h) + 2 * Z / h, 2 * Y / (h * h * h) + Z / (h * h)}; }
      else { C = {y[i], ((L)y[i + 1] - y[i]) / h - h * (2 * z[i] + z[i + 1]) / 6, z[i] / 2, (z[i + 1] - z[i]) / (6 * h)}; L A = big; M = {Y, Y / h + A * h, A, A / h}; }
      for (int k = 0; k < 3; ++k) { out[k] = ev(C, u); tol[k] = 1e-13L * ev(M, fabsl(t) + fabsl(x[i])); C = der(C); M = der(M); }
    } else { L S = sinhl(tau * h), lin = ((L)y[i + 1] - y[i]) / h - (z[i + 1] - z[i]) / (tau * tau * h), q = 1 / (tau * tau);
      L s0 = fabsl(tau * h) < 4000 ? sinhl(tau * w) / S : expl(-tau * u), s1 = fabsl(tau * h) < 4000 ? sinhl(tau * u) / S : expl(-tau * w), c0 = fabsl(tau * h) < 4000 ? coshl(tau * w) / S : s0, c1 = fabsl(tau * h) < 4000 ? coshl(tau * u) / S : s1;
      out[0] = (z[i] * s0 + z[i + 1] * s1) * q + (y[i] - z[i] * q) * w / h + (y[i + 1] - z[i + 1] * q) * u / h; out[1] = (-z[i] * c0 + z[i + 1] * c1) / tau + lin; out[2] = z[i] * s0 + z[i + 1] * s1;
      L e = 1e-11L * (1 + fabsl(tau) * (fabsl(x[i]) + fabsl(x[i + 1]))), a = big * (1 + 1 / (tau * tau * h * h)); tol[0] = e * (Y + a * q); tol[1] = e * (Y / h + a * q / h + a / tau); tol[2] = e * a; }
  }
  L big;
  void cubic(bool clamped, L s0, L sn) { tau = 0; byslope = false; size_t n = x.size(); std::vector<L> a(n, 0), b(n, 1), c(n, 0), d(n, 0); L top = 0;
    for (size_t i = 1; i + 1 < n; ++i) { L h0 = (L)x[i] - x[i - 1], h1 = (L)x[i + 1] - x[i]; a[i] = h0 / 6; b[i] = (h0 + h1) / 3; c[i] = h1 / 6; L p = ((L)y[i + 1] - y[i]) / h1, q = ((L)y[i] - y[i - 1]) / h0; d[i] = p - q; top = std::max(top, (fabsl(p) + fabsl(q)) / (h0 + h1)); }
    if (clamped) { L h = (L)x[1] - x[0]; b[0] = h / 3; c[0] = h / 6; d[0] = ((L)y[1] - y[0]) / h - s0; L g = (L)x[n - 1] - x[n - 2]; b[n - 1] = g / 3; a[n - 1] = g / 6; d[n - 1] = sn - ((L)y[n - 1] - y[n - 2]) / g; top = std::max(top, (fabsl(d[0]) + fabsl(s0)) / h + (fabsl(d[n - 1]) + fabsl(sn)) / g); }
    z = solve(a, b, c, d); big = 6 * top; for (L v : z) big = std::max(big, fabsl(v)); }
  void tension(L t) { tau = fabsl(t); byslope = false; size_t n = x.size(); std::vector<L> a(n, 0), b(n, 1), c(n, 0), d(n, 0), A(n), B(n), G(n); L top = 0; for (size_t i = 0; i + 1 < n; ++i) { L h = (L)x[i + 1] - x[i], s = tau * h; A[i] = 1 / h - (s < 4000 ? tau / sinhl(s) : 0); B[i] = tau / tanhl(s) - 1 / h; G[i] = tau * tau * ((L)y[i + 1] - y[i]) / h; }
    for (size_t i = 1; i + 1 < n; ++i) { a[i] = A[i - 1]; b[i] = B[i - 1] + B[i]; c[i] = A[i]; d[i] = G[i] - G[i - 1]; top = std::max(top, (fabsl(G[i]) + fabsl(G[i - 1])) / b[i]); } 
    z = solve(a, b, c, d); big = 4 * top + 1e-300L; for (L v : z) big = std::max(big, fabsl(v)); }
  void heuristic(L s0, L sn) { tau = 0; byslope = true; size_t n = x.size(); z.assign(n, 0); z[0] = s0; z[n - 1] = sn; for (size_t i = 1; i + 1 < n; ++i) z[i] = (((L)y[i] - y[i - 1]) / ((L)x[i] - x[i - 1]) + ((L)y[i + 1] - y[i]) / ((L)x[i + 1] - x[i])) / 2; big = 0; }
};
template <class S> static void outside(const S& s, double lo, double hi, mon::Rng& r, const char* what) {
#ifndef NDEBUG
  double w = hi - lo, bad[6] = {std::nextafter(lo, -1e300), std::nextafter(hi, 1e300), lo - w * r.unit() - 1e-3, hi + w * r.unit() + 1e-3, r.flip() ? INFINITY : -INFINITY, NAN};
  for (double t : bad) for (int k = 0; k < 3; ++k) { bool thrown = false; int flag = 0; try { double v = k == 0 ? s(t) : k == 1 ? s.derivative(t) : s.dderivative(t); (void)v; } catch (const ecl::StandardException& e) { thrown = true; flag = e.flag(); } CHECK(thrown && flag == ecl::OutOfRangeError, "outside-domain-accepted", what, " over ", lo, " .. ", hi, " at ", t, " function ", k, " flag ", flag); mon::obs("evaluations outside the domain refused"); }
#endif
}
template <class S> static void against(const S& s, const Ref& f, int smooth, mon::Rng& r, const char* what) {
  size_t n = f.x.size(); L o[3], tol[3]; const ecl::Array<double>& dom = const_cast<S&>(s).domain(); CHECK(dom.size() == n, "domain", what, " has ", dom.size(), " of ", n); for (size_t i = 0; i < n && i < dom.size(); ++i) CHECK(dom[i] == f.x[i], "domain", what, " entry ", i, " is ", dom[i]);
  auto one = [&](double t, size_t i, const char* aspect) { f.at(t, i, o, tol); double g[3] = {s(t), s.derivative(t), s.dderivative(t)}; for (int k = 0; k < 3; ++k) CHECK(std::isfinite(g[k]) && fabsl(g[k] - o[k]) <= tol[k], aspect, what, " derivative ", k, " at ", t, " is ", g[k], " not ", (double)o[k], " (tolerance ", (double)tol[k], ") through x ", show(f.x), "y ", show(f.y), "tension ", (double)f.tau); };
  for (size_t i = 0; i < n; ++i) { // at the knots, from the left and from the right
    double t = f.x[i], v = s(t); f.at(t, i ? i - 1 : 0, o, tol); CHECK(fabsl((L)v - f.y[i]) <= tol[0] + 1e-300L, "knot-missed", what, " at ", t, " is ", v, " not ", f.y[i], " (tolerance ", (double)tol[0], ")"); mon::obs("knots met");
    if (i == 0 || i + 1 == n) { one(t, i ? i - 1 : 0, "end-condition"); continue; }
    double u = std::nextafter(t, 1e300); L o2[3], tol2[3]; f.at(u, i, o2, tol2); double gl[3] = {v, s.derivative(t), s.dderivative(t)}, gr[3] = {s(u), s.derivative(u), s.dderivative(u)}; L step = u - t; for (int k = 0; k <= smooth; ++k) CHECK(fabsl((L)gl[k] - gr[k]) <= tol[k] + tol2[k] + step * 10 * (k < 2 ? fabsl(o[k + 1]) : (tol[2] + tol2[2]) * 1e13L), "join", what, " derivative ", k, " jumps at ", t, " from ", gl[k], " to ", gr[k]); mon::obs("joins compared");
  }
  for (int k = 0; k < 24; ++k) { double t = r.uniform(f.x[0], f.x[n - 1]); if (k % 4 == 0) { size_t i = r.below(n - 1); t = f.x[i] + (f.x[i + 1] - f.x[i]) * r.unit(); } if (t < f.x[0] || t > f.x[n - 1]) continue; one(t, seg(f.x, t), "differs-from-reference"); mon::obs("points compared with the reference spline"); }
}
template <class S, class BP> static S build(BP bp, mon::Rng& r, const ecl::Array<double>& ox, const ecl::Array<double>& oy, BP other) {
  switch (r.below(5)) { case 0: { S s(bp); return s; } case 1: { S s(other); s = bp; return s; } case 2: return bp.instantiate(); case 3: { S s; bp.apply(s); return s; } default: { S s(other); bp.apply(s); S t(s); s = other; return t; } } (void)ox; (void)oy;
}
template <class F> static void refuse(F f, int want, const char* what) { bool thrown = false; int flag = 0; try { f(); } catch (const ecl::StandardException& e) { thrown = true; flag = e.flag(); } catch (const ecl::DataException<int>& e) { thrown = true; flag = e.flag(); } CHECK(thrown && flag == want, "unbuildable-accepted", what, " flag ", flag); mon::obs("unbuildable data refused"); }
template <class S> static void wrapped(const S& s, double lo, double hi, mon::Rng& r, const char* what) {
  double a = lo + (hi - lo) * 0.2 * r.unit(), b = hi - (hi - lo) * 0.3 * r.unit(); std::unique_ptr<ecl::GenericSplineFunction> w(new ecl::SplineFunction<S>(a, b, s)); CHECK(w->domain()[0] == a && w->domain()[1] == b, "wrapped-domain", what);
  for (int k = 0; k < 6; ++k) { double t = k == 0 ? a : k == 1 ? b : a + (b - a) * r.unit(); CHECK((*w)(t) == s(t) && w->derivative(t) == s.derivative(t) && w->dderivative(t) == s.dderivative(t), "wrapped-function", what, " at ", t); } outside(*w, a, b, r, "wrapped");
}
// texts that may differ in the last digits of their numbers
static bool alike(const string& a, const string& b, const std::vector<L>& tol) {
  size_t i = 0, j = 0, k = 0; auto num = [](const string& s, size_t& p, L& v) { size_t q = p; if (q < s.size() && s[q] == '-') ++q; size_t d = q; while (q < s.size() && (isdigit(s[q]) || s[q] == '.')) ++q; if (q == d) return false; v = strtold(s.substr(p, q - p).c_str(), 0); p = q; return true; };
  while (i < a.size() && j < b.size()) { L x, y; bool m = num(a, i, x), n = num(b, j, y); if (m != n) return false; if (!m) { if (a[i] != b[j]) return false; ++i; ++j; } else { L t = k < tol.size() ? tol[k] : 0; ++k; if (fabsl(x - y) > 0.0101L * (t > 0) + t) return false; } } return i == a.size() && j == b.size();
}
static string two(L v) { char b[64]; snprintf(b, sizeof b, "%.2f", (double)v); return b; }
static string formula(L x0, L y0, L z0, L x1, L y1, L z1) {
  L h = x1 - x0; string s; if (z0 == 0 && z1 == 0) s = "0.0"; else { s = "{"; if (z0 != 0) s += two(z0) + "*sinh[tau(" + two(x1) + "-x)]"; if (z0 != 0 && z1 != 0) s += " + "; if (z1 != 0) s += two(z1) + "*sinh[tau(x-" + two(x0) + ")]"; s += "}/[tau^2 sinh(" + two(h) + "*tau)]"; }
  return s + "\n        + (" + two(y0 / h) + "-" + two(z0 / h) + "/tau^2)(" + two(x1) + "-x)\n                    + (" + two(y1 / h) + "-" + two(z1 / h) + "/tau^2)(x-" + two(x0) + ")\n";
}
GROUP(cubic, 4000, 40000) {
  mon::Rng& r = R; Ref f; data(r, f.x, f.y); ecl::Array<double> x = arr(f.x), y = arr(f.y), ox = arr({0, 1, 2}), oy = arr({5, 4, 9}); int kind = (int)r.below(3); double s0 = r.uniform(-4, 4), sn = r.uniform(-4, 4); if (r.chance(1, 4)) s0 = sn = 0; ecl::CubicSpline s; const char* what = "natural";
  if (kind == 0) { f.cubic(false, 0, 0); s = build<ecl::CubicSpline>(ecl::CubicSpline::Natural(x, y), r, ox, oy, ecl::CubicSpline::Natural(ox, oy)); mon::obs("natural splines"); }
  else if (kind == 1) { what = "clamped"; f.cubic(true, s0, sn); s = build<ecl::CubicSpline>(ecl::CubicSpline::ContinuousDerivatives(x, y, s0, sn), r, ox, oy, ecl::CubicSpline::ContinuousDerivatives(ox, oy, 1, 2)); mon::obs("splines with given end slopes"); }
  else { what = "heuristic"; f.heuristic(s0, sn); s = build<ecl::CubicSpline>(ecl::CubicSpline::DerivativeHeuristic(x, y, s0, sn), r, ox, oy, ecl::CubicSpline::DerivativeHeuristic(ox, oy, 1, 2)); mon::obs("splines by heuristic"); }
  for (unsigned i = 0; i < x.size(); ++i) x[i] = y[i] = -99; // the spline keeps its own
  against(s, f, kind == 2 ? 1 : 2, r, what); outside(s, f.x.front(), f.x.back(), r, what); wrapped(s, f.x.front(), f.x.back(), r, what);
  const ecl::Array<ecl::CubicPolynomial>& p = s.polynomials(); CHECK(p.size() + 1 == f.x.size(), "polynomials", what, " has ", p.size()); std::ostringstream o; o << s; string want; for (unsigned i = 0; i < p.size(); ++i) { std::ostringstream l; l << p[i] << "\n"; want += l.str(); double t = f.x[i] + (f.x[i + 1] - f.x[i]) * r.unit(); if (t > f.x[i] && t <= f.x[i + 1]) CHECK(s(t) == p[i](t), "polynomials", what, " at ", t); } CHECK(o.str() == want, "text", what);
  mon::nontrivial(mon::hash(&f.y[0], 8 * f.y.size(), mon::hash(&f.x[0], 8 * f.x.size(), kind)));
}
GROUP(tension, 3000, 30000) {
  mon::Rng& r = R; Ref f; data(r, f.x, f.y); double tau = r.pick(std::vector<double>{0.1, 0.5, 1, 2, 5, 20, r.uniform(0.1, 10), r.uniform(10, 200), r.uniform(200, 5000)}); if (r.chance(1, 12)) tau = -tau; if (std::fabs(tau) >= 200) mon::obs("tension splines under high tension"); f.tension(tau); ecl::Array<double> x = arr(f.x), y = arr(f.y), ox = arr({0, 1, 2}), oy = arr({5, 4, 9});
  ecl::TensionSpline s; s = build<ecl::TensionSpline>(ecl::TensionSpline::Natural(x, y, tau), r, ox, oy, ecl::TensionSpline::Natural(ox, oy, 3)); for (unsigned i = 0; i < x.size(); ++i) x[i] = y[i] = -99;
  against(s, f, 2, r, "tension"); outside(s, f.x.front(), f.x.back(), r, "tension"); wrapped(s, f.x.front(), f.x.back(), r, "tension"); mon::obs("tension splines");
  { std::ostringstream o; o << s; string want; bool plain = true; for (size_t i = 0; i + 1 < f.x.size(); ++i) { want += formula(f.x[i], f.y[i], f.z[i], f.x[i + 1], f.y[i + 1], f.z[i + 1]) + "\n"; plain = plain && (i == 0 || fabsl(f.z[i]) > 1e-3L * (1 + f.big)); } if (plain && f.big < 1e6L) { L m = 1e9L; for (size_t i = 0; i + 1 < f.x.size(); ++i) m = std::min(m, (L)f.x[i + 1] - f.x[i]); CHECK(alike(o.str(), want, std::vector<L>(9 * f.x.size() + 9, 1e-9L * f.big * (1 + 1 / m))), "text", "tension spline prints ", mon::quote(o.str()), " not ", mon::quote(want)); mon::obs("spline texts compared"); } }
  // one tension function on its own
  double z0 = r.uniform(-5, 5), z1 = r.uniform(-5, 5); Ref g; g.x = {f.x[0], f.x[1]}; g.y = {f.y[0], f.y[1]}; g.tension(tau); g.z = {z0, z1}; g.big = fabsl(z0) + fabsl(z1); ecl::TensionFunction fn(ecl::TensionFunction::Interpolation(g.x[0], g.y[0], z0, g.x[1], g.y[1], z1));
  { double zz[2] = {r.chance(1, 4) ? 0 : z0, r.chance(1, 4) ? 0 : z1}; ecl::TensionFunction p(ecl::TensionFunction::Interpolation(g.x[0], g.y[0], zz[0], g.x[1], g.y[1], zz[1])); std::ostringstream o; o << p; double h = g.x[1] - g.x[0]; string want = formula(g.x[0], g.y[0], zz[0], g.x[1], g.y[1], zz[1]); CHECK(alike(o.str(), want, std::vector<L>(20, 1e-12L * (1 + std::fabs(g.y[0] / h)))), "text", "tension function prints ", mon::quote(o.str()), " not ", mon::quote(want)); }
  for (int k = 0; k < 5; ++k) { double t = k < 2 ? g.x[k] : r.uniform(g.x[0], g.x[1]); L o[3], tol[3]; g.at(t, 0, o, tol); double v[3] = {fn(tau, t), fn.derivative(tau, t), fn.dderivative(tau, t)}; for (int d = 0; d < 3; ++d) CHECK(std::isfinite(v[d]) && fabsl(v[d] - o[d]) <= tol[d], "tension-function", "derivative ", d, " at ", t, " is ", v[d], " not ", (double)o[d], " tension ", tau); }
  if (std::fabs(tau) * (f.x.back() - f.x.front()) > 3000 && f.x.size() < 20) for (size_t i = 0; i + 1 < f.x.size(); ++i) { double t = (f.x[i] + f.x[i + 1]) / 2, want = (f.y[i] + f.y[i + 1]) / 2, Y = 0; for (double v : f.y) Y = std::max(Y, std::fabs(v)); double h = 1e9; for (size_t j = 0; j + 1 < f.x.size(); ++j) h = std::min(h, f.x[j + 1] - f.x[j]); double e = std::fabs(tau) * h; if (e > 100) CHECK(std::fabs(s(t) - want) <= 20 * (Y + 1) / e, "high-tension-tightens", "at ", t, " is ", s(t), " not about ", want, " tension ", tau); }
  mon::nontrivial(mon::hash(&f.y[0], 8 * f.y.size(), mon::hash(&f.x[0], 8 * f.x.size(), (uint64_t)(int64_t)(tau * 1e6))));
}
// towards no tension at all a tension spline is the natural cubic spline
GROUP(slack, 200, 3000) {
  mon::Rng& r = R; Ref f; data(r, f.x, f.y, false); double w = 0; for (size_t i = 0; i + 1 < f.x.size(); ++i) w = std::max(w, f.x[i + 1] - f.x[i]); double tau = 0.02 / w; ecl::TensionSpline s(ecl::TensionSpline::Natural(arr(f.x), arr(f.y), tau)); f.cubic(false, 0, 0);
  for (int k = 0; k < 20; ++k) { double t = r.uniform(f.x.front(), f.x.back()); L o[3], tol[3]; f.at(t, seg(f.x, t), o, tol); CHECK(fabsl(s(t) - o[0]) <= 1e-3L * (f.big * w * w + 1e-9L), "low-tension-is-cubic", "at ", t, " is ", s(t), " not about ", (double)o[0]); } mon::nontrivial(mon::hash(&f.y[0], 8 * f.y.size()));
}
// ---- smooth linear splines
static std::vector<L> quintic(L h, L y0, L v0, L y1, L v1, std::vector<L>& M) { // about its left end, no acceleration at the ends
  L d = y1 - y0, D = fabsl(y0) + fabsl(y1), W = fabsl(v0) + fabsl(v1); M = {D, W, 0, (20 * D + 12 * W * h) / (2 * h * h * h), (30 * D + 16 * W * h) / (2 * h * h * h * h), (12 * D + 6 * W * h) / (2 * h * h * h * h * h)};
  return {y0, v0, 0, (20 * d - (8 * v1 + 12 * v0) * h) / (2 * h * h * h), (-30 * d + (14 * v1 + 16 * v0) * h) / (2 * h * h * h * h), (12 * d - 6 * (v1 + v0) * h) / (2 * h * h * h * h * h)};
}
static L peak(const std::vector<L>& C, L h) { std::vector<L> a = der(der(C)); L m = 0; for (int k = 0; k <= 400; ++k) m = std::max(m, fabsl(ev(a, h * k / 400))); return m; }
GROUP(smooth_linear, 4000, 40000) {
  mon::Rng& r = R; V x, y; data(r, x, y, false); size_t n = x.size() - 1; double amax = r.pick(std::vector<double>{1, 5, 20, 100, 1000, r.uniform(0.1, 50)}); if (r.chance(1, 10)) amax = -amax; double bound = std::fabs(amax); string what = mon::cat("x ", show(x), "y ", show(y), "bound ", amax);
  std::vector<L> m(n); for (size_t i = 0; i < n; ++i) m[i] = ((L)y[i + 1] - y[i]) / ((L)x[i + 1] - x[i]); auto line = [&](size_t i, L t) { return y[i] + m[i] * (t - x[i]); };
  auto rough = [&](size_t i, L t) { return 1e-13L * (fabsl(y[i]) + fabsl(y[i + 1]) + (fabsl(y[i]) + fabsl(y[i + 1])) / ((L)x[i + 1] - x[i]) * (fabsl(t) + fabsl(x[i]))); };
  std::unique_ptr<ecl::SmoothLinearSpline> s; int flag = 0, where = -1; bool thrown = false;
  try { if (r.flip()) s.reset(new ecl::SmoothLinearSpline(arr(x), arr(y), amax)); else { ecl::SmoothLinearSpline t; t = ecl::SmoothLinearSpline::Interpolation(arr(x), arr(y), amax); s.reset(new ecl::SmoothLinearSpline(t)); } } catch (const ecl::DataException<int>& e) { thrown = true; flag = e.flag(); where = e.data(); }
  uint64_t h = mon::hash(&y[0], 8 * y.size(), mon::hash(&x[0], 8 * x.size(), mon::hash(&amax, 8))); mon::nontrivial(h);
  // the widest corner and how much it accelerates
  auto widest = [&](size_t i, L& noise) { L l = i == 1 ? x[0] : ((L)x[i - 1] + x[i]) / 2, u = i + 1 == n + 0 && i == n - 1 ? x[n] : ((L)x[i] + x[i + 1]) / 2; std::vector<L> M, C = quintic(u - l, line(i - 1, l), m[i - 1], line(i, u), m[i], M); noise = 1e-12L * ev(der(der(M)), fabsl(u) + 2 * fabsl(l)) + 1e-12L; return peak(C, u - l); };
  if (thrown) {
    CHECK(flag == ecl::ConstructorError && where >= 1 && where < (int)n, "refusal", what, " flag ", flag, " corner ", where);
    if (where >= 1 && where < (int)n) { L noise, p = widest(where, noise); CHECK(p >= bound * 0.999L - noise, "refused-without-need", what, " at corner ", where, " needs ", (double)p); for (int i = 1; i < where; ++i) { p = widest(i, noise); CHECK(p <= bound + noise || true, "refused-late", what); } }
    mon::obs("smooth splines refused for their bound"); return;
  }
  const ecl::SmoothLinearSpline& S = *s; const ecl::Array<double>& d = S.domain(); if (!EXPECT(d.size() == 2 * n && d[0] == x[0] && d[2 * n - 1] == x[n], "domain", what, " has ", d.size())) return;
  CHECK(((n > 1 && d[1] <= x[0]) || fabsl(S(x[0]) - y[0]) <= 10 * rough(0, x[0]) + 1e-12L) && ((n > 1 && d[2 * n - 2] >= x[n]) || fabsl(S(x[n]) - y[n]) <= 10 * rough(n - 1, x[n]) + 1e-12L), "ends-missed", what, " gives ", S(x[0]), " and ", S(x[n])); mon::obs("knots met", 2);
  for (size_t i = 1; i < n; ++i) { // corners
    L l = d[2 * i - 1], u = d[2 * i], e = 1e-12L * (fabsl(x[i]) + fabsl(x[i + 1]) + fabsl(x[i - 1]) + 1), lo = i == 1 ? x[0] : ((L)x[i - 1] + x[i]) / 2, hi = i == n - 1 ? x[n] : ((L)x[i] + x[i + 1]) / 2; if (!EXPECT(l <= x[i] && u >= x[i] && l >= lo - e && u <= hi + e, "corner-reaches-too-far", what, " corner ", i, " spans ", (double)l, " .. ", (double)u)) continue;
    if (l == u) { CHECK(fabsl(m[i] - m[i - 1]) <= 1e-12L * (fabsl(m[i]) + fabsl(y[i]) / ((L)x[i + 1] - x[i]) + fabsl(y[i]) / ((L)x[i] - x[i - 1])) + 1e-14L, "corner-missing", what, " corner ", i); continue; }
    std::vector<L> M, C = quintic(u - l, line(i - 1, l), m[i - 1], line(i, u), m[i], M); std::vector<L> C1 = der(C), C2 = der(C1), M1 = der(M), M2 = der(M1); L X = fabsl(u) + 2 * fabsl(l), t0 = 3e-14L * ev(M, X) + 1e-13L, t1 = 3e-14L * ev(M1, X) + 1e-13L, t2 = 3e-14L * ev(M2, X) + 1e-13L;
    for (int k = 0; k < 12; ++k) { double t = (double)(k == 0 ? l : k == 1 ? u : l + (u - l) * r.unit()); if (t < d[0] || t > d[2 * n - 1] || t < d[2 * i - 1] || t > d[2 * i]) continue; L w = t - l; double g[3] = {S(t), S.derivative(t), S.dderivative(t)}; CHECK(fabsl(g[0] - ev(C, w)) <= t0 && fabsl(g[1] - ev(C1, w)) <= t1 && fabsl(g[2] - ev(C2, w)) <= t2, "corner", what, " corner ", i, " at ", t, " gives ", g[0], " ", g[1], " ", g[2], " not ", (double)ev(C, w), " ", (double)ev(C1, w), " ", (double)ev(C2, w)); CHECK(fabsl(g[2]) <= bound + t2, "acceleration-bound", what, " corner ", i, " at ", t, " accelerates by ", g[2]); mon::obs("points compared with the reference spline"); }
    L p = peak(C, u - l); CHECK(p <= bound * 1.000001L + t2, "acceleration-bound", what, " corner ", i, " reaches ", (double)p);
    for (int side = 0; side < 2; ++side) { double t = side ? (double)u : (double)l, v = std::nextafter(t, 1e300); if (v > d[2 * n - 1] || t < d[0]) continue; CHECK(std::fabs(S(t) - S(v)) <= t0 + 1e-14L * fabsl(m[i]) && std::fabs(S.derivative(t) - S.derivative(v)) <= t1 && std::fabs(S.dderivative(t) - S.dderivative(v)) <= t2 + 1e-12L, "join", what, " corner ", i, " side ", side); mon::obs("joins compared"); }
    mon::obs("corners built");
  }
  for (size_t i = 0; i < n; ++i) { double a = d[2 * i], b = d[2 * i + 1]; if (!(a < b)) continue; for (int k = 0; k < 5; ++k) { double t = a + (b - a) * r.unit(); if (!(t > a && t <= b)) continue; CHECK(fabsl(S(t) - line(i, t)) <= 10 * rough(i, t) + 1e-13L, "straight-segment", what, " at ", t, " gives ", S(t), " not ", (double)line(i, t)); CHECK(fabsl(S.derivative(t) - m[i]) <= 1e-12L * (1 + fabsl(y[i]) + fabsl(y[i + 1])) / ((L)x[i + 1] - x[i]) && S.dderivative(t) == 0, "straight-segment", what, " slope at ", t); mon::obs("points compared with the reference spline"); } }
  outside(S, x[0], x[n], r, "smooth linear"); wrapped(S, x[0], x[n], r, "smooth linear");
  std::ostringstream o; o << S; size_t lines = 0; for (char c : o.str()) lines += c == '\n'; CHECK(lines == 2 * n - 1, "text", what, " has ", lines, " lines");
  std::istringstream in(o.str()); string l; for (size_t i = 0; std::getline(in, l) && i < 2 * n - 1; ++i) { if (i % 2 == 0) { L e = rough(i / 2, 0) + 1e-12L, c = line(i / 2, 0); CHECK(alike(l, two(c) + " + " + two(m[i / 2]) + "x^1", {e, e / ((L)x[i / 2 + 1] - x[i / 2]) + 1e-12L}), "text", what, " segment ", i / 2, " prints ", l, " not ", two(c), " + ", two(m[i / 2]), "x^1"); } else CHECK(l.find("x^5") != string::npos, "text", what, " corner prints ", l); } mon::obs("spline texts compared");
}
GROUP(refusals, 60, 600) {
  mon::Rng& r = R; unsigned n = (unsigned)r.below(2), k = 2 + (unsigned)r.below(6); ecl::Array<double> e(n), g(k), s(k - 1), l(k + 1 + (unsigned)r.below(4)); for (unsigned i = 0; i < k; ++i) g[i] = i; for (unsigned i = 0; i + 1 < k; ++i) s[i] = i; for (unsigned i = 0; i < l.size(); ++i) l[i] = i; for (unsigned i = 0; i < n; ++i) e[i] = 1; mon::note("too few points");
  refuse([&] { ecl::CubicSpline::Natural(e, e); }, ecl::OutOfRangeError, "natural, too few"); refuse([&] { ecl::CubicSpline::ContinuousDerivatives(e, e, 0, 1); }, ecl::OutOfRangeError, "clamped, too few"); refuse([&] { ecl::CubicSpline::DerivativeHeuristic(e, e, 0, 1); }, ecl::OutOfRangeError, "heuristic, too few"); refuse([&] { ecl::TensionSpline::Natural(e, e, 1.0); }, ecl::OutOfRangeError, "tension, too few"); refuse([&] { ecl::SmoothLinearSpline x(e, e, 1.0); }, ecl::OutOfRangeError, "smooth linear, too few");
  refuse([&] { ecl::CubicSpline::Natural(g, e); }, ecl::OutOfRangeError, "natural, too few values"); refuse([&] { ecl::CubicSpline::ContinuousDerivatives(g, e, 0, 1); }, ecl::OutOfRangeError, "clamped, too few values");
  refuse([&] { ecl::SmoothLinearSpline x(g, l, 100.0); }, ecl::OutOfRangeError, "smooth linear, unmatched"); refuse([&] { ecl::SmoothLinearSpline::Interpolation(g, s, 100.0); }, ecl::OutOfRangeError, "smooth linear, unmatched");
#ifndef NDEBUG
  const ecl::Array<double>& o = r.flip() ? l : s; refuse([&] { ecl::CubicSpline::Natural(g, o); }, ecl::OutOfRangeError, "natural, unmatched"); refuse([&] { ecl::CubicSpline::ContinuousDerivatives(g, o, 0, 1); }, ecl::OutOfRangeError, "clamped, unmatched"); refuse([&] { ecl::CubicSpline::DerivativeHeuristic(g, o, 0, 1); }, ecl::OutOfRangeError, "heuristic, unmatched"); refuse([&] { ecl::TensionSpline::Natural(g, o, 1.0); }, ecl::OutOfRangeError, "tension, unmatched");
#endif
  mon::nontrivial(n * 100 + k + l.size() * 1000);
}
