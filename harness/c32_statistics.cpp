// C32: statistics agree with the data they were fed.
#include "mon.hpp"
#include <ecl/statistics/cumulative_statistics.hpp>
#include <ecl/statistics/covariance_ellipsoid.hpp>
#include <cmath>
REQUIRE_OBS("statistics compared", 20000); REQUIRE_OBS("values fed", 100000); REQUIRE_OBS("clears", 1000); REQUIRE_OBS("planar ellipses", 8000); REQUIRE_OBS("spatial ellipsoids", 4000); REQUIRE_OBS("nearly round ellipses", 1000); REQUIRE_OBS("nearly diagonal ellipses", 1000); REQUIRE_OBS("round in two or three directions", 800);
typedef long double LD; template <class T> static LD eps(); template <> LD eps<double>() { return 2.3e-16L; } template <> LD eps<float>() { return 1.2e-7L; }
REQUIRE_OBS("great data sets", 8); static LD sq(LD x) { return x * x; }
template <class T> struct Drawer { int kind; T offset, scale; Drawer(mon::Rng& R) { kind = R.below(6); scale = (T)std::pow(10.0, R.uniform(-6, 6)); offset = R.chance(1, 3) ? 0 : (T)(R.uniform(-1, 1) * std::pow(10.0, R.uniform(-3, sizeof(T) == 4 ? 3 : 7))); } T operator()(mon::Rng& R, int i) { switch (kind) { case 0: return offset; case 1: return (T)R.range(-3, 3); case 2: return (T)(i & 1 ? -scale : scale); case 3: return R.chance(1, 50) ? (T)(scale * 1000) : (T)R.uniform(-1, 1); case 4: return (T)(offset + (T)i * (scale > 1 ? 1 : scale)); default: return (T)(offset + scale * R.uniform(-1, 1)); } } };
template <class T> static void compare(const ecl::CumulativeStatistics<T>& s, const std::vector<T>& v, const std::string& in) {
  size_t n = v.size(); CHECK(s.size() == (T)n, "size", in, " reports ", s.size(), " want ", n); LD mean = 0, big = 0, ss = 0; bool constant = true; for (T x : v) { mean += x; big = std::max(big, std::fabs((LD)x)); if (x != v[0]) constant = false; } if (n) mean /= n; for (T x : v) ss += sq(x - mean); LD var = n > 1 ? ss / (n - 1) : 0, sd = std::sqrt(var), e = eps<T>() * (n + 4);
  if (n == 0) { CHECK(s.mean() == 0 && s.variance() == 0, "nothing", in, " reports ", s.mean(), " ", s.variance()); }
  else { CHECK(std::fabs((LD)s.mean() - mean) <= 2 * e * big, "mean", in, " n=", n, " reports ", s.mean(), " want ", mean); if (n == 1 || constant) CHECK(s.mean() == v[0] && s.variance() == 0, "constant", in, " n=", n, " reports ", s.mean(), " ", s.variance()); CHECK(s.variance() >= 0, "variance-sign", in, " ", s.variance()); CHECK(std::fabs((LD)s.variance() - var) <= 8 * e * (var + sd * big) + sq(4 * e * big), "variance", in, " n=", n, " reports ", s.variance(), " want ", var); }
  mon::obs("statistics compared"); }
template <class T> static void cumulative(mon::Rng& R, const char* t) {
  typedef ecl::CumulativeStatistics<T> S; S s; std::vector<T> v; std::string in = t; compare(s, v, in + " new"); int runs = R.range(1, 4); for (int r = 0; r < runs; ++r) {
    Drawer<T> d(R); const bool great = R.chance(1, 300); if (great) mon::obs("great data sets"); int n = great ? R.range(66000, 140000) : R.chance(1, 40) ? R.range(1000, mon::thorough ? 100000 : 4000) : R.chance(1, 8) ? R.range(0, 1) : R.range(2, 60); in += mon::cat(" ", n, " of kind ", d.kind); S fresh; for (int i = 0; i < n; ++i) { T x = d(R, i); s.push_back(x); v.push_back(x); if (r == 0 || fresh.size() || v.size() == 1) fresh.push_back(x); mon::obs("values fed"); if (n < 20 || R.chance(1, great ? 4000 : 100)) compare(s, v, in); } compare(s, v, in);
    if (fresh.size() == s.size()) CHECK(fresh.mean() == s.mean() && fresh.variance() == s.variance(), "earlier-values-forgotten", in, " ", s.mean(), " ", s.variance(), " fresh ", fresh.mean(), " ", fresh.variance());
    S copy(s); compare(copy, v, in + " copy"); copy.push_back(d(R, 1)); compare(s, v, in + " after the copy went on"); S other; other.push_back(1); other.push_back(5); other = s; compare(other, v, in + " assigned"); if (R.chance(2, 3)) { s.clear(); v.clear(); in += " clear"; mon::obs("clears"); compare(s, v, in); if (R.flip()) s.clear(); } }
  mon::nontrivial(mon::hash(in, mon::hash(v.data(), v.size() * sizeof(T)))); mon::sample(in);
}
GROUP(cumulative_double, 1500, 100000) { cumulative<double>(R, "double"); }
GROUP(cumulative_float, 1500, 100000) { cumulative<float>(R, "float"); }

template <class T, int N, class V, class A, class M> static void eigen(const V& len, const A& ax, const M& m, LD norm, const std::string& in, bool unit = true) {
  LD e = 60 * eps<T>(); for (int i = 0; i < N; ++i) { LD n = 0; for (int k = 0; k < N; ++k) n += sq(ax(k, i)); n = std::sqrt(n); if (unit) CHECK(std::fabs(n - 1) <= e, "axis-length", in, " axis ", i, " is ", n, " long"); CHECK(n > 1e-3, "axis-vanished", in, " axis ", i); CHECK(len[i] > 0, "length-positive", in, " length ", i, " is ", len[i]);
    for (int r = 0; r < N; ++r) { LD res = 0; for (int k = 0; k < N; ++k) res += (LD)m(r, k) * ax(k, i); res -= sq(len[i]) * ax(r, i); CHECK(std::fabs(res) <= e * norm * n, "eigenvector", in, " axis ", i, " misses by ", res / norm / n); } for (int j = 0; j < i; ++j) { LD dot = 0, nj = 0; for (int k = 0; k < N; ++k) { dot += (LD)ax(k, i) * ax(k, j); nj += sq(ax(k, j)); } CHECK(std::fabs(dot) <= e * n * std::sqrt(nj), "orthogonal", in, " axes ", j, " and ", i, ": ", dot); } } }
template <class T, class M2> static void planar(mon::Rng& R, const char* t) {
  typedef ecl::CovarianceEllipsoid<T, 2> E; int kind = R.below(8); double s = std::pow(10.0, R.uniform(-4, 4)); double l1 = s, l2 = s * std::pow(10.0, -R.uniform(0, 3)), th = R.uniform(-4, 4); if (kind == 0) l2 = l1 * (1 - R.unit() * (R.flip() ? 1e-6 : 1e-14)); if (kind == 1) th = 1.5707963267948966 * R.range(-2, 2); M2 m; double c = std::cos(th), n = std::sin(th); m(0, 0) = l1 * c * c + l2 * n * n; m(1, 1) = l1 * n * n + l2 * c * c; m(0, 1) = m(1, 0) = (l1 - l2) * n * c; if (kind == 2) { m(0, 1) = m(1, 0) = 0; } if (kind == 3 || kind == 4) { m(0, 1) = m(1, 0) = (T)(m(0, 0) * R.uniform(-1, 1) * std::pow(10.0, -R.uniform(4, 20)) * 0.1); if (kind == 4) { if (R.flip()) std::swap(m(0, 0), m(1, 1)); if (R.chance(1, 3)) m(1, 1) = m(0, 0); } } if (kind == 5) { int a = R.range(1, 9), d = R.range(1, 9), b = 0; while ((b + 1) * (b + 1) < a * d && R.chance(2, 3)) ++b; m(0, 0) = a; m(1, 1) = d; m(0, 1) = m(1, 0) = R.flip() ? -b : b; }
  if (std::fabs(m(0, 0) - m(1, 1)) < 1e-5 * std::fabs(m(0, 0)) && std::fabs(m(0, 1)) < 1e-5 * std::fabs(m(0, 0))) mon::obs("nearly round ellipses"); if (m(0, 1) != 0 && std::fabs(m(0, 1)) < 1e-4 * std::min(m(0, 0), m(1, 1))) mon::obs("nearly diagonal ellipses");
  LD det = (LD)m(0, 0) * m(1, 1) - sq(m(0, 1)), norm = std::fabs((LD)m(0, 0)) + std::fabs((LD)m(1, 1)); if (!(det > 1e-4L * sq(norm))) return; // moderate condition only
  std::string in = mon::cat(t, " matrix ", m(0, 0), " ", m(0, 1), " ", m(1, 1)); E def; CHECK(def.lengths()[0] == 1 && def.lengths()[1] == 1 && def.axes() == M2(M2::Identity()) && def.rotation() == 0, "default", in); const M2 keep = m;
  E a(m), b; b.compute(m); M2 other; other << 2, 1, 1, 3; E again(other); again.compute(m); E copy(a); CHECK(m == keep, "matrix-unchanged", in); CHECK(a.lengths() == b.lengths() && a.axes() == b.axes() && a.lengths() == again.lengths() && a.axes() == again.axes() && a.lengths() == copy.lengths() && a.axes() == copy.axes(), "compute-agrees", in);
  eigen<T, 2>(a.lengths(), a.axes(), m, norm, in); CHECK(a.lengths()[0] >= a.lengths()[1], "major-first", in, " lengths ", a.lengths()[0], " ", a.lengths()[1]);
  LD rot = a.rotation(), e = 60 * eps<T>(); LD rc = cosl(rot), rs = sinl(rot); CHECK(std::fabs(rc * a.axes()(1, 0) - rs * a.axes()(0, 0)) <= e && std::fabs(rot) <= 3.1415928L, "rotation", in, " gives ", rot, " for axis ", a.axes()(0, 0), ",", a.axes()(1, 0)); CHECK(std::fabs(m(0, 0) * rc + m(0, 1) * rs - sq(a.lengths()[0]) * rc) <= e * norm && std::fabs(m(1, 0) * rc + m(1, 1) * rs - sq(a.lengths()[0]) * rs) <= e * norm, "rotation-major", in, " gives ", rot);
  auto ic = a.intercepts(); LD wx = std::sqrt(det / m(1, 1)), wy = std::sqrt(det / m(0, 0)), tol = 100 * eps<T>() * std::sqrt(norm) * norm / std::sqrt(det); CHECK(std::fabs(ic[0] - wx) <= tol, "intercept-x", in, " gives ", ic[0], " want ", wx); CHECK(std::fabs(ic[1] - wy) <= tol, "intercept-y", in, " gives ", ic[1], " want ", wy); CHECK(a.lengths() == b.lengths() && a.axes() == b.axes(), "reading-changes-nothing", in);
  mon::obs("planar ellipses"); mon::nontrivial(mon::hash(in)); mon::sample(in);
}
GROUP(planar_double, 8000, 500000) { planar<double, ecl::linear_algebra::Matrix2d>(R, "double"); }
GROUP(planar_float, 6000, 400000) { planar<float, ecl::linear_algebra::Matrix2f>(R, "float"); }
template <class T, class M3> static void spatial(mon::Rng& R, const char* t) {
  typedef ecl::CovarianceEllipsoid<T, 3> E; int kind = R.below(8); double s = std::pow(10.0, R.uniform(-4, 4)), l[3] = {s, s * std::pow(10.0, -R.uniform(0, 2.5)), s * std::pow(10.0, -R.uniform(0, 2.5))}; if (kind == 0) l[1] = l[0]; if (kind == 1) l[2] = l[1] = l[0]; if (kind == 2) l[2] = l[1] * (1 + 1e-12 * R.unit()); if (R.flip()) std::swap(l[0], l[2]);
  double q[4]; LD nq = 0; for (double& x : q) { x = R.uniform(-1, 1); nq += sq(x); } if (nq < 0.01) { q[0] = 1; nq += 1; } for (double& x : q) x /= std::sqrt((double)nq); if (kind == 3) { q[0] = 1; q[1] = q[2] = q[3] = 0; } if (kind == 4) { q[1] = q[2] = 0; double h = std::sqrt(q[0] * q[0] + q[3] * q[3]); if (h > 0.01) { q[0] /= h; q[3] /= h; } else { q[0] = 1; q[3] = 0; } }
  double w = q[0], x = q[1], y = q[2], z = q[3], o[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}}; M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) { double v = 0; for (int k = 0; k < 3; ++k) v += o[i][k] * l[k] * o[j][k]; m(i, j) = m(j, i) = (T)v; } if (kind < 3) mon::obs("round in two or three directions");
  LD norm = l[0] + l[1] + l[2]; std::string in = mon::cat(t, " matrix ", m(0, 0), " ", m(0, 1), " ", m(0, 2), " ", m(1, 1), " ", m(1, 2), " ", m(2, 2)); E def; CHECK(def.lengths()[0] == 1 && def.lengths()[1] == 1 && def.lengths()[2] == 1 && def.axes() == M3(M3::Identity()), "default", in); const M3 keep = m;
  E a(m), b; b.compute(m); M3 other; other << 2, 1, 0, 1, 3, 0, 0, 0, 1; E again(other, false); again.compute(m); CHECK(m == keep, "matrix-unchanged", in); CHECK(a.lengths() == b.lengths() && a.axes() == b.axes() && a.lengths() == again.lengths() && a.axes() == again.axes(), "compute-agrees", in);
  eigen<T, 3>(a.lengths(), a.axes(), m, norm, in); { auto& x3 = a.axes(); LD det = 0; for (int i = 0; i < 3; ++i) det += (LD)x3(0, i) * ((LD)x3(1, (i + 1) % 3) * x3(2, (i + 2) % 3) - (LD)x3(2, (i + 1) % 3) * x3(1, (i + 2) % 3)); CHECK(det > 0.9, "right-handed", in, " determinant ", det); }
  E raw(m, false); eigen<T, 3>(raw.lengths(), raw.axes(), m, norm, in + " unsorted", false); E raw2; raw2.compute(m, false); CHECK(raw.lengths() == raw2.lengths() && raw.axes() == raw2.axes(), "compute-agrees", in); mon::obs("spatial ellipsoids", 2); mon::nontrivial(mon::hash(in)); mon::sample(in);
}
GROUP(spatial_double, 2000, 150000) { spatial<double, ecl::linear_algebra::Matrix3d>(R, "double"); }
GROUP(spatial_float, 2000, 150000) { spatial<float, ecl::linear_algebra::Matrix3f>(R, "float"); }
