// C35: interpolated rigid transforms and matrix output are faithful.
#include "mon.hpp"
#include <ecl/linear_algebra.hpp>
#include <ecl/linear_algebra/sophus/helpers.hpp>
#include <ecl/linear_algebra/sophus/interpolators.hpp>
#include <ecl/linear_algebra/sophus/formatters.hpp>
#include <ecl/converters.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <cmath>
#include <sstream>
REQUIRE_OBS("ends reached", 4000); REQUIRE_OBS("points in between", 10000); REQUIRE_OBS("planar interpolations", 1000); REQUIRE_OBS("sliding interpolations", 1000); REQUIRE_OBS("spatial interpolations", 1000); REQUIRE_OBS("not coplanar", 200); REQUIRE_OBS("tilted planes", 200); REQUIRE_OBS("planar poses", 5000); REQUIRE_OBS("entries printed", 20000); REQUIRE_OBS("matrices printed", 5000); REQUIRE_OBS("transforms printed", 2000); REQUIRE_OBS("one off settings", 1000); REQUIRE_OBS("nothing to print", 1000);
using Sophus::SE3f; typedef Eigen::Matrix<double, 4, 4> M4; typedef Eigen::Vector3d D3;
static const double PI = 3.14159265358979323846;
static M4 mat(const SE3f& t) { return t.matrix().cast<double>(); }
static double off_turn(double a, double b) { double d = a - b; return std::fabs(d - 2 * PI * std::round(d / (2 * PI))); }
template <class F> static bool refused(F f) { try { f(); } catch (const ecl::StandardException&) { return true; } return false; }
static std::string s(const M4& m) { std::ostringstream o; o.precision(9); for (int i = 0; i < 3; ++i) { o << "["; for (int j = 0; j < 4; ++j) o << m(i, j) << (j < 3 ? " " : "]"); } return o.str(); }
static double angle_of(const M4& m) { D3 w(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)); return std::atan2(w.norm() / 2, (m(0, 0) + m(1, 1) + m(2, 2) - 1) / 2); }
static float coord(mon::Rng& R, double big) { return R.chance(1, 6) ? 0 : R.chance(1, 5) ? R.range(-3, 3) : R.uniform(-big, big); }
static SE3f any(mon::Rng& R, double big) { Eigen::Quaternionf q; switch (R.below(5)) { case 0: q = Eigen::Quaternionf::Identity(); break; case 1: q = Eigen::AngleAxisf(PI / 2 * R.range(-2, 2), R.flip() ? Eigen::Vector3f::UnitX() : R.flip() ? Eigen::Vector3f::UnitY() : Eigen::Vector3f::UnitZ()); break; default: { D3 w(R.uniform(-1, 1), R.uniform(-1, 1), R.uniform(-1, 1)); if (w.norm() < 1e-3) w = D3(0, 0, 1); w.normalize(); q = Eigen::AngleAxisf(R.chance(1, 5) ? R.uniform(-1e-3, 1e-3) : R.uniform(-PI, PI), w.cast<float>()); q.normalize(); } } return SE3f(q, Eigen::Vector3f(coord(R, big), coord(R, big), coord(R, big))); }
static SE3f flat(mon::Rng& R, double big, bool still = false) { double a = still ? 0 : R.chance(1, 4) ? PI / 2 * R.range(-1, 2) : R.uniform(-PI, PI); return SE3f(Eigen::Quaternionf(std::cos(a / 2), 0, 0, std::sin(a / 2)), Eigen::Vector3f(coord(R, big), coord(R, big), 0)); }
static double dist(const M4& a, const M4& b) { return (a.block<3, 3>(0, 0) - b.block<3, 3>(0, 0)).cwiseAbs().maxCoeff() + (a.block<3, 1>(0, 3) - b.block<3, 1>(0, 3)).cwiseAbs().maxCoeff(); }
static bool rigid(const M4& m) { Eigen::Matrix3d r = m.block<3, 3>(0, 0); return (r * r.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 3e-6 && std::fabs(r.determinant() - 1) < 3e-6; }
// the motions made from the first pose must be powers of one motion
template <class I> static void steady(mon::Rng& R, I& f, const SE3f& a, const SE3f& b, double scale, const std::string& in) {
  M4 A = mat(a), B = mat(b), rel = B * A.inverse(); double whole = angle_of(rel), tol = 2e-5 * scale, end_tol = whole > 3.0 ? 60 * tol : tol; M4 at0 = mat(f(0.0)), at1 = mat(f(1.0)); CHECK(dist(at0, A) < tol, "starts-at-the-first", in, " at ", s(at0)); CHECK(dist(at1, B) < end_tol, "ends-at-the-second", in, " at ", s(at1)); mon::obs("ends reached", 2); if (whole > 3.0) return; auto moved = [&](double t) { return M4(mat(f(t)) * A.inverse()); };
  for (int k = 0; k < 3; ++k) { double t = R.chance(1, 4) ? 0.5 : R.unit(), u = R.unit() * (1 - t); M4 mt = mat(f(t)), pt = moved(t), pu = moved(u), both = moved(t + u); CHECK(rigid(mt), "rigid", in, " at ", t, " ", s(mt)); CHECK(std::fabs(angle_of(pt) - t * whole) < 2e-3 * (whole > 2.5 ? 2 : 1) && (whole < 1e-2 || std::fabs(angle_of(pt) - t * whole) < 1e-4 + 1e-3 * std::fabs(std::sin(angle_of(pt)))), "turns-evenly", in, " at ", t, " turned ", angle_of(pt), " of ", whole); CHECK(dist(pt * pu, both) < 2 * end_tol, "even-motion", in, " at ", t, " and ", u, " is ", s(pt * pu), " want ", s(both)); mon::obs("points in between", 2); }
  // close to the start the motion is small
  CHECK(dist(moved(1e-4), M4::Identity()) < tol + 1e-3 * (rel.block<3, 1>(0, 3).norm() * 4 + 2 * whole), "leaves-steadily", in, " ", s(moved(1e-4))); }
GROUP(spatial, 1200, 80000) { double big = R.pick(std::vector<double>{0.1, 1, 10}); SE3f a = any(R, big), b = R.chance(1, 8) ? a : any(R, big); if (R.chance(1, 6)) b = SE3f(a.unit_quaternion(), b.translation()); std::string in = mon::cat("spatial ", s(mat(a)), " to ", s(mat(b))); Sophus::Interpolator<SE3f> f(a, b); steady(R, f, a, b, 1 + 4 * big, in); mon::obs("spatial interpolations"); mon::nontrivial(mon::hash(in)); mon::sample(in); }
GROUP(planar, 1500, 80000) {
  double big = R.pick(std::vector<double>{0.1, 1, 5}); bool tilt = R.chance(1, 3); SE3f a, b; SE3f base = tilt ? any(R, big) : SE3f(); SE3f fa = flat(R, big, R.chance(1, 8)), fb = R.chance(1, 8) ? fa : flat(R, big, R.chance(1, 8)); if (R.chance(1, 6)) fb = SE3f(fa.unit_quaternion(), fb.translation()); a = fa * base; b = fb * base; std::string in = mon::cat(tilt ? "tilted" : "planar", " ", s(mat(a)), " to ", s(mat(b))); if (tilt) mon::obs("tilted planes");
  double z = std::fabs(mat((b * a.inverse()).inverse())(2, 3)); if (tilt && z > 4e-6) { mon::obs("rounded out of plane"); return; } Sophus::PlanarInterpolator f(a, b); steady(R, f, a, b, 1 + 4 * big, in); for (int k = 0; k < 3; ++k) { double t = R.unit(); M4 p = mat(f(t)) * mat(a).inverse(); CHECK(std::fabs(p(2, 3)) < 1e-4 * (1 + big) && std::fabs(p(2, 2) - 1) < 1e-5 && std::fabs(p(2, 0)) + std::fabs(p(2, 1)) < 1e-4, "stays-in-plane", in, " at ", t, " ", s(p)); }
  if (R.chance(1, 4)) { double up = (R.flip() ? 1 : -1) * R.pick(std::vector<double>{0.001, 0.5, 20}); SE3f c = SE3f(Eigen::Quaternionf::Identity(), Eigen::Vector3f(0, 0, up)) * fb; CHECK(refused([&] { Sophus::PlanarInterpolator g(fa, c); }) && refused([&] { Sophus::PlanarInterpolator g(c, fa); }), "not-coplanar", in, " lifted by ", up); mon::obs("not coplanar"); }
  mon::obs("planar interpolations"); mon::nontrivial(mon::hash(in)); mon::sample(in); }
GROUP(sliding, 1500, 80000) {
  double big = R.pick(std::vector<double>{0.1, 1, 10}); SE3f a = any(R, big), b = R.chance(1, 8) ? a : any(R, big); std::string in = mon::cat("sliding ", s(mat(a)), " to ", s(mat(b))); Sophus::SlidingInterpolator f(a, b); M4 A = mat(a), B = mat(b); D3 pa = A.inverse().block<3, 1>(0, 3), pb = B.inverse().block<3, 1>(0, 3); double whole = angle_of(B * A.inverse()), tol = 2e-5 * (1 + 4 * big), end_tol = whole > 3 ? 60 * tol : tol;
  CHECK(dist(mat(f(0.0)), A) < tol, "starts-at-the-first", in, " at ", s(mat(f(0.0)))); CHECK(dist(mat(f(1.0)), B) < end_tol, "ends-at-the-second", in, " at ", s(mat(f(1.0)))); mon::obs("ends reached", 2);
  for (int k = 0; k < 4; ++k) { double t = R.chance(1, 4) ? 0.5 : R.unit(), u = R.unit() * (1 - t); M4 m = mat(f(t)); D3 p = m.inverse().block<3, 1>(0, 3), want = pa + t * (pb - pa); CHECK(rigid(m), "rigid", in, " ", s(m)); CHECK((p - want).cwiseAbs().maxCoeff() < tol, "slides-straight", in, " at ", t, " is at ", p.transpose(), " want ", want.transpose()); mon::obs("points in between"); if (whole > 3.0) continue; M4 rt = m * A.inverse(), ru = mat(f(u)) * A.inverse(), rb = mat(f(t + u)) * A.inverse(); CHECK(((rt * ru).block<3, 3>(0, 0) - rb.block<3, 3>(0, 0)).cwiseAbs().maxCoeff() < 1e-4, "turns-evenly", in, " at ", t, " and ", u); CHECK(std::fabs(angle_of(rt) - t * whole) < 2e-3, "turns-in-proportion", in, " at ", t, " turned ", angle_of(rt), " of ", whole); }
  mon::obs("sliding interpolations"); mon::nontrivial(mon::hash(in)); mon::sample(in); }
GROUP(poses, 3000, 200000) {
  for (int n = 0; n < 4; ++n) { float big = R.pick(std::vector<float>{1, 10, 1000}); Eigen::Vector3f p(coord(R, big), coord(R, big), R.chance(1, 4) ? (float)(PI / 2 * R.range(-2, 2)) : (float)R.uniform(R.chance(1, 4) ? -20 : -PI, PI)), keep = p; std::string in = mon::cat("pose ", p[0], " ", p[1], " ", p[2]); SE3f t = n % 2 ? Sophus::toPose3D(p) : ecl::Converter<SE3f, Eigen::Vector3f>()(p); M4 m = mat(t); double c = std::cos((double)p[2]), q = std::sin((double)p[2]); M4 want = M4::Identity(); want(0, 0) = want(1, 1) = c; want(1, 0) = q; want(0, 1) = -q; want(0, 3) = p[0]; want(1, 3) = p[1]; CHECK((m - want).cwiseAbs().maxCoeff() < 3e-6, "to-spatial", in, " gives ", s(m)); CHECK(m(0, 3) == p[0] && m(1, 3) == p[1] && m(2, 3) == 0, "to-spatial-position", in, " gives ", s(m)); Eigen::Vector3f back = n % 2 ? Sophus::toPose2D(t) : ecl::Converter<Eigen::Vector3f, SE3f>()(t); CHECK(back[0] == p[0] && back[1] == p[1] && off_turn(back[2], p[2]) < 3e-6 && std::fabs(back[2]) < PI + 1e-6, "and-back", in, " gives ", back.transpose()); CHECK(p == keep, "operand", in); mon::obs("planar poses");
    Eigen::Quaternionf q1 = Sophus::PlanarRotation2Quaternion()(p[2]), q2; q2.setIdentity(); Sophus::PlanarRotation2Quaternion().convert(p[2], q2); for (const Eigen::Quaternionf& k : {q1, q2}) { CHECK(std::fabs(k.norm() - 1) < 1e-6 && (k.toRotationMatrix().cast<double>() - want.block<3, 3>(0, 0)).cwiseAbs().maxCoeff() < 3e-6, "planar-rotation", in, " gives ", k.coeffs().transpose()); }
    float fx = coord(R, big), fy = coord(R, big), tx = coord(R, big), ty = coord(R, big); if (std::hypot((double)tx - fx, (double)ty - fy) > 1e-3 * big) { Sophus::SE3fPtr l = Sophus::points2DToSophusTransform(fx, fy, tx, ty); M4 k = mat(*l); double h = std::atan2((double)ty - fy, (double)tx - fx); CHECK(k(0, 3) == fx && k(1, 3) == fy && k(2, 3) == 0 && off_turn(std::atan2(k(1, 0), k(0, 0)), h) < 5e-6 * 100 && std::fabs(k(2, 2) - 1) < 1e-6, "line", fx, " ", fy, " to ", tx, " ", ty, " gives ", s(k)); }
    // a spatial pose flattened keeps its place and heading
    SE3f any3 = any(R, big); M4 a3 = mat(any3); Eigen::Vector3f f2 = Sophus::toPose2D(any3); CHECK(f2[0] == (float)a3(0, 3) && f2[1] == (float)a3(1, 3), "flattened-position", s(a3)); if (std::hypot(a3(0, 0), a3(1, 0)) > 1e-3) CHECK(off_turn(f2[2], std::atan2(a3(1, 0), a3(0, 0))) < 1e-3, "flattened-heading", s(a3), " gives ", f2[2]); mon::nontrivial(mon::hash(in)); if (!n) mon::sample(in); } }

static std::string entry(double v, int w, int p) { char b[600]; snprintf(b, sizeof b, "%*.*f", w > 0 ? w : 0, p, v); return b; }
// nothing within rounding of a tie in the last printed place
template <class T> static T value(mon::Rng& R, int p) { for (;;) { T v = R.chance(1, 6) ? (T)R.range(-9, 9) : R.chance(1, 6) ? (T)R.uniform(-1e5, 1e5) : (T)R.uniform(-50, 50); double f = std::fabs((double)v) * std::pow(10.0, p); if (f > 1e12) continue; double d = f - std::floor(f); if (std::fabs(d - 0.5) < 1e-4) continue; if (v != 0 && f < 0.5) continue; return v; } }
template <class M> static std::string expected(const M& m, int w, int p) { std::string o; for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) o += entry((double)m(i, j), w, p) + "  "; if (m.rows() != 1) o += "\n"; } return o; }
template <class M, class F> static void prints(mon::Rng& R, F& f, int w, int p, int rows, int cols, const char* kind) {
  typedef typename M::Scalar T; std::string in = mon::cat(kind, " ", rows, "x", cols, " width ", w, " precision ", p); for (int n = R.range(1, 4); n--;) {
    bool once = R.chance(1, 3); int ww = once ? (R.flip() ? -1 : R.range(1, 14)) : w, pp = once ? R.range(0, 5) : p; M m(rows, cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = value<T>(R, pp); std::ostringstream o; if (R.chance(1, 4)) { if (R.flip()) { w = R.flip() ? -1 : R.range(1, 12); f.width(w); if (!once) ww = w; } else { int q = R.range(0, 5); if (once || q <= pp) { p = q; f.precision(p); if (!once) { pp = p; for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = value<T>(R, pp); } } } }
    M copy = m; if (once) o << f(m, ww, pp); else o << f(m); std::string want = expected(m, ww, pp); CHECK(o.str() == want, once ? "one-off" : "print", in, " one off ", ww, " ", pp, " prints ", mon::quote(o.str()), " want ", mon::quote(want)); CHECK(m == copy, "operand", in); CHECK((int)f.precision() == p && f.width() == w, "settings-kept", in, " now width ", f.width(), " precision ", f.precision()); if (once) mon::obs("one off settings"); mon::obs("matrices printed"); mon::obs("entries printed", rows * cols);
    if (R.chance(1, 4)) { std::ostringstream q; CHECK(refused([&] { q << f; }) && q.str().empty(), "printed-twice", in, " prints ", mon::quote(q.str())); mon::obs("nothing to print"); } } mon::nontrivial(mon::hash(in)); }
template <class M> static void matrix(mon::Rng& R, int rows, int cols, const char* kind) {
  int w = R.flip() ? -1 : R.range(1, 14), p = R.range(0, 6); std::string in = mon::cat(kind, " width ", w, " precision ", p); switch (R.below(4)) {
    case 0: { Eigen::FloatMatrixFormatter<M> f(w, p); prints<M>(R, f, w, p, rows, cols, kind); break; } case 1: { typename M::Formatter f(w, p); prints<M>(R, f, w, p, rows, cols, kind); break; } case 2: { Eigen::FloatMatrixFormatter<M> f; CHECK(f.width() == -1 && f.precision() == 2, "defaults", in); f.precision(p).width(w); prints<M>(R, f, w, p, rows, cols, kind); break; }
    default: { Eigen::MatrixFormatter<M, typename M::Scalar> f; std::ostringstream o; CHECK(refused([&] { o << f; }) && o.str().empty(), "nothing-given", in); mon::obs("nothing to print"); f.width(w).precision(p); prints<M>(R, f, w, p, rows, cols, kind); } } mon::sample(in); }
REQUIRE_OBS("great matrices", 2);
GROUP(matrices, 3000, 200000) {
  switch (R.below(8)) { case 0: matrix<Eigen::Vector2d>(R, 2, 1, "Vector2d"); break; case 1: matrix<Eigen::Matrix3d>(R, 3, 3, "Matrix3d"); break; case 2: matrix<Eigen::Matrix2f>(R, 2, 2, "Matrix2f"); break; case 3: matrix<Eigen::RowVector3f>(R, 1, 3, "RowVector3f"); break; case 4: matrix<Eigen::VectorXf>(R, R.range(1, 9), 1, "VectorXf"); break; case 5: if (R.chance(1, 60)) { mon::obs("great matrices"); if (R.flip()) matrix<Eigen::MatrixXd>(R, R.range(250, 300), R.range(1, 5), "MatrixXd"); else matrix<Eigen::MatrixXd>(R, R.range(1, 5), R.range(250, 300), "MatrixXd"); break; } matrix<Eigen::MatrixXd>(R, R.range(0, 7), R.range(0, 7), "MatrixXd"); break; case 6: matrix<Eigen::RowVectorXd>(R, 1, R.range(1, 8), "RowVectorXd"); break; default: matrix<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(R, R.range(1, 6), R.range(1, 6), "row major"); } }
static std::string after(const std::string& t, size_t& at, const char* tag, int w) { size_t k = t.find(tag, at); if (k == std::string::npos) return "?"; k += strlen(tag); size_t e = k; while (e < t.size() && t[e] == ' ') ++e; while (e < t.size() && strchr("+-.0123456789", t[e])) ++e; at = e; return t.substr(k, e - k); }
GROUP(transforms, 2500, 150000) {
  int w = R.flip() ? -1 : R.range(1, 14), p = R.range(0, 6); SE3f t = any(R, R.pick(std::vector<double>{1, 100})); std::string in = mon::cat(s(mat(t)), " width ", w, " precision ", p); Sophus::SE3fFormatter named(w, p); ecl::Format<SE3f> plain; bool pl = R.flip(); Sophus::SE3fFormatter& f = pl ? plain : named; if (pl) { CHECK(f.width() == -1 && f.precision() == 2, "defaults", in); f.width(w).precision(p); } if (R.flip()) { std::ostringstream o; CHECK(refused([&] { o << f; }) && o.str().empty(), "nothing-given", in); mon::obs("nothing to print"); }
  for (int n = R.range(1, 3); n--;) { bool once = R.chance(1, 3); int ww = once ? (R.flip() ? -1 : R.range(1, 14)) : w, pp = once ? R.range(0, 5) : p; std::ostringstream o; if (once) o << f(t, ww, pp); else o << f(t); std::string text = o.str(); size_t at = 0; auto tr = t.translation(); auto q = t.unit_quaternion(); double v[7] = {tr.x(), tr.y(), tr.z(), q.x(), q.y(), q.z(), q.w()}; const char* tag[7] = {"x:", "y:", "z:", "x:", "y:", "z:", "w:"}; for (int i = 0; i < 7; ++i) { std::string got = after(text, at, tag[i], ww); double f10 = std::fabs(v[i]) * std::pow(10.0, pp), d = f10 - std::floor(f10); if (f10 < 1 || std::fabs(d - 0.5) < 1e-2 || f10 > 1e8) { char* e; double g = std::strtod(got.c_str(), &e); CHECK(*e == 0 && !got.empty() && std::fabs(g - v[i]) <= 0.51 * std::pow(10.0, -pp) + 1e-6 * std::fabs(v[i]) && (int)got.size() >= ww, "entry", in, " prints ", mon::quote(text)); } else CHECK(got == entry(v[i], ww, pp), "entry", in, " one off ", ww, " ", pp, " prints ", mon::quote(text), " entry ", i, " want ", entry(v[i], ww, pp)); mon::obs("entries printed"); } CHECK((int)f.precision() == p && f.width() == w, "settings-kept", in, " now width ", f.width(), " precision ", f.precision()); if (once) mon::obs("one off settings"); mon::obs("transforms printed"); if (R.chance(1, 4)) { std::ostringstream z; CHECK(refused([&] { z << f; }) && z.str().empty(), "printed-twice", in); mon::obs("nothing to print"); } }
  { std::ostringstream o; o.precision(9); o << t; std::istringstream i(o.str()); double v[7]; bool ok = true; for (double& x : v) if (!(i >> x)) ok = false; auto tr = t.translation(); auto q = t.unit_quaternion(); CHECK(ok && std::fabs(v[0] - tr.x()) < 1e-5 * (1 + std::fabs(tr.x())) && std::fabs(v[1] - tr.y()) < 1e-5 * (1 + std::fabs(tr.y())) && std::fabs(v[2] - tr.z()) < 1e-5 * (1 + std::fabs(tr.z())) && std::fabs(v[3] - q.x()) < 1e-6 && std::fabs(v[4] - q.y()) < 1e-6 && std::fabs(v[5] - q.z()) < 1e-6 && std::fabs(v[6] - q.w()) < 1e-6, "stream", in, " prints ", o.str()); }
  { double th = R.chance(1, 6) ? 0 : (R.unit() * 2 - 1) * 3.1, x = (R.unit() * 2 - 1) * 50, y = (R.unit() * 2 - 1) * 50; Sophus::SE2<double> g(th, Eigen::Vector2d(x, y)); std::ostringstream o; o.precision(15); o << g; std::istringstream i(o.str()); double u = 0, v = 0, w2 = 0; bool ok = bool(i >> u >> v >> w2); std::string rest; ok = ok && !(i >> rest); // the steady motion printed leads to the transform
    double a = std::fabs(th) < 1e-9 ? 1 - th * th / 6 : std::sin(th) / th, b = std::fabs(th) < 1e-9 ? th / 2 : (1 - std::cos(th)) / th; CHECK(ok && std::fabs(w2 - th) < 1e-9 && std::fabs(a * u - b * v - x) < 1e-6 && std::fabs(b * u + a * v - y) < 1e-6, "planar-stream", "turn ", th, " to ", x, ",", y, " printed as ", mon::quote(o.str())); mon::obs("planar transforms printed"); }
  mon::nontrivial(mon::hash(in)); mon::sample(in); }
