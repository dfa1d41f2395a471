// C38, the calculating half: geometry, statistics, linear algebra, trajectories and the mobile robot.
#include "c38_common.hpp"
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/pascals_triangle.hpp>
#include <ecl/geometry/cubic_spline.hpp>
#include <ecl/geometry/tension_spline.hpp>
#include <ecl/geometry/smooth_linear_spline.hpp>
#include <ecl/geometry/linear_segment.hpp>
#include <ecl/geometry/angle.hpp>
#include <ecl/geometry/pose2d.hpp>
#include <ecl/geometry/legacy_pose2d.hpp>
#include <ecl/geometry/legacy_pose3d.hpp>
#include <ecl/geometry/odometry.hpp>
#include <ecl/statistics/cumulative_statistics.hpp>
#include <ecl/statistics/covariance_ellipsoid.hpp>
#include <ecl/linear_algebra.hpp>
#include <ecl/linear_algebra/sophus/helpers.hpp>
#include <ecl/linear_algebra/sophus/interpolators.hpp>
#include <ecl/linear_algebra/sophus/formatters.hpp>
#include <ecl/manipulators/waypoint.hpp>
#include <ecl/manipulators/trajectory.hpp>
#include <ecl/mobile_robot.hpp>
#include <ecl/exceptions/standard_exception.hpp>
template <class V> static void all(Place& p, const V& v) { for (int i = 0; i < int(v.size()); ++i) p.o << v[i]; }
static void rising(Rng& r, ecl::Array<double>& x, ecl::Array<double>& y, unsigned n) { x.resize(n); y.resize(n); double a = r.uniform(-2, 2); for (unsigned i = 0; i < n; ++i) { x[i] = a; a += r.uniform(0.4, 2); y[i] = r.uniform(-3, 3); } }
static void polynomials(Place& p) {
  Rng& r = p.r; for (int k = 0; k < 4; ++k) {
    ecl::LinearFunction a = ecl::LinearFunction::PointSlopeForm(r.unit(), r.unit(), 1 + r.unit()), b = ecl::LinearFunction::Interpolation(0, r.unit(), 1, 5 + r.unit()); ecl::CartesianPoint2d at = ecl::LinearFunction::Intersection(a, b); p.o << at[0] << at[1] << a(0.3) << a;
    ecl::CubicPolynomial c = ecl::CubicPolynomial::DerivativeInterpolation(0, r.unit(), r.unit(), 1, r.unit(), r.unit()), s = ecl::CubicPolynomial::SecondDerivativeInterpolation(0, r.unit(), 1, 1, r.unit(), 2); ecl::QuinticPolynomial q = ecl::QuinticPolynomial::Interpolation(0, r.unit(), 0, 0, 1, r.unit(), 1, 0); p.o << c(0.5) << c.derivative(0.2) << s.dderivative(0.7) << q(0.4) << c << q;
    p.o << ecl::CubicPolynomial::Maximum(0, 1, c) << ecl::CubicPolynomial::Minimum(-1, 2, s); all(p, ecl::CubicPolynomial::Roots(c)); double rem = 0; ecl::QuadraticPolynomial quo = ecl::CubicPolynomial::Division(c, a(0.3), rem); p.o << rem << quo(0.5); all(p, ecl::QuadraticPolynomial::Roots(quo)); c.shift_horizontal(r.unit()); p.o << c(0.1); ecl::PascalsTriangle<5> t; for (auto i = t.begin(5); i != t.end(5); ++i) p.o << *i;
    ecl::LinearFunction flat = ecl::LinearFunction::PointSlopeForm(0, 1, 2), same = flat; try { at = ecl::LinearFunction::Intersection(flat, same); p.o << at[0]; } catch (const ecl::StandardException& e) { p.o << e.flag(); } } }
static void splines(Place& p) {
  Rng& r = p.r; ecl::Array<double> x, y; unsigned n = unsigned(r.range(3, 8)); rising(r, x, y, n); std::vector<double> at; for (int i = 0; i <= 20; ++i) at.push_back(x[0] + (x[n - 1] - x[0]) * i / 20);
  ecl::CubicSpline c = ecl::CubicSpline::Natural(x, y), d = ecl::CubicSpline::ContinuousDerivatives(x, y, 0, 1), h = ecl::CubicSpline::DerivativeHeuristic(x, y, 1, 0); ecl::TensionSpline t = ecl::TensionSpline::Natural(x, y, r.uniform(0.5, 5)); for (double v : at) p.o << c(v) << d.derivative(v) << h.dderivative(v) << t(v) << t.derivative(v); std::ostringstream o; o << c; p.o << o.str().size();
  try { p.o << c(x[0] - 1); } catch (const ecl::StandardException& e) { p.o << e.flag(); } try { ecl::SmoothLinearSpline s(x, y, 500.0); for (double v : at) p.o << s(v) << s.derivative(v); } catch (const ecl::StandardException& e) { p.o << e.flag(); } catch (const ecl::DataException<int>& e) { p.o << e.flag() << e.data(); }
  ecl::CubicSpline copy; copy = d; p.o << copy(at[7]); }
static void poses(Place& p) {
  Rng& r = p.r; ecl::Pose2D<double> a(r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-3, 3)), b(r.unit(), r.unit(), r.unit()); ecl::LegacyPose2D<double> l(r.unit(), r.unit(), r.unit()), m(r.unit(), 1, 2); ecl::LegacyPose2D<double, ecl::RotationMatrixStorage> s(l); ecl::LegacyPose3D<double> q(l), u(m); for (int k = 0; k < 8; ++k) { l = l * m; s *= m; q = q * u; a = a * b; p.o << l.x() << l.y() << l.heading() << s.heading() << q.translation()[0] << a.x() << a.heading(); p.o << ecl::wrap_angle(r.uniform(-50, 50)) << ecl::degrees_to_radians(r.uniform(-720, 720)) << l.inverse().x() << q.inverse().translation()[1]; }
  std::ostringstream o; o << l << q; p.o << o.str(); ecl::LinearSegment g(r.unit(), r.unit(), 2 + r.unit(), 3); p.o << g.squaredDistanceFromPoint(r.uniform(-4, 4), r.uniform(-4, 4)) << g.A() << g.B() << g.C(); std::vector<ecl::odometry::Pose2D> v; for (int i = 0; i < 6; ++i) v.push_back(ecl::odometry::Pose2D(float(r.unit()), float(r.unit()), float(i))); ecl::odometry::Trajectory2D t = ecl::odometry::vectorToTrajectory(v), w = t; ecl::odometry::addAtEnd(t, w); p.o << ecl::odometry::size(t) << ecl::odometry::distance(v[0], t) << ecl::odometry::distance(v[1], v[4]); ecl::odometry::Pose2D got = ecl::odometry::getAt(t, 8); p.o << got[0] << got[1]; }
static void statistics(Place& p) {
  Rng& r = p.r; ecl::CumulativeStatistics<double> s; for (int i = 0; i < 40; ++i) { s.push_back(r.uniform(-9, 9)); if (i == 25 && r.flip()) s.clear(); p.o << s.mean() << s.variance() << s.size(); } for (int k = 0; k < 5; ++k) { double a = 2 + r.unit(), b = 1 + r.unit(), c = r.unit(); ecl::linear_algebra::Matrix2d m; m << a, c, c, b; ecl::CovarianceEllipsoid<double, 2> e(m); p.o << e.lengths()[0] << e.lengths()[1] << e.rotation() << e.intercepts()[0] << e.axes()(0, 1); ecl::linear_algebra::Matrix3f f; f << float(a), 0.1f, float(c) * 0.2f, 0.1f, float(b), 0.3f, float(c) * 0.2f, 0.3f, 3; ecl::CovarianceEllipsoid<float, 3> g(f, r.flip()); for (int i = 0; i < 3; ++i) p.o << g.lengths()[i] << g.axes()(i, 0); } }
static Sophus::SE3f frame(Rng& r) { Eigen::Vector3f v; v << float(r.uniform(-3, 3)), float(r.uniform(-3, 3)), float(r.uniform(-3, 3)); return Sophus::toPose3D(v); }
static void transforms(Place& p) {
  Rng& r = p.r; Sophus::SE3f a = frame(r), b = frame(r); Eigen::Vector3f v = Sophus::toPose2D(a); all(p, v); Sophus::Interpolator<Sophus::SE3f> i(a, b); Sophus::PlanarInterpolator q(a, b); Sophus::SlidingInterpolator s(a, b); for (int k = 0; k <= 8; ++k) { double t = k / 8.0; all(p, i(t).translation()); all(p, Sophus::toPose2D(q(t))); all(p, s(t).translation()); }
  Sophus::SE3fFormatter f(8, 3); Eigen::Matrix<double, 3, 3>::Formatter m(9, 2); Eigen::Matrix<double, 3, 3> x; for (int k = 0; k < 9; ++k) x(k / 3, k % 3) = r.uniform(-9, 9); std::ostringstream o; o << f(a) << m(x); p.o << o.str(); }
static void trajectories(Place& p) {
  Rng& r = p.r; unsigned dim = unsigned(r.range(1, 3)), n = unsigned(r.range(4, 6)); ecl::Trajectory<ecl::JointAngles> t(dim, "plan"); for (unsigned i = 0; i < n; ++i) { ecl::WayPoint<ecl::JointAngles> w(dim); w.name(cat("way ", i)); for (unsigned j = 0; j < dim; ++j) { w.angles()[j] = r.uniform(-2, 2); } w.nominalRates(r.uniform(0.3, 1.5)); if (r.chance(1, 4)) w.duration(r.uniform(1, 3)); t.append(w); } t.maxAccelerations(r.uniform(2, 8));
  std::ostringstream o; o << t; p.o << o.str(); try { if (r.flip()) t.tensionSplineInterpolation(r.uniform(1, 6)); else t.linearSplineInterpolation(); double total = t.duration(); p.o << total; for (unsigned j = 0; j < dim; ++j) for (int k = 0; k <= 12; ++k) { double x = total * k / 12; p.o << t(j, x) << t.derivative(j, x) << t.dderivative(j, x); } } catch (const ecl::StandardException& e) { p.o << e.flag(); } catch (const ecl::DataException<int>& e) { p.o << e.flag() << e.data(); } }
static void robots(Place& p) { Rng& r = p.r; typedef ecl::DifferentialDrive::Kinematics K; K k(r.uniform(0.2, 1), r.uniform(0.02, 0.2)); ecl::Pose2D<double> at(0, 0, 0); for (int i = 0; i < 12; ++i) { ecl::linear_algebra::Vector3d u = k.poseUpdateFromWheelDifferential(r.uniform(-1, 1), r.uniform(-1, 1)); at *= ecl::Pose2D<double>(u[0], u[1], u[2]); p.o << at.x() << at.y() << at.heading(); all(p, k.baseToWheelVelocities(r.uniform(-1, 1), r.uniform(-1, 1))); all(p, k.poseUpdateFromBaseDifferential(r.unit(), r.unit())); } ecl::linear_algebra::Vector3d a, b; a << r.unit(), r.unit(), r.unit(); b << 2 + r.unit(), 3, r.unit(); all(p, K::PoseToBaseDifferential(a, b)); }
static const std::vector<Named>& kinds() { static const std::vector<Named> j = {{"polynomials", polynomials}, {"splines", splines}, {"poses", poses}, {"statistics", statistics}, {"transforms", transforms}, {"trajectories", trajectories}, {"robots", robots}}; return j; }
GROUP(same_kind, 140, 4000) { crowd(R, kinds(), int(mon::current_case % kinds().size())); }
GROUP(mixed, 60, 2000) { crowd(R, kinds(), -1); }
