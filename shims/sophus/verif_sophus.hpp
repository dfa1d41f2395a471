// Minimal stand-in for Sophus (absent here): SO2, SE2, SO3, SE3 on Eigen, textbook exp/log in the
// scalar's precision.  Only what ecl_linear_algebra uses.
#ifndef VERIF_SHIM_SOPHUS_HPP_
#define VERIF_SHIM_SOPHUS_HPP_
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace Sophus {

template <typename T> class SO2 {
public:
  typedef T Scalar; typedef T Tangent;
  SO2() : c(1), s(0) {}
  explicit SO2(const T& a) : c(std::cos(a)), s(std::sin(a)) {}
  SO2(const T& re, const T& im) : c(re), s(im) {}
  T log() const { return std::atan2(s, c); }
  static T log(const SO2& r) { return r.log(); }
  static SO2 exp(const T& a) { return SO2(a); }
  SO2 inverse() const { return SO2(c, -s); }
  Eigen::Matrix<T,2,2> matrix() const { Eigen::Matrix<T,2,2> m; m << c, -s, s, c; return m; }
  SO2 operator*(const SO2& o) const { return SO2(c*o.c - s*o.s, c*o.s + s*o.c); }
  Eigen::Matrix<T,2,1> operator*(const Eigen::Matrix<T,2,1>& p) const { return matrix()*p; }
private: T c, s;
};

template <typename T> class SE2 {
public:
  typedef T Scalar; typedef Eigen::Matrix<T,3,1> Tangent; typedef Eigen::Matrix<T,2,1> Point;
  SE2() : t(Point::Zero()) {}
  SE2(const T& a, const Point& p) : r(a), t(p) {}
  SE2(const SO2<T>& rr, const Point& p) : r(rr), t(p) {}
  const SO2<T>& so2() const { return r; }
  const Point& translation() const { return t; }
  Point& translation() { return t; }
  SE2 inverse() const { SO2<T> i = r.inverse(); return SE2(i, Point(-(i*t))); }
  SE2 operator*(const SE2& o) const { return SE2(r*o.r, Point(t + r*o.t)); }
  static SE2 exp(const Tangent& a) {
    const double th = a(2); double sbt, omc;
    if (std::abs(th) < 1e-6) { sbt = 1 - th*th/6; omc = th/2 - th*th*th/24; }
    else { sbt = std::sin(th)/th; omc = (1 - std::cos(th))/th; }
    return SE2(SO2<T>(a(2)), Point(T(sbt*a(0) - omc*a(1)), T(omc*a(0) + sbt*a(1))));
  }
  Tangent log() const {
    const double th = r.log(); const double h = 0.5*th; double k;
    if (std::abs(th) < 1e-6) k = 1 - th*th/12; else k = h*std::cos(h)/std::sin(h);
    Tangent o; o << T(k*t(0) + h*t(1)), T(-h*t(0) + k*t(1)), T(th); return o;
  }
  static Tangent log(const SE2& g) { return g.log(); }
private: SO2<T> r; Point t;
};

template <typename T> class SO3 {
public:
  typedef T Scalar; typedef Eigen::Matrix<T,3,1> Tangent; typedef Eigen::Matrix<T,3,1> Point;
  SO3() : q(Eigen::Quaternion<T>::Identity()) {}
  explicit SO3(const Eigen::Quaternion<T>& qq) : q(qq) { q.normalize(); }
  explicit SO3(const Eigen::Matrix<T,3,3>& m) : q(m) { q.normalize(); }
  const Eigen::Quaternion<T>& unit_quaternion() const { return q; }
  Eigen::Matrix<T,3,3> matrix() const { return q.toRotationMatrix(); }
  SO3 inverse() const { return SO3(q.conjugate()); }
  SO3 operator*(const SO3& o) const { return SO3(q*o.q); }
  Point operator*(const Point& p) const { return q*p; }
  static SO3 exp(const Tangent& w) {
    double th = w.template cast<double>().norm();
    double k = th < 1e-8 ? 0.5 : std::sin(0.5*th)/th;
    return SO3(Eigen::Quaternion<T>(T(std::cos(0.5*th)), T(k*w(0)), T(k*w(1)), T(k*w(2))));
  }
  Tangent log() const {
    double n = q.vec().template cast<double>().norm(), w = q.w();
    double k;
    if (n < 1e-8) k = 2/w; else k = 2*std::atan2(w < 0 ? -n : n, w < 0 ? -w : w)/n;
    return (q.vec().template cast<double>()*k).template cast<T>();
  }
  static Tangent log(const SO3& r) { return r.log(); }
private: Eigen::Quaternion<T> q;
};

template <typename T> class SE3 {
public:
  typedef T Scalar; typedef Eigen::Matrix<T,6,1> Tangent; typedef Eigen::Matrix<T,3,1> Point;
  SE3() : t(Point::Zero()) {}
  SE3(const Eigen::Matrix<T,3,3>& m, const Point& p) : r(m), t(p) {}
  SE3(const Eigen::Quaternion<T>& q, const Point& p) : r(q), t(p) {}
  SE3(const SO3<T>& rr, const Point& p) : r(rr), t(p) {}
  const SO3<T>& so3() const { return r; }
  const Eigen::Quaternion<T>& unit_quaternion() const { return r.unit_quaternion(); }
  Eigen::Matrix<T,3,3> rotationMatrix() const { return r.matrix(); }
  const Point& translation() const { return t; }
  Point& translation() { return t; }
  Eigen::Matrix<T,4,4> matrix() const {
    Eigen::Matrix<T,4,4> m = Eigen::Matrix<T,4,4>::Identity();
    m.template block<3,3>(0,0) = rotationMatrix(); m.template block<3,1>(0,3) = t; return m;
  }
  SE3 inverse() const { SO3<T> i = r.inverse(); return SE3(i, Point(-(i*t))); }
  SE3 operator*(const SE3& o) const { return SE3(r*o.r, Point(t + r*o.t)); }
  Point operator*(const Point& p) const { return r*p + t; }
  static Eigen::Matrix3d hat(const Eigen::Vector3d& w) {
    Eigen::Matrix3d m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m;
  }
  static SE3 exp(const Tangent& a) {
    Eigen::Vector3d u = a.template head<3>().template cast<double>(), w = a.template tail<3>().template cast<double>();
    double th = w.norm(); Eigen::Matrix3d O = hat(w), V;
    if (th < 1e-5) V = Eigen::Matrix3d::Identity() + 0.5*O + O*O/6;
    else V = Eigen::Matrix3d::Identity() + (1-std::cos(th))/(th*th)*O + (th-std::sin(th))/(th*th*th)*O*O;
    return SE3(SO3<T>::exp(a.template tail<3>()), Point((V*u).template cast<T>()));
  }
  Tangent log() const {
    Eigen::Matrix<T,3,1> wt = r.log(); Eigen::Vector3d w = wt.template cast<double>();
    double th = w.norm(); Eigen::Matrix3d O = hat(w), Vi;
    if (th < 1e-5) Vi = Eigen::Matrix3d::Identity() - 0.5*O + O*O/12;
    else Vi = Eigen::Matrix3d::Identity() - 0.5*O + (1 - 0.5*th*std::cos(0.5*th)/std::sin(0.5*th))/(th*th)*O*O;
    Tangent o; o.template head<3>() = (Vi*t.template cast<double>()).template cast<T>(); o.template tail<3>() = wt; return o;
  }
  static Tangent log(const SE3& g) { return g.log(); }
private: SO3<T> r; Point t;
};
typedef SO2<float> SO2f; typedef SO2<double> SO2d; typedef SE2<float> SE2f; typedef SE2<double> SE2d;
typedef SO3<float> SO3f; typedef SO3<double> SO3d; typedef SE3<float> SE3f; typedef SE3<double> SE3d;
}
#endif
