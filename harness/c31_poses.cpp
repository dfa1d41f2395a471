// C31: poses compose as rigid motions and odometry keeps its bookkeeping.
#include "mon.hpp"
#include <ecl/geometry/pose2d.hpp>
#include <ecl/geometry/legacy_pose2d.hpp>
#include <ecl/geometry/legacy_pose3d.hpp>
#include <ecl/geometry/odometry.hpp>
#include <cmath>
#include <memory>
#include <sstream>
REQUIRE_OBS("poses compared", 60000); REQUIRE_OBS("mixed storage products", 4000); REQUIRE_OBS("spatial poses compared", 20000); REQUIRE_OBS("trajectory entries compared", 20000); REQUIRE_OBS("trajectory distances", 2000); REQUIRE_OBS("pose with itself", 1000); REQUIRE_OBS("links of chains", 20000);
typedef long double LD; static const LD PI = 3.14159265358979323846264338327950288L;
static LD off_turn(LD a, LD b) { LD d = a - b; return std::fabs(d - 2 * PI * std::round(d / (2 * PI))); }
template <class T> static LD eps(); template <> LD eps<double>() { return 4e-15L; } template <> LD eps<float>() { return 2e-6L; }
struct H { LD x, y, h; };
static H mul(const H& a, const H& b) { LD c = cosl(a.h), s = sinl(a.h); return H{a.x + c * b.x - s * b.y, a.y + s * b.x + c * b.y, a.h + b.h}; }
static H inv(const H& a) { LD c = cosl(a.h), s = sinl(a.h); return H{-(c * a.x + s * a.y), -(-s * a.x + c * a.y), -a.h}; }
static LD mag(const H& a) { return std::fabs(a.x) + std::fabs(a.y) + 1e-3L; }
template <class T> static T any_heading(mon::Rng& R) { switch (R.below(6)) { case 0: return 0; case 1: return (T)(PI / 2 * R.range(-2, 2)); case 2: return (T)(PI * (R.flip() ? 1 : -1)) * (T)(1 - R.unit() * 1e-6); case 3: return (T)R.uniform(-20, 20); default: return (T)R.uniform(-(double)PI, (double)PI); } }
template <class T> static T any_coord(mon::Rng& R) { switch (R.below(5)) { case 0: return 0; case 1: return (T)R.range(-5, 5); case 2: return (T)R.uniform(-1e4, 1e4); default: return (T)R.uniform(-10, 10); } }
static std::string str(const H& p) { std::ostringstream o; o.precision(19); o << "(" << p.x << "," << p.y << "," << p.h << ")"; return o.str(); }
template <class T> static void same(const char* aspect, const H& got, const H& want, LD m, const std::string& in, LD slack = 1) {
  LD e = eps<T>() * slack; CHECK(std::fabs(got.x - want.x) <= e * m && std::fabs(got.y - want.y) <= e * m && off_turn(got.h, want.h) <= e * 8, aspect, in, " gives ", str(got), " want ", str(want)); CHECK(std::fabs(got.h) <= PI + eps<T>(), "heading-range", aspect, ": ", in, " gives ", str(got)); mon::obs("poses compared"); }

template <class T> static void plain(mon::Rng& R, const char* t) {
  typedef ecl::Pose2D<T> P; typedef ecl::linear_algebra::Matrix<T, 3, 1> V; T e[9]; for (int i = 0; i < 9; ++i) e[i] = i % 3 == 2 ? any_heading<T>(R) : any_coord<T>(R);
  H a{e[0], e[1], e[2]}, b{e[3], e[4], e[5]}; LD m = mag(a) + mag(b); std::string in = mon::cat(t, " ", str(a), " * ", str(b));
  // headings well outside one turn lose precision to the size of the heading itself
  LD slack = 1 + std::fabs(a.h) + std::fabs(b.h); H ab = mul(a, b); V va(e[0], e[1], e[2]), vb(e[3], e[4], e[5]), keep_a = va, keep_b = vb;
  V c = ecl::concatenate_poses(va, vb); same<T>("concatenate", H{c[0], c[1], c[2]}, ab, m, in, slack); CHECK(va == keep_a && vb == keep_b, "concatenate-operands", in);
  { V x = va; ecl::extend_pose(x, vb); same<T>("extend", H{x[0], x[1], x[2]}, ab, m, in, slack); CHECK(vb == keep_b, "extend-operand", in); x = va; ecl::extend_pose(x, x); same<T>("extend-by-itself", H{x[0], x[1], x[2]}, mul(a, a), m, in, slack); mon::obs("pose with itself"); }
  { P d; CHECK(d.x() == 0 && d.y() == 0 && d.heading() == 0, "default", in); const P p(e[0], e[1], e[2]), q(vb); CHECK(p.x() == e[0] && p.y() == e[1] && p.heading() == e[2], "elements", in, " reads ", p.x(), ",", p.y(), ",", p.heading()); CHECK(q.x() == e[3] && q.y() == e[4] && q.heading() == e[5], "from-vector", in);
    auto tr = p.translation(); auto rm = p.rotationMatrix(); CHECK(tr[0] == e[0] && tr[1] == e[1], "translation", in); LD cc = cosl(a.h), ss = sinl(a.h), ee = eps<T>() * slack; CHECK(std::fabs(rm(0, 0) - cc) < ee && std::fabs(rm(1, 1) - cc) < ee && std::fabs(rm(1, 0) - ss) < ee && std::fabs(rm(0, 1) + ss) < ee, "rotation-matrix", in);
    P r = p * q; same<T>("product", H{r.x(), r.y(), r.heading()}, ab, m, in, slack); CHECK(p.x() == e[0] && p.y() == e[1] && p.heading() == e[2] && q.x() == e[3] && q.heading() == e[5], "product-operands", in); P s(p); P& ref = (s *= q); CHECK(&ref == &s, "product-in-place-returns", in); same<T>("product-in-place", H{s.x(), s.y(), s.heading()}, ab, m, in, slack); s = p; s *= s; same<T>("product-with-itself", H{s.x(), s.y(), s.heading()}, mul(a, a), m, in, slack);
    P id; P l = id * p, rr = p * id; same<T>("identity-left", H{l.x(), l.y(), l.heading()}, a, m, in, slack); same<T>("identity-right", H{rr.x(), rr.y(), rr.heading()}, a, m, in, slack);
    P third(e[6], e[7], e[8]); H h3{e[6], e[7], e[8]}; P one = (p * q) * third, two = p * (q * third); LD sl = slack + std::fabs(h3.h); same<T>("associative", H{one.x(), one.y(), one.heading()}, H{two.x(), two.y(), two.heading()}, m + mag(h3), in, 4 * sl); same<T>("product-of-three", H{one.x(), one.y(), one.heading()}, mul(ab, h3), m + mag(h3), in, 4 * sl); }
  mon::nontrivial(mon::hash(in)); mon::sample(in);
}
GROUP(plain_double, 3000, 300000) { plain<double>(R, "double"); }
GROUP(plain_float, 2000, 200000) { plain<float>(R, "float"); }

using ecl::LegacyPose2D; using ecl::RotationAngleStorage; using ecl::RotationMatrixStorage; using ecl::Angle;
template <class P> static H read(const P& p) { return H{p.x(), p.y(), (LD)(typename P::Scalar)p.heading()}; }
template <class P> static bool rigid(const P& p, LD e) { auto m = p.rotationMatrix(); return std::fabs((LD)m(0, 0) * m(0, 0) + (LD)m(1, 0) * m(1, 0) - 1) < e && std::fabs((LD)m(0, 0) * m(0, 1) + (LD)m(1, 0) * m(1, 1)) < e && std::fabs((LD)m(0, 0) * m(1, 1) - (LD)m(0, 1) * m(1, 0) - 1) < e; }
template <class P> static P make(mon::Rng& R, typename P::Scalar x, typename P::Scalar y, typename P::Scalar h) {
  typedef typename P::Scalar T; typename P::Translation t(x, y); Angle<T> a(h); switch (R.below(9)) {
    case 0: return P(x, y, a); case 1: return P(a.rotationMatrix(), t); case 2: return P(a, t); case 3: { P p; p.setPose(x, y, a); return p; } case 4: { P p; p.x(x); p.y(y); p.heading(a); return p; } case 5: { P p; p.rotation(a); p.translation(x, y); return p; }
    case 6: { P p; p.rotation(typename P::RotationMatrix(a.rotationMatrix())); p.translation(t); return p; } case 7: { P p; p.rotationMatrix(a.rotationMatrix()); p.translation() = t; return p; }
    default: { P p(1, 2, Angle<T>(1)); p.rotation() = P::RotationMath::Rotation(a); p.translation()[0] = x; p.translation()[1] = y; return p; } } }
template <class P, class Q> static void legacy(mon::Rng& R, const char* t, bool mixed) {
  typedef typename P::Scalar T; H a{any_coord<T>(R), any_coord<T>(R), any_heading<T>(R)}, b{any_coord<T>(R), any_coord<T>(R), any_heading<T>(R)}, k{any_coord<T>(R), any_coord<T>(R), any_heading<T>(R)}; std::string in = mon::cat(t, " ", str(a), " * ", str(b)); LD m = mag(a) + mag(b), sl = 4 + std::fabs(a.h) + std::fabs(b.h) + std::fabs(k.h);
  P p = make<P>(R, a.x, a.y, a.h); Q q = make<Q>(R, b.x, b.y, b.h); Q r = make<Q>(R, k.x, k.y, k.h); CHECK(p.x() == (T)a.x && p.y() == (T)a.y && q.x() == (T)b.x && q.y() == (T)b.y, "coordinates", in); same<T>("construction", read(p), a, m, in, sl); same<T>("construction-other", read(q), b, m, in, sl); CHECK(rigid(p, eps<T>() * 10) && rigid(q, eps<T>() * 10), "construction-rigid", in); const P cp(p); const Q cq(q);
  { auto rm = cp.rotationMatrix(); LD ee = eps<T>() * sl; CHECK(std::fabs(rm(0, 0) - cosl(a.h)) < ee && std::fabs(rm(1, 0) - sinl(a.h)) < ee && std::fabs(rm(0, 1) + sinl(a.h)) < ee && std::fabs(rm(1, 1) - cosl(a.h)) < ee, "rotation-matrix", in); CHECK(cp.translation()[0] == (T)a.x && cp.translation()[1] == (T)a.y, "translation", in); typename P::Translation pt((T)b.x, (T)b.y); auto moved = rm * pt + cp.translation(); H want = mul(a, H{b.x, b.y, 0}); CHECK(std::fabs(moved[0] - want.x) <= eps<T>() * sl * m && std::fabs(moved[1] - want.y) <= eps<T>() * sl * m, "transform-point", in); }
  { P x(cq); same<T>("conversion", read(x), b, m, in, sl); P y(5, 6, Angle<T>(1)); P& ref = (y = cq); CHECK(&ref == &y, "assignment-returns", in); same<T>("assignment", read(y), b, m, in, sl); P z(5, 6, Angle<T>(1)); z = cp; same<T>("assignment-same", read(z), a, m, in, sl); z = z; same<T>("assignment-self", read(z), a, m, in, sl); z.setIdentity(); same<T>("set-identity", read(z), H{0, 0, 0}, 1, in); same<T>("Identity", read(P::Identity()), H{0, 0, 0}, 1, in); P d; same<T>("default", read(d), H{0, 0, 0}, 1, in); }
  P ab = cp * cq; same<T>("product", read(ab), mul(a, b), m, in, sl); CHECK(rigid(ab, eps<T>() * 10), "product-rigid", in); if (mixed) mon::obs("mixed storage products");
  { P x(cp); P& ref = (x *= cq); CHECK(&ref == &x, "product-in-place-returns", in); same<T>("product-in-place", read(x), mul(a, b), m, in, sl); x = cp; x *= x; same<T>("product-with-itself", read(x), mul(a, a), m, in, sl); mon::obs("pose with itself"); }
  { P i = cp.inverse(); same<T>("inverse", read(i), inv(a), m, in, sl); same<T>("inverse-cancels", read(cp * i), H{0, 0, 0}, m, in, sl); same<T>("inverse-cancels-left", read(i * cp), H{0, 0, 0}, m, in, sl); same<T>("inverse-twice", read(i.inverse()), a, m, in, sl); }
  { P rel = cp.relative(cq); same<T>("relative", read(rel), mul(inv(b), a), m, in, sl); same<T>("relative-restores", read(cq * rel), a, m, in, 2 * sl); P self = cp.relative(cp); same<T>("relative-to-itself", read(self), H{0, 0, 0}, m, in, sl); }
  { LD m3 = m + mag(k); same<T>("associative", read((cp * cq) * r), read(cp * (cq * r)), m3, in, 4 * sl); same<T>("product-of-three", read((cp * cq) * r), mul(mul(a, b), k), m3, in, 4 * sl); same<T>("identity-left", read(P() * cq), b, m, in, sl); same<T>("identity-right", read(cp * Q()), a, m, in, sl); }
  CHECK(read(cp).x == (T)a.x && read(cp).y == (T)a.y && read(cq).x == (T)b.x && read(cq).y == (T)b.y && read(cp).h == read(p).h && read(cq).h == read(q).h, "operands-unchanged", in);
  if (R.chance(1, 4)) { std::ostringstream o; o << cp; std::istringstream i(o.str()); std::string open, close; double x = 1e99, y = 1e99, h = 1e99; i >> open >> x >> y >> h >> close; CHECK(i && open == "[" && close == "]" && std::fabs(x - a.x) <= 0.00051 + 1e-6 * m && std::fabs(y - a.y) <= 0.00051 + 1e-6 * m && std::fabs(h - read(cp).h) <= 0.00051, "stream", in, " prints ", o.str()); }
  mon::nontrivial(mon::hash(in)); mon::sample(in);
}
template <class T> static void legacy_all(mon::Rng& R, const char* t) { typedef LegacyPose2D<T, RotationMatrixStorage> M; typedef LegacyPose2D<T, RotationAngleStorage> A; switch (R.below(4)) { case 0: legacy<M, M>(R, mon::cat(t, " matrix,matrix").c_str(), false); break; case 1: legacy<M, A>(R, mon::cat(t, " matrix,angle").c_str(), true); break; case 2: legacy<A, M>(R, mon::cat(t, " angle,matrix").c_str(), true); break; default: legacy<A, A>(R, mon::cat(t, " angle,angle").c_str(), false); } }
GROUP(legacy_double, 5000, 500000) { legacy_all<double>(R, "double"); }
GROUP(legacy_float, 4000, 400000) { legacy_all<float>(R, "float"); }
// long chains of motions: every storage form ends where the exact product does
GROUP(chains, 300, 20000) {
  typedef LegacyPose2D<double, RotationMatrixStorage> M; typedef LegacyPose2D<double, RotationAngleStorage> A; M m; A a; ecl::Pose2D<double> p(0, 0, 0); M mixed; H want{0, 0, 0}; int n = R.range(1, mon::thorough ? 2000 : 300); std::string in = mon::cat("chain of ", n); LD travelled = 1;
  for (int i = 0; i < n; ++i) { double x = R.uniform(-1, 1), y = R.uniform(-1, 1), h = any_heading<double>(R); H s{x, y, h}; M sm(x, y, Angle<double>(h)); A sa(x, y, Angle<double>(h)); bool back = R.chance(1, 5); if (back) { s = inv(s); sm = sm.inverse(); sa = sa.inverse(); } want = mul(want, s); want.h -= 2 * PI * std::round(want.h / (2 * PI)); travelled += 1.5L;
    if (R.flip()) m *= sm; else m = m * sa; if (R.flip()) a *= sa; else a = a * sm; H fs = read(sa); if (R.flip()) p *= ecl::Pose2D<double>(fs.x, fs.y, fs.h); else p = p * ecl::Pose2D<double>(fs.x, fs.y, fs.h); mon::obs("links of chains"); }
  LD sl = 4 + 4 * n; same<double>("chain-matrix", read(m), want, travelled, in, sl); same<double>("chain-angle", read(a), want, travelled, in, sl); same<double>("chain-plain", H{p.x(), p.y(), p.heading()}, want, travelled, in, sl); mon::nontrivial(mon::hash(&want.x, 8));
}

struct M4 { LD r[3][3], t[3]; };
static M4 mul(const M4& a, const M4& b) { M4 c; for (int i = 0; i < 3; ++i) { c.t[i] = a.t[i]; for (int j = 0; j < 3; ++j) { c.r[i][j] = 0; for (int k = 0; k < 3; ++k) c.r[i][j] += a.r[i][k] * b.r[k][j]; c.t[i] += a.r[i][j] * b.t[j]; } } return c; }
static M4 inv(const M4& a) { M4 c; for (int i = 0; i < 3; ++i) { c.t[i] = 0; for (int j = 0; j < 3; ++j) { c.r[i][j] = a.r[j][i]; c.t[i] -= a.r[j][i] * a.t[j]; } } return c; }
static M4 identity() { M4 c; for (int i = 0; i < 3; ++i) { c.t[i] = 0; for (int j = 0; j < 3; ++j) c.r[i][j] = i == j; } return c; }
static M4 rotation(LD x, LD y, LD z, LD th) { LD n = std::sqrt(x * x + y * y + z * z); x /= n; y /= n; z /= n; LD c = cosl(th), s = sinl(th), d = 1 - c; M4 m; LD v[3][3] = {{c + x * x * d, x * y * d - z * s, x * z * d + y * s}, {y * x * d + z * s, c + y * y * d, y * z * d - x * s}, {z * x * d - y * s, z * y * d + x * s, c + z * z * d}}; memcpy(m.r, v, sizeof v); m.t[0] = m.t[1] = m.t[2] = 0; return m; }
template <class P> static void same4(const char* aspect, const P& got, const M4& want, LD m, const std::string& in, LD sl = 1) { typedef typename P::Scalar T; LD e = eps<T>() * sl; for (int i = 0; i < 3; ++i) { CHECK(std::fabs(got.translation()[i] - want.t[i]) <= e * m, aspect, in, " translation ", i, " is ", got.translation()[i], " want ", want.t[i]); for (int j = 0; j < 3; ++j) CHECK(std::fabs(got.rotation()(i, j) - want.r[i][j]) <= e, aspect, in, " rotation ", i, ",", j, " is ", got.rotation()(i, j), " want ", want.r[i][j]); } mon::obs("spatial poses compared"); }
template <class T> static void spatial(mon::Rng& R, const char* t) {
  typedef ecl::LegacyPose3D<T> P; typedef typename P::Translation V; typedef ecl::linear_algebra::AngleAxis<T> AA; typedef ecl::linear_algebra::Quaternion<T> Q;
  auto draw = [&](M4& w) { T x = R.uniform(-1, 1), y = R.uniform(-1, 1), z = R.uniform(-1, 1), th = any_heading<T>(R); switch (R.below(6)) { case 0: x = 1; y = z = 0; break; case 1: y = 1; x = z = 0; break; case 2: z = 1; x = y = 0; break; default: if (std::fabs(x) + std::fabs(y) + std::fabs(z) < 0.1) x = 1; } V axis(x, y, z); axis.normalize(); w = rotation(axis[0], axis[1], axis[2], th); V tr(any_coord<T>(R), any_coord<T>(R), any_coord<T>(R)); for (int i = 0; i < 3; ++i) w.t[i] = tr[i]; AA aa(th, axis);
    switch (R.below(5)) { case 0: return P(aa, tr); case 1: return P(Q(aa), tr); case 2: return P(aa.toRotationMatrix(), tr); case 3: { P p; p.rotation(aa.toRotationMatrix()); p.translation(tr); return p; } default: { P p; p.rotation() = aa.toRotationMatrix(); p.translation() = tr; return p; } } };
  M4 wa, wb, wc; P a = draw(wa), b = draw(wb), c = draw(wc); LD m = 1e-3L; for (int i = 0; i < 3; ++i) m += std::fabs(wa.t[i]) + std::fabs(wb.t[i]) + std::fabs(wc.t[i]); std::string in = mon::cat(t, " spatial pose at ", a.translation()[0], ",", a.translation()[1], ",", a.translation()[2], " and ", b.translation()[0]); LD sl = 40; const P ca(a), cb(b);
  same4("construction", ca, wa, m, in, sl); same4("construction-other", cb, wb, m, in, sl); CHECK(ca.rotationMatrix() == a.rotation(), "rotation-matrix", in); same4("product", ca * cb, mul(wa, wb), m, in, sl);
  { P x(a); P& ref = (x *= cb); CHECK(&ref == &x, "product-in-place-returns", in); same4("product-in-place", x, mul(wa, wb), m, in, sl); x = ca; x *= x; same4("product-with-itself", x, mul(wa, wa), m, in, sl); mon::obs("pose with itself"); x = x; x = cb; same4("assignment", x, wb, m, in, sl); }
  P ia = ca.inverse(); same4("inverse", ia, inv(wa), m, in, sl); same4("inverse-cancels", ca * ia, identity(), m, in, sl); same4("inverse-cancels-left", ia * ca, identity(), m, in, sl); same4("inverse-twice", ia.inverse(), wa, m, in, sl); P rel = ca.relative(cb); same4("relative", rel, mul(inv(wb), wa), m, in, sl); same4("relative-restores", cb * rel, wa, m, in, 2 * sl);
  same4("product-of-three", (ca * cb) * c, mul(mul(wa, wb), wc), m, in, 3 * sl); same4("associative", ca * (cb * c), mul(mul(wa, wb), wc), m, in, 3 * sl); same4("identity", P() * ca, wa, m, in, sl); same4("identity-right", ca * P(), wa, m, in, sl); same4("default", P(), identity(), 1, in); CHECK(ca.rotation() == a.rotation() && ca.translation() == a.translation() && cb.rotation() == b.rotation() && cb.translation() == b.translation(), "operands-unchanged", in);
  { T x = any_coord<T>(R), y = any_coord<T>(R), h = any_heading<T>(R); M4 w = rotation(0, 0, 1, h); w.t[0] = x; w.t[1] = y; LegacyPose2D<T, RotationMatrixStorage> pm(x, y, Angle<T>(h)); LegacyPose2D<T, RotationAngleStorage> pa(x, y, Angle<T>(h)); LD mm = std::fabs(x) + std::fabs(y) + 1; same4("from-planar-matrix", P(pm), w, mm, in, sl); same4("from-planar-angle", P(pa), w, mm, in, sl); P s(a); P& ref = (s = pm); CHECK(&ref == &s, "assign-planar-returns", in); same4("assign-planar-matrix", s, w, mm, in, sl); s = cb; s = pa; same4("assign-planar-angle", s, w, mm, in, sl); H f{x, y, h}, g{any_coord<T>(R), any_coord<T>(R), any_heading<T>(R)}; LegacyPose2D<T> p2(g.x, g.y, Angle<T>(g.h)); H fg = mul(f, g); M4 w2 = rotation(0, 0, 1, fg.h); w2.t[0] = fg.x; w2.t[1] = fg.y; same4("planar-products-agree", P(pm * p2), w2, mm + mag(g), in, 2 * sl); same4("planar-products-agree-in-space", P(pm) * P(p2), w2, mm + mag(g), in, 2 * sl); }
  if (R.chance(1, 4)) { std::ostringstream o; o << ca; std::istringstream i(o.str()); std::string s; for (int r = 0; r < 3; ++r) { i >> s; CHECK(s == "[", "stream", in, " prints ", o.str()); for (int k = 0; k < 3; ++k) { double v = 1e99; i >> v; CHECK(std::fabs(v - ca.rotation()(r, k)) < 0.00051, "stream", in, " prints ", o.str()); } double v = 1e99; i >> s; CHECK(s == "]", "stream", o.str()); i >> s >> v; CHECK(s == "[" && std::fabs(v - ca.translation()[r]) < 0.00051 + 1e-6 * m, "stream", in, " prints ", o.str()); i >> s; CHECK(s == "]", "stream", o.str()); } }
  mon::nontrivial(mon::hash(in)); mon::sample(in);
}
GROUP(spatial_double, 1500, 150000) { spatial<double>(R, "double"); }
GROUP(spatial_float, 1000, 100000) { spatial<float>(R, "float"); }

namespace od = ecl::odometry;
static float any_float(mon::Rng& R) { switch (R.below(4)) { case 0: return R.range(-3, 3); case 1: return (float)R.uniform(-1e6, 1e6); default: return (float)R.uniform(-10, 10); } }
static bool near(LD got, LD want, LD m) { return std::fabs(got - want) <= 1e-6L * m; }
GROUP(odometry_parts, 3000, 300000) {
  od::Odom2D o, o2; od::Pose2D p, p2; od::Twist2D t; od::Position2D q; for (int i = 0; i < 6; ++i) { o[i] = any_float(R); o2[i] = any_float(R); } for (int i = 0; i < 3; ++i) { p[i] = any_float(R); p2[i] = any_float(R); t[i] = any_float(R); } for (int i = 0; i < 2; ++i) q[i] = any_float(R); const od::Odom2D keep = o; std::string in = mon::cat("odometry ", o[0], " ", o[1], " ", o[2], " ", o[3], " ", o[4], " ", o[5]);
  CHECK(od::getX(o) == o[0] && od::getY(o) == o[1] && od::getYaw(o) == o[2] && od::getVelocityX(o) == o[3] && od::getVelocityY(o) == o[4] && od::getVelocityAngular(o) == o[5], "get-odometry", in); CHECK(od::getX(p) == p[0] && od::getY(p) == p[1] && od::getYaw(p) == p[2], "get-pose", in); CHECK(od::getVelocityX(t) == t[0] && od::getVelocityY(t) == t[1] && od::getVelocityAngular(t) == t[2], "get-twist", in); CHECK(od::getX(q) == q[0] && od::getY(q) == q[1], "get-position", in);
  CHECK(od::getPose(o) == od::Pose2D(o[0], o[1], o[2]) && od::getTwist(o) == od::Twist2D(o[3], o[4], o[5]) && od::getPosition(o) == od::Position2D(o[0], o[1]) && od::getPosition(p) == od::Position2D(p[0], p[1]), "parts", in); CHECK(o == keep, "reading-changes-nothing", in);
  int n = R.range(1, 12); for (int i = 0; i < n; ++i) { float v = any_float(R); od::Odom2D mo = o; od::Pose2D mp = p; od::Twist2D mt = t; od::Position2D mq = q; int w = R.below(14); switch (w) { case 0: od::setX(o, v); mo[0] = v; break; case 1: od::setY(o, v); mo[1] = v; break; case 2: od::setYaw(o, v); mo[2] = v; break; case 3: od::setVelocityX(o, v); mo[3] = v; break; case 4: od::setVelocityY(o, v); mo[4] = v; break; case 5: od::setVelocityAngular(o, v); mo[5] = v; break; case 6: od::setX(p, v); mp[0] = v; break; case 7: od::setY(p, v); mp[1] = v; break; case 8: od::setYaw(p, v); mp[2] = v; break; case 9: od::setVelocityX(t, v); mt[0] = v; break; case 10: od::setVelocityY(t, v); mt[1] = v; break; case 11: od::setVelocityAngular(t, v); mt[2] = v; break; case 12: od::setX(q, v); mq[0] = v; break; case 13: od::setY(q, v); mq[1] = v; break; } CHECK(o == mo && p == mp && t == mt && q == mq, "set", in, " setter ", w, " to ", v); }
  { LD dx = (LD)o[0] - o2[0], dy = (LD)o[1] - o2[1], m = std::fabs(o[0]) + std::fabs(o[1]) + std::fabs(o2[0]) + std::fabs(o2[1]), d = std::sqrt(dx * dx + dy * dy); CHECK(near(od::distance(o, o2), d, m), "distance", in, " gives ", od::distance(o, o2), " want ", d); CHECK(near(od::distanceSqared(o, o2), d * d, m * m), "squared-distance", in, " gives ", od::distanceSqared(o, o2)); CHECK(near(od::distance(od::getPose(o), od::getPose(o2)), d, m) && near(od::distance(od::getPose(o), o2), d, m) && near(od::distanceSqared(od::getPose(o), od::getPose(o2)), d * d, m * m), "distance-forms-agree", in); CHECK(od::distance(o2, o) == od::distance(o, o2) && od::distance(p, p) == 0, "distance-symmetric", in); mon::obs("trajectory distances", 3); }
  mon::nontrivial(mon::hash(in)); mon::sample(in);
}
// trajectories against a list of entries
REQUIRE_OBS("great trajectories", 25); REQUIRE_OBS("distances to great trajectories", 20);
template <class Traj, class E> struct Tools; 
template <> struct Tools<od::Trajectory2D, od::Pose2D> { static constexpr int rows = 3; static const char* name() { return "poses"; } };
template <> struct Tools<od::Odom2DTrajectory, od::Odom2D> { static constexpr int rows = 6; static const char* name() { return "odometry"; } };
template <class Traj, class E> static void compare(const Traj& t, const std::vector<E>& v, const char* aspect, const std::string& in) {
  CHECK(od::size(t) == (int)v.size() && t.cols() == (int)v.size(), "size", aspect, " ", in, ": ", od::size(t), " want ", v.size()); CHECK(od::empty(t) == v.empty(), "empty", aspect, " ", in); for (size_t i = 0; i < v.size(); ++i) CHECK(od::getAt(t, i) == v[i], aspect, in, " entry ", i); if (v.size()) CHECK(od::getFront(t) == v.front() && od::getBack(t) == v.back(), "ends", aspect, " ", in); mon::obs("trajectory entries compared", v.size()); }
template <class Traj, class E> static void trajectory(mon::Rng& R) {
  auto entry = [&] { E e; for (int i = 0; i < Tools<Traj, E>::rows; ++i) e[i] = any_float(R); return e; }; auto list = [&](int n) { std::vector<E> v; while ((int)v.size() < n) v.push_back(entry()); return v; };
  const int great = R.chance(1, 300) ? 70000 : R.chance(1, 40) ? 400 : 0; if (great) mon::obs("great trajectories"); auto some = [&](int most) { return great ? R.range(great / 2, great) : R.range(0, most); }; std::vector<E> v = list(R.chance(1, 5) ? 0 : some(12)); Traj t; std::string in = Tools<Traj, E>::name(); if (R.flip()) t = od::vectorToTrajectory(v); else { auto p = od::vectorToTrajectoryPtr(v); CHECK((bool)p && od::size(p) == (int)v.size() && od::empty(p) == v.empty(), "pointer", in); compare(*p, v, "pointer", in); t = *p; decltype(p) none; CHECK(od::empty(none), "no-trajectory-is-empty", in); } compare(t, v, "from-list", in);
  int n = R.range(1, great > 1000 ? 3 : 12); for (int i = 0; i < n; ++i) switch (R.below(5)) {
    case 0: { std::vector<E> w = list(R.chance(1, 5) ? 0 : 1 + some(7)); Traj a = od::vectorToTrajectory(w); in += mon::cat(" add ", w.size()); od::addAtEnd(t, a); v.insert(v.end(), w.begin(), w.end()); compare(t, v, "add-at-end", in); compare(a, w, "addition-unchanged", in); break; }
    case 1: if (v.size() && v.size() < (great ? 3u * great : 60u)) { in += " add itself"; od::addAtEnd(t, t); std::vector<E> w = v; v.insert(v.end(), w.begin(), w.end()); compare(t, v, "add-itself", in); } break;
    case 2: if (v.size()) { int k = R.below(v.size()); in += mon::cat(" set ", k); E e = entry(); od::setAt(t, k, e); v[k] = e; compare(t, v, "set-at", in); } break;
    case 3: { int k = great ? some(0) : int(R.below(16)); in += mon::cat(" resize ", k); int before = v.size(); od::resize(t, k); CHECK(od::size(t) == k, "resize-size", in); v.resize(k); for (int j = before; j < k; ++j) { E e = entry(); od::setAt(t, j, e); v[j] = e; } compare(t, v, "resize", in); break; }
    case 4: { Traj c = t; compare(c, v, "copy", in); break; } }
  mon::nontrivial(mon::hash(in)); mon::sample(in);
}
GROUP(pose_trajectories, 1200, 100000) { trajectory<od::Trajectory2D, od::Pose2D>(R); }
GROUP(odometry_trajectories, 1200, 100000) { trajectory<od::Odom2DTrajectory, od::Odom2D>(R);
  std::vector<od::Odom2D> v; int n = R.chance(1, 300) ? R.range(60000, 70000) : R.chance(1, 40) ? R.range(200, 400) : int(R.below(15)); for (int i = 0; i < n; ++i) { od::Odom2D o; for (int j = 0; j < 6; ++j) o[j] = any_float(R); v.push_back(o); } auto t = od::vectorToTrajectory(v); od::Trajectory2D p = od::getPoses(t); od::Twist2DVector w = od::getTwists(t); CHECK(p.cols() == n && w.cols() == n, "parts-of-trajectory-size", n); for (int i = 0; i < n; ++i) CHECK(p.col(i) == v[i].head<3>() && w.col(i) == v[i].tail<3>(), "parts-of-trajectory", n, " entry ", i); }
GROUP(trajectory_distance, 2500, 200000) {
  int n = R.chance(1, 800) ? R.range(65000, 67000) : R.chance(1, 50) ? R.range(200, 400) : R.range(1, 8); if (n > 8) mon::obs("distances to great trajectories"); double sc[] = {1, 10, 1000}; double s = sc[R.below(3)]; bool grid = R.chance(1, 3); auto c = [&] { return grid ? (float)(R.range(-4, 4) * s) : (float)R.uniform(-s, s); }; std::vector<od::Pose2D> v; for (int i = 0; i < n; ++i) { od::Pose2D p(c(), c(), c()); if (i && R.chance(1, 8)) { p[0] = v[i - 1][0]; p[1] = v[i - 1][1]; } v.push_back(p); } od::Trajectory2D t = od::vectorToTrajectory(v); const od::Trajectory2D keep = t; od::Pose2D at(c(), c(), c()); if (R.chance(1, 10)) at = v[R.below(n)];
  LD best = -1; for (int i = 0; i < n; ++i) { LD x1 = v[i ? i - 1 : 0][0], y1 = v[i ? i - 1 : 0][1], x2 = v[i][0], y2 = v[i][1], dx = x2 - x1, dy = y2 - y1, l = dx * dx + dy * dy, k = l > 0 ? ((at[0] - x1) * dx + (at[1] - y1) * dy) / l : 0; k = k < 0 ? 0 : k > 1 ? 1 : k; LD ex = x1 + k * dx - at[0], ey = y1 + k * dy - at[1], d = std::sqrt(ex * ex + ey * ey); if (best < 0 || d < best) best = d; }
  std::string in = mon::cat(n, " poses, scale ", s, ", from ", at[0], ",", at[1]); double d = od::distance(at, t), e = od::distance(od::getPosition(at), t); CHECK(d == e, "distance-forms-agree", in); CHECK(std::fabs(d - best) <= 1e-6L * 4 * s, "distance-to-trajectory", in, " gives ", d, " want ", best); CHECK(t == keep, "reading-changes-nothing", in); mon::obs("trajectory distances"); mon::nontrivial(mon::hash(&d, 8)); mon::sample(in);
}
