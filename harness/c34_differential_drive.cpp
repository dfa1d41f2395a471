// C34: differential drive kinematics agree with the geometry of rolling wheels.
#include "mon.hpp"
#include <ecl/mobile_robot.hpp>
#include <ecl/geometry/pose2d.hpp>
#include <ecl/geometry/angle.hpp>
#include <ecl/linear_algebra.hpp>
#include <cmath>
REQUIRE_OBS("wheel motions", 20000); REQUIRE_OBS("wheel rates", 20000); REQUIRE_OBS("pose differences", 20000); REQUIRE_OBS("there and back", 10000); REQUIRE_OBS("arcs followed", 300); REQUIRE_OBS("straight", 500); REQUIRE_OBS("on the spot", 500); REQUIRE_OBS("backwards", 2000); REQUIRE_OBS("more than half a turn", 1000);
typedef long double LD; typedef ecl::linear_algebra::Vector3d V3; typedef ecl::linear_algebra::Vector2d V2; typedef ecl::mobile_robot::DifferentialDriveKinematics K;
static const LD PI = 3.14159265358979323846264338327950288L;
static LD off_turn(LD a, LD b) { LD d = a - b; return std::fabs(d - 2 * PI * std::round(d / (2 * PI))); }
static LD turn(LD a) { return a - 2 * PI * std::round(a / (2 * PI)); }
static double length(mon::Rng& R) { return R.chance(1, 6) ? R.range(1, 5) : R.chance(1, 3) ? std::exp(R.uniform(-7, 5)) : R.uniform(0.02, 1); }
static double amount(mon::Rng& R) { switch (R.below(7)) { case 0: return 0; case 1: return R.range(-4, 4); case 2: return (R.flip() ? 1 : -1) * std::exp(R.uniform(-20, 6)); case 3: return R.uniform(-0.05, 0.05); case 4: return R.uniform(-200, 200); default: return R.uniform(-10, 10); } }
static V3 place(mon::Rng& R) { V3 p; double big = R.pick(std::vector<double>{1, 1, 10, 1000}); p << (R.chance(1, 6) ? 0 : R.uniform(-big, big)), (R.chance(1, 6) ? 0 : R.uniform(-big, big)), (R.chance(1, 4) ? (double)PI / 2 * R.range(-2, 2) : R.uniform(-(double)PI, (double)PI)); return p; }
static std::string s(const V3& p) { return mon::cat("(", p[0], " ", p[1], " ", p[2], ")"); } static std::string s2(const V2& p) { return mon::cat("(", p[0], " ", p[1], ")"); }
static bool wrapped(double a) { return a >= -3.14159265358979312 - 1e-15 && a <= 3.14159265358979312 + 1e-15; }

static void motion(const char* aspect, const V3& got, LD ds, LD dw, LD scale_s, LD scale_w, const std::string& in) { CHECK(std::fabs(got[0] - ds) <= 4e-16L * scale_s && got[1] == 0, aspect, in, " moves ", s(got), " want ", (double)ds); CHECK(wrapped(got[2]) && off_turn(got[2], dw) <= 4e-16L * scale_w + 2e-15L, aspect, in, " turns ", got[2], " want ", (double)turn(dw)); mon::obs("wheel motions"); if (std::fabs(dw) > PI) mon::obs("more than half a turn"); if (ds < 0) mon::obs("backwards"); }
GROUP(kinematics, 4000, 400000) {
  double axle = length(R), radius = length(R); const K k(axle, radius); std::string geo = mon::cat("axle ", axle, " wheel ", radius); for (int n = 0; n < 6; ++n) {
    double l = amount(R), r = R.chance(1, 8) ? l : R.chance(1, 8) ? -l : amount(R); std::string in = mon::cat(geo, " wheels ", l, " ", r); LD ds = (LD)radius * ((LD)l + r) / 2, dw = (LD)radius * ((LD)r - l) / axle, ss = radius * (std::fabs((LD)l) + std::fabs((LD)r)), sw = 2 * radius * (std::fabs((LD)l) + std::fabs((LD)r)) / axle; if (l == r) mon::obs("straight"); if (l == -r) mon::obs("on the spot");
    V3 u = k.poseUpdateFromWheelDifferential(l, r); motion("wheel-motion", u, ds, dw, ss, sw, in);
    // the wheels turned by that body motion
    double v = amount(R), w = amount(R); V2 rates = k.baseToWheelVelocities(v, w); in = mon::cat(geo, " body ", v, " ", w); LD rr = ((LD)v + (LD)w * axle / 2) / radius, rl = ((LD)v - (LD)w * axle / 2) / radius, sr = (2 * std::fabs((LD)v) + std::fabs((LD)w) * axle) / radius; CHECK(std::fabs(rates[0] - rl) <= 6e-16L * sr, "left-wheel", in, " gives ", rates[0], " want ", (double)rl); CHECK(std::fabs(rates[1] - rr) <= 6e-16L * sr, "right-wheel", in, " gives ", rates[1], " want ", (double)rr); mon::obs("wheel rates");
    motion("inverse", k.poseUpdateFromWheelDifferential(rates[0], rates[1]), v, w, sr * radius * 4, sr * radius / axle * 8, in + " through the wheels"); motion("body-motion", k.poseUpdateFromBaseDifferential(v, w), v, w, std::fabs(v), 4 * std::fabs(w), in); if (std::fabs(dw) < 3) { V2 back = k.baseToWheelVelocities(u[0], u[2]); LD e = 8e-16L * (std::fabs(l) + std::fabs(r)) + 4e-15L * axle / radius; CHECK(std::fabs(back[0] - l) <= e && std::fabs(back[1] - r) <= e, "inverse-of-wheels", geo, " wheels ", l, " ", r, " come back as ", s2(back)); mon::obs("there and back"); }
    // two motions add up
    double l2 = amount(R), r2 = amount(R); V3 a = k.poseUpdateFromWheelDifferential(l2, r2), sum = k.poseUpdateFromWheelDifferential(l + l2, r + r2); LD m = std::fabs(l) + std::fabs(r) + std::fabs(l2) + std::fabs(r2); CHECK(std::fabs((LD)a[0] + u[0] - sum[0]) <= 4e-15L * m * radius && off_turn((LD)a[2] + u[2], sum[2]) <= 4e-15L * m * radius / axle + 4e-15L, "adds-up", geo, " wheels ", l, " ", r, " then ", l2, " ", r2, " ", s(sum));
    mon::nontrivial(mon::hash(in)); if (n == 0) mon::sample(in); } }
// fine steps approach the circular arc
GROUP(arcs, 500, 30000) {
  double axle = R.uniform(0.05, 2), radius = R.uniform(0.01, 0.5); K k(axle, radius); double dw = R.chance(1, 5) ? 0 : R.uniform(-12, 12), ds = R.chance(1, 5) ? 0 : R.uniform(-5, 5); V2 wheels = k.baseToWheelVelocities(ds, dw); int steps = R.pick(std::vector<int>{50, 400, 3000}); V3 p = place(R), start = p; std::string in = mon::cat("axle ", axle, " wheel ", radius, " from ", s(p), " body ", ds, " ", dw, " in ", steps); bool even = R.flip(); double done = 0;
  for (int i = 1; i <= steps; ++i) { double to = i == steps ? 1 : even ? (double)i / steps : std::min(1.0, std::max(done, (i + R.uniform(-0.5, 0.5)) / steps)); V3 u = k.poseUpdateFromWheelDifferential(wheels[0] * (to - done), wheels[1] * (to - done)); done = to; if (R.flip()) ecl::extend_pose(p, u); else p = ecl::concatenate_poses(p, u); }
  LD h = start[2], x, y; if (std::fabs(dw) < 1e-9) { x = start[0] + ds * std::cos(h); y = start[1] + ds * std::sin(h); } else { LD rad = (LD)ds / dw; x = start[0] + rad * (std::sin(h + dw) - std::sin(h)); y = start[1] - rad * (std::cos(h + dw) - std::cos(h)); } LD bound = std::fabs((LD)ds) * std::fabs((LD)dw) / (even ? 2 : 1) / steps * (even ? 1.01L : 2) + 1e-11L * (1 + std::fabs(start[0]) + std::fabs(start[1]));
  CHECK(std::fabs(p[0] - x) <= bound && std::fabs(p[1] - y) <= bound, "arc", in, " ends at ", s(p), " want ", (double)x, " ", (double)y, " within ", (double)bound); CHECK(off_turn(p[2], h + dw) < 1e-11L, "arc-heading", in, " ends at ", p[2]); mon::obs("arcs followed"); mon::nontrivial(mon::hash(in)); mon::sample(in); }
GROUP(differences, 4000, 400000) {
  for (int n = 0; n < 6; ++n) { V3 a = place(R), b = R.chance(1, 8) ? a : place(R), ka = a, kb; if (R.chance(1, 5)) { a[2] += 2 * (double)PI * R.range(-3, 3); ka = a; } if (R.chance(1, 5)) b[2] += 2 * (double)PI * R.range(-3, 3); kb = b; std::string in = mon::cat(s(a), " to ", s(b)); V2 d = K::PoseToBaseDifferential(a, b); CHECK(a == ka && b == kb, "operands", in);
    LD dx = (LD)b[0] - a[0], dy = (LD)b[1] - a[1], want = sqrtl(dx * dx + dy * dy), ahead = dx * cosl(a[2]) + dy * sinl(a[2]), m = std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(b[0]) + std::fabs(b[1]); CHECK(std::fabs(std::fabs((LD)d[0]) - want) <= 4e-15L * want, "distance", in, " gives ", s2(d), " want ", (double)want); if (std::fabs(ahead) > 1e-14L * m) CHECK((d[0] < 0) == (ahead < 0), "direction", in, " gives ", s2(d)); if (ahead < 0) mon::obs("backwards"); CHECK(wrapped(d[1]) && off_turn(d[1], (LD)b[2] - a[2]) <= 2e-14L, "turn", in, " gives ", s2(d), " want ", (double)turn((LD)b[2] - a[2])); if (std::fabs(b[2] - a[2]) > PI) mon::obs("more than half a turn"); mon::obs("pose differences");
    // driving straight ahead and turning is read back as it was
    double v = amount(R), w = R.uniform(-3, 3); K k(length(R), length(R)); V3 p = place(R), q = ecl::concatenate_poses(p, k.poseUpdateFromBaseDifferential(v, w)); V2 e = K::PoseToBaseDifferential(p, q); LD big = std::fabs(p[0]) + std::fabs(p[1]) + std::fabs(v); CHECK(std::fabs(e[1] - w) < 1e-14 && (std::fabs(v) < 1e-12L * big ? std::fabs(e[0]) < 2e-12L * big : std::fabs(e[0] - v) <= 4e-15L * big), "driven", s(p), " by ", v, " ", w, " reads ", s2(e)); mon::obs("there and back");
    typedef ecl::DifferentialDrive D; V2 same = D::Kinematics::PoseToBaseDifferential(a, b); CHECK(same == d, "alias", in); mon::nontrivial(mon::hash(in)); if (n == 0) mon::sample(in); } }
