// C33: manipulator trajectories honour their way points and limits.
#include "mon.hpp"
#include <ecl/linear_algebra.hpp>
#include <ecl/manipulators/waypoint.hpp>
#include <ecl/manipulators/trajectory.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <algorithm>
#include <cmath>
#include <memory>
#include <sstream>
REQUIRE_OBS("tension trajectories", 250); REQUIRE_OBS("linear trajectories", 250); REQUIRE_OBS("samples within limits", 50000); REQUIRE_OBS("way points passed", 1000); REQUIRE_OBS("segments followed", 300); REQUIRE_OBS("durations stretched", 100); REQUIRE_OBS("moving ends", 100); REQUIRE_OBS("refusals", 1500); REQUIRE_OBS("way points compared", 2000); REQUIRE_OBS("several joints", 100);
typedef ecl::WayPoint<ecl::JointAngles> W; typedef ecl::Trajectory<ecl::JointAngles> T;
template <class F> static bool refused(F f) { mon::obs("refusals"); try { f(); } catch (const ecl::StandardException&) { return true; } catch (const ecl::DataException<int>&) { return true; } return false; }
static std::string list(const std::vector<double>& v) { std::string s = "["; for (double x : v) s += mon::cat(s.size() > 1 ? " " : "", x); return s + "]"; }
struct Plan { unsigned dim, n; std::vector<std::vector<double>> angle, nominal; std::vector<double> duration, limit, start, finish; bool start_set, finish_set; };
static Plan draw(mon::Rng& R, unsigned least, bool great = false) {
  Plan p; p.dim = R.chance(1, 25) ? R.range(9, 40) : R.chance(1, 3) ? 1 : R.range(1, 4); p.n = least + (great ? R.range(10, 40) : R.flip() ? 0 : R.below(5)); if (p.dim > 8) mon::obs("many joints"); if (p.n > 14) mon::obs("many way points"); bool grid = R.chance(1, 3); double reach = R.pick(std::vector<double>{1, 3, 3, 0.1}); for (unsigned i = 0; i < p.n; ++i) { std::vector<double> a, r; bool still = i && R.chance(1, 10); for (unsigned j = 0; j < p.dim; ++j) { a.push_back(still || (i && R.chance(1, 8)) ? p.angle[i - 1][j] : grid ? R.range(-3, 3) : R.uniform(-reach, reach)); r.push_back(R.chance(1, 4) ? 1.0 : R.uniform(0.2, 3)); } p.angle.push_back(a); p.nominal.push_back(r); double d = R.chance(1, 3) ? R.uniform(0.05, 4) : 0; if (i) { bool moved = false; for (unsigned j = 0; j < p.dim; ++j) if (p.angle[i][j] != p.angle[i - 1][j]) moved = true; if (!moved && p.duration[i - 1] == 0) p.duration[i - 1] = R.uniform(0.1, 2); } p.duration.push_back(d); }
  for (unsigned j = 0; j < p.dim; ++j) { p.limit.push_back(R.chance(1, 3) ? 5 : R.uniform(0.3, 12)); p.start.push_back(R.chance(1, 3) ? 0 : R.uniform(-1, 1)); p.finish.push_back(R.chance(1, 3) ? 0 : R.uniform(-1, 1)); } p.start_set = R.chance(1, 3); p.finish_set = R.chance(1, 3); if (p.n > 14) { /* gentle, as quintics in absolute time lose accuracy when the whole is long and a part is short */ for (unsigned i = 0; i < p.n; ++i) { p.duration[i] = R.uniform(0.5, 1); for (double& a : p.angle[i]) a *= 0.1; for (double& r : p.nominal[i]) r += 1; } for (unsigned j = 0; j < p.dim; ++j) { p.limit[j] = R.uniform(8, 12); p.start[j] *= 0.3; p.finish[j] *= 0.3; } } return p; }
static std::string text(const Plan& p) { std::string s; for (unsigned i = 0; i < p.n; ++i) s += mon::cat(i ? " -> " : "", list(p.angle[i]), p.duration[i] ? mon::cat(" for ", p.duration[i]) : std::string()); s += " limits " + list(p.limit); if (p.start_set) s += " from rates " + list(p.start); if (p.finish_set) s += " to rates " + list(p.finish); return s; }
static W way(const Plan& p, unsigned i) { W w(p.dim); for (unsigned j = 0; j < p.dim; ++j) { w.angles()[j] = p.angle[i][j]; w.nominalRates()[j] = p.nominal[i][j]; } if (p.duration[i]) w.duration(p.duration[i]); if (i == 0 && p.start_set) for (unsigned j = 0; j < p.dim; ++j) w.rates()[j] = p.start[j]; if (i == p.n - 1 && p.finish_set) for (unsigned j = 0; j < p.dim; ++j) w.rates()[j] = p.finish[j]; return w; }
static void load(T& t, const Plan& p) { for (unsigned i = 0; i < p.n; ++i) { t.append(way(p, i)); CHECK(t.size() == i + 1, "size", t.size()); } for (unsigned j = 0; j < p.dim; ++j) t.maxAccelerations()[j] = p.limit[j]; }
REQUIRE_OBS("many joints", 15); REQUIRE_OBS("many way points", 8);
// the steepest disagreement between f and the integral of g in [a, b], looked for by halving
template <class F, class G> static double mismatch(F f, G g, double a, double b, double* h) { for (int k = 0; k < 34; ++k) { double m = (a + b) / 2; auto res = [&](double l, double r) { return std::fabs(f(r) - f(l) - (r - l) / 6 * (g(l) + 4 * g((l + r) / 2) + g(r))); }; if (b - a < 1e-8 * (1 + b)) break; if (res(a, m) > res(m, b)) b = m; else a = m; } *h = b - a; return std::fabs(f(b) - f(a)); }
static void common(T& t, const Plan& p, const std::string& in, std::vector<double>& dur) {
  double total = t.duration(); CHECK(total > 0 && std::isfinite(total), "duration", in, " is ", total); double least = 1e9; for (unsigned i = 0; i + 1 < p.n; ++i) least = std::min(least, t.waypoint(i).duration()); if (p.finish_set) for (unsigned j = 0; j < p.dim; ++j) if (p.finish[j] != 0) least = std::min(least, std::fabs(p.finish[j] / p.limit[j])); const double fuzz = 1e-4 + 1e-11 * std::pow(total, 5) + 1e-14 * std::pow(total / least, 5); /* quintics in absolute time round off like this */ dur.clear(); bool stretched = false;
  for (unsigned i = 0; i < p.n; ++i) { const W& w = t.waypoint(i); dur.push_back(w.duration()); for (unsigned j = 0; j < p.dim; ++j) CHECK(w.angles()[j] == p.angle[i][j], "way-points-kept", in, " way point ", i); if (i + 1 < p.n) { CHECK(dur[i] >= p.duration[i], "shorter-than-asked", in, " segment ", i, " takes ", dur[i]); if (p.duration[i] && dur[i] > p.duration[i] * 1.0001) stretched = true; for (unsigned j = 0; j < p.dim; ++j) CHECK(std::fabs(p.angle[i + 1][j] - p.angle[i][j]) <= p.nominal[i][j] * dur[i] * (1 + 1e-12), "faster-than-rate", in, " segment ", i, " joint ", j, " takes ", dur[i]); } }
  if (stretched) mon::obs("durations stretched"); if (p.start_set || p.finish_set) mon::obs("moving ends"); if (p.dim > 1) mon::obs("several joints");
  for (unsigned j = 0; j < p.dim; ++j) {
    double lim = std::fabs(p.limit[j]); auto pos = [&](double x) { return t(j, x); }; auto vel = [&](double x) { return t.derivative(j, x); }; auto acc = [&](double x) { return t.dderivative(j, x); }; double r0 = p.start_set ? p.start[j] : 0, r1 = p.finish_set ? p.finish[j] : 0, vmax = 1;
    CHECK(std::fabs(pos(0) - p.angle[0][j]) < 1e-7, "start", in, " joint ", j, " starts at ", pos(0)); CHECK(std::fabs(pos(total) - p.angle[p.n - 1][j]) < 1e-6 + fuzz, "finish", in, " joint ", j, " ends at ", pos(total), " want ", p.angle[p.n - 1][j]); CHECK(std::fabs(vel(0) - r0) < 1e-7, "start-rate", in, " joint ", j, " starts with rate ", vel(0), " want ", r0); CHECK(std::fabs(vel(total) - r1) < 1e-5 + fuzz, "finish-rate", in, " joint ", j, " ends with rate ", vel(total), " want ", r1); CHECK(std::fabs(acc(0)) < 1e-6 * lim && std::fabs(acc(total)) < 1e-4 * lim + fuzz, "end-acceleration", in, " joint ", j, " ", acc(0), " ", acc(total));
    std::vector<double> at; for (int k = 1; k <= 120; ++k) at.push_back(total * k / 120); double e0 = std::min(total, 1.5 * dur[0]), e1 = std::min(total, 1.5 * dur[p.n - 2]); for (int k = 1; k < 40; ++k) { at.push_back(e0 * k / 40); at.push_back(total - e1 * k / 40); } std::sort(at.begin(), at.end()); at.back() = total; double x0 = 0, pp = pos(0), vv = vel(0), aa = acc(0); for (double x1 : at) { if (x1 - x0 < 1e-9 * total) continue; double xm = (x0 + x1) / 2, p1 = pos(x1), v1 = vel(x1), a1 = acc(x1), vm = vel(xm), am = acc(xm), h = x1 - x0; vmax = std::max(vmax, std::fabs(v1)); CHECK(std::fabs(a1) <= lim * (1 + 1e-6) + 1e-9 && std::fabs(am) <= lim * (1 + 1e-6) + 1e-9, "acceleration-limit", in, " joint ", j, " at ", x1, " of ", total, " accelerates by ", a1, " ", am, " limit ", lim); mon::obs("samples within limits", 2);
      CHECK(std::fabs(v1 - vv) <= lim * h * (1 + 1e-6) + 1e-9 + fuzz, "velocity-jumps", in, " joint ", j, " near ", x1, " from ", vv, " to ", v1); if (std::fabs(v1 - vv - h / 6 * (aa + 4 * am + a1)) > 1e-7 * vmax) { double w, d = mismatch(vel, acc, x0, x1, &w); CHECK(d <= lim * w * 1.01 + 1e-6 * vmax + fuzz, "velocity-continuous", in, " joint ", j, " near ", x1, " of ", total, " jumps by ", d); } if (std::fabs(p1 - pp - h / 6 * (vv + 4 * vm + v1)) > 1e-7) { double w, d = mismatch(pos, vel, x0, x1, &w); CHECK(d <= vmax * 2 * w + 1e-6 + fuzz, "continuous", in, " joint ", j, " near ", x1, " of ", total, " jumps by ", d); }
      x0 = x1; pp = p1; vv = v1; aa = a1; } }
}
// the moment the second way point is due, counted from the first: some guesses, then a search
template <class F> static double best(F off, const std::vector<double>& guess, double lo, double hi) { double x = guess[0], v = 1e300; auto use = [&](double g) { if (g < lo || g > hi) return; double o = off(g); if (o < v) { v = o; x = g; } }; for (double g : guess) { use(g); if (v < 1e-7) return x; } for (int i = 0; i <= 400; ++i) use(lo + (hi - lo) * i / 400); double s = (hi - lo) / 400; for (int i = 0; i < 60; ++i) { use(x - s); use(x + s); s *= 0.6; } return x; }
static void tension(T& t, const Plan& p, double tau, const std::string& what) {
  std::string in = mon::cat(what, " tension ", tau, " ", text(p)); std::vector<double> d; common(t, p, in, d); double total = t.duration(), sum = 0; for (unsigned i = 0; i + 1 < p.n; ++i) sum += d[i]; double slack = total - sum; CHECK(slack > 0 && slack <= 0.5 * (d[0] + d[p.n - 2]) * (1 + 1e-9) + 1e-9, "duration-matches", in, " is ", total, " for segments of ", sum);
  auto off = [&](double t0) { double worst = 0, x = t0; for (unsigned i = 1; i + 1 < p.n; ++i) { x += d[i - 1]; if (x > total) return 1e9; for (unsigned j = 0; j < p.dim; ++j) worst = std::max(worst, std::fabs(t(j, x) - p.angle[i][j])); } return worst; };
  std::vector<double> g; for (int i = 1; i <= 5; ++i) g.push_back(i * d[0] / 10); double t0 = best(off, g, 0, std::min(slack, d[0])); CHECK(off(t0) < (p.n > 14 ? 1e-4 : 1e-6), "passes-way-points", in, " misses them by ", off(t0), " starting at ", t0, " of ", slack); mon::obs("way points passed", p.n); for (unsigned i = 1; i + 1 < p.n; ++i) { t0 += d[i - 1]; for (unsigned j = 0; j < p.dim; ++j) CHECK(std::fabs(t.dderivative(j, t0)) <= p.limit[j] * (1 + 1e-6), "acceleration-limit-at-way-point", in, " joint ", j, " at ", t0, " accelerates by ", t.dderivative(j, t0)); } mon::obs("tension trajectories"); }
static void linear(T& t, const Plan& p, const std::string& what) {
  std::string in = mon::cat(what, " linear ", text(p)); std::vector<double> d; common(t, p, in, d); double total = t.duration(), sum = 0; for (unsigned i = 0; i + 1 < p.n; ++i) sum += d[i]; CHECK(total >= sum * (1 - 1e-12) && total <= sum + 2.1 * (d[0] + d[p.n - 2]), "duration-matches", in, " is ", total, " for segments of ", sum);
  if (p.n >= 4) { auto off = [&](double t0) { double worst = 0, x = t0; for (unsigned i = 1; i + 2 < p.n; ++i) { x += d[i - 1]; double m = x + d[i] / 2; if (m > total) return 1e9; for (unsigned j = 0; j < p.dim; ++j) { worst = std::max(worst, std::fabs(t(j, m) - (p.angle[i][j] + p.angle[i + 1][j]) / 2)); worst = std::max(worst, d[i] * std::fabs(t.derivative(j, m) - (p.angle[i + 1][j] - p.angle[i][j]) / d[i])); } } return worst; };
    std::vector<double> g; for (double k = 0.001; k < 2.2 * d[0]; k *= 2) g.push_back(k); if (g.empty()) g.push_back(0.001); double t0 = best(off, g, 0, total - sum); CHECK(off(t0) < 1e-5, "follows-segments", in, " misses them by ", off(t0)); mon::obs("segments followed", p.n - 3);
    double x = t0; for (unsigned i = 1; i + 1 < p.n; ++i) { x += d[i - 1]; for (unsigned j = 0; j < p.dim; ++j) { double s0 = (p.angle[i][j] - p.angle[i - 1][j]) / d[i - 1], s1 = (p.angle[i + 1][j] - p.angle[i][j]) / d[i]; if (i == 1 || i + 2 == p.n) continue; CHECK(std::fabs(t(j, x) - p.angle[i][j]) <= std::fabs(s1 - s0) * std::max(d[i - 1], d[i]) / 4 + 1e-7, "close-to-way-points", in, " way point ", i, " joint ", j, " is at ", t(j, x)); } } mon::obs("way points passed", p.n - 2); }
  mon::obs("linear trajectories"); }
static void edges(T& t, const Plan& p, const std::string& in) { double total = t.duration(); for (unsigned j = 0; j < p.dim; ++j) { CHECK(refused([&] { t(j, -1e-3); }) && refused([&] { t.derivative(j, -5); }) && refused([&] { t.dderivative(j, -1); }), "before-the-start", in); CHECK(refused([&] { t(j, total + 1e-3); }) && refused([&] { t.derivative(j, total + 1e-3); }) && refused([&] { t.dderivative(j, total * 2 + 1); }), "after-the-end", in); } unsigned bad = p.dim; CHECK(refused([&] { t(bad, 0); }) && refused([&] { t.derivative(bad, 0); }) && refused([&] { t.dderivative(bad, 0); }), "no-such-joint", in); CHECK(refused([&] { t.waypoint(p.n); }), "no-such-way-point", in); }
static void unread(T& t, unsigned dim, const std::string& in) { CHECK(t.duration() == 0, "duration", in, " before anything was computed: ", t.duration()); for (unsigned j = 0; j < dim; ++j) CHECK(refused([&] { t(j, 0); }) && refused([&] { t.derivative(j, 0); }) && refused([&] { t.dderivative(j, 0); }), "not-interpolated", in); CHECK(t.duration() == 0, "no-duration", in, " ", t.duration()); }

GROUP_OPT(tension_splines, 300, 20000, "hang=30") { Plan p = draw(R, 5, R.chance(1, 15)); double tau = R.pick(std::vector<double>{0.5, 1, 2, 4, 4, 8, 20}); T t(p.dim, "arm"); CHECK(t.dimension() == p.dim && t.size() == 0 && t.name() == "arm", "new", t.dimension()); load(t, p); mon::sample(text(p)); t.tensionSplineInterpolation(tau); tension(t, p, tau, "one"); edges(t, p, text(p)); mon::nontrivial(mon::hash(text(p))); }
GROUP_OPT(linear_splines, 300, 20000, "hang=30") { Plan p = draw(R, 2); T t(p.dim); load(t, p); mon::sample(text(p)); t.linearSplineInterpolation(); linear(t, p, "one"); edges(t, p, text(p)); mon::nontrivial(mon::hash(text(p))); }
// the same object used again and again, without losing or keeping memory
GROUP_OPT(histories, 60, 3000, "hang=60") {
  for (const char* o : {"tension trajectories", "linear trajectories", "samples within limits", "way points passed", "segments followed", "durations stretched", "moving ends", "refusals", "several joints", "many joints", "many way points"}) mon::obs(o, 0); { T warm(1); W w(1); w.nominalRates(1); try { warm.append(W(2)); } catch (const ecl::StandardException&) {} } std::string in; in.reserve(1 << 16); auto history = [&]() { T t; unsigned dim = 0; int n = R.range(2, 4); for (int k = 0; k < n; ++k) { Plan p = draw(R, 5); if (k == 0 || R.flip()) { t.redimension(p.dim); dim = p.dim; in += " redimension"; } else { t.clear(); in += " clear"; p = draw(R, 5); if (p.dim != dim) { t.redimension(p.dim); dim = p.dim; } } CHECK(t.size() == 0 && t.dimension() == dim, "emptied", in, " ", t.size(), " ", t.dimension()); unread(t, dim, in); load(t, p);
      int m = R.range(1, 3); for (int i = 0; i < m; ++i) { if (R.flip()) { double tau = R.pick(std::vector<double>{1, 4, 8}); in += " tension"; t.tensionSplineInterpolation(tau); tension(t, p, tau, in); } else { in += " linear"; t.linearSplineInterpolation(); linear(t, p, in); } } } }; static bool warm = false; if (!warm) { history(); in.clear(); warm = true; } long before = mon::live_blocks(); { history(); } long left = mon::live_blocks() - before; CHECK(left == 0, "memory", in, " keeps ", left); mon::nontrivial(mon::hash(in, mon::hash(&left, sizeof left))); }
GROUP_OPT(refusing, 400, 20000, "hang=30") {
  Plan p = draw(R, 5); std::string in; int why = R.below(8); bool lin = R.flip(); T t(p.dim); unread(t, p.dim, "new"); { T bare; CHECK(bare.duration() == 0 && bare.size() == 0, "duration", "of a trajectory without dimension"); bare.redimension(p.dim); unread(bare, p.dim, "without dimension"); } switch (why) {
    case 0: { unsigned k = R.below(lin ? 2 : 5); p.n = k; in = mon::cat("only ", k, " way points"); break; }
    case 1: { unsigned i = R.below(p.n - 1), j = R.below(p.dim); p.nominal[i][j] = R.flip() ? 0 : -R.uniform(0.1, 2); in = mon::cat("nominal rate ", p.nominal[i][j], " at ", i); break; }
    case 2: { unsigned j = R.below(p.dim); p.limit[j] = 0; in = mon::cat("no acceleration limit for joint ", j); break; }
    case 3: { unsigned i = R.below(p.n - 1); p.angle[i + 1] = p.angle[i]; p.duration[i] = 0; in = mon::cat("no time for segment ", i); break; }
    case 4: { unsigned i = R.below(p.n - 1); p.angle[i + 1] = p.angle[i]; p.duration[i] = -R.uniform(0.1, 3); in = mon::cat("time ", p.duration[i], " for segment ", i); break; }
    case 5: { unsigned d = p.dim + (p.dim > 1 && R.flip() ? -1 : 1); in = "dimension mismatch"; t.append(way(p, 0)); CHECK(refused([&] { t.append(W(d)); }), "mismatch-refused", in); CHECK(t.size() == 1, "mismatch-appended", in); unread(t, p.dim, in); return; }
    case 6: { in = "no joints"; T e; CHECK(e.size() == 0 && e.dimension() == 0 && refused([&] { if (lin) e.linearSplineInterpolation(); else e.tensionSplineInterpolation(1); }) && refused([&] { e.waypoint(0); }) && refused([&] { e(0, 0); }), "empty-refused", in); return; }
    case 7: { in = "limits not set"; T u(p.dim); for (unsigned i = 0; i < p.n; ++i) u.append(way(p, i)); for (unsigned j = 0; j < p.dim; ++j) CHECK(u.maxAccelerations()[j] == 0, "limits-default", in); CHECK(refused([&] { if (lin) u.linearSplineInterpolation(); else u.tensionSplineInterpolation(1); }), "limits-refused", in); unread(u, p.dim, in); return; } }
  if (p.n) load(t, p); else for (unsigned j = 0; j < p.dim; ++j) t.maxAccelerations()[j] = 5; CHECK(refused([&] { if (lin) t.linearSplineInterpolation(); else t.tensionSplineInterpolation(2); }), "refused", in, lin ? " linear" : " tension"); unread(t, p.dim, in); mon::nontrivial(mon::hash(in)); mon::sample(in); }
GROUP(way_points, 600, 40000) {
  unsigned n = R.chance(1, 20) ? R.range(30, 300) : R.range(1, 6); auto v = [&] { std::vector<double> x; for (unsigned i = 0; i < n; ++i) x.push_back(R.flip() ? R.range(-9, 9) : R.uniform(-9, 9)); return x; }; W w(n); const W& c = w; std::string in = mon::cat(n, " joints"); auto is = [&](const ecl::Array<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (unsigned i = 0; i < b.size(); ++i) if (a[i] != b[i]) return false; return true; }; std::vector<double> zero(n, 0.0), one(n, 1.0), a = zero, r = zero, k = zero, m = one; double d = 0; std::string name; bool rs = false, as = false;
  auto all = [&](W& x, const char* where) { const W& y = x; CHECK(is(y.angles(), a) && is(y.rates(), r) && is(y.accelerations(), k) && is(x.nominalRates(), m), where, in, " angles ", y.angles(), " want ", list(a)); CHECK(y.duration() == d && y.name() == name && y.rates_configured() == rs && y.accelerations_configured() == as && y.dimension() == n, where, in, " duration ", y.duration(), " want ", d); mon::obs("way points compared"); };
  all(w, "new"); for (int step = R.range(1, 8); step--;) switch (R.below(8)) { case 0: a = v(); for (unsigned i = 0; i < n; ++i) w.angles()[i] = a[i]; all(w, "angles"); break; case 1: r = v(); rs = true; for (unsigned i = 0; i < n; ++i) w.rates()[i] = r[i]; all(w, "rates"); break; case 2: k = v(); as = true; for (unsigned i = 0; i < n; ++i) w.accelerations()[i] = k[i]; all(w, "accelerations"); break; case 3: m = v(); for (unsigned i = 0; i < n; ++i) w.nominalRates()[i] = m[i]; all(w, "nominal-rates"); break; case 4: m.assign(n, R.uniform(0, 5)); w.nominalRates(m[0]); all(w, "one-nominal-rate"); break; case 5: d = R.uniform(0, 9); w.duration(d); all(w, "duration"); break; case 6: name = mon::cat("way ", R.below(100)); w.name(name); all(w, "name"); break; case 7: CHECK(is(c.rates(), r) && is(c.accelerations(), k), "reading", in); all(w, "reading-changes-nothing"); break; }
  { W copy(w); all(copy, "copy"); W other(R.range(1, 6)); other = w; all(other, "assignment"); W none; none = w; all(none, "assignment-to-empty"); other.angles()[0] += 1; all(w, "independent"); CHECK(copy == w && !(copy != w) && !(other == w) && other != w, "equality", in); unsigned q = R.below(n); W nudge(w); nudge.angles()[q] += 0.005; CHECK(nudge.approx(w) && !(nudge == w) && nudge != w && !nudge.approx(w, 0.001), "approx", in); nudge.angles()[q] += 0.1; CHECK(!nudge.approx(w), "approx-far", in, " joint ", q); nudge.angles()[q] -= 0.3; CHECK(!nudge.approx(w) && nudge != w && !(nudge == w), "approx-below", in, " joint ", q); W longer(n + 1); for (unsigned i = 0; i < n; ++i) longer.angles()[i] = a[i]; CHECK(!(longer == w) && longer != w && !(w == longer) && w != longer && !longer.approx(w) && !w.approx(longer), "other-dimension", in); }
  { std::ostringstream o; o << w; std::string s = o.str(); auto row = [&](const char* title, const std::vector<double>& want) { size_t at = s.find(title); if (at == std::string::npos) return false; at = s.find(':', at); std::string line = s.substr(at + 1, s.find('\n', at) - at - 1); for (char& ch : line) if (!strchr("0123456789.-+e", ch)) ch = ' '; std::istringstream i(line); for (double x : want) { double g; if (!(i >> g) || std::fabs(g - x) > 0.0051) return false; } double extra; return !(i >> extra); }; CHECK(row("Angles", a) && row("Nominal Rates", m), "stream", in, " prints ", s); CHECK((s.find("  Rates") != std::string::npos) == rs && (s.find("  Accelerations") != std::string::npos) == as && (!rs || row("  Rates", r)) && (!as || row("  Accelerations", k)), "stream-optional", in, " prints ", s); CHECK((s.find("Name") != std::string::npos) == !name.empty() && (name.empty() || s.find(name) != std::string::npos), "stream-name", in, " prints ", s); all(w, "streaming-changes-nothing"); }
  { unsigned old = n; CHECK(refused([&] { c.angles()[old]; }), "index-refused", in); W z(w); n = R.range(1, 6); z.redimension(n); CHECK(z.dimension() == n && is(z.angles(), std::vector<double>(n, 0.0)), "redimension", in, " to ", n); W e; CHECK(e.dimension() == 0 && e.duration() == 0 && e.name() == "" && !e.rates_configured() && !e.accelerations_configured(), "default", in); }
  { T t(w.dimension()); t.append(w); CHECK(t.last() == w && t.size() == 1 && t.waypoint(0) == w, "append", in); const T& ct = t; CHECK(ct.last() == w, "last", in); t.last().angles()[0] += 2; CHECK(t.waypoint(0).angles()[0] == a[0] + 2 && w.angles()[0] == a[0], "last-is-a-handle", in); t.maxAccelerations(3.5); for (unsigned i = 0; i < t.dimension(); ++i) CHECK(ct.maxAccelerations()[i] == 3.5, "one-limit", in); std::ostringstream o; o << t; CHECK(o.str().find("Waypoint 0") != std::string::npos, "stream-trajectory", o.str()); }
  mon::nontrivial(mon::hash(list(a) + list(r) + list(m))); mon::sample(in); }
