// C07: elementary mathematics agrees with its definition on all finite inputs.
#include "mon.hpp"
void constants_without_m_pi(long double*);
#include <ecl/math.hpp>
#include <cmath>
#include <cfloat>
REQUIRE_OBS("comparisons with long double reference", 500000);
REQUIRE_OBS("fuzzy pairs accepted", 2000); REQUIRE_OBS("fuzzy pairs refused", 2000);
typedef long double LD;
// a finite value of type F: any magnitude the type has, either sign, zeros, denormals, extremes
template <class F> static F finite(mon::Rng& R) {
  typedef std::numeric_limits<F> L; F v;
  switch (R.below(9)) {
    case 0: v = 0; break; case 1: v = L::max(); break; case 2: v = L::min(); break; case 3: v = L::denorm_min() * (F)R.range(1, 1000); break;
    case 4: v = (F)R.range(0, 1000); break; case 5: v = std::ldexp((F)R.unit() + 1, (int)R.range(L::min_exponent, L::max_exponent - 2)); break;
    case 6: v = (F)R.uniform(0, 1); break; case 7: { F k = (F)R.range(0, 2000); v = k * k * k; break; } default: v = (F)R.uniform(0, 1e6);
  }
  return R.flip() ? -v : v;
}
template <class F> static F in_range(mon::Rng& R, int lo, int hi) { F v = std::ldexp((F)R.unit() + 1, (int)R.range(lo, hi)); if (R.chance(1, 10)) v = 0; if (R.chance(1, 4)) v = (F)R.range(0, 50); return R.flip() ? -v : v; }
template <class T> static void signs(T x, const char* t) {
  CHECK(ecl::sign(x) == (x > 0 ? 1 : x == 0 ? 0 : -1), "sign", t, " ", +x, " gives ", ecl::sign(x));
  CHECK(ecl::psign(x) == (x >= 0 ? 1 : -1), "psign", t, " ", +x, " gives ", ecl::psign(x));
  CHECK(ecl::nsign(x) == (x > 0 ? 1 : -1), "nsign", t, " ", +x, " gives ", ecl::nsign(x)); mon::obs("signs", 3);
}
GROUP(signs_, 20000, 200000) {
  double d = finite<double>(R); float f = finite<float>(R); signs(d, "double"); signs(f, "float"); signs((LD)d * 3, "long double");
  int i = R.integer<int>(); signs(i, "int"); signs(R.integer<long>(), "long"); signs(R.integer<long long>(), "long long"); signs(R.integer<short>(), "short"); signs(R.integer<signed char>(), "signed char"); signs(R.integer<char>(), "char");
  signs(R.integer<unsigned>(), "unsigned"); signs(R.integer<unsigned long>(), "unsigned long"); signs(R.integer<unsigned char>(), "unsigned char"); signs(R.integer<unsigned short>(), "unsigned short"); signs(0, "int"); signs(0u, "unsigned"); signs(-0.0, "double"); signs(0.0f, "float");
  mon::nontrivial(mon::mix(mon::hash(&d, 8), i)); mon::sample(mon::cat("signs of ", d, " ", f, " ", i));
}
template <class F> static void cube(F x, LD tol, const char* t) {
  F got = ecl::cube_root(x); LD want = std::cbrt((LD)x); LD err = std::fabs((LD)got - want); LD lim = tol * std::fabs(want) + std::numeric_limits<F>::denorm_min();
  CHECK(std::isfinite(got) && err <= lim, "cube-root", t, " ", x, " gives ", got, " want ", want); mon::obs("comparisons with long double reference");
  if (x != 0) CHECK((got > 0) == (x > 0), "cube-root-sign", t, " ", x, " gives ", got);
  CHECK(ecl::cube_root((F)-x) == -got, "cube-root-odd", t, " ", x);
}
GROUP(cube_roots, 60000, 300000) { double d = finite<double>(R); float f = finite<float>(R); cube(d, 1e-12L, "double"); cube(f, 4e-7L, "float"); mon::nontrivial(mon::hash(&d, 8, mon::hash(&f, 4))); mon::sample(mon::cat("cube roots of ", d, " and ", f)); }
template <class F> static void norms(F a, F b, F c, LD tol, const char* t) {
  LD w2 = std::sqrt((LD)a * a + (LD)b * b), w3 = std::sqrt((LD)a * a + (LD)b * b + (LD)c * c); ecl::EuclideanNorm n;
  F g[4] = {ecl::euclidean_norm(a, b), n(a, b), ecl::euclidean_norm(a, b, c), n(a, b, c)}; const char* nm[4] = {"euclidean_norm2", "EuclideanNorm2", "euclidean_norm3", "EuclideanNorm3"};
  for (int i = 0; i < 4; ++i) { LD w = i < 2 ? w2 : w3; CHECK(std::fabs((LD)g[i] - w) <= tol * w, nm[i], t, " ", +a, " ", +b, " ", +c, " gives ", +g[i], " want ", w); mon::obs("comparisons with long double reference"); }
  CHECK(ecl::euclidean_norm(b, a) == g[0] && ecl::euclidean_norm((F)-a, b) == g[0], "norm-symmetric", t, " ", a, " ", b); CHECK(std::fabs((LD)ecl::euclidean_norm(a, b, (F)0) - w2) <= tol * w2, "norm-flat", t, " ", a, " ", b);
}
template <class I> static void inorms(I a, I b, I c, const char* t) {
  LD w2 = std::sqrt((LD)a * a + (LD)b * b), w3 = std::sqrt((LD)a * a + (LD)b * b + (LD)c * c); ecl::EuclideanNorm n;
  I g[4] = {ecl::euclidean_norm(a, b), n(a, b), ecl::euclidean_norm(a, b, c), n(a, b, c)};
  for (int i = 0; i < 4; ++i) { LD w = i < 2 ? w2 : w3; bool exact = w == std::floor(w); CHECK(exact ? (LD)g[i] == w : std::fabs((LD)g[i] - w) < 1, "norm-integral", t, " ", a, " ", b, " ", c, " (", i, ") gives ", g[i], " want ", w); mon::obs("comparisons with long double reference"); }
}
GROUP(norms_, 60000, 300000) {
  double a = in_range<double>(R, -480, 480), b = in_range<double>(R, -480, 480), c = in_range<double>(R, -480, 480); if (R.flip()) { b = a * R.uniform(-2, 2); c = a * R.uniform(-2, 2); } norms(a, b, c, 4e-15L, "double");
  float x = in_range<float>(R, -55, 55), y = in_range<float>(R, -55, 55), z = in_range<float>(R, -55, 55); if (R.flip()) { y = x * (float)R.uniform(-2, 2); z = x * (float)R.uniform(-2, 2); } norms(x, y, z, 2e-6L, "float");
  norms<LD>(a, b, c, 4e-15L, "long double");
  inorms<int>(R.range(-20000, 20000), R.range(-20000, 20000), R.range(-20000, 20000), "int"); inorms<int>(R.range(-12, 12), R.range(-12, 12), R.range(-12, 12), "int"); inorms<long>(R.range(-100000000, 100000000), R.range(-100000000, 100000000), R.range(-100000000, 100000000), "long");
  { int m = R.range(2, 60), n = R.range(1, m - 1), k = R.range(1, 4); inorms<int>(k * (m * m - n * n), k * 2 * m * n, 0, "int"); }
  mon::nontrivial(mon::hash(&a, 8, mon::hash(&b, 8))); mon::sample(mon::cat("norms of ", a, " ", b, " ", c));
}
// want: 1 certainly near, 0 certainly not, -1 too close to the threshold to say
static int near_(LD x, LD y, LD prec) { LD d = std::fabs(x - y), lim = std::min(std::fabs(x), std::fabs(y)) * prec; LD slack = 1e-6L * lim + 3e-7L * 0; if (d == 0) return 1; if (d <= lim - slack) return 1; if (d >= lim + slack) return 0; return -1; }
template <class F, class G> static void fuzzy(F x, G y, F prec, bool dflt, LD ulp, const char* t) {
  LD yy = (LD)(F)y; int w = near_(x, yy, prec); LD lim = std::min(std::fabs((LD)x), std::fabs(yy)) * prec; if (std::fabs(std::fabs((LD)x - yy) - lim) <= 4 * ulp * std::fabs((LD)x) + std::numeric_limits<F>::denorm_min() * 4 && (LD)x != yy) w = -1;
  if ((LD)x == yy) w = 1; bool got = dflt ? ecl::isApprox(x, y) : ecl::isApprox(x, y, prec); bool le = dflt ? ecl::isApproxOrLessThan(x, y) : ecl::isApproxOrLessThan(x, y, prec);
  if (w >= 0) { CHECK(got == (w == 1), "is-approx", t, " ", x, " ", +y, " prec ", prec, dflt ? " (default)" : "", " gives ", got); CHECK(le == (x <= y || w == 1), "approx-or-less", t, " ", x, " ", +y, " prec ", prec, " gives ", le); mon::obs(w ? "fuzzy pairs accepted" : "fuzzy pairs refused"); mon::obs("comparisons with long double reference", 2); }
}
template <class F> static void fuzzy_all(mon::Rng& R, LD ulp, F defprec, const char* t) {
  F x = finite<F>(R), y; F prec = R.flip() ? defprec : (F)std::pow(10.0, -(double)R.range(1, sizeof(F) == 4 ? 5 : 14)); if (R.chance(1, 12)) prec = 0; bool dflt = R.chance(1, 3); if (dflt) prec = defprec;
  switch (R.below(5)) { case 0: y = x; break; case 1: y = finite<F>(R); break; case 2: y = -x; break; case 3: y = x + x * prec * (F)R.uniform(-0.9, 0.9); break; default: y = x + x * prec * (F)R.uniform(-4, 4); }
  if (!std::isfinite(y)) y = x;
  fuzzy(x, y, prec, dflt, ulp, t); fuzzy(y, x, prec, dflt, ulp, t);
  bool a = ecl::isApprox(x, y, prec), b = ecl::isApprox(y, x, prec); CHECK(a == b, "approx-symmetric", t, " ", x, " ", y, " ", prec); CHECK(ecl::isApprox(x, x) && ecl::isApprox(x, x, prec), "approx-reflexive", t, " ", x);
  if (std::fabs(x) > 1e-10 && std::fabs(y) > 1e-10 && std::fabs(x) < 1e10 && std::fabs(y) < 1e10) { F s = std::ldexp((F)1, (int)R.range(-20, 20)); CHECK(ecl::isApprox(x * s, y * s, prec) == a, "approx-scales", t, " ", x, " ", y, " by ", s); }
}
GROUP(fuzzy_, 80000, 400000) {
  mon::Rng K = R; fuzzy_all<double>(R, DBL_EPSILON, 1e-12, "double"); fuzzy_all<float>(R, FLT_EPSILON, 1e-5f, "float");
  // mixed and integral arguments
  { int k = R.range(-100000, 100000); double d = k + (R.flip() ? 0 : R.uniform(-1, 1) * (R.flip() ? 1e-3 : 1e-9)); fuzzy<double, int>(d, k, 1e-5, false, DBL_EPSILON, "double/int"); fuzzy<double, int>(d, k, 1e-12, true, DBL_EPSILON, "double/int");
    int w = near_(k, d, 1e-12L); if (w >= 0 && std::fabs(std::fabs(k - d) - 1e-12 * std::min(std::fabs((double)k), std::fabs(d))) > 4e-16 * std::fabs(d)) CHECK(ecl::isApprox(k, d) == (w == 1), "is-approx", "int/double ", k, " ", d);
    float p = 1e-4f; w = near_(k, d, (LD)p); if (w >= 0 && std::fabs(std::fabs(k - d) - p * std::min(std::fabs((double)k), std::fabs(d))) > 1e-10 * std::fabs(d)) CHECK(ecl::isApprox(k, d, p) == (w == 1), "is-approx", "int/double ", k, " ", d, " prec 1e-4");
    CHECK(ecl::isApproxOrLessThan(k, d) == (k <= d), "approx-or-less", "int/double ", k, " ", d); int z = R.chance(1, 4) ? 0 : k; CHECK(ecl::isApprox(z, (double)z) && ecl::isApprox(z, (double)z, 1e-4f) && ecl::isApprox(z, (float)(z % 65536 == z ? z : 0)) == (z % 65536 == z), "is-approx", "int/double equal ", z); }
  { int i = R.integer<int>(), j = R.flip() ? i : R.integer<int>(); CHECK(ecl::isApprox(i, j) == (i == j), "is-approx", "int ", i, " ", j); CHECK(ecl::isApproxOrLessThan(i, j) == (i <= j), "approx-or-less", "int ", i, " ", j);
    long l = R.integer<long>(), m = R.flip() ? l : R.integer<long>(); CHECK(ecl::isApprox(l, m) == (l == m), "is-approx", "long ", l, " ", m); CHECK(ecl::isApproxOrLessThan(l, m) == (l <= m), "approx-or-less", "long ", l, " ", m); CHECK(ecl::isApprox(i, (long)i) && ecl::isApprox((long)i, i) && ecl::isApprox(l, i) == (l == i), "is-approx", "mixed ", i, " ", l);
    short s = R.integer<short>(), r = R.flip() ? s : R.integer<short>(); CHECK(ecl::isApprox(s, r) == (s == r), "is-approx", "short ", s, " ", r); char c = R.integer<char>(), e = R.integer<char>(); CHECK(ecl::isApprox(c, e) == (c == e), "is-approx", "char ", +c, " ", +e); CHECK(ecl::isApproxOrLessThan(c, e) == (c <= e), "approx-or-less", "char ", +c, " ", +e); }
  uint64_t id = K.next(); mon::nontrivial(id); mon::sample(mon::cat("fuzzy comparisons of stream ", id));
}
GROUP(constants, 1, 1) {
  const LD PI = acosl(-1.0L); struct { const char* n; LD got, want, tol; } t[] = {{"pi", ecl::pi, PI, 3e-16L}, {"two_pi", ecl::two_pi, 2 * PI, 3e-16L}, {"pi_2", ecl::pi_2, PI / 2, 3e-16L}, {"pi_4", ecl::pi_4, PI / 4, 3e-16L}, {"pi_f", ecl::pi_f, PI, 1.3e-7L}, {"two_pi_f", ecl::two_pi_f, 2 * PI, 1.3e-7L}, {"pi_2_f", ecl::pi_2_f, PI / 2, 1.3e-7L}, {"pi_4_f", ecl::pi_4_f, PI / 4, 1.3e-7L}};
  { long double o[8]; constants_without_m_pi(o); for (int i = 0; i < 8; ++i) CHECK(o[i] == t[i].got || std::fabs(o[i] - t[i].want) <= t[i].tol * t[i].want, "constant", t[i].n, " where the system names no pi is ", o[i]); }
  for (auto& k : t) { CHECK(std::fabs(k.got - k.want) <= k.tol * k.want, "constant", k.n, " is ", k.got); mon::obs("comparisons with long double reference"); }
  CHECK((std::is_same<decltype(ecl::pi_f), const float>::value && std::is_same<decltype(ecl::pi), const double>::value), "constant-type", "pi");
  mon::nontrivial(8); mon::sample("eight constants");
}
