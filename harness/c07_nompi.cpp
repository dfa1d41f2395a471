// the constants where the system headers name no pi
#include <cmath>
#undef M_PI
#include <ecl/math/constants.hpp>
void constants_without_m_pi(long double* o) { const long double v[8] = {ecl::pi, ecl::two_pi, ecl::pi_2, ecl::pi_4, ecl::pi_f, ecl::two_pi_f, ecl::pi_2_f, ecl::pi_4_f}; for (int i = 0; i < 8; ++i) o[i] = v[i]; }
