#ifndef VERIF_SHIM_TIME_LITE_CONFIG_HPP_
#define VERIF_SHIM_TIME_LITE_CONFIG_HPP_
#include <ecl/config/ecl.hpp>
#define ECL_HAS_RT_TIMERS
#define ECL_HAS_CLOCK_GETTIME
#define ECL_HAS_MONOTONIC_CLOCK
#define ECL_HAS_CLOCK_NANOSLEEP
#define ECL_HAS_CPUTIME
#endif
