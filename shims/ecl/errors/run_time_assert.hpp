#ifndef VERIF_SHIM_ECL_ERRORS_RTA_HPP_
#define VERIF_SHIM_ECL_ERRORS_RTA_HPP_
#include <cassert>
#define ecl_run_time_assert(expr) assert(expr)
#define ecl_run_time_abort(expr) assert(expr)
#endif
