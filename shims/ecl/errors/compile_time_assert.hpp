#ifndef VERIF_SHIM_ECL_ERRORS_CTA_HPP_
#define VERIF_SHIM_ECL_ERRORS_CTA_HPP_
#define ecl_compile_time_assert(expr) static_assert(expr, #expr)
#endif
