#ifndef VERIF_SHIM_ECL_CONFIG_MACROS_HPP_
#define VERIF_SHIM_ECL_CONFIG_MACROS_HPP_
#include <ecl/config/ecl.hpp>
#define ECL_HELPER_IMPORT __attribute__((visibility("default")))
#define ECL_HELPER_EXPORT __attribute__((visibility("default")))
#define ECL_HELPER_LOCAL __attribute__((visibility("hidden")))
#define ECL_HELPERS_LOCAL ECL_HELPER_LOCAL
#define ECL_PUBLIC __attribute__((visibility("default")))
#define ECL_LOCAL
#define ECL_DONT_INLINE __attribute__((noinline))
#define ECL_UNUSED __attribute__((unused))
#define ECL_FORCE_INLINE __attribute__((always_inline))
#define ECL_DEPRECATED __attribute__((deprecated))
#endif
