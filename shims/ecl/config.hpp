#ifndef VERIF_SHIM_ECL_CONFIG_HPP_
#define VERIF_SHIM_ECL_CONFIG_HPP_
#include <ecl/config/ecl.hpp>
#include <ecl/config/macros.hpp>
#include <ecl/config/portable_types.hpp>
#endif
