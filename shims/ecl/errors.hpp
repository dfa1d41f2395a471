#ifndef VERIF_SHIM_ECL_ERRORS_HPP_
#define VERIF_SHIM_ECL_ERRORS_HPP_
#include <ecl/errors/handlers.hpp>
#include <ecl/errors/macros.hpp>
#include <ecl/errors/compile_time_assert.hpp>
#include <ecl/errors/run_time_assert.hpp>
#endif
