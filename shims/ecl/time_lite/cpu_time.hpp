#ifndef VERIF_SHIM_TIME_LITE_CPU_TIME_HPP_
#define VERIF_SHIM_TIME_LITE_CPU_TIME_HPP_
#include "functions.hpp"
#endif
