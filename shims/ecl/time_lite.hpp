#ifndef VERIF_SHIM_TIME_LITE_HPP_
#define VERIF_SHIM_TIME_LITE_HPP_
#include "time_lite/functions.hpp"
#endif
