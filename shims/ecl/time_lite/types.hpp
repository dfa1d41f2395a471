#ifndef VERIF_SHIM_TIME_LITE_TYPES_HPP_
#define VERIF_SHIM_TIME_LITE_TYPES_HPP_
#include <time.h>
#include "config.hpp"
namespace ecl { typedef timespec TimeStructure; }
#endif
