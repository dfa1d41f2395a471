// What cmake generates from config.hpp.in on linux.
#ifndef ECL_FILESYSTEM_CONFIG_HPP_
#define ECL_FILESYSTEM_CONFIG_HPP_
#include <ecl/config/ecl.hpp>
#define ECL_PRIVATE_HAS_POSIX_REALPATH
#endif
