// Stand-in for the ecl_config package (absent here): linux/posix, static libraries, exceptions on.
#ifndef VERIF_SHIM_ECL_CONFIG_ECL_HPP_
#define VERIF_SHIM_ECL_CONFIG_ECL_HPP_
#include <unistd.h>
#define ECL_IS_POSIX
#define ECL_HAS_POSIX_THREADS
#ifndef ECL_CXX11_FOUND
#define ECL_CXX11_FOUND
#endif
#define ECL_SIZE_OF_CHAR 1
#define ECL_SIZE_OF_SHORT 2
#define ECL_SIZE_OF_INT 4
#define ECL_SIZE_OF_LONG 8
#define ECL_SIZE_OF_LONG_LONG 8
#define ECL_SIZE_OF_FLOAT 4
#define ECL_SIZE_OF_DOUBLE 8
#define ECL_SIZE_OF_LONG_DOUBLE 16
#define ECL_CHAR_IS_SIGNED 1
#define ECL_IS_64BIT
#include <ecl/config/macros.hpp>
#endif
