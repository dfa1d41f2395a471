#ifndef VERIF_SHIM_LA_SPARSE_HPP_
#define VERIF_SHIM_LA_SPARSE_HPP_
#include <Eigen/Sparse>
#endif
