#ifndef ECL_EIGEN_HPP_
#define ECL_EIGEN_HPP_
#define ECL_EIGEN_IS_EXTERNAL
#endif
