#ifndef VERIF_PYBIND11_EIGEN_H_
#define VERIF_PYBIND11_EIGEN_H_

#include <pybind11/pybind11.h>

#include <Eigen/Core>

namespace pybind11 {

template <typename S, int R, int C, int O, int MR, int MC>
struct IsEigen<Eigen::Matrix<S, R, C, O, MR, MC>> : std::true_type {};
template <typename S, int R, int C, int O, int MR, int MC>
struct IsEigen<Eigen::Array<S, R, C, O, MR, MC>> : std::true_type {};

template <typename M>
struct Load<Eigen::Ref<const M>> {
  using Type = M;
  static M get(const Any& a) {
    if (const auto* p = std::any_cast<M>(&a)) return *p;
    throw no_match();
  }
};
template <typename M>
struct Load<Eigen::Ref<M>> : Load<Eigen::Ref<const M>> {};

}  // namespace pybind11

#endif  // VERIF_PYBIND11_EIGEN_H_
