#pragma once
#include <array>
#include <Eigen/Sparse>
#include "concepts/lie_group.hpp"
namespace smooth {
using SpMat = Eigen::SparseMatrix<double>;
template<LieGroup G>
extern const SpMat ad_sparse_pattern;
template<LieGroup G>
extern const SpMat d_exp_sparse_pattern;
template<LieGroup G>
extern const SpMat d2_exp_sparse_pattern;
template<LieGroup G>
extern const std::array<Eigen::SparseMatrix<double, Eigen::RowMajor>, Dof<G>> generators_sparse;
template<LieGroup G, typename D>
void ad_sparse(SpMat & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0);
template<LieGroup G, bool Inv = false, typename D>
void dr_exp_sparse(SpMat & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0);
template<LieGroup G, typename D>
void dr_expinv_sparse(SpMat & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0);
template<LieGroup G, bool Inv = false, typename D>
void d2r_exp_sparse(SpMat & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0);
template<LieGroup G, typename D>
void d2r_expinv_sparse(SpMat & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0);
}  // namespace smooth
