#pragma once
#include "manifold.hpp"

namespace smooth {
namespace traits {
template<typename T>
struct lie;
template<std::floating_point S>
struct lie<S> { static constexpr bool IsCommutative = true; };
template<EigenVector V>
struct lie<V> { static constexpr bool IsCommutative = true; };
}  // namespace traits

template<typename G>
concept LieGroup = Manifold<G> && requires { {traits::lie<G>::IsCommutative} -> std::convertible_to<bool>; };

template<LieGroup G>
inline constexpr bool IsCommutative = traits::lie<G>::IsCommutative;
template<LieGroup G>
using TangentMap = Eigen::Matrix<Scalar<G>, Dof<G>, Dof<G>>;
template<LieGroup G>
using Hessian = Eigen::Matrix<Scalar<G>, Dof<G>, Dof<G> * Dof<G>>;

template<LieGroup G>
PlainObject<G> Identity();
template<LieGroup G>
PlainObject<G> Random();
template<LieGroup G, LieGroup Go>
PlainObject<G> composition(const G & a, const Go & b);
template<LieGroup G>
PlainObject<G> inverse(const G & g);
template<LieGroup G>
Tangent<G> log(const G & g);
template<LieGroup G, typename D>
PlainObject<G> exp(const Eigen::MatrixBase<D> & a);
template<LieGroup G>
TangentMap<G> Ad(const G & g);
template<LieGroup G, typename D>
TangentMap<G> ad(const Eigen::MatrixBase<D> & a);
template<LieGroup G, typename D>
TangentMap<G> dr_exp(const Eigen::MatrixBase<D> & a);
template<LieGroup G, typename D>
TangentMap<G> dr_expinv(const Eigen::MatrixBase<D> & a);
template<LieGroup G, typename D>
TangentMap<G> dl_exp(const Eigen::MatrixBase<D> & a);
template<LieGroup G, typename D>
TangentMap<G> dl_expinv(const Eigen::MatrixBase<D> & a);
template<LieGroup G, typename D>
Hessian<G> d2r_exp(const Eigen::MatrixBase<D> & a);
template<LieGroup G, typename D>
Hessian<G> d2r_expinv(const Eigen::MatrixBase<D> & a);
}  // namespace smooth
