// Interface of the smooth library (https://github.com/pettni/smooth), as far as smooth_feedback uses it.
// The library is not installed here; these declarations let the front end type-check its users.
#pragma once
#include <concepts>
#include <cstddef>
#include <functional>
#include <limits>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <Eigen/Core>

namespace smooth {
namespace traits {
template<typename T>
struct man;

template<std::floating_point S>
struct man<S>
{
  using Scalar      = S;
  using PlainObject = S;
  template<typename N>
  using CastT = N;
  static constexpr Eigen::Index Dof = 1;
};

template<typename T>
concept EigenVector = std::is_base_of_v<Eigen::MatrixBase<T>, T> && T::ColsAtCompileTime == 1;

template<EigenVector V>
struct man<V>
{
  using Scalar      = typename V::Scalar;
  using PlainObject = Eigen::Matrix<Scalar, V::RowsAtCompileTime, 1>;
  template<typename N>
  using CastT = Eigen::Matrix<N, V::RowsAtCompileTime, 1>;
  static constexpr Eigen::Index Dof = V::RowsAtCompileTime;
};
}  // namespace traits

template<typename M>
concept Manifold = requires
{
  typename traits::man<M>::Scalar;
  typename traits::man<M>::PlainObject;
  {traits::man<M>::Dof} -> std::convertible_to<Eigen::Index>;
};

template<Manifold M>
inline constexpr Eigen::Index Dof = traits::man<M>::Dof;
template<Manifold M>
using Scalar = typename traits::man<M>::Scalar;
template<Manifold M>
using PlainObject = typename traits::man<M>::PlainObject;
template<typename N, Manifold M>
using CastT = typename traits::man<M>::template CastT<N>;
template<Manifold M>
using Tangent = Eigen::Matrix<Scalar<M>, Dof<M>, 1>;
template<typename M>
concept RnType = Manifold<M> && traits::EigenVector<M>;

template<Manifold M>
PlainObject<M> Default();
template<Manifold M>
PlainObject<M> Default(Eigen::Index dof);
template<typename N, Manifold M>
CastT<N, M> cast(const M & m);
template<Manifold M>
Eigen::Index dof(const M & m);
template<Manifold M, typename D>
PlainObject<M> rplus(const M & m, const Eigen::MatrixBase<D> & a);
template<Manifold M, Manifold Mo>
Tangent<M> rminus(const M & m1, const Mo & m2);
}  // namespace smooth
