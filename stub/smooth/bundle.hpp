#pragma once
#include "concepts/lie_group.hpp"
namespace smooth {
template<LieGroup... Gs>
class Bundle {};
namespace traits {
template<LieGroup... Gs>
struct man<Bundle<Gs...>>
{
  using Scalar      = double;
  using PlainObject = Bundle<Gs...>;
  template<typename N>
  using CastT = Bundle<smooth::CastT<N, Gs>...>;
  static constexpr Eigen::Index Dof = (smooth::Dof<Gs> + ...);
};
template<LieGroup... Gs>
struct lie<Bundle<Gs...>> { static constexpr bool IsCommutative = (smooth::IsCommutative<Gs> && ...); };
}  // namespace traits
}  // namespace smooth
