// A non-commutative three-dimensional Lie group about which nothing is known but its dimension.
#pragma once
#include <smooth/concepts/lie_group.hpp>
namespace vf {
template<typename S>
class Grp
{
public:
  using Scalar = S;
  Grp();
  Grp(const Grp &);
  Grp(Grp &&);
  Grp & operator=(const Grp &);
  Grp & operator=(Grp &&);
  Grp operator*(const Grp &) const;
  Grp inverse() const;
  Eigen::Matrix<S, 3, 1> log() const;
  template<typename D>
  Grp operator+(const Eigen::MatrixBase<D> &) const;
  template<typename D>
  Grp & operator+=(const Eigen::MatrixBase<D> &);
  Eigen::Matrix<S, 3, 1> operator-(const Grp &) const;
  bool isApprox(const Grp &, double eps = 1e-9) const;
  template<typename N>
  Grp<N> cast() const;
  // used by the steppers of Boost only (x = 1 * x + dt * dx)
  friend Grp operator*(double a, const Grp & g) { return a == 1 ? g : g * g; }
};
}  // namespace vf
namespace smooth::traits {
template<typename S>
struct man<vf::Grp<S>>
{
  using Scalar      = S;
  using PlainObject = vf::Grp<S>;
  template<typename N>
  using CastT = vf::Grp<N>;
  static constexpr Eigen::Index Dof = 3;
};
template<typename S>
struct lie<vf::Grp<S>> { static constexpr bool IsCommutative = false; };
}  // namespace smooth::traits
