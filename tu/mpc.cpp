// Translation unit analysed by the checks: model-predictive control with unknown dynamics and constraints.
#include "group.hpp"
#include <functional>
#include <vector>
#include <smooth/feedback/mpc.hpp>
namespace sf = smooth::feedback;
namespace vf {
template<typename S>
using Vec2 = Eigen::Matrix<S, 2, 1>;
template<typename S>
using Vec3 = Eigen::Matrix<S, 3, 1>;
/// state in a group and input in R^2, or state in R^2 and input in a group
struct Dyn
{
  template<typename S>
  Vec3<S> operator()(const Grp<S> & x, const Vec2<S> & u) const;
  template<typename S>
  Vec2<S> operator()(const Vec2<S> & x, const Grp<S> & u) const;
};
struct Run
{
  template<typename S>
  Vec2<S> operator()(const Grp<S> & x, const Vec2<S> & u) const;
  template<typename S>
  Vec3<S> operator()(const Vec2<S> & x, const Grp<S> & u) const;
};
/// the same, depending on time
struct DynT : Dyn
{
  void set_time(double t);
};
struct RunT : Run
{
  void set_time(double t);
};
}  // namespace vf
using G = vf::Grp<double>;
using V = Eigen::Vector2d;
template class sf::MPC<double, G, V, vf::Dyn, vf::Run, 4, smooth::diff::Type::Numerical>;
template class sf::MPC<double, V, G, vf::Dyn, vf::Run, 4, smooth::diff::Type::Numerical>;
template class sf::MPC<double, G, V, vf::DynT, vf::RunT, 4, smooth::diff::Type::Numerical>;
