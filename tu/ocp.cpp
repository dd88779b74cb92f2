// Translation unit analysed by the checks: an optimal control problem with unknown functions as a quadratic program.
#include "group.hpp"
#include <functional>
#include <vector>
#include <smooth/feedback/ocp_to_qp.hpp>
namespace sf = smooth::feedback;
namespace vf {
template<typename S>
using Vec1 = Eigen::Matrix<S, 1, 1>;
template<typename S>
using Vec2 = Eigen::Matrix<S, 2, 1>;
template<typename S>
using Vec3 = Eigen::Matrix<S, 3, 1>;
/// state in a group and input in R^2, or state in R^2 and input in a group
struct Theta
{
  template<typename S>
  S operator()(const S & tf, const Grp<S> & x0, const Grp<S> & xf, const Vec1<S> & q) const;
  template<typename S>
  S operator()(const S & tf, const Vec2<S> & x0, const Vec2<S> & xf, const Vec1<S> & q) const;
};
struct Dyn
{
  template<typename S>
  Vec3<S> operator()(const S & t, const Grp<S> & x, const Vec2<S> & u) const;
  template<typename S>
  Vec2<S> operator()(const S & t, const Vec2<S> & x, const Grp<S> & u) const;
};
struct Cost
{
  template<typename S>
  Vec1<S> operator()(const S & t, const Grp<S> & x, const Vec2<S> & u) const;
  template<typename S>
  Vec1<S> operator()(const S & t, const Vec2<S> & x, const Grp<S> & u) const;
};
struct Run
{
  template<typename S>
  Vec2<S> operator()(const S & t, const Grp<S> & x, const Vec2<S> & u) const;
  template<typename S>
  Vec3<S> operator()(const S & t, const Vec2<S> & x, const Grp<S> & u) const;
};
struct End
{
  template<typename S>
  Vec3<S> operator()(const S & tf, const Grp<S> & x0, const Grp<S> & xf, const Vec1<S> & q) const;
  template<typename S>
  Vec2<S> operator()(const S & tf, const Vec2<S> & x0, const Vec2<S> & xf, const Vec1<S> & q) const;
};
/// linearization trajectories
template<template<typename> typename T>
struct Traj
{
  template<typename S>
  T<S> operator()(const S & t) const;
};
}  // namespace vf
using G = vf::Grp<double>;
using V = Eigen::Vector2d;
using Mesh = sf::Mesh<2, 4>;
using QP = sf::QuadraticProgramSparse<double>;
using Sol = sf::QPSolution<-1, -1, double>;
template<typename X, typename U>
using Ocp = sf::OCP<X, U, vf::Theta, vf::Dyn, vf::Cost, vf::Run, vf::End>;
#define VF_DT smooth::diff::Type::Numerical
template<typename O>
void use_allocate(QP & qp, sf::detail::OcpToQpWorkmemory & work, O & ocp, const Mesh & mesh) { sf::detail::ocp_to_qp_allocate<VF_DT>(qp, work, ocp, mesh); }
template<typename O, typename XL, typename UL>
void use_update(QP & qp, sf::detail::OcpToQpWorkmemory & work, O & ocp, const Mesh & mesh, double tf, const XL & xl, const UL & ul)
{
  sf::detail::ocp_to_qp_update<VF_DT>(qp, work, ocp, mesh, tf, xl, ul);
}
template<typename O, typename XL, typename UL>
QP use_convert(const O & ocp, const Mesh & mesh, double tf, const XL & xl, const UL & ul) { return sf::ocp_to_qp<VF_DT>(ocp, mesh, tf, xl, ul); }
template<typename O, typename XL, typename UL>
auto use_solution(const O & ocp, const Mesh & mesh, const Sol & sol, double tf, const XL & xl, const UL & ul) { return sf::qpsol_to_ocpsol(ocp, mesh, sol, tf, xl, ul); }
/// the type of a solution of a problem
template<typename O>
typename O::Solution use_expected(const O & ocp) { (void)ocp; return typename O::Solution{}; }
using O1 = Ocp<G, V>;
using O2 = Ocp<V, G>;
using TG = vf::Traj<vf::Grp>;
using TV = vf::Traj<vf::Vec2>;
template void use_allocate(QP &, sf::detail::OcpToQpWorkmemory &, O1 &, const Mesh &);
template void use_allocate(QP &, sf::detail::OcpToQpWorkmemory &, O2 &, const Mesh &);
template void use_update(QP &, sf::detail::OcpToQpWorkmemory &, O1 &, const Mesh &, double, const TG &, const TV &);
template void use_update(QP &, sf::detail::OcpToQpWorkmemory &, O2 &, const Mesh &, double, const TV &, const TG &);
template QP use_convert(const O1 &, const Mesh &, double, const TG &, const TV &);
template QP use_convert(const O2 &, const Mesh &, double, const TV &, const TG &);
template auto use_solution(const O1 &, const Mesh &, const Sol &, double, const TG &, const TV &);
template auto use_solution(const O2 &, const Mesh &, const Sol &, double, const TV &, const TG &);
template typename O1::Solution use_expected(const O1 &);
template typename O2::Solution use_expected(const O2 &);
