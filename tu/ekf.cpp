// Translation unit analysed by the checks: the extended Kalman filter on an unknown Lie group and on vectors.
#include "group.hpp"
#include <boost/numeric/odeint.hpp>
#include <smooth/feedback/ekf.hpp>
namespace sf = smooth::feedback;
namespace vf {
/// unknown dynamics and measurements
struct Dyn
{
  template<typename S>
  Eigen::Matrix<S, 3, 1> operator()(const S & t, const Grp<S> & x) const;
  template<typename S>
  Eigen::Matrix<S, 2, 1> operator()(const S & t, const Eigen::Matrix<S, 2, 1> & x) const;
};
struct Meas
{
  template<typename S>
  Eigen::Matrix<S, 2, 1> operator()(const Grp<S> & x) const;
  template<typename S>
  Eigen::Matrix<S, 3, 1> operator()(const Eigen::Matrix<S, 2, 1> & x) const;
};
struct MeasG
{
  template<typename S>
  Grp<S> operator()(const Grp<S> & x) const;
};
}  // namespace vf
using G = vf::Grp<double>;
using V = Eigen::Vector2d;
template class sf::EKF<G>;
template void sf::EKF<G>::predict(vf::Dyn &&, const Eigen::MatrixBase<Eigen::Matrix3d> &, double, std::optional<double>);
template void sf::EKF<G>::update(vf::Meas &&, const Eigen::Vector2d &, const Eigen::MatrixBase<Eigen::Matrix2d> &);
template void sf::EKF<G>::update(vf::MeasG &&, const G &, const Eigen::MatrixBase<Eigen::Matrix3d> &);
template class sf::EKF<V>;
template void sf::EKF<V>::predict(vf::Dyn &&, const Eigen::MatrixBase<Eigen::Matrix2d> &, double, std::optional<double>);
template void sf::EKF<V>::update(vf::Meas &&, const Eigen::Vector3d &, const Eigen::MatrixBase<Eigen::Matrix3d> &);
sf::EKF<G> initial_group;
sf::EKF<V> initial_vectors;
