// Translation unit analysed by the checks: the PID controller on an unknown Lie group and on vectors.
#include "group.hpp"
#include <smooth/feedback/pid.hpp>
namespace sf = smooth::feedback;
using G = vf::Grp<double>;
using T = std::chrono::duration<double>;
template class sf::PID<T, G>;
template void sf::PID<T, G>::set_kp(const Eigen::MatrixBase<Eigen::Vector3d> &);
template void sf::PID<T, G>::set_kd(const Eigen::MatrixBase<Eigen::Vector3d> &);
template void sf::PID<T, G>::set_ki(const Eigen::MatrixBase<Eigen::Vector3d> &);
template void sf::PID<T, G>::set_xdes(T, const smooth::Spline<3, G> &);
template void sf::PID<T, G>::set_xdes(T, smooth::Spline<3, G> &&);
using T2 = std::chrono::time_point<std::chrono::steady_clock>;
template class sf::PID<T2, Eigen::Vector2d>;
template class sf::PID<double, Eigen::Vector2d>;
