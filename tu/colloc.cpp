// Translation unit analysed by the checks: evaluation of functions, integrals and dynamics on a collocation mesh.
#include "group.hpp"
#include <vector>
#include <smooth/feedback/collocation/dyn_error.hpp>
#include <smooth/feedback/collocation/mesh_function.hpp>
namespace sf = smooth::feedback;
namespace vf {
template<typename S>
using Vec2 = Eigen::Matrix<S, 2, 1>;
template<typename S>
using Vec3 = Eigen::Matrix<S, 3, 1>;
/// a function of time, state and input
struct Fun
{
  template<typename S>
  Vec2<S> operator()(const S & t, const Vec2<S> & x, const Vec3<S> & u) const;
};
}  // namespace vf
using X = Eigen::Vector2d;
using U = Eigen::Vector3d;
using Mesh = sf::Mesh<2, 4>;
using Xs = std::vector<X>;
using Us = std::vector<U>;
#define VF_DT smooth::diff::Type::Numerical
template<uint8_t K>
void use_eval(sf::MeshValue<K> & out, const Mesh & m, vf::Fun & f, double t0, double tf, const Xs & xs, const Us & us, bool scale) { sf::mesh_eval<K, VF_DT>(out, m, f, t0, tf, xs, us, scale); }
template<uint8_t K>
void use_integrate(sf::MeshValue<K> & out, const Mesh & m, vf::Fun & f, double t0, double tf, const Xs & xs, const Us & us) { sf::mesh_integrate<K, VF_DT>(out, m, f, t0, tf, xs, us); }
template<uint8_t K>
void use_dyn(sf::MeshValue<K> & out, const Mesh & m, vf::Fun & f, double t0, double tf, const Xs & xs, const Us & us) { sf::mesh_dyn<K, VF_DT>(out, m, f, t0, tf, xs, us); }
struct XFun { X operator()(double t) const; };
struct UFun { U operator()(double t) const; };
Eigen::VectorXd use_error(vf::Fun & f, const Mesh & m, double t0, double tf, const XFun & x, const UFun & u) { return sf::mesh_dyn_error(f, m, t0, tf, x, u); }
#define VF_USE(K) \
  template void use_eval<K>(sf::MeshValue<K> &, const Mesh &, vf::Fun &, double, double, const Xs &, const Us &, bool); \
  template void use_integrate<K>(sf::MeshValue<K> &, const Mesh &, vf::Fun &, double, double, const Xs &, const Us &); \
  template void use_dyn<K>(sf::MeshValue<K> &, const Mesh &, vf::Fun &, double, double, const Xs &, const Us &);
VF_USE(0)
VF_USE(1)
VF_USE(2)
