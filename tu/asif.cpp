// Translation unit analysed by the checks: the active set invariance filter for unknown dynamics, safe sets and backup controllers.
#include "group.hpp"
#include <optional>
#include <smooth/feedback/asif.hpp>
namespace sf = smooth::feedback;
namespace vf {
template<typename S>
using Vec2 = Eigen::Matrix<S, 2, 1>;
/// state in a group and input in R^2, or state in R^2 and input in a group
struct Dyn
{
  template<typename S>
  Eigen::Matrix<S, 3, 1> operator()(const Grp<S> & x, const Vec2<S> & u) const;
  template<typename S>
  Vec2<S> operator()(const Vec2<S> & x, const Grp<S> & u) const;
};
struct Safe
{
  template<typename S>
  Vec2<S> operator()(const S & t, const Grp<S> & x) const;
  template<typename S>
  Eigen::Matrix<S, 3, 1> operator()(const S & t, const Vec2<S> & x) const;
};
struct Backup
{
  template<typename S>
  Vec2<S> operator()(const S & t, const Grp<S> & x) const;
  template<typename S>
  Grp<S> operator()(const S & t, const Vec2<S> & x) const;
};
}  // namespace vf
using G = vf::Grp<double>;
using V = Eigen::Vector2d;
using QP = sf::QuadraticProgram<-1, -1, double>;
template<typename X, typename U>
void use_allocate(QP & qp, std::size_t K, std::size_t n, std::size_t nh) { sf::asif_to_qp_allocate<X, U>(qp, K, n, nh); }
template<typename X, typename U>
void use_update(QP & qp, const sf::ASIFProblem<X, U> & pbm, const sf::ASIFtoQPParams & prm, const vf::Dyn & f, const vf::Safe & h, const vf::Backup & bu)
{
  sf::asif_to_qp_update<X, U, smooth::diff::Type::Numerical>(qp, pbm, prm, f, h, bu);
}
template<typename X, typename U>
QP use_convert(const sf::ASIFProblem<X, U> & pbm, const sf::ASIFtoQPParams & prm, const vf::Dyn & f, const vf::Safe & h, const vf::Backup & bu)
{
  return sf::asif_to_qp<X, U, smooth::diff::Type::Numerical>(pbm, prm, f, h, bu);
}
template<typename X, typename U>
auto use_filter(sf::ASIFilter<X, U, vf::Dyn, smooth::diff::Type::Numerical> & f, const X & x, const U & u, const vf::Safe & h, const vf::Backup & bu)
{
  return f(x, u, h, bu);
}
template void use_allocate<G, V>(QP &, std::size_t, std::size_t, std::size_t);
template void use_allocate<V, G>(QP &, std::size_t, std::size_t, std::size_t);
template void use_update<G, V>(QP &, const sf::ASIFProblem<G, V> &, const sf::ASIFtoQPParams &, const vf::Dyn &, const vf::Safe &, const vf::Backup &);
template void use_update<V, G>(QP &, const sf::ASIFProblem<V, G> &, const sf::ASIFtoQPParams &, const vf::Dyn &, const vf::Safe &, const vf::Backup &);
template QP use_convert<G, V>(const sf::ASIFProblem<G, V> &, const sf::ASIFtoQPParams &, const vf::Dyn &, const vf::Safe &, const vf::Backup &);
template QP use_convert<V, G>(const sf::ASIFProblem<V, G> &, const sf::ASIFtoQPParams &, const vf::Dyn &, const vf::Safe &, const vf::Backup &);
template class sf::ASIFilter<G, V, vf::Dyn, smooth::diff::Type::Numerical>;
template class sf::ASIFilter<V, G, vf::Dyn, smooth::diff::Type::Numerical>;
template auto use_filter(sf::ASIFilter<G, V, vf::Dyn, smooth::diff::Type::Numerical> &, const G &, const V &, const vf::Safe &, const vf::Backup &);
template auto use_filter(sf::ASIFilter<V, G, vf::Dyn, smooth::diff::Type::Numerical> &, const V &, const G &, const vf::Safe &, const vf::Backup &);
