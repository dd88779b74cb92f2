// Translation unit analysed by the checks: an optimal control problem with unknown functions as a nonlinear program.
#include <functional>
#include <numeric>
#include <vector>
#include <Eigen/Dense>
#include <smooth/feedback/ocp_to_nlp.hpp>
namespace sf = smooth::feedback;
namespace vf {
template<typename S, int N>
using Vec = Eigen::Matrix<S, N, 1>;
/// three states, four inputs, two integrals, five running constraints, six end constraints
struct Theta
{
  template<typename S>
  S operator()(const S & tf, const Vec<S, 3> & x0, const Vec<S, 3> & xf, const Vec<S, 2> & q) const;
};
struct Dyn
{
  template<typename S>
  Vec<S, 3> operator()(const S & t, const Vec<S, 3> & x, const Vec<S, 4> & u) const;
};
struct Cost
{
  template<typename S>
  Vec<S, 2> operator()(const S & t, const Vec<S, 3> & x, const Vec<S, 4> & u) const;
};
struct Run
{
  template<typename S>
  Vec<S, 5> operator()(const S & t, const Vec<S, 3> & x, const Vec<S, 4> & u) const;
};
struct End
{
  template<typename S>
  Vec<S, 6> operator()(const S & tf, const Vec<S, 3> & x0, const Vec<S, 3> & xf, const Vec<S, 2> & q) const;
};
}  // namespace vf
#define VF_DT smooth::diff::Type::Numerical
using O = sf::OCP<Eigen::Vector3d, Eigen::Vector4d, vf::Theta, vf::Dyn, vf::Cost, vf::Run, vf::End>;
using Mesh = sf::Mesh<2, 4>;
using NLP = sf::detail::OCPNLP<O, Mesh, VF_DT>;
using Vx = Eigen::VectorXd;
using Sol = sf::OCPSolution<Eigen::Vector3d, Eigen::Vector4d, 2, 5, 6>;
NLP use_convert(const O & ocp, const Mesh & mesh) { return sf::ocp_to_nlp<VF_DT>(ocp, mesh); }
std::size_t use_n(NLP & nlp) { return nlp.n(); }
std::size_t use_m(NLP & nlp) { return nlp.m(); }
Vx use_xl(NLP & nlp) { return nlp.xl(); }
Vx use_xu(NLP & nlp) { return nlp.xu(); }
Vx use_gl(NLP & nlp) { return nlp.gl(); }
Vx use_gu(NLP & nlp) { return nlp.gu(); }
double use_f(NLP & nlp, const Vx & x) { return nlp.f(x); }
Vx use_g(NLP & nlp, const Vx & x) { return nlp.g(x); }
Eigen::SparseMatrix<double> use_df(NLP & nlp, const Vx & x) { return nlp.df_dx(x); }
Eigen::SparseMatrix<double> use_dg(NLP & nlp, const Vx & x) { return nlp.dg_dx(x); }
Eigen::SparseMatrix<double> use_d2f(NLP & nlp, const Vx & x) { return nlp.d2f_dx2(x); }
Eigen::SparseMatrix<double> use_d2g(NLP & nlp, const Vx & x, const Vx & lambda) { return nlp.d2g_dx2(x, lambda); }
auto use_solution(const O & ocp, const Mesh & mesh, const sf::NLPSolution & sol) { return sf::nlpsol_to_ocpsol(ocp, mesh, sol); }
typename O::Solution use_expected() { return typename O::Solution{}; }
sf::NLPSolution use_point(const O & ocp, const Mesh & mesh, const Sol & sol) { return sf::ocpsol_to_nlpsol(ocp, mesh, sol); }
