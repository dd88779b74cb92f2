// Translation unit analysed by the checks: the Ipopt adapter for a problem whose functions are unknown.
#include <algorithm>
#include <cassert>
#include <string>
#include <vector>
#include <smooth/feedback/compat/ipopt.hpp>
namespace sf = smooth::feedback;
using V = Eigen::VectorXd;
using SC = Eigen::SparseMatrix<double>;
using SR = Eigen::SparseMatrix<double, Eigen::RowMajor>;
using R = const Eigen::Ref<const Eigen::VectorXd> &;
#define PROBLEM(S)                \
  std::size_t n() const;            \
  std::size_t m() const;            \
  V xl() const;                     \
  V xu() const;                     \
  V gl() const;                     \
  V gu() const;                     \
  double f(R x) const;              \
  S df_dx(R x) const;               \
  V g(R x) const;                   \
  S dg_dx(R x) const;
struct UNlp { PROBLEM(SC) };        // first derivatives only
struct URNlp { PROBLEM(SR) };       // stored by rows
struct UHNlp                        // with Hessians
{
  PROBLEM(SC)
  SC d2f_dx2(R x) const;
  SC d2g_dx2(R x, R lambda) const;
};
static_assert(sf::NLP<UNlp> && !sf::HessianNLP<UNlp> && sf::HessianNLP<UHNlp>);
template class sf::IpoptNLP<UNlp>;
template class sf::IpoptNLP<UHNlp>;
template class sf::IpoptNLP<URNlp>;
#define OPTS std::optional<sf::NLPSolution>, std::vector<std::pair<std::string, int>>, std::vector<std::pair<std::string, std::string>>, std::vector<std::pair<std::string, double>>
template sf::NLPSolution sf::solve_nlp_ipopt(UNlp &, OPTS);
template sf::NLPSolution sf::solve_nlp_ipopt(UHNlp &, OPTS);
