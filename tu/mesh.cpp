// Translation unit analysed by the checks: the collocation mesh itself.
#include "group.hpp"
#include <vector>
#include <smooth/feedback/collocation/mesh.hpp>
namespace sf = smooth::feedback;
using Mesh = sf::Mesh<2, 4>;
template class sf::Mesh<2, 4>;
using Xs = std::vector<Eigen::VectorXd>;
using Es = std::vector<double>;
Eigen::VectorXd use_eval(const Mesh & m, double t, const Xs & xs, std::size_t p, bool extend) { return m.eval<Eigen::VectorXd>(t, xs, p, extend); }
void use_errors(Mesh & m, const Es & errs, double target) { m.refine_errors(errs, target); }
auto use_nodes(const Mesh & m, std::size_t i) { return m.interval_nodes(i); }
auto use_weights(const Mesh & m, std::size_t i) { return m.interval_weights(i); }
auto use_all_nodes(const Mesh & m) { return m.all_nodes(); }
auto use_all_weights(const Mesh & m) { return m.all_weights(); }
