// Translation unit analysed by the checks: instantiates the QP solver for the three shapes of
// problem it supports (dense dynamic, dense static, sparse).
#include <smooth/feedback/qp.hpp>
#include <smooth/feedback/qp_solver.hpp>
namespace sf = smooth::feedback;
using PD = sf::QuadraticProgram<-1, -1, double>;
using PS = sf::QuadraticProgram<7, 5, double>;
using PP = sf::QuadraticProgramSparse<double>;
template class sf::QPSolver<PD>;
template class sf::QPSolver<PS>;
template class sf::QPSolver<PP>;
template auto sf::solve_qp<PD>(const PD &, const sf::QPSolverParams &, std::optional<std::reference_wrapper<const sf::detail::qp_solution_t<PD>>>) -> sf::detail::qp_solution_t<PD>;
template auto sf::solve_qp<PS>(const PS &, const sf::QPSolverParams &, std::optional<std::reference_wrapper<const sf::detail::qp_solution_t<PS>>>) -> sf::detail::qp_solution_t<PS>;
template auto sf::solve_qp<PP>(const PP &, const sf::QPSolverParams &, std::optional<std::reference_wrapper<const sf::detail::qp_solution_t<PP>>>) -> sf::detail::qp_solution_t<PP>;
// copies and moves of a solver
template<typename S> void copies(S & a, const S & b) { S c(b); a = b; S d(std::move(c)); a = std::move(d); }
template void copies<sf::QPSolver<PD>>(sf::QPSolver<PD> &, const sf::QPSolver<PD> &);
template void copies<sf::QPSolver<PS>>(sf::QPSolver<PS> &, const sf::QPSolver<PS> &);
template void copies<sf::QPSolver<PP>>(sf::QPSolver<PP> &, const sf::QPSolver<PP> &);
