// Translation unit analysed by the checks: instantiates the sparse matrix utilities.
#include <cassert>
#include <smooth/feedback/utils/sparse.hpp>
namespace sf = smooth::feedback;
using SC = Eigen::SparseMatrix<double>;
using SR = Eigen::SparseMatrix<double, Eigen::RowMajor>;
template<typename D, typename S> void all_(D & d, const S & s, Eigen::Index r, Eigen::Index c, double k, bool u)
{
  sf::block_add(d, r, c, s, k, u);
  sf::block_add(d, r, c, s);
  sf::block_write(d, r, c, s, k, u);
  sf::block_write(d, r, c, s);
}
template void all_<SC, SC>(SC &, const SC &, Eigen::Index, Eigen::Index, double, bool);
template void all_<SC, SR>(SC &, const SR &, Eigen::Index, Eigen::Index, double, bool);
template void all_<SR, SC>(SR &, const SC &, Eigen::Index, Eigen::Index, double, bool);
template void all_<SR, SR>(SR &, const SR &, Eigen::Index, Eigen::Index, double, bool);
template void all_<SC, Eigen::MatrixXd>(SC &, const Eigen::MatrixXd &, Eigen::Index, Eigen::Index, double, bool);
template void sf::block_add_identity<0>(SC &, Eigen::Index, Eigen::Index, Eigen::Index, double);
template void sf::block_add_identity<1>(SR &, Eigen::Index, Eigen::Index, Eigen::Index, double);
template void sf::block_write_identity<0>(SC &, Eigen::Index, Eigen::Index, Eigen::Index, double);
template void sf::block_write_identity<1>(SR &, Eigen::Index, Eigen::Index, Eigen::Index, double);
template void sf::set_zero<SC &>(SC &);
template void sf::set_zero<SR &>(SR &);
using MC = decltype(std::declval<SC &>().middleCols(0, 1));
template void sf::set_zero<MC>(MC &&);
template uint64_t sf::count_explicit_zeros<SC>(const SC &);
template uint64_t sf::count_explicit_zeros<SR>(const SR &);
template Eigen::MatrixXd sf::mark_explicit_zeros<SC>(const SC &);
template Eigen::MatrixXd sf::mark_explicit_zeros<SR>(const SR &);
template void sf::d2r_fog<SC, SC, SC, SC>(SC &, const SC &, const SC &, const SC &, const SC &, Eigen::Index, Eigen::Index);
template void sf::d2r_fog<SR, SC, SR, SC>(SC &, const SR &, const SC &, const SR &, const SC &, Eigen::Index, Eigen::Index);
// calls that leave the optional arguments out
template<typename D, typename S> void dflt_add(D & dest, const S & source, Eigen::Index row0, Eigen::Index col0) { sf::block_add(dest, row0, col0, source); }
template<typename D, typename S> void dflt_write(D & dest, const S & source, Eigen::Index row0, Eigen::Index col0) { sf::block_write(dest, row0, col0, source); }
template<typename D> void dflt_add_id(D & dest, Eigen::Index row0, Eigen::Index col0, Eigen::Index n) { sf::block_add_identity(dest, row0, col0, n); }
template<typename D> void dflt_write_id(D & dest, Eigen::Index row0, Eigen::Index col0, Eigen::Index n) { sf::block_write_identity(dest, row0, col0, n); }
inline void dflt_fog(SC & out, const SC & Jf, const SC & Hf, const SC & Jg, const SC & Hg) { sf::d2r_fog(out, Jf, Hf, Jg, Hg); }
template void dflt_add<SC, SC>(SC &, const SC &, Eigen::Index, Eigen::Index);
template void dflt_write<SC, SC>(SC &, const SC &, Eigen::Index, Eigen::Index);
template void dflt_add_id<SC>(SC &, Eigen::Index, Eigen::Index, Eigen::Index);
template void dflt_write_id<SC>(SC &, Eigen::Index, Eigen::Index, Eigen::Index);
