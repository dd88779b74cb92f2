#pragma once
#include <array>
#include <cstddef>
#include <utility>
#include <Eigen/Core>
namespace smooth {
template<std::size_t K, std::size_t I = 8>
constexpr std::pair<std::array<double, K>, std::array<double, K>> lgr_nodes() { return {}; }

template<typename S, std::size_t R, std::size_t C>
struct StaticMatrix : public std::array<std::array<S, C>, R>
{
  template<std::size_t NR, std::size_t NC>
  constexpr StaticMatrix<S, NR, NC> block(std::size_t, std::size_t) const { return {}; }
  template<std::size_t C2>
  constexpr StaticMatrix<S, R, C2> operator*(const StaticMatrix<S, C, C2> &) const { return {}; }
};
/// coefficients of the Lagrange polynomials through K + 1 points
template<std::size_t K>
constexpr StaticMatrix<double, K + 1, K + 1> lagrange_basis(const std::array<double, K + 1> &) { return {}; }
/// derivatives of basis functions at N points
template<std::size_t K, std::size_t N>
constexpr StaticMatrix<double, K + 1, N> polynomial_basis_derivatives(const StaticMatrix<double, K + 1, K + 1> &, const std::array<double, N> &) { return {}; }
/// derivatives of the monomials 1, u, ..., u^K
template<std::size_t K, typename S>
constexpr StaticMatrix<S, 1, K + 1> monomial_derivative(S, std::size_t) { return {}; }
}  // namespace smooth
