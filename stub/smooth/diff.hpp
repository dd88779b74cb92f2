#pragma once
#include "concepts/lie_group.hpp"

namespace smooth {
template<typename... Args>
auto wrt(Args &&... args) { return std::forward_as_tuple(std::forward<Args>(args)...); }

namespace diff {
enum class Type { Numerical, Autodiff, Ceres, Analytic, Default };

namespace detail {
template<typename F, typename Tuple>
struct order;
template<typename F, typename... A>
struct order<F, std::tuple<A...>>
{
  static constexpr bool first  = requires(F & f, const A &... a) { f.jacobian(a...); };
  static constexpr bool second = requires(F & f, const A &... a) { f.hessian(a...); };
};
template<typename F, typename Tuple>
concept diffable_order1 = order<std::decay_t<F>, Tuple>::first;
template<typename F, typename Tuple>
concept diffable_order2 = order<std::decay_t<F>, Tuple>::second;

template<typename R>
R make();
template<std::size_t K, Type D, typename F, typename Tuple>
struct result;
template<std::size_t K, Type D, typename F, typename... A>
struct result<K, D, F, std::tuple<A...>>
{
  using R                  = PlainObject<std::decay_t<std::invoke_result_t<F &, A...>>>;
  static constexpr int Nx  = (Dof<std::decay_t<A>> + ...);
  static constexpr int Ny  = Dof<R>;
  static constexpr bool an = D == Type::Analytic || D == Type::Default;
  static auto jac()
  {
    if constexpr (an && diffable_order1<F, std::tuple<std::decay_t<A>...>>) {
      return make<std::decay_t<F> &>().jacobian(make<A>()...);
    } else {
      return Eigen::Matrix<Scalar<R>, Ny, Nx>{};
    }
  }
  static auto hess()
  {
    if constexpr (an && diffable_order2<F, std::tuple<std::decay_t<A>...>>) {
      return make<std::decay_t<F> &>().hessian(make<A>()...);
    } else {
      return Eigen::Matrix<Scalar<R>, Nx, (Ny == -1 ? -1 : Ny * Nx)>{};
    }
  }
  static auto all()
  {
    if constexpr (K == 0) {
      return std::make_tuple(make<R>());
    } else if constexpr (K == 1) {
      return std::make_pair(make<R>(), jac());
    } else {
      return std::make_tuple(make<R>(), jac(), hess());
    }
  }
};

/// (the function is called, so that its body is instantiated)
template<typename R, typename F, typename... A>
R eval(F & f, std::tuple<A...> & x)
{
  std::apply([&f](auto &... a) { (void)f(a...); }, x);
  return make<R>();
}
}  // namespace detail

/// value and first K right derivatives of f with respect to all arguments
template<std::size_t K, Type D, typename F, typename... A>
auto dr(F && f, std::tuple<A...> x) -> decltype(detail::result<K, D, F, std::tuple<A...>>::all())
{
  return detail::eval<decltype(detail::result<K, D, F, std::tuple<A...>>::all())>(f, x);
}
template<std::size_t K, typename F, typename... A>
auto dr(F && f, std::tuple<A...> x) -> decltype(detail::result<K, Type::Default, F, std::tuple<A...>>::all())
{
  return detail::eval<decltype(detail::result<K, Type::Default, F, std::tuple<A...>>::all())>(f, x);
}
template<typename F, typename... A>
auto dr(F && f, std::tuple<A...> x) -> decltype(detail::result<1, Type::Default, F, std::tuple<A...>>::all())
{
  return detail::eval<decltype(detail::result<1, Type::Default, F, std::tuple<A...>>::all())>(f, x);
}
}  // namespace diff
}  // namespace smooth
