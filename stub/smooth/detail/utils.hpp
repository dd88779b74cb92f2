#pragma once
#include <array>
#include <cassert>
#include <cmath>
#include <iterator>
#include <numeric>
#include <ranges>
#include <tuple>
#include <utility>
namespace smooth::utils {
/// a range of tuples of references, as long as the shortest of its arguments
template<typename... Rs>
class zip_range
{
  std::tuple<Rs...> r_;

public:
  explicit zip_range(Rs &&... rs) : r_(std::forward<Rs>(rs)...) {}
  struct sentinel {};
  struct iterator
  {
    std::tuple<decltype(std::ranges::begin(std::declval<std::remove_reference_t<Rs> &>()))...> it;
    std::tuple<decltype(std::ranges::end(std::declval<std::remove_reference_t<Rs> &>()))...> last;
    auto operator*() const
    {
      return std::apply([](auto &... i) { return std::tuple<decltype(*i)...>(*i...); }, it);
    }
    iterator & operator++()
    {
      std::apply([](auto &... i) { (++i, ...); }, it);
      return *this;
    }
    bool operator!=(sentinel) const
    {
      return [this]<std::size_t... I>(std::index_sequence<I...>) {
        return ((std::get<I>(it) != std::get<I>(last)) && ...);
      }(std::make_index_sequence<sizeof...(Rs)>{});
    }
  };
  iterator begin()
  {
    return std::apply([](auto &... r) { return iterator{{std::ranges::begin(r)...}, {std::ranges::end(r)...}}; }, r_);
  }
  sentinel end() { return {}; }
};
template<typename... Rs>
zip_range<Rs...> zip(Rs &&... rs) { return zip_range<Rs...>(std::forward<Rs>(rs)...); }

/// f(0), ..., f(N - 1) with compile-time arguments
template<std::size_t N, typename F>
constexpr void static_for(F && f)
{
  [&]<std::size_t... I>(std::index_sequence<I...>) {
    (f(std::integral_constant<std::size_t, I>{}), ...);
  }(std::make_index_sequence<N>{});
}

/// last element not after t in a sorted range (end for an empty range or t before the first element)
template<typename R, typename T, typename C>
constexpr auto binary_interval_search(const R & r, const T & t, C && cmp)
{
  auto it = std::ranges::begin(r), res = std::ranges::end(r);
  for (; it != std::ranges::end(r) && cmp(*it, t) <= 0; ++it) { res = it; }
  return res;
}
}  // namespace smooth::utils
