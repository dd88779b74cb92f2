#pragma once
#include "../concepts/lie_group.hpp"
namespace smooth {
template<typename T>
using OptTangent = std::optional<Eigen::Ref<Tangent<T>>>;
template<int K, LieGroup G>
class Spline
{
public:
  Spline();
  Spline(const Spline &);
  Spline(Spline &&);
  Spline & operator=(const Spline &);
  Spline & operator=(Spline &&);
  ~Spline();
  double t_min() const;
  double t_max() const;
  /// value, velocity and acceleration at time t
  template<typename S>
  CastT<S, G> operator()(const S & t, OptTangent<CastT<S, G>> vel = {}, OptTangent<CastT<S, G>> acc = {}) const;
};
}  // namespace smooth
