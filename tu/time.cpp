// Translation unit analysed by the checks: the operations on the kinds of time the library supports.
#include <smooth/feedback/time.hpp>
#include <smooth/feedback/compat/ros.hpp>
namespace sf = smooth::feedback;
using namespace std::chrono;
// operations as the users of the trait see them
template<typename T> T plus(T t, double d) { return sf::time_trait<T>::plus(t, d); }
template<typename T> double minus(T t2, T t1) { return sf::time_trait<T>::minus(t2, t1); }
#define TIME(...) \
  template __VA_ARGS__ plus<__VA_ARGS__>(__VA_ARGS__, double); \
  template double minus<__VA_ARGS__>(__VA_ARGS__, __VA_ARGS__);
using third = duration<long long, std::ratio<1, 3>>;
using tp_ns = time_point<steady_clock>;
using tp_ms = time_point<system_clock, milliseconds>;
using tp_d  = time_point<steady_clock, duration<double>>;
using frac  = duration<double, std::ratio<1, 60>>;
TIME(float)
TIME(double)
TIME(long double)
TIME(nanoseconds)
TIME(milliseconds)
TIME(minutes)
TIME(third)
TIME(frac)
TIME(tp_ns)
TIME(tp_ms)
TIME(tp_d)
TIME(rclcpp::Time)
