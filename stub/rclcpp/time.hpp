// Interface of the ROS 2 time types, as far as the library uses it (rclcpp is not installed here).
#pragma once
#include <chrono>
#include <cstdint>
namespace rclcpp {
class Duration
{
public:
  Duration(int32_t seconds, uint32_t nanoseconds);
  explicit Duration(std::chrono::nanoseconds nanoseconds);
  static Duration from_seconds(double seconds);
  static Duration from_nanoseconds(int64_t nanoseconds);
  double seconds() const;
  int64_t nanoseconds() const;
  template<class DurationT>
  DurationT to_chrono() const;
  Duration operator+(const Duration & rhs) const;
  Duration operator-(const Duration & rhs) const;
  Duration operator*(double scale) const;
};
class Time
{
public:
  Time(int32_t seconds, uint32_t nanoseconds);
  explicit Time(int64_t nanoseconds = 0);
  Time operator+(const Duration & rhs) const;
  Duration operator-(const Time & rhs) const;
  Time operator-(const Duration & rhs) const;
  Time & operator+=(const Duration & rhs);
  Time & operator-=(const Duration & rhs);
  double seconds() const;
  int64_t nanoseconds() const;
};
Time operator+(const Duration & lhs, const Time & rhs);
}  // namespace rclcpp
