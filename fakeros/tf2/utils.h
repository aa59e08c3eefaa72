#ifndef FAKE_TF2_UTILS_
#define FAKE_TF2_UTILS_
#include <chrono>
#include <cmath>
#include <string>
#include <geometry_msgs/msg/all.hpp>
namespace tf2
{
inline double getYaw(const geometry_msgs::msg::Quaternion & q)
{ return atan2(2.0 * (q.w * q.z + q.x * q.y), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z); }
struct TransformException { std::string w_; explicit TransformException(const std::string & w = "") : w_(w) {} const char * what() const { return w_.c_str(); } };
struct TimePoint {};
static const TimePoint TimePointZero{};
inline std::chrono::nanoseconds durationFromSec(double s) { return std::chrono::nanoseconds(long(s * 1e9)); }
}
#endif
