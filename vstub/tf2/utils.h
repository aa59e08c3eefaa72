#ifndef VSTUB_TF2_UTILS_
#define VSTUB_TF2_UTILS_
#include <chrono>
#include <geometry_msgs/msg/all.hpp>
namespace tf2
{
double __verif_yaw(double x, double y, double z, double w) noexcept;    // a function of its arguments
inline double getYaw(const geometry_msgs::msg::Quaternion & q) noexcept { return __verif_yaw(q.x, q.y, q.z, q.w); }
struct TransformException { const char * what() const noexcept { return nullptr; } };
struct TimePoint {};
static const TimePoint TimePointZero{};
inline std::chrono::nanoseconds durationFromSec(double) noexcept { return std::chrono::nanoseconds(0); }
}
#endif
