#ifndef VSTUB_TF2_BUFFER_
#define VSTUB_TF2_BUFFER_
#include <tf2/utils.h>
namespace tf2_ros
{
struct Buffer
{
  explicit Buffer(const rclcpp::Clock::SharedPtr &) noexcept {}
  // May throw tf2::TransformException; results unconstrained
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & a, const std::string & b, const tf2::TimePoint & t);
  void transform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out, const std::string & frame, const std::chrono::nanoseconds & timeout);
};
}
#endif
