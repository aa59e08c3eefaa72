#ifndef FAKE_TF2_BUFFER_
#define FAKE_TF2_BUFFER_
#include <rclcpp/rclcpp.hpp>
#include <tf2/utils.h>
namespace fake
{
inline std::function<geometry_msgs::msg::TransformStamped(const std::string &, const std::string &)> lookup;
inline std::function<geometry_msgs::msg::PoseStamped(const geometry_msgs::msg::PoseStamped &, const std::string &)> transform;
inline std::vector<geometry_msgs::msg::TransformStamped> broadcast;
}
namespace tf2_ros
{
struct Buffer
{
  explicit Buffer(const rclcpp::Clock::SharedPtr &) {}
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & a, const std::string & b, const tf2::TimePoint &)
  { if (!fake::lookup) throw tf2::TransformException("none"); return fake::lookup(a, b); }
  void transform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out, const std::string & frame, const std::chrono::nanoseconds &)
  { if (!fake::transform) throw tf2::TransformException("none"); out = fake::transform(in, frame); }
};
}
#endif
