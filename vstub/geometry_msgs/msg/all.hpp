#ifndef VSTUB_GEOM_
#define VSTUB_GEOM_
#include <rclcpp/rclcpp.hpp>
namespace std_msgs { namespace msg { struct Header { builtin_interfaces::msg::Time stamp; std::string frame_id; }; } }
namespace geometry_msgs { namespace msg {
struct Point { double x = 0, y = 0, z = 0; };
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 1; };
struct Pose { Point position; Quaternion orientation; };
struct PoseStamped { std_msgs::msg::Header header; Pose pose; };
struct PoseArray { std_msgs::msg::Header header; std::vector<Pose> poses; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct TransformStamped { std_msgs::msg::Header header; std::string child_frame_id; Transform transform; };
struct PoseWithCovariance { Pose pose; double covariance[36]; };
struct PoseWithCovarianceStamped { using ConstSharedPtr = std::shared_ptr<const PoseWithCovarianceStamped>; std_msgs::msg::Header header; PoseWithCovariance pose; };
} }
#endif
