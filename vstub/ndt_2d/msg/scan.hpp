#ifndef VSTUB_NDT_SCAN_MSG_
#define VSTUB_NDT_SCAN_MSG_
#include <geometry_msgs/msg/all.hpp>
namespace ndt_2d { namespace msg { struct Scan { using SharedPtr = std::shared_ptr<Scan>; unsigned long id = 0; geometry_msgs::msg::Pose pose; std::vector<geometry_msgs::msg::Point> points; }; } }
#endif
