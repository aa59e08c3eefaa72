#ifndef VSTUB_NDT_CONSTRAINT_MSG_
#define VSTUB_NDT_CONSTRAINT_MSG_
#include <geometry_msgs/msg/all.hpp>
namespace ndt_2d { namespace msg { struct Constraint { using SharedPtr = std::shared_ptr<Constraint>; long begin = 0, end = 0; geometry_msgs::msg::Transform transform; double information[9]; bool switchable = false; }; } }
#endif
