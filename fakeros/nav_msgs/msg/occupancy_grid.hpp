#ifndef VSTUB_NAV_
#define VSTUB_NAV_
#include <geometry_msgs/msg/all.hpp>
namespace nav_msgs { namespace msg {
struct MapMetaData { builtin_interfaces::msg::Time map_load_time; float resolution = 0; unsigned int width = 0, height = 0; geometry_msgs::msg::Pose origin; };
struct OccupancyGrid { std_msgs::msg::Header header; MapMetaData info; std::vector<signed char> data; };
} }
#endif
