#ifndef VSTUB_SENSOR_
#define VSTUB_SENSOR_
#include <geometry_msgs/msg/all.hpp>
namespace sensor_msgs { namespace msg {
struct LaserScan { using ConstSharedPtr = std::shared_ptr<const LaserScan>; std_msgs::msg::Header header; float angle_min, angle_max, angle_increment, time_increment, scan_time, range_min, range_max; std::vector<float> ranges, intensities; };
} }
#endif
