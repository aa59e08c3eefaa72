#ifndef VSTUB_VIZ_
#define VSTUB_VIZ_
#include <geometry_msgs/msg/all.hpp>
namespace visualization_msgs { namespace msg {
struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; };
struct Marker
{
  enum { ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5, ADD = 0, MODIFY = 0, DELETE = 2 };
  std_msgs::msg::Header header; std::string ns; int id = 0, type = 0, action = 0; geometry_msgs::msg::Pose pose; geometry_msgs::msg::Vector3 scale; ColorRGBA color; std::vector<geometry_msgs::msg::Point> points;
};
struct MarkerArray { std::vector<Marker> markers; };
} }
#endif
