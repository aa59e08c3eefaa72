#ifndef VSTUB_BAG_W_
#define VSTUB_BAG_W_
#include <rclcpp/serialization.hpp>
namespace rosbag2_cpp
{
void __verif_bag_write(unsigned long topic, unsigned long obj) noexcept;
struct Writer
{
  void open(const std::string &) noexcept {}
  void close() noexcept {}
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic, const std::string & type, const rclcpp::Time &) noexcept
  { (void)type; __verif_bag_write(topic.v_, m->obj_); }
};
}
#endif
