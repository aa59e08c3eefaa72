#ifndef FAKE_BAG_W_
#define FAKE_BAG_W_
#include <rclcpp/serialization.hpp>
#include <stdexcept>
namespace fake { struct BagMsg { std::string topic, type; std::any obj; }; inline std::map<std::string, std::vector<BagMsg>> bags; }
namespace rosbag2_cpp
{
struct Writer
{
  std::string name_;
  // like rosbag2, refuses to overwrite an existing bag
  void open(const std::string & n) { if (fake::bags.count(n)) throw std::runtime_error("bag exists"); name_ = n; fake::bags[n].clear(); }
  void close() {}
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic, const std::string & type, const rclcpp::Time &)
  { fake::bags[name_].push_back({topic, type, m->obj_}); }
};
}
#endif
