#ifndef VSTUB_BAG_R_
#define VSTUB_BAG_R_
#include <rclcpp/serialization.hpp>
namespace rosbag2_storage
{
struct SerializedBagMessage { std::shared_ptr<rcutils::uint8_array> serialized_data; std::string topic_name; };
using SerializedBagMessageSharedPtr = std::shared_ptr<SerializedBagMessage>;
}
namespace rosbag2_cpp
{
bool __verif_bag_has_next() noexcept;
unsigned long __verif_bag_topic() noexcept;
unsigned long __verif_bag_next() noexcept;
struct Reader
{
  void open(const std::string &) noexcept {}
  bool has_next() noexcept { return __verif_bag_has_next(); }
  rosbag2_storage::SerializedBagMessageSharedPtr read_next() noexcept
  {
    rosbag2_storage::SerializedBagMessageSharedPtr m = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    m->serialized_data = std::make_shared<rcutils::uint8_array>();
    m->topic_name.v_ = __verif_bag_topic();
    m->serialized_data->obj_ = __verif_bag_next();
    return m;
  }
};
}
#endif
