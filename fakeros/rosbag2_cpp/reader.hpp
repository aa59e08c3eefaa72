#ifndef FAKE_BAG_R_
#define FAKE_BAG_R_
#include <rosbag2_cpp/writer.hpp>
namespace rosbag2_storage
{
struct SerializedBagMessage { std::shared_ptr<rcutils::uint8_array> serialized_data; std::string topic_name; };
using SerializedBagMessageSharedPtr = std::shared_ptr<SerializedBagMessage>;
}
namespace rosbag2_cpp
{
struct Reader
{
  std::vector<fake::BagMsg> m_; size_t i_ = 0;
  void open(const std::string & n) { if (!fake::bags.count(n)) throw std::runtime_error("no such bag"); m_ = fake::bags[n]; i_ = 0; }
  bool has_next() { return i_ < m_.size(); }
  rosbag2_storage::SerializedBagMessageSharedPtr read_next()
  {
    auto m = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    m->serialized_data = std::make_shared<rcutils::uint8_array>();
    m->topic_name = m_.at(i_).topic;
    m->serialized_data->obj_ = m_.at(i_).obj;
    ++i_;
    return m;
  }
};
}
#endif
