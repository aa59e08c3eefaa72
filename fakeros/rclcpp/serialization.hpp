#ifndef FAKE_RCLCPP_SER_
#define FAKE_RCLCPP_SER_
#include <rclcpp/rclcpp.hpp>
namespace rcutils { struct uint8_array { std::any obj_; }; }
namespace rclcpp
{
struct SerializedMessage { std::any obj_; SerializedMessage() {} explicit SerializedMessage(const rcutils::uint8_array & a) : obj_(a.obj_) {} };
template <class M> struct Serialization
{
  void serialize_message(const void * m, SerializedMessage * s) { s->obj_ = *static_cast<const M *>(m); }
  void deserialize_message(const SerializedMessage * s, void * m) { *static_cast<M *>(m) = std::any_cast<M>(s->obj_); }
};
}
#endif
