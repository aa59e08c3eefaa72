#ifndef VSTUB_RCLCPP_SER_
#define VSTUB_RCLCPP_SER_
#include <rclcpp/rclcpp.hpp>
namespace rcutils { struct uint8_array { unsigned long obj_; }; }
namespace rclcpp
{
// Serialising and deserialising keeps the message (contract assumed by the verifier):
// a serialised message refers to a private copy of the original.
template <class M> struct __verif_stored { M m_; explicit __verif_stored(const M & m) : m_(m) {} };
template <class M> unsigned long __verif_ref(const __verif_stored<M> * p) noexcept;
template <class M> const __verif_stored<M> * __verif_obj(unsigned long r) noexcept;
struct SerializedMessage { unsigned long obj_; SerializedMessage() noexcept : obj_(0) {} explicit SerializedMessage(const rcutils::uint8_array & a) noexcept : obj_(a.obj_) {} };
template <class M> struct Serialization
{
  void serialize_message(const void * m, SerializedMessage * s) noexcept { s->obj_ = __verif_ref<M>(std::make_shared<__verif_stored<M>>(*static_cast<const M *>(m)).get()); }
  void deserialize_message(const SerializedMessage * s, void * m) noexcept { *static_cast<M *>(m) = __verif_obj<M>(s->obj_)->m_; }
};
}
#endif
