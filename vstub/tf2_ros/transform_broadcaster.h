#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros { void __verif_send(const geometry_msgs::msg::TransformStamped & t) noexcept; struct TransformBroadcaster { template <class N> explicit TransformBroadcaster(N *) noexcept {} void sendTransform(const geometry_msgs::msg::TransformStamped & t) noexcept { __verif_send(t); } }; }
