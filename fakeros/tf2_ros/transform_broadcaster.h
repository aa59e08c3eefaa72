#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros { struct TransformBroadcaster { template <class N> explicit TransformBroadcaster(N *) {} void sendTransform(const geometry_msgs::msg::TransformStamped & t) { std::lock_guard<std::mutex> l(fake::mtx); fake::broadcast.push_back(t); } }; }
