#pragma once
#include <tf2/utils.h>
#include <Eigen/Geometry>
namespace tf2
{
geometry_msgs::msg::Quaternion __verif_quat(const Eigen::Matrix3d & m) noexcept;
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & t) noexcept
{
  geometry_msgs::msg::TransformStamped r;
  r.transform.translation.x = t.t_(0);
  r.transform.translation.y = t.t_(1);
  r.transform.translation.z = t.t_(2);
  r.transform.rotation = __verif_quat(t.l_);
  return r;
}
}
