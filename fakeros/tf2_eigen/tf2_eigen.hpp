#pragma once
#include <tf2/utils.h>
#include <Eigen/Geometry>
namespace tf2
{
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & t)
{
  geometry_msgs::msg::TransformStamped r;
  r.transform.translation.x = t.translation()(0);
  r.transform.translation.y = t.translation()(1);
  r.transform.translation.z = t.translation()(2);
  Eigen::Quaterniond q(t.linear());
  r.transform.rotation.x = q.x(); r.transform.rotation.y = q.y(); r.transform.rotation.z = q.z(); r.transform.rotation.w = q.w();
  return r;
}
}
