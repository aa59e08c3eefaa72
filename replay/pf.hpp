// shared by C10 and C11: a filter over a scan matcher with known scores
#pragma once
#include "common.hpp"
#include <ndt_2d/particle_filter.hpp>
using namespace ndt_2d;
typedef std::function<double(double, double, double)> Score;
struct Matcher : ScanMatcher
{
  Score f; mutable std::vector<Eigen::Vector3d> seen;
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ScanPtr>::const_iterator &, const std::vector<ScanPtr>::const_iterator &) override {}
  double matchScan(const ScanPtr &, Pose2d &, Eigen::Matrix3d &) const override { return 0; }
  double scoreScan(const ScanPtr &) const override { return 0; }
  double scorePoints(const std::vector<Point> &, const Pose2d & p) const override { return f(p.x, p.y, p.theta); }
  void reset() override {}
};
inline std::vector<Eigen::Vector3d> particles(ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray m; f.getMsg(m);
  std::vector<Eigen::Vector3d> v;
  for (auto & p : m.poses) v.push_back(Eigen::Vector3d(p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w)));
  return v;
}
inline Score hash_score(int kind, uint64_t k)
{
  return [kind, k](double x, double y, double th) -> double
  {
    // a value that depends on the position only (headings are read back through a quaternion)
    uint64_t a, b; memcpy(&a, &x, 8); memcpy(&b, &y, 8);
    Rng r(a * 31 + b * 17 + k);
    switch (kind)
    {
      case 0: return 0;
      case 1: return r.u(0.1, 1);
      case 2: return -r.u(0.1, 1);
      case 3: return r.b(0.3) ? r.u(0, 1) : 0;
      case 4: return r.b(0.02) ? 1 : 1e-6;
      case 5: return -1e-3 * r.u();
      case 6: return 1;
      default: return -std::pow(10, r.u(-8, 2));
    }
  };
}
