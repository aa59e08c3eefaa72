// The mapping node with recording scan matchers, a robot moving steadily in the odometry frame and a mounted laser.
#pragma once
#include <ndt_2d/ndt_mapper.hpp>
#include <ndt_2d/conversions.hpp>
using namespace ndt_2d;
struct Seen { std::string what; std::vector<Point> points; Pose2d pose; size_t id; };
inline std::vector<Seen> seen;
inline std::function<double(const ScanPtr &, Pose2d &)> match_fn;
struct Recorder : ScanMatcher
{
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ScanPtr>::const_iterator &, const std::vector<ScanPtr>::const_iterator &) override {}
  double matchScan(const ScanPtr & s, Pose2d & p, Eigen::Matrix3d & c) const override
  {
    seen.push_back({"matched", s->getPoints(), s->getPose(), s->getId()});
    p = Pose2d(0, 0, 0); c = Eigen::Matrix3d::Identity() * 0.01;
    return match_fn ? match_fn(s, p) : -1.0;
  }
  double scoreScan(const ScanPtr & s) const override { seen.push_back({"scored", s->getPoints(), s->getPose(), s->getId()}); return -1.0; }
  double scorePoints(const std::vector<Point> & p, const Pose2d & q) const override { seen.push_back({"measured", p, q, 0}); return -1.0; }
  void reset() override {}
};
struct World
{
  Pose2d at; double vx = 0, vy = 0, w = 0, t0 = 0;  // robot in the odometry frame
  Pose2d mount; bool inverted = false;
  bool bad_mount = false; int bad_pose = 0;          // bad_pose: which query fails (1 first, 2 second)
  int asked = 0;
  Pose2d pose(double t) const { return Pose2d(at.x + vx * (t - t0), at.y + vy * (t - t0), at.theta + w * (t - t0)); }
};
inline World world;
inline geometry_msgs::msg::Quaternion yawq(double a, bool inv = false)
{
  geometry_msgs::msg::Quaternion q; q.x = q.y = q.z = 0; q.w = 1;
  if (inv) { q.w = 0; q.x = std::cos(a / 2); q.y = std::sin(a / 2); q.z = 0; }  // Rz(a) Rx(pi)
  else { q.z = std::sin(a / 2); q.w = std::cos(a / 2); }
  return q;
}
inline void connect()
{
  fake::ok = [] { return false; };
  fake::factory<ScanMatcher>() = [](const std::string &) { return std::make_shared<Recorder>(); };
  fake::lookup = [](const std::string & to, const std::string & from) {
    geometry_msgs::msg::TransformStamped t; 
    if (to == "odom") { const Pose2d p = world.pose(world.t0); t.transform.translation.x = p.x; t.transform.translation.y = p.y; t.transform.rotation = yawq(p.theta); return t; }
    if (world.bad_mount) throw tf2::TransformException("no mount");
    t.transform.translation.x = world.mount.x; t.transform.translation.y = world.mount.y; t.transform.rotation = yawq(world.mount.theta, world.inverted);
    return t;
  };
  fake::transform = [](const geometry_msgs::msg::PoseStamped & in, const std::string & to) {
    if (++world.asked == world.bad_pose) throw tf2::TransformException("no pose");
    check(to == "odom" && in.header.frame_id == "base_link", "the robot's pose is asked for in the odometry frame");
    const Pose2d p = world.pose(in.header.stamp.sec + 1e-9 * in.header.stamp.nanosec);
    geometry_msgs::msg::PoseStamped o = in; o.header.frame_id = to;
    o.pose.position.x = p.x; o.pose.position.y = p.y; o.pose.orientation = yawq(p.theta);
    return o;
  };
}
inline sensor_msgs::msg::LaserScan::ConstSharedPtr message(const sensor_msgs::msg::LaserScan & m) { return std::make_shared<sensor_msgs::msg::LaserScan>(m); }
