// units: ndt_mapper graph scan constraint ndt_model ceres_solver occupancy_grid particle_filter motion_model scan_matcher_ndt
// flags: -DWITH_CERES -U_GLIBCXX_ASSERTIONS
#include "common.hpp"
#include "mapper.hpp"
static std::vector<Point> expected(const sensor_msgs::msg::LaserScan & m, double range_max)
{
  // straight from the definition: each valid beam, in order of its index
  std::vector<Point> v;
  const size_t n = m.ranges.size();
  const double t = m.header.stamp.sec + 1e-9 * m.header.stamp.nanosec;
  const Pose2d a = world.pose(t), b = world.pose(t + double(n - 1) * double(m.time_increment));
  const double gx = b.x - a.x, gy = b.y - a.y;
  const double tx = std::cos(a.theta) * gx + std::sin(a.theta) * gy, ty = -std::sin(a.theta) * gx + std::cos(a.theta) * gy, tt = rp::norm_angle(b.theta - a.theta);
  for (size_t i = 0; i < n; ++i)
  {
    const float r = m.ranges[i];
    if (!std::isfinite(r) || r > range_max) continue;
    double ang = double(m.angle_min) + double(i) * double(m.angle_increment);
    double f = double(i) / double(n);
    if (world.inverted) { ang = -ang; f = 1 - f; }
    const double lx = r * std::cos(ang), ly = r * std::sin(ang);
    const double c = std::cos(world.mount.theta), s = std::sin(world.mount.theta);
    const double px = c * lx - s * ly + world.mount.x, py = s * lx + c * ly + world.mount.y;
    v.push_back(Point(std::cos(tt * f) * px - std::sin(tt * f) * py + tx * f, std::sin(tt * f) * px + std::cos(tt * f) * py + ty * f));
  }
  return v;
}
static void compare(std::vector<Point> got, std::vector<Point> want, const std::string & what)
{
  check(got.size() == want.size(), what + fmt(": %zu points, expected %zu", got.size(), want.size()));
  if (world.inverted) std::reverse(want.begin(), want.end());
  // any order will do: match greedily
  for (size_t i = 0; i < want.size(); ++i)
  {
    size_t best = i; double d = 1e9;
    for (size_t k = i; k < got.size(); ++k)
    {
      const double e = std::hypot(got[k].x - want[i].x, got[k].y - want[i].y);
      if (!(e >= d)) { d = e; best = k; }
      if (d < 1e-4) break;
    }
    if (!(d < 1e-3)) fail(what + fmt(": no point at (%.9g, %.9g), nearest is %g away", want[i].x, want[i].y, d));
    std::swap(got[i], got[best]);
  }
}
int main()
{
  connect();
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  rp::repeat("project", 500, [&](Rng & r) {
    world = World();
    world.at = Pose2d(r.coord(), r.coord(), r.angle()); world.t0 = r.i(0, 1000);
    const bool still = r.b(0.2);
    if (!still) { world.vx = r.u(-1, 1); world.vy = r.u(-1, 1); world.w = r.u(-1, 1); }
    world.mount = Pose2d(r.coord(1), r.coord(1), r.angle()); world.inverted = r.b();
    const int mode = r.i(0, 3);  // 0 mapping, 1 mapping on an existing map, 2 filter, 3 tracking
    fake::params.clear();
    fake::params["use_particle_filter"] = (mode == 2); fake::params["enable_mapping"] = (mode != 3);
    fake::params["min_particles"] = 3; fake::params["max_particles"] = 6;
    const bool own = r.b(); const double lim = r.pick(std::vector<double>{1, 5, 10});
    if (own) fake::params["max_range"] = lim;
    Mapper m((rclcpp::NodeOptions()));
    if (mode == 2)
    {
      m.filter_->init(0, 0, 0, 0.01, 0.01, 0.01);
    }
    if (mode == 1)
    {
      auto s = std::make_shared<Scan>(0); s->setPoints({Point(1, 0)}); m.graph_->scans.push_back(s);
      m.minimum_travel_distance_ = 0; m.minimum_travel_rotation_ = 0;
    }
    const int rounds = r.i(1, 3);
    for (int k = 0; k < rounds; ++k)
    {
      sensor_msgs::msg::LaserScan s;
      s.header.frame_id = "laser"; s.header.stamp.sec = int(world.t0) + k * 5; s.header.stamp.nanosec = r.i(0, 999) * 1000000u;
      const int n = k == 0 && r.b(0.1) ? 0 : r.pick(std::vector<int>{1, 2, 3, 17, 100, 360});
      s.angle_min = float(r.u(-3, 1)); s.angle_increment = float(r.b(0.2) ? -r.u(0.001, 0.05) : r.u(0.001, 0.05)); s.time_increment = float(r.b(0.3) ? 0 : r.u(0, 0.01));
      s.range_max = float(own ? r.pick(std::vector<double>{0.5, lim, 30}) : lim); s.range_min = 0.1f; s.angle_max = 0; s.scan_time = 0;
      for (int i = 0; i < n; ++i)
      {
        switch (r.i(0, 9))
        {
          case 0: s.ranges.push_back(float(nan)); break;
          case 1: s.ranges.push_back(float(inf)); break;
          case 2: s.ranges.push_back(float(-inf)); break;
          case 3: s.ranges.push_back(float(lim)); break;
          case 4: s.ranges.push_back(std::nextafter(float(lim), 100.f)); break;
          case 5: s.ranges.push_back(float(lim * 2)); break;
          case 6: s.ranges.push_back(0.0f); break;
          default: s.ranges.push_back(float(r.u(0.1, lim)));
        }
      }
      if (mode == 1) m.minimum_travel_distance_ = m.minimum_travel_rotation_ = 0;
      if (mode == 0) m.minimum_travel_distance_ = m.minimum_travel_rotation_ = 0;
      m.minimum_travel_distance_ = 0; m.minimum_travel_rotation_ = 0;
      seen.clear(); world.asked = 0;
      const size_t before = m.graph_->scans.size();
      add(fmt("mode %d, %d beams, %s, mount (%.17g, %.17g, %.17g), speed (%g, %g, %g)", mode, n, world.inverted ? "inverted" : "upright", world.mount.x, world.mount.y, world.mount.theta, world.vx, world.vy, world.w));
      m.laserCallback(message(s));
      check(m.laser_inverted_ == world.inverted, "the laser is known to be " + std::string(world.inverted ? "upside down" : "upright"));
      if (n == 0) { check(seen.empty() && m.graph_->scans.size() == before, "an empty message adds nothing"); continue; }
      const auto want = expected(s, lim);
      for (auto & x : seen) compare(x.points, want, "scan " + x.what);
      if (mode < 2)
      {
        check(m.graph_->scans.size() == before + 1, "the scan is added to the map");
        compare(m.graph_->scans.back()->getPoints(), want, "scan in the map");
      }
      else check(!seen.empty(), "the scan is used");
    }
  });
  DONE();
}
