// units: scan_matcher_ndt ndt_model scan
#include "common.hpp"
#include <ndt_2d/scan_matcher_ndt.hpp>
using namespace ndt_2d;
typedef std::vector<ScanPtr> Scans;
static std::vector<Point> wall(Rng & r, int n, double far)
{
  std::vector<Point> v(n);
  const double a = r.u(-M_PI, M_PI), w = r.u(0.2, far), o = r.u(0.1, far);
  for (auto & p : v)
  {
    const double t = r.u(-w, w), d = o + 0.02 * r.u(-1, 1);
    p = Point(std::cos(a) * d - std::sin(a) * t, std::sin(a) * d + std::cos(a) * t);
  }
  return v;
}
struct Setup
{
  ScanMatcherNDT m; double res, as, ar, ls, lr, range; int beams; Scans scans;
};
static void configure(Rng & r, Setup & s)
{
  s.res = r.pick(std::vector<double>{0.25, 0.5, 1}); s.range = r.pick(std::vector<double>{3, 5, 10});
  // the last offset stays well inside the window: the number of steps does not depend on rounding
  s.ar = r.pick(std::vector<double>{0.0025, 0.01, 0.05, 0.3}); s.as = s.ar * (r.i(0, 4) * 0.5 + r.u(0.1, 0.4));
  s.lr = r.pick(std::vector<double>{0.005, 0.02, 0.1, 0.25}); s.ls = s.lr * (r.i(0, 5) * 0.5 + r.u(0.1, 0.4));
  s.beams = r.pick(std::vector<int>{1, 2, 7, 20, 50, 100, 1000});
  std::string n = r.b() ? "local" : "other";
  fake::params.clear();
  fake::params[n + ".ndt_resolution"] = s.res; fake::params[n + ".search_angular_resolution"] = s.ar; fake::params[n + ".search_angular_size"] = s.as;
  fake::params[n + ".search_linear_resolution"] = s.lr; fake::params[n + ".search_linear_size"] = s.ls; fake::params[n + ".laser_max_beams"] = s.beams;
  rclcpp::Node node("n");
  s.m.initialize(n, &node, s.range);
  add(fmt("cells %g, window %g step %g (angle), %g step %g, %d beams, range %g", s.res, s.as, s.ar, s.ls, s.lr, s.beams, s.range));
}
static void fill(Rng & r, Setup & s)
{
  s.scans.clear();
  const double cx = r.coord(20), cy = r.coord(20);
  for (int i = r.i(1, 4); i > 0; --i)
  {
    ScanPtr sc = std::make_shared<Scan>(s.scans.size());
    sc->setPose(Pose2d(cx + r.u(-2, 2), cy + r.u(-2, 2), r.angle())); sc->setPoints(wall(r, r.i(0, 60), s.range * 0.6));
    add(fmt("map scan at (%.17g, %.17g, %.17g) with %zu points", sc->getPose().x, sc->getPose().y, sc->getPose().theta, sc->getPoints().size()));
    s.scans.push_back(sc);
  }
}
// likelihood of the selected beams with the scan at pose
static double total(Setup & s, const std::vector<Point> & p, const Pose2d & q)
{
  const size_t n = std::min(size_t(s.beams), p.size());
  double t = 0;
  for (size_t i = 0; i < n; ++i)
  {
    const Point & a = p[size_t(i * (double(p.size()) / n))];
    t += s.m.ndt_->likelihood(Eigen::Vector2d(std::cos(q.theta) * a.x - std::sin(q.theta) * a.y + q.x, std::sin(q.theta) * a.x + std::cos(q.theta) * a.y + q.y));
  }
  return n ? t / n : 0;
}
static ScanPtr query(Rng & r, Setup & s)
{
  ScanPtr q = std::make_shared<Scan>(99);
  if (!s.scans.empty() && r.b(0.7))
  {
    auto o = r.pick(s.scans); auto v = o->getPoints();
    for (auto & p : v) { p.x += 0.05 * r.u(-1, 1); p.y += 0.05 * r.u(-1, 1); }
    q->setPose(Pose2d(o->getPose().x + r.u(-1, 1) * 2 * s.ls, o->getPose().y + r.u(-1, 1) * 2 * s.ls, o->getPose().theta + r.u(-1, 1) * s.as)); q->setPoints(v);
  }
  else { q->setPose(Pose2d(r.coord(20), r.coord(20), r.angle())); q->setPoints(wall(r, r.i(0, 30), 3)); }
  add(fmt("scan at (%.17g, %.17g, %.17g) with %zu points", q->getPose().x, q->getPose().y, q->getPose().theta, q->getPoints().size()));
  return q;
}
int main()
{
  rp::repeat("matching", 700, [](Rng & r)
  {
    Setup s; configure(r, s); fill(r, s);
    s.m.addScans(s.scans.begin(), s.scans.end());
    if (r.b(0.3)) { if (r.b()) s.m.reset(); fill(r, s); add("again"); s.m.addScans(s.scans.begin(), s.scans.end()); }
    for (int rep = r.i(1, 2); rep > 0; --rep)
    {
      ScanPtr q = query(r, s); const auto pts = q->getPoints(); const Pose2d at = q->getPose();
      Pose2d c; const double mark = r.u(5, 9); c.x = c.y = c.theta = mark; Eigen::Matrix3d cov; cov.setConstant(mark);
      const double got = s.m.matchScan(q, c, cov);
      check(q->getPose().x == at.x && q->getPose().y == at.y && q->getPose().theta == at.theta && q->getPoints().size() == pts.size(), "matching keeps the scan");
      double best = 0, S = 0; Eigen::Matrix3d K = Eigen::Matrix3d::Zero(); Eigen::Vector3d u = Eigen::Vector3d::Zero();
      double m2 = 0;
      for (double th = -s.as; th < s.as; th += s.ar) for (double x = -s.ls; x < s.ls; x += s.lr) for (double y = -s.ls; y < s.ls; y += s.lr)
          {
            const double v = total(s, pts, Pose2d(at.x + x, at.y + y, at.theta + th));
            best = std::min(best, -v); S += v;
            Eigen::Vector3d o(x, y, th); K += o * o.transpose() * v; u += o * v;
          }
      near(got, best, 1e-7 * (1 + std::fabs(best)), "the lowest mean score of the window");
      if (pts.empty()) continue;
      if (S == 0) { check(cov == Eigen::Matrix3d::Identity() && c.x == mark, "without overlap the offset is unknown"); continue; }
      if (best < -1e-9)
      {
        check(std::fabs(c.x) <= s.ls + 1e-9 && std::fabs(c.y) <= s.ls + 1e-9 && std::fabs(c.theta) <= s.as + 1e-9, fmt("the offset (%g, %g, %g) is outside the window", c.x, c.y, c.theta));
        auto on = [](double v, double size, double step) { const double k = (v + size) / step; return std::fabs(k - std::round(k)) < 1e-6; };
        check(on(c.x, s.ls, s.lr) && on(c.y, s.ls, s.lr) && on(c.theta, s.as, s.ar), fmt("the offset (%.17g, %.17g, %.17g) is none of the window's", c.x, c.y, c.theta));
        near(-total(s, pts, Pose2d(at.x + c.x, at.y + c.y, at.theta + c.theta)), best, 1e-7 * (1 + std::fabs(best)), "score at the offset returned");
      }
      if (S > 1e-6)
      {
        K = K / S - u * u.transpose() / (S * S);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
            near(cov(i, j), K(i, j), 1e-7 * (s.ls * s.ls + s.as * s.as), fmt("covariance (%d, %d)", i, j));
      }
    }
  });
  rp::repeat("scoring", 4000, [](Rng & r)
  {
    Setup s; configure(r, s);
    ScanPtr q = query(r, s);
    if (r.b(0.3)) { check(s.m.scoreScan(q) == 0, "without a map the score is 0"); Pose2d c; Eigen::Matrix3d cov; check(s.m.matchScan(q, c, cov) == 0, "without a map the score is 0"); }
    fill(r, s); s.m.addScans(s.scans.begin(), s.scans.end());
    q = query(r, s);
    near(s.m.scoreScan(q), -total(s, q->getPoints(), q->getPose()), 1e-9 * (1 + total(s, q->getPoints(), q->getPose())), "score of a scan");
    const Pose2d p(q->getPose().x + r.u(-1, 1), q->getPose().y + r.u(-1, 1), r.angle());
    const double e = total(s, q->getPoints(), p);
    near(s.m.scorePoints(q->getPoints(), p), -e, 1e-7 * (1 + e), "score of points at a pose");
    s.m.reset();
    check(s.m.scoreScan(q) == 0, "without a map the score is 0");
    s.m.addScans(s.scans.begin(), s.scans.begin());
    check(s.m.scoreScan(q) == 0, "without scans the score is 0");
  });
  rp::repeat("grids", 4000, [](Rng & r)
  {
    Setup s; configure(r, s); fill(r, s);
    if (r.b(0.3)) { s.m.addScans(s.scans.begin(), s.scans.end()); fill(r, s); }
    size_t a = r.i(0, s.scans.size() - 1), b = r.i(a + 1, s.scans.size());
    add(fmt("scans %zu to %zu", a, b));
    s.m.addScans(s.scans.begin() + a, s.scans.begin() + b);
    NDT & g = *s.m.ndt_;
    near(g.cell_size_, s.res, 0, "cell size");
    for (size_t i = a; i < b; ++i)
    {
      const Pose2d p = s.scans[i]->getPose();
      for (int k = 0; k < 8; ++k)
      {
        const double t = r.angle(), d = 0.999 * s.range;
        check(g.getIndex(p.x + d * std::cos(t), p.y + d * std::sin(t)) >= 0, fmt("(%.17g, %.17g), within the range of scan %zu, is off the grid", p.x + d * std::cos(t), p.y + d * std::sin(t), i));
      }
    }
    NDT ref(g.cell_size_, g.size_x_ * g.cell_size_ - g.cell_size_ * 0.5, g.size_y_ * g.cell_size_ - g.cell_size_ * 0.5, g.origin_x_, g.origin_y_);
    ref.origin_x_ = g.origin_x_; ref.origin_y_ = g.origin_y_; ref.size_x_ = g.size_x_; ref.size_y_ = g.size_y_; ref.cells_.assign(g.cells_.size(), Cell());
    for (size_t i = a; i < b; ++i) ref.addScan(s.scans[i]);
    ref.compute();
    for (size_t i = 0; i < s.scans.size(); ++i) for (auto & p : s.scans[i]->getPoints())
      {
        const Pose2d o = s.scans[i]->getPose();
        Eigen::Vector2d v(o.x + std::cos(o.theta) * p.x - std::sin(o.theta) * p.y + 0.05 * r.u(-1, 1), o.y + std::sin(o.theta) * p.x + std::cos(o.theta) * p.y + 0.05 * r.u(-1, 1));
        const double e = ref.likelihood(v);
        near(g.likelihood(v), e, 1e-9 * (1 + e), fmt("likelihood at (%.17g, %.17g) of the grid of the scans", v(0), v(1)));
      }
  });
  DONE();
}
