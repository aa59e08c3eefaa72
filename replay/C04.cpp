// units: ndt_model scan
#include "common.hpp"
#include <ndt_2d/ndt_model.hpp>
using namespace ndt_2d;
int main()
{
  rp::repeat("overloads agree", 1500, [](Rng & r)
  {
    const double cs = r.pick(std::vector<double>{0.25, 0.5, 1.0, 2.0}), sx = r.u(0, 8), sy = r.u(0, 8), ox = r.coord(5), oy = r.coord(5);
    NDT ndt(cs, sx, sy, ox, oy);
    std::vector<Eigen::Vector2d> seen;
    auto scan = [&](int n, bool add)
    {
      auto s = std::make_shared<Scan>(r.i(0, 9));
      const Pose2d p(ox + r.u(0, sx + 1), oy + r.u(0, sy + 1), r.angle());
      std::vector<Point> v;
      const double C = cos(p.theta), S = sin(p.theta);
      for (int k = 0; k < n; ++k)
      {
        double wx, wy;
        if (!add && !seen.empty() && r.b(0.8)) { const auto & q = r.pick(seen); wx = q(0) + r.u(-0.1, 0.1); wy = q(1) + r.u(-0.1, 0.1); }
        else { wx = ox + r.u(-0.5, sx + 1); wy = oy + r.u(-0.5, sy + 1); }
        if (add && k % 3 && !seen.empty()) { wx = seen.back()(0) + r.u(-0.2, 0.2); wy = seen.back()(1) + r.u(-0.2, 0.2); }
        if (add) seen.push_back(Eigen::Vector2d(wx, wy));
        wx -= p.x; wy -= p.y;
        v.push_back(Point(C * wx + S * wy, -S * wx + C * wy));
        if (!add) while (r.b(0.15)) v.push_back(r.pick(v));      // beams may repeat
      }
      s->setPose(p); s->setPoints(v);
      return s;
    };
    for (int n = r.i(0, 4); n > 0; --n) ndt.addScan(scan(r.i(0, 60), true));
    if (r.b(0.95)) ndt.compute();
    auto s = scan(r.i(0, 15), false);
    const Pose2d p = s->getPose();
    const std::vector<Point> pts = s->getPoints();
    add(fmt("grid (%.17g %.17g %.17g %.17g %.17g), scan at %.17g %.17g %.17g with %zu points", cs, sx, sy, ox, oy, p.x, p.y, p.theta, pts.size()));
    std::vector<Eigen::Vector2d> probes;
    for (int n = 0; n < 12; ++n) probes.push_back(!seen.empty() && r.b() ? r.pick(seen) : Eigen::Vector2d(ox + r.u(-1, sx + 1), oy + r.u(-1, sy + 1)));
    std::vector<double> before; for (auto & q : probes) before.push_back(ndt.likelihood(q));
    const double C = cos(p.theta), S = sin(p.theta);
    double sum = 0, lsum = 0;
    bool edge = false;
    for (auto & q : pts)
    {
      const Eigen::Vector2d w(p.x + C * q.x - S * q.y, p.y + S * q.x + C * q.y);
      const double u = (w(0) - ox) / cs, v = (w(1) - oy) / cs;
      if (std::fabs(u - std::round(u)) < 1e-7 || std::fabs(v - std::round(v)) < 1e-7) edge = true;
      sum += ndt.likelihood(w);
      lsum += ndt.likelihood(Eigen::Vector2d(q.x, q.y));
      const double z = r.pick(std::vector<double>{0, 1, -1, 1e9, HUGE_VAL});
      check(ndt.likelihood(Eigen::Vector3d(w(0), w(1), z)) == ndt.likelihood(w), fmt("point (%.17g %.17g %g) scores differently from its first two components", w(0), w(1), z));
    }
    std::vector<Point> moved; double msum = 0;
    std::vector<Eigen::Vector2d> used = seen;
    if (!seen.empty()) for (int n = r.i(0, 20); n > 0; --n) used.insert(used.begin() + r.i(0, used.size()), r.b() ? used[r.i(0, used.size() - 1)] : r.pick(seen));
    for (size_t k = 1; k < used.size(); ++k) if (r.b(0.05)) used[k] = used[k - 1];
    for (auto & q : used) { moved.push_back(Point(q(0), q(1))); msum += ndt.likelihood(q); }
    near(ndt.likelihood(pts), lsum, 1e-9, "likelihood of a list of points");
    near(ndt.likelihood(moved), msum, 1e-9 * (1 + moved.size()), "likelihood of a list of map points");
    if (!edge) near(ndt.likelihood(s), sum, 1e-5, "likelihood of a scan");
    check(s->getPose().x == p.x && s->getPose().y == p.y && s->getPose().theta == p.theta, "the scan's pose changed");
    const auto after = s->getPoints();
    check(after.size() == pts.size(), "the scan's points changed");
    for (size_t k = 0; k < pts.size(); ++k) check(after[k].x == pts[k].x && after[k].y == pts[k].y, "the scan's points changed");
    for (size_t k = 0; k < probes.size(); ++k) check(ndt.likelihood(probes[k]) == before[k], fmt("a query changed the grid at (%.17g, %.17g)", probes[k](0), probes[k](1)));
  });
  DONE();
}
