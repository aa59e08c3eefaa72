// units: graph scan
#include "common.hpp"
#include <ndt_2d/graph.hpp>
using namespace ndt_2d;
static ScanPtr draw(Rng & r, size_t id, double sc)
{
  ScanPtr s = std::make_shared<Scan>(id);
  std::vector<Point> p(r.i(0, 4));
  for (auto & q : p) q = Point(r.u(-sc, sc), r.u(-sc, sc));
  s->setPose(Pose2d(r.b(0.3) ? r.i(-5, 5) : r.u(-sc, sc), r.b(0.3) ? r.i(-5, 5) : r.u(-sc, sc), r.angle()));
  s->setPoints(p);
  if (r.b(0.3)) s->getBarycenterPose();                      // cached
  if (r.b(0.3)) s->setPose(Pose2d(r.u(-sc, sc), r.u(-sc, sc), r.angle()));
  return s;
}
static void where(const ScanPtr & s, bool bary, double & x, double & y)
{
  const Pose2d p = s->getPose(); x = p.x; y = p.y;
  if (!bary) return;
  const auto v = s->getPoints();
  if (v.empty()) return;
  double mx = 0, my = 0;
  for (auto & q : v) { mx += q.x; my += q.y; }
  mx /= v.size(); my /= v.size();
  x += std::cos(p.theta) * mx - std::sin(p.theta) * my; y += std::sin(p.theta) * mx + std::cos(p.theta) * my;
}
int main()
{
  rp::repeat("searches", 20000, [](Rng & r)
  {
    const bool bary = r.b();
    Graph g(bary);
    const double sc = r.pick(std::vector<double>{0.5, 3, 20});
    const int n = r.i(0, 3) ? r.i(1, 12) : r.i(1, 60);
    for (int i = 0; i < n; ++i) g.scans.push_back(draw(r, i, sc));
    if (n > 1) { auto c = std::make_shared<Constraint>(); c->begin = 0; c->end = 1; g.constraints.push_back(c); }
    // moved by the optimizer since
    if (r.b()) for (auto & s : g.scans) if (r.b(0.3)) s->setPose(Pose2d(r.u(-sc, sc), r.u(-sc, sc), r.angle()));
    for (int k = 0; k < 3; ++k)
    {
      const bool inside = r.b();
      ScanPtr q = inside ? g.scans[r.i(0, n - 1)] : draw(r, n, sc);
      const double dist = r.pick(std::vector<double>{0, 0.1, 0.5, 1, 1.7, 5, 100}) * (r.b() ? 1 : r.u());
      const int limit = r.pick(std::vector<int>{-1, 0, -5, 1, r.i(1, n), n});
      if (r.b(0.2)) q->setPose(Pose2d(q->getPose().x + 0.25, q->getPose().y, q->getPose().theta));
      const Pose2d qp = q->getPose(); const auto qpts = q->getPoints(); const size_t qid = q->getId();
      std::vector<Pose2d> before; for (auto & s : g.scans) before.push_back(s->getPose());
      const auto scans = g.scans; const auto cons = g.constraints;
      add(fmt("%s, %d scans, limit %d, distance %.17g", bary ? "barycenters" : "poses", n, limit, dist));
      std::vector<size_t> got = (limit == -1 && r.b()) ? g.findNearest(q, dist) : g.findNearest(q, dist, limit);
      double qx, qy; where(q, bary, qx, qy);
      const size_t lim = limit > 0 ? limit : n;
      std::set<size_t> s(got.begin(), got.end());
      check(s.size() == got.size(), "an index is returned twice");
      for (size_t i : got) check(i < lim, fmt("index %zu returned, only the first %zu count", i, lim));
      for (size_t i = 0; i < lim; ++i)
      {
        double x, y; where(g.scans[i], bary, x, y);
        const double d = std::hypot(x - qx, y - qy);
        if (std::fabs(d - dist) < 1e-9 * (1 + dist)) continue;
        check(s.count(i) == (d < dist), fmt("scan %zu at distance %.17g %s", i, d, s.count(i) ? "is returned" : "is not returned"));
      }
      check(g.scans == scans && g.constraints == cons, "the graph's lists change");
      for (int i = 0; i < n; ++i) check(g.scans[i]->getPose().x == before[i].x && g.scans[i]->getPose().y == before[i].y && g.scans[i]->getPose().theta == before[i].theta && int(g.scans[i]->getId()) == i, "a scan of the graph changes");
      check(q->getPose().x == qp.x && q->getPose().y == qp.y && q->getPose().theta == qp.theta && q->getId() == qid && q->getPoints().size() == qpts.size(), "the query changes");
    }
  });
  DONE();
}
