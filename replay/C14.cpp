// units: graph scan constraint
#include "common.hpp"
#include <rosbag2_cpp/writer.hpp>
#include <ndt_2d/graph.hpp>
using namespace ndt_2d;
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static double value(Rng & r)
{
  switch (r.i(0, 7)) { case 0: return 0; case 1: return r.u(-1e-9, 1e-9); case 2: return r.u(-1e6, 1e6); case 3: return r.i(-5, 5); case 4: return 1.0 / 3 * r.i(-9, 9); default: return r.u(-10, 10); }
}
struct Scn { size_t id; Pose2d p; std::vector<Point> v; };
struct Con { size_t b, e; Eigen::Vector3d t; Eigen::Matrix3d i; bool s; };
static void snap(const Graph & g, std::vector<Scn> & s, std::vector<Con> & c)
{
  for (auto & x : g.scans) s.push_back({x->getId(), x->getPose(), x->getPoints()});
  for (auto & x : g.constraints) c.push_back({size_t(x->begin), size_t(x->end), x->transform, x->information, x->switchable});
}
static void compare(const Graph & g, const std::vector<Scn> & s, const std::vector<Con> & c, const std::string & who)
{
  check(g.scans.size() == s.size(), fmt("%s has %zu scans, expected %zu", who.c_str(), g.scans.size(), s.size()));
  check(g.constraints.size() == c.size(), fmt("%s has %zu constraints, expected %zu", who.c_str(), g.constraints.size(), c.size()));
  for (size_t i = 0; i < s.size(); ++i)
  {
    auto & x = *g.scans[i]; const Pose2d p = x.getPose(); const auto v = x.getPoints();
    check(x.getId() == s[i].id, fmt("%s: scan %zu has id %zu, expected %zu", who.c_str(), i, x.getId(), s[i].id));
    check(same(p.x, s[i].p.x) && same(p.y, s[i].p.y) && same(p.theta, s[i].p.theta), fmt("%s: scan %zu is at (%.17g, %.17g, %.17g), expected (%.17g, %.17g, %.17g)", who.c_str(), i, p.x, p.y, p.theta, s[i].p.x, s[i].p.y, s[i].p.theta));
    check(v.size() == s[i].v.size(), fmt("%s: scan %zu has %zu points, expected %zu", who.c_str(), i, v.size(), s[i].v.size()));
    for (size_t j = 0; j < v.size(); ++j) check(same(v[j].x, s[i].v[j].x) && same(v[j].y, s[i].v[j].y), fmt("%s: point %zu of scan %zu", who.c_str(), j, i));
    double mx = 0, my = 0;
    for (auto & q : v) { mx += q.x; my += q.y; }
    if (!v.empty()) { mx /= v.size(); my /= v.size(); }
    const Pose2d b = x.getBarycenterPose();
    const double bx = p.x + std::cos(p.theta) * mx - std::sin(p.theta) * my;
    near(b.x, bx, 1e-9 * (1 + std::fabs(p.x) + std::fabs(mx) + std::fabs(my)), who + ": barycenter");
  }
  for (size_t i = 0; i < c.size(); ++i)
  {
    auto & x = *g.constraints[i];
    check(size_t(x.begin) == c[i].b && size_t(x.end) == c[i].e, fmt("%s: constraint %zu joins %zu and %zu, expected %zu and %zu", who.c_str(), i, size_t(x.begin), size_t(x.end), c[i].b, c[i].e));
    for (int k = 0; k < 3; ++k)
    {
      check(same(x.transform(k), c[i].t(k)), fmt("%s: transform(%d) of constraint %zu", who.c_str(), k, i));
      for (int l = 0; l < 3; ++l) check(same(x.information(k, l), c[i].i(k, l)), fmt("%s: information(%d, %d) of constraint %zu is %.17g, expected %.17g", who.c_str(), k, l, i, x.information(k, l), c[i].i(k, l)));
    }
    check(x.switchable == c[i].s, fmt("%s: switchable flag of constraint %zu", who.c_str(), i));
  }
}
int main()
{
  rp::repeat("round trips", 6000, [](Rng & r)
  {
    Graph g(r.b());
    const int n = r.i(0, 4) ? r.i(0, 6) : r.i(0, 40), m = r.i(0, 4) ? r.i(0, 6) : r.i(0, 40);
    for (int i = 0; i < n; ++i)
    {
      auto s = std::make_shared<Scan>(r.b(0.8) ? size_t(i) : size_t(r.next() >> 2));
      s->setPose(Pose2d(value(r), value(r), r.angle()));
      std::vector<Point> p(r.i(0, 3) ? r.i(0, 5) : r.i(0, 60));
      for (auto & q : p) q = Point(value(r), value(r));
      s->setPoints(p);
      if (r.b(0.3)) s->getBarycenterPose();
      g.scans.push_back(s);
    }
    for (int i = 0; n && i < m; ++i)
    {
      auto c = std::make_shared<Constraint>();
      c->begin = r.i(0, n - 1); c->end = r.i(0, n - 1);
      for (int k = 0; k < 3; ++k) { c->transform(k) = k == 2 ? r.angle() : value(r); for (int l = 0; l < 3; ++l) c->information(k, l) = value(r); }
      c->switchable = r.b();
      g.constraints.push_back(c);
    }
    add(fmt("%zu scans, %zu constraints", g.scans.size(), g.constraints.size()));
    std::vector<Scn> s; std::vector<Con> c; snap(g, s, c);
    const auto scans = g.scans; const auto cons = g.constraints;
    static long file = 0;
    const std::string name = fmt("bag%ld", ++file);
    check(g.save(name), "saving succeeds");
    check(g.scans == scans && g.constraints == cons, "saving keeps the lists");
    compare(g, s, c, "the saved graph");
    Graph h(r.b(), name);
    compare(h, s, c, "the loaded graph");
    // what was loaded is its own copy, and can be saved again
    if (r.b(0.3))
    {
      check(h.save(name + "b"), "saving again succeeds");
      Graph k(r.b(), name + "b");
      compare(k, s, c, "the graph loaded again");
    }
    for (auto & x : h.scans) { x->setPose(Pose2d(99, 99, 1)); x->setPoints({}); }
    compare(g, s, c, "the graph after changes to the loaded one");
    fake::bags.clear();
  });
  DONE();
}
