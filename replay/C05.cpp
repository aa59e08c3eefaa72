// units: scan
#include "common.hpp"
#include <ndt_2d/scan.hpp>
using namespace ndt_2d;
typedef long double L;
int main()
{
  rp::repeat("operations in any order", 4000, [](Rng & r)
  {
    const size_t id = r.b() ? size_t(r.i(0, 1000)) : size_t(r.next() >> 1);
    Scan s(id);
    Pose2d pose; std::vector<Point> pts; bool posed = false;
    const int ops = r.i(1, 20);
    for (int k = 0; k < ops; ++k)
    {
      switch (r.i(0, 5))
      {
        case 0: pose = Pose2d(r.coord(), r.coord(), r.angle()); posed = true; s.setPose(pose); add(fmt("setPose(%.17g, %.17g, %.17g)", pose.x, pose.y, pose.theta)); break;
        case 1:
        {
          pts.clear();
          for (int n = r.i(0, 12); n > 0; --n) pts.push_back(Point(r.coord(), r.coord()));
          add(fmt("setPoints(%zu)", pts.size()));
          for (auto & p : pts) add(fmt("(%.17g, %.17g)", p.x, p.y));
          std::vector<Point> arg(pts);
          s.setPoints(arg);
          for (auto & p : arg) p.x += 1000;
          break;
        }
        case 2:
        {
          add("getBarycenterPose");
          const Pose2d b = s.getBarycenterPose();
          L sx = 0, sy = 0;
          for (auto & p : pts) { sx += p.x; sy += p.y; }
          if (!pts.empty()) { sx /= pts.size(); sy /= pts.size(); }
          const L c = cosl(pose.theta), n = sinl(pose.theta);
          near(b.x, double(pose.x + c * sx - n * sy), 1e-9, "barycenter x");
          near(b.y, double(pose.y + n * sx + c * sy), 1e-9, "barycenter y");
          check(b.theta == pose.theta, fmt("barycenter heading %.17g, pose heading %.17g", b.theta, pose.theta));
          break;
        }
        case 3: { add("getPose"); const Pose2d q = s.getPose(); check(q.x == pose.x && q.y == pose.y && q.theta == pose.theta, "getPose is not the pose last set"); break; }
        case 4:
        {
          add("getPoints");
          const std::vector<Point> v = s.getPoints();
          check(v.size() == pts.size(), "getPoints: number of points");
          for (size_t j = 0; j < v.size(); ++j) check(v[j].x == pts[j].x && v[j].y == pts[j].y, "getPoints: point differs");
          break;
        }
        default: add("getId"); check(s.getId() == id, "getId is not the id given");
      }
    }
    (void)posed;
  });
  DONE();
}
