// units: ndt_model scan
#include "common.hpp"
#include <ndt_2d/ndt_model.hpp>
using namespace ndt_2d;
typedef long double L;
struct Case { double cs, sx, sy, ox, oy; };
static std::shared_ptr<Scan> mk(const Pose2d & p, const std::vector<Point> & v) { auto s = std::make_shared<Scan>(0); s->setPose(p); s->setPoints(v); return s; }
// the square of a point; false when too near a border of a square to say, rounding considered
static bool square(const Case & c, double x, double y, long & gx, long & gy, bool & inside)
{
  const L u = (L(x) - c.ox) / c.cs, v = (L(y) - c.oy) / c.cs;
  inside = false; gx = gy = -1;
  if (!(std::fabs(double(u)) < 1e9) || !(std::fabs(double(v)) < 1e9)) return true;
  if (fabsl(u - roundl(u)) < 1e-7L || fabsl(v - roundl(v)) < 1e-7L) return false;
  gx = long(floorl(u)); gy = long(floorl(v));
  const long nx = long(floor(c.sx / c.cs + 1e-12)) + 1, ny = long(floor(c.sy / c.cs + 1e-12)) + 1;
  inside = gx >= 0 && gy >= 0 && gx < nx && gy < ny;
  return true;
}
int main()
{
  rp::repeat("scans added to a grid", 900, [](Rng & r)
  {
    Case c; c.cs = r.pick(std::vector<double>{0.25, 0.1, 0.5, 1.0, 0.3, 2.0});
    // sizes that are not a whole number of cells: the grid's border is never in doubt
    c.sx = c.cs * (r.i(0, 12) + r.pick(std::vector<double>{0.5, 0.25, 0.7})); c.sy = c.cs * (r.i(0, 12) + r.pick(std::vector<double>{0.5, 0.3, 0.75}));
    c.ox = r.coord(5); c.oy = r.coord(5);
    add(fmt("NDT(%.17g, %.17g, %.17g, %.17g, %.17g)", c.cs, c.sx, c.sy, c.ox, c.oy));
    NDT ndt(c.cs, c.sx, c.sy, c.ox, c.oy);
    std::map<std::pair<long, long>, std::vector<Eigen::Vector2d>> ref;
    const int ns = r.i(0, 6);
    for (int k = 0; k < ns; ++k)
    {
      const Pose2d pose(c.ox + r.u(-1, c.sx + 1), c.oy + r.u(-1, c.sy + 1), r.angle());
      const double C = cos(pose.theta), S = sin(pose.theta);
      std::vector<Point> pts;
      for (int cl = r.i(0, 5); cl > 0; --cl)
      {
        // a cluster inside one square (also just outside of the grid), in the frame of the scan
        const double wx = c.ox + (r.i(-2, int(c.sx / c.cs) + 2) + 0.5) * c.cs, wy = c.oy + (r.i(-2, int(c.sy / c.cs) + 2) + 0.5) * c.cs;
        for (int n = r.i(1, 8); n > 0; --n)
        {
          const double x = wx + r.u(-0.45, 0.45) * c.cs - pose.x, y = wy + r.u(-0.45, 0.45) * c.cs - pose.y;
          pts.push_back(Point(C * x + S * y, -S * x + C * y));
        }
      }
      if (r.b(0.3))
        for (int n = r.i(1, 4); n > 0; --n)
        {
          const double big = r.pick(std::vector<double>{1e3, 1e6, 2147483648.0, 4294967296.0, 1e10, 1e19, 1e25, 1e300, -1e3, -4294967296.0, -1e19, -1e300});
          pts.push_back(Point(big * r.u(0.9, 1.1), r.b() ? r.coord() : big));
        }
      add(fmt("addScan(pose %.17g %.17g %.17g, %zu points)", pose.x, pose.y, pose.theta, pts.size()));
      auto s = mk(pose, pts);
      ndt.addScan(s);
      for (auto & p : pts)
      {
        const double x = pose.x + C * p.x - S * p.y, y = pose.y + S * p.x + C * p.y;
        long gx, gy; bool in;
        if (!square(c, x, y, gx, gy, in)) { return; }
        if (in) ref[{gx, gy}].push_back(Eigen::Vector2d(x, y));
      }
      if (r.b(0.2)) ndt.compute();
    }
    ndt.compute();
    const long nx = long(c.sx / c.cs) + 1, ny = long(c.sy / c.cs) + 1;
    for (long gx = -1; gx <= nx; ++gx)
      for (long gy = -1; gy <= ny; ++gy)
      {
        Cell cell;
        auto it = ref.find({gx, gy});
        if (it != ref.end()) { for (auto & p : it->second) cell.addPoint(p); }
        cell.compute();
        for (int n = 0; n < 2; ++n)
        {
          const Eigen::Vector2d q = n == 0 && it != ref.end() ? it->second[0] : Eigen::Vector2d(c.ox + (gx + r.u(0.05, 0.95)) * c.cs, c.oy + (gy + r.u(0.05, 0.95)) * c.cs);
          const double e = cell.score(q), g = ndt.likelihood(q);
          near(g, e, 1e-6, fmt("score at (%.17g, %.17g), square (%ld, %ld) with %zu points", q(0), q(1), gx, gy, it == ref.end() ? size_t(0) : it->second.size()));
        }
      }
    for (double big : {1e6, 2147483648.0, 4294967296.0 * c.cs, 1e19, 1e300, -1e6, -4294967296.0 * c.cs, -1e19, -1e300, HUGE_VAL, -HUGE_VAL})
      for (double o : {0.5, 1.5, big})
      {
        near(ndt.likelihood(Eigen::Vector2d(big, c.oy + o * c.cs)), 0, 0, fmt("score at (%g, %g)", big, o));
        near(ndt.likelihood(Eigen::Vector2d(c.ox + o * c.cs, big)), 0, 0, fmt("score at (%g, %g)", o, big));
      }
  });
  rp::repeat("every point counts once", 300, [](Rng & r)
  {
    // n - 1 points of a square plus one more: a fifth point turns the score on
    const double cs = r.pick(std::vector<double>{0.25, 0.5, 1.0});
    const int nx = r.i(1, 9), ny = r.i(1, 9);
    NDT ndt(cs, (nx - 0.5) * cs, (ny - 0.5) * cs, 0, 0);
    const int gx = r.i(0, nx - 1), gy = r.i(0, ny - 1);
    std::vector<Eigen::Vector2d> all;
    const int total = r.i(4, 7);
    add(fmt("grid %d x %d of %g, square (%d, %d), %d points one scan each", nx, ny, cs, gx, gy, total));
    Cell ref;
    for (int k = 0; k < total; ++k)
    {
      const Eigen::Vector2d p((gx + r.u(0.1, 0.9)) * cs, (gy + r.u(0.1, 0.9)) * cs);
      ndt.addScan(mk(Pose2d(p(0), p(1), r.angle()), {Point(0, 0)}));
      all.push_back(p); ref.addPoint(p);
      if (r.b(0.3)) ndt.compute();
    }
    ndt.compute(); ref.compute();
    for (auto & p : all) near(ndt.likelihood(p), ref.score(p), 1e-6, fmt("score at (%.17g, %.17g)", p(0), p(1)));
  });
  DONE();
}
