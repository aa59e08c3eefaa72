// units: ndt_model scan
#include "common.hpp"
#include <ndt_2d/ndt_model.hpp>
using ndt_2d::Cell;
typedef long double L;
struct Ref { std::vector<std::array<double, 2>> p; };
static void stats(Cell & c, const Ref & r, bool after, double m)
{
  const size_t n = r.p.size();
  check(c.n == double(n), fmt("count is %g after %zu points", c.n, n));
  if (!n) return;
  L sx = 0, sy = 0, xx = 0, xy = 0, yy = 0;
  for (auto & q : r.p) { sx += q[0]; sy += q[1]; xx += L(q[0]) * q[0]; xy += L(q[0]) * q[1]; yy += L(q[1]) * q[1]; }
  const double e = 1e-12 * (n + 5), e2 = e * m * m;
  near(c.mean(0), double(sx / n), e * m, "mean x"); near(c.mean(1), double(sy / n), e * m, "mean y");
  near(c.correlation(0, 0), double(xx / n), e2, "second moment xx");
  near(c.correlation(0, 1), double(xy / n), e2, "second moment xy");
  near(c.correlation(1, 1), double(yy / n), e2, "second moment yy");
  if (after && n >= 3)
  {
    const L mx = sx / n, my = sy / n; L a = 0, b = 0, d = 0;
    for (auto & q : r.p) { a += (q[0] - mx) * (q[0] - mx); b += (q[0] - mx) * (q[1] - my); d += (q[1] - my) * (q[1] - my); }
    near(c.covariance(0, 0), double(a / (n - 1)), 8 * e2, "covariance xx");
    near(c.covariance(0, 1), double(b / (n - 1)), 8 * e2, "covariance xy");
    near(c.covariance(1, 0), double(b / (n - 1)), 8 * e2, "covariance yx");
    near(c.covariance(1, 1), double(d / (n - 1)), 8 * e2, "covariance yy");
  }
}
int main()
{
  rp::repeat("add and recompute in any order", 3000, [](Rng & r)
  {
    Cell c; Ref f;
    const int ops = r.i(1, r.b(0.1) ? 300 : 30), kind = r.i(0, 4);
    const double ox = r.coord(20), oy = r.coord(20), m0 = r.b() ? 1.0 : 0.05;
    double m = 1e-3;
    stats(c, f, false, 1);
    for (int k = 0; k < ops; ++k)
    {
      if (r.b(0.7))
      {
        double x = ox + r.u(-m0, m0), y = oy + r.u(-m0, m0);
        if (kind == 1) y = oy + (x - ox);          // on a line
        if (kind == 2) { x = ox; y = oy; }         // one place
        if (kind == 3 && r.b()) { x = ox; }
        m = std::max({m, std::fabs(x), std::fabs(y)});
        f.p.push_back({x, y});
        add(fmt("add(%.17g, %.17g)", x, y));
        c.addPoint(Eigen::Vector2d(x, y));
        stats(c, f, false, m);
      }
      else
      {
        add("compute");
        c.compute();
        stats(c, f, true, m);
        if (r.b(0.3))
        {
          const Eigen::Vector2d q(ox + r.u(-1, 1), oy + r.u(-1, 1));
          c.score(q); stats(c, f, true, m);
        }
      }
    }
  });
  DONE();
}
