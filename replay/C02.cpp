// units: ndt_model scan
#include "common.hpp"
#include <ndt_2d/ndt_model.hpp>
using ndt_2d::Cell;
typedef long double L;
int main()
{
  rp::repeat("score", 4000, [](Rng & r)
  {
    Cell c;
    const int n = r.i(0, 25), kind = r.i(0, 7), extra = r.b(0.3) ? r.i(1, 4) : 0;
    const double ox = kind == 6 ? r.u(-1e4, 1e4) : r.coord(5), oy = kind == 6 ? r.u(-1e4, 1e4) : r.coord(5);
    const double th = r.angle(), la = std::pow(10, r.u(-2, 0.5)), lb = la * (kind == 1 ? 0 : kind == 2 ? std::pow(10, r.u(-3, 0)) : r.u(0.2, 1));
    std::vector<std::array<double, 2>> p;
    for (int k = 0; k < n + extra; ++k)
    {
      const double u = r.u(-la, la), v = r.u(-lb, lb);
      double x = ox + cos(th) * u - sin(th) * v, y = oy + sin(th) * u + cos(th) * v;
      if (kind == 3) { x = ox; y = oy; }
      if (kind == 4) y = oy;
      if (kind == 5) x = ox;
      p.push_back({x, y});
      add(fmt("add(%.17g, %.17g)", x, y));
      c.addPoint(Eigen::Vector2d(x, y));
      if (k == n - 1 && extra) { c.compute(); add("compute"); }
    }
    c.compute(); add("compute");
    const size_t N = p.size();
    L mx = 0, my = 0, a = 0, b = 0, d = 0;
    for (auto & q : p) { mx += q[0]; my += q[1]; }
    if (N) { mx /= N; my /= N; }
    for (auto & q : p) { a += (q[0] - mx) * (q[0] - mx); b += (q[0] - mx) * (q[1] - my); d += (q[1] - my) * (q[1] - my); }
    if (N > 1) { a /= N - 1; b /= N - 1; d /= N - 1; }
    const L tr = a + d, df = sqrtl((a - d) * (a - d) + 4 * b * b), hi = (tr + df) / 2, lo = (tr - df) / 2;
    const L mag = 1 + mx * mx + my * my;
    std::vector<Eigen::Vector2d> qs;
    qs.push_back(Eigen::Vector2d(double(mx), double(my)));
    for (int k = 0; k < 6; ++k) { const double w = std::pow(10, r.u(-3, 0.7)); qs.push_back(Eigen::Vector2d(double(mx) + r.u(-w, w), double(my) + r.u(-w, w))); }
    qs.push_back(Eigen::Vector2d(1e6, -1e6));
    for (size_t k = 0; k < qs.size(); ++k)
    {
      const Eigen::Vector2d q = qs[k];
      const double s = c.score(q);
      const std::string at = fmt(" at (%.17g, %.17g): %.17g", q(0), q(1), s);
      check(std::isfinite(s) && s >= 0 && s <= 1, "score is not in [0, 1]" + at);
      if (N < 5) check(s == 0, "score of fewer than five points" + at);
      if (N < 5) continue;
      bool same = true;
      for (auto & z : p) same = same && z[0] == p[0][0] && z[1] == p[0][1];
      if (same && kind == 3 && (ox == 0.0 && oy == 0.0)) check(s == 0, "score of coinciding points" + at);
      if (hi < 1e-9L * mag) continue;
      if (k == 0) { check(s > 1 - 1e-6, "score at the mean" + at); continue; }
      if (fabsl(lo - 0.001L * hi) < 1e-7L * mag + 1e-5L * hi) continue;
      const L det = lo < 0.001L * hi ? 0.001L * hi * hi : a * d - b * b;
      const L x = q(0) - mx, y = q(1) - my;
      const L m = (d * x * x - 2 * b * x * y + a * y * y) / det;
      const L e = expl(-m / 2);
      const L rel = 1e-13L * mag / (lo < 0.001L * hi ? 0.001L * hi : lo);
      if (rel > 1e-4L) continue;
      near(s, double(e), double(1e-9L + e * (m + 1) * (rel * 100 + 1e-12L)) + 1e-6 * (hi < 1e-6L * mag), "score is not the Gaussian of the distance to the mean" + at);
    }
  });
  {
    rp::context() = "coinciding points";
    for (double z : {0.0, 1.0, -3.5, 1e-9, 1234.5678, 0.1})
    {
      Cell c;
      for (int k = 0; k < 12; ++k)
      {
        c.addPoint(Eigen::Vector2d(z, z)); c.compute();
        for (double o : {0.0, 1e-3, 5.0})
        {
          const double s = c.score(Eigen::Vector2d(z + o, z));
          check(std::isfinite(s) && s >= 0 && s <= 1, fmt("%d points at (%g, %g): score %g", k + 1, z, z, s));
          if (o == 5.0 || k < 4) check(s < 1e-9, fmt("%d points at (%g, %g): score %g at distance %g", k + 1, z, z, s, o));
        }
      }
    }
  }
  DONE();
}
