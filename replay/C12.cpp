// units: motion_model
// flags: -U_GLIBCXX_ASSERTIONS
#include "common.hpp"
#include <ndt_2d/motion_model.hpp>
using namespace ndt_2d;
typedef std::vector<Eigen::Vector3d> Poses;
static double axis(double a) { a = std::fabs(rp::norm_angle(a)); return std::min(a, M_PI - a); }
// sample spread against the configured one: 12 standard errors
static void spread(const std::vector<double> & v, double mean, double var, const std::string & what)
{
  const double n = v.size(); double m = 0, s = 0;
  for (double x : v) m += x; m /= n;
  for (double x : v) s += (x - m) * (x - m); s /= n;
  const double sd = std::sqrt(var);
  near(m, mean, 12 * sd / std::sqrt(n) + 2e-6 * (1 + std::fabs(mean)), "mean of the " + what);
  near(std::sqrt(s), sd, 12 * sd / std::sqrt(2 * n) + 2e-6 * (1 + std::fabs(mean)), "spread of the " + what);
}
static double corr(const std::vector<double> & a, const std::vector<double> & b, size_t lag)
{
  const size_t n = a.size() - lag; double ma = 0, mb = 0, x = 0, y = 0, z = 0;
  for (size_t i = 0; i < n; ++i) { ma += a[i]; mb += b[i + lag]; }
  ma /= n; mb /= n;
  for (size_t i = 0; i < n; ++i) { x += (a[i] - ma) * (b[i + lag] - mb); y += (a[i] - ma) * (a[i] - ma); z += (b[i + lag] - mb) * (b[i + lag] - mb); }
  return x / std::sqrt(y * z);
}
int main()
{
  rp::repeat("exact", 20000, [](Rng & r)
  {
    MotionModel m(0, 0, 0, 0, r.b() ? 0 : r.u(0, 1));
    double dx, dy;
    do
    {
      const double sc = r.pick(std::vector<double>{0.02, 0.1, 1, 10});
      switch (r.i(0, 3)) { case 0: dx = r.u(-sc, sc); dy = 0; break; case 1: dx = 0; dy = r.u(-sc, sc); break; case 2: dx = r.u(-sc, sc); dy = r.b() ? dx : -dx; break; default: dx = r.u(-sc, sc); dy = r.u(-sc, sc); }
    } while (std::hypot(dx, dy) < 0.0101);
    const double dth = r.angle();
    Poses p(r.i(0, 6)), q;
    for (auto & v : p) v = Eigen::Vector3d(r.coord(), r.coord(), r.angle());
    q = p;
    add(fmt("step (%.17g, %.17g, %.17g), %zu particles", dx, dy, dth, p.size()));
    m.sample(dx, dy, dth, q);
    check(q.size() == p.size(), "number of particles");
    const double tol = 2e-6 * (1 + std::hypot(dx, dy));
    for (size_t i = 0; i < p.size(); ++i)
    {
      add(fmt("particle (%.17g, %.17g, %.17g)", p[i](0), p[i](1), p[i](2)));
      const double c = std::cos(p[i](2)), s = std::sin(p[i](2));
      near(q[i](0), p[i](0) + c * dx - s * dy, tol, "x without noise");
      near(q[i](1), p[i](1) + s * dx + c * dy, tol, "y without noise");
      check(rp::adiff(q[i](2), p[i](2) + dth) <= 2e-6, fmt("heading without noise: got %.17g, expected %.17g", q[i](2), rp::norm_angle(p[i](2) + dth)));
      check(q[i](2) > -M_PI - 1e-9 && q[i](2) <= M_PI + 1e-9, "heading is normalized");
    }
  });
  rp::repeat("spread", 60, [](Rng & r)
  {
    double a[5];
    for (double & x : a) x = r.b(0.35) ? 0 : r.u(0.001, 0.02);
    const int kind = r.i(0, 4);
    double d = r.pick(std::vector<double>{0.002, 0.05, 0.5, 2}), dir = kind == 0 ? 0 : kind == 1 ? M_PI : r.angle();
    const double dx = d * std::cos(dir), dy = d * std::sin(dir), dth = r.b(0.3) ? 0 : r.angle();
    MotionModel m(a[0], a[1], a[2], a[3], a[4]);
    const int N = 20000;
    const Eigen::Vector3d p0(r.coord(), r.coord(), r.angle());
    Poses q(N, p0);
    add(fmt("parameters %.9g %.9g %.9g %.9g %.9g, step (%.17g, %.17g, %.17g), heading %.9g", a[0], a[1], a[2], a[3], a[4], dx, dy, dth, p0(2)));
    // in several calls: the draws of a call do not depend on the earlier ones
    const int parts = r.i(1, 3);
    if (parts == 1) m.sample(dx, dy, dth, q);
    else { Poses all; for (int k = 0; k < parts; ++k) { Poses b(N / parts, p0); m.sample(dx, dy, dth, b); all.insert(all.end(), b.begin(), b.end()); } q = all; }
    const double m1 = d > 0.01 ? std::atan2(dy, dx) : 0, m2 = rp::norm_angle(dth - m1), d1 = axis(m1), d2 = axis(m2);
    const double v1 = a[0] * d1 * d1 + a[1] * d * d, vt = a[2] * d * d + a[3] * (d1 * d1 + d2 * d2), v2 = a[0] * d2 * d2 + a[1] * d * d;
    std::vector<double> r1, t, r2;
    const double h0 = p0(2) + m1;
    for (auto & v : q)
    {
      check(std::isfinite(v(0)) && std::isfinite(v(1)) && std::isfinite(v(2)), "poses are finite");
      check(v(2) > -M_PI - 1e-9 && v(2) <= M_PI + 1e-9, "heading is normalized");
      const double X = v(0) - p0(0), Y = v(1) - p0(1);
      const double sg = X * std::cos(h0) + Y * std::sin(h0) >= 0 ? 1 : -1;
      t.push_back(sg * std::hypot(X, Y));
      const double e1 = rp::norm_angle(std::atan2(sg * Y, sg * X) - h0);
      r1.push_back(e1);
      r2.push_back(rp::norm_angle(v(2) - p0(2) - m1 - e1 - m2));
    }
    if (std::sqrt(vt) > 1e-4 || d > 0.01)
    {
      const double fl = 3e-7 / std::max(1e-3, d);     // direction of a short step in single precision
      if (fl < 1e-4 && std::sqrt(vt) < d / 8) { spread(r1, 0, v1, "first rotation"); spread(r2, 0, v2, "second rotation"); }
      spread(t, d, vt, "distance");
      // the turn is the sum of both rotations
      std::vector<double> sum; for (auto & v : q) sum.push_back(rp::norm_angle(v(2) - p0(2) - dth));
      if (v1 + v2 < 0.3) spread(sum, 0, v1 + v2, "turn");
      const double lim = 12 / std::sqrt(double(q.size()));
      if (v1 > 1e-6 && vt > 1e-8) { check(std::fabs(corr(r1, t, 0)) < lim, "first rotation and distance are independent"); check(std::fabs(corr(r1, r1, 1)) < lim, "rotations of neighbouring particles are independent"); check(std::fabs(corr(t, t, 1)) < lim, "distances of neighbouring particles are independent"); }
      if (v2 > 1e-6) check(std::fabs(corr(r2, r2, 1)) < lim, "second rotations of neighbouring particles are independent");
      if (v1 > 1e-6 && v2 > 1e-6 && std::sqrt(vt) < d / 8) check(std::fabs(corr(r1, r2, 0)) < lim, "both rotations are independent");
    }
    if (v2 > 1e-4)
    {
      std::set<double> s; for (auto & v : q) s.insert(v(2));
      check(s.size() > q.size() / 4, fmt("every particle is moved on its own (%zu different headings of %zu)", s.size(), q.size()));
    }
  });
  rp::repeat("reverse", 60, [](Rng & r)
  {
    // the same distance backwards: same spread as forwards
    const double a[4] = {r.u(0, 0.02), r.u(0, 0.02), r.u(0, 0.02), r.u(0, 0.02)}, d = r.u(0.05, 1), dth = r.b() ? 0 : r.u(-0.3, 0.3);
    MotionModel m(a[0], a[1], a[2], a[3], 0);
    const int N = 20000;
    double s[2];
    add(fmt("parameters %.9g %.9g %.9g %.9g, %.17g back, turn %.17g", a[0], a[1], a[2], a[3], d, dth));
    for (int k = 0; k < 2; ++k)
    {
      Poses q(N, Eigen::Vector3d(0, 0, 0));
      m.sample(k ? -d : d, 0, dth, q);
      double e = 0; for (auto & v : q) { const double x = rp::norm_angle(v(2) - dth); e += x * x; }
      s[k] = std::sqrt(e / N);
    }
    near(s[1], s[0], 0.1 * s[0] + 1e-6, "spread of the turn, reverse and forward");
  });
  DONE();
}
