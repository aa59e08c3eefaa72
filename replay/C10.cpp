// units: particle_filter motion_model scan
// flags: -U_GLIBCXX_ASSERTIONS
#include "pf.hpp"
typedef long double L;
static void statistics(ParticleFilter & f, const std::vector<Eigen::Vector3d> & p, const std::vector<double> & score, const std::string & when)
{
  const size_t n = p.size();
  L S = 0; for (double s : score) S += s;
  std::vector<L> w(n);
  for (size_t i = 0; i < n; ++i) w[i] = S != 0 ? L(score[i]) / S : L(1) / n;
  L mx = 0, my = 0, c = 0, s = 0, big = 1;
  for (size_t i = 0; i < n; ++i) { mx += w[i] * p[i](0); my += w[i] * p[i](1); c += w[i] * cosl(p[i](2)); s += w[i] * sinl(p[i](2)); big = std::max<L>(big, std::max(fabsl(p[i](0)), fabsl(p[i](1)))); }
  L xx = 0, xy = 0, yy = 0, tt = 0;
  const L th = atan2l(s, c);
  for (size_t i = 0; i < n; ++i)
  {
    xx += w[i] * (p[i](0) - mx) * (p[i](0) - mx); xy += w[i] * (p[i](0) - mx) * (p[i](1) - my); yy += w[i] * (p[i](1) - my) * (p[i](1) - my);
    const L d = remainderl(th - p[i](2), 2 * M_PIl); tt += w[i] * d * d;
  }
  const Eigen::Vector3d m = f.getMean(); const Eigen::Matrix3d k = f.getCovariance();
  const double tol = double(1e-9 * big), tol2 = double(1e-9 * big * big);
  near(m(0), mx, tol, when + ": mean x"); near(m(1), my, tol, when + ": mean y");
  if (hypotl(c, s) > 1e-4)
  {
    check(std::isfinite(m(2)) && std::fabs(rp::norm_angle(m(2) - double(th))) < 1e-6, when + fmt(": mean heading: got %.17g, expected %.17g", m(2), double(th)));
    near(k(2, 2), tt, 1e-5, when + ": heading variance");
  }
  near(k(0, 0), xx, tol2, when + ": covariance x x"); near(k(0, 1), xy, tol2, when + ": covariance x y"); near(k(1, 0), xy, tol2, when + ": covariance y x"); near(k(1, 1), yy, tol2, when + ": covariance y y");
}
int main()
{
  rp::repeat("filter", 400, [](Rng & r)
  {
    const int mn = r.i(1, 40), mx = r.b(0.3) ? mn : r.i(mn, 120);
    auto mm = std::make_shared<MotionModel>(r.u(0, 0.1), r.u(0, 0.1), r.u(0, 0.1), r.u(0, 0.1), 0);
    ParticleFilter f(mn, mx, mm);
    add(fmt("min %d max %d", mn, mx));
    auto match = std::make_shared<Matcher>(); ScanMatcherPtr mp = match;
    auto scan = std::make_shared<Scan>(0);
    scan->setPoints({Point(1, 2), Point(2, 1)});
    std::vector<Eigen::Vector3d> p = particles(f);
    check(int(p.size()) == mn, "a new filter has the minimum number of particles");
    std::vector<double> w(p.size(), 1);
    statistics(f, p, w, "after construction");
    bool init = false;
    for (int k = r.i(1, 9); k > 0; --k)
    {
      std::string what;
      switch (init ? r.i(0, 9) : 0)
      {
        case 0:
        {
          const double sc = r.pick(std::vector<double>{0.1, 1, 10});
          f.init(r.coord(100), r.coord(100), r.angle(), r.u(0.01, sc), r.u(0.01, sc), r.u(0.001, 0.5)); init = true; what = "init";
          std::vector<Eigen::Vector3d> q = particles(f);
          check(q.size() == p.size(), "init keeps the number of particles");
          p = q; w.assign(p.size(), 1); break;
        }
        case 1: case 2: case 3:
        {
          f.update(r.coord(1), r.coord(1), r.angle()); what = "update";
          std::vector<Eigen::Vector3d> q = particles(f);
          check(q.size() == p.size(), "update keeps the number of particles");
          p = q; break;
        }
        case 4: case 5: case 6:
        {
          const int kind = r.i(0, 7); match->f = hash_score(kind, r.next());
          f.measure(mp, scan); what = fmt("measure %d", kind);
          std::vector<Eigen::Vector3d> q = particles(f);
          check(q == p, "measure keeps the particles");
          for (size_t i = 0; i < p.size(); ++i) w[i] = match->f(p[i](0), p[i](1), p[i](2));
          L S = 0; for (double x : w) S += x;
          if (S == 0) w.assign(p.size(), 1);
          break;
        }
        default:
        {
          f.resample(r.pick(std::vector<double>{0.01, 0.05, 0.5}), r.pick(std::vector<double>{0, 0.99, 2.33})); what = "resample";
          std::vector<Eigen::Vector3d> q = particles(f);
          std::vector<double> v;
          for (auto & a : q)
          {
            size_t i = 0; while (i < p.size() && !(p[i](0) == a(0) && p[i](1) == a(1))) ++i;
            check(i < p.size(), "a resampled particle existed before");
            v.push_back(w[i]);
          }
          p = q; w = v;
        }
      }
      add(what);
      statistics(f, p, w, "after " + what);
    }
  });
  DONE();
}
