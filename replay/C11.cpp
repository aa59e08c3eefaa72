// units: particle_filter motion_model scan
// flags: -U_GLIBCXX_ASSERTIONS
#include "pf.hpp"
#include <set>
static double Mx(double k, double err, double z)
{
  const double a = (k - 1) / (2 * err), b = 2 / (9 * (k - 1)), c = 1 - b + std::sqrt(b) * z;
  return a * c * c * c;
}
int main()
{
  rp::repeat("resample", 500, [](Rng & r)
  {
    const int mn = r.i(1, 60), mx = r.b(0.25) ? mn : r.i(mn, 400);
    auto mm = std::make_shared<MotionModel>(r.u(0, 0.1), r.u(0, 0.1), r.u(0, 0.1), r.u(0, 0.1), 0);
    ParticleFilter f(mn, mx, mm);
    add(fmt("min %d max %d", mn, mx));
    auto match = std::make_shared<Matcher>(); ScanMatcherPtr mp = match;
    auto scan = std::make_shared<Scan>(0); scan->setPoints({Point(1, 2)});
    if (r.b(0.9)) { f.init(r.coord(50), r.coord(50), r.angle(), r.u(0, r.b() ? 0.3 : 4), r.u(0, r.b() ? 0.3 : 4), r.u(0, 0.6)); add("init"); }
    std::vector<double> w(particles(f).size(), 1);
    for (int k = r.i(1, 6); k > 0; --k)
    {
      std::vector<Eigen::Vector3d> p = particles(f);
      if (r.b(0.5)) { f.update(r.coord(0.5), r.coord(0.5), r.angle() * 0.1); add("update"); p = particles(f); }
      if (r.b(0.7))
      {
        const int kind = r.i(0, 7); match->f = hash_score(kind, r.next()); f.measure(mp, scan); add(fmt("measure %d", kind));
        double S = 0;
        for (size_t i = 0; i < p.size(); ++i) { w[i] = match->f(p[i](0), p[i](1), p[i](2)); S += w[i]; }
        if (S == 0) w.assign(p.size(), 1);
      }
      if (r.b(0.1)) { f.init(r.coord(5), r.coord(5), r.angle(), r.u(0, 1), r.u(0, 1), r.u(0, 0.6)); add("init"); p = particles(f); w.assign(p.size(), 1); }
      std::map<std::tuple<double, double, double>, double> had;
      for (size_t i = 0; i < p.size(); ++i) had[{p[i](0), p[i](1), p[i](2)}] += std::fabs(w[i]);
      std::map<std::tuple<double, double, double>, double> each;
      bool same = true;
      for (size_t i = 0; i < p.size(); ++i)
      {
        auto it = each.insert({{p[i](0), p[i](1), p[i](2)}, w[i]}).first;
        if (std::fabs(it->second - w[i]) > 1e-12 * std::fabs(w[i])) same = false;
      }
      const double err = r.pick(std::vector<double>{0.001, 0.01, 0.05, 0.3, 2}), z = r.pick(std::vector<double>{0, 0.99, 2.33, 5});
      add(fmt("resample %g %g", err, z));
      f.resample(err, z);
      const std::vector<Eigen::Vector3d> q = particles(f);
      const double n = q.size();
      check(n >= mn && n <= mx, fmt("%g particles after resampling, bounds %d to %d", n, mn, mx));
      std::set<std::tuple<long, long, long>> bins; bool edge = false;
      for (auto & v : q)
      {
        auto it = had.find({v(0), v(1), v(2)});
        check(it != had.end(), fmt("particle (%.17g %.17g %.17g) was not there before resampling", v(0), v(1), v(2)));
        check(it->second > 0, fmt("particle (%.17g %.17g %.17g) had no weight before resampling", v(0), v(1), v(2)));
        const double h = v(2) / 0.2671;   // headings are read back through a quaternion: not exact, and modulo a turn
        if (std::fabs(h - std::round(h)) < 1e-6) edge = true;
        bins.insert({long(std::floor(v(0) / 0.5)), long(std::floor(v(1) / 0.5)), long(std::floor(h))});
      }
      // a heading outside (-pi, pi] reads back as another turn of it: the bins still correspond one
      // to one unless the filter holds both, which only a motion step can bring about
      bool turns = false;
      for (auto & v : q) if (std::fabs(v(2)) > 2.2) turns = true;
      if (!edge && !turns)
      {
        const double b = bins.size();
        if (b == 1) check(n == mx, fmt("resampling stopped at %g of %d particles with one bin occupied", n, mx));
        else
        {
          const double need = std::max<double>(mn, std::floor(Mx(b, err, z) * (1 - 1e-9)));
          check(n >= std::min<double>(mx, need) - 0.5, fmt("resampling stopped at %g particles with %g bins occupied: %g needed", n, b, need));
          // before the last draw at most b and at least b - 1 bins were occupied
          const double before = std::max<double>(mn, Mx(b, err, z));
          if (b > 2) check(n - 1 <= before + 0.5, fmt("resampling went on to %g particles with %g bins occupied: %g needed", n, b, before));
        }
      }
      // weights go with their particles: the mean is the one of the resampled weights
      if (same)
      {
        long double S = 0, mxx = 0, big = 1;
        for (auto & v : q) { const double ww = each[{v(0), v(1), v(2)}]; S += ww; mxx += (long double)ww * v(0); big = std::max<long double>(big, fabsl(v(0))); }
        near(f.getMean()(0), double(mxx / S), double(1e-9 * big), "after resampling: mean of the weights of the particles drawn");
      }
      w.clear(); for (auto & v : q) w.push_back(each[{v(0), v(1), v(2)}]);
      if (!same) break;
    }
  });
  DONE();
}
