// units:
#include "common.hpp"
#include <ndt_2d/kd_tree.hpp>
#include <set>
using namespace ndt_2d;
int main()
{
  rp::repeat("tree", 1500, [](Rng & r)
  {
    double w[3];
    for (int k = 0; k < 3; ++k) w[k] = r.pick(std::vector<double>{0.5, 0.25, 1, 0.2671, 0.1, r.u(0.01, 3), 1e-3, 100});
    KDTree<double> t(w[0], w[1], w[2], r.i(0, 100));
    add(fmt("widths %.17g %.17g %.17g", w[0], w[1], w[2]));
    check(t.getLeafCount() == 0, "a new tree has bins");
    std::set<std::tuple<long, long, long>> bins;
    std::vector<Eigen::Vector3d> past;
    const int kind = r.i(0, 5);
    for (int n = r.i(1, r.b(0.1) ? 600 : 60); n > 0; --n)
    {
      if (r.b(0.02)) { t.clear(); bins.clear(); add("clear"); check(t.getLeafCount() == 0, "a cleared tree has bins"); continue; }
      Eigen::Vector3d v;
      if (!past.empty() && r.b(0.15)) v = past[r.i(0, past.size() - 1)];
      else for (int k = 0; k < 3; ++k)
      {
        switch (r.b(0.1) ? 6 : kind)
        {
          case 0: v(k) = w[k] * (r.i(-3, 3) + r.u(0.001, 0.999)); break;
          case 1: v(k) = w[k] * (r.i(-1000, 1000) + 0.5); break;
          case 2: v(k) = w[k] * (r.i(-1, 0) + 0.5); break;                    // either side of zero
          case 3: v(k) = w[k] * ((r.b(0.2) ? r.i(-100000, 100000) : r.i(-2, 2)) + r.u(0.001, 0.999)); break;
          case 4: v(k) = (k == int(n % 3)) ? w[k] * (r.i(-20, 20) + 0.5) : 0.5 * w[k]; break;   // differs along one axis only
          case 6: v(k) = w[k] * r.i(-4, 4); break;                              // on an edge
          default: v(k) = r.u(-1, 1) * w[k] * std::pow(10, r.u(0, 7)); break;
        }
      }
      past.push_back(v);
      long b[3]; bool edge = false;
      for (int k = 0; k < 3; ++k)
      {
        const long double q = (long double)v(k) / (long double)w[k];
        b[k] = long(std::floor(q));
        const bool exact = w[k] == 0.5 || w[k] == 0.25 || w[k] == 1;   // the division is exact
        if (!exact && std::fabs(double(q) - std::round(double(q))) < 1e-9 * (1 + std::fabs(double(q)))) edge = true;
      }
      if (edge) continue;
      bins.insert({b[0], b[1], b[2]});
      double val = r.u();
      Eigen::Vector3d key = v;
      t.insert(key, val);
      add(fmt("insert %.17g %.17g %.17g (bin %ld %ld %ld)", v(0), v(1), v(2), b[0], b[1], b[2]));
      check(t.getLeafCount() == bins.size(), fmt("%zu bins counted, %zu entered", t.getLeafCount(), bins.size()));
    }
  });
  DONE();
}
