// units: ceres_solver constraint scan ndt_model
// flags: -DWITH_CERES
#include "common.hpp"
#include <ndt_2d/ceres_solver.hpp>
#include <ndt_2d/constraint.hpp>
using namespace ndt_2d;
static Eigen::Matrix3d info(Rng & r)
{
  Eigen::Matrix3d m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = r.u(-0.5, 0.5);
  return m * m.transpose() + Eigen::Matrix3d::Identity() * r.u(0.5, 1.5);
}
struct P { double x, y, t; };
static P mul(const P & a, const P & b) { const double c = cos(a.t), s = sin(a.t); return {a.x + c * b.x - s * b.y, a.y + s * b.x + c * b.y, a.t + b.t}; }
static P inv(const P & a) { const double c = cos(a.t), s = sin(a.t); return {-c * a.x - s * a.y, s * a.x - c * a.y, -a.t}; }
static P of(const Pose2d & p) { return {p.x, p.y, p.theta}; }
static Pose2d to(const P & p) { return Pose2d(p.x, p.y, p.t); }
static ConstraintPtr con(size_t b, size_t e, const P & m, const Eigen::Matrix3d & w)
{
  auto c = std::make_shared<Constraint>();
  c->begin = b; c->end = e; c->switchable = false; c->transform << m.x, m.y, m.t; c->information = w;
  return c;
}
static void same(const Pose2d & a, const P & b, double tol, const std::string & what)
{
  const double d = std::max(std::max(std::fabs(a.x - b.x), std::fabs(a.y - b.y)), std::fabs(std::remainder(a.theta - b.t, 2 * M_PI)));
  check(d <= tol, what + fmt(": (%.12g, %.12g, %.12g), expected (%.12g, %.12g, %.12g)", a.x, a.y, a.theta, b.x, b.y, b.t));
}
static void settle(CeresSolver & s, const std::vector<ConstraintPtr> & cs, std::vector<ScanPtr> & scans, int n, const char * what)
{
  for (int k = 0; k < n; ++k) check(s.optimize(cs, scans), what);
}
int main()
{
  { CeresSolver s; std::vector<ScanPtr> v; std::vector<ConstraintPtr> c; check(!s.optimize(c, v), "optimizing no scans returns false"); }
  // stars around the first scan: every other scan goes to the weighted optimum of its own
  // constraints, each counted once, however the list grew
  rp::repeat("growing star", 120, [](Rng & r)
  {
    CeresSolver solver; if (r.b(0.3)) solver.setVerbose(false);
    std::vector<ScanPtr> scans; std::vector<ConstraintPtr> cs;
    struct T { P base; Eigen::Matrix3d W = Eigen::Matrix3d::Zero(); Eigen::Vector3d v = Eigen::Vector3d::Zero(); int n = 0; };
    std::vector<T> t;
    const int calls = r.i(1, 4);
    std::string log;
    for (int call = 0; call < calls; ++call)
    {
      for (int k = r.i(call ? 0 : 1, 3); k > 0; --k)
      {
        scans.push_back(std::make_shared<Scan>(scans.size())); scans.back()->setPose(Pose2d(r.u(-3, 3), r.u(-3, 3), r.u(-1, 1)));
        T n; n.base = {r.u(-3, 3), r.u(-3, 3), r.u(-1, 1)}; t.push_back(n);
        log += " scan";
      }
      // poses may change between calls
      if (r.b(0.5)) scans[0]->setPose(Pose2d(r.u(-3, 3), r.u(-3, 3), r.u(-1, 1)));
      for (size_t k = 1; k < scans.size(); ++k) if (!t[k].n && r.b(0.5)) scans[k]->setPose(Pose2d(r.u(-3, 3), r.u(-3, 3), r.u(-1, 1)));
      if (scans.size() > 1) for (int k = r.i(0, 4); k > 0; --k)
      {
        const size_t e = r.i(1, scans.size() - 1);
        const Eigen::Matrix3d w = info(r);
        Eigen::Vector3d d(r.u(-0.5, 0.5), r.u(-0.5, 0.5), r.u(-0.2, 0.2));
        T & q = t[e];
        cs.push_back(con(0, e, {q.base.x + d(0), q.base.y + d(1), q.base.t + d(2)}, w));
        q.W += w; q.v += w * d; ++q.n;
        log += fmt(" 0->%zu", e);
      }
      const P A = of(scans[0]->getPose());
      for (size_t k = 1; k < scans.size(); ++k) if (t[k].n && r.b(0.7)) scans[k]->setPose(to(mul(A, {t[k].base.x + r.u(-0.3, 0.3), t[k].base.y + r.u(-0.3, 0.3), t[k].base.t + r.u(-0.2, 0.2)})));
      std::vector<P> before; for (auto & s : scans) before.push_back(of(s->getPose()));
      settle(solver, cs, scans, 1, "optimization succeeds");
      log += fmt(" | ");
      add("calls:" + log);
      same(scans[0]->getPose(), before[0], 0, "the first scan stays at its current pose");
      for (size_t k = 1; k < scans.size(); ++k) if (!t[k].n) same(scans[k]->getPose(), before[k], 0, fmt("scan %zu, which no constraint uses, stays where it was", k));
      settle(solver, cs, scans, 4, "optimization succeeds again");
      for (size_t k = 1; k < scans.size(); ++k) if (t[k].n)
      {
        const Eigen::Vector3d b = t[k].W.ldlt().solve(t[k].v);
        same(scans[k]->getPose(), mul(A, {t[k].base.x + b(0), t[k].base.y + b(1), t[k].base.t + b(2)}), 2e-3, fmt("scan %zu is at the optimum of its %d constraints", k, t[k].n));
      }
    }
  });
  // trees in either direction: the constraints can all be met exactly
  rp::repeat("growing tree", 120, [](Rng & r)
  {
    CeresSolver solver;
    std::vector<ScanPtr> scans; std::vector<ConstraintPtr> cs; std::vector<P> want;
    std::string log;
    const bool free = r.b(0.2);          // no constraint touches the first scan
    for (int call = r.i(1, 4); call > 0; --call)
    {
      for (int k = r.i(2, 4); k > 0; --k)
      {
        const size_t n = scans.size();
        scans.push_back(std::make_shared<Scan>(n));
        if (n == 0) { want.push_back({r.u(-3, 3), r.u(-3, 3), r.angle()}); scans[0]->setPose(to(want[0])); continue; }
        if (free && n == 1) { want.push_back({r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)}); scans[1]->setPose(to(want[1])); continue; }
        const size_t p = r.i(free ? 1 : 0, n - 1);
        const P m = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)};
        want.push_back(mul(want[p], m));
        scans[n]->setPose(to(mul(want[n], {r.u(-0.2, 0.2), r.u(-0.2, 0.2), r.u(-0.15, 0.15)})));
        if (r.b()) { cs.push_back(con(p, n, m, info(r))); log += fmt(" %zu->%zu", p, n); }
        else { cs.push_back(con(n, p, inv(m), info(r))); log += fmt(" %zu->%zu", n, p); }
      }
      log += " |";
      add("constraints:" + log);
      settle(solver, cs, scans, 5, "optimization succeeds");
      same(scans[0]->getPose(), want[0], 0, "the first scan stays at its pose");
      for (auto & c : cs)
      {
        const P a = of(scans[c->begin]->getPose()), b = of(scans[c->end]->getPose()), m = {c->transform(0), c->transform(1), c->transform(2)};
        same(to(mul(inv(a), b)), m, 3e-3, fmt("constraint %zu->%zu is met", c->begin, c->end));
      }
      if (!free) for (size_t k = 0; k < scans.size(); ++k) same(scans[k]->getPose(), want[k], 2e-2, fmt("scan %zu", k));
    }
  });
  // an unusable solution
  rp::repeat("failure", 60, [](Rng & r)
  {
    CeresSolver solver;
    std::vector<ScanPtr> scans; std::vector<ConstraintPtr> cs;
    const int n = r.i(2, 5);
    for (int k = 0; k < n; ++k) { scans.push_back(std::make_shared<Scan>(k)); scans[k]->setPose(Pose2d(r.u(-3, 3), r.u(-3, 3), r.u(-1, 1))); }
    for (int k = 1; k < n; ++k) cs.push_back(con(k - 1, k, {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)}, info(r)));
    if (r.b()) settle(solver, cs, scans, 1, "optimization succeeds");
    cs.push_back(con(0, r.i(1, n - 1), {std::nan(""), r.u(-1, 1), r.u(-1, 1)}, info(r)));
    for (int k = 0; k < n; ++k) if (r.b()) scans[k]->setPose(Pose2d(r.u(-3, 3), r.u(-3, 3), r.u(-1, 1)));
    std::vector<P> before; for (auto & s : scans) before.push_back(of(s->getPose()));
    add("a constraint whose measurement is not a number");
    check(!solver.optimize(cs, scans), "without a usable solution optimize returns false");
    for (int k = 0; k < n; ++k) same(scans[k]->getPose(), before[k], 0, fmt("failure leaves scan %d where it was", k));
  });
  DONE();
}
