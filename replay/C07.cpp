// units: ceres_solver constraint scan ndt_model
// flags: -DWITH_CERES
#include "common.hpp"
#include <ndt_2d/ceres_solver.hpp>
#include <ndt_2d/ceres_solver_pose.hpp>
#include <ndt_2d/constraint.hpp>
using namespace ndt_2d;
typedef long double L;
static Eigen::Matrix3d info(Rng & r)
{
  Eigen::Matrix3d m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = r.u(-1, 1);
  Eigen::Matrix3d w = m * m.transpose() + Eigen::Matrix3d::Identity() * r.u(0.05, 1);
  if (r.b(0.3)) for (int i = 0; i < 3; ++i) { const double s = std::pow(10, r.u(-1, 1)); w.row(i) *= s; w.col(i) *= s; }
  return w;
}
static L wrap(L a) { const L t = 2 * M_PIl; a = a - t * floorl((a + M_PIl) / t); return a; }
static void err(const double * a, const double * b, const double * m, L * e)
{
  const L c = cosl(a[2]), s = sinl(a[2]), dx = L(b[0]) - a[0], dy = L(b[1]) - a[1];
  e[0] = c * dx + s * dy - m[0]; e[1] = c * dy - s * dx - m[1]; e[2] = wrap(L(b[2]) - a[2] - m[2]);
}
int main()
{
  // the error term itself
  rp::repeat("error term", 6000, [](Rng & r)
  {
    double a[3] = {r.coord(), r.coord(), r.angle()}, b[3] = {r.coord(), r.coord(), r.angle()}, m[3] = {r.coord(), r.coord(), r.angle()};
    if (r.b(0.3)) { const L c = cosl(a[2]), s = sinl(a[2]); b[0] = double(a[0] + c * m[0] - s * m[1]); b[1] = double(a[1] + s * m[0] + c * m[1]); b[2] = a[2] + m[2] + 2 * M_PI * r.i(-3, 3); }
    Eigen::Matrix3d S; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) S(i, j) = r.u(-2, 2);
    std::unique_ptr<ceres::CostFunction> f(PoseGraph2dErrorTerm::Create(m[0], m[1], m[2], S));
    const double * prm[6] = {a, a + 1, a + 2, b, b + 1, b + 2};
    double res[3];
    check(f->Evaluate(prm, res, nullptr), "the term can be evaluated");
    L e[3]; err(a, b, m, e);
    add(fmt("a (%.17g, %.17g, %.17g) b (%.17g, %.17g, %.17g) measured (%.17g, %.17g, %.17g)", a[0], a[1], a[2], b[0], b[1], b[2], m[0], m[1], m[2]));
    if (fabsl(fabsl(e[2]) - M_PIl) < 1e-6) return;      // at the seam either end is right
    for (int i = 0; i < 3; ++i) near(res[i], double(S(i, 0) * e[0] + S(i, 1) * e[1] + S(i, 2) * e[2]), 1e-9, fmt("residual %d", i));
  });
  // a free scan between constraints from the fixed first scan: the weighted least squares
  // optimum of sum e' I e is known in closed form
  rp::repeat("weighted optimum", 250, [](Rng & r)
  {
    std::vector<ScanPtr> scans; std::vector<ConstraintPtr> cs;
    const double A[3] = {r.coord(), r.coord(), r.angle()};
    const double base[3] = {r.coord(), r.coord(), r.b(0.3) ? M_PI - 0.05 : r.angle()};
    const int n = r.i(1, 4);
    Eigen::Matrix3d W = Eigen::Matrix3d::Zero(); Eigen::Vector3d v = Eigen::Vector3d::Zero();
    scans.push_back(std::make_shared<Scan>(0)); scans.push_back(std::make_shared<Scan>(1));
    for (int k = 0; k < n; ++k)
    {
      auto c = std::make_shared<Constraint>();
      c->begin = 0; c->end = 1; c->switchable = false; c->information = info(r);
      Eigen::Vector3d d(r.u(-0.5, 0.5), r.u(-0.5, 0.5), r.u(-0.3, 0.3));
      for (int i = 0; i < 3; ++i) c->transform(i) = base[i] + d(i);
      c->transform(2) += 2 * M_PI * r.i(-1, 1);
      W += c->information; v += c->information * d;
      cs.push_back(c);
    }
    const Eigen::Vector3d best = W.ldlt().solve(v);
    const L c = cosl(A[2]), s = sinl(A[2]);
    auto world = [&](double x, double y, double t) { return Pose2d(double(A[0] + c * x - s * y), double(A[1] + s * x + c * y), A[2] + t); };
    scans[0]->setPose(Pose2d(A[0], A[1], A[2]));
    scans[1]->setPose(world(base[0] + r.u(-0.3, 0.3), base[1] + r.u(-0.3, 0.3), base[2] + r.u(-0.2, 0.2)));
    add(fmt("%d constraints from (%.17g, %.17g, %.17g)", n, A[0], A[1], A[2]));
    CeresSolver solver;
    for (int k = 0; k < 3; ++k) check(solver.optimize(cs, scans), "optimization succeeds");
    auto cost = [&](const Pose2d & p)
    {
      const double q[3] = {p.x, p.y, p.theta};
      L t = 0;
      for (auto & k : cs)
      {
        L e[3]; err(A, q, k->transform.data(), e);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t += e[i] * k->information(i, j) * e[j];
      }
      return double(t);
    };
    const Pose2d want = world(base[0] + best(0), base[1] + best(1), base[2] + best(2)), got = scans[1]->getPose();
    const double a = cost(got), b = cost(want);
    check(a <= b * 1.001 + 1e-6, fmt("sum e'We is %.9g at the solution (%.9g, %.9g, %.9g) but %.9g at (%.9g, %.9g, %.9g)", a, got.x, got.y, got.theta, b, want.x, want.y, want.theta));
  });
  DONE();
}
