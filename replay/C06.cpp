// units: constraint scan ndt_model
#include "common.hpp"
#include <ndt_2d/constraint.hpp>
using namespace ndt_2d;
typedef long double L;
int main()
{
  rp::repeat("makeConstraint", 6000, [](Rng & r)
  {
    auto a = std::make_shared<Scan>(r.i(0, 1 << 20)), b = std::make_shared<Scan>(r.i(0, 1 << 20));
    const Pose2d p(r.coord(), r.coord(), r.angle()), q(r.coord(), r.coord(), r.angle());
    a->setPose(p); b->setPose(q);
    std::vector<Point> v; for (int n = r.i(0, 4); n > 0; --n) v.push_back(Point(r.coord(), r.coord()));
    a->setPoints(v); b->setPoints(v);
    Eigen::Matrix3d m;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = r.u(-1, 1);
    Eigen::Matrix3d cov = m * m.transpose() + Eigen::Matrix3d::Identity() * 0.05;
    if (r.b(0.3)) cov *= std::pow(10, r.u(-6, 3));
    if (r.b(0.3)) cov = m + 3 * Eigen::Matrix3d::Identity();      // not symmetric
    const Eigen::Matrix3d cov0 = cov;
    add(fmt("from (%.17g, %.17g, %.17g) to (%.17g, %.17g, %.17g)", p.x, p.y, p.theta, q.x, q.y, q.theta));
    ConstraintPtr k = makeConstraint(a, b, cov);
    check(!!k, "a constraint is returned");
    check(k->begin == a->getId() && k->end == b->getId(), "ids of the two scans");
    const L c = cosl(p.theta), s = sinl(p.theta), dx = L(q.x) - p.x, dy = L(q.y) - p.y;
    near(k->transform(0), double(c * dx + s * dy), 1e-9, "transform x in the frame of the first scan");
    near(k->transform(1), double(c * dy - s * dx), 1e-9, "transform y in the frame of the first scan");
    const double tol = 1e-9 * (1 + std::fabs(p.theta) + std::fabs(q.theta));
    near(k->transform(2), q.theta - p.theta, tol, "transform theta is the heading difference");
    check(!k->switchable, "a new constraint is not switchable");
    check((cov - cov0).norm() == 0, "the covariance is not changed");
    const Eigen::Matrix3d id = k->information * cov0;
    check((id - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 1e-6, "information is the inverse of the covariance");
    check(a->getPose().x == p.x && a->getPose().y == p.y && a->getPose().theta == p.theta && b->getPose().x == q.x && b->getPose().y == q.y && b->getPose().theta == q.theta, "poses are not changed");
  });
  DONE();
}
