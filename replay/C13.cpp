// units: occupancy_grid scan
#include "common.hpp"
#include <ndt_2d/occupancy_grid.hpp>
using namespace ndt_2d;
typedef std::vector<ScanPtr> Scans;
typedef nav_msgs::msg::OccupancyGrid Msg;
struct P2 { double x, y; };
static ScanPtr scan(double x, double y, double th, const std::vector<P2> & pts)
{
  static size_t id = 0;
  ScanPtr s = std::make_shared<Scan>(id++);
  std::vector<Point> v; for (auto & p : pts) v.push_back(Point(p.x, p.y));
  s->setPose(Pose2d(x, y, th)); s->setPoints(v);
  return s;
}
static P2 place(const ScanPtr & s, size_t j)
{
  Pose2d p = s->getPose(); Point q = s->getPoints()[j];
  return {p.x + std::cos(p.theta) * q.x - std::sin(p.theta) * q.y, p.y + std::sin(p.theta) * q.x + std::cos(p.theta) * q.y};
}
static void describe(const Scans & v, double res, double thr)
{
  add(fmt("resolution %.17g, threshold %.17g, %zu scans", res, thr, v.size()));
  for (auto & s : v)
  {
    Pose2d p = s->getPose(); std::string t = fmt("scan at (%.17g, %.17g, %.17g):", p.x, p.y, p.theta);
    for (auto & q : s->getPoints()) { if (t.size() < 1500) t += fmt(" (%.17g, %.17g)", q.x, q.y); }
    add(t);
  }
}
// room for everything, one entry per cell, only the three values
static void covers(const Scans & v, double res, const Msg & m)
{
  const double ox = m.info.origin.position.x, oy = m.info.origin.position.y;
  const double w = m.info.width * res, h = m.info.height * res, e = 1e-6 * res + 1e-9 * (std::fabs(ox) + std::fabs(oy) + w + h);
  near(m.info.resolution, res, 1e-6 * res, "resolution of the message");
  check(m.data.size() == size_t(m.info.width) * m.info.height, fmt("%zu entries for %u x %u cells", m.data.size(), m.info.width, m.info.height));
  auto in = [&](P2 p, const char * what)
  {
    check(p.x >= ox - e && p.x < ox + w - e && p.y >= oy - e && p.y < oy + h - e,
          fmt("%s (%.17g, %.17g) is outside the grid [%.17g, %.17g] x [%.17g, %.17g]", what, p.x, p.y, ox, ox + w, oy, oy + h));
  };
  for (auto & s : v)
  {
    in({s->getPose().x, s->getPose().y}, "pose");
    for (size_t j = 0; j < s->getPoints().size(); ++j) in(place(s, j), "point");
  }
  for (auto c : m.data) check(c == -1 || c == 0 || c == 100, fmt("cell value %d", int(c)));
}
// rays by the midpoint rule
static void reference(const Scans & v, double res, double thr, const Msg & m, bool exact)
{
  const double ox = m.info.origin.position.x, oy = m.info.origin.position.y;
  const int W = m.info.width, H = m.info.height;
  std::vector<int> hit(m.data.size(), 0), all(m.data.size(), 0);
  for (auto & s : v)
  {
    const int x0 = std::floor((s->getPose().x - ox) / res), y0 = std::floor((s->getPose().y - oy) / res);
    for (size_t j = 0; j < s->getPoints().size(); ++j)
    {
      P2 p = place(s, j);
      const int x1 = std::floor((p.x - ox) / res), y1 = std::floor((p.y - oy) / res);
      if (exact) check(m.data[x1 + size_t(y1) * W] != -1, fmt("the cell (%d, %d) of point %zu is unknown", x1, y1, j));
      else
      {
        bool ok = false;
        for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b)
            if (x1 + a >= 0 && y1 + b >= 0 && x1 + a < W && y1 + b < H && m.data[x1 + a + size_t(y1 + b) * W] != -1) ok = true;
        check(ok, fmt("nothing known around the cell (%d, %d) of point %zu", x1, y1, j));
        continue;
      }
      int x = x0, y = y0; const int dx = std::abs(x1 - x0), dy = std::abs(y1 - y0), sx = x0 < x1 ? 1 : -1, sy = y0 < y1 ? 1 : -1;
      long e = long(dx) - dy;
      for (int guard = 0; guard <= dx + dy; ++guard)
      {
        ++all[x + size_t(y) * W];
        if (x == x1 && y == y1) { ++hit[x + size_t(y) * W]; break; }
        const long e2 = 2 * e;
        const bool mx = e2 >= -dy, my = e2 <= dx;
        if (mx) { e -= dy; x += sx; }
        if (my) { e += dx; y += sy; }
      }
    }
  }
  if (!exact) return;
  for (size_t i = 0; i < m.data.size(); ++i)
  {
    const int want = !all[i] ? -1 : double(hit[i]) / all[i] > thr ? 100 : 0;
    check(m.data[i] == want, fmt("cell (%d, %d): got %d, expected %d (%d rays ended there, %d touched it)", int(i % W), int(i / W), int(m.data[i]), want, hit[i], all[i]));
  }
}
// a coordinate well inside a cell
static double mid(Rng & r, double res, int lo, int hi) { return (r.i(lo, hi) + r.u(0.1, 0.9)) * res; }
static bool clear(const Scans & v, double res)
{
  auto ok = [&](double c) { const double q = c / res, f = q - std::floor(q); return f > 1e-3 && f < 1 - 1e-3; };
  for (auto & s : v)
  {
    if (!ok(s->getPose().x) || !ok(s->getPose().y)) return false;
    for (size_t j = 0; j < s->getPoints().size(); ++j) { P2 p = place(s, j); if (!ok(p.x) || !ok(p.y)) return false; }
  }
  return true;
}
static Scans draw(Rng & r, double res, int span, bool round)
{
  Scans v;
  const int n = r.i(0, 4);
  for (int i = 0; i < n; ++i)
  {
    std::vector<P2> pts(r.i(0, 12));
    const double far = r.pick(std::vector<double>{1, 5, double(span)}) * res;
    // some scans see only one side
    const double a0 = r.u(-M_PI, M_PI), aw = r.b(0.4) ? r.u(0.01, 0.5) : M_PI;
    for (auto & p : pts)
    {
      if (round) { p = {r.i(-span, span) * res, r.i(-span, span) * res}; if (r.b(0.3)) p.x = 0; if (r.b(0.3)) p.y = 0; continue; }
      const double a = a0 + r.u(-aw, aw), d = r.b(0.1) ? 0 : r.u(0.2, 1) * far;
      p = {d * std::cos(a), d * std::sin(a)};
      if (r.b(0.1)) p.x = 0;
      if (r.b(0.1)) p.y = p.x;
    }
    if (round) v.push_back(scan(r.i(-span, span) * res, r.i(-span, span) * res, r.i(-2, 2) * M_PI / 2, pts));
    else v.push_back(scan(mid(r, res, -span, span), mid(r, res, -span, span), r.angle(), pts));
  }
  return v;
}
static Msg make(OccupancyGrid & g, Scans & v) { Msg m; g.getMsg(v, m); return m; }
int main()
{
  const std::vector<double> RES{0.05, 0.1, 0.25, 0.5, 1, 0.03};
  const std::vector<double> THR{0.25, 0.5, 0.75, 0.1, 0.9, 0.0, 0.3333, 0.999};
  rp::repeat("one grid", 3000, [&](Rng & r)
  {
    const double res = r.pick(RES), thr = r.pick(THR); const int span = r.pick(std::vector<int>{2, 8, 40});
    const bool round = r.b(0.25);
    Scans v = draw(r, res, span, round);
    describe(v, res, thr);
    OccupancyGrid g(res, thr);
    Msg m = make(g, v);
    covers(v, res, m);
    reference(v, res, thr, m, clear(v, res));
  });
  // the same generator again, after the poses have changed
  rp::repeat("histories", 800, [&](Rng & r)
  {
    const double res = r.pick(RES), thr = r.pick(THR);
    OccupancyGrid g(res, thr);
    Scans v = draw(r, res, 12, false);
    Msg reused;
    for (int k = r.i(2, 4); k > 0; --k)
    {
      describe(v, res, thr);
      const bool keep = r.b();
      Msg m; Msg & u = keep ? reused : m;
      g.getMsg(v, u);
      covers(v, res, u);
      const bool ex = clear(v, res);
      reference(v, res, thr, u, ex);
      OccupancyGrid fresh(res, thr);
      Msg f = make(fresh, v);
      check(f.info.width == u.info.width && f.info.height == u.info.height && f.data == u.data && f.info.origin.position.x == u.info.origin.position.x && f.info.origin.position.y == u.info.origin.position.y,
            "a used generator gives the grid of a new one");
      add("then");
      if (r.b(0.3)) v = draw(r, res, 30, false);
      else if (r.b(0.3) && !v.empty()) v.pop_back();
      else for (auto & s : v)
      {
        // far out and back in
        const double f = r.pick(std::vector<double>{0.1, 1, 3});
        s->setPose(Pose2d(s->getPose().x * f + res * 0.013, s->getPose().y * f - res * 0.017, s->getPose().theta + r.u(-1, 1)));
      }
    }
  });
  // one ray: a connected path from the pose's cell to the point's
  rp::repeat("single rays", 4000, [&](Rng & r)
  {
    const double res = r.pick(RES); const int span = r.pick(std::vector<int>{1, 3, 20, 60});
    const double x = mid(r, res, -span, span), y = mid(r, res, -span, span), ex = mid(r, res, -span, span), ey = mid(r, res, -span, span), th = r.angle();
    const double c = std::cos(th), s = std::sin(th);
    Scans v{scan(x, y, th, {{c * (ex - x) + s * (ey - y), -s * (ex - x) + c * (ey - y)}})};
    describe(v, res, 0.5);
    OccupancyGrid g(res, 0.5);
    Msg m = make(g, v);
    covers(v, res, m);
    const int W = m.info.width; const double ox = m.info.origin.position.x, oy = m.info.origin.position.y;
    int occ = 0, known = 0;
    for (size_t i = 0; i < m.data.size(); ++i)
    {
      const int a = i % W, b = i / W;
      if (m.data[i] == -1) continue;
      ++known; occ += m.data[i] == 100;
      // within a cell of the segment
      const double px = ox + (a + 0.5) * res, py = oy + (b + 0.5) * res, L = std::hypot(ex - x, ey - y);
      const double t = L > 0 ? std::min(1.0, std::max(0.0, ((px - x) * (ex - x) + (py - y) * (ey - y)) / (L * L))) : 0;
      check(std::hypot(px - x - t * (ex - x), py - y - t * (ey - y)) <= 1.5 * res, fmt("cell (%d, %d) is away from the ray", a, b));
    }
    const int x0 = std::floor((x - ox) / res), y0 = std::floor((y - oy) / res), x1 = std::floor((ex - ox) / res), y1 = std::floor((ey - oy) / res);
    check(m.data[x1 + y1 * W] == 100 && occ == 1, "the point's cell, and no other, is occupied");
    check(m.data[x0 + y0 * W] != -1, "the ray starts at the pose");
    const int dx = std::abs(x1 - x0), dy = std::abs(y1 - y0);
    check(known >= std::max(dx, dy) + 1, "the ray has no gaps");
    check(known <= dx + dy + 1, "the ray takes no detours");
  });
  DONE();
}
