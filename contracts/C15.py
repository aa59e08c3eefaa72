"""C15: the nearest-scan search returns exactly the scans within range.

Contract of ndt_2d::Graph::findNearest(scan, dist, limit) for dist >= 0 and limit at most the
number of scans (not positive: all of them).  Scan::getBarycenterPose through its contract (C05)."""
from api import *
UNDER_CONTRACT = ['Graph::findNearest', 'Graph::GraphAdapter::GraphAdapter', 'Graph::GraphAdapter::kdtree_get_pt', 'Graph::GraphAdapter::kdtree_get_point_count', 'Scan::getPose']
ASSUMES = ['C15 preconditions: dist >= 0, limit <= number of scans',
           'contract assumed on nanoflann: radiusSearch(q, r2) gives every indexed point at squared distance < r2 exactly once, and nothing else']
Q = 'ndt_2d::Graph'
i0 = z3.Int('ix0')
BX = [z3.Function('barycenter.' + f, I, R) for f in ('x', 'y', 'theta')]
def k_bary(c):
    def h(ex, st, g, a):
        # a[0]: result, a[1]: the scan; pose and points stay, the result depends on them only
        r, s = a[0], a[1]
        if not (isinstance(s, Ptr) and s.root.startswith('heap:') and not s.steps): raise Unsupported('barycenter of a scan that is no object of its own')
        ref = zi(s.idx[0])
        for k in range(3): ex.store(st, r.at(8 * k), BX[k](ref), 'double')
        return [(st, None)]
    return h
def t_find(c, bary):
    st = c.state(); P = c.obj(Q, 'graph')
    c.ex.contracts[norm('ndt_2d::Scan::getBarycenterPose')] = k_bary(c)
    V = c.off(P, 'scans')
    n = c.get(st, P, 'scans.size'); st.fact(n >= 0); st.fact(n < 2 ** 31)
    s0 = z3.Int('s0'); st.fact(and_(s0 >= 1, s0 + n <= c.ex.T0()))
    c.setarr(st, P, 'scans[].p_', lambda i: add(s0, i))
    S = lambda i: c.heap('ndt_2d::Scan', add(s0, i))
    for f in ('x', 'y', 'theta'): c.get(st, S(i0), 'pose_.' + f)
    c.set(st, P, 'use_barycenter_', bary)
    q0 = z3.Int('query'); st.fact(and_(q0 >= 1, q0 < c.ex.T0()))
    qs = c.heap('ndt_2d::Scan', q0); qp = c.box(st, 'q', qs)
    D, L = z3.Real('dist'), z3.Int('limit')
    st.fact(D >= 0); st.fact(L <= n); st.fact(L >= -2 ** 31)
    r = c.obj('std::vector<unsigned long, std::allocator<unsigned long>>', 'ret')
    outs, thr = c.call(st, 'ndt_2d::Graph::findNearest', [r, P, qp, D, L])
    c.check(st, 'findNearest returns', len(outs) > 0)
    pos = lambda ref: [BX[k](zi(ref)) if bary else c.get(st, c.heap('ndt_2d::Scan', ref), 'pose_.' + f) for k, f in enumerate(('x', 'y'))]
    qx, qy = pos(q0)
    def d2(i):
        x, y = pos(add(s0, i)); dx, dy = sub(x, qx), sub(y, qy)
        return add(mul(dx, dx), mul(dy, dy))
    lim = ite(L > 0, L, n)
    what = 'barycenter' if bary else 'pose'
    for t, v in outs:
        c.cover(t, 'findNearest')
        N = c.get(t, r, 'size')
        e = lambda k: c.get(t, r, '[]', (k,))
        x = e(i0)
        ok = and_(i0 >= 0, lt(i0, N))
        c.check(t, 'every index returned is among the first N', implies(ok, and_(ge(x, 0), lt(x, lim))), [i0])
        x0 = z3.Int('returned')          # the index returned at i0
        t2 = t.copy(); t2.fact(eqv(x0, x)); t2.fact(ok)
        c.check(t2, 'every %s returned is within the distance' % what, le(d2(x0), mul(D, D)), [i0])
        c.check(t, 'one search', len(c.ex.searches) >= 1)
        if not c.ex.searches: continue
        # where nanoflann put index i
        ws = [s[2](i0) for s in c.ex.searches]
        near = and_(i0 >= 0, lt(i0, lim), lt(d2(i0), mul(D, D)))
        c.check(t, 'every %s within the distance is returned' % what, implies(near, or_(*[and_(ge(w, 0), lt(w, N), eqv(e(w), i0)) for w in ws])), [i0])
        j0 = z3.Int('ix1')
        c.check(t, 'no index is returned twice', implies(and_(ok, j0 >= 0, lt(j0, N), i0 != j0), not_(eqv(e(i0), e(j0)))), [i0, j0])
        check_same(c, t, 'the search keeps the graph', st, P)
        check_same(c, t, 'the search keeps the scans', st, c.heap('ndt_2d::Scan', i0), only=('id_', 'pose_', 'points_'))
        check_same(c, t, 'the search keeps the constraints', st, c.heap('ndt_2d::Constraint', i0))
TASKS = [('by pose', lambda c: t_find(c, False)), ('by barycenter', lambda c: t_find(c, True))]
