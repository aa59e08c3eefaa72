"""C13: the occupancy grid covers all scans and marks what they saw."""
from api import *
from smt import poly, p_term
from loops import prove_quick
Q = 'ndt_2d::OccupancyGrid'
UNDER_CONTRACT = ['OccupancyGrid::updateBounds']
BOUNDED = ['OccupancyGrid::getMsg: ray raster and classification']
ASSUMES = []
i0, j0 = z3.Ints('ix0 ix1')
SV = 'std::vector<std::shared_ptr<ndt_2d::Scan>, std::allocator<std::shared_ptr<ndt_2d::Scan>>>'
def scans(c, st):
    """a list of scans: objects numbered by position"""
    V = c.obj(SV, 'scans')
    n = c.get(st, V, 'size'); st.fact(n >= 0); st.fact(n < 2 ** 31)
    s0 = z3.Int('s0'); st.fact(and_(s0 >= 1, s0 + n <= c.ex.T0()))
    c.setarr(st, V, '[].p_', lambda i: add(s0, i))
    S = lambda i: c.heap('ndt_2d::Scan', add(s0, i))
    for f in ('x', 'y', 'theta'): c.get(st, S(i0), 'pose_.' + f)
    for f in ('x', 'y'): c.get(st, S(i0), 'points_[].' + f, (j0,))
    return V, n, S
def place(c, st, S, i, j):
    """point j of scan i in the map frame"""
    x, y, th = [c.get(st, S(i), 'pose_.' + f) for f in ('x', 'y', 'theta')]
    px, py = [c.get(st, S(i), 'points_[].' + f, (j,)) for f in ('x', 'y')]
    co, si = COS(zr(th)), SIN(zr(th))
    return add(sub(mul(px, co), mul(py, si)), x), add(add(mul(px, si), mul(py, co)), y)
def inner(c, t, name, B, op, rng, v, vs):
    """B op v, through the quantity that B rounds if it does"""
    ms = []
    for q in subterms([z(B)]):
        if z3.is_app(q) and q.decl().name() == 'floorI':
            a = q.arg(0); s = 1
            try: n, d = poly(a)
            except TooBig: continue
            x = p_term(n)
            for M in (x, neg(x)):
                if prove_quick(op(B, M), [f for f in t.facts() if isz(f) and 'resolution' in str(f) and len(str(f)) < 60], 3000): ms.append(M)
    for M in ms[:1]:
        c.check(t, name + ' (rounding goes outwards)', op(B, M), prover=lambda o: smt.Result(True, 'z3') if prove_quick(o.goal, [f for f in o.facts if isz(f) and 'resolution' in str(f) and len(str(f)) < 60], 8000) else quant(o))
        t = t.copy(); t.fact(op(B, M))
        c.check(t, name, implies(rng, op(M, v)), vs, prover=quantlin)
        return
    c.check(t, name, implies(rng, op(B, v)), vs, prover=quantlin)
def t_bounds(c):
    st = c.state(); P = c.obj(Q, 'grid')
    V, n, S = scans(c, st)
    res = c.get(st, P, 'resolution_'); st.fact(res > 0)
    outs = c.call1(st, 'ndt_2d::OccupancyGrid::updateBounds', [P, V])
    c.check(st, 'updateBounds returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'updateBounds')
        lo = [c.get(t, P, f) for f in ('min_x_', 'min_y_')]; hi = [c.get(t, P, f) for f in ('max_x_', 'max_y_')]
        rng = and_(i0 >= 0, lt(i0, n)); rj = and_(rng, j0 >= 0, lt(j0, c.get(st, S(i0), 'points_.size')))
        pose = [c.get(st, S(i0), 'pose_.' + f) for f in ('x', 'y')]; pt = place(c, st, S, i0, j0)
        for k, ax in enumerate('xy'):
            inner(c, t, 'the bounds contain the poses: %s from below' % ax, lo[k], le, rng, pose[k], [i0])
            inner(c, t, 'the bounds contain the poses: %s from above' % ax, hi[k], ge, rng, pose[k], [i0])
            inner(c, t, 'the bounds contain the points: %s from below' % ax, lo[k], le, rj, pt[k], [i0, j0])
            inner(c, t, 'the bounds contain the points: %s from above' % ax, hi[k], ge, rj, pt[k], [i0, j0])

def k_bounds(ex, st, g, args):
    """contract of updateBounds, proved in task updateBounds"""
    c = CTX[0]; P = args[0]; V = args[1]
    A = [z3.Int(x) for x in ('cells_left', 'cells_down')]; B = [z3.Int(x) for x in ('cells_right', 'cells_up')]
    res = c.get(st, P, 'resolution_')
    n, S = c.scan_env
    for k in (0, 1):
        st.fact(A[k] <= 0); st.fact(B[k] >= 0)
        c.set(st, P, ('min_x_', 'min_y_')[k], mul(zr(A[k]), res)); c.set(st, P, ('max_x_', 'max_y_')[k], mul(zr(B[k]), res))
    h, j = z3.Ints('hb jb')
    for k, ax in enumerate('xy'):
        pose = c.get(st, S(h), 'pose_.' + ax); pt = place(c, st, S, h, j)[k]
        st.pc.append(('q', QFact([h], and_(h >= 0, lt(h, n)), and_(le(mul(zr(A[k]), res), pose), ge(mul(zr(B[k]), res), pose)), 'bounds of the poses')))
        st.pc.append(('q', QFact([h, j], and_(h >= 0, lt(h, n), j >= 0, lt(j, c.get(st, S(h), 'points_.size'))), and_(le(mul(zr(A[k]), res), pt), ge(mul(zr(B[k]), res), pt)), 'bounds of the points')))
    return [(st, None)]
CTX = []
def t_msg(c):
    CTX[:] = [c]
    st = c.state(); P = c.obj(Q, 'grid')
    V, n, S = scans(c, st); c.scan_env = (n, S)
    res = c.get(st, P, 'resolution_'); st.fact(res > 0)
    c.ex.contracts[norm(Q + '::updateBounds')] = k_bounds
    A = [z3.Int(x) for x in ('cells_left', 'cells_down')]; B = [z3.Int(x) for x in ('cells_right', 'cells_up')]
    W, H = [sub(add(b, 10), a) for a, b in zip(A, B)]
    st.fact(mul(W, H) < 2 ** 31); st.fact(W < 2 ** 31); st.fact(H < 2 ** 31)
    M = c.obj('nav_msgs::msg::OccupancyGrid', 'msg')
    outs, thr = c.call(st, 'ndt_2d::OccupancyGrid::getMsg', [P, V, M])
    c.check(st, 'getMsg returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'getMsg')
        d = lambda i: c.get(t, M, 'data[]', (i,))
        c.check(t, 'one entry per cell', eqv(c.get(t, M, 'data.size'), mul(W, H)))
        c.check(t, 'the width covers the bounds', and_(eqv(c.get(t, M, 'info.width'), W), eqv(c.get(t, M, 'info.height'), H)))
        ii = and_(i0 >= 0, lt(i0, c.get(t, M, 'data.size')))
        x = d(i0)
        c.check(t, 'every cell is unknown, free or occupied', implies(ii, or_(eqv(x, -1), eqv(x, 0), eqv(x, 100))), [i0])
TASKS = [('updateBounds', t_bounds)]
