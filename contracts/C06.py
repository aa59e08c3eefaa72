"""C06: a constraint records the exact relative pose between its two scans.

Contract of ndt_2d::makeConstraint(from, to, covariance), for a non-singular covariance."""
from api import *
Q = 'ndt_2d::Scan'
UNDER_CONTRACT = ['makeConstraint', 'Constraint::Constraint', 'Scan::getId', 'Scan::getPose']
def t_make(c):
    st = c.state()
    r1, r2 = z3.Ints('from to')
    for r in (r1, r2): st.fact(and_(r >= 1, r < c.ex.T0()))
    A, Bn = c.heap(Q, r1), c.heap(Q, r2)
    pa = c.box(st, 'pa', A); pb = c.box(st, 'pb', Bn)
    M = c.obj('Eigen::Matrix<double, 3, 3, 0>', 'cov')
    cov = [[c.get(st, M, 'd_[%d]' % (j * 3 + i)) for j in range(3)] for i in range(3)]
    m = [[zr(x) for x in r] for r in cov]
    det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
           + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    st.fact(det != 0)
    for h in (A, Bn):
        for f in ('x', 'y', 'theta'): c.get(st, h, 'pose_.' + f)
        c.get(st, h, 'id_')
    outs, thr = c.call(st, 'ndt_2d::makeConstraint', [pa, pb, M])
    c.check(st, 'makeConstraint always returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'makeConstraint')
        k = v
        c.check(t, 'a constraint is returned', isinstance(k, Ptr))
        if not isinstance(k, Ptr): continue
        P = lambda h, f: c.get(st, h, 'pose_.' + f)
        dx, dy = sub(P(Bn, 'x'), P(A, 'x')), sub(P(Bn, 'y'), P(A, 'y'))
        th = zr(P(A, 'theta')); C_, S_ = COS(th), SIN(th)
        c.check(t, 'begin is the id of the first scan', eqv(c.get(t, k, 'begin'), c.get(st, A, 'id_')))
        c.check(t, 'end is the id of the second scan', eqv(c.get(t, k, 'end'), c.get(st, Bn, 'id_')))
        c.check(t, 'transform x is in the frame of the first scan', eqv(c.get(t, k, 'transform.d_[0]'), add(mul(C_, dx), mul(S_, dy))))
        c.check(t, 'transform y is in the frame of the first scan', eqv(c.get(t, k, 'transform.d_[1]'), sub(mul(C_, dy), mul(S_, dx))))
        c.check(t, 'transform theta is the heading difference', eqv(c.get(t, k, 'transform.d_[2]'), sub(P(Bn, 'theta'), P(A, 'theta'))))
        sw = c.get(t, k, 'switchable')
        c.check(t, 'a new constraint is not switchable', not_(sw))
        w = [[zr(c.get(t, k, 'information.d_[%d]' % (j * 3 + i))) for j in range(3)] for i in range(3)]
        for i in range(3):
            for j in range(3):
                c.check(t, 'information times covariance is the identity (%d,%d)' % (i, j), eqv(w[i][0] * m[0][j] + w[i][1] * m[1][j] + w[i][2] * m[2][j], Fraction(int(i == j))))
        any_ = c.heap(Q, z3.Int('ix0'))
        st.fact(and_(z3.Int('ix0') >= 1, z3.Int('ix0') < c.ex.T0()))
        for rr in (r1, r2):
            check_same(c, t, 'makeConstraint keeps the scans', st, c.heap(Q, rr), skip=('barycenter_', 'dirty_'))
        check_same(c, t, 'makeConstraint keeps the covariance', st, M)
TASKS = [('makeConstraint', t_make)]
