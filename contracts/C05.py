"""C05: a scan's barycenter always reflects its latest pose and points.

Contract of ndt_2d::Scan: the representation invariant
    dirty_  or  barycenter_ == BC(pose_, points_)
where BC is the pose moved by the mean of the points rotated by its heading; every public
operation keeps it, and reports / stores exactly what it is given."""
from api import *
Q = 'ndt_2d::Scan'
UNDER_CONTRACT = ['Scan::Scan(size_t)', 'Scan::getId', 'Scan::setPose', 'Scan::getPose', 'Scan::setPoints',
                  'Scan::getPoints', 'Scan::getBarycenterPose', 'Scan::update']
def BC(c, st, S):
    n = c.get(st, S, 'points_.size')
    x, y, th = [c.get(st, S, 'pose_.' + f) for f in ('x', 'y', 'theta')]
    px, py = c.arr(st, S, 'points_[].x'), c.arr(st, S, 'points_[].y')
    sx_ = SUMS.make(n, lambda j: to_r(px.get((j,)))); sy_ = SUMS.make(n, lambda j: to_r(py.get((j,))))
    C_, S_ = COS(zr(th)), SIN(zr(th))
    e = eqv(n, 0)
    bx = ite(e, x, add(x, rdiv(sub(mul(C_, sx_), mul(S_, sy_)), zr(n))))
    by = ite(e, y, add(y, rdiv(add(mul(S_, sx_), mul(C_, sy_)), zr(n))))
    return bx, by, th
def inv(c, st, S):
    d = c.get(st, S, 'dirty_')
    b = BC(c, st, S)
    return or_(d, and_(*[eqv(c.get(st, S, 'barycenter_.' + f), v) for f, v in zip(('x', 'y', 'theta'), b)]))
def pre(c):
    st = c.state()
    S = c.obj(Q, 'scan')
    c.get(st, S, 'points_.size')
    st.fact(inv(c, st, S))
    return st, S
def inv_checks(c, st, S, name):
    d = c.get(st, S, 'dirty_')
    b = BC(c, st, S)
    for f, v in zip(('x', 'y', 'theta'), b):
        c.check(st, '%s keeps the barycenter consistent (%s)' % (name, f), implies(not_(d), eqv(c.get(st, S, 'barycenter_.' + f), v)))

def t_ctor(c):
    st = c.state()
    S = c.obj(Q, 'scan'); ID = z3.Int('id')
    st.fact(ID >= 0)
    outs, thr = c.call(st, 'ndt_2d::Scan::Scan(unsigned long)', [S, ID])
    for t, v in outs:
        c.cover(t, 'constructor')
        c.check(t, 'a new scan has the given id', eqv(c.get(t, S, 'id_'), ID))
        c.check(t, 'a new scan has no points', eqv(c.get(t, S, 'points_.size'), 0))
        d = c.get(t, S, 'dirty_')
        c.check(t, 'a new scan needs its barycenter computed', d)
def t_setPose(c):
    st, S = pre(c)
    P = c.obj('ndt_2d::Pose2d', 'pose')
    for f in ('x', 'y', 'theta'): c.get(st, P, f)
    outs, thr = c.call(st, 'ndt_2d::Scan::setPose', [S, P])
    for t, v in outs:
        c.cover(t, 'setPose')
        for f in ('x', 'y', 'theta'): c.check(t, 'setPose stores the pose: ' + f, eqv(c.get(t, S, 'pose_.' + f), c.get(st, P, f)))
        check_same(c, t, 'setPose keeps id and points', st, S, only=('id_', 'points_'))
        check_same(c, t, 'setPose keeps its argument', st, P)
        inv_checks(c, t, S, 'setPose')
def t_setPoints(c):
    st, S = pre(c)
    V = c.obj('std::vector<ndt_2d::Point, std::allocator<ndt_2d::Point>>', 'pts')
    c.get(st, V, 'size')
    outs, thr = c.call(st, 'ndt_2d::Scan::setPoints', [S, V])
    i = z3.Int('ix0')
    for t, v in outs:
        c.cover(t, 'setPoints')
        n = c.get(st, V, 'size')
        c.check(t, 'setPoints stores as many points as given', eqv(c.get(t, S, 'points_.size'), n))
        for f in ('x', 'y'):
            c.check(t, 'setPoints stores every point: ' + f, implies(and_(i >= 0, lt(i, n)), eqv(c.get(t, S, 'points_[].' + f, (i,)), c.get(st, V, '[].' + f, (i,)))), [i])
        check_same(c, t, 'setPoints keeps id and pose', st, S, only=('id_', 'pose_'))
        check_same(c, t, 'setPoints keeps its argument', st, V)
        inv_checks(c, t, S, 'setPoints')
def t_getters(c):
    st, S = pre(c)
    outs, thr = c.call(st, 'ndt_2d::Scan::getId', [S])
    for t, v in outs:
        c.check(t, 'getId reports the id', eqv(v, c.get(st, S, 'id_')))
        check_same(c, t, 'getId changes nothing', st, S, only=('id_', 'pose_', 'points_')); inv_checks(c, t, S, 'getId')
    r = c.obj('ndt_2d::Pose2d', 'ret')
    outs, thr = c.call(st, 'ndt_2d::Scan::getPose', [r, S])
    for t, v in outs:
        c.cover(t, 'getPose')
        for f in ('x', 'y', 'theta'): c.check(t, 'getPose reports the pose: ' + f, eqv(c.get(t, r, f), c.get(st, S, 'pose_.' + f)))
        check_same(c, t, 'getPose changes nothing', st, S, only=('id_', 'pose_', 'points_')); inv_checks(c, t, S, 'getPose')
    V = c.obj('std::vector<ndt_2d::Point, std::allocator<ndt_2d::Point>>', 'pts')
    outs, thr = c.call(st, 'ndt_2d::Scan::getPoints', [V, S])
    i = z3.Int('ix0')
    for t, v in outs:
        n = c.get(st, S, 'points_.size')
        c.check(t, 'getPoints reports the number of points', eqv(c.get(t, V, 'size'), n))
        for f in ('x', 'y'):
            c.check(t, 'getPoints reports every point: ' + f, implies(and_(i >= 0, lt(i, n)), eqv(c.get(t, V, '[].' + f, (i,)), c.get(st, S, 'points_[].' + f, (i,)))), [i])
        check_same(c, t, 'getPoints changes nothing', st, S, only=('id_', 'pose_', 'points_')); inv_checks(c, t, S, 'getPoints')
def t_bary(c):
    st, S = pre(c)
    r = c.obj('ndt_2d::Pose2d', 'ret')
    outs, thr = c.call(st, 'ndt_2d::Scan::getBarycenterPose', [r, S])
    for t, v in outs:
        c.cover(t, 'getBarycenterPose')
        for f, w in zip(('x', 'y', 'theta'), BC(c, st, S)):
            c.check(t, 'getBarycenterPose is the pose moved by the mean of the rotated points: ' + f, eqv(c.get(t, r, f), w))
        check_same(c, t, 'getBarycenterPose keeps id, pose and points', st, S, only=('id_', 'pose_', 'points_'))
        inv_checks(c, t, S, 'getBarycenterPose')
TASKS = [('constructor', t_ctor), ('setPose', t_setPose), ('setPoints', t_setPoints), ('getters', t_getters), ('getBarycenterPose', t_bary)]
