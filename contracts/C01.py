"""C01: a cell's statistics are those of exactly the points added to it.

Representation invariant of ndt_2d::Cell over the ghost sequence of added points g_0..g_{N-1}:
  n = N, mean*N = sum g, correlation*N = sum g g^T, and, while valid, covariance*N*(N-1) =
  N sum g g^T - (sum g)(sum g)^T  with N >= 3."""
from api import *
from cell import *
UNDER_CONTRACT = ['Cell::Cell', 'Cell::addPoint', 'Cell::compute', 'Cell::score']
def inv(c, st, P, n):
    v = c.get(st, P, 'valid')
    return moments(c, st, P, n) + [('valid means at least three points', implies(v, ge(n, 3)))] + \
        [('covariance while valid ' + k, implies(v, e)) for k, e in cov_ok(c, st, P, n)]
def pre(c, np=None):
    st = c.state()
    P = c.obj(Q, 'cell')
    st.fact(N >= 0)
    c.set(st, P, 'n', zr(N))
    for k in F: c.get(st, P, F[k])
    for nm, e in inv(c, st, P, N): st.fact(e)
    return st, P
def t_ctor(c):
    st = c.state(); P = c.obj(Q, 'cell')
    outs, thr = c.call(st, 'ndt_2d::Cell::Cell', [P])
    for t, v in outs:
        c.cover(t, 'constructor')
        c.check(t, 'a new cell is not valid', not_(c.get(t, P, 'valid')))
        for k in F:
            c.check(t, 'a new cell is empty: ' + F[k], eqv(c.get(t, P, F[k]), Fraction(0)))
def t_add(c):
    st, P = pre(c)
    p = c.obj(V2, 'p')
    x, y = c.get(st, p, 'd_[0]'), c.get(st, p, 'd_[1]')
    st.fact(GX(N) == x); st.fact(GY(N) == y)     # the ghost sequence grows by the point
    outs, thr = c.call(st, 'ndt_2d::Cell::addPoint', [P, p])
    c.check(st, 'addPoint returns', len(outs) > 0)
    n1 = N + 1
    for t, v in outs:
        c.cover(t, 'addPoint')
        for nm, e in inv(c, t, P, n1): c.check(t, 'after addPoint: ' + nm, e)
        c.check(t, 'addPoint asks for a recomputation', not_(c.get(t, P, 'valid')))
        check_same(c, t, 'addPoint keeps the point', st, p)
def t_compute(c):
    st, P = pre(c)
    outs, thr = c.call(st, 'ndt_2d::Cell::compute', [P])
    c.check(st, 'compute returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'compute')
        for nm, e in inv(c, t, P, N): c.check(t, 'after compute: ' + nm, e)
        for k, e in cov_ok(c, t, P, N): c.check(t, 'compute makes the sample covariance: ' + k, implies(ge(N, 3), e))
        for k in ('n', 'mx', 'my', 'c00', 'c01', 'c11'):
            c.check(t, 'compute keeps ' + F[k], eqv(c.get(t, P, F[k]), c.get(st, P, F[k])))
def t_score(c):
    st, P = pre(c)
    p = c.obj(V2, 'p')
    outs, thr = c.call(st, 'ndt_2d::Cell::score', [P, p])
    for t, v in outs:
        check_same(c, t, 'score changes nothing', st, P)
        check_same(c, t, 'score keeps the point', st, p)
TASKS = [('constructor', t_ctor), ('addPoint', t_add), ('compute', t_compute), ('score', t_score)]
