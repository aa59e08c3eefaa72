"""C04: all ways to query a grid's likelihood agree and change nothing.

The value L(x, y) of the two-component query is taken from the function itself (its body, over
the contract of ndt_2d::Cell); the other overloads are specified through it."""
from api import *
from grid import *
from C03 import scan, i0
UNDER_CONTRACT = ['NDT::likelihood (four overloads)', 'NDT::getIndex', 'toEigen(Pose2d)', 'Scan::getPose', 'Scan::getPoints']
ASSUMES = ['C04 preconditions: the grid satisfies the invariant of C03']
V3 = 'Eigen::Matrix<double, 3, 1, 0>'
def lik2(c, st, G):
    """L as a function of coordinates"""
    q = c.obj('Eigen::Matrix<double, 2, 1, 0>', 'q2'); a, b = z3.Reals('qx qy')
    c.set(st, q, 'd_[0]', a); c.set(st, q, 'd_[1]', b)
    outs = c.call1(st, 'ndt_2d::NDT::likelihood(Eigen::Matrix<double, 2, 1, 0> const&)', [G.P, q])
    c.check(st, 'the two-component query returns', len(outs) > 0)
    if len(outs) != 1: raise Unsupported('the two-component query has unrelated outcomes')
    t, v = outs[0]
    unchanged(c, st, t, G, 'the two-component query')
    check_same(c, t, 'the two-component query keeps its point', st, q)
    return lambda x, y: sub_(v, (a, zr(x)), (b, zr(y)))
def unchanged(c, st, t, G, w):
    check_same(c, t, w + ' keeps the grid', st, G.P)
    e = Ptr(G.e0.root, G.e0.steps, (i0,), 0)
    for k in ('pts', 'comp'): c.check(t, '%s keeps the cells: %s' % (w, k), eqv(gget(t, e, k), gget(st, e, k)), [i0])
def t_vec3(c):
    st = c.state(); install(c); G = Grid(c, st); L = lik2(c, st, G)
    p = c.obj(V3, 'p3')
    x, y = c.get(st, p, 'd_[0]'), c.get(st, p, 'd_[1]'); c.get(st, p, 'd_[2]')
    outs = c.call1(st, 'ndt_2d::NDT::likelihood(Eigen::Matrix<double, 3, 1, 0> const&)', [G.P, p])
    for t, v in outs:
        c.cover(t, 'three components')
        c.check(t, 'a three-component point scores as its first two components', eqv(v, L(x, y)))
        unchanged(c, st, t, G, 'the three-component query'); check_same(c, t, 'the query keeps its point', st, p)
def t_list(c):
    st = c.state(); install(c); G = Grid(c, st); L = lik2(c, st, G)
    V = c.obj('std::vector<ndt_2d::Point, std::allocator<ndt_2d::Point>>', 'pts')
    n = c.get(st, V, 'size'); px, py = c.arr(st, V, '[].x'), c.arr(st, V, '[].y')
    outs = c.call1(st, 'ndt_2d::NDT::likelihood(std::vector<ndt_2d::Point', [G.P, V]) if False else c.call1(st, find(c, 'std::vector'), [G.P, V])
    for t, v in outs:
        c.cover(t, 'list')
        c.check(t, 'the likelihood of a list is the sum of the likelihoods of its points', eqv(v, SUMS.make(n, lambda j: L(px.get((j,)), py.get((j,))))), timeout=15000)
        unchanged(c, st, t, G, 'the list query'); check_same(c, t, 'the query keeps its list', st, V)
def find(c, what):
    for f in c.p.fn.values():
        if f['dem'].startswith('ndt_2d::NDT::likelihood(' + what) and not f['decl']: return f
    raise Unsupported('no likelihood(%s)' % what)
def t_scan(c):
    st = c.state(); install(c); G = Grid(c, st); L = lik2(c, st, G)
    S, n, moved = scan(c, st)
    pa = c.box(st, 'scanptr', S)
    outs = c.call1(st, find(c, 'std::shared_ptr'), [G.P, pa])
    for t, v in outs:
        c.cover(t, 'scan')
        c.check(t, 'the likelihood of a scan is that of its points moved by its pose', eqv(v, SUMS.make(n, lambda j: L(*moved(j)))), timeout=15000)
        unchanged(c, st, t, G, 'the scan query'); check_same(c, t, 'the query keeps the scan', st, S, skip=('barycenter_', 'dirty_'))
TASKS = [('three components', t_vec3), ('list', t_list), ('scan', t_scan)]
