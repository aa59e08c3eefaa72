"""C03: every scan point is counted in the one grid cell that covers it.

Representation invariant of ndt_2d::NDT: cell_size_ > 0, size_x_, size_y_ >= 1 and
cells_.size() = size_x_ * size_y_ < 2^31.  Cells are used through their contract (C01, C02)."""
from api import *
from grid import *
import grid
UNDER_CONTRACT = ['NDT::NDT', 'NDT::addScan', 'NDT::compute', 'NDT::likelihood(Vector2d)', 'NDT::getIndex', 'toEigen']
ASSUMES = ['C03 preconditions: cell size > 0, sizes >= 0, the grid has fewer than 2^31 cells']
SC = 'ndt_2d::Scan'
i0 = z3.Int('ix0')
def t_ctor(c):
    st = c.state(); install(c)
    P = c.obj(Q, 'ndt')
    cs, sx_, sy_, ox, oy = z3.Reals('cs sizex sizey orgx orgy')
    st.fact(cs > 0); st.fact(sx_ >= 0); st.fact(sy_ >= 0)
    nx, ny = FLOOR(sx_ / cs), FLOOR(sy_ / cs)
    st.fact((nx + 1) * (ny + 1) < 2 ** 31); st.fact(nx < 2 ** 31); st.fact(ny < 2 ** 31)
    st.fact(sx_ / cs >= 0); st.fact(sy_ / cs >= 0); st.fact((nx + 1) * (ny + 1) >= 1)
    outs, thr = c.call(st, 'ndt_2d::NDT::NDT(double, double, double, double, double)', [P, cs, sx_, sy_, ox, oy])
    c.check(st, 'the constructor returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'constructor')
        g = lambda f: c.get(t, P, f)
        c.check(t, 'the cell size is kept', eqv(g('cell_size_'), cs))
        c.check(t, 'the origin is kept', and_(eqv(g('origin_x_'), ox), eqv(g('origin_y_'), oy)))
        for a, b in (('size_x_', sx_), ('size_y_', sy_)):
            n = zr(g(a))
            c.check(t, a + ' covers the size asked for', n * cs >= b)
            c.check(t, a + ' is no larger than needed', (n - 1) * cs <= b)
            c.check(t, a + ' is positive', n >= 1)
        c.check(t, 'one cell for every square', eqv(g('cells_.size'), mul(g('size_x_'), g('size_y_'))))
        for f in ('n', 'mean.d_[0]', 'mean.d_[1]', 'correlation.d_[0]', 'correlation.d_[2]', 'correlation.d_[3]'):
            c.check(t, 'every cell starts empty: ' + f, implies(and_(i0 >= 0, lt(i0, g('cells_.size'))), eqv(c.get(t, P, 'cells_[].' + f, (i0,)), Fraction(0))), [i0])
        c.check(t, 'no cell starts valid', implies(and_(i0 >= 0, lt(i0, g('cells_.size'))), not_(c.get(t, P, 'cells_[].valid', (i0,)))), [i0])
def query(c, st, G, qx, qy):
    """likelihood of a point: [(state, value)]"""
    q = c.obj('Eigen::Matrix<double, 2, 1, 0>', 'q%d' % len(c.ex.rtype))
    c.set(st, q, 'd_[0]', qx); c.set(st, q, 'd_[1]', qy)
    outs, thr = c.call(st, 'ndt_2d::NDT::likelihood(Eigen::Matrix<double, 2, 1, 0> const&)', [G.P, q])
    return outs, q
def t_query(c):
    st = c.state(); install(c)
    G = Grid(c, st)
    qx, qy = z3.Reals('qx qy')
    outs, q = query(c, st, G, qx, qy)
    c.check(st, 'likelihood returns for every point', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'likelihood')
        ins = G.inside(qx, qy)
        if conc(v): c.check(t, 'a point inside the grid is scored by its cell', not_(ins)); c.check(t, 'outside the grid the score is 0', v == 0)
        else:
            c.check(t, 'outside the grid the score is 0', implies(not_(ins), eqv(v, Fraction(0))))
            ok = z3.is_app(v) and v.decl().name() == 'cellscore'
            c.check(t, 'inside the grid the score is that of a cell', bool(ok))
            if ok:
                c.check(t, 'the cell scores the point asked for', and_(eqv(v.arg(2), qx), eqv(v.arg(3), qy)))
        check_same(c, t, 'a query keeps the grid', st, G.P)
        for w in ('pts', 'comp'):
            c.check(t, 'a query keeps the cells: ' + w, eqv(gget(t, G.e0.__class__(G.e0.root, G.e0.steps, (i0,), 0), w), gget(st, Ptr(G.e0.root, G.e0.steps, (i0,), 0), w)))
def scan(c, st, name='scan'):
    r = z3.Int(name)
    st.fact(and_(r >= 1, r < c.ex.T0()))
    S = c.heap(SC, r)
    n = c.get(st, S, 'points_.size')
    P = lambda f: c.get(st, S, f)
    px, py = c.arr(st, S, 'points_[].x'), c.arr(st, S, 'points_[].y')
    x, y, th = P('pose_.x'), P('pose_.y'), P('pose_.theta')
    C_, S_ = COS(zr(th)), SIN(zr(th))
    def moved(j):
        a, b = zr(px.get((j,))), zr(py.get((j,)))
        return zr(x) + C_ * a - S_ * b, zr(y) + S_ * a + C_ * b
    return S, n, moved
def t_add(c):
    st = c.state(); install(c)
    G = Grid(c, st)
    S, n, moved = scan(c, st)
    pa = c.box(st, 'scanptr', S)
    outs = c.call1(st, 'ndt_2d::NDT::addScan', [G.P, pa])
    c.check(st, 'addScan returns', len(outs) > 0)
    qx, qy = z3.Reals('qx qy')
    for t, v in outs:
        c.cover(t, 'addScan')
        c.scores.clear()
        t0 = t.copy()
        qs, q = query(c, t0, G, qx, qy)
        def in_cell(j):
            x, y = moved(j)
            return and_(G.inside(x, y), G.same_square(x, y, qx, qy))
        any_ = in_cell(z3.Int('jx'))
        hit = False
        for u, w in qs:
            if not (isz(w) and w.decl().name() == 'cellscore'): continue
            hit = True
            p = [p for v_, p in c.scores if v_.eq(w)][-1]
            old = gget(st, p, 'pts')
            want = add(old, SUMS.make(n, lambda j: ite(in_cell(j), PHI(*moved(j)), Fraction(0))))
            c.check(u, 'the cell of any point gained exactly the scan points its square covers', eqv(w.arg(0), want), timeout=15000)
            cv = w.arg(1)
        c.check(st, 'some point is scored by a cell', hit)
        for f in ('cell_size_', 'size_x_', 'size_y_', 'origin_x_', 'origin_y_', 'cells_.size'):
            c.check(t, 'addScan keeps ' + f, eqv(c.get(t, G.P, f), c.get(st, G.P, f)))
        check_same(c, t, 'addScan keeps the scan', st, S, skip=('barycenter_', 'dirty_'))
def t_compute(c):
    st = c.state(); install(c)
    G = Grid(c, st)
    outs = c.call1(st, 'ndt_2d::NDT::compute', [G.P])
    for t, v in outs:
        c.cover(t, 'compute')
        e = Ptr(G.e0.root, G.e0.steps, (i0,), 0)
        ok = and_(i0 >= 0, lt(i0, c.get(st, G.P, 'cells_.size')))
        c.check(t, 'compute recomputes every cell', implies(ok, gget(t, e, 'comp')), [i0])
        c.check(t, 'compute adds no points', eqv(gget(t, e, 'pts'), gget(st, e, 'pts')), [i0])
        check_same(c, t, 'compute keeps the grid', st, G.P, only=('cell_size_', 'size_x_', 'size_y_', 'origin_x_', 'origin_y_', 'cells_.size'))
TASKS = [('constructor', t_ctor), ('likelihood', t_query), ('addScan', t_add), ('compute', t_compute)]
