"""Contract of ndt_2d::NDT over the contracts of ndt_2d::Cell, shared by C03 and C04.

Ghost state of every cell of the grid:
  pts   the sum of phi(p) over the points added to it (phi arbitrary: a bag of points)
  comp  whether it was recomputed since the last point
A cell's score is a function of its ghost state and of the query point (C01, C02)."""
from api import *
Q = 'ndt_2d::NDT'
PHI = z3.Function('phi', R, R, R)
SCORE = z3.Function('cellscore', R, B, R, R, R)
def gkey(p, w): return (p.root, p.steps, 'ghost ' + w)
def ghost(st, p, w):
    v = st.read(gkey(p, w))
    if v is None:
        srt = R if w == 'pts' else B
        if p.idx:
            fd = z3.Function('%s.%s' % (p.root, w), *([I] * len(p.idx) + [srt]))
            v = BaseA(lambda *i: fd(*[zi(x) for x in i]), '%s.%s' % (p.root, w))
        else: v = z3.Const('%s.%s' % (p.root, w), srt)
        st.write(gkey(p, w), v)
    return v
def gget(st, p, w):
    v = ghost(st, p, w)
    return v.get(tuple(p.idx)) if p.idx else v
def gset(st, p, w, x):
    v = ghost(st, p, w)
    st.write(gkey(p, w), sx.put(v, p.idx, x) if p.idx else x)
def install(c, nonneg=False):
    ex = c.ex
    c.scores = []
    def k_add(ex, st, g, a):
        ex.check_ptr(st, a[0])
        x, y = ex.load(st, a[1], 'double'), ex.load(st, a[1].at(8), 'double')
        gset(st, a[0], 'pts', add(gget(st, a[0], 'pts'), PHI(zr(x), zr(y))))
        gset(st, a[0], 'comp', False)
    def k_comp(ex, st, g, a):
        ex.check_ptr(st, a[0])
        gset(st, a[0], 'comp', True)
    def k_score(ex, st, g, a):
        ex.check_ptr(st, a[0])
        x, y = ex.load(st, a[1], 'double'), ex.load(st, a[1].at(8), 'double')
        v = SCORE(zr(gget(st, a[0], 'pts')), zb(gget(st, a[0], 'comp')), zr(x), zr(y))
        c.scores.append((v, a[0]))
        if nonneg: st.fact(v >= 0); st.fact(v <= 1)
        return v
    ex.contracts[norm('ndt_2d::Cell::addPoint')] = k_add
    ex.contracts[norm('ndt_2d::Cell::compute')] = k_comp
    ex.contracts[norm('ndt_2d::Cell::score')] = k_score
class Grid:
    """an NDT satisfying its representation invariant"""
    def __init__(s, c, st, name='ndt'):
        s.c = c
        s.P = c.obj(Q, name)
        g = lambda f: c.get(st, s.P, f)
        s.cs, s.sx, s.sy, s.ox, s.oy = g('cell_size_'), g('size_x_'), g('size_y_'), g('origin_x_'), g('origin_y_')
        n = c.get(st, s.P, 'cells_.size')
        st.fact(s.cs > 0); st.fact(s.sx >= 1); st.fact(s.sy >= 1)
        st.fact(n == s.sx * s.sy); st.fact(n < 2 ** 31)
        st.fact(s.sx < 2 ** 31); st.fact(s.sy < 2 ** 31)
        # every product of a row below size_y_ stays below the number of cells
        a, b = z3.Int('row?'), z3.Int('col?')
        s.e0 = c.off(s.P, 'cells_').elem(0)
        for w in ('pts', 'comp'): ghost(st, s.e0, w)
    def frac(s, x, y): return rdiv(sub(x, s.ox), s.cs), rdiv(sub(y, s.oy), s.cs)
    def inside(s, x, y):
        u, v = s.frac(x, y)
        return and_(u >= 0, v >= 0, u < zr(s.sx), v < zr(s.sy))
    def same_square(s, x, y, x2, y2):
        """one square of the grid covers both points (which are inside)"""
        u, v = s.frac(x, y); u2, v2 = s.frac(x2, y2)
        return and_(eqv(TRUNC(zr(u)), TRUNC(zr(u2))), eqv(TRUNC(zr(v)), TRUNC(zr(v2))))
