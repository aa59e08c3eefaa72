"""C02: a cell's score is a bounded Gaussian of the distance to its mean.

Cell::compute establishes, for a cell of N >= 3 points with sample covariance V (eigenvalues
lo <= hi):  valid  implies  hi > 0  and  information * D = adjugate(V)  with
D = 0.001 hi^2 when lo < 0.001 hi and D = det V otherwise;  not valid only when hi is within
rounding of 0 (hi <= 1e-12 N times the trace of the second moments).
Cell::score then is 0 with fewer than five points or without spread, and
exp(-d/2), d = q' adjugate(V) q / D, q the offset from the mean, otherwise."""
from api import *
from cell import *
from builtins_sx import eigs
UNDER_CONTRACT = ['Cell::compute', 'Cell::score']
def info(c, st, P):
    a, b, d = (g(c, st, P, k) for k in ('v00', 'v01', 'v11'))
    lo, hi = eigs(a, b, d)
    D = z3.If(lo < Fraction(1, 1000) * hi, Fraction(1, 1000) * hi * hi, a * d - b * b)
    w = lambda k: g(c, st, P, k)
    return lo, hi, D, [('some spread', hi > 0), ('symmetric', eqv(w('v10'), b)), ('00', eqv(w('i00') * D, d)), ('01', eqv(w('i01') * D, -b)), ('10', eqv(w('i10') * D, -b)), ('11', eqv(w('i11') * D, a))]
def recomputed(c, st, P):
    """the state compute() leaves"""
    v = c.get(st, P, 'valid')
    lo, hi, D, cs = info(c, st, P)
    tr = g(c, st, P, 'c00') + g(c, st, P, 'c11')
    return [('valid cell, ' + n, implies(v, e)) for n, e in cs] + [('invalid only without spread', or_(v, N < 3, hi <= Fraction(1, 10**12) * zr(N) * tr))]
def pre(c, cov=True):
    st = c.state()
    P = c.obj(Q, 'cell')
    st.fact(N >= 0); c.set(st, P, 'n', zr(N))
    for k in F: c.get(st, P, F[k])
    for nm, e in moments(c, st, P, N): st.fact(e)
    v = c.get(st, P, 'valid')
    st.fact(implies(v, ge(N, 3)))
    lo, hi, D, cs = info(c, st, P)
    for n, e in cs: st.fact(implies(v, e))
    for k, e in cov_ok(c, st, P, N): st.fact(implies(v, e))
    return st, P
def t_compute(c):
    st, P = pre(c)
    outs, thr = c.call(st, 'ndt_2d::Cell::compute', [P])
    c.check(st, 'compute returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'compute')
        for n, e in recomputed(c, t, P): c.check(t, 'after compute: ' + n, implies(N >= 3, e))
        c.check(t, 'compute never validates a cell of under three points', implies(N < 3, not_(c.get(t, P, 'valid'))))
def t_score(c):
    st, P = pre(c)
    for n, e in recomputed(c, st, P): st.fact(e)
    v = c.get(st, P, 'valid')
    lo, hi, D, cs = info(c, st, P)
    p = c.obj(V2, 'p')
    q0, q1 = zr(c.get(st, p, 'd_[0]')) - g(c, st, P, 'mx'), zr(c.get(st, p, 'd_[1]')) - g(c, st, P, 'my')
    a, b, d = (g(c, st, P, k) for k in ('v00', 'v01', 'v11'))
    # the spread of the points along (q1, -q0) is not negative (proved by induction in the lemma task)
    nn = zr(N)
    st.fact(form(N, q1, -q0) >= 0)
    adj = d * q0 * q0 - 2 * b * q0 * q1 + a * q1 * q1
    e = z3.Real('w_')
    w = g(c, st, P, 'i00') * q0 * q0 + (g(c, st, P, 'i01') + g(c, st, P, 'i10')) * q0 * q1 + g(c, st, P, 'i11') * q1 * q1
    s1 = st.copy()
    s1.fact(v) if isz(v) else None
    s1.fact(N >= 3)
    c.lemma(s1, 'D is positive', D > 0)
    m = sample_cov(N)
    c.general(s1, 'adjugate form', [eqv(a * nn * (nn - 1), m['v00']), eqv(b * nn * (nn - 1), m['v01']), eqv(d * nn * (nn - 1), m['v11'])],
              eqv(adj * nn * (nn - 1), form(N, q1, -q0)), [m['v00'], m['v01'], m['v11'], a, b, d, q0, q1])
    c.general(s1, 'adjugate form is not negative', [nn >= 3, eqv(adj * nn * (nn - 1), form(N, q1, -q0)), form(N, q1, -q0) >= 0], adj >= 0, [form(N, q1, -q0), adj, nn])
    i00, i01, i10, i11 = (g(c, s1, P, k) for k in ('i00', 'i01', 'i10', 'i11'))
    c.general(s1, 'information form', [eqv(i00 * D, d), eqv(i01 * D, -b), eqv(i10 * D, -b), eqv(i11 * D, a)], eqv(w * D, adj), [D, i00, i01, i10, i11, a, b, d, q0, q1])
    c.general(s1, 'information form is not negative', [D > 0, eqv(w * D, adj), adj >= 0], w >= 0, [D, w, adj])
    st.fact(implies(and_(v, N >= 3), w >= 0))
    outs, thr = c.call(st, 'ndt_2d::Cell::score', [P, p])
    c.check(st, 'score returns', len(outs) > 0)
    W = z3.Real('W')
    for t, s in outs:
        c.cover(t, 'score')
        c.check(t, 'fewer than five points score 0', implies(N < 5, eqv(s, Fraction(0))))
        c.check(t, 'no spread scores 0', implies(and_(N >= 5, not_(v)), eqv(s, Fraction(0))))
        c.check(t, 'score is the Gaussian of the distance to the mean', implies(and_(N >= 5, v), eqv(s, EXP(-w / 2))))
        c.check(t, 'score is not negative', ge(s, Fraction(0)))
        c.check(t, 'score is at most 1', le(s, Fraction(1)))
        t2 = t.copy(); t2.fact(eqv(q0, Fraction(0))); t2.fact(eqv(q1, Fraction(0)))
        c.check(t2, 'score at the mean is 1', implies(and_(N >= 5, v), eqv(s, Fraction(1))))
def t_lemma(c):
    """n sum s^2 - (sum s)^2 >= 0 for the projections s of any n points on any direction"""
    u, v, L, Qq, n_, s = z3.Reals('u v L Q n_ s')
    st = c.state()
    c.check(st, 'spread lemma, no points', eqv(form(z3.IntVal(0), u, v), Fraction(0)))
    st = c.state()
    st.fact(or_(and_(n_ == 0, L == 0, Qq == 0), n_ >= 1)); st.fact(n_ * Qq - L * L >= 0)
    # n_ times the new spread is n_ times the old one, plus a square, plus the old one
    c.check(st, 'spread lemma, identity', eqv(n_ * ((n_ + 1) * (Qq + s * s) - (L + s) * (L + s)), n_ * (n_ * Qq - L * L) + (n_ * s - L) * (n_ * s - L) + (n_ * Qq - L * L)))
    c.check(st, 'spread lemma, one more point', (n_ + 1) * (Qq + s * s) - (L + s) * (L + s) >= 0)
    st = c.state(); st.fact(N >= 0)
    LN = lambda n: u * SX(n) + v * SY(n)
    QN = lambda n: u * u * SXX(n) + 2 * u * v * SXY(n) + v * v * SYY(n)
    c.check(st, 'spread lemma, meaning', eqv(form(N, u, v), zr(N) * QN(N) - LN(N) * LN(N)))
    sN = u * GX(N) + v * GY(N)
    c.check(st, 'spread lemma, sum grows', eqv(LN(N + 1), LN(N) + sN))
    c.check(st, 'spread lemma, sum of squares grows', eqv(QN(N + 1), QN(N) + sN * sN))
    for f in (SX, SY, SXX, SXY, SYY): c.check(st, 'spread lemma, empty sum', eqv(f(z3.IntVal(0)), Fraction(0)))
TASKS = [('compute', t_compute), ('score', t_score), ('spread lemma', t_lemma)]
