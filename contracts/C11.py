"""C11: resampling keeps the number of particles within its bounds, copies only particles that had
weight, and enters each drawn particle in the bin count exactly once.

The filter starts from the invariant C10 proves (weights not negative, sum one); the bin tree by its
contract (kdt.py) with a ghost counter of insertions since the last clear; updateStatistics by its
contract from C10."""
from api import *
import kdt, C10
Q = C10.Q
UNDER_CONTRACT = ['ParticleFilter::resample']
ASSUMES = ['C11 preconditions: 1 <= minimum <= maximum <= 2^31, error bound at least 0.001, quantile between 0 and 10',
           'C11 KDTree by contract: the leaf count is between one and the number of insertions since the last clear (C09)',
           'C11 std::discrete_distribution draws an index of non-zero weight']
i0 = z3.Int('ix0')
def setup(c):
    st = c.state(); P = c.obj(Q, 'filter'); C10.inv(c, st, P); C10.k_stats(c)
    st.write(('ghost:sign', (), 0), 1)
    e, z_ = z3.Reals('kld_err kld_z')
    st.fact(e >= zr(Fraction(1, 1000))); st.fact(z_ >= 0); st.fact(z_ <= 10)
    mx = c.get(st, P, 'max_particles_'); st.fact(mx <= 2**31)
    mn = c.get(st, P, 'min_particles_'); st.fact(ge(mx, mn))
    return st, P, e, z_, mn, mx
def t_resample(c):
    st, P, e, z_, mn, mx = setup(c)
    n0, m0, w0, x0 = C10.views(c, st, P)
    draws, ins = [], []
    def onins(ex, s, a):
        k = [c.ex.load(s, a[1].at(8 * q), 'double') for q in range(3)]
        ins.append((list(ex.kstack), k))
    kdt.install(c, st, onins)
    c.ex.listener = lambda ex, s, kind, *b: draws.append((list(ex.kstack), b)) if kind == 'draw' else None
    outs, thr = c.call(st, 'ndt_2d::ParticleFilter::resample', [P, e, z_])
    c.check(st, 'resample returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'resample')
        n = c.get(t, P, 'particles_.size'); m = c.get(t, P, 'weights_.size')
        c.check(t, 'at least the minimum number of particles', ge(n, mn))
        c.check(t, 'at most the maximum number of particles', le(n, mx))
        c.check(t, 'one weight per particle', eqv(n, m))
        c.check(t, 'every particle drawn is entered once in the bin count', eqv(t.read(kdt.INS), n))
        check_same(c, t, 'resample keeps', st, P, only=('min_particles_', 'max_particles_', 'motion_model_'))
        sc = t.read(('ghost:scores', (), 0)); xs = C10.views(c, t, P)[3]
        if not draws or len(draws[-1][0]) != 1: c.check(t, 'particles are drawn one per step', False); continue
        ks, (r, rn) = draws[-1]
        at = lambda v: z3.substitute(z(v), (ks[0], i0)) if isz(v) else v
        j = at(r); rng = and_(i0 >= 0, lt(i0, n))
        c.check(t, 'a drawn particle is one of the particles', implies(rng, and_(ge(j, 0), lt(j, n0))), [i0])
        c.check(t, 'a drawn particle had weight', implies(rng, gt(w0(j), 0)), [i0])
        for k in range(3): c.check(t, 'every particle is a copy of the one drawn [%d]' % k, implies(rng, eqv(xs[k](i0), x0[k](j))), [i0])
        c.check(t, 'every particle keeps its weight', implies(rng, eqv(sc(i0), w0(j))), [i0])
        if len(ins[-1][0]) == 1 if ins else False:
            key = [z3.substitute(z(v), (ins[-1][0][0], i0)) if isz(v) else v for v in ins[-1][1]]
            for k in range(3): c.check(t, 'the pose entered is that of the particle drawn [%d]' % k, implies(rng, eqv(key[k], x0[k](j))), [i0])
        else: c.check(t, 'every particle drawn is entered in the bin tree', False)
TASKS = [('resample', t_resample)]
