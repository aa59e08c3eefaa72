"""C10: published filter statistics are those of the current particles.

Contract of updateStatistics: the weights are the given ones divided by their sum (all equal when
that is zero), and mean and covariance are those of the current particles under these weights.
Representation invariant of the filter (STAT) kept by every public operation, each verified
against the contract of updateStatistics."""
from api import *
from builtins_sx import norm_angle
import kdt
Q = 'ndt_2d::ParticleFilter'
UNDER_CONTRACT = ['ParticleFilter::ParticleFilter', 'ParticleFilter::init', 'ParticleFilter::update', 'ParticleFilter::measure', 'ParticleFilter::resample',
                  'ParticleFilter::updateStatistics', 'ParticleFilter::getMean', 'ParticleFilter::getCovariance', 'ParticleFilter::getMsg']
ASSUMES = ['C10 preconditions: at least one particle, minimum at least one, deviations not negative; the scores of one measurement have one sign (C16 shows it of the scan matcher)',
           'C10 MotionModel::sample changes the particles, not their number (C12 shows it)',
           'C10 resampling draws (C11 covers the bounds); only the weights it draws matter here']
i0 = z3.Int('ix0')
def views(c, st, P):
    n = c.get(st, P, 'particles_.size'); m = c.get(st, P, 'weights_.size')
    w = c.arr(st, P, 'weights_[]'); x = [c.arr(st, P, 'particles_[].d_[%d]' % k) for k in range(3)]
    g = lambda a: (lambda j: to_r(a.get((j,))))
    return n, m, g(w), [g(a) for a in x]
def cov_path(i, j): return 'cov_.d_[%d]' % (3 * j + i)
def stat(c, st, P):
    """(name, condition) of the statistics; quantified ones over i0"""
    n, m, w, (x, y, h) = views(c, st, P)
    S = lambda f: SUMS.make(n, f)
    mean = [c.get(st, P, 'mean_.d_[%d]' % k) for k in range(3)]
    cov = lambda i, j: c.get(st, P, cov_path(i, j))
    mx, my = S(lambda j: mul(w(j), x(j))), S(lambda j: mul(w(j), y(j)))
    out = [('one weight per particle', eqv(n, m)),
           ('the weights sum to one', eqv(S(w), 1)),
           ('mean x', eqv(mean[0], mx)), ('mean y', eqv(mean[1], my)),
           ('mean heading is circular', eqv(mean[2], ATAN2(zr(S(lambda j: mul(w(j), SIN(zr(h(j)))))), zr(S(lambda j: mul(w(j), COS(zr(h(j))))))))),
           ('covariance x x', eqv(cov(0, 0), sub(S(lambda j: mul(w(j), mul(x(j), x(j)))), mul(mx, mx)))),
           ('covariance x y', eqv(cov(0, 1), sub(S(lambda j: mul(w(j), mul(x(j), y(j)))), mul(mx, my)))),
           ('covariance y x', eqv(cov(1, 0), sub(S(lambda j: mul(w(j), mul(x(j), y(j)))), mul(mx, my)))),
           ('covariance y y', eqv(cov(1, 1), sub(S(lambda j: mul(w(j), mul(y(j), y(j)))), mul(my, my))))]
    def dev(j):
        d = norm_angle(sub(mean[2], h(j))); return mul(w(j), mul(d, d))
    out.append(('heading variance', eqv(cov(2, 2), S(dev))))
    nn = implies(and_(i0 >= 0, lt(i0, m)), ge(w(i0), 0))
    return out, ('no weight is negative', nn)
def check_stat(c, t, P, what):
    l, nn = stat(c, t, P)
    for nm, g in l: c.check(t, '%s: %s' % (what, nm), g, timeout=8000)
    c.check(t, '%s: %s' % (what, nn[0]), nn[1], [i0])
def one_sign(c, st, P, pos):
    n, m, w, _ = views(c, st, P)
    j = z3.Int('jw')
    st.qfact(smt.QFact([j], and_(j >= 0, lt(j, m)), ge(w(j), 0) if pos else le(w(j), 0), 'weights have one sign'))
def sum_sign(c, st, P, pos):
    """the sum of weights of one sign has that sign (induction on the number of terms)"""
    n, m, w, _ = views(c, st, P)
    k = z3.Int('kk_')
    e = st.copy(); e.fact(and_(k >= 0, lt(k, m)))
    pre = SUMS.make(k, w); nxt = add(pre, w(k))
    s = ge if pos else le
    c.check(st, 'step: empty sum', s(SUMS.make(0, w), 0))
    e.fact(s(pre, 0))
    c.check(e, 'step: one more weight', s(nxt, 0), [k])
    st.fact(s(SUMS.make(m, w), 0))
# ------------------------------------------------------------------ contract of updateStatistics
def k_stats(c):
    def h(ex, st, g, a):
        P = a[0]
        n, m, w, _ = views(c, st, P)
        ex.oblige(st, 'statistics: one weight per particle', eqv(n, m))
        ex.oblige(st, 'statistics: there are particles', ge(n, 1))
        s = [z3.Int('sk%d!%d' % (k, next(ex.n))) for k in (1, 2)]
        signs = [implies(and_(q >= 0, lt(q, m)), f(w(q), 0)) for q, f in zip(s, (ge, le))]
        w0 = st.read(('ghost:sign', (), 0))
        if w0 == -1: ex.oblige(st, 'statistics: the weights have one sign', signs[1], [s[1]])
        else: ex.oblige(st, 'statistics: the weights have one sign', signs[0], [s[0]])
        st.write(('ghost:scores', (), 0), w)
        u = next(ex.n)
        W = z3.Function('weight!%d' % u, I, R)
        c.setarr(st, P, 'weights_[]', lambda j: W(zi(j)))
        for k in range(3): c.set(st, P, 'mean_.d_[%d]' % k, z3.Real('mean!%d_%d' % (u, k)))
        for i in range(3):
            for j in range(3):
                if (i, j) != (0, 2) and (i, j) != (1, 2) and (j, i) != (0, 2) and (j, i) != (1, 2): c.set(st, P, cov_path(i, j), z3.Real('cov!%d_%d%d' % (u, i, j)))
        l, nn = stat(c, st, P)
        for nm, q in l: st.fact(q)
        j = z3.Int('jw')
        st.qfact(smt.QFact([j], and_(j >= 0, lt(j, m)), W(j) >= 0, 'weights are not negative'))
        st.write(('ghost:stats', (), 0), add(st.read(('ghost:stats', (), 0)) or 0, 1))
    c.ex.contracts[norm('ndt_2d::ParticleFilter::updateStatistics')] = h
def pair(c, st, P):
    """one weight per particle, at least one"""
    n = c.get(st, P, 'particles_.size')
    c.set(st, P, 'weights_.size', n); st.fact(ge(n, 1))
    return views(c, st, P)
def inv(c, st, P):
    n, m, w, _ = pair(c, st, P)
    one_sign(c, st, P, True)
    st.fact(eqv(SUMS.make(n, w), 1))
    st.fact(ge(c.get(st, P, 'min_particles_'), 1))
def t_stats(pos, zero):
    def f(c):
        st = c.state(); P = c.obj(Q, 'filter')
        n, m, w, _ = pair(c, st, P)
        one_sign(c, st, P, pos)
        sum_sign(c, st, P, pos)
        W0 = SUMS.make(m, w)
        st.fact(eqv(W0, 0) if zero else (gt(W0, 0) if pos else lt(W0, 0)))
        outs = c.call1(st, 'ndt_2d::ParticleFilter::updateStatistics', [P])
        c.check(st, 'updateStatistics returns', len(outs) > 0)
        for t, v in outs:
            c.cover(t, 'updateStatistics')
            check_stat(c, t, P, 'statistics')
            w1 = views(c, t, P)[2]
            rng = and_(i0 >= 0, lt(i0, m))
            c.check(t, 'the weights are the scores divided by their sum' if not zero else 'without any score the weights are equal', implies(rng, eqv(w1(i0), rdiv(w(i0), W0) if not zero else rdiv(Fraction(1), zr(n)))), [i0])
            check_same(c, t, 'updateStatistics keeps', st, P, only=('particles_', 'min_particles_', 'max_particles_', 'motion_model_'))
    return f
def t_init(c):
    st = c.state(); P = c.obj(Q, 'filter'); inv(c, st, P); k_stats(c)
    a = z3.Reals('px py pth sx sy sth')
    for q in a[3:]: st.fact(q >= 0)
    ev = []
    c.ex.listener = lambda ex, s, kind, *b: ev.append(b) if kind == 'normal' else None
    outs = c.call1(st, 'ndt_2d::ParticleFilter::init', [P] + list(a))
    c.check(st, 'init returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'init')
        check_stat(c, t, P, 'after init')
        c.check(t, 'init keeps the number of particles', eqv(c.get(t, P, 'particles_.size'), c.get(st, P, 'particles_.size')))
        check_same(c, t, 'init keeps', st, P, only=('min_particles_', 'max_particles_'))
def t_update(c):
    st = c.state(); P = c.obj(Q, 'filter'); inv(c, st, P); k_stats(c)
    def k_sample(ex, s, g, a):
        V = a[4]
        for k in range(3):
            f = z3.Function('moved%d!%d' % (k, next(ex.n)), I, R)
            sub_, o, leaf = c._loc(P, 'particles_[].d_[%d]' % k)
            if V.root != P.root: raise Unsupported('particles handed on by copy')
            c.setarr(s, P, 'particles_[].d_[%d]' % k, lambda j, f=f: f(zi(j)))
        s.write(('ghost:sample', (), 0), (a[1], a[2], a[3]))
    c.ex.contracts[norm('ndt_2d::MotionModel::sample')] = k_sample
    c.get(st, P, 'motion_model_.p_')
    a = z3.Reals('dx dy dth')
    outs = c.call1(st, 'ndt_2d::ParticleFilter::update', [P] + list(a))
    c.check(st, 'update returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'update')
        check_stat(c, t, P, 'after update')
        s = t.read(('ghost:sample', (), 0))
        c.check(t, 'the particles are moved by the step', and_(*[eqv(p, q) for p, q in zip(s, a)]) if s else False)
def t_measure(pos):
    def f(c):
        st = c.state(); P = c.obj(Q, 'filter'); inv(c, st, P); k_stats(c)
        st.write(('ghost:sign', (), 0), 1 if pos else -1)
        n0 = c.get(st, P, 'particles_.size')
        calls = []
        def k_score(ex, s, g, a):
            sc = ex.fresh('score', R)
            s.fact(sc >= 0 if pos else sc <= 0)
            pose = [c.ex.load(s, a[2].at(8 * k), 'double') for k in range(3)]
            calls.append((pose, list(ex.kstack), sc))
            return sc
        c.ex.virt[('ndt_2d::ScanMatcher', 'scorePoints')] = k_score
        M = c.heap('ndt_2d::ScanMatcher', z3.Int('matcher')); S = c.heap('ndt_2d::Scan', z3.Int('scan'))
        for q in ('matcher', 'scan'): st.fact(z3.Int(q) >= 1); st.fact(lt(z3.Int(q), c.ex.T0()))
        outs = c.call1(st, 'ndt_2d::ParticleFilter::measure', [P, c.box(st, 'mp', M), c.box(st, 'sp', S)])
        c.check(st, 'measure returns', len(outs) > 0)
        for t, v in outs:
            c.cover(t, 'measure')
            check_stat(c, t, P, 'after measure')
            check_same(c, t, 'measure keeps', st, P, only=('particles_', 'min_particles_', 'max_particles_'))
            c.check(t, 'the scan is scored', len(calls) > 0)
            if not calls: continue
            pose, ks, sc = calls[-1]
            if len(ks) != 1 or not isz(sc) or sc.num_args() != 1: c.check(t, 'every particle is scored', False); continue
            at = lambda v: z3.substitute(z(v), (ks[0], i0)) if isz(v) else v
            w = t.read(('ghost:scores', (), 0))
            rng = and_(i0 >= 0, lt(i0, n0))
            c.check(t, 'the weight of a particle is the score it was given', implies(rng, eqv(w(i0), at(sc))), [i0])
            for k in range(3): c.check(t, 'a particle is scored at its pose [%d]' % k, implies(rng, eqv(at(pose[k]), c.get(st, P, 'particles_[].d_[%d]' % k, (i0,)))), [i0])
    return f
def t_resample(c):
    st = c.state(); P = c.obj(Q, 'filter'); inv(c, st, P); k_stats(c)
    st.write(('ghost:sign', (), 0), 1)
    kdt.install(c, st)
    e, z_ = z3.Reals('kld_err kld_z')
    st.fact(e >= zr(Fraction(1, 1000))); st.fact(z_ >= 0); st.fact(z_ <= 10)
    mx = c.get(st, P, 'max_particles_'); st.fact(mx <= 2**31)
    st.fact(ge(mx, c.get(st, P, 'min_particles_')))
    outs, thr = c.call(st, 'ndt_2d::ParticleFilter::resample', [P, e, z_])
    c.check(st, 'resample returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'resample')
        check_stat(c, t, P, 'after resample')
def t_ctor(c):
    st = c.state(); P = c.obj(Q, 'filter'); k_stats(c); st.write(('ghost:sign', (), 0), 1)
    mn, mx = z3.Ints('pmin pmax')
    st.fact(mn >= 1); st.fact(mx >= mn); st.fact(mx <= 2**31)
    M = c.heap('ndt_2d::MotionModel', z3.Int('model')); st.fact(z3.Int('model') >= 1); st.fact(lt(z3.Int('model'), c.ex.T0()))
    outs, thr = c.call(st, [f for f in c.p.fn.values() if f['dem'].startswith('ndt_2d::ParticleFilter::ParticleFilter(') and not f['decl']][0], [P, mn, mx, c.box(st, 'mm', M)])
    c.check(st, 'the constructor returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'constructor')
        check_stat(c, t, P, 'after construction')
        c.check(t, 'a new filter has the minimum number of particles', eqv(c.get(t, P, 'particles_.size'), mn))
        c.check(t, 'a new filter has the given bounds', and_(eqv(c.get(t, P, 'min_particles_'), mn), eqv(c.get(t, P, 'max_particles_'), mx)))
def t_msg(c):
    st = c.state(); P = c.obj(Q, 'filter')
    n = c.get(st, P, 'particles_.size')
    for k in range(3): c.get(st, P, 'particles_[].d_[%d]' % k, (i0,))
    f = [f for f in c.p.fn.values() if f['dem'].startswith('ndt_2d::ParticleFilter::getMsg(') and not f['decl']][0]
    m = c.obj(f['dem'].split('(')[1].rstrip(')& '), 'msg')
    c.set(st, m, 'poses.size', 0)
    outs, thr = c.call(st, f, [P, m])
    c.check(st, 'getMsg returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'getMsg')
        c.check(t, 'one published pose per particle', eqv(c.get(t, m, 'poses.size'), n))
        p = [c.get(st, P, 'particles_[].d_[%d]' % k, (i0,)) for k in range(3)]
        rng = and_(i0 >= 0, lt(i0, n))
        g = lambda f_: c.get(t, m, 'poses[].' + f_, (i0,))
        c.check(t, 'published position', implies(rng, and_(eqv(g('position.x'), p[0]), eqv(g('position.y'), p[1]))), [i0])
        h = zr(mul(Fraction(1, 2), p[2]))
        c.check(t, 'published heading', implies(rng, and_(eqv(g('orientation.z'), SIN(h)), eqv(g('orientation.w'), COS(h)))), [i0])
        check_same(c, t, 'getMsg changes nothing', st, P)
def t_get(c):
    st = c.state(); P = c.obj(Q, 'filter')
    r = c.obj('Eigen::Matrix<double, 3, 1, 0>', 'ret'); outs = c.call1(st, 'ndt_2d::ParticleFilter::getMean', [r, P])
    for t, v in outs:
        c.cover(t, 'getMean')
        for k in range(3): c.check(t, 'getMean reports the mean [%d]' % k, eqv(c.get(t, r, 'd_[%d]' % k), c.get(st, P, 'mean_.d_[%d]' % k)))
        check_same(c, t, 'getMean changes nothing', st, P)
    r = c.obj('Eigen::Matrix<double, 3, 3, 0>', 'retc'); outs = c.call1(st, 'ndt_2d::ParticleFilter::getCovariance', [r, P])
    for t, v in outs:
        c.cover(t, 'getCovariance')
        for k in range(9): c.check(t, 'getCovariance reports the covariance [%d]' % k, eqv(c.get(t, r, 'd_[%d]' % k), c.get(st, P, 'cov_.d_[%d]' % k)))
        check_same(c, t, 'getCovariance changes nothing', st, P)
TASKS = [('statistics, scores positive', t_stats(True, False)), ('statistics, scores negative', t_stats(False, False)), ('statistics, no score', t_stats(True, True)), ('statistics, no negative score', t_stats(False, True)),
         ('init', t_init), ('update', t_update), ('measure positive', t_measure(True)), ('measure negative', t_measure(False)), ('resample', t_resample), ('constructor', t_ctor), ('getMsg', t_msg), ('getters', t_get)]
