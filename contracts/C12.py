"""C12: without noise the motion model applies odometry exactly; with noise the spread is the
configured one and every particle has draws of its own.

Ghost: every draw from a normal distribution is an event with its mean, standard deviation and
a fresh standard normal value that depends on the iteration in which it is drawn.
Spec of MotionModel::sample for a step (dx, dy, dth): translation T = |(dx, dy)|, first rotation
A = direction of (dx, dy) (0 below a centimetre), second rotation B = dth - A.  With draws
r1, t, r2 the particle (x, y, h) becomes (x + t cos(h + r1), y + t sin(h + r1), norm(h + r1 + r2))."""
from api import *
from builtins_sx import norm_angle, sq
Q = 'ndt_2d::MotionModel'
PV = 'std::vector<Eigen::Matrix<double,3,1,0>,std::allocator<Eigen::Matrix<double,3,1,0>>>'
UNDER_CONTRACT = ['MotionModel::MotionModel', 'MotionModel::sample']
ASSUMES = ['C12 preconditions: the noise parameters are not negative',
           'C12 std::normal_distribution with standard deviation zero returns its mean (libstdc++ does; the standard asks for a positive one)',
           'C12 sin/cos of a sum (addition theorem), atan2 and normalize_angle by their defining properties; single precision draws as real numbers']
H = Fraction(1, 100)
def dpi(a):
    """distance of an angle to the nearest multiple of pi (either direction of travel)"""
    n = norm_angle(a)
    m = ite(ge(n, Fraction(0)), n, sub(Fraction(0), n))
    return ite(le(mul(2, m), PI), m, sub(PI, m))
def spread(par, trans, d1, d2):
    a1, a2, a3, a4 = par
    q = lambda v: mul(v, v)
    return (add(mul(a1, q(d1)), mul(a2, q(trans))), add(add(mul(a3, q(trans)), mul(a4, q(d1))), mul(a4, q(d2))), add(mul(a1, q(d2)), mul(a2, q(trans))))
def events(c):
    """draws by site; the last run of a loop body is the general one"""
    ev = {}
    def listen(ex, st, kind, *a):
        if kind == 'normal': ev[a[2].decl().name()] = (a[0], a[1], a[2], list(ex.kstack))
    c.ex.listener = listen
    return ev
def t_far(c): sample(c, True)
def t_near(c): sample(c, False)
def sample(c, isfar):
    st = c.state()
    P, V = c.obj(Q, 'model'), c.obj(PV, 'poses')
    par = [c.get(st, P, 'a%d_' % k) for k in (1, 2, 3, 4)]
    for a in par: st.fact(ge(a, 0))
    dx, dy, dth = z3.Reals('dx dy dth')
    n = c.get(st, V, 'size')
    ev = events(c)
    trans = sq(add(mul(dx, dx), mul(dy, dy)))
    st.fact(gt(trans, H) if isfar else le(trans, H))
    outs, thr = c.call(st, 'ndt_2d::MotionModel::sample', [P, dx, dy, dth, V])
    c.check(st, 'sample returns', len(outs) > 0)
    i = z3.Int('ix0')
    c.check(st, 'three draws for every particle', len(ev) == 3)
    for t, v in outs:
        c.cover(t, 'sample')
        if len(ev) != 3: continue
        c.check(t, 'the number of particles stays', eqv(c.get(t, V, 'size'), n))
        # which draw is which: by its mean
        E = list(ev.values())
        own = all(len(k) == 1 and z_.num_args() == 1 for m, sd, z_, k in E)
        c.check(t, 'every particle has draws of its own', own)
        if not own: continue
        def at(e, k): return z3.substitute(z(e), *[(q, zi(i)) for q in k]) if isz(e) else e
        E = [(at(m, k), at(sd, k), at(z_, k)) for m, sd, z_, k in E]
        A = ATAN2(zr(dy), zr(dx)) if isfar else Fraction(0)
        B = norm_angle(sub(dth, A))
        role = None
        for perm in itertools.permutations(range(3)):
            m = [E[q][0] for q in perm]
            if role is None and c.ex.decide(t, eqv(m[1], trans), 2000) is True and c.ex.decide(t, eqv(m[0], A), 2000) is True: role = perm
        c.check(t, 'the means of the draws are the rotation towards the goal, the distance and the remaining rotation', role is not None)
        if role is None: continue
        (m1, s1, z1), (mt, s2, zt), (m2, s3, z2) = [E[q] for q in role]
        if isfar: c.check(t, 'the first rotation points along the step', and_(eqv(mul(trans, COS(zr(m1))), dx), eqv(mul(trans, SIN(zr(m1))), dy)))
        else: c.check(t, 'the first rotation of a step of up to a centimetre is none', eqv(m1, 0))
        c.check(t, 'the rotations add up to the turn', eqv(norm_angle(sub(m2, B)), 0))
        # spread
        d1, d2 = dpi(A), dpi(sub(dth, A))
        for nm, s, w in zip(('first rotation', 'distance', 'second rotation'), (s1, s2, s3), spread(par, trans, d1, d2)):
            sq_equal(c, t, 'spread of the %s is the configured one' % nm, s, w)
        # every particle
        x, y, h = [c.get(st, V, '[].d_[%d]' % k, (i,)) for k in range(3)]
        g = [c.get(t, V, '[].d_[%d]' % k, (i,)) for k in range(3)]
        # the spreads are now arbitrary numbers
        ab = [(z(s), z3.Real('spread%d' % k)) for k, s in enumerate((s1, s2, s3)) if isz(s)]
        def ab_(v): return z3.substitute(z(v), *ab) if isz(v) else v
        g = [ab_(v) for v in g]; s1, s2, s3 = [ab_(v) for v in (s1, s2, s3)]
        r1, tt, r2 = add(m1, mul(s1, z1)), add(mt, mul(s2, zt)), add(m2, mul(s3, z2))
        rng = and_(i >= 0, lt(i, n))
        t.fact(rng)
        c.cover(t, 'a particle')
        c.check(t, 'particle moves along the drawn rotation: x', eqv(g[0], add(x, mul(tt, COS(zr(add(h, r1)))))), [i])
        c.check(t, 'particle moves along the drawn rotation: y', eqv(g[1], add(y, mul(tt, SIN(zr(add(h, r1)))))), [i])
        c.check(t, 'particle turns by both drawn rotations', eqv(norm_angle(sub(g[2], add(add(h, r1), r2))), 0), [i])
        c.check(t, 'the heading is normalized', and_(gt(g[2], sub(Fraction(0), PI)), le(g[2], PI)), [i])
        if not isfar: continue
        # without noise: the spreads are zero (shown below), so the draws are their means
        zero = [(q, z3.RealVal(0)) for _, q in ab]
        g = [z3.substitute(z(v), *zero) for v in g]
        e = State(); e.fact(rng); e.fact(gt(trans, H))
        c.cover(e, 'no noise')
        u = add(h, m1)
        C_, S_, cm, sm = COS(zr(h)), SIN(zr(h)), COS(zr(m1)), SIN(zr(m1))
        e.fact(and_(eqv(COS(zr(u)), sub(mul(C_, cm), mul(S_, sm))), eqv(SIN(zr(u)), add(mul(S_, cm), mul(C_, sm)))))
        c.lemma(e, 'step forward', and_(eqv(mul(trans, cm), dx), eqv(mul(trans, sm), dy)))
        c.lemma(e, 'x', eqv(g[0], add(x, mul(trans, COS(zr(u))))), [i]); c.lemma(e, 'y', eqv(g[1], add(y, mul(trans, SIN(zr(u))))), [i])
        c.general(e, 'composition x', [eqv(g[0], add(x, mul(trans, COS(zr(u))))), eqv(COS(zr(u)), sub(mul(C_, cm), mul(S_, sm))), eqv(mul(trans, cm), dx), eqv(mul(trans, sm), dy)],
                  eqv(g[0], sub(add(x, mul(C_, dx)), mul(S_, dy))), [z(q) for q in (COS(zr(u)), C_, S_, cm, sm, trans, g[0])])
        c.general(e, 'composition y', [eqv(g[1], add(y, mul(trans, SIN(zr(u))))), eqv(SIN(zr(u)), add(mul(S_, cm), mul(C_, sm))), eqv(mul(trans, cm), dx), eqv(mul(trans, sm), dy)],
                  eqv(g[1], add(add(y, mul(S_, dx)), mul(C_, dy))), [z(q) for q in (SIN(zr(u)), C_, S_, cm, sm, trans, g[1])])
        c.check(e, 'without noise a particle ends at its pose composed with the step: x', eqv(g[0], sub(add(x, mul(C_, dx)), mul(S_, dy))))
        c.check(e, 'without noise a particle ends at its pose composed with the step: y', eqv(g[1], add(add(y, mul(S_, dx)), mul(C_, dy))))
        c.check(e, 'without noise a particle ends at its pose composed with the step: heading', eqv(norm_angle(sub(g[2], add(h, dth))), 0))
        check_same(c, t, 'sample keeps the noise parameters', st, P, only=('a1_', 'a2_', 'a3_', 'a4_', 'a5_'))
def sq_equal(c, t, name, s, w):
    """s >= 0 and s * s == w; a root is compared by what is under it"""
    c.check(t, name + ': not negative', ge(s, 0))
    if isz(s) and s.decl().eq(SQRT):
        c.check(t, name, eqv(s.arg(0), w))
        c.check(t, name + ': a square', ge(s.arg(0), 0))
    else: c.check(t, name, eqv(mul(s, s), w))
def t_reverse(c):
    """forward and reverse motion have the same spread: the spec's rotations differ by half a turn"""
    st = c.state()
    A, dth = z3.Reals('A dth')
    st.fact(and_(gt(A, sub(Fraction(0), PI)), le(A, PI)))
    for nm, pos in (('left', True), ('right', False)):
        e = st.copy(); e.fact(gt(A, 0) if pos else le(A, 0))
        B_ = sub(A, PI) if pos else add(A, PI)        # direction of (-dx, -dy)
        c.cover(e, 'reverse ' + nm)
        c.check(e, 'reverse motion: the first rotation is as far from the axis (%s)' % nm, eqv(dpi(B_), dpi(A)))
        c.check(e, 'reverse motion: the second rotation is as far from the axis (%s)' % nm, eqv(dpi(sub(dth, B_)), dpi(sub(dth, A))))
def t_ctor(c):
    st = c.state()
    P = c.obj(Q, 'model')
    a = z3.Reals('p1 p2 p3 p4 p5')
    outs, thr = c.call(st, 'ndt_2d::MotionModel::MotionModel', [P] + list(a))
    c.check(st, 'the constructor returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'constructor')
        for k in range(5): c.check(t, 'the model has the given parameter a%d' % (k + 1), eqv(c.get(t, P, 'a%d_' % (k + 1)), a[k]))
def t_zero(c):
    """without noise parameters the configured spread is none"""
    st = c.state(); z_ = Fraction(0)
    tr, d1, d2 = z3.Reals('tr d1 d2')
    for k, w in enumerate(spread((z_,) * 4, tr, d1, d2)): c.check(st, 'no spread without noise [%d]' % k, eqv(w, 0))
TASKS = [('step', t_far), ('turn', t_near), ('no noise', t_zero), ('constructor', t_ctor), ('reverse', t_reverse)]
