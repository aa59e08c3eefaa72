"""C16: scan matching returns the best pose of its search window."""
from api import *
UNDER_CONTRACT = ['ScanMatcherNDT::scorePoints', 'ScanMatcherNDT::scoreScan', 'ScanMatcherNDT::addScans', 'ScanMatcherNDT::reset', 'ScanMatcherNDT::matchScan (nothing to match)', 'Scan::getPose', 'Scan::getPoints']
BOUNDED = ['ScanMatcherNDT::matchScan: window search and covariance']
ASSUMES = ['contracts of ndt_2d::NDT: likelihood is a function of the point (C03, C04), constructor, addScan and compute (C03)',
           'scan poses and the maximum range are below 2^1000 in size']
Q = 'ndt_2d::ScanMatcherNDT'
VP = 'std::vector<ndt_2d::Point, std::allocator<ndt_2d::Point>>'
i0 = z3.Int('ix0')
LIK = z3.Function('likelihood', R, R, R)
def find(c, what):
    for f in c.p.fn.values():
        if f['dem'].startswith(what) and not f['decl']: return f
    raise Unsupported('no ' + what)
def install(c):
    c.named = {}
    def at(ex, st, g, a):
        ex.check_ptr(st, a[0])
        st.write(('ghost:asked', (), 0), a[0])
        return [(st, LIK(zr(ex.load(st, a[1], 'double')), zr(ex.load(st, a[1].at(8), 'double'))))]
    def lst(ex, st, g, a):
        ex.check_ptr(st, a[0])
        n = c.get(st, a[1], 'size'); px, py = c.arr(st, a[1], '[].x'), c.arr(st, a[1], '[].y')
        v = SUMS.make(n, lambda j: LIK(zr(px.get((j,))), zr(py.get((j,)))))
        # under a name of its own, one per iteration
        ks = [zi(x) for x in ex.kstack]
        nm = 'lik!%d' % ex.siteid.setdefault(('lik', st.frames[-1].path, g['dem'], len(ks)), len(ex.siteid))
        F = z3.Function(nm, *([I] * len(ks) + [R])) if ks else None
        r = F(*ks) if ks else z3.Real(nm)
        c.named[nm] = len(ks)
        st.fact(eqv(r, v))
        return [(st, r)]
    for f in c.p.fn.values():
        d = f['dem']
        if d.startswith('ndt_2d::NDT::likelihood(Eigen::Matrix<double, 2') or d.startswith('ndt_2d::NDT::likelihood(Eigen::Matrix<double, 3, 1'): c.ex.contracts[norm(d)] = at
        elif d.startswith('ndt_2d::NDT::likelihood(std::vector'): c.ex.contracts[norm(d)] = lst
def matcher(c, st, empty=False):
    P = c.obj(Q, 'matcher')
    if empty: c.set(st, P, 'ndt_.p_', NULL)
    else:
        r = z3.Int('grid'); st.fact(and_(r >= 1, r < c.ex.T0()))
        c.set(st, P, 'ndt_.p_', c.heap('ndt_2d::NDT', r))
    return P
def beams(N, px, py, B, pose, off=(0, 0, 0)):
    """number of beams used, likelihood of the i-th of them with the scan at pose + off"""
    n = ite(lt(B, N), B, N)
    x, y, th = pose
    def L(i):
        k = z3.ToInt(zr(mul(zr(i), rdiv(zr(N), zr(n)))))
        h = zr(add(th, off[2])); C, S = COS(h), SIN(h); a, b = px.get((k,)), py.get((k,))
        return LIK(zr(add(add(sub(mul(C, a), mul(S, b)), x), off[0])), zr(add(add(add(mul(S, a), mul(C, b)), y), off[1])))
    return n, L
def t_score(empty):
    def f(c):
        st = c.state(); install(c); P = matcher(c, st, empty)
        B = c.get(st, P, 'laser_max_beams_'); st.fact(B >= 0)
        V = c.obj(VP, 'pts'); N = c.get(st, V, 'size'); px, py = c.arr(st, V, '[].x'), c.arr(st, V, '[].y')
        T = c.obj('ndt_2d::Pose2d', 'pose'); x, y, th = (c.get(st, T, k) for k in ('x', 'y', 'theta'))
        outs, thr = c.call(st, 'ndt_2d::ScanMatcherNDT::scorePoints', [P, V, T])
        c.check(st, 'scorePoints returns', len(outs) > 0)
        n, L = beams(N, px, py, B, (x, y, th))
        for t, v in outs:
            c.cover(t, 'scorePoints')
            if empty: c.check(t, 'without a grid the score is zero', eqv(v, 0)); continue
            c.check(t, 'no points score zero', implies(eqv(n, 0), eqv(v, 0)))
            c.check(t, 'mean negated likelihood', implies(gt(n, 0), eqv(mul(v, zr(n)), neg(SUMS.make(n, L)))))
            check_same(c, t, 'scoring keeps the points', st, V)
            check_same(c, t, 'scoring keeps the pose', st, T)
            check_same(c, t, 'scoring keeps the matcher', st, P)
    return f
def scan(c, st):
    """a scan of its own"""
    q = z3.Int('scan'); st.fact(and_(q >= 1, q < c.ex.T0()))
    S = c.heap('ndt_2d::Scan', q); sp = c.box(st, 'scanptr', S)
    return S, sp
def t_scan(c):
    st = c.state(); install(c); P = matcher(c, st); S, sp = scan(c, st)
    B = c.get(st, P, 'laser_max_beams_'); st.fact(B >= 0)
    N = c.get(st, S, 'points_.size')
    n, L = beams(N, c.arr(st, S, 'points_[].x'), c.arr(st, S, 'points_[].y'), B, [c.get(st, S, 'pose_.' + k) for k in ('x', 'y', 'theta')])
    outs, thr = c.call(st, 'ndt_2d::ScanMatcherNDT::scoreScan', [P, sp])
    c.check(st, 'scoreScan returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'scoreScan')
        c.check(t, 'no points score zero', implies(eqv(n, 0), eqv(v, 0)))
        c.check(t, 'mean negated likelihood of the scan at its pose', implies(gt(n, 0), eqv(mul(v, zr(n)), neg(SUMS.make(n, L)))))
        check_same(c, t, 'scoring keeps the scan', st, S, skip=('barycenter_', 'dirty_'))
        check_same(c, t, 'scoring keeps the matcher', st, P)
def t_nomatch(kind):
    def f(c):
        """nothing to match against, or nothing to match: score 0 and the pose found stays"""
        st = c.state(); install(c); P = matcher(c, st, kind == 'grid'); S, sp = scan(c, st)
        B, N = c.get(st, P, 'laser_max_beams_'), c.get(st, S, 'points_.size'); st.fact(B >= 0)
        if kind == 'points': c.set(st, S, 'points_.size', 0)
        if kind == 'beams': c.set(st, P, 'laser_max_beams_', 0)
        T = c.obj('ndt_2d::Pose2d', 'pose'); M = c.obj('Eigen::Matrix<double, 3, 3, 0>', 'cov')
        outs, thr = c.call(st, 'ndt_2d::ScanMatcherNDT::matchScan', [P, sp, T, M])
        c.check(st, 'matchScan returns', len(outs) > 0)
        for t, v in outs:
            c.cover(t, 'matchScan')
            c.check(t, 'the score is zero', eqv(v, 0))
            check_same(c, t, 'the pose stays', st, T)
            check_same(c, t, 'matching keeps the scan', st, S, skip=('barycenter_', 'dirty_'))
            check_same(c, t, 'matching keeps the matcher', st, P)
    return f
def t_reset(c):
    st = c.state(); P = matcher(c, st)
    c.ex.contracts[norm('ndt_2d::NDT::~NDT')] = lambda ex, s, g, a: [(s, None)]
    outs, thr = c.call(st, 'ndt_2d::ScanMatcherNDT::reset', [P])
    c.check(st, 'reset returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'reset')
        c.check(t, 'no grid after a reset', is_null(c.get(t, P, 'ndt_.p_')))
        check_same(c, t, 'reset keeps the configuration', st, P, skip=('ndt_',))
def same_ptr(a, b):
    if a is NULL or b is NULL: return a is b
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.root != b.root or a.steps != b.steps or a.off != b.off: return False
    return and_(*[eqv(x, y) for x, y in zip(a.idx, b.idx)])
def is_null(p): return p is NULL or (isinstance(p, Ptr) and len(p.idx) == 1 and eqv(p.idx[0], 0))
SC = 'std::vector<std::shared_ptr<ndt_2d::Scan>, std::allocator<std::shared_ptr<ndt_2d::Scan>>>'
W = z3.Function('weight', I, R)          # any weight of scans: the sum over the scans added tells which they were
def t_add(empty):
    def f(c):
        st = c.state(); P = matcher(c, st)
        V = c.obj(SC, 'scans'); N = c.get(st, V, 'size'); st.fact(N < 2 ** 31)
        s0 = z3.Int('s0'); st.fact(and_(s0 >= 1, s0 + N <= c.ex.T0()))
        c.setarr(st, V, '[].p_', lambda i: add(s0, i))
        b, e = z3.Int('b'), z3.Int('e'); st.fact(and_(b >= 0, b <= e, e <= N)); st.fact(b == e if empty else b < e)
        px, py = (lambda ref, k=k: c.get(st, c.heap('ndt_2d::Scan', ref), 'pose_.' + k) for k in 'xy')
        px(s0); py(s0)
        rm, res = c.get(st, P, 'range_max_'), c.get(st, P, 'resolution_')
        # coordinates a double can hold
        big = Fraction(2) ** 1000
        st.qfact(QFact([i0], and_(i0 >= 0, i0 < N), and_(*[and_(le(-big, q(s0 + i0)), le(q(s0 + i0), big)) for q in (px, py)]), 'finite poses'))
        st.fact(and_(rm >= 0, le(rm, big)))
        GN = lambda n: ('ghost:ndt', (), n)
        for n in ('added', 'done'): st.write(GN(n), Fraction(0) if n == 'added' else 0)
        def ctor(ex, s, g, a):
            for n in range(5): s.write(GN('arg%d' % n), a[n + 1])
            s.write(GN('added'), Fraction(0)); s.write(GN('done'), 0); s.write(GN('obj'), a[0])
            return [(s, None)]
        def addscan(ex, s, g, a):
            o = s.read(GN('obj'))
            ex.oblige(s, 'scans are added to the grid being built', o is not None and same_ptr(a[0], o))
            ex.oblige(s, 'scans are added before the grid is computed', eqv(s.read(GN('done')), 0))
            q = ex.load(s, a[1], 'ptr')
            s.write(GN('added'), add(s.read(GN('added')), W(zi(q.idx[0]))))
            return [(s, None)]
        def compute(ex, s, g, a):
            o = s.read(GN('obj'))
            ex.oblige(s, 'the grid computed is the one being built', o is not None and same_ptr(a[0], o))
            s.write(GN('done'), 1); return [(s, None)]
        K = c.ex.contracts
        K[norm('ndt_2d::NDT::NDT')] = ctor; K[norm('ndt_2d::NDT::addScan')] = addscan; K[norm('ndt_2d::NDT::compute')] = compute
        K[norm('ndt_2d::NDT::~NDT')] = lambda ex, s, g, a: [(s, None)]
        its = []
        for n, k in (('b', b), ('e', e)):
            p = Ptr('o:it_' + n); c.ex.store(st, p, V, 'ptr'); c.ex.store(st, p.at(8), k, 'i64'); its.append(p)
        fn = find(c, 'ndt_2d::ScanMatcherNDT::addScans(')
        outs, thr = c.call(st, fn, [P] + its)
        c.check(st, 'addScans returns', len(outs) > 0)
        for t, v in outs:
            c.cover(t, 'addScans')
            o = c.get(t, P, 'ndt_.p_')
            if empty: c.check(t, 'no scans, no grid', is_null(o)); continue
            q = t.read(GN('obj'))
            c.check(t, 'the grid kept is the one built', q is not None and same_ptr(o, q))
            if q is None: continue
            c.check(t, 'the grid is computed', eqv(t.read(GN('done')), 1))
            A = [zr(t.read(GN('arg%d' % n))) for n in range(5)]
            c.check(t, 'every scan is added once', eqv(t.read(GN('added')), SUMS.make(sub(e, b), lambda j: W(add(add(s0, b), j)))))
            c.check(t, 'cell size', eqv(A[0], res))
            inr = and_(ge(i0, b), lt(i0, e))
            for n, q in (('x', px), ('y', py)):
                k = 'xy'.index(n); v = q(add(s0, i0))
                c.check(t, 'the grid starts below every reachable ' + n, implies(inr, le(A[3 + k], sub(v, rm))), [i0])
                c.check(t, 'the grid ends beyond every reachable ' + n, implies(inr, ge(add(A[3 + k], A[1 + k]), add(v, rm))), [i0])
            check_same(c, t, 'adding keeps the scans', st, c.heap('ndt_2d::Scan', i0))
            check_same(c, t, 'adding keeps the list', st, V)
            check_same(c, t, 'adding keeps the configuration', st, P, skip=('ndt_',))
    return f
TASKS = [('scorePoints', t_score(False)), ('scorePoints without grid', t_score(True)), ('scoreScan', t_scan), ('addScans', t_add(False)), ('addScans of nothing', t_add(True)),
         ('matchScan without grid', t_nomatch('grid')), ('matchScan without points', t_nomatch('points')), ('matchScan without beams', t_nomatch('beams')), ('reset', t_reset)]
