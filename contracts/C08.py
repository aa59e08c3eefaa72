"""C08: optimization uses each constraint once and moves only solved scans.

Ghost state of the Ceres problem: the number of terms, for every term the keys of the two pose
variables it connects, the set of known parameter blocks and the set of constant ones.
Invariant between calls: the terms are exactly the first num_constraints_ constraints of the
list, in order; only the first scan is constant.  Solving changes any variable that is not
constant to any value, whether or not the solution is usable."""
from api import *
from C07 import Q, SV, log_terms, terms_of, setup
UNDER_CONTRACT = ['CeresSolver::CeresSolver', 'CeresSolver::optimize', 'CeresSolver::addConstraint', 'Scan::getId', 'Scan::getPose', 'Scan::setPose']
ASSUMES = ['C08 preconditions (the graph invariant of C18): the id of every scan is its position in the list, constraints name scans of the list, both lists only grow from call to call',
           'C08 Ceres: Solve changes only parameter blocks of the problem that are not constant; SetParameterBlockConstant aborts on an unknown block']
KV = 'std::vector<std::shared_ptr<ndt_2d::Constraint>, std::allocator<std::shared_ptr<ndt_2d::Constraint>>>'
GH = 'ghost:ceres'
G0 = lambda w: (GH, (), w)
G1 = lambda w: (GH, (0,), w)
G2 = lambda w: (GH, (0, 0), w)
def gfn(name, n, sort):
    f = z3.Function(name, *([I] * n + [sort]))
    return BaseA(lambda *i: f(*[zi(x) for x in i]), name)
def node_key(ex, p, c):
    """key and component of a pose variable"""
    if not (isinstance(p, Ptr) and p.root == c.P.root and len(p.idx) == 1 and p.off in (8, 16, 24)): raise Unsupported('a parameter that is not a pose variable: %r' % (p,))
    return p.idx[0], (p.off - 8) // 8
def install(c, st):
    ex = c.ex
    st.write(G0('nt'), z3.Int('terms0'))
    for w in ('tb', 'te', 'tc'): st.write(G1(w), gfn('term.' + w, 1, I))
    st.write(G1('blk'), gfn('term.blk', 1, B)); st.write(G2('cst'), gfn('term.cst', 2, B))
    def has(ex, st, g, a):
        k, comp = node_key(ex, a[1], c)
        return zb(st.read(G1('blk')).get((k,)))
    def setc(ex, st, g, a):
        k, comp = node_key(ex, a[1], c)
        ex.oblige(st, 'a parameter made constant belongs to the problem', st.read(G1('blk')).get((k,)))
        st.write(G2('cst'), put(st.read(G2('cst')), (k, comp), True))
    def setv(ex, st, g, a):
        k, comp = node_key(ex, a[1], c)
        ex.oblige(st, 'a parameter made variable belongs to the problem', st.read(G1('blk')).get((k,)))
        st.write(G2('cst'), put(st.read(G2('cst')), (k, comp), False))
    def isc(ex, st, g, a):
        k, comp = node_key(ex, a[1], c)
        return zb(st.read(G2('cst')).get((k, comp)))
    def solve(ex, st, g, a):
        c.presolve.append(st.copy())
        cst, blk = st.read(G2('cst')), st.read(G1('blk'))
        for comp in range(3):
            key = (c.P.root, (c.nodes_off,), 8 + 8 * comp)
            old = builtins_sx.cell(ex, st, key, ('real', 64))
            f = z3.Function('solved.%d' % comp, I, R)
            st.write(key, LamA(lambda k, f=f, old=old, comp=comp: ite(and_(blk.get((k,)), not_(cst.get((k, comp)))), f(zi(k)), old.get((k,)))))
        u = z3.Bool('usable')
        st.write(G0('usable'), u); st.write(G0('solves'), add(st.read(G0('solves')) or 0, 1))
        return u
    def k_add(ex, st, g, a):
        K = ex.load(st, a[1], 'ptr')
        ex.check_ptr(st, K)
        b, e = c.get(st, K, 'begin'), c.get(st, K, 'end')
        n = c.get(st, a[2], 'size')
        h = builtins_sx.marr(ex, st, c.NP)
        for x, w in ((b, 'begin'), (e, 'end')):
            ex.oblige(st, 'the scan a constraint names (%s) exists' % w, and_(ge(x, 0), lt(x, n)))
            ex.oblige(st, 'the scan a constraint names (%s) has a pose variable' % w, i2b(h.get((x,))))
        nt = st.read(G0('nt'))
        for w, v in (('tb', b), ('te', e), ('tc', K.idx[0])): st.write(G1(w), put(st.read(G1(w)), (nt,), v))
        bl = st.read(G1('blk'))
        st.write(G1('blk'), put(put(bl, (b,), True), (e,), True))
        st.write(G0('nt'), add(nt, 1))
        return NULL
    for n, h in (('ceres::Problem::HasParameterBlock', has), ('ceres::Problem::SetParameterBlockConstant', setc), ('ceres::Problem::SetParameterBlockVariable', setv),
                 ('ceres::Problem::IsParameterBlockConstant', isc), ('ceres::__verif_solve', solve), ('ndt_2d::CeresSolver::addConstraint', k_add)):
        ex.contracts[norm(n)] = h
i0 = z3.Int('ix0')
def t_opt(c, empty=False):
    st = c.state()
    c.P = c.obj(Q, 'solver'); c.NP = c.off(c.P, 'nodes_'); c.nodes_off = c.NP.off; c.presolve = []
    install(c, st)
    V, KL = c.obj(SV, 'scans'), c.obj(KV, 'constraints')
    n, m = c.get(st, V, 'size'), c.get(st, KL, 'size')
    st.fact(n >= 0); st.fact(n < 2 ** 31); st.fact(m >= 0)
    if empty: c.set(st, V, 'size', 0); n = 0
    else: st.fact(n >= 1)
    s0, k0 = z3.Ints('s0 k0')
    st.fact(and_(s0 >= 1, s0 + n <= c.ex.T0(), k0 >= 1, k0 + m <= c.ex.T0()))
    c.setarr(st, V, '[].p_', lambda i: add(s0, i)); c.setarr(st, KL, '[].p_', lambda i: add(k0, i))
    S0 = c.heap('ndt_2d::Scan', s0); K0 = c.heap('ndt_2d::Constraint', k0)
    # the id of a scan is its position
    st.write((S0.root, (), c._loc(S0, 'id_')[1]), LamA(lambda r: simp(sub(r, s0))))
    kb, ke = c.get(st, c.heap('ndt_2d::Constraint', add(k0, i0)), 'begin'), c.get(st, c.heap('ndt_2d::Constraint', add(k0, i0)), 'end')
    j = z3.Int('jq')
    kbj, kej = [z3.substitute(z(x), (i0, j)) for x in (kb, ke)]
    kbr, ker = [c.get(st, c.heap('ndt_2d::Constraint', j), f) for f in ('begin', 'end')]
    st.qfact(smt.QFact([j], and_(ge(j, k0), lt(j, add(k0, m))), and_(kbr >= 0, lt(kbr, n), ker >= 0, lt(ker, n)), 'constraints name scans'))
    # what earlier calls left
    nc = c.get(st, c.P, 'num_constraints_')
    st.fact(nc >= 0); st.fact(le(nc, m)); st.fact(eqv(st.read(G0('nt')), nc))
    tb, te, tc, blk, cst = [st.read(G1(w)) for w in ('tb', 'te', 'tc', 'blk')] + [st.read(G2('cst'))]
    st.qfact(smt.QFact([j], and_(j >= 0, lt(j, nc)), and_(eqv(tb.get((j,)), kbj), eqv(te.get((j,)), kej), eqv(tc.get((j,)), add(k0, j)), blk.get((kbj,)), blk.get((kej,))), 'terms are the constraints'))
    comp = z3.Int('comp')
    st.qfact(smt.QFact([j, comp], j != 0, not_(cst.get((j, comp))), 'only the first scan is constant'))
    st.fact(and_(*[not_(cst.get((i0, q))) for q in range(3)]) if False else True)
    for f in ('x', 'y', 'theta'): c.get(st, c.heap('ndt_2d::Scan', add(s0, i0)), 'pose_.' + f)
    outs, thr = c.call(st, 'ndt_2d::CeresSolver::optimize', [c.P, KL, V])
    c.check(st, 'optimize returns', len(outs) > 0)
    pose = lambda t, f, i=i0: c.get(t, c.heap('ndt_2d::Scan', add(s0, i)), 'pose_.' + f)
    rng = and_(i0 >= 0, lt(i0, n))
    for ps in c.presolve:
        for k, f in enumerate(('x', 'y', 'theta')):
            v = c.get(ps, c.P, 'nodes_[].d_[%d]' % k, (i0,))
            c.check(ps, 'every call starts from the current poses: ' + f, implies(rng, eqv(v, pose(st, f))), [i0])
            c.check(ps, 'the first scan is held fixed: ' + f, implies(zb(ps.read(G1('blk')).get((0,))), zb(ps.read(G2('cst')).get((0, k)))))
            c.check(ps, 'no other scan is held fixed: ' + f, implies(i0 != 0, not_(ps.read(G2('cst')).get((i0, k)))), [i0])
        c.check(ps, 'every constraint is one term before solving', eqv(ps.read(G0('nt')), m))
        c.cover(ps, 'solve')
    for t, v in outs:
        c.cover(t, 'optimize')
        v = v if isinstance(v, bool) or isz(v) and v.sort() == B else i2b(v)
        solved = t.read(G0('solves'))
        if empty: c.check(t, 'without scans optimize returns false', not_(v))
        else:
            c.check(t, 'the problem is solved once', solved == 1 if conc(solved) or solved is None else eqv(solved, 1))
            us = t.read(G0('usable'))
            c.check(t, 'optimize returns whether the solution is usable', eqv(v, us) if us is not None else not_(v))
            c.check(t, 'all constraints are counted', eqv(c.get(t, c.P, 'num_constraints_'), m))
        c.check(t, 'one term for every counted constraint', eqv(t.read(G0('nt')), c.get(t, c.P, 'num_constraints_')))
        tr = and_(i0 >= 0, lt(i0, c.get(t, c.P, 'num_constraints_')))
        c.check(t, 'term k connects the scans constraint k names: begin', implies(tr, eqv(t.read(G1('tb')).get((i0,)), kb)), [i0])
        c.check(t, 'term k connects the scans constraint k names: end', implies(tr, eqv(t.read(G1('te')).get((i0,)), ke)), [i0])
        c.check(t, 'term k measures what constraint k records', implies(tr, eqv(t.read(G1('tc')).get((i0,)), add(k0, i0))), [i0])
        c.check(t, 'the variables of its terms belong to the problem', implies(tr, and_(zb(t.read(G1('blk')).get((kb,))), zb(t.read(G1('blk')).get((ke,))))), [i0])
        c.check(t, 'only the first scan is constant', implies(i0 != 0, and_(*[not_(t.read(G2('cst')).get((i0, q))) for q in range(3)])), [i0])
        for k, f in enumerate(('x', 'y', 'theta')):
            now = pose(t, f)
            c.check(t, 'failure moves no scan: ' + f, implies(and_(rng, not_(v)), eqv(now, pose(st, f))), [i0])
            sol = c.get(t, c.P, 'nodes_[].d_[%d]' % k, (i0,))
            c.check(t, 'success gives every scan its solved pose: ' + f, implies(and_(rng, v), eqv(now, sol)), [i0])
            other = z3.Int('ix1')
            c.check(t, 'no other scan object is moved: ' + f, implies(or_(lt(other, s0), ge(other, add(s0, n))), eqv(c.get(t, c.heap('ndt_2d::Scan', other), 'pose_.' + f), c.get(st, c.heap('ndt_2d::Scan', other), 'pose_.' + f))), [other])
        X = c.heap('ndt_2d::Scan', i0)
        check_same(c, t, 'optimize keeps the points and ids of scans', st, X, skip=('pose_', 'barycenter_', 'dirty_', 'update_'))
        check_same(c, t, 'optimize keeps the constraints', st, c.heap('ndt_2d::Constraint', i0))
        check_same(c, t, 'optimize keeps the list of constraints', st, KL)
        check_same(c, t, 'optimize keeps the list of scans', st, V)
def t_add(c):
    """addConstraint gives Ceres one term between the variables of the two scans"""
    st, P, K, V, r = setup(c)
    log_terms(c)
    kp = c.box(st, 'kp', K)
    n = c.get(st, V, 'size')
    b, e = c.get(st, K, 'begin'), c.get(st, K, 'end')
    st.fact(and_(b >= 0, lt(b, n), e >= 0, lt(e, n)))
    s0 = z3.Int('s0'); st.fact(and_(s0 >= 1, s0 + n <= c.ex.T0()))
    c.setarr(st, V, '[].p_', lambda i: add(s0, i))
    S0 = c.heap('ndt_2d::Scan', s0)
    st.write((S0.root, (), c._loc(S0, 'id_')[1]), LamA(lambda q: simp(sub(q, s0))))
    has = c.arr(st, P, 'nodes_.has')
    for k in (b, e): st.fact(i2b(has.get((k,))))
    off = c.off(P, 'nodes_').off
    outs, thr = c.call(st, 'ndt_2d::CeresSolver::addConstraint', [P, kp, V])
    c.check(st, 'addConstraint returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'addConstraint')
        mine = terms_of(t)
        c.check(t, 'one term is handed to Ceres', len(mine) == 1)
        if len(mine) != 1: continue
        for q in range(6):
            p = mine[0][3 + q]; want = Ptr(P.root, (off,), ((b, e)[q // 3],), 8 + 8 * (q % 3))
            c.check(t, 'variable %d of the term' % q, isinstance(p, Ptr) and p.shape() == want.shape() and eqv(p.idx[0], want.idx[0]))
        for f in ('x', 'y', 'theta'):
            c.check(t, 'addConstraint moves no scan', eqv(c.get(t, c.heap('ndt_2d::Scan', i0), 'pose_.' + f), c.get(st, c.heap('ndt_2d::Scan', i0), 'pose_.' + f)), [i0])
        check_same(c, t, 'addConstraint keeps the solver', st, P, only=('num_constraints_', 'nodes_'))
        check_same(c, t, 'addConstraint keeps the constraint', st, K)
def t_ctor(c):
    st = c.state()
    P = c.obj(Q, 'solver'); c.P = P
    inits = []
    c.ex.contracts[norm('ceres::Problem::__init')] = lambda ex, st, g, a: st.write(('ghost:init', (), 'p'), a[0])
    outs, thr = c.call(st, 'ndt_2d::CeresSolver::CeresSolver', [P])
    c.check(st, 'the constructor returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'constructor')
        c.check(t, 'no constraint is counted', eqv(c.get(t, P, 'num_constraints_'), 0))
        c.check(t, 'no pose variable exists', not_(i2b(c.get(t, P, 'nodes_.has', (i0,)))), [i0])
        a, b = t.read((P.root, (), c._loc(P, 'problem_')[1])), t.read(('ghost:init', (), 'p'))
        c.check(t, 'the problem is new', a is not None and b is not None and veq(a, b))
TASKS = [('constructor', t_ctor), ('addConstraint', t_add), ('optimize', t_opt), ('optimize without scans', lambda c: t_opt(c, True))]
