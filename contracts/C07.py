"""C07: the squared residual of a constraint is e' I e.

Contracts of CeresSolver::addConstraint (which builds the term) and of the cost functor's
operator(), combined: for the term that addConstraint hands to Ceres, evaluated at any pose
variables, the squared norm of the residual is e' I e, where I is the information matrix of
the constraint.  Eigen's llt() is trusted: L L' = A with a positive diagonal for a positive
definite A."""
from api import *
import ir
Q = 'ndt_2d::CeresSolver'
UNDER_CONTRACT = ['CeresSolver::addConstraint', 'PoseGraph2dErrorTerm::PoseGraph2dErrorTerm', 'PoseGraph2dErrorTerm::Create',
                  'PoseGraph2dErrorTerm::operator()<double>', 'RotationMatrix2D<double>', 'NormalizeAngle<double>', 'Scan::getId']
ASSUMES = ['C07 preconditions: the constraint names existing scans whose poses the solver knows; its information matrix is symmetric positive definite',
           'C07 the automatic derivatives (ceres::Jet instantiation of the same template) are trusted']
TK = lambda n: ('ghost:terms', (), n)
def log_terms(c):
    """Ceres receives a term: recorded, nothing else happens"""
    def k_add(ex, st, g, a):
        n = st.read(TK('n')) or 0
        st.write(TK('t%d' % n), Agg({k: x for k, x in enumerate(a)})); st.write(TK('n'), n + 1)
        return NULL
    c.ex.contracts[norm('ceres::Problem::__add')] = k_add
def terms_of(t): return [t.read(TK('t%d' % k)).vals for k in range(t.read(TK('n')) or 0)]
def eval_fn(c):
    for f in c.p.fn.values():
        if not f['decl'] and '::Evaluate(' in f['dem'] and 'AutoDiffCostFunction' in f['dem'] and 'PoseGraph2dErrorTerm' in f['dem']: return f
    raise Unsupported('the automatic differentiation wrapper is not instantiated for the error term')
SV = 'std::vector<std::shared_ptr<ndt_2d::Scan>, std::allocator<std::shared_ptr<ndt_2d::Scan>>>'
def setup(c):
    st = c.state()
    P = c.obj(Q, 'solver')
    r = z3.Int('kref'); K = c.heap('ndt_2d::Constraint', r); st.fact(and_(r >= 1, r < c.ex.T0()))
    return st, P, K, c.obj(SV, 'scans'), r
def t_term(c):
    st, P, K, V, r = setup(c)
    log_terms(c)
    kp = c.box(st, 'kp', K)
    n = c.get(st, V, 'size')
    b, e = c.get(st, K, 'begin'), c.get(st, K, 'end')
    st.fact(and_(b >= 0, lt(b, n), e >= 0, lt(e, n)))
    sc = c.arr(st, V, '[].p_')
    for k in (b, e): st.fact(and_(sc.get((k,)) >= 1, sc.get((k,)) < c.ex.T0()))
    sid = lambda k: c.get(st, c.heap('ndt_2d::Scan', sc.get((k,))), 'id_')
    has = c.arr(st, P, 'nodes_.has')
    for k in (b, e): st.fact(i2b(has.get((sid(k),))))
    W = [[zr(c.get(st, K, 'information.d_[%d]' % (j * 3 + i_))) for j in range(3)] for i_ in range(3)]
    m = [c.get(st, K, 'transform.d_[%d]' % k) for k in range(3)]
    A = [[W[a][d] for d in range(3)] for a in range(3)]
    st.fact(builtins_sx.pos_def3(A))
    outs, thr = c.call(st, 'ndt_2d::CeresSolver::addConstraint', [P, kp, V])
    c.check(st, 'addConstraint returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'addConstraint')
        mine = terms_of(t)
        c.check(t, 'one term is handed to Ceres', len(mine) == 1)
        if len(mine) != 1: continue
        a = mine[0]
        cf, loss, prm = a[1], a[2], [a[k_] for k_ in range(3, 9)]
        c.check(t, 'the term has the squared loss', loss is NULL)
        c.check(t, 'the term has six variables', all(isinstance(p, Ptr) and p.root == P.root for p in prm))
        # the term at arbitrary values of its variables
        vs = z3.Reals('xa ya ta xb yb tb')
        u = t.copy()
        D = Ptr('o:prm')
        c.ex.rtype.pop('o:prm', None)
        for k_ in range(6):
            u.write(('o:var%d' % k_, (), 0), vs[k_]); u.write(('o:prm', (), 8 * k_), Ptr('o:var%d' % k_))
        Rz = Ptr('o:residuals')
        res = c.call1(u, eval_fn(c), [cf, D, Rz, NULL])
        c.check(u, 'the term can be evaluated', len(res) > 0)
        for w, ok in res:
            c.cover(w, 'evaluation')
            c.check(w, 'evaluation succeeds', ok if isinstance(ok, bool) or isz(ok) else ok == 1)
            rr = []
            for k_ in range(3):
                x = w.read(('o:residuals', (), 8 * k_))
                c.check(w, 'residual %d is written' % k_, x is not None and x is not UNDEF)
                rr.append(zr(x))
            xa, ya, ta, xb, yb, tb = vs
            C_, S_ = COS(ta), SIN(ta)
            e1 = C_ * (xb - xa) + S_ * (yb - ya) - zr(m[0])
            e2 = C_ * (yb - ya) - S_ * (xb - xa) - zr(m[1])
            ang = tb - ta - zr(m[2])
            e3 = ang - 2 * PI * zr(FLOOR((ang + PI) / (2 * PI)))
            # the wrapped heading error: in [-pi, pi) and a whole number of turns away
            c.check(w, 'the heading error is wrapped to [-pi, pi)', and_(e3 >= -PI, e3 < PI))
            E = [e1, e2, e3]
            want = sum((E[i_] * E[j_] * W[i_][j_] for i_ in range(3) for j_ in range(3)), zr(Fraction(0)))
            have = sum((x * x for x in rr), zr(Fraction(0)))
            # W[i][j] is the product of the factor's columns (llt), symmetric
            F = chol(c, w)
            prs = []
            for i_ in range(3):
                for j_ in range(3):
                    p = sum((F[min(i_, j_)][k_] * F[max(i_, j_)][k_] for k_ in range(min(i_, j_) + 1)), zr(Fraction(0)))
                    c.check(w, 'step: information (%d,%d) in terms of its factor' % (i_, j_), eqv(W[i_][j_], p))
                    prs.append((W[i_][j_], p))
            c.check(w, 'the squared residual is e\' I e', eqv(have, z3.substitute(want, *prs)))
            # the factor is regular: its product with e vanishes only for e = 0
            x1, x2, x3 = z3.Reals('gx1 gx2 gx3')
            s0 = State()
            for i_ in range(3): s0.fact(F[i_][i_] > 0)
            q1, q2, q3 = F[0][0] * x1 + F[1][0] * x2 + F[2][0] * x3, F[1][1] * x2 + F[2][1] * x3, F[2][2] * x3
            s1 = s0.copy(); s1.fact(eqv(q3, Fraction(0))); c.check(s1, 'step: last component', eqv(x3, Fraction(0)))
            s1 = s0.copy(); s1.fact(eqv(x3, Fraction(0))); s1.fact(eqv(q2, Fraction(0))); c.check(s1, 'step: middle component', eqv(x2, Fraction(0)))
            s1 = s0.copy(); s1.fact(eqv(x3, Fraction(0))); s1.fact(eqv(x2, Fraction(0))); s1.fact(eqv(q1, Fraction(0))); c.check(s1, 'step: first component', eqv(x1, Fraction(0)))
            for i_ in range(3): c.check(w, 'step: the factor has a positive diagonal (%d)' % i_, F[i_][i_] > 0)
            check_same(c, w, 'evaluation keeps the constraint', st, K)
        check_same(c, t, 'addConstraint keeps the constraint', st, K)
def chol(c, w):
    """the factor llt() produced"""
    F = [[zr(Fraction(0))] * 3 for _ in range(3)]
    for f in w.facts():
        for t in smt.subterms([f]):
            if z3.is_const(t) and t.decl().name().startswith('chol'):
                nm = t.decl().name(); F[int(nm[4])][int(nm[5])] = t
    return F
TASKS = [('term', t_term)]
