"""C09: the leaf count of the bin tree is the number of distinct bins entered since the last clear.

Ghost state: K(q), the bins entered; cnt, how many; end(q), the leaf at which the search for bin q
ends; reach(r, q), whether that search passes node r; alive(r), the nodes of the tree.  Tree
invariant: every bin's search passes the root; at an inner node it goes on to exactly the child on
its side of the pivot value; a leaf's own bin leads to it; and at a leaf, the bin searched has been
entered iff it is the leaf's.  _insert is verified against this invariant with its own contract at
the recursive call, insert and clear against the contract of _insert."""
from api import *
Q = 'ndt_2d::KDTree<double>'
NODE = Q + '::Node'
UNDER_CONTRACT = ['KDTree::KDTree', 'KDTree::insert', 'KDTree::_insert', 'KDTree::getLeafCount', 'KDTree::clear']
ASSUMES = ['C09 preconditions: bin widths positive, bin numbers (coordinate over width, rounded down) below 2^30 in absolute value',
           'C09 the recursion of _insert ends (the tree is finite): descent is not measured']
G = lambda n: ('ghost:' + n, (), 'kd')
q_ = z3.Int('qbin'); r_ = z3.Int('ndr')
BIN = [z3.Function('bin%d' % k, I, I) for k in range(3)]   # the three numbers of a bin
def is_bin(q, key): return and_(*[eqv(BIN[k](zi(q)), key[k]) for k in range(3)])
LIM = 2 ** 30 - 1
def ref(v): return 0 if v is NULL else (v.idx[0] if isinstance(v, Ptr) else v)
class Tree:
    """the tree of the object P in state st"""
    def __init__(s, c, st, P, root): s.c, s.st, s.P, s.root = c, st, P, root
    def fld(s, r, f): return s.c.get(s.st, s.c.heap(NODE, r), f)
    def key(s, r): return [s.fld(r, 'key[%d]' % k) for k in range(3)]
    def pivot(s, r): return s.fld(r, 'pivot')
    def value(s, r): return s.fld(r, 'value')
    def child(s, r, b): return ref(s.fld(r, 'child[%d].p_' % b))
    def K(s, q): return s.st.read(G('K'))(q)
    def alive(s, r): return s.st.read(G('alive'))(r)
    def reach(s, r, q): return s.st.read(G('reach'))(r, q)
    def end(s, q): return s.st.read(G('end'))(q)
    def own(s, r): return s.st.read(G('own'))(r)
    def side(s, r, q):
        p = s.pivot(r)
        k = zr(ite(eqv(p, 0), BIN[0](zi(q)), ite(eqv(p, 1), BIN[1](zi(q)), BIN[2](zi(q)))))
        return le(k, s.value(r)) if s.c.ties else lt(k, s.value(r))
    def inv(s):
        """(name, vars, guard, body)"""
        r, q = r_, q_
        T = s.st.read(('ghost:next', (), s.c.heap(NODE, 0).root))
        T = s.c.ex.T0() if T is None else T
        p = s.pivot(r); inner = ge(p, 0)
        al = s.alive(r)
        leaf = and_(al, not_(inner))
        return [('the root belongs to the tree', [], True, s.alive(s.root)),
                ('every search starts at the root', [q], True, s.reach(s.root, q)),
                ('nodes exist', [r], al, and_(ge(r, 1), lt(r, T), le(p, 2))),
                ('bin numbers are in range', [r], al, and_(*[and_(ge(k, -LIM), le(k, LIM)) for k in s.key(r)])),
                ('an inner node has two children in the tree', [r], and_(al, inner), and_(s.alive(s.child(r, 0)), s.alive(s.child(r, 1)))),
                ('the search goes on in the child on its side', [r, q], and_(al, inner, s.reach(r, q)), and_(implies(s.side(r, q), s.reach(s.child(r, 0), q)), implies(not_(s.side(r, q)), s.reach(s.child(r, 1), q)))),
                ('the bin of a leaf', [r], leaf, is_bin(s.own(r), s.key(r))),
                ('a leaf is found by its own bin', [r], leaf, s.reach(r, s.own(r))),
                ('a search ends at one leaf', [r, q], and_(leaf, s.reach(r, q)), eqv(s.end(q), r)),
                ('a bin was entered iff the leaf found is its own', [r, q], and_(leaf, s.reach(r, q)), iff(s.K(q), eqv(q, s.own(r))))]
    def assume(s):
        for n, v, g, b in s.inv():
            if v: s.st.qfact(smt.QFact(v, g, b, n))
            else: s.st.fact(implies(g, b))
        s.st.fact(eqv(s.c.get(s.st, s.P, 'leaf_count_'), s.st.read(G('cnt'))))
    def check(s, what):
        for n, v, g, b in s.inv(): s.c.check(s.st, '%s: %s' % (what, n), implies(g, b), v, prover=quant)
        s.c.check(s.st, '%s: the leaf count is the number of bins' % what, eqv(s.c.get(s.st, s.P, 'leaf_count_'), s.st.read(G('cnt'))))
def iff(a, b): return and_(implies(a, b), implies(b, a))
def ghosts(st, u):
    F = lambda n, *sorts: (lambda g: (lambda *x: g(*[zi(y) for y in x])))(z3.Function('%s!%s' % (n, u), *sorts))
    st.write(G('K'), F('K', I, B)); st.write(G('alive'), F('alive', I, B)); st.write(G('end'), F('end', I, I)); st.write(G('own'), F('own', I, I))
    st.write(G('reach'), F('reach', I, I, B))
def entered(K, q0):
    """the bins entered when q0 is entered too"""
    return lambda q: or_(K(q), eqv(q, q0))
def key_of(c, st, p): return [c.ex.load(st, p.at(4 * k), 'i32') for k in range(3)]
def name_bin(c, st, key):
    """the bin with these numbers"""
    q = z3.Int('bin!%d' % next(c.ex.n))
    st.fact(is_bin(q, key)); return q
def same_bin(st):
    """bins with the same numbers are the same"""
    a, b = z3.Ints('qa qb')
    st.qfact(smt.QFact([a, b], and_(*[eqv(F(a), F(b)) for F in BIN]), a == b, 'bins with the same numbers are the same'))
def k_insert(c):
    def h(ex, st, g, a):
        P, par, node, key, val = a[:5]
        key = key_of(c, st, key); q = name_bin(c, st, key)
        t = Tree(c, st, P, c.root)
        n = ref(ex.load(st, par, 'ptr')); nn = ref(ex.load(st, node, 'ptr'))
        ex.oblige(st, 'the node given belongs to the tree', t.alive(n), prover=quant)
        ex.oblige(st, 'the search for the bin passes the node given', t.reach(n, q), prover=quant)
        ex.oblige(st, 'no node is handed down', eqv(nn, 0))
        for nm, v, gd, b in t.inv(): ex.oblige(st, '_insert needs: ' + nm, implies(gd, b), v, prover=quant)
        K0, c0 = st.read(G('K')), st.read(G('cnt'))
        ex.oblige(st, '_insert needs: the leaf count is the number of bins', eqv(c.get(st, P, 'leaf_count_'), c0))
        u = next(ex.n)
        H = c.heap(NODE, 0)
        for f, srt in [('key[%d]' % k, I) for k in range(3)] + [('pivot', I), ('value', R), ('child[0].p_', I), ('child[1].p_', I)]:
            F = z3.Function('nd_%s!%d' % (f, u), I, srt)
            st.write((H.root, (), c._loc(H, f)[1]), LamA(lambda r, F=F: F(zi(r))))
        ghosts(st, u)
        T = st.read(('ghost:next', (), H.root)); T1 = z3.Int('T!%d' % u); st.fact(ge(T1, c.ex.T0() if T is None else T)); st.write(('ghost:next', (), H.root), T1)
        cnt = add(c0, ite(K0(q), 0, 1))
        st.write(G('K'), entered(K0, q)); st.write(G('cnt'), cnt); c.set(st, P, 'leaf_count_', cnt)
        sz = c.get(st, P, 'nodes_.size'); s1 = z3.Int('sz!%d' % u); st.fact(s1 >= sz); c.set(st, P, 'nodes_.size', s1)
        st.write(G('calls'), add(st.read(G('calls')) or 0, 1))
        N = z3.Function('nodes!%d' % u, I, I); st.fact(N(0) == zi(c.root)); c.setarr(st, P, 'nodes_[].p_', lambda i: N(zi(i)))
        ex.store(st, node, 'ptr', c.heap(NODE, z3.Int('found!%d' % u)))
        Tree(c, st, P, c.root).assume()
    c.ex.contracts[norm(Q + '::_insert')] = h
def setup(c, empty=False):
    st = c.state(); P = c.obj(Q, 'tree')
    ghosts(st, 0); st.write(G('cnt'), z3.Int('cnt0')); st.fact(z3.Int('cnt0') >= 0)
    c.root = z3.Int('root')
    n = c.get(st, P, 'nodes_.size'); c.get(st, P, 'leaf_count_')
    # some key / child leaves so that all arrays exist
    for f in ['key[0]', 'key[1]', 'key[2]', 'pivot', 'value', 'child[0].p_', 'child[1].p_']: c.get(st, c.heap(NODE, r_), f)
    return st, P, n
def ties(p):
    """where this tree's search goes at a bin number equal to the pivot value: True for the first child"""
    c = Ctx(p, 'probe'); c.ties = False
    st, P, n = setup(c)
    nd = z3.Int('at'); t0 = Tree(c, st, P, c.root)
    for x, v in ((t0.pivot(nd), 0), (t0.value(nd), 5), (t0.child(nd, 0), 1), (t0.child(nd, 1), 2)): st.fact(eqv(x, v))
    st.fact(nd >= 3); st.fact(nd < c.ex.T0())
    for i, k in enumerate((5, 7, 9)): st.write(('o:key', (), 4 * i), k)
    got = []
    def h(ex, s, g, a): got.append(ref(ex.load(s, a[1], 'ptr')))
    c.ex.contracts[norm(Q + '::_insert')] = h
    f = [f for f in c.p.fn.values() if f['dem'].startswith(Q + '::_insert(') and not f['decl']][0]
    try:
        outs, thr = c.call(st, f, [P, c.box(st, 'par', c.heap(NODE, nd)), c.box(st, 'node', NULL), Ptr('o:key'), z3.Real('val')])
        for t, v in outs: return len(got) == 1 and prove(eqv(got[0], 1), [f for f in t.facts() if isz(f)], [], (), timeout=2000).ok
    except sx.Unsupported: pass
    return False
def t_insert_(c):
    c.ties = ties(c.p)
    st, P, n = setup(c); k_insert(c)
    st.fact(ge(n, 1))
    st.fact(ref(c.get(st, P, 'nodes_[].p_', (0,))) == c.root)
    same_bin(st)
    t0 = Tree(c, st, P, c.root); t0.assume()
    key = z3.Ints('k0 k1 k2'); val = z3.Real('val'); nd = z3.Int('at')
    for k in key: st.fact(and_(k >= -LIM, k <= LIM))
    q = name_bin(c, st, key)
    st.fact(t0.alive(nd)); st.fact(t0.reach(nd, q))
    # the invariant at the node given
    for nm, v, g, b in t0.inv():
        if len(v) == 1: st.fact(z3.substitute(z(implies(g, b)), (v[0], nd)))
    kp = Ptr('o:key')
    for i, k in enumerate(key): st.write(('o:key', (), 4 * i), k)
    np_ = c.box(st, 'node', NULL)
    pp = c.box(st, 'par', c.heap(NODE, nd))
    f = [f for f in c.p.fn.values() if f['dem'].startswith(Q + '::_insert(') and not f['decl']][0]
    outs, thr = c.call(st, f, [P, pp, np_, kp, val])
    direct = [o for o in outs if o[0].read(G('calls')) is None]; handed = [o for o in outs if o[0].read(G('calls')) is not None]
    outs = (c.ex.merge_rets(direct) if len(direct) > 1 else direct) + handed
    c.check(st, '_insert ends here or in one of the children', len(direct) > 0)
    c.check(st, '_insert returns', len(outs) > 0)
    K0, c0 = st.read(G('K')), st.read(G('cnt'))
    for t, v in outs:
        c.cover(t, '_insert')
        if t.read(G('calls')) is None:
            # this call did the work: the ghost state that goes with it
            now = Tree(c, t, P, c.root)
            p1 = now.pivot(nd)
            a, b = now.child(nd, 0), now.child(nd, 1)
            split = ge(p1, 0)
            al0, re0, en0, ow0 = [st.read(G(n)) for n in ('alive', 'reach', 'end', 'own')]
            t = t.copy(); now.st = t
            left = now.side(nd, q)
            here = lambda x, s: and_(re0(nd, x), now.side(nd, x) if s else not_(now.side(nd, x)))
            t.write(G('alive'), lambda r: or_(al0(r), and_(split, or_(eqv(r, a), eqv(r, b)))))
            t.write(G('reach'), lambda r, x: ite(and_(split, eqv(r, a)), here(x, True), ite(and_(split, eqv(r, b)), here(x, False), re0(r, x))))
            t.write(G('end'), lambda x: ite(and_(split, re0(nd, x)), ite(now.side(nd, x), a, b), en0(x)))
            t.write(G('own'), lambda r: ite(and_(split, eqv(r, a)), ite(left, q, ow0(nd)), ite(and_(split, eqv(r, b)), ite(left, ow0(nd), q), ow0(r))))
            t.write(G('K'), entered(K0, q)); t.write(G('cnt'), add(c0, ite(K0(q), 0, 1)))
        now = Tree(c, t, P, c.root)
        now.check('_insert')
        c.check(t, '_insert enters the bin', iff(now.K(q_), entered(K0, q)(q_)), [q_])
        c.check(t, '_insert counts a new bin once', eqv(t.read(G('cnt')), add(c0, ite(K0(q), 0, 1))))
        c.check(t, 'the root stays the root', eqv(ref(c.get(t, P, 'nodes_[].p_', (0,))), c.root))
        c.check(t, 'no node is dropped', ge(c.get(t, P, 'nodes_.size'), n))
    for o in c.ex.obls: o.opts.setdefault('prover', quant)
def pose(c, st, P):
    """a pose and the numbers of its bin"""
    V = c.obj('Eigen::Matrix<double, 3, 1, 0>', 'pose')
    x = [c.get(st, V, 'd_[%d]' % k) for k in range(3)]
    w = [c.get(st, P, 'cell_size_.d_[%d]' % k) for k in range(3)]
    for v in w: st.fact(gt(v, 0))
    n = [builtins_sx.floor_(rdiv(a, b)) for a, b in zip(x, w)]
    for v in n: st.fact(and_(ge(v, -LIM), le(v, LIM)))
    return V, n
def t_insert(empty):
    def f(c):
        c.ties = ties(c.p)
        st, P, n = setup(c); k_insert(c)
        if empty:
            st.fact(eqv(n, 0)); st.write(G('K'), lambda q: False); st.write(G('cnt'), 0); st.fact(eqv(c.get(st, P, 'leaf_count_'), 0))
        else:
            st.fact(ge(n, 1)); st.fact(ref(c.get(st, P, 'nodes_[].p_', (0,))) == c.root)
            Tree(c, st, P, c.root).assume()
        same_bin(st)
        V, key = pose(c, st, P)
        K0, c0 = st.read(G('K')), st.read(G('cnt'))
        val = c.box(st, 'val', z3.Real('val'))
        outs, thr = c.call(st, Q + '::insert', [P, V, val])
        c.check(st, 'insert returns', len(outs) > 0)
        for t, v in outs:
            c.cover(t, 'insert')
            t = t.copy()
            q = name_bin(c, t, key)
            if t.read(G('calls')) is None:
                c.check(t, 'the tree has a node', eqv(c.get(t, P, 'nodes_.size'), 1))
                r0 = ref(c.get(t, P, 'nodes_[].p_', (0,)))
                t.write(G('K'), entered(K0, q)); t.write(G('cnt'), add(c0, ite(K0(q), 0, 1)))
                t.write(G('alive'), lambda r: eqv(r, r0)); t.write(G('reach'), lambda r, x: eqv(r, r0)); t.write(G('end'), lambda x: r0); t.write(G('own'), lambda r: q)
            else: r0 = ref(c.get(t, P, 'nodes_[].p_', (0,)))
            now = Tree(c, t, P, r0)
            now.check('insert')
            c.check(t, 'insert enters the bin of the pose', iff(now.K(q_), entered(K0, q)(q_)), [q_], prover=quant)
            c.check(t, 'a new bin is counted once', eqv(t.read(G('cnt')), add(c0, ite(K0(q), 0, 1))), prover=quant)
            c.check(t, 'the tree is not empty', ge(c.get(t, P, 'nodes_.size'), 1))
            check_same(c, t, 'insert keeps the widths', st, P, only=('cell_size_',))
    return f
def t_clear(c):
    st, P, n = setup(c)
    outs, thr = c.call(st, Q + '::clear', [P])
    c.check(st, 'clear returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'clear')
        c.check(t, 'a cleared tree has no bins', eqv(c.get(t, P, 'leaf_count_'), 0))
        c.check(t, 'a cleared tree is empty', eqv(c.get(t, P, 'nodes_.size'), 0))
        check_same(c, t, 'clear keeps the widths', st, P, only=('cell_size_',))
def t_count(c):
    st, P, n = setup(c)
    outs, thr = c.call(st, Q + '::getLeafCount', [P])
    for t, v in outs:
        c.cover(t, 'getLeafCount')
        c.check(t, 'the count reported is the leaf count', eqv(v, c.get(st, P, 'leaf_count_')))
        check_same(c, t, 'getLeafCount changes nothing', st, P)
def t_ctor(c):
    st = c.state(); P = c.obj(Q, 'tree')
    w = z3.Reals('wx wy wth'); n = z3.Int('reserve'); st.fact(and_(n >= 0, n <= 2 ** 31))
    outs, thr = c.call(st, [f for f in c.p.fn.values() if f['dem'].startswith(Q + '::KDTree(') and not f['decl']][0], [P] + list(w) + [n])
    c.check(st, 'the constructor returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'constructor')
        c.check(t, 'a new tree has no bins', eqv(c.get(t, P, 'leaf_count_'), 0))
        c.check(t, 'a new tree is empty', eqv(c.get(t, P, 'nodes_.size'), 0))
        for k in range(3): c.check(t, 'a new tree has the given widths [%d]' % k, eqv(c.get(t, P, 'cell_size_.d_[%d]' % k), w[k]))
TASKS = [('_insert', t_insert_), ('insert', t_insert(False)), ('first insert', t_insert(True)), ('clear', t_clear), ('count', t_count), ('constructor', t_ctor)]
