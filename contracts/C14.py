"""C14: saving and loading a graph gives back the same graph.

Graph::save followed by the loading constructor, on any graph: the file between them is a ghost
list of (topic, message) entries, written and read in order."""
from api import *
from builtins_sx import STRS
UNDER_CONTRACT = ['Graph::save', 'Graph::Graph(bool, filename)', 'Scan::getId', 'Scan::getPose', 'Scan::setPose', 'Scan::getPoints', 'Scan::setPoints']
ASSUMES = ['contract assumed on rosbag2 and rclcpp::Serialization: the file holds every message written, unchanged, and gives them back in the order written']
Q = 'ndt_2d::Graph'
GB = 'ghost:bag'
G0 = lambda w: (GB, (), w)
G1 = lambda w: (GB, (0,), w)
i0, i1, i2 = z3.Ints('ix0 ix1 ix2')
def gfn(name, n, sort):
    f = z3.Function(name, *([I] * n + [sort]))
    return BaseA(lambda *i: f(*[zi(x) for x in i]), name)
def install(c, st, n0=0):
    ex = c.ex
    st.write(G0('n'), n0); st.write(G0('pos'), 0)
    st.write(G1('topic'), gfn('bag.topic', 1, I)); st.write(G1('obj'), gfn('bag.obj', 1, I))
    def write(ex, st, g, a):
        n = st.read(G0('n'))
        st.write(G1('topic'), put(st.read(G1('topic')), (n,), a[0])); st.write(G1('obj'), put(st.read(G1('obj')), (n,), a[1]))
        st.write(G0('n'), add(n, 1))
        return None
    def has_next(ex, st, g, a): return lt(st.read(G0('pos')), st.read(G0('n')))
    def topic(ex, st, g, a):
        pos = st.read(G0('pos'))
        ex.oblige(st, 'the file has a message to read', lt(pos, st.read(G0('n'))))
        return st.read(G1('topic')).get((pos,))
    def nxt(ex, st, g, a):
        pos = st.read(G0('pos'))
        r = st.read(G1('obj')).get((pos,))
        st.write(G0('pos'), add(pos, 1))
        return r
    for n, h in (('rosbag2_cpp::__verif_bag_write', write), ('rosbag2_cpp::__verif_bag_has_next', has_next), ('rosbag2_cpp::__verif_bag_topic', topic), ('rosbag2_cpp::__verif_bag_next', nxt)):
        ex.contracts[norm(n)] = h
def graph(c, st, P):
    """any graph: scans s0.., constraints k0.. in order"""
    n, m = c.get(st, P, 'scans.size'), c.get(st, P, 'constraints.size')
    st.fact(n >= 0); st.fact(m >= 0); st.fact(n < 2 ** 31); st.fact(m < 2 ** 31)
    s0, k0 = z3.Ints('s0 k0')
    st.fact(and_(s0 >= 1, s0 + n <= c.ex.T0(), k0 >= 1, k0 + m <= c.ex.T0()))
    c.setarr(st, P, 'scans[].p_', lambda i: add(s0, i)); c.setarr(st, P, 'constraints[].p_', lambda i: add(k0, i))
    return n, m, s0, k0
FS = ['id_'] + ['pose_.' + f for f in ('x', 'y', 'theta')]
def t_save(c):
    st = c.state(); P = c.obj(Q, 'graph'); install(c, st)
    n, m, s0, k0 = graph(c, st, P)
    f = c.local(st, 'file', 'std::string')
    st0 = st.copy()
    outs, thr = c.call(st, 'ndt_2d::Graph::save', [P, f])
    c.check(st, 'save returns', len(outs) > 0)
    for t, v in outs:
        c.cover(t, 'save')
        c.check(t, 'save succeeds', eqv(b2i(v) if isz(v) and v.sort() == B else v, 1))
        c.check(t, 'one message for each scan and constraint', eqv(t.read(G0('n')), add(n, m)))
        check_same(c, t, 'saving keeps the graph', st0, P)
        check_same(c, t, 'saving keeps the scans', st0, c.heap('ndt_2d::Scan', i0), only=('id_', 'pose_', 'points_'))
        check_same(c, t, 'saving keeps the constraints', st0, c.heap('ndt_2d::Constraint', i0))
        c.saved = (t, P, n, m, s0, k0, st0)
def t_round(c):
    t_save(c)
    c.ex.obls.clear(); c.covers.clear()
    t, P, n, m, s0, k0, st0 = c.saved
    # the file as written, in closed form (proved)
    tp = t.read(G1('topic'))
    tot = add(n, m)
    known = [v for v in STRS.values() if v and any(z3.is_int_value(q) and q.as_long() == v for q in subterms([zi(tp.get((i0,)))]))]
    def pick():
        for k in (n, m):
            for x in known:
                for y in known:
                    if x == y: continue
                    goal = implies(and_(i0 >= 0, lt(i0, tot)), eqv(tp.get((i0,)), ite(lt(i0, k), x, y)))
                    if smt.prove(goal, t.facts(), t.qfacts(), [i0], timeout=4000).ok: return k, x, y, goal
    r = pick()
    if r:
        k, x, y, goal = r
        c.check(t, 'step: the topics in the file', goal, [i0])
        t.write(G1('topic'), LamA(lambda i: ite(lt(i, k), x, y)))
    L = c.obj(Q, 'loaded')
    f = c.local(t, 'file', 'std::string')
    outs, thr = c.call(t, 'ndt_2d::Graph::Graph(bool, std::string const&)', [L, z3.Bool('bary'), f])
    c.check(t, 'loading returns', len(outs) > 0)
    for u, v in outs:
        c.cover(u, 'load')
        lr, kr = c.get(u, L, 'scans[].p_', (i0,)), c.get(u, L, 'constraints[].p_', (i0,))
        sc, so = c.heap('ndt_2d::Scan', lr), c.heap('ndt_2d::Scan', add(s0, i0))
        kc, ko = c.heap('ndt_2d::Constraint', kr), c.heap('ndt_2d::Constraint', add(k0, i0))
        ins, ink = and_(i0 >= 0, lt(i0, n)), and_(i0 >= 0, lt(i0, m))
        c.check(u, 'the loaded scans are objects of their own', implies(ins, and_(ge(lr, c.ex.T0()), implies(and_(i1 >= 0, lt(i1, i0)), not_(eqv(lr, c.get(u, L, 'scans[].p_', (i1,))))))), [i0, i1])
        c.check(u, 'the loaded constraints are objects of their own', implies(ink, and_(ge(kr, c.ex.T0()), implies(and_(i1 >= 0, lt(i1, i0)), not_(eqv(kr, c.get(u, L, 'constraints[].p_', (i1,))))))), [i0, i1])
        for f in FS: c.check(u, 'scan: %s' % f, implies(ins, eqv(c.get(u, sc, f), c.get(st0, so, f))), [i0])
        c.check(u, 'scan: as many points', implies(ins, eqv(c.get(u, sc, 'points_.size'), c.get(st0, so, 'points_.size'))), [i0])
        for f in 'xy':
            c.check(u, 'scan: points, %s' % f, implies(and_(ins, i1 >= 0, lt(i1, c.get(st0, so, 'points_.size'))), eqv(c.get(u, sc, 'points_[].' + f, (i1,)), c.get(st0, so, 'points_[].' + f, (i1,)))), [i0, i1])
        for f in ['begin', 'end', 'switchable'] + ['transform.d_[%d]' % k for k in range(3)] + ['information.d_[%d]' % k for k in range(9)]:
            c.check(u, 'constraint: %s' % f, implies(ink, eqv(c.get(u, kc, f), c.get(st0, ko, f))), [i0])
        c.check(u, 'as many scans', eqv(c.get(u, L, 'scans.size'), n))
        c.check(u, 'as many constraints', eqv(c.get(u, L, 'constraints.size'), m))
TASKS = [('save', t_save), ('round trip', t_round)]
