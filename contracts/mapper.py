"""Contracts of everything the mapping node calls, and its pre-state."""
from api import *
from builtins_sx import norm_angle
Q = 'ndt_2d::Mapper'
MSG = 'sensor_msgs::msg::LaserScan'
YAW = z3.Function('yaw', R, R, R, R, R)
i0 = z3.Int('ix0')
TFN = ('x', 'y', 'z', 'qx', 'qy', 'qz', 'qw')
MO = [z3.Function('mount.' + f, I, I, R) for f in TFN]              # (target frame, source frame)
OD = [z3.Function('odom.' + f, I, I, I, I, R) for f in TFN]         # (target frame, source frame, time)
STAMP = z3.Function('stamp', R, I)
def pose_of(fs, *a):
    v = [f(*[zi(x) for x in a]) for f in fs]
    return v[0], v[1], YAW(*v[3:])
def odom(c, st, P, sec, nsec): return pose_of(OD, c.get(st, P, 'odom_frame_.v_'), c.get(st, P, 'robot_frame_.v_'), sec, nsec)
def stamps(c, st, M):
    """times of the first and of the last beam, as (seconds, nanoseconds)"""
    s, ns, n, dt = c.get(st, M, 'header.stamp.sec'), c.get(st, M, 'header.stamp.nanosec'), c.get(st, M, 'ranges.size'), c.get(st, M, 'time_increment')
    t = add(add(zr(s), mul(Fraction(1, 10 ** 9), zr(ns))), mul(zr(sub(n, 1)), zr(dt)))
    return (s, ns), (STAMP(zr(t)), 0)
def fresh(c, n, sort=R):
    c.nf = getattr(c, 'nf', 0) + 1
    return z3.Const('%s!%d' % (n, c.nf), sort)
def noop(ex, st, g, a): return [(st, None)]
def install(c):
    ex = c.ex
    K = ex.contracts
    ex.extleaf.add((MSG, '.ranges[]'))
    c.seen = []
    def see(ex, s, what, p):
        if ex.checking: c.seen.append((what, s.copy(), ex.load(s, p, 'ptr')))
    def push(ex, st, kind, *a):
        if kind == 'push' and ex.checking and isinstance(a[0], Ptr) and a[0].root.startswith('heap:') and 'Graph' in ex.p.qname(ex.rtype.get(a[0].root)) and a[0].off == c.p.member(c.T('ndt_2d::Graph'), 'scans')[0]:
            v = list(a[2].values())[0]
            c.seen.append(('added', st.copy(), v))
    ex.listener = push
    def struct(st, p, q, name):
        """unconstrained value of class q at p"""
        for sub, o, leaf, pa in c.p.flat(c.T(q)):
            if sub or isinstance(o, tuple): raise Unsupported('vector in %s' % q)
            if leaf[0] == 'ptr': continue
            ex.store(st, p.at(o), fresh(c, name + pa, R if leaf[0] == 'real' else I), 'double' if leaf == ('real', 64) else 'i%d' % leaf[1])
    # transforms: functions of the frames and the time asked for; a query may always fail
    def look(ex, st, g, a):
        bad = st.copy()
        to, frm = zi(ex.load(st, a[2], 'i64')), zi(ex.load(st, a[3], 'i64'))
        struct(st, a[0], 'geometry_msgs::msg::TransformStamped', 'tf')
        for k, f in enumerate(MO): ex.store(st, a[0].at(24 + 8 * k), f(to, frm), 'double')
        return [(st, None)], [bad]
    def trans(ex, st, g, a):
        """robot pose in the odometry frame at the time asked for"""
        bad = st.copy()
        sec, nsec, frm = (zi(ex.load(st, a[1].at(o), t)) for o, t in ((0, 'i32'), (4, 'i32'), (8, 'i64')))
        to = zi(ex.load(st, a[3], 'i64'))
        for k, f in enumerate(OD): ex.store(st, a[2].at(16 + 8 * k), f(to, frm, sec, nsec), 'double')
        return [(st, None)], [bad]
    for f in c.p.fn.values():
        d = f['dem']
        if d.startswith('tf2_ros::Buffer::lookupTransform'): K[norm(d)] = look
        elif d.startswith('tf2_ros::Buffer::transform'): K[norm(d)] = trans
        elif d.startswith('tf2::__verif_yaw'): K[norm(d)] = lambda ex, st, g, a: [(st, YAW(*[zr(x) for x in a]))]
        elif d.startswith('rclcpp::Node::now'): K[norm(d)] = lambda ex, st, g, a: (ex.store(st, a[0], fresh(c, 'now'), 'double'), [(st, None)])[1] if len(a) > 1 else [(st, fresh(c, 'now'))]
        elif d.startswith('rclcpp::Time::operator builtin'): K[norm(d)] = lambda ex, st, g, a: [(st, STAMP(zr(ex.load(st, a[0], 'double'))))]
        elif 'rclcpp::__verif_publish' in d: K[norm(d)] = noop
        elif 'pluginlib::__verif_plugin' in d: K[norm(d)] = lambda ex, st, g, a: [(st, alloc(ex, st, c.T('ndt_2d::ScanMatcher')))]
        elif d.startswith('ndt_2d::ParticleFilter::') and not f['decl']:
            n = d.split('::')[2].split('(')[0]
            if n in ('update', 'resample', 'init', 'getMsg'): K[norm(d)] = noop
            if n == 'measure': K[norm(d)] = lambda ex, s, g, a: (see(ex, s, 'measured', a[2]), [(s, None)])[1]
    def mean(ex, st, g, a):
        for k in range(3): ex.store(st, a[0].at(8 * k), fresh(c, 'mean%d' % k), 'double')
        return [(st, None)]
    for f in c.p.fn.values():
        if f['dem'].startswith('ndt_2d::ParticleFilter::getMean'): K[norm(f['dem'])] = mean
    def constraint(ex, st, g, a):
        """makeConstraint (contract of C06): a new constraint from the first scan to the second"""
        r = alloc(ex, st, c.T('ndt_2d::Constraint'))
        ptrs = [ex.load(st, p, 'ptr') for p in (a[-3], a[-2])]
        for p, f in zip(ptrs, ('begin', 'end')): c.set(st, r, f, c.get(st, p, 'id_'))
        for sub, o, leaf, pa in c.p.flat(c.T('ndt_2d::Constraint')):
            if pa.strip('.') not in ('begin', 'end', 'switchable'): ex.store(st, r.at(o), fresh(c, 'con' + pa), 'double')
        return [(st, r)]
    for f in c.p.fn.values():
        if f['dem'].startswith('ndt_2d::makeConstraint('): K[norm(f['dem'])] = constraint
    V = ex.virt
    SM = 'ndt_2d::ScanMatcher'
    def score(ex, s, g, a):
        v = fresh(c, 'score'); return [(s, v)]
    def match(ex, s, g, a):
        """pose: the correction found; covariance: anything"""
        see(ex, s, 'matched', a[1])
        c.corr = [fresh(c, 'corr.' + f) for f in ('x', 'y', 'th')]
        for k in range(3): ex.store(s, a[2].at(8 * k), c.corr[k], 'double')
        for k in range(9): ex.store(s, a[3].at(8 * k), fresh(c, 'cov%d' % k), 'double')
        return [(s, fresh(c, 'score'))]
    for n in ('initialize', 'addScans', 'reset'): V[(SM, n)] = noop
    V[(SM, 'scoreScan')] = score
    V[(SM, 'matchScan')] = match
def mapper(c, st):
    P = c.obj(Q, 'mapper')
    T0 = c.ex.T0()
    def ref(q, name):
        r = z3.Int(name); st.fact(and_(r >= 1, r < T0)); return c.heap(q, r)
    G = ref('ndt_2d::Graph', 'graph'); c.set(st, P, 'graph_.p_', G)
    n = c.get(st, G, 'scans.size'); k = c.get(st, G, 'constraints.size'); st.fact(n >= 0); st.fact(k >= 0); st.fact(n < 2 ** 31); st.fact(k < 2 ** 31)
    s0, k0 = z3.Int('s0'), z3.Int('k0')
    st.fact(and_(s0 >= 1, s0 + n <= T0)); st.fact(and_(k0 >= 1, k0 + k <= T0))
    c.setarr(st, G, 'scans[].p_', lambda i: add(s0, i))
    c.setarr(st, G, 'constraints[].p_', lambda i: add(k0, i))
    for f, q in (('tf2_buffer_', 'tf2_ros::Buffer'), ('filter_', 'ndt_2d::ParticleFilter'), ('solver_', 'ndt_2d::CeresSolver'), ('grid_', 'ndt_2d::OccupancyGrid'),
                 ('global_scan_matcher_', 'ndt_2d::ScanMatcher'), ('local_scan_matcher_', 'ndt_2d::ScanMatcher')):
        c.set(st, P, f + '.p_', ref(q, f))
    for f in ('particle_pub_', 'map_pub_', 'graph_pub_'):
        try: c.set(st, P, f + '.p_', NULL)
        except Exception: pass
    return P, G, n, k, s0, k0
def message(c, st):
    m = z3.Int('msg'); st.fact(and_(m >= 1, m < c.ex.T0()))
    M = c.heap(MSG, m)
    return M, c.box(st, 'msgptr', M)
def angdiff(a, b):
    """angles::shortest_angular_distance(a, b)"""
    return norm_angle(sub(b, a))
