"""C17: each valid laser beam becomes exactly one correctly placed point.

Mapper::laserCallback is run on any message and any state of the node; at every place where the scan
leaves the callback (matched, scored, measured by the filter, added to the graph) its points are compared
with the beams."""
UNDER_CONTRACT = ['Mapper::laserCallback (mounting, projection, every mode)', 'fromMsg', 'Scan::Scan', 'Scan::setPose', 'Scan::setPoints', 'Scan::getPoints']
ASSUMES = ['contracts assumed on tf2: a query gives a pose that depends on the frames and the time asked for, or throws; getYaw is a function of the quaternion',
           'contract of makeConstraint (C06)', 'contracts assumed on the scan matcher interface and the particle filter: they leave the points of the scan alone (const in the interface)',
           'float arithmetic of angle_min + i * angle_increment treated as real', 'fewer than 2^31 beams, scans and constraints']
from api import *
import mapper as mp
i0 = mp.i0
def project(c, st0, P, M, inv, mount, tr):
    """beam i -> point"""
    n = c.get(st0, M, 'ranges.size'); a0, da = zr(c.get(st0, M, 'angle_min')), zr(c.get(st0, M, 'angle_increment'))
    mx, my, mt = mount
    def f(i):
        r = c.get(st0, M, 'ranges[]', (i,)).val
        a = add(a0, mul(zr(i), da)); a = neg(a) if inv else a
        x, y = mul(COS(zr(a)), r), mul(SIN(zr(a)), r)
        C, S = COS(zr(mt)), SIN(zr(mt))
        x, y = add(sub(mul(C, x), mul(S, y)), mx), add(add(mul(S, x), mul(C, y)), my)
        q = rdiv(zr(i), zr(n)); q = sub(1, q) if inv else q
        T = [mul(t, q) for t in tr]
        C, S = COS(zr(T[2])), SIN(zr(T[2]))
        return add(sub(mul(C, x), mul(S, y)), T[0]), add(add(mul(S, x), mul(C, y)), T[1])
    return f
def points(inv, mode, first=False):
    def f(c):
        st = c.state(); mp.install(c); P, G, ns, nk, s0, k0 = mp.mapper(c, st); M, mptr = mp.message(c, st)
        c.set(st, P, 'use_particle_filter_', mode == 'filter'); c.set(st, P, 'enable_mapping_', mode in ('first scan', 'mapping')); c.set(st, P, 'prev_odom_pose_is_initialized_', True)
        c.set(st, P, 'laser_inverted_', inv)
        fr = c.get(st, P, 'laser_frame_.v_')
        if first: c.set(st, P, 'laser_frame_.v_', 0); c.set(st, P, 'laser_inverted_', False)
        else: st.fact(fr > 0)
        n = c.get(st, M, 'ranges.size'); st.fact(n > 0); st.fact(n < 2 ** 31)
        st.fact(ns == 0 if mode == 'first scan' else ns > 0)
        rm = c.get(st, P, 'range_max_'); mm = zr(c.get(st, M, 'range_max')); lim = ite(lt(rm, 0), mm, rm)
        mount, tilt = mounting(c, st, P, M)
        if first: st.fact(tilt if inv else not_(tilt))
        else: mount = [c.get(st, P, 'laser_transform_.' + k) for k in ('x', 'y', 'theta')]
        want = (mount, inv, lim, c.get(st, M, 'header.frame_id.v_') if first else fr)
        (t0, t1) = mp.stamps(c, st, M)
        x0, y0, h0 = mp.odom(c, st, P, *t0); x1, y1, h1 = mp.odom(c, st, P, *t1)
        dx, dy = sub(x1, x0), sub(y1, y0); C, S = COS(zr(h0)), SIN(zr(h0))
        tr = [add(mul(C, dx), mul(S, dy)), sub(mul(C, dy), mul(S, dx)), mp.angdiff(h0, h1)]
        proj = project(c, st, P, M, inv, mount, tr)
        R_ = lambda i: c.get(st, M, 'ranges[]', (i,))
        valid = lambda i: and_(eqv(R_(i).kind, 0), le(R_(i).val, lim))
        outs, thr = c.call(st, 'ndt_2d::Mapper::laserCallback', [P, mptr])
        c.check(st, 'laserCallback returns', len(outs) > 0)
        for t, v in outs:
            c.cover(t, 'laserCallback')
            k = keeps(c, t, P, *want)
            c.check(t, 'the mounting and the maximum range are those found', k if not first else or_(k, eqv(c.get(t, P, 'laser_frame_.v_'), 0)))
        c.check(st, 'the scan leaves the callback', len(c.seen) > 0)
        for what, t, sp in c.seen:
            c.cover(t, 'scan ' + what)
            N = c.get(t, sp, 'points_.size')
            rev = count(c, t, what, N, n, valid, inv)
            px, py = (lambda i, k=k: c.get(t, sp, 'points_[].' + k, (i,)) for k in 'xy')
            ws, ps, E = witnesses(t)
            c.check(t, 'the points come from the beams (%s)' % what, len(ws) == 1 and len(ps) >= 1 and len(E) == 2)
            if not ws or not ps or len(E) < 2: continue
            beam = (lambda k: sub(sub(n, 1), k)) if rev else (lambda k: k)
            tk = t.copy(); tk.fact(and_(i0 >= 0, lt(i0, n)))
            for d, k in enumerate('xy'):
                c.check(tk, "an iteration's point is where its beam ends: %s (%s)" % (k, what), eqv(E[k](i0), proj(beam(i0))[d]), [i0], prover=trig)
            t1 = t.copy(); b0 = z3.Int('beam'); t1.fact(and_(i0 >= 0, lt(i0, N))); it = ws[0](i0); t1.fact(eqv(b0, beam(it)))
            for nm, g in (('is a beam', and_(b0 >= 0, lt(b0, n))), ('is valid', valid(b0)), ('gives its x', eqv(px(i0), E['x'](it))), ('gives its y', eqv(py(i0), E['y'](it)))):
                c.check(t1, 'every point comes from one beam, which %s (%s)' % (nm, what), g, [i0])
            t2 = t.copy(); t2.fact(and_(i0 >= 0, lt(i0, n), valid(beam(i0)))); pl = ps[0](i0)
            for nm, g in (('in the scan', and_(pl >= 0, lt(pl, N))), ('at its x', eqv(px(pl), E['x'](i0))), ('at its y', eqv(py(pl), E['y'](i0)))):
                c.check(t2, 'every valid beam has its point, %s (%s)' % (nm, what), g, [i0])
    return f
def mounting(c, st, P, M):
    """pose of the sensor in the robot's frame, and whether it is upside down"""
    a = c.get(st, P, 'robot_frame_.v_'), c.get(st, M, 'header.frame_id.v_')
    q = [f(*[zi(x) for x in a]) for f in mp.MO]
    e = Fraction(1, 50)
    return mp.pose_of(mp.MO, *a), or_(*[or_(lt(e, q[k]), lt(e, neg(q[k]))) for k in (3, 4)])
def keeps(c, t, P, mount, inv, lim, frame):
    g = lambda k: c.get(t, P, k)
    return and_(eqv(g('laser_frame_.v_'), frame), *[eqv(g('laser_transform_.' + k), v) for k, v in zip(('x', 'y', 'theta'), mount)], eqv(g('laser_inverted_'), inv), eqv(g('range_max_'), lim))
def mount(tilted):
    """before the robot is localized: the mounting is found, nothing else happens"""
    def f(c):
        st = c.state(); mp.install(c); P, G, ns, nk, s0, k0 = mp.mapper(c, st); M, mptr = mp.message(c, st)
        c.set(st, P, 'prev_odom_pose_is_initialized_', False); c.set(st, P, 'laser_frame_.v_', 0); c.set(st, P, 'laser_inverted_', False)
        rm = c.get(st, P, 'range_max_'); lim = ite(lt(rm, 0), zr(c.get(st, M, 'range_max')), rm)
        m, tilt = mounting(c, st, P, M); st.fact(tilt if tilted else not_(tilt))
        outs, thr = c.call(st, 'ndt_2d::Mapper::laserCallback', [P, mptr])
        for t, v in outs:
            c.cover(t, 'laserCallback')
            c.check(t, 'the mounting is found, or is still to be found', or_(keeps(c, t, P, m, tilted, lim, c.get(st, M, 'header.frame_id.v_')), keeps(c, t, P, [c.get(st, P, 'laser_transform_.' + k) for k in ('x', 'y', 'theta')], False, lim, 0)))
        c.check(st, 'laserCallback returns', len(outs) > 0)
        c.check(st, 'no scan leaves the callback', not c.seen)
    return f
def empty(c):
    st = c.state(); mp.install(c); P, G, ns, nk, s0, k0 = mp.mapper(c, st); M, mptr = mp.message(c, st)
    st.fact(eqv(c.get(st, M, 'ranges.size'), 0)); st.fact(c.get(st, P, 'laser_frame_.v_') > 0)
    outs, thr = c.call(st, 'ndt_2d::Mapper::laserCallback', [P, mptr])
    for t, v in outs:
        c.cover(t, 'laserCallback')
        for q in ('scans', 'constraints'): c.check(t, 'an empty message adds no ' + q, eqv(c.get(t, c.get(t, P, 'graph_.p_'), q + '.size'), c.get(st, G, q + '.size')))
        for q in ('prev_odom_pose_', 'prev_robot_pose_'):
            for k in ('x', 'y', 'theta'): c.check(t, 'an empty message moves nothing: %s.%s' % (q, k), eqv(c.get(t, P, q + '.' + k), c.get(st, P, q + '.' + k)))
    c.check(st, 'laserCallback returns', len(outs) > 0)
    c.check(st, 'no scan leaves the callback', not c.seen)
def count(c, t, what, N, n, valid, inv):
    """N is the number of valid beams: by induction over the iterations of the loop that counted them.
    Returns whether the loop took the last beam first."""
    N = z(N)
    if not (z3.is_app(N) and N.num_args() and N.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        c.check(t, 'one point per valid beam (%s)' % what, eqv(zr(N), SUMS.make(n, lambda j: ite(valid(j), Fraction(1), Fraction(0)))))
        return False
    a = N.children(); F = lambda k: N.decl()(*(a[:-1] + [zi(k)]))
    k = z3.Int('it')
    step = lambda b: implies(and_(k >= 0, lt(k, n)), eqv(F(k + 1), add(F(k), ite(valid(b), 1, 0))))
    fwd, bwd = step(k), step(sub(sub(n, 1), k))
    t0 = t.copy(); t0.fact(and_(k >= 0, lt(k, n)))
    ok = lambda g: prove(g, t0.facts(), t0.qfacts(), [k], timeout=2000, hard=False).ok
    rev = ok(bwd) if inv else not ok(fwd) and ok(bwd)
    nm = 'one point per valid beam (%s)' % what
    c.check(t, nm + ': all beams are gone through', eqv(a[-1], n))
    c.check(t, nm + ': none at first', eqv(F(0), 0))
    c.check(t0, nm + ': one more for a valid beam', bwd if rev else fwd, [k])
    return rev
def witnesses(t):
    """from the loop's own facts: the iteration an element comes from, the place an iteration wrote to"""
    ws, ps, seen, E = [], [], set(), {}
    for q in t.qfacts():
        if q.name.startswith('origin ') and len(q.vars) == 1:
            for x in subterms([z(q.body)]):
                if z3.is_app(x) and x.decl().name().startswith('src!') and x.sexpr() not in seen:
                    seen.add(x.sexpr()); ws.append(lambda i, x=x, v=q.vars[0]: z3.substitute(x, (v, zi(i))))
        if q.name.startswith('appended ') and len(q.vars) == 1:
            b = z(q.body)
            if z3.is_eq(b):
                for n, l in enumerate(b.children()):
                    if z3.is_app(l) and l.num_args() and l.decl().name()[-6:-3] == '[].' and l.decl().name()[-3:] in ('x.0', 'y.0'):
                        pos = l.children()[-1]
                        ps.append(lambda j, x=pos, v=q.vars[0]: z3.substitute(x, (v, zi(j))))
                        E[l.decl().name()[-3]] = lambda j, x=b.arg(1 - n), v=q.vars[0]: z3.substitute(x, (v, zi(j)))
    return ws, ps, E
TASKS = [('%s, %s' % (m, 'inverted' if inv else 'upright'), points(inv, m)) for m in ('mapping', 'first scan', 'filter', 'tracking') for inv in (True, False)]
TASKS += [('first message, ' + n, points(inv, 'first scan', True)) for n, inv in (('inverted', True), ('upright', False))]
TASKS += [('not localized, ' + n, mount(inv)) for n, inv in (('inverted', True), ('upright', False))] + [('empty message', empty)]
