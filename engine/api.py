"""Contracts: building pre-states, running functions against them, stating
postconditions, and discharging every obligation."""
import os, sys, time, json, traceback, multiprocessing, signal
sys.setrecursionlimit(200000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx import *
import sx, smt, builtins_sx
from builtins_sx import get_leaf, set_leaf, copy_all, vlen, set_len, get_elems, alloc

class Ctx:
    def __init__(s, prog, name=''):
        s.p = prog
        s.ex = Exec(prog)
        s.name = name
        s.covers = []
        s.assumed = []
        s.ex.objref = {}
    # ---- states and objects
    def state(s):
        st = State()
        st.fact(s.ex.T0() >= 1)
        return st
    def T(s, q):
        t = s.p.cls(q)
        if t is None: raise Unsupported('class %s not found' % q)
        return t
    def obj(s, q, name):
        t = s.T(q) if isinstance(q, str) else q
        s.ex.rtype['o:' + name] = t
        return Ptr('o:' + name)
    def heap(s, q, ref):
        """the object number ref of class q"""
        return Ptr(s.ex.heap(s.T(q)), (), (ref,), 0)
    def typ(s, p):
        if p.steps: return s.ex.etype[(p.root, p.steps)]
        return s.ex.rtype[p.root]
    def _loc(s, p, path):
        t = s.typ(p)
        if not p.steps and p.off == 0: return s.p.path(t, path)
        return s.p.path(t, path)
    def get(s, st, p, path='', idx=()):
        """value of the member path of the object at p; idx are vector positions"""
        sub, o, leaf = s._loc(p, path)
        v = get_leaf(s.ex, st, Ptr(p.root, p.steps, p.idx, 0), sub, o, leaf)
        if sub or isinstance(v, Arr): v = v.get(tuple(idx)) if isinstance(v, Arr) else v
        if leaf[0] == 'bool': v = i2b(v) if not isinstance(v, bool) else v
        s.ex.rng_fact(st, v)
        if isz(v) and path.endswith('.size') : s.ex.add_fact(st, v >= 0)
        return v
    def arr(s, st, p, path):
        sub, o, leaf = s._loc(p, path)
        return get_leaf(s.ex, st, p, sub, o, leaf)
    def set(s, st, p, path, v):
        sub, o, leaf = s._loc(p, path)
        if isinstance(v, bool): v = int(v)
        elif isz(v) and v.sort() == B: v = b2i(v)
        set_leaf(s.ex, st, Ptr(p.root, p.steps, p.idx, 0), sub, o, leaf, v)
    def setarr(s, st, p, path, fn):
        sub, o, leaf = s._loc(p, path)
        set_leaf(s.ex, st, p, sub, o, leaf, LamA(fn) if not isinstance(fn, Arr) else fn)
    def off(s, p, path):
        """address of a member"""
        o, t = s.p.member(s.typ(p), path)
        return Ptr(p.root, p.steps, p.idx, p.off + o)
    def local(s, st, name, q=None):
        """a place for arguments passed by reference"""
        root = 'o:' + name
        if q is not None: s.ex.rtype[root] = s.T(q) if isinstance(q, str) else q
        return Ptr(root)
    def box(s, st, name, v):
        """a pointer to a cell holding v"""
        p = Ptr('o:' + name)
        st.write(('o:' + name, (), 0), v)
        return p
    def fn(s, dem):
        f = s.p.find(dem)
        if f is None or f['decl']: raise Unsupported('function %s not found' % dem)
        return f
    def call(s, st, dem, args):
        f = s.fn(dem) if isinstance(dem, str) else dem
        st = st.copy()
        if not st.frames: st.frames.append(Frame(f, 'top'))
        outs, thr = s.ex.call(st, f, args, 'call%d' % len(s.ex.inlined))
        return outs, thr
    def call1(s, st, dem, args):
        """a call whose outcomes are joined"""
        outs, thr = s.call(st, dem, args)
        if len(outs) > 1: outs = s.ex.merge_rets(outs)
        return outs
    def check(s, st, name, goal, extra=(), **opts):
        """goal may be a list of conjuncts"""
        if isinstance(goal, (list, tuple)):
            for n, g in enumerate(goal): s.check(st, '%s [%d]' % (name, n), g, extra, **opts)
            return
        if isz(goal) and z3.is_and(goal):
            for n, g in enumerate(goal.children()): s.check(st, '%s [%d]' % (name, n), back(g), extra, **opts)
            return
        save = s.ex.loc
        s.ex.checking = True
        s.ex.oblige(st, name, goal, extra, assume=False, **opts)
        s.ex.obls[-1].post = True
    def lemma(s, st, name, goal, extra=()):
        """an intermediate step: proved here, used from here on"""
        s.check(st, 'step: ' + name, goal, extra)
        st.fact(goal)
    def general(s, st, name, hyps, goal, terms):
        """prove goal from hyps alone, with the given terms replaced by arbitrary numbers,
        and each hyp here; then use goal"""
        for n, h in enumerate(hyps): s.check(st, 'step: %s, premise %d' % (name, n), h)
        sub = [(t, z3.Real('gen%d_' % n) if t.sort() == R else z3.Int('gen%d_' % n)) for n, t in enumerate(terms)]
        e = State()
        for h in hyps: e.fact(z3.substitute(h, *sub))
        s.check(e, 'step: ' + name, z3.substitute(goal, *sub))
        st.fact(goal)
    def cover(s, st, name):
        s.covers.append((name, st.facts(), st.qfacts()))
    def assume(s, st, t, why):
        if why not in s.assumed: s.assumed.append(why)
        st.fact(t)

# ------------------------------------------------------------------ discharge
_OB = []
_RANGES = {}
def _prove_one(i):
    o = _OB[i]
    t0 = time.time()
    smt.STATS.update({k: 0 for k in smt.STATS})
    smt.INTERVALS[0] = True
    try:
        def late(*a): raise TimeoutError('time limit')
        signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, o.opts.get('limit', 50))
        facts = list(o.facts)
        if o.opts.get('prover'): r = o.opts['prover'](o)
        else:
            r = prove(o.goal, facts, o.qfacts, o.extra, timeout=o.opts.get('timeout', 5000))
        m = None
        if not r.ok and r.model is not None:
            m = model_str(r.model)
        return i, r.ok, r.how, m, time.time() - t0
    except TimeoutError: return i, False, 'time limit', None, time.time() - t0
    except Exception as e:
        return i, False, 'error: %s' % (repr(e)[:200]), None, time.time() - t0
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
def model_str(m, lim=60):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append('%s = %s' % (d.name(), m[d]))
    return sorted(out)[:lim]

def _child(q, idxs):
    for i in idxs:
        q.put(_prove_one(i))
def found(): return os.path.exists(os.environ.get('REPLAY_FOUND', '/nonexistent'))
def discharge(obls, jobs=8, budget=400, again=False):
    """-> list of result dicts"""
    global _OB
    _OB = obls
    res = [None] * len(obls)
    todo = []
    for i, o in enumerate(obls):
        if conc(o.goal) and o.goal is True: res[i] = (True, 'simplify', None, 0.0)
        else: todo.append(i)
    t0 = time.time()
    if todo:
        if jobs <= 1 or len(todo) < 2:
            for i in todo:
                _, ok, how, m, t = _prove_one(i); res[i] = (ok, how, m, t)
        else:
            ctx = multiprocessing.get_context('fork')
            # one process per obligation batch; a hung one is dropped at the deadline
            pend = list(todo)
            live = {}
            def start(i):
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_work, args=(w, i))
                p.start(); w.close()
                live[p.sentinel] = (p, r, i, time.time())
            chunks = []
            csz = max(1, min(12, len(pend) // (jobs * 3) or 1))
            while pend: chunks.append(pend[:csz]); pend = pend[csz:]
            chunks.reverse()
            from multiprocessing.connection import wait as mwait
            while chunks or live:
                while chunks and len(live) < jobs: start(chunks.pop())
                mwait([v[1] for v in live.values()], timeout=1.0)
                now = time.time()
                # a failing input is known: no need to go on for long
                if found(): budget = min(budget, max(now - t0 + 1, 45 if not again else 1))
                for k, (p, r, ids, ts) in list(live.items()):
                    try:
                        while r.poll():
                            i, ok, how, m, t = r.recv(); res[i] = (ok, how, m, t)
                    except EOFError:
                        p.join(); r.close(); del live[k]; continue
                    if now - ts > (60 if not again else 200) * len(ids) or now - t0 > budget:
                        p.kill(); p.join(); r.close(); del live[k]
                if time.time() - t0 > budget:
                    for k, (p, r, ids, ts) in list(live.items()): p.kill(); p.join()
                    break
    # the undecided ones once more with longer limits
    left = [i for i in todo if not (res[i] and (res[i][0] or res[i][1] == 'sat'))]
    if left and not again and len(left) <= 40 and not os.environ.get('ONCE') and not found():
        part = []
        for i in left:
            o = obls[i]; part.append(Obl(o.name, o.loc, o.facts, o.qfacts, o.goal, o.extra, dict(o.opts, timeout=4 * o.opts.get('timeout', 5000), limit=100)))
        for i, r in zip(left, discharge(part, max(2, jobs), max(25, budget - (time.time() - t0)), True)):
            if r['ok'] or not res[i]: res[i] = (r['ok'], r['how'], r['model'], r['t'])
    out = []
    for i, o in enumerate(obls):
        r = res[i] or (False, 'time limit', None, 0.0)
        out.append({'name': o.name, 'loc': o.loc, 'ok': r[0], 'how': r[1], 'model': r[2], 't': r[3], 'post': getattr(o, 'post', False)})
    return out
def _work(w, ids):
    for i in ids: w.send(_prove_one(i))
    w.close()
    os._exit(0)

# ------------------------------------------------------------------ frames and comparisons
def veq(a, b):
    """equality of two values as a condition"""
    if isinstance(a, Ext) or isinstance(b, Ext):
        a = a if isinstance(a, Ext) else Ext(0, a); b = b if isinstance(b, Ext) else Ext(0, b)
        return and_(eqv(a.kind, b.kind), implies(eqv(a.kind, 0), eqv(a.val, b.val)))
    def ref(v):
        if v is NULL: return 0
        if isinstance(v, Ptr) and v.root.startswith('heap:') and not v.steps: return v.idx[0]
        return v
    a, b = ref(a), ref(b)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return vsame(a, b)
    if a is UNDEF or b is UNDEF: return a is b
    return eqv(a, b)
def leaf_at(c, st, p, sub, o, leaf, idx):
    v = get_leaf(c.ex, st, Ptr(p.root, p.steps, p.idx, 0), sub, o, leaf)
    return v.get(tuple(idx)) if isinstance(v, Arr) else v
def same_leaves(c, st0, p0, st1, p1, skip=(), only=None, within=True):
    """conditions saying that the object at p1 in st1 equals the object at p0 in st0;
    vector elements are compared below the length"""
    t = c.typ(p0)
    out = []
    ex = []
    sizes = {}
    for sub, o, leaf, pa in c.p.flat(t):
        if '_vptr$' in pa: continue
        if any(pa == '.' + s_ or pa.startswith('.' + s_ + '.') or pa.startswith('.' + s_ + '[') for s_ in skip): continue
        if only is not None and not any(pa == '.' + s_ or pa.startswith('.' + s_ + '.') or pa.startswith('.' + s_ + '[') for s_ in only): continue
        idx = [z3.Int('ix%d' % n) for n in range(len(sub))]
        a = leaf_at(c, st0, p0, sub, o, leaf, idx)
        b = leaf_at(c, st1, p1, sub, o, leaf, idx)
        if a is UNDEF or a is None: continue
        g = veq(a, b)
        if sub and within:
            # element positions below the lengths
            n = c.get_size(st0, p0, pa, idx)
            if n is not None: g = implies(n, g)
        out.append((pa, g))
    return out
def _get_size(c, st, p, pa, idx):
    conds = []
    parts = pa.split('[]')
    if '.has' in pa or 'h' in pa and False: return None
    for n in range(len(parts) - 1):
        pre = '[]'.join(parts[:n + 1])
        try: ln = c.get(st, p, (pre + '.size').lstrip('.') if not pre.startswith('[') else pre + '.size', idx[:n])
        except KeyError: return None
        conds.append(and_(ge(idx[n], 0), lt(idx[n], ln)))
    return and_(*conds)
Ctx.get_size = _get_size
def check_same(c, st, name, st0, p0, p1=None, skip=(), only=None):
    for pa, g in same_leaves(c, st0, p0, st, p1 or p0, skip, only):
        c.check(st, '%s: %s' % (name, pa), g, [z3.Int('ix%d' % n) for n in range(3)])
# ------------------------------------------------------------------ provers
def quant(o):
    """z3 with its own treatment of the quantified facts"""
    t0 = time.time()
    g = [z3.Not(zb(o.goal))] + [zb(f) for f in o.facts if isz(f)]
    if any(f is False for f in o.facts): return smt.Result(True, 'unreachable')
    s = z3.Solver(); s.set('timeout', o.opts.get('timeout', 8000))
    s.add(*g, *[q.formula() for q in o.qfacts])
    r = s.check()
    if r == z3.unsat: return smt.Result(True, 'z3', t=time.time() - t0)
    return smt.prove(o.goal, o.facts, o.qfacts, o.extra, timeout=o.opts.get('timeout', 8000))
def canon(e, memo=None):
    """the arguments of functions in normal form (for sines and cosines the sign is taken out)"""
    memo = {} if memo is None else memo
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][0]
        if z3.is_app(t) and t.num_args():
            cs = [go(x) for x in t.children()]
            d = t.decl()
            r = t if all(a.eq(b) for a, b in zip(cs, t.children())) else d(*cs) if d.kind() == z3.Z3_OP_UNINTERPRETED or t.num_args() < 3 else nary(t, cs)
            if d.eq(SIN) or d.eq(COS):
                a = zr(smt.normal(cs[0])); b = zr(smt.normal(neg(cs[0])))
                if b.sexpr() < a.sexpr(): r = COS(b) if d.eq(COS) else -SIN(b)
                else: r = d(a)
            elif d.kind() == z3.Z3_OP_UNINTERPRETED:
                cs = [zr(smt.normal(x)) if x.sort() == R else x for x in cs]
                r = zr(builtins_sx.norm_angle(cs[0])) if d.eq(smt.NORM) else d(*cs)
        else: r = t
        memo[i] = (r, t)
        return r
    return go(z(e))
def trig(o):
    """an identity of rational functions of sines and cosines"""
    t0 = time.time()
    try:
        if isz(o.goal) and smt.poly_eq(canon(o.goal)): return smt.Result(True, 'polynomial', t=time.time() - t0)
    except smt.TooBig: pass
    return smt.prove(o.goal, o.facts, o.qfacts, o.extra, timeout=o.opts.get('timeout', 8000))
NLMUL = z3.Function('mul!', R, R, R)
def no_products(e):
    """products of unknowns read as an uninterpreted function (sound: fewer facts)"""
    memo = {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][0]
        if z3.is_app(t) and t.num_args():
            cs = [go(x) for x in t.children()]
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL and t.sort() == R:
                num = [x for x in cs if z3.is_rational_value(x)]; oth = sorted([x for x in cs if not z3.is_rational_value(x)], key=lambda x: x.sexpr())
                r = oth[0] if oth else None
                for x in oth[1:]: r = NLMUL(r, x)
                for x in num: r = x if r is None else x * r
            else: r = t if all(a.eq(b) for a, b in zip(cs, t.children())) else nary(t, cs) if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_DISTINCT, z3.Z3_OP_MUL) else t.decl()(*cs)
        elif z3.is_quantifier(t):
            vs = [z3.Const(t.var_name(n) + '!q', t.var_sort(n)) for n in range(t.num_vars())]
            b = go(z3.substitute_vars(t.body(), *reversed(vs)))
            r = z3.ForAll(vs, b) if t.is_forall() else z3.Exists(vs, b)
        else: r = t
        memo[i] = (r, t)
        return r
    return go(e)
def quantlin(o):
    """as quant, with products abstracted and only the facts that name functions of the goal's kind"""
    t0 = time.time()
    drop = ('no update', 'last update', 'invariant')
    q = [x for x in o.qfacts if not x.name.startswith(drop) and 'last!' not in str(x.body)[:4000]]
    g = [z3.Not(zb(o.goal))] + [zb(f) for f in o.facts if isz(f)]
    names = set(); todo = [g[0]]
    pool = [(f, set(y.decl().name() for y in subterms([f]) if z3.is_app(y) and y.num_args() and y.decl().kind() == z3.Z3_OP_UNINTERPRETED)) for f in [zb(f) for f in o.facts if isz(f)] + [x.formula().body() if z3.is_quantifier(x.formula()) else x.formula() for x in q]]
    full = [zb(f) for f in o.facts if isz(f)] + [x.formula() for x in q]
    names = set(y.decl().name() for y in subterms([g[0]]) if z3.is_app(y) and y.num_args() and y.decl().kind() == z3.Z3_OP_UNINTERPRETED)
    hist = set(n for n in names if n[0] == 'L' and n[1:2].isdigit())
    if hist:
        for _ in range(4):
            for f, ns in pool:
                h = set(n for n in ns if n[0] == 'L' and n[1:2].isdigit())
                if h & hist: hist |= h
        keep = [fu for (f, ns), fu in zip(pool, full) if not any(n[0] == 'L' and n[1:2].isdigit() for n in ns) or (set(ns) & hist)]
    else: keep = full
    # instances at the constants of the goal
    cs = [y for y in subterms([g[0]]) if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.sort() == I]
    cs = [y for y in cs if not any(z3.is_app(f) and occurs(zb(f), y) for f in o.facts if isz(f))][:3]
    inst = []
    for f in keep:
        if not z3.is_quantifier(f): inst.append(f); continue
        for tup in itertools.product(cs, repeat=f.num_vars()):
            inst.append(z3.substitute_vars(f.body(), *reversed(tup)))
    s = z3.Solver(); s.set('timeout', o.opts.get('timeout', 8000))
    s.add(no_products(g[0]), *[no_products(f) for f in inst])
    if s.check() == z3.unsat: return smt.Result(True, 'z3', t=time.time() - t0)
    return quant(o)
