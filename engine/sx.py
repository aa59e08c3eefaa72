"""Symbolic execution of the extracted program, function by function, with loops
summarised for every number of iterations (recurrence solving plus inductively
checked facts).  Every memory access, division, conversion and contract
precondition met on the way is recorded as an obligation."""
import struct, itertools, time
from fractions import Fraction
import z3
from smt import *
import smt
from ir import Prog, norm, o_add

class Unsupported(Exception): pass
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
class Null:
    def __repr__(s): return 'null'
NULL = Null()

class Ptr:
    __slots__ = ('root', 'steps', 'idx', 'off')
    def __init__(s, root, steps=(), idx=(), off=0): s.root, s.steps, s.idx, s.off = root, tuple(steps), tuple(idx), off
    def __repr__(s): return 'Ptr(%s,%s,%s,%s)' % (s.root, s.steps, s.idx, s.off)
    def at(s, d): return Ptr(s.root, s.steps, s.idx, s.off + d)
    def elem(s, i): return Ptr(s.root, s.steps + (s.off,), s.idx + (i,), 0)
    def shape(s): return (s.root, s.steps, s.off)
class FnP:
    def __init__(s, name): s.name = name
class VTab:
    def __init__(s, cls, off=0): s.cls, s.off = cls, off
class VSlot:
    def __init__(s, cls, idx): s.cls, s.idx = cls, idx
class Agg:
    def __init__(s, vals): s.vals = dict(vals)
class Ext:
    """a float that may be infinite or not a number: kind 0 finite, 1 +inf, 2 -inf, 3 nan"""
    __slots__ = ('kind', 'val')
    def __init__(s, kind, val): s.kind, s.val = kind, val

def vsame(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.shape() == b.shape() and len(a.idx) == len(b.idx) and all(same(z(x), z(y)) for x, y in zip(a.idx, b.idx))
    if isinstance(a, BaseA) and isinstance(b, BaseA): return a.name == b.name
    if isinstance(a, Ext) and isinstance(b, Ext): return same(z(a.kind), z(b.kind)) and same(z(a.val), z(b.val))
    if isinstance(a, (Ptr, Ext, Arr, Undef, Null, Agg, FnP, VTab, VSlot)) or isinstance(b, (Ptr, Ext, Arr, Undef, Null, Agg, FnP, VTab, VSlot)):
        if isinstance(a, Agg) and isinstance(b, Agg): return a.vals.keys() == b.vals.keys() and all(vsame(a.vals[k], b.vals[k]) for k in a.vals)
        if isinstance(a, FnP) and isinstance(b, FnP): return a.name == b.name
        return False
    if conc(a) and conc(b): return a == b
    return same(z(a), z(b))
class Conflict(Exception): pass
def vite(c, a, b):
    if conc(c): return a if c else b
    if vsame(a, b): return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, Arr) or isinstance(b, Arr): return IteA(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.shape() != b.shape(): raise Conflict()
        return Ptr(a.root, a.steps, [ite(c, x, y) for x, y in zip(a.idx, b.idx)], a.off)
    if a is NULL and isinstance(b, Ptr) and b.root.startswith('heap:') and not b.steps and b.off == 0:
        return Ptr(b.root, (), [ite(c, 0, b.idx[0])], 0)
    if b is NULL and isinstance(a, Ptr) and a.root.startswith('heap:') and not a.steps and a.off == 0:
        return Ptr(a.root, (), [ite(c, a.idx[0], 0)], 0)
    if isinstance(a, Ext) or isinstance(b, Ext):
        if not isinstance(a, Ext): a = Ext(0, a)
        if not isinstance(b, Ext): b = Ext(0, b)
        return Ext(ite(c, a.kind, b.kind), ite(c, a.val, b.val))
    if isinstance(a, Agg) and isinstance(b, Agg): return Agg({k: vite(c, a.vals[k], b.vals[k]) for k in a.vals})
    if isinstance(a, (Ptr, Null, Agg, FnP, VTab, VSlot)) or isinstance(b, (Ptr, Null, Agg, FnP, VTab, VSlot)): raise Conflict()
    return ite(c, a, b)

# ------------------------------------------------------------------ arrays
class Arr:
    def get(s, idx): raise NotImplementedError
class BaseA(Arr):
    def __init__(s, fn, name): s.fn, s.name = fn, name
    def get(s, idx): return s.fn(*idx)
class ConstA(Arr):
    def __init__(s, v): s.v = v
    def get(s, idx): return s.v
class StoreA(Arr):
    def __init__(s, prev, idx, v): s.prev, s.idx, s.v = prev, tuple(idx), v
    def get(s, idx):
        c = and_(*[eqv(a, b) for a, b in zip(s.idx, idx)])
        if conc(c): return s.v if c else s.prev.get(idx)
        return vite(c, s.v, s.prev.get(idx))
class RowA(Arr):
    """elements whose first indices equal row come from fn(rest), others from prev"""
    def __init__(s, prev, row, fn): s.prev, s.row, s.fn = prev, tuple(row), fn
    def get(s, idx):
        n = len(s.row)
        c = and_(*[eqv(a, b) for a, b in zip(s.row, idx)])
        if conc(c): return s.fn(*idx[n:]) if c else s.prev.get(idx)
        return vite(c, s.fn(*idx[n:]), s.prev.get(idx))
class IteA(Arr):
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def get(s, idx):
        x = s.a.get(idx) if isinstance(s.a, Arr) else s.a
        y = s.b.get(idx) if isinstance(s.b, Arr) else s.b
        return vite(s.c, x, y)
class LamA(Arr):
    def __init__(s, fn): s.fn = fn
    def get(s, idx): return s.fn(*idx)
class SubA(Arr):
    def __init__(s, prev, pairs): s.prev, s.pairs = prev, pairs
    def get(s, idx):
        # the pairs replace symbols that never occur in idx
        return vsub(s.prev.get(idx), s.pairs)
def vsub(v, pairs):
    if isinstance(v, Arr): return SubA(v, pairs)
    if isinstance(v, Ptr): return Ptr(v.root, v.steps, [sub_(i, *pairs) for i in v.idx], v.off)
    if isinstance(v, Ext): return Ext(sub_(v.kind, *pairs), sub_(v.val, *pairs))
    if isinstance(v, Agg): return Agg({k: vsub(x, pairs) for k, x in v.vals.items()})
    if isz(v): return sub_(v, *pairs)
    return v
def vmap(v, fn):
    """apply fn to every term of a value"""
    if isinstance(v, Arr): return LamA(lambda *idx: vmap(v.get(idx), fn))
    if isinstance(v, Ptr): return Ptr(v.root, v.steps, [fn(i) for i in v.idx], v.off)
    if isinstance(v, Ext): return Ext(fn(v.kind), fn(v.val))
    if isinstance(v, Agg): return Agg({k: vmap(x, fn) for k, x in v.vals.items()})
    if isz(v): return fn(v)
    return v

# ------------------------------------------------------------------ state
@smt.remember
def cmpkey(f):
    """a comparison or any other formula up to negation: (key, positive)"""
    pos = True
    while z3.is_not(f): f, pos = f.arg(0), not pos
    if z3.is_lt(f): return ('lt', f.arg(0).get_id(), f.arg(1).get_id()), pos
    if z3.is_gt(f): return ('lt', f.arg(1).get_id(), f.arg(0).get_id()), pos
    if z3.is_le(f): return ('lt', f.arg(1).get_id(), f.arg(0).get_id()), not pos
    if z3.is_ge(f): return ('lt', f.arg(0).get_id(), f.arg(1).get_id()), not pos
    return ('f', f.get_id()), pos
class Frame:
    __slots__ = ('env', 'path', 'f', 'allocas')
    def __init__(s, f, path, env=None, allocas=()): s.f, s.path, s.env, s.allocas = f, path, env or {}, allocas
    def copy(s): return Frame(s.f, s.path, dict(s.env), s.allocas)
class State:
    __slots__ = ('mem', 'frames', 'pc', 'epoch')
    def __init__(s): s.mem, s.frames, s.pc, s.epoch = {}, [], [], {}
    def copy(s):
        t = State()
        t.mem, t.frames, t.pc, t.epoch = dict(s.mem), [f.copy() for f in s.frames], list(s.pc), dict(s.epoch)
        return t
    def read(s, key):
        d = s.mem.get(key[0])
        return None if d is None else d.get((key[1], key[2]))
    def write(s, key, v):
        d = s.mem.get(key[0])
        d = dict(d) if d else {}
        d[(key[1], key[2])] = v
        s.mem[key[0]] = d
    def keys(s):
        for r, d in s.mem.items():
            for (st, o) in d: yield (r, st, o)
    def facts(s): return [t for k, t in s.pc if k != 'q' and isz(t)]
    def qfacts(s): return [t for k, t in s.pc if k == 'q']
    def fact(s, t):
        if conc(t):
            if not t: s.pc.append(('f', z3.BoolVal(False)))
            return
        s.pc.append(('f', t))
    def afact(s, t):
        """an obligation already recorded, used from here on but not carried over loops"""
        if conc(t):
            if not t: s.pc.append(('f', z3.BoolVal(False)))
            return
        s.pc.append(('a', t))
    def qfact(s, q): s.pc.append(('q', q))
    def assume(s, t):
        if conc(t) and t: return
        s.pc.append(('b', zb(t)))

class Obl:
    def __init__(s, name, loc, facts, qfacts, goal, extra=(), opts=None):
        s.name, s.loc, s.facts, s.qfacts, s.goal, s.extra = name, loc, facts, qfacts, goal, tuple(extra)
        s.opts = opts or {}

SIZEMAX = 2 ** 48

class Exec:
    def __init__(s, prog):
        s.p = prog
        s.rtype, s.etype = {}, {}
        s.contracts = {}        # normalised demangled prefix -> handler
        s.virt = {}             # (class qname, method name) -> handler
        s.obls, s.seen_obl = [], set()
        s.checking = True
        s.kstack = []
        s.ranges = {}
        s.cap, s.inloop = 8, 0
        s.n = itertools.count()
        s.siteid, s.sitepath, s.unrolls, s.hcount = {}, '', [], 0
        s.loc = None
        s.f32exact = True
        s.extleaf = set()       # (class qname, path) whose floats may be infinite or nan
        s.trusted = set()
        s.inlined = set()
        s.used_contracts = set()
        s.searches = []
        s.lits = {}
        s.depth = 0
        s.loops_done = {}
        s.decides = 0
        s.onwrite = None
        s.nonzero_div = True
        s.loopnotes = []; s.loophints = {}; s.houd = {}; s.lastform = {}
        s.loop_hints = []
        s.deadline = None
        s.trange = {}           # results of checked conversions: their range
        s.maxunroll = 64
        from builtins_sx import HANDLERS
        s.handlers = HANDLERS
        s._dcache = {}

    # ---------------- symbols
    def site(s, name):
        """names of unknown results are fixed by the place in the program (and the loop
        counters, which are their arguments): the same evaluation has the same name"""
        k = (s.sitepath, tuple(s.unrolls), s.hcount)
        s.hcount += 1
        i = s.siteid.setdefault(k, len(s.siteid))
        return '%s!%d' % (name, i)
    def fresh(s, name, sort, args=()):
        ks = list(s.kstack) + list(args)
        nm = s.site(name)
        if not ks: return z3.Const(nm, sort)
        return z3.Function(nm, *([I] * len(ks) + [sort]))(*ks)
    def fresh_fn(s, name, nargs, sort):
        ks = list(s.kstack)
        nm = s.site(name)
        fd = z3.Function(nm, *([I] * (len(ks) + nargs) + [sort])) if ks or nargs else None
        if fd is None:
            c = z3.Const(nm, sort)
            return (lambda: c), nm
        return (lambda *a: fd(*(ks + [zi(x) for x in a]))), nm

    # ---------------- types of memory cells
    def leaf(s, root, steps, off):
        t = s.rtype.get(root)
        if t is not None:
            r = s._leaf(t, steps, off)
            if r: return r
        for m in range(len(steps), -1, -1):
            t = s.etype.get((root, steps[:m]))
            if t is not None:
                r = s._leaf(t, steps[m:], off)
                if r: return r
        return None
    def _leaf(s, t, steps, off):
        d = s.p._flat.get(('idx', t))
        if d is None:
            d = {(st, o): (l, p) for st, o, l, p in s.p.flat(t)}
            s.p._flat[('idx', t)] = d
        r = d.get((steps, off))
        if r is None: return None
        l, p = r
        if (s.p.qname(t), p) in s.extleaf: return ('ext',), p
        return r
    def heap(s, t):
        """root of objects of type t"""
        r = 'heap:' + s.p.qname(t)
        s.rtype.setdefault(r, t)
        return r
    def lt_leaf(s, llty):
        if llty == 'double': return ('real', 64)
        if llty == 'float': return ('real', 32)
        if llty == 'ptr': return ('ptr', None)
        if llty == 'i1': return ('bool',)
        if llty and llty[0] == 'i' and llty[1:].isdigit(): return ('int', int(llty[1:]), int(llty[1:]) <= 32)
        raise Unsupported('type ' + str(llty))

    # ---------------- initial contents
    def base(s, name, leaf, dims):
        """an array (or scalar when dims == 0) of unknown contents"""
        kind = leaf[0]
        ks = []
        def mk(sort):
            if dims == 0:
                c = z3.Const(name, sort)
                return lambda: c
            fd = z3.Function(name, *([I] * dims + [sort]))
            return lambda *i: fd(*[zi(x) for x in i])
        if kind == 'real': fn = mk(R)
        elif kind == 'bool':
            g = mk(B); fn = lambda *i: b2i(g(*i))
        elif kind == 'ext':
            g, h = mk(R), (z3.Function(name + '.kind', *([I] * dims + [I])) if dims else None)
            hc = z3.Const(name + '.kind', I) if not dims else None
            s.ranges[name + '.kind'] = (0, 3)
            fn = lambda *i: Ext(h(*[zi(x) for x in i]) if dims else hc, g(*i))
        elif kind == 'int':
            fn = mk(I)
            if leaf[2]: s.ranges[name] = (-(1 << (leaf[1] - 1)), (1 << (leaf[1] - 1)) - 1)
            else: s.ranges[name] = (0, (1 << leaf[1]) - 1)
        elif kind == 'ptr': fn = mk(I); s.ranges[name] = (0, None)
        else: raise Unsupported('leaf ' + str(leaf))
        if dims == 0:
            v = fn()
            if kind == 'ptr': return s.refptr(leaf[1], v)
            return v
        return BaseA(fn, name)
    def refptr(s, cls, ref):
        if cls is None: return UNDEF
        if conc(ref) and ref == 0: return NULL
        return Ptr(s.heap(cls), (), (ref,), 0)
    def initial(s, st, key, llty, dims):
        root, steps, off = key
        if root == 'ghost:next': return s.T0()
        lf = s.leaf(root, steps, off)
        path = lf[1] if lf else '%s@%s' % (steps, off)
        leaf = lf[0] if lf else None
        if isinstance(off, tuple) and off[1] == 'n':
            leaf = ('int', 48, False)
        if root.startswith('a:') or (root.startswith('heap:') and False):
            if dims == 0:
                return UNDEF
        if leaf is None:
            if llty is None: return None
            leaf = s.lt_leaf(llty)
        ep = st.epoch.get(root, 0)
        name = '%s%s%s' % (root.replace('heap:', '').replace('o:', ''), path, ('@%s' % ep) if ep else '')
        if root.startswith('a:'): name = 'uninit!%d' % next(s.n)
        return s.base(name, leaf, dims)
    def rng_fact(s, st, v):
        """range facts of a value just read"""
        for t in ([v] if isz(v) else [v.kind] if isinstance(v, Ext) else list(v.idx) if isinstance(v, Ptr) else []):
            if isz(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == I:
                r = s.ranges.get(t.decl().name())
                if r:
                    if r[0] is not None: s.add_fact(st, t >= r[0])
                    if r[1] is not None: s.add_fact(st, t <= r[1])
                    if r[1] is None:
                        pass
    def add_fact(s, st, f):
        if conc(f): return
        i = f.get_id()
        for k, t in st.pc[-200:]:
            if k == 'f' and isz(t) and t.get_id() == i: return
        st.pc.append(('f', f))

    def ranges_k(s, kt): pass
    # ---------------- deciding conditions quickly
    def interval(s, t, d=0):
        if conc(t): return (t, t)
        if d > 12: return (None, None)
        if z3.is_app(t):
            tr = s.trange.get(t.get_id())
            if tr: return tr[0]
            k = t.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                return s.ranges.get(t.decl().name(), (None, None))
            if k == z3.Z3_OP_ADD:
                lo = hi = 0
                for c in t.children():
                    a, b = s.interval(back(c), d + 1)
                    lo = None if lo is None or a is None else lo + a
                    hi = None if hi is None or b is None else hi + b
                return (lo, hi)
            if k == z3.Z3_OP_MUL and t.num_args() == 2:
                a, b = s.interval(back(t.arg(0)), d + 1), s.interval(back(t.arg(1)), d + 1)
                if None in a or None in b:
                    if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0: return (a[0] * b[0], None)
                    return (None, None)
                ps = [x * y for x in a for y in b]
                return (min(ps), max(ps))
            if k == z3.Z3_OP_ITE:
                a, b = s.interval(back(t.arg(1)), d + 1), s.interval(back(t.arg(2)), d + 1)
                return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
        return (None, None)
    def decide(s, st, c, timeout=300):
        """True / False when the facts settle c, else None"""
        if conc(c): return c
        cs = (c, simp(c))
        ks = [cmpkey(d) for d in cs if not conc(d)]
        for f in st.facts():
            k, p = cmpkey(f)
            for kd, pd in ks:
                if k == kd: return p == pd
        c = cs[1]
        if conc(c): return c
        if s.deadline and time.time() > s.deadline: raise Unsupported('time limit')
        s.decides += 1
        fs = st.facts()
        key = (c.get_id(), tuple(f.get_id() if isz(f) else f for f in fs[-60:]), len(fs))
        if key in s._dcache: return s._dcache[key][0]
        rel = relevant([f for f in fs if isz(f)], c, 4)
        r = None
        qf = st.qfacts()
        if qf:
            rel = rel + instantiate([f for f in rel if len_ok(f)][-40:] + [c], qf, rounds=1, cap=60)
        ax = [a for a in axioms([c])]
        c0 = c
        qa = quotients(rel + ax + [c])
        if qa is not None: rel, ax, c0 = qa[:len(rel)], qa[len(rel):-1], qa[-1]
        rel = [f for f in rel if len_ok(f)]
        if smt_check(rel + ax + [z3.Not(c0)], timeout)[0] == z3.unsat: r = True
        elif smt_check(rel + ax + [c0], timeout)[0] == z3.unsat: r = False
        s._dcache[key] = (r, c, fs)
        return r

    def decide_hard(s, st, c):
        """the same with products of unknowns; only worth it where a range depends on them"""
        c = simp(c)
        if conc(c): return bool(c)
        if len_ok(c) and not any(z3.is_app_of(t, z3.Z3_OP_ITE) for t in subterms([c])): return False
        fs = [f for f in st.facts() if isz(f)]
        key = ('h', c.get_id(), tuple(f.get_id() for f in fs[-60:]), len(fs))
        if key in s._dcache: return s._dcache[key][0]
        rel = relevant(fs, c, 3)[-150:]
        al = rel + axioms(rel + [c]) + [z3.Not(c)]
        r = smt_check(quotients(al) or al, 2000)[0] == z3.unsat
        s._dcache[key] = (r, c, fs)
        return r

    # ---------------- obligations
    def oblige(s, st, name, goal, extra=(), assume=True, **opts):
        if s.checking and not (conc(goal) and goal):
            loc = s.loc
            o = Obl(name, loc, [f for f in st.facts()], st.qfacts(), goal, tuple(extra) + tuple(s.kstack), opts)
            s.obls.append(o)
        elif s.checking:
            s.obls.append(Obl(name, s.loc, [], [], True))
        if assume: st.afact(goal)

    # ---------------- memory
    def key(s, p): return (p.root, p.steps, p.off)
    def check_ptr(s, st, p, what='object accessed exists'):
        if p is NULL:
            s.oblige(st, 'no null dereference', False); raise Dead()
        if p is UNDEF: raise Unsupported('dereference of an unknown pointer')
        if not isinstance(p, Ptr): raise Unsupported('dereference of %r' % (p,))
        if p.root.startswith('heap:') and p.idx:
            r = p.idx[0]
            if isz(r) or r == 0:
                if not (isz(r) and s.interval(r)[0] is not None and s.interval(r)[0] >= 1):
                    s.oblige(st, 'no null dereference', not_(eqv(r, 0)))
    def agg_layout(s, llty):
        out, off = [], 0
        for n, x in enumerate(y.strip() for y in llty.strip('{} ').split(',')):
            w = 8 if x in ('ptr', 'double', 'i64') else 4 if x in ('i32', 'float') else 2 if x == 'i16' else 1
            off = (off + w - 1) // w * w
            out.append((n, off, x)); off += w
        return out
    def load(s, st, p, llty):
        if llty[0] == '{': return Agg({n: s.load(st, p.at(o), x) for n, o, x in s.agg_layout(llty)})
        if isinstance(p, VTab): return VSlot(p.cls, p.off // 8)
        s.check_ptr(st, p)
        k = s.key(p)
        if p.root.startswith('g:'): return s.load_global(p, llty)
        v = st.read(k)
        dims = len(p.idx)
        if llty == 'i64' and not dims and not isinstance(k[2], tuple):
            pk = s.pack_load(st, p, llty)
            if pk is not None: return pk
        if v is None:
            if llty == 'ptr' and dims <= 1 and p.off == 0 and not p.steps and p.root in s.rtype:
                ms = s.p.di[s.rtype[p.root]].get('members', [])
                lf = s.leaf(*k)
                if lf and '_vptr$' in lf[1]: return VTab(s.rtype[p.root])
            v = s.initial(st, k, llty, dims)
            if v is UNDEF:
                pk = s.pack_load(st, p, llty)
                if pk is not None: return pk
                if llty == 'ptr': return UNDEF
                lf = s.lt_leaf(llty)
                nm = 'uninit!%d' % next(s.n)
                ks = list(s.kstack)
                v = s.fresh('uninit', R if lf[0] == 'real' else I)
                return v
            st.write(k, v)
        if dims and isinstance(v, Arr):
            if any(i is UNDEF for i in p.idx): raise Unsupported('unknown index')
            v = v.get(p.idx)
        if llty == 'ptr' and (isz(v) or isinstance(v, int)):
            lf = s.leaf(*k)
            v = s.refptr(lf[0][1] if lf and lf[0][0] == 'ptr' else None, v)
        if v is UNDEF and llty != 'ptr':
            lf = s.lt_leaf(llty)
            v = s.fresh('uninit', R if lf[0] == 'real' else I)
        s.rng_fact(st, v)
        if isinstance(v, Ptr) and v.root.startswith('heap:') and not v.steps and isz(v.idx[0]):
            t = v.idx[0]
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in s.ranges:
                s.add_fact(st, t < s.T0())
        return v
    def T0(s): return z3.Const('T0', I)
    def pack_load(s, st, p, llty):
        if llty == 'i64':
            a, b = st.read((p.root, p.steps, p.off)), st.read((p.root, p.steps, p.off + 4))
            if a is not None and b is not None and not p.idx: return Agg({('p', 0): a, ('p', 4): b})
        return None
    def store(s, st, p, v, llty=None):
        s.check_ptr(st, p)
        if p.root.startswith('g:'): raise Unsupported('write to a global')
        if isinstance(v, Agg) and v.vals and isinstance(next(iter(v.vals)), tuple):
            for (_, o), x in v.vals.items(): s.store(st, p.at(o), x)
            return
        if isinstance(v, Agg):
            for n, o, x in s.agg_layout(llty or '{i64,i64}'):
                s.store(st, p.at(o), v.vals.get(n, UNDEF))
            return
        k = s.key(p)
        if s.onwrite: s.onwrite(st, p, v)
        if not p.idx:
            st.write(k, v); return
        if isinstance(v, Ptr) and v.root.startswith('g:_ZTV'): return
        if isinstance(v, Ptr):
            if v.root.startswith('heap:') and not v.steps and v.off == 0: v = v.idx[0]
            elif v.root.startswith('o:') and not v.steps and v.off == 0 and v.root in s.objref: v = s.objref[v.root]
            else:
                lf = s.leaf(*k)
                raise Unsupported('interior pointer stored in a container: %r' % v)
        elif v is NULL: v = 0
        elif isinstance(v, (VTab, FnP)): return
        a = st.read(k)
        if a is None:
            lf = s.leaf(*k)
            a = s.initial(st, k, None, len(p.idx))
            if a is None:
                a = s.base('uninit!%d' % next(s.n), ('real', 64) if sort_of(v) == R else ('int', 64, True), len(p.idx)) if not isinstance(v, Ext) else s.base('uninit!%d' % next(s.n), ('ext',), len(p.idx))
        st.write(k, put(a, p.idx, v))
    objref = {}
    def load_global(s, p, llty):
        g = s.p.globals.get(p.root[2:])
        if g is None or 'init' not in g: raise Unsupported('global ' + p.root)
        return s.const_at(g['init'], p.off, llty, p.root[2:])
    def const_at(s, c, off, llty, name):
        if c[0] == 'agg':
            # vtables: arrays of pointers inside a struct
            fl = []
            def fw(c):
                if c[0] == 'agg':
                    for x in c[1]: fw(x)
                else: fl.append(c)
            fw(c)
            if llty == 'ptr' or all(x[0] in ('null', 'f', 'g', 'ce', 'ci', 'cf') for x in fl):
                i = off // (8 if llty in ('ptr', 'i64', 'double') else 4)
                return s.operand(None, fl[i])
        if c[0] in ('ci', 'cf', 'null', 'g', 'f'): return s.operand(None, c)
        if c[0] == 'zero': return Fraction(0) if llty in ('double', 'float') else NULL if llty == 'ptr' else 0
        raise Unsupported('global constant ' + name)

    # ---------------- operands
    def operand(s, st, o):
        k = o[0]
        if k == 'v':
            v = st.frames[-1].env.get(o[1], UNDEF)
            return v
        if k == 'ci':
            v = int(o[2])
            return bool(v & 1) if o[1] == 1 else v
        if k == 'cf': return fconst(o[1], int(o[2]))
        if k == 'null': return NULL
        if k == 'undef': return Agg({}) if o[1].startswith('{') else UNDEF
        if k == 'poison': return UNDEF
        if k == 'g': return Ptr('g:' + o[1])
        if k == 'f': return FnP(o[1])
        if k == 'gep':
            b = s.operand(st, o[1])
            return b.at(o[2]) if isinstance(b, Ptr) else b
        if k == 'zero': return Agg({})
        raise Unsupported('operand %s' % o)

    def unsigned(s, st, v, n):
        if conc(v): return int(v) % (1 << n)
        lo, hi = s.interval(v)
        if lo is not None and lo >= 0 and (hi is None and n == 64 or hi is not None and hi < (1 << n)): return v
        if s.decide(st, and_(v >= 0, v < (1 << n))) is True: return v
        if n == 64 and (lo is not None and lo >= 0 or s.decide(st, v >= 0) is True): return v     # 64-bit counts: treated as mathematical integers
        if s.decide(st, v < 0) is True: return simp(v + (1 << n))
        if n < 64 and s.decide_hard(st, and_(v >= 0, v < (1 << n))): return v
        return simp(ite(v < 0, v + (1 << n), ite(v >= (1 << n), v - (1 << n), v)))
    def signed(s, st, v, n):
        if conc(v):
            v = int(v) % (1 << n)
            return v - (1 << n) if v >= (1 << (n - 1)) else v
        lo, hi = s.interval(v)
        h = 1 << (n - 1)
        if lo is not None and hi is not None and lo >= -h and hi < h: return v
        if n == 64: return v     # 64-bit counts: treated as mathematical integers
        if s.decide(st, and_(v >= -h, v < h)) is True: return v
        if s.decide_hard(st, and_(v >= -h, v < h)): return v
        return simp(ite(v >= h, v - 2 * h, ite(v < -h, v + 2 * h, v)))
    def finite(s, st, v):
        if isinstance(v, Ext):
            s.oblige(st, 'value is a finite number', eqv(v.kind, 0))
            return v.val
        return v
    def num(s, v, what='number'):
        if isinstance(v, (Ptr, Null, Undef, Agg, FnP)): raise Unsupported('%s expected, got %r' % (what, v))
        return v

    # ---------------- running a function
    def call(s, st, f, args, path=None):
        """inline a function: [(state, value)], thrown states"""
        if isinstance(f, str):
            g = s.p.find(f)
            if g is None: raise Unsupported('no function ' + f)
            f = g
        s.depth += 1
        if s.depth > 60: raise Unsupported('recursion')
        try:
            base = st.frames[-1].path if st.frames else ''
            fr = Frame(f, base + '/' + (path or f['name']))
            for a, v in zip(f['args'], args): fr.env[a['id']] = v
            st = st.copy()
            st.frames.append(fr)
            s.inlined.add(f['dem'])
            entry = f['blocks'][0]['id']
            _, _, rets, thr = s.region(f, entry, [(None, st)], None, False)
        finally:
            s.depth -= 1
        out = []
        for t, v in rets:
            t = s.pop(t); out.append((t, v))
        thr = [s.pop(t) for t in thr]
        if len(out) > s.lim():
            out = s.merge_rets(out)
        return out, thr
    def lim(s): return 1 if s.inloop else s.cap
    def pop(s, t):
        fr = t.frames.pop()
        for r in fr.allocas: t.mem.pop(r, None)
        return t
    def merge_rets(s, out):
        for t, v in out:
            t.frames[-1].env['ret'] = v
        ts = s.merge([t for t, v in out])
        r = []
        for t in ts: r.append((t, t.frames[-1].env.pop('ret', UNDEF)))
        return r

    def region(s, f, start, entries, blocks, is_loop):
        pend = {start: list(entries)}
        latches, exits, rets, throws = [], [], [], []
        rpo = f['rpo']
        first = True
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            ins = pend.pop(b)
            sts = [t for _, t in ins]
            if len(sts) > s.lim():
                sts = s.merge(sts)
            if b in f['lmap'] and not (is_loop and b == start and first):
                if is_loop and b == start: raise Unsupported('irreducible')
                ex, r, th = s.exec_loop(f, f['lmap'][b], sts)
                rets += r; throws += th
                edges = ex
            else:
                edges = []
                for t in sts:
                    e, r, th = s.block(f, b, t)
                    edges += [(tgt, b, u) for tgt, u in e]
                    rets += r; throws += th
            if b == start: first = False
            for tgt, frm, u in edges:
                s.phis(f, frm, tgt, u) if not (b in f['lmap'] and not (is_loop and b == start)) else None
                if is_loop and tgt == start: latches.append(u)
                elif blocks is not None and tgt not in blocks: exits.append((tgt, frm, u))
                else: pend.setdefault(tgt, []).append((frm, u))
        return latches, exits, rets, throws
    def phis(s, f, frm, tgt, st):
        ins = f['bmap'][tgt]['ins']
        vals = []
        for i in ins:
            if i['op'] != 'phi': break
            for v, b in i['inc']:
                if b == frm: vals.append((i['id'], s.operand(st, v)))
        for k, v in vals: st.frames[-1].env[k] = v

    def block(s, f, b, st):
        """-> edges [(target, state)], rets, throws"""
        ins = f['bmap'][b]['ins']
        edges, rets, throws = [], [], []
        work = [(st, 0)]
        while work:
            st, i = work.pop()
            n = len(ins)
            try:
                while i < n:
                    I_ = ins[i]
                    op = I_['op']
                    s.sitepath = '%s:%s.%s' % (st.frames[-1].path, b, i); s.hcount = 0
                    if 'line' in I_ and I_['line']: s.loc = (f['dem'], I_.get('file'), I_['line'])
                    if op in ('call', 'invoke'):
                        res, thr = s.docall(f, b, i, I_, st)
                        if op == 'invoke':
                            for t in thr: edges.append((I_['unwind'], t))
                            for t, v in res:
                                if 'id' in I_: t.frames[-1].env[I_['id']] = v
                                edges.append((I_['normal'], t))
                            st = None; break
                        throws += thr
                        if not res: st = None; break
                        for t, v in res:
                            if 'id' in I_: t.frames[-1].env[I_['id']] = v
                        for t, v in res[1:]: work.append((t, i + 1))
                        st = res[0][0]
                        i += 1
                        continue
                    if op == 'br':
                        if 'cond' not in I_: edges.append((I_['succ'][0], st)); st = None; break
                        c = s.operand(st, I_['cond'])
                        c = s.boolv(c)
                        c = s.decided(st, c)
                        if conc(c): edges.append((I_['succ'][0 if c else 1], st))
                        else:
                            t = st.copy()
                            st.assume(c); t.assume(not_(c))
                            edges.append((I_['succ'][0], st)); edges.append((I_['succ'][1], t))
                        st = None; break
                    if op == 'switch':
                        v = s.operand(st, I_['cond'])
                        rest = st
                        for cv, tgt in I_['cases']:
                            c = eqv(v, int(cv[2]))
                            d = s.decide(rest, c)
                            if d is True: edges.append((tgt, rest)); rest = None; break
                            if d is False: continue
                            t = rest.copy(); t.assume(c); edges.append((tgt, t))
                            rest.assume(not_(c))
                        if rest is not None: edges.append((I_['default'], rest))
                        st = None; break
                    if op == 'ret':
                        rets.append((st, s.operand(st, I_['ops'][0]) if I_['ops'] else None)); st = None; break
                    if op == 'resume': throws.append(st); st = None; break
                    if op == 'unreachable': st = None; break
                    if op == 'phi': i += 1; continue
                    v = s.step(f, b, i, I_, st)
                    if 'id' in I_: st.frames[-1].env[I_['id']] = v
                    i += 1
            except Dead:
                pass
            except Fork as e:
                for c in e.conds:
                    t = st.copy(); t.assume(c); work.append((t, i))
        return edges, rets, throws
    def boolv(s, c):
        if isinstance(c, bool) or isz(c) and c.sort() == B: return c
        if c is UNDEF: return s.fresh('undef', B)
        return i2b(c)
    def decided(s, st, c):
        if conc(c): return c
        r = s.decide(st, c)
        return c if r is None else r

    # ---------------- instructions
    def step(s, f, b, i, I_, st):
        op = I_['op']
        ev = lambda o: s.operand(st, o)
        if op == 'alloca':
            fr = st.frames[-1]
            root = 'a:%s#%s' % (fr.path, I_['id'])
            st.mem[root] = {}
            if root not in fr.allocas: fr.allocas = fr.allocas + (root,)
            t = f['dimap'].get(I_['id'])
            if root not in s.rtype and t is not None and t >= 0:
                ft = s.p.full(s.p.strip(t))
                if ft is not None and ft >= 0 and s.p.di[ft]['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type', 'DW_TAG_base_type', 'DW_TAG_array_type', 'DW_TAG_enumeration_type', 'DW_TAG_pointer_type') and not s.p.di[ft].get('decl'):
                    if s.p.di[ft]['size'] == I_['size'] or s.p.di[ft]['tag'] == 'DW_TAG_array_type': s.rtype[root] = ft
            return Ptr(root)
        if op == 'load': return s.load(st, ev(I_['ops'][0]), I_['ty'])
        if op == 'store':
            s.store(st, ev(I_['ops'][1]), ev(I_['ops'][0]), I_['vty']); return None
        if op == 'getelementptr':
            p = ev(I_['base'])
            if p is NULL or p is UNDEF:
                if not I_['idx'] and I_['off'] == 0: return p
                if p is NULL: s.oblige(st, 'no null dereference', False); raise Dead()
                raise Unsupported('pointer arithmetic on an unknown pointer')
            if isinstance(p, VTab): return VTab(p.cls, p.off + I_['off'])
            if isinstance(p, VSlot): return p
            off = I_['off']
            for v, sc in I_['idx']:
                x = ev(v)
                if x is UNDEF: raise Unsupported('unknown offset')
                if not conc(x):
                    x = s.concretise(st, x)
                    if x is None:
                        x = ev(v)
                        for hi in range(1, 9):
                            if s.decide(st, and_(ge(x, 0), le(x, hi))) is True: raise Fork([eqv(x, k) for k in range(hi + 1) if s.decide(st, eqv(x, k)) is not False])
                        if prove(False, [f for f in st.facts() if isz(f)], st.qfacts(), (), timeout=2000).ok: raise Dead()
                        raise Unsupported('symbolic pointer offset %s' % str(x)[:200])
                    if isinstance(x, list): raise Unsupported('several pointer offsets')
                off += int(sc) * int(x)
            return p.at(off)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            a = s.num(s.finite(st, ev(I_['ops'][0])))
            if op == 'fneg': return s.f32(I_['ty'], sub(Fraction(0), a))
            bb = s.num(s.finite(st, ev(I_['ops'][1])))
            if op == 'fadd': r = add(a, bb)
            elif op == 'fsub': r = sub(a, bb)
            elif op == 'fmul': r = mul(a, bb)
            elif op == 'fdiv':
                s.oblige(st, 'no division by zero', not_(eqv(bb, Fraction(0))))
                if conc(bb) and bb == 0: raise Dead()
                r = rdiv(a, bb)
            else: raise Unsupported(op)
            return s.f32(I_['ty'], r)
        if op in ('add', 'sub', 'mul'):
            a, bb = s.num(ev(I_['ops'][0])), s.num(ev(I_['ops'][1]))
            n = int(I_['ty'][1:])
            r = add(a, bb) if op == 'add' else sub(a, bb) if op == 'sub' else mul(a, bb)
            if conc(r):
                r = int(r)
            return r
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            n = int(I_['ty'][1:])
            a, bb = s.num(ev(I_['ops'][0])), s.num(ev(I_['ops'][1]))
            if op[0] == 'u': a, bb = s.unsigned(st, a, n), s.unsigned(st, bb, n)
            else: a, bb = s.signed(st, a, n), s.signed(st, bb, n)
            s.oblige(st, 'no division by zero', not_(eqv(bb, 0)))
            if conc(a) and conc(bb):
                q = abs(a) // abs(bb)
                if (a < 0) != (bb < 0): q = -q
                return q if op.endswith('div') else a - q * bb
            if op[0] == 's' and not (s.decide(st, ge(a, 0)) is True and s.decide(st, gt(bb, 0)) is True):
                a_ = zi(a); b_ = zi(bb)
                q = z3.If(a_ >= 0, a_ / b_, -((-a_) / b_)) if conc(bb) and bb > 0 else None
                if q is None: raise Unsupported('signed division')
            else: q = zi(a) / zi(bb)
            return simp(q) if op.endswith('div') else simp(zi(a) - q * zi(bb))
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, bb = s.num(ev(I_['ops'][0])), s.num(ev(I_['ops'][1]))
            if I_['ty'] == 'i1':
                if op == 'and': return and_(a, bb)
                if op == 'or': return or_(a, bb)
                if op == 'xor':
                    if conc(bb): return not_(a) if bb else a
                    if conc(a): return not_(bb) if a else bb
                    return not_(eqv(a, bb))
            n = int(I_['ty'][1:])
            if conc(a) and conc(bb):
                if op == 'and': return a & bb
                if op == 'or': return a | bb
                if op == 'xor': return a ^ bb
                if op == 'shl': return (a << bb) % (1 << n)
                return (a % (1 << n)) >> bb
            if op == 'shl' and conc(bb): return mul(a, 1 << bb)
            if op == 'and' and conc(bb) and bb > 0 and (bb & (bb - 1)) == 0:
                return ite(BITF(zi(a), zi(bb)), bb, 0)
            if op == 'and' and conc(bb) and bb > 0 and ((bb + 1) & bb) == 0:
                return simp(zi(a) % (bb + 1))
            if op in ('and', 'or') and z3.is_app(z(a)):
                # boolean bytes
                if s.is01(a) and s.is01(bb): return b2i((and_ if op == 'and' else or_)(i2b(a), i2b(bb)))
            raise Unsupported('bit operation ' + op)
        if op == 'icmp': return s.icmp(st, I_, ev(I_['ops'][0]), ev(I_['ops'][1]))
        if op == 'fcmp': return s.fcmp(st, I_['pred'], ev(I_['ops'][0]), ev(I_['ops'][1]))
        if op in ('zext', 'sext', 'trunc'):
            v = ev(I_['ops'][0])
            if v is UNDEF: v = s.fresh('undef', I)
            sn, tn = int(I_['sty'][1:]), int(I_['ty'][1:])
            if sn == 1: return b2i(v) if op == 'zext' else neg(b2i(v)) if conc(v) else ite(v, -1, 0)
            if op == 'trunc':
                if tn == 1:
                    return i2b(v) if not conc(v) else bool(int(v) & 1)
                return v if not conc(v) else int(v) % (1 << tn)
            return s.unsigned(st, v, sn) if op == 'zext' else s.signed(st, v, sn)
        if op == 'fpext': return ev(I_['ops'][0])
        if op == 'fptrunc':
            v = ev(I_['ops'][0])
            if isinstance(v, Ext): return v
            return s.f32('float', s.num(v))
        if op in ('sitofp', 'uitofp'):
            v = s.num(ev(I_['ops'][0])); n = int(I_['sty'][1:])
            v = s.unsigned(st, v, n) if op == 'uitofp' else s.signed(st, v, n)
            return s.f32(I_['ty'], Fraction(v) if conc(v) else zr(v))
        if op in ('fptosi', 'fptoui'):
            v = s.num(s.finite(st, ev(I_['ops'][0]))); n = int(I_['ty'][1:])
            if op == 'fptoui': lo, hi = -1, 1 << n
            else: lo, hi = -(1 << (n - 1)) - 1, 1 << (n - 1)
            s.oblige(st, 'conversion to an integer stays in range', and_(gt(v, Fraction(lo)), lt(v, Fraction(hi))))
            r = s.trunc(st, v)
            if isz(r) and r.decl().eq(TRUNC): s.trange[r.get_id()] = ((0 if op == 'fptoui' else lo + 1, hi - 1), r)
            return r
        if op == 'select':
            c = s.boolv(ev(I_['ops'][0]))
            c = s.decided(st, c)
            try: return vite(c, ev(I_['ops'][1]), ev(I_['ops'][2]))
            except Conflict: raise Unsupported('select between unrelated pointers')
        if op == 'extractvalue':
            a = ev(I_['ops'][0])
            if a is UNDEF: return UNDEF
            for k in I_['indices']: a = a.vals.get(k, UNDEF)
            return a
        if op == 'insertvalue':
            a, v = ev(I_['ops'][0]), ev(I_['ops'][1])
            vals = dict(a.vals) if isinstance(a, Agg) else {}
            vals[I_['indices'][0]] = v
            return Agg(vals)
        if op == 'landingpad': return Agg({0: UNDEF, 1: 1})
        if op in ('bitcast', 'freeze'): return ev(I_['ops'][0])
        raise Unsupported('instruction ' + op)
    def is01(s, v):
        if conc(v): return v in (0, 1)
        if z3.is_app_of(v, z3.Z3_OP_ITE): return s.is01(back(v.arg(1))) and s.is01(back(v.arg(2)))
        return False
    def f32(s, ty, v):
        return v
    def trunc(s, st, v):
        if conc(v): return int(v)
        n = normal(v) if not z3.is_app_of(v, z3.Z3_OP_TO_REAL) else v
        if isz(n) and z3.is_app_of(n, z3.Z3_OP_TO_REAL): return n.arg(0)
        try:
            num, den = poly(v)
            if den == P1 and all(c.denominator == 1 and all(ATOMS.keep[k].sort() == I for k, e in m) for m, c in num.items()):
                r = 0
                for m, c in num.items():
                    t = int(c)
                    for k, e in m:
                        for _ in range(e): t = mul(t, ATOMS.keep[k])
                    r = add(r, t)
                return r
            v = normal(v)
        except TooBig: pass
        if conc(v): return int(v)
        return TRUNC(v)
    def concretise(s, st, x):
        d = simp(x)
        if conc(d): return d
        for v in range(-1, 9):
            if s.decide(st, eqv(x, v)) is True: return v
        return None
    def icmp(s, st, I_, a, b):
        pred = I_['pred']
        if isinstance(a, Agg) or isinstance(b, Agg): raise Unsupported('comparison of aggregates')
        if isinstance(a, (Ptr, Null)) or isinstance(b, (Ptr, Null)):
            c = s.ptreq(a, b)
            return c if pred == 'eq' else not_(c) if pred == 'ne' else s.uns('pointer order')
        if a is UNDEF or b is UNDEF: return s.fresh('undef', B)
        ty = I_.get('sty') or I_.get('cty') or s.opty(st, I_)
        n = ty
        if isinstance(a, bool) or isinstance(b, bool) or isz(a) and a.sort() == B or isz(b) and b.sort() == B:
            c = eqv(s.boolv(a), s.boolv(b))
            return c if pred == 'eq' else not_(c)
        if pred in ('eq', 'ne'):
            la, lb = s.interval(a), s.interval(b)
            if la[0] is not None and lb[0] is not None and la[0] >= 0 and lb[0] >= 0:
                a, b = s.unsigned(st, a, n), s.unsigned(st, b, n)
            else: a, b = s.signed(st, a, n), s.signed(st, b, n)
            c = eqv(a, b)
            return c if pred == 'eq' else not_(c)
        if pred[0] == 'u': a, b = s.unsigned(st, a, n), s.unsigned(st, b, n)
        else: a, b = s.signed(st, a, n), s.signed(st, b, n)
        r = pred[1:]
        return lt(a, b) if r == 'lt' else le(a, b) if r == 'le' else gt(a, b) if r == 'gt' else ge(a, b)
    def uns(s, m): raise Unsupported(m)
    def opty(s, st, I_):
        for o in I_['ops']:
            if o[0] == 'ci': return o[1]
        f = st.frames[-1].f
        tys = f.get('_tys')
        if tys is None:
            tys = {}
            for b in f['blocks']:
                for i in b['ins']:
                    if 'id' in i and 'ty' in i: tys[i['id']] = i['ty']
            for a in f['args']: tys[a['id']] = a['ty']
            f['_tys'] = tys
        for o in I_['ops']:
            if o[0] == 'v' and o[1] in tys:
                t = tys[o[1]]
                if t[0] == 'i' and t[1:].isdigit(): return int(t[1:])
        return 64
    def ptreq(s, a, b):
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an unknown pointer')
        if a is NULL and b is NULL: return True
        if a is NULL: a, b = b, a
        if b is NULL:
            if a.root.startswith('heap:') and not a.steps: return eqv(a.idx[0], 0) if a.off == 0 else False
            return False
        if a.shape() != b.shape(): return False
        return and_(*[eqv(x, y) for x, y in zip(a.idx, b.idx)])
    def isfin(s, st, e):
        if conc(e.kind): return e.kind == 0
        g = eqv(e.kind, 0)
        if not isz(g): return bool(g)
        h = g.arg(1) == g.arg(0) if z3.is_eq(g) else g
        return any(f.eq(g) or f.eq(h) for k, f in st.pc if k != 'q' and isz(f))
    def fcmp(s, st, pred, a, b):
        if isinstance(a, Ext) or isinstance(b, Ext):
            a = a if isinstance(a, Ext) else Ext(0, a)
            b = b if isinstance(b, Ext) else Ext(0, b)
            if s.isfin(st, a): a = Ext(0, a.val)
            if s.isfin(st, b): b = Ext(0, b.val)
            if conc(a.kind) and a.kind == 0: a, b, pred = b, a, pred[0] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(pred[1:], pred[1:]) if pred[0] in 'ou' and len(pred) == 3 else pred
            if conc(b.kind) and b.kind == 0 and pred[0] in 'ou' and pred not in ('ord', 'uno'):
                # against a finite number
                k, r, bv = a.kind, pred[1:], b.val
                fin = eqv(k, 0)
                c = {'lt': lambda: or_(eqv(k, 2), and_(fin, lt(a.val, bv))), 'le': lambda: or_(eqv(k, 2), and_(fin, le(a.val, bv))),
                     'gt': lambda: or_(eqv(k, 1), and_(fin, gt(a.val, bv))), 'ge': lambda: or_(eqv(k, 1), and_(fin, ge(a.val, bv))),
                     'eq': lambda: and_(fin, eqv(a.val, bv)), 'ne': lambda: and_(not_(eqv(k, 3)), or_(not_(fin), not_(eqv(a.val, bv))))}[r]()
                return c if pred[0] == 'o' else or_(eqv(k, 3), c)
            nan = or_(eqv(a.kind, 3), eqv(b.kind, 3))
            fin = and_(eqv(a.kind, 0), eqv(b.kind, 0))
            def val(e, hi): return e
            # order on extended reals: rank -1 for -inf, 0 finite, 1 for +inf
            ra = ite(eqv(a.kind, 2), -1, ite(eqv(a.kind, 1), 1, 0)); rb = ite(eqv(b.kind, 2), -1, ite(eqv(b.kind, 1), 1, 0))
            lt_ = or_(lt(ra, rb), and_(fin, lt(a.val, b.val)))
            eq_ = and_(eqv(ra, rb), or_(not_(fin), eqv(a.val, b.val)))
            base = {'lt': lt_, 'gt': and_(not_(lt_), not_(eq_)), 'eq': eq_, 'le': or_(lt_, eq_), 'ge': not_(lt_), 'ne': not_(eq_)}
            if pred == 'ord': return not_(nan)
            if pred == 'uno': return nan
            if pred == 'true': return True
            c = base[pred[1:]]
            return and_(not_(nan), c) if pred[0] == 'o' else or_(nan, c)
        a, b = s.num(a), s.num(b)
        if pred == 'ord' or pred == 'true': return True
        if pred == 'uno' or pred == 'false': return False
        r = pred[1:]
        if r == 'eq': return eqv(a, b)
        if r == 'ne': return not_(eqv(a, b))
        return lt(a, b) if r == 'lt' else le(a, b) if r == 'le' else gt(a, b) if r == 'gt' else ge(a, b)

    # ---------------- calls
    def docall(s, f, b, i, I_, st):
        if 'fptr' in I_:
            fp = s.operand(st, I_['fptr'])
            args = [s.operand(st, a) for a in I_['args']]
            if isinstance(fp, FnP): name = fp.name
            elif isinstance(fp, VSlot) or isinstance(fp, VTab):
                return s.vcall(st, fp, args, I_)
            else: raise Unsupported('call through an unknown pointer')
        else:
            name = I_['callee']
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume'): return [(st, None)], []
            args = [s.operand(st, a) if a[0] not in ('md', 'asm') else None for a in I_['args']]
        g = s.p.fn.get(name)
        return s.invoke_fn(st, g, name, args, '%s.%s' % (b, i), I_)
    def invoke_fn(s, st, g, name, args, path, I_=None):
        dem = g['dem'] if g else name
        h = s.find_contract(dem)
        if h is not None:
            s.used_contracts.add(dem)
            r = h(s, st, g, args)
            return s.norm_res(st, r)
        h = s.handlers.over(dem)
        if h is not None:
            s.trusted.add(dem)
            return s.norm_res(st, h(s, st, g, args, I_))
        if g is not None and not g['decl']:
            args = s.byval(st, g, args, path)
            s_loc = s.loc
            r = s.call(st, g, args, path)
            s.loc = s_loc
            return r
        h = s.handlers.lookup(dem, name)
        if h is None: raise Unsupported('external function ' + dem)
        s.trusted.add(dem)
        r = h(s, st, g, args, I_) 
        return s.norm_res(st, r)
    def norm_res(s, st, r):
        if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], list) and isinstance(r[1], list): return r
        if isinstance(r, list): return r, []
        return [(st, r)], []
    def byval(s, st, g, args, path):
        out = list(args)
        for n, a in enumerate(g['args']):
            if a.get('byval') and isinstance(out[n], Ptr):
                root = 'a:%s#byval%d' % (path, n)
                st.mem[root] = {}
                q = Ptr(root)
                s.copy_obj(st, q, out[n], a.get('size'))
                out[n] = q
        return out
    def find_contract(s, dem):
        n = norm(dem)
        h = s.contracts.get(n)
        if h is not None: return h
        return s.contracts.get(n.split('(')[0])
    def event(s, st, *a):
        if s.listener: s.listener(s, st, *a)
    listener = None
    def on_lock(s, st, p):
        st.write(('ghost:lock', (p.root,) + tuple(p.steps), p.off), 1)
    def on_unlock(s, st, p):
        st.write(('ghost:lock', (p.root,) + tuple(p.steps), p.off), 0)
    def held(s, st, p):
        return st.read(('ghost:lock', (p.root,) + tuple(p.steps), p.off)) == 1
    def vcall(s, st, fp, args, I_):
        q = s.p.qname(fp.cls)
        idx = fp.idx if isinstance(fp, VSlot) else 0
        ent = next(((n, l) for k, n, l in s.p.di[fp.cls].get('virtuals', []) if k == idx), None)
        if ent is None: raise Unsupported('virtual call of slot %d of %s' % (idx, q))
        h = s.virt.get((q, ent[0]))
        if h is not None:
            s.used_contracts.add('%s::%s (virtual)' % (q, ent[0]))
            return s.norm_res(st, h(s, st, None, args))
        if s.p.derived(fp.cls): raise Unsupported('virtual call of %s::%s without a contract' % (q, ent[0]))
        return s.invoke_fn(st, s.p.fn.get(ent[1]), ent[1], args, 'virtual', I_)
    def copy_obj(s, st, dst, src, size):
        """plain memory copy"""
        offs = {}
        d = st.mem.get(src.root, {})
        for (stp, o) in d:
            base = None
            if stp == src.steps and not isinstance(o, tuple) and src.off <= o < src.off + size: offs[o - src.off] = None
        for t in [s.rtype.get(src.root)] if not src.steps else [s.etype.get((src.root, src.steps))]:
            if t is not None:
                for stp, o, l, p in s.p.flat(t):
                    if stp == () and not isinstance(o, tuple) and src.off <= o < src.off + size: offs.setdefault(o - src.off, l)
        if not offs and src.steps:
            t = s.rtype.get(src.root)
            if t is not None:
                for stp, o, l, p in s.p.flat(t):
                    if stp == src.steps and not isinstance(o, tuple) and src.off <= o < src.off + size: offs.setdefault(o - src.off, l)
        for o in offs:
            l = s.leaf(src.root, src.steps, src.off + o)
            lt_ = None
            if l:
                k = l[0]
                lt_ = 'ptr' if k[0] == 'ptr' else 'double' if k[0] in ('real', 'ext') else 'i8' if k[0] == 'bool' else 'i%d' % k[1]
            if l and '_vptr$' in l[1]: continue
            v = st.read(s.key(src.at(o)))
            if v is None or src.idx:
                if lt_ is None: continue
                v = s.load(st, src.at(o), lt_)
            s.store(st, dst.at(o), v)

    # ---------------- merging states
    def merge(s, sts):
        sts = [t for t in sts]
        if len(sts) <= 1: return sts
        try: return [s.merge_all(sts)]
        except Conflict: pass
        out = []
        for t in sts:
            for i, u in enumerate(out):
                try:
                    out[i] = s.merge_all([u, t]); break
                except Conflict: continue
            else: out.append(t)
        return out
    def merge_all(s, sts):
        n = min(len(t.pc) for t in sts)
        p = 0
        p0 = sts[0].pc
        while p < n and all(t.pc[p] is p0[p] for t in sts[1:]): p += 1
        conds = [and_(*[x for k, x in t.pc[p:] if k == 'b']) for t in sts]
        full = conds
        # x or (not x and y) is x or y; in a chain of choices likewise
        conds = []
        for t in sts:
            c = and_(*[x for k, x in t.pc[p:] if k == 'b' and not any(same(not_(x), d) for d in conds)])
            conds.append(c)
        r = State()
        r.pc = list(p0[:p])
        seen = set()
        for t, c in zip(sts, full):
            for k, x in t.pc[p:]:
                if k == 'f':
                    f_ = implies(c, x)
                    # range facts of symbols hold on every path
                    if conc(f_): continue
                    if s.global_fact(x): f_ = x
                    if f_.get_id() in seen: continue
                    seen.add(f_.get_id()); r.pc.append(('f', f_))
                elif k == 'q':
                    if id(x) in seen: continue
                    q = QFact(x.vars, and_(c, x.guard), x.body, x.name)
                    r.pc.append(('q', q))
        cov = or_(*conds)
        if not conc(cov):
            sv = z3.Solver(); sv.set('timeout', 300); sv.add(z3.Not(cov))
            if sv.check() != z3.unsat:
                if s.decide(r, cov) is not True: r.pc.append(('b', cov))
        # chain conditions
        def vm(vals):
            v = vals[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])): v = vite(c, x, v)
            return v
        r.epoch = dict(sts[0].epoch)
        for t in sts[1:]:
            if t.epoch != r.epoch: raise Conflict()
        roots = {}
        for t in sts:
            for k in t.mem: roots[k] = 1
        for root in roots:
            ds = [t.mem.get(root) for t in sts]
            if all(d is ds[0] for d in ds): r.mem[root] = ds[0]; continue
            if root.startswith('a:'): ds = [d if d is not None else {} for d in ds]
            keys = {}
            for d in ds:
                if d:
                    for k in d: keys[k] = 1
            nd = {}
            for (stp, o) in keys:
                vals = [d.get((stp, o)) if d else None for d in ds]
                if any(v is None for v in vals):
                    some = next(v for v in vals if v is not None)
                    for m, v in enumerate(vals):
                        if v is None:
                            if root.startswith('a:'): iv = UNDEF if not isinstance(some, Arr) else some
                            else:
                                iv = s.initial(sts[m], (root, stp, o), None, s.dims(root, stp))
                                if iv is None: iv = some
                            vals[m] = iv
                v0 = vals[0]
                if all(vsame(v, v0) for v in vals[1:]): nd[(stp, o)] = v0
                else:
                    try: nd[(stp, o)] = vm(vals)
                    except Conflict:
                        if root.startswith('a:') and not s.live_ptr(root, sts): continue
                        raise
            r.mem[root] = nd
        nf = len(sts[0].frames)
        if any(len(t.frames) != nf for t in sts): raise Conflict()
        for d in range(nf):
            f0 = sts[0].frames[d]
            fr = Frame(f0.f, f0.path, None, f0.allocas)
            for t in sts[1:]:
                for a in t.frames[d].allocas:
                    if a not in fr.allocas: fr.allocas = fr.allocas + (a,)
            envs = [t.frames[d].env for t in sts]
            keys = set(envs[0])
            for e in envs[1:]: keys &= set(e)
            for k in keys:
                vals = [e[k] for e in envs]
                if all(vsame(v, vals[0]) for v in vals[1:]): fr.env[k] = vals[0]
                else:
                    try: fr.env[k] = vm(vals)
                    except Conflict:
                        if k == 'ret': raise
                        fr.env[k] = UNDEF
            r.frames.append(fr)
        return r
    def live_ptr(s, root, sts): return True
    def global_fact(s, x):
        # 'symbol >= numeral' facts come from the type of the symbol
        if isz(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT) and x.num_args() == 2:
            a, b = x.arg(0), x.arg(1)
            return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in s.ranges and (z3.is_int_value(b) or b.eq(s.T0()))
        return False
    def dims(s, root, steps): return (1 if root.startswith('heap:') else 0) + len(steps)

class Fork(Exception):
    """the instruction is taken once for each of these conditions"""
    def __init__(s, conds): s.conds = conds
class Dead(Exception): pass
BITF = z3.Function('bit', I, I, B)
def fconst(ty, bits):
    if ty == 'float': v = struct.unpack('<f', struct.pack('<I', bits))[0]
    else: v = struct.unpack('<d', struct.pack('<Q', bits))[0]
    if v != v: return Ext(3, Fraction(0))
    if v in (float('inf'), float('-inf')): return Ext(1 if v > 0 else 2, Fraction(0))
    PIS = {3.141592653589793: 1, 6.283185307179586: 2, 1.5707963267948966: Fraction(1, 2), -3.141592653589793: -1, -6.283185307179586: -2}
    if v in PIS: return zr(Fraction(PIS[v])) * PI if PIS[v] != 1 else PI
    return nice(v)
def nice(v):
    """the decimal the programmer wrote (constants are read as exact decimals)"""
    if v == int(v) and abs(v) < 1e15: return Fraction(int(v))
    return Fraction(repr(v))
def put(a, idx, v):
    if isinstance(a, StoreA) and len(a.idx) == len(idx) and all(same(z(x), z(y)) for x, y in zip(a.idx, idx)):
        return StoreA(a.prev, idx, v)
    return StoreA(a, idx, v)
@smt.remember
def len_ok(f):
    """formulas the quick decision procedure may use: no products of unknowns"""
    n = 0
    for t in subterms([f]):
        n += 1
        if n > 400: return False
        if z3.is_app_of(t, z3.Z3_OP_MUL):
            if sum(1 for c in t.children() if not conc(back(c))) > 1: return False
        if z3.is_app_of(t, z3.Z3_OP_DIV) and not conc(back(t.arg(1))): return False
    return True

import loops
for _n, _v in vars(loops.LoopMixin).items():
    if not _n.startswith('__'): setattr(Exec, _n, _v)
