"""Meaning of the operations that are declared but not defined in the analysed
program: the standard containers, the mathematical library, memory, random draws,
locks.  Each is a trusted contract (listed in the evidence of every check)."""
import re, math
from fractions import Fraction
import z3
from smt import *

class Handlers:
    def __init__(s): s.exact, s.pats = {}, []
    def lookup(s, dem, name):
        n = re.sub(r'\s+', '', dem)
        h = s.exact.get(n) or s.exact.get(name) or s.exact.get(n.split('(')[0])
        if h: return h
        for p, h in s.pats:
            if p.match(n): return h
        return None
    def over(s, dem):
        """operations with a body that are read as one term"""
        if 'std::m' not in dem: return None
        m = re.match(r'^(double|float|int|long|unsigned int|unsigned long) const& std::(min|max)<\1>\(\1 const&, ?\1 const&\)$', dem)
        return h_minmax if m else None
    def on(s, *names):
        def d(f):
            for n in names: s.exact[re.sub(r'\s+', '', n)] = f
            return f
        return d
    def pat(s, rx):
        def d(f):
            s.pats.append((re.compile(rx), f)); return f
        return d
HANDLERS = Handlers()
on, pat = HANDLERS.on, HANDLERS.pat

def S():
    import sx
    return sx

# ------------------------------------------------------------------ objects as a whole
def leaves(ex, t):
    """all leaves of an object of type t: (substeps, off, leaf, path)"""
    return ex.p.flat(t)
def q_root(p, sub, o):
    """key and leading indices of leaf (sub, o) of the object at p"""
    if sub: return (p.root, p.steps + (p.off + sub[0],) + tuple(sub[1:]), o)
    return (p.root, p.steps, (o[0] + p.off, o[1]) if isinstance(o, tuple) else (o if o == 'h' else o + p.off))
def cell(ex, st, key, leaf):
    """the contents of a memory cell (a value or an array)"""
    v = st.read(key)
    if v is None:
        dims = ex.dims(key[0], key[1])
        v = ex.initial(st, key, None, dims)
        if v is None:
            v = ex.base('cell!%d' % next(ex.n), leaf, dims)
        if v is not S().UNDEF: st.write(key, v)
    return v
def get_leaf(ex, st, p, sub, o, leaf):
    """value of a leaf: a value when it has no further index, else a function"""
    key = q_root(p, sub, o)
    n = len(sub)
    a = cell(ex, st, key, leaf)
    if n == 0:
        if p.idx and isinstance(a, S().Arr): return a.get(p.idx)
        return a
    if a is S().UNDEF: a = ex.base('cell!%d' % next(ex.n), leaf, ex.dims(key[0], key[1]))
    if not p.idx: return a
    return S().LamA(lambda *i: a.get(tuple(p.idx) + tuple(i)))
def set_leaf(ex, st, p, sub, o, leaf, v):
    key = q_root(p, sub, o)
    if isinstance(v, S().Ptr) and (p.idx or False): v = toref(ex, v)
    if v is S().NULL and p.idx: v = 0
    if not sub:
        if not p.idx: st.write(key, v); return
        a = cell(ex, st, key, leaf)
        if a is S().UNDEF: a = ex.base('cell!%d' % next(ex.n), leaf, ex.dims(key[0], key[1]))
        st.write(key, S().put(a, p.idx, v)); return
    if not p.idx: st.write(key, v); return
    a = cell(ex, st, key, leaf)
    if a is S().UNDEF: a = ex.base('cell!%d' % next(ex.n), leaf, ex.dims(key[0], key[1]))
    st.write(key, S().RowA(a, p.idx, (lambda *i: v.get(i))))
def toref(ex, v):
    if v is S().NULL: return 0
    if isinstance(v, S().Ptr):
        if v.root.startswith('heap:') and not v.steps and v.off == 0: return v.idx[0]
        if v.root in ex.objref and not v.steps and v.off == 0: return ex.objref[v.root]
        raise S().Unsupported('interior pointer stored in a container: %r' % v)
    return v
def zero_of(leaf):
    return {'real': Fraction(0), 'bool': 0, 'int': 0, 'ptr': 0}.get(leaf[0], 0) if leaf[0] != 'ext' else S().Ext(0, Fraction(0))
def zero_leaf(ex, leaf, sub):
    v = zero_of(leaf)
    return S().ConstA(v) if sub else v
def copy_all(ex, st, dst, src, t):
    vals = []
    for sub, o, l, p in leaves(ex, t):
        if '_vptr$' in p: continue
        vals.append((sub, o, l, get_leaf(ex, st, src, sub, o, l)))
    for sub, o, l, v in vals: set_leaf(ex, st, dst, sub, o, l, v)

# ------------------------------------------------------------------ vectors
VEC = r'^std::vector<.*>::'
def vtype(ex, g):
    if '_vt' not in g:
        n = re.sub(r'\s+', '', g['dem'])
        c = n[:n.rindex('>::__') + 1]
        t = ex.p.cls(c)
        g['_vt'] = ex.p.vec_elem(t) if t is not None else None
        g['_vq'] = t
        if g['_vt'] is None: raise S().Unsupported('element type of ' + c)
    return g['_vt']
def vprep(ex, st, g, p):
    ex.check_ptr(st, p)
    t = vtype(ex, g)
    ex.etype.setdefault((p.root, p.steps + (p.off,)), t)
    return t
def vlen(ex, st, p):
    P = S().Ptr(p.root, p.steps, p.idx, (p.off, 'n'))
    key = (p.root, p.steps, (p.off, 'n'))
    v = cell(ex, st, key, ('int', 48, False))
    if v is S().UNDEF: raise S().Unsupported('length of a vector that does not exist')
    if p.idx: v = v.get(p.idx)
    ex.rng_fact(st, v)
    if isz(v): ex.add_fact(st, v >= 0)
    return v
def set_len(ex, st, p, n):
    key = (p.root, p.steps, (p.off, 'n'))
    if p.idx:
        a = cell(ex, st, key, ('int', 48, False))
        st.write(key, S().put(a, p.idx, n))
    else: st.write(key, n)
def elem_leaves(ex, t): return [(sub, o, l, pa) for sub, o, l, pa in leaves(ex, t) if '_vptr$' not in pa]
def ekey(sub, o, voff):
    """substeps and offset of an element leaf, seen from the vector object"""
    return (0,) + tuple(sub), o
def get_elems(ex, st, p, sub, o, l):
    return get_leaf(ex, st, p, (0,) + tuple(sub), o, l)
def set_elems(ex, st, p, sub, o, l, arr):
    set_leaf(ex, st, p, (0,) + tuple(sub), o, l, arr)
def vname(ex, p): return p

@pat(VEC + r'__init\(\)')
def v_init(ex, st, g, a, I_):
    vprep(ex, st, g, a[0]); set_len(ex, st, a[0], 0)
@pat(VEC + r'__size\(\)')
def v_size(ex, st, g, a, I_):
    vprep(ex, st, g, a[0]); return vlen(ex, st, a[0])
@pat(VEC + r'__elem\(')
def v_elem(ex, st, g, a, I_):
    vprep(ex, st, g, a[0])
    n = vlen(ex, st, a[0]); i = a[1]
    ex.oblige(st, 'vector element exists', and_(ge(i, 0), lt(i, n)))
    return a[0].elem(i)
@pat(VEC + r'__elem_any\(')
def v_elem_any(ex, st, g, a, I_):
    vprep(ex, st, g, a[0])
    return a[0].elem(a[1])
@pat(VEC + r'__copy\(')
def v_copy(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0]); vprep(ex, st, g, a[1])
    if S().vsame(a[0], a[1]): return
    n = vlen(ex, st, a[1])
    vals = [(sub, o, l, get_elems(ex, st, a[1], sub, o, l)) for sub, o, l, pa in elem_leaves(ex, t)]
    set_len(ex, st, a[0], n)
    for sub, o, l, v in vals: set_elems(ex, st, a[0], sub, o, l, v)
def new_elem(ex, st, t):
    """leaves of a value-initialised element"""
    q = ex.p.qname(t)
    short = q.split('::')[-1]
    c = ex.p.bydem.get('%s::%s()' % (q, short))
    vals = {}
    if c is not None and not c['decl']:
        st2 = st.copy()
        root = 'o:new!%d' % next(ex.n)
        ex.rtype[root] = t
        save = ex.checking; ex.checking = False
        try: outs, thr = ex.call(st2, c, [S().Ptr(root)], 'new')
        finally: ex.checking = save
        if len(outs) != 1: raise S().Unsupported('constructor with several outcomes in resize')
        st3 = outs[0][0]
        for sub, o, l, pa in elem_leaves(ex, t):
            v = st3.read((root, sub, o))
            if v is None: v = zero_leaf(ex, l, sub)
            vals[(sub, o)] = v
    else:
        for sub, o, l, pa in elem_leaves(ex, t): vals[(sub, o)] = zero_leaf(ex, l, sub)
    return vals
@pat(VEC + r'__resize\(')
def v_resize(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0])
    n, m = a[1], vlen(ex, st, a[0])
    ex.oblige(st, 'vector length is not negative', ge(n, 0))
    vals = new_elem(ex, st, t)
    fill(ex, st, a[0], t, m, vals)
    set_len(ex, st, a[0], n)
def fill(ex, st, p, t, m, vals):
    for sub, o, l, pa in elem_leaves(ex, t):
        nv = vals[(sub, o)]
        if conc(m) and m == 0:
            if sub: arr = S().LamA(lambda *i, nv=nv: nv.get(i[1:]))
            else: arr = S().ConstA(toref(ex, nv) if isinstance(nv, (S().Ptr, S().Null)) else nv)
        else:
            old = get_elems(ex, st, p, sub, o, l)
            if sub: arr = S().LamA(lambda *i, nv=nv, old=old: S().vite(lt(i[0], m), old.get(i), nv.get(i[1:])))
            else:
                if isinstance(nv, (S().Ptr, S().Null)): nv = toref(ex, nv)
                arr = S().LamA(lambda *i, nv=nv, old=old: S().vite(lt(i[0], m), old.get(i), nv))
        set_elems(ex, st, p, sub, o, l, arr)
def obj_vals(ex, st, t, p):
    ex.check_ptr(st, p)
    out = {}
    for sub, o, l, pa in elem_leaves(ex, t):
        if p.root.startswith('g:'): v = ex.load(st, p.at(o), 'ptr' if l[0] == 'ptr' else 'double')
        else: v = get_leaf(ex, st, p, sub, o, l)
        if v is S().UNDEF:
            v = ex.fresh('uninit', R if l[0] in ('real', 'ext') else I) if not sub else ex.base('cell!%d' % next(ex.n), l, len(sub))
        out[(sub, o)] = v
    return out
@pat(VEC + r'__resizev\(')
def v_resizev(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0])
    n, m = a[1], vlen(ex, st, a[0])
    ex.oblige(st, 'vector length is not negative', ge(n, 0))
    vals = obj_vals(ex, st, t, a[2])
    fill(ex, st, a[0], t, m, vals)
    set_len(ex, st, a[0], n)
@pat(VEC + r'__assignv\(')
def v_assignv(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0])
    vals = obj_vals(ex, st, t, a[2])
    ex.oblige(st, 'vector length is not negative', ge(a[1], 0))
    fill(ex, st, a[0], t, 0, vals)
    set_len(ex, st, a[0], a[1])
@pat(VEC + r'__push\(')
def v_push(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0])
    n = vlen(ex, st, a[0])
    vals = obj_vals(ex, st, t, a[1])
    e = a[0].elem(n)
    for sub, o, l, pa in elem_leaves(ex, t):
        set_leaf(ex, st, e, sub, o, l, vals[(sub, o)])
    set_len(ex, st, a[0], add(n, 1))
    ex.event(st, 'push', a[0], n, vals)
@pat(VEC + r'__pop\(')
def v_pop(ex, st, g, a, I_):
    vprep(ex, st, g, a[0]); n = vlen(ex, st, a[0])
    ex.oblige(st, 'pop_back on a non-empty vector', gt(n, 0))
    set_len(ex, st, a[0], sub(n, 1))
@pat(VEC + r'__reserve\(')
def v_reserve(ex, st, g, a, I_):
    ex.oblige(st, 'reserved length is not negative', ge(a[1], 0))
@pat(VEC + r'__range\(')
def v_range(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0]); vprep(ex, st, g, a[1])
    b, e = a[2], a[3]
    n = vlen(ex, st, a[1])
    ex.oblige(st, 'range lies inside the vector', and_(ge(b, 0), le(b, e), le(e, n)))
    vals = [(sub, o, l, get_elems(ex, st, a[1], sub, o, l)) for sub, o, l, pa in elem_leaves(ex, t)]
    set_len(ex, st, a[0], simp(sub_i(e, b)))
    for su, o, l, v in vals:
        set_elems(ex, st, a[0], su, o, l, v if conc(b) and b == 0 else S().LamA(lambda *i, v=v: v.get((add(i[0], b),) + tuple(i[1:]))))
def sub_i(a, b):
    from smt import sub as _s
    return _s(a, b)
@pat(VEC + r'__append\(')
def v_append(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0]); vprep(ex, st, g, a[1])
    b, e = a[2], a[3]
    n = vlen(ex, st, a[1]); m = vlen(ex, st, a[0])
    ex.oblige(st, 'range lies inside the vector', and_(ge(b, 0), le(b, e), le(e, n)))
    for su, o, l, pa in elem_leaves(ex, t):
        v = get_elems(ex, st, a[1], su, o, l); old = get_elems(ex, st, a[0], su, o, l)
        set_elems(ex, st, a[0], su, o, l, S().LamA(lambda *i, v=v, old=old: S().vite(lt(i[0], m), old.get(i), v.get((add(sub_i(i[0], m), b),) + tuple(i[1:])))))
    set_len(ex, st, a[0], add(m, sub_i(e, b)))
@pat(VEC + r'__erase\(')
def v_erase(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0])
    b, e = a[1], a[2]
    n = vlen(ex, st, a[0])
    ex.oblige(st, 'range lies inside the vector', and_(ge(b, 0), le(b, e), le(e, n)))
    d = sub_i(e, b)
    for su, o, l, pa in elem_leaves(ex, t):
        old = get_elems(ex, st, a[0], su, o, l)
        set_elems(ex, st, a[0], su, o, l, S().LamA(lambda *i, old=old: S().vite(lt(i[0], b), old.get(i), old.get((add(i[0], d),) + tuple(i[1:])))))
    set_len(ex, st, a[0], sub_i(n, d))
@pat(VEC + r'__insertv\(')
def v_insert(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0])
    at = a[1]; n = vlen(ex, st, a[0])
    ex.oblige(st, 'insert position exists', and_(ge(at, 0), le(at, n)))
    vals = obj_vals(ex, st, t, a[2])
    for su, o, l, pa in elem_leaves(ex, t):
        old = get_elems(ex, st, a[0], su, o, l)
        nv = vals[(su, o)]
        if isinstance(nv, (S().Ptr, S().Null)): nv = toref(ex, nv)
        def f(*i, old=old, nv=nv, su=su):
            x = nv.get(i[1:]) if su else nv
            return S().vite(lt(i[0], at), old.get(i), S().vite(eqv(i[0], at), x, old.get((sub_i(i[0], 1),) + tuple(i[1:]))))
        set_elems(ex, st, a[0], su, o, l, S().LamA(f))
    set_len(ex, st, a[0], add(n, 1))
@pat(VEC + r'__raw\(')
def v_raw(ex, st, g, a, I_):
    t = vprep(ex, st, g, a[0])
    n = a[2]
    if not conc(n): raise S().Unsupported('initializer list of unknown length')
    esz = ex.p.di[t]['size']
    set_len(ex, st, a[0], int(n))
    for k in range(int(n)):
        vals = obj_vals(ex, st, t, a[1].at(k * esz))
        e = a[0].elem(k)
        for su, o, l, pa in elem_leaves(ex, t): set_leaf(ex, st, e, su, o, l, vals[(su, o)])
@pat(VEC + r'capacity\(')
def v_cap(ex, st, g, a, I_):
    c = ex.fresh('capacity', I); st.fact(ge(c, vlen(ex, st, a[0]))); return c

# ------------------------------------------------------------------ maps
MAP = r'^std::unordered_map<.*>::'
def mtype(ex, g, p):
    if '_mt' not in g:
        n = re.sub(r'\s+', '', g['dem'])
        c = n[:n.rindex('>::__') + 1]
        t = ex.p.cls(c)
        if t is None: raise S().Unsupported('map type ' + c)
        g['_mt'] = (t, ex.p.map_val(t), ex.p.strip(ex.p.di[t]['tparams'][0]))
    return g['_mt']
def mprep(ex, st, g, p):
    ex.check_ptr(st, p)
    return mtype(ex, g, p)
def mkeyval(ex, st, g, kp):
    t, v, k = g['_mt']
    return ex.load(st, kp, 'i%d' % (ex.p.di[k]['size'] * 8))
def has_key(p): return (p.root, p.steps + (p.off,), 'h')
def marr(ex, st, p):
    v = st.read(has_key(p))
    if v is None:
        dims = ex.dims(p.root, p.steps + (p.off,))
        v = ex.initial(st, has_key(p), 'i1', dims)
        st.write(has_key(p), v)
    return v
@pat(MAP + r'__init\(')
def m_init(ex, st, g, a, I_):
    mprep(ex, st, g, a[0])
    p = a[0]
    if p.idx: st.write(has_key(p), S().RowA(marr(ex, st, p), p.idx, lambda k: 0))
    else: st.write(has_key(p), S().ConstA(0))
@pat(MAP + r'__has\(')
def m_has(ex, st, g, a, I_):
    mprep(ex, st, g, a[0])
    k = mkeyval(ex, st, g, a[1])
    return i2b(marr(ex, st, a[0]).get(tuple(a[0].idx) + (k,)))
@pat(MAP + r'__add\(')
def m_add(ex, st, g, a, I_):
    mprep(ex, st, g, a[0])
    k = mkeyval(ex, st, g, a[1])
    st.write(has_key(a[0]), S().put(marr(ex, st, a[0]), tuple(a[0].idx) + (k,), 1))
    ex.store(st, a[0].elem(k), k)
@pat(MAP + r'__del\(')
def m_del(ex, st, g, a, I_):
    mprep(ex, st, g, a[0])
    k = mkeyval(ex, st, g, a[1])
    st.write(has_key(a[0]), S().put(marr(ex, st, a[0]), tuple(a[0].idx) + (k,), 0))
@pat(MAP + r'__slot\(')
def m_slot(ex, st, g, a, I_):
    mprep(ex, st, g, a[0])
    k = mkeyval(ex, st, g, a[1])
    e = a[2]
    ex.oblige(st, 'map entry exists', not_(ex.boolv(e)))
    return a[0].elem(k)
@pat(MAP + r'size\(')
def m_size(ex, st, g, a, I_):
    c = ex.fresh('mapsize', I); st.fact(c >= 0); return c

# ------------------------------------------------------------------ memory
def alloc(ex, st, t=None, root=None):
    root = root or ex.heap(t)
    k = ('ghost:next', (), root)        # numbers are given out class by class
    n = st.read(k)
    if n is None: n = ex.T0()
    st.write(k, add(n, 1))
    st.fact(ge(n, ex.T0())); st.fact(ex.T0() >= 1)
    return S().Ptr(root, (), (n,), 0)
@pat(r'^.*\*std::__verif_alloc<.*>\(\)$')
def h_alloc(ex, st, g, a, I_):
    n = re.sub(r'\s+', '', g['dem'])
    c = n[n.index('__verif_alloc<') + 14:-3]
    t = ex.p.cls(c)
    return alloc(ex, st, t, None if t is not None else 'heap:' + c)
@on('operator new(unsigned long)', 'operator new[](unsigned long)')
def h_new(ex, st, g, a, I_):
    f = st.frames[-1].f
    my = I_['id']
    for b in f['blocks']:
        for i in b['ins']:
            if i['op'] in ('call', 'invoke') and 'callee' in i and i['args'] and i['args'][0] == ['v', my]:
                gg = ex.p.fn.get(i['callee'])
                if gg:
                    m = re.match(r'^(.*)::[~A-Za-z0-9_]+\(', re.sub(r'\s+', '', gg['dem']))
                    if m:
                        t = ex.p.cls(m.group(1))
                        if t is None and gg['args']: pass
                        if t is not None: return alloc(ex, st, t)
    if not ex.kstack and conc(a[0]):
        # plain storage, allocated once: an object of its own
        root = 'a:' + ex.site('raw')
        st.mem[root] = {}
        return S().Ptr(root)
    return alloc(ex, st, root='heap:new.%s' % a[0])
@on('operator delete(void*)', 'operator delete[](void*)', 'operator delete(void*,unsigned long)', 'operator delete[](void*,unsigned long)')
def h_delete(ex, st, g, a, I_): return None
@pat(r'^llvm\.memcpy|^llvm\.memmove')
def h_memcpy(ex, st, g, a, I_):
    dst, src, n = a[0], a[1], a[2]
    if not conc(n): raise S().Unsupported('memcpy of unknown size')
    if dst is S().NULL or src is S().NULL or dst is S().UNDEF or src is S().UNDEF: raise S().Unsupported('memcpy of an unknown object')
    if src.root.startswith('g:'):
        gl = ex.p.globals.get(src.root[2:])
        for o, ty in gl.get('leaves', []):
            if src.off <= o < src.off + n:
                w = {'double': 8, 'float': 4, 'ptr': 8}.get(ty, 8)
                ex.store(st, dst.at(o - src.off), ex.const_at(gl['init'], o, ty, src.root[2:]))
        return
    if src.root.startswith('a:') and src.root not in ex.rtype and dst.root in ex.rtype and not src.idx:
        # type of the source from the destination
        t = ex.rtype[dst.root] if not dst.steps and dst.off == 0 else None
        if t is not None and ex.p.di[t]['size'] == n and src.off == 0 and not src.steps: ex.rtype[src.root] = t
    if src.root in ex.rtype and dst.root.startswith('a:') and dst.root not in ex.rtype and not src.steps and src.off == 0 and dst.off == 0 and ex.p.di[ex.rtype[src.root]]['size'] == n:
        ex.rtype[dst.root] = ex.rtype[src.root]
    ex.copy_obj(st, dst, src, n)
@pat(r'^llvm\.memset')
def h_memset(ex, st, g, a, I_):
    p, v, n = a[0], a[1], a[2]
    if not (conc(v) and v == 0 and conc(n)): raise S().Unsupported('memset')
    t = ex.rtype.get(p.root) if not p.steps else ex.etype.get((p.root, p.steps))
    if t is None:
        for o in range(0, n, 8): ex.store(st, p.at(o), 0)
        return
    for sub, o, l, pa in ex.p.flat(t):
        oo = o if not isinstance(o, tuple) else o[0]
        if sub or isinstance(o, tuple) or o == 'h': continue
        if p.off <= oo < p.off + n:
            ex.store(st, S().Ptr(p.root, p.steps, p.idx, o), S().NULL if l[0] == 'ptr' else zero_of(l))

# ------------------------------------------------------------------ mathematics
def num(ex, st, v): return ex.num(ex.finite(st, v))
@on('sin')
def h_sin(ex, st, g, a, I_):
    x = num(ex, st, a[0])
    return Fraction(0) if conc(x) and x == 0 else SIN(zr(x))
@on('cos')
def h_cos(ex, st, g, a, I_):
    x = num(ex, st, a[0])
    return Fraction(1) if conc(x) and x == 0 else COS(zr(x))
@on('sqrt')
def h_sqrt(ex, st, g, a, I_):
    x = num(ex, st, a[0])
    ex.oblige(st, 'square root of a non-negative number', ge(x, Fraction(0)))
    return sq(x)
def sq(x):
    if conc(x):
        import math
        n, d = Fraction(x).numerator, Fraction(x).denominator
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return Fraction(math.isqrt(n), math.isqrt(d))
    return SQRT(zr(normal_safe(x)))
def normal_safe(x):
    try: return normal(x) if not ite_conds(z(x)) else x
    except TooBig: return x
@on('hypot')
def h_hypot(ex, st, g, a, I_):
    x, y = num(ex, st, a[0]), num(ex, st, a[1])
    return sq(add(mul(x, x), mul(y, y)))
@on('atan2')
def h_atan2(ex, st, g, a, I_): return ATAN2(zr(num(ex, st, a[0])), zr(num(ex, st, a[1])))
@on('exp')
def h_exp(ex, st, g, a, I_):
    x = num(ex, st, a[0])
    return Fraction(1) if conc(x) and x == 0 else EXP(zr(x))
@on('log')
def h_log(ex, st, g, a, I_):
    x = num(ex, st, a[0]); ex.oblige(st, 'logarithm of a positive number', gt(x, Fraction(0)))
    return LOGF(zr(x))
@on('pow')
def h_pow(ex, st, g, a, I_):
    x, n = num(ex, st, a[0]), a[1]
    if conc(n) and n == int(n) and 0 <= n <= 6:
        r = Fraction(1)
        for _ in range(int(n)): r = mul(r, x)
        return r
    raise S().Unsupported('pow')
def floor_(x):
    if conc(x): return Fraction(int(x // 1))
    t = z3.simplify(x)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return t
    return zr(FLOOR(normal_safe(x)))
@pat(r'^llvm\.floor|^floor$')
def h_floor(ex, st, g, a, I_): return floor_(num(ex, st, a[0]))
@pat(r'^llvm\.ceil|^ceil$')
def h_ceil(ex, st, g, a, I_):
    x = num(ex, st, a[0])
    return sub_i(Fraction(0), floor_(sub_i(Fraction(0), x)))
@pat(r'^llvm\.round|^round$')
def h_round(ex, st, g, a, I_):
    x = num(ex, st, a[0]); h = Fraction(1, 2)
    return ite(ge(x, Fraction(0)), floor_(add(x, h)), sub_i(Fraction(0), floor_(add(sub_i(Fraction(0), x), h))))
@on('lround')
def h_lround(ex, st, g, a, I_):
    return ex.trunc(st, h_round(ex, st, g, a, I_))
@pat(r'^llvm\.trunc|^trunc$')
def h_truncf(ex, st, g, a, I_): return zr(ex.trunc(st, num(ex, st, a[0])))
@pat(r'^llvm\.fabs')
def h_fabs(ex, st, g, a, I_):
    v = a[0]
    if isinstance(v, S().Ext): return S().Ext(ite(eqv(v.kind, 2), 1, v.kind), ite(ge(v.val, Fraction(0)), v.val, sub_i(Fraction(0), v.val)))
    return fabs_(num(ex, st, v))
def fabs_(x):
    """absolute value; that of a normalized angle does not depend on its sign"""
    if isz(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
        c, p, q = x.children()
        if any(z3.is_app(t) and (t.decl().eq(NORM) or t.decl().eq(ATAN2)) for t in subterms([x])):
            if z3.is_eq(c) and p.eq(PI) and any(k.eq(PI) for k in c.children()):
                b = [k for k in c.children() if not k.eq(PI)]
                if b and z3.is_app(b[0]) and (b[0].decl().eq(NORM) or b[0].decl().eq(ATAN2)) and poly_eq(zr(add(b[0], back(q))) == zr(Fraction(0))): return fabs_(b[0])
            u, w = fabs_(back(p)), fabs_(back(q))
            return u if same(z(u), z(w)) else ite(back(c), u, w)
    if isz(x) and x.sort() == R:
        try: n, d = poly(x)
        except TooBig: n, d = None, None
        if d == P1 and len(n) <= 2:
            pk = ((ATOMS.of(PI), 1),)
            o = [m for m in n if m != pk]
            if len(o) == 1 and len(o[0]) == 1 and o[0][0][1] == 1 and abs(n[o[0]]) == 1:
                b = ATOMS.keep[o[0][0][0]]
                if z3.is_app(b) and (b.decl().eq(NORM) or b.decl().eq(ATAN2)):
                    if n.get(pk) == 1: return x
                    if n.get(pk) == -1: return sub_i(Fraction(0), x)
                    if pk not in n: return ite(ge(b, Fraction(0)), b, sub_i(Fraction(0), b))
    return ite(ge(x, Fraction(0)), x, sub_i(Fraction(0), x))
@pat(r'^llvm\.abs')
def h_abs(ex, st, g, a, I_):
    x = a[0]
    return ite(ge(x, 0), x, sub_i(0, x))
@pat(r'^llvm\.(max|min)num|^fmax$|^fmin$|^llvm\.(smax|smin|umax|umin)')
def h_fminmax(ex, st, g, a, I_):
    n = g['dem'] if g else I_['callee']
    x, y = (num(ex, st, a[0]), num(ex, st, a[1]))
    return ite(ge(x, y), x, y) if 'max' in n else ite(le(x, y), x, y)
@pat(r'^llvm\.is\.fpclass')
def h_fpclass(ex, st, g, a, I_):
    v, m = a[0], a[1]
    if not isinstance(v, S().Ext): v = S().Ext(0, v)
    c = False
    if m & 3: c = or_(c, eqv(v.kind, 3))
    if m & 512: c = or_(c, eqv(v.kind, 1))
    if m & 4: c = or_(c, eqv(v.kind, 2))
    fin = m & 0x1f8
    if fin == 0x1f8: c = or_(c, eqv(v.kind, 0))
    elif fin == 0x108: c = or_(c, and_(eqv(v.kind, 0), not_(eqv(v.val, Fraction(0)))))
    elif fin: raise S().Unsupported('fpclass mask')
    return c
@pat(r'^llvm\.fmuladd')
def h_fma(ex, st, g, a, I_):
    x = [num(ex, st, v) for v in a[:3]]
    return add(mul(x[0], x[1]), x[2])
@pat(r'^llvm\.eh\.typeid')
def h_typeid(ex, st, g, a, I_): return 1
@on('__cxa_begin_catch', '__cxa_end_catch', '__cxa_allocate_exception', '__cxa_free_exception')
def h_catch(ex, st, g, a, I_): return S().NULL
@on('std::terminate()')
def h_terminate(ex, st, g, a, I_): return [], []
@on('angles::__verif_normalize_angle(double)')
def h_norm(ex, st, g, a, I_):
    return norm_angle(num(ex, st, a[0]))
def norm_angle(x):
    """normalize_angle in canonical form: whole half turns and the sign are taken out"""
    if conc(x): x = Fraction(x); x0 = zr(x)
    else: x0 = zr(x)
    try: n, d = poly(x0)
    except TooBig: return NORM(x0)
    if d != P1 or len(n) > 24: return NORM(zr(normal_safe(x)))
    pk = ((ATOMS.of(PI), 1),)
    q = n.get(pk, Fraction(0))
    turns = Fraction(math.floor(q))
    rest = dict(n)
    if q - turns: rest[pk] = q - turns
    else: rest.pop(pk, None)
    half = int(turns) % 2
    if not rest: base = Fraction(0)
    else:
        lead = rest[min(rest)]
        if lead < 0 and set(rest) != {pk}:
            b = norm_angle(p_term(p_scale(rest, -1)))
            if half: return ite(ge(b, Fraction(0)), sub_i(PI, b), sub_i(sub_i(Fraction(0), PI), b))
            base = ite(eqv(b, PI), PI, sub_i(Fraction(0), b))
        elif set(rest) == {pk}: base = mul(rest[pk], PI)
        else: base = NORM(p_term(rest))
    if isz(base) and z3.is_app(base) and base.decl().eq(NORM):
        x1 = base.arg(0)                # already in (-pi, pi]
        if z3.is_app(x1) and (x1.decl().eq(NORM) or x1.decl().eq(ATAN2)): base = x1
    if not half: return base
    return ite(gt(base, Fraction(0)), sub_i(base, PI), add(base, PI))

def h_minmax(ex, st, g, a, I_):
    d = g['dem']
    ty = {'d': 'double', 'f': 'float', 'i': 'i32', 'u': 'i32' if 'int' in d.split(' const')[0] else 'i64', 'l': 'i64'}[d[0]]
    x, y = ex.load(st, a[0], ty), ex.load(st, a[1], ty)
    # min(x, y): y if y < x, else x;  max(x, y): y if x < y, else x
    c = lt(y, x) if 'std::min<' in d else lt(x, y)
    if isinstance(x, S().Ext) or isinstance(y, S().Ext): raise S().Unsupported('minimum of raw readings')
    root = 'a:mm!%d' % next(ex.n)
    st.mem[root] = {}
    st.frames[-1].allocas = st.frames[-1].allocas + (root,)
    q = S().Ptr(root)
    ex.store(st, q, ite(c, y, x), ty)
    return q

# ------------------------------------------------------------------ random draws
@pat(r'^.*std::__verif_normal<')
def h_normal(ex, st, g, a, I_):
    m, sd = num(ex, st, a[0]), num(ex, st, a[1])
    ex.oblige(st, 'standard deviation is not negative', ge(sd, Fraction(0)))
    zz = ex.fresh('gauss', R)
    ex.event(st, 'normal', m, sd, zz)
    return add(m, mul(sd, zz))
@pat(r'^.*std::discrete_distribution<.*>::__draw\(\)')
def h_draw(ex, st, g, a, I_):
    # the weights are copied into the distribution: a vector of doubles at its start
    V = a[0]
    key = (V.root, V.steps + (V.off,), 0)
    n = vlen(ex, st, V)
    w = get_leaf(ex, st, V, (0,), 0, ('real', 8))
    at = lambda j: to_r(w.get((j,)))
    k = z3.Int('dk!%d' % next(ex.n))
    ex.oblige(st, 'weights of a draw are not negative', implies(and_(k >= 0, lt(k, n)), ge(at(k), 0)), [k])
    ex.oblige(st, 'weights of a draw are not all zero', gt(SUMS.make(n, at), 0))
    r = ex.fresh('draw', I)
    st.fact(and_(ge(r, 0), lt(r, n)))
    if st is not None: st.fact(gt(at(r), 0))
    ex.event(st, 'draw', r, n)
    return r
@pat(r'^.*std::__verif_uniform<')
def h_uniform(ex, st, g, a, I_):
    x = ex.fresh('uniform', R)
    st.fact(le(a[0], x)); st.fact(implies(lt(a[0], a[1]), lt(x, a[1])))
    return x
@on('std::random_device::operator()()')
def h_rd(ex, st, g, a, I_):
    x = ex.fresh('seed', I); st.fact(x >= 0); return x

# ------------------------------------------------------------------ strings
STRS = {'': 0}
@on('std::__verif_lit(char const*)')
def h_lit(ex, st, g, a, I_):
    p = a[0]
    if not (isinstance(p, S().Ptr) and p.root.startswith('g:')): raise S().Unsupported('string that is not a literal')
    init = ex.p.globals[p.root[2:]]['init']
    t = '' if init[0] == 'zero' else init[1].rstrip('\x00')
    return STRS.setdefault(t, len(STRS))
CAT = z3.Function('strcat', I, I, I)
@on('std::__verif_cat(unsigned long,unsigned long)')
def h_cat(ex, st, g, a, I_): return CAT(zi(a[0]), zi(a[1]))
@pat(r'^std::__verif_num')
def h_num(ex, st, g, a, I_): return z3.Function('numstr', R, I)(zr(a[0]))

# ------------------------------------------------------------------ locks
def mkey(p): return ('ghost:lock', (p.root,) + tuple(p.steps), p.off)
@on('std::mutex::lock()')
def h_lock(ex, st, g, a, I_):
    ex.check_ptr(st, a[0])
    return ex.on_lock(st, a[0])
@on('std::mutex::unlock()')
def h_unlock(ex, st, g, a, I_):
    ex.check_ptr(st, a[0])
    return ex.on_unlock(st, a[0])

# ------------------------------------------------------------------ linear algebra
@pat(r'^voidEigen::__verif_llt<3>')
def h_llt(ex, st, g, a, I_):
    """lower triangular L with L L^T = A for positive definite A (column major)"""
    n = 3
    A = [[ex.load(st, a[0].at(8 * (j * n + i)), 'double') for j in range(n)] for i in range(n)]
    Lm = [[Fraction(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1): Lm[i][j] = ex.fresh('chol%d%d' % (i, j), R)
    pd = pos_def3(A)
    for i in range(n):
        for j in range(i + 1):
            t = Fraction(0)
            for k in range(j + 1): t = add(t, mul(Lm[i][k], Lm[j][k]))
            st.fact(implies(pd, eqv(t, A[i][j])))
        st.fact(implies(pd, gt(Lm[i][i], Fraction(0))))
    for i in range(n):
        for j in range(n): ex.store(st, a[1].at(8 * (j * n + i)), Lm[i][j])
def pos_def3(A):
    m1 = A[0][0]
    m2 = sub_i(mul(A[0][0], A[1][1]), mul(A[1][0], A[0][1]))
    m3 = add(sub_i(mul(A[0][0], sub_i(mul(A[1][1], A[2][2]), mul(A[1][2], A[2][1]))), mul(A[0][1], sub_i(mul(A[1][0], A[2][2]), mul(A[1][2], A[2][0])))),
             mul(A[0][2], sub_i(mul(A[1][0], A[2][1]), mul(A[1][1], A[2][0]))))
    sy = and_(*[eqv(A[i][j], A[j][i]) for i in range(3) for j in range(i)])
    return and_(sy, gt(m1, Fraction(0)), gt(m2, Fraction(0)), gt(m3, Fraction(0)))
def eigs(a, b, d):
    return EIGLO(zr(a), zr(b), zr(d)), EIGHI(zr(a), zr(b), zr(d))
@pat(r'^voidEigen::__verif_eigenvalues(_sorted)?<2>')
def h_eig(ex, st, g, a, I_):
    """both eigenvalues of a symmetric matrix (they are real)"""
    m = [[ex.load(st, a[0].at(8 * (j * 2 + i)), 'double') for j in range(2)] for i in range(2)]
    ex.oblige(st, 'eigenvalues are taken of a symmetric matrix', eqv(m[0][1], m[1][0]))
    lo, hi = eigs(m[0][0], m[0][1], m[1][1])
    if 'sorted' in g['dem']: e = [lo, hi]
    else:
        sw = ex.fresh('eigorder', B)
        e = [ite(sw, lo, hi), ite(sw, hi, lo)]
    for k in range(2): ex.store(st, a[1].at(8 * k), e[k])
# ------------------------------------------------------------------ nanoflann
@pat(r'^voidnanoflann::__verif_search<')
def nf_search(ex, st, g, a, I_):
    """the contract of KDTreeSingleIndexAdaptor::radiusSearch"""
    X = S()
    n = re.sub(r'\s+', '', g['dem'])
    L1 = 'L1_Adaptor' in n[:n.index('(')].split(',')[0]
    xs, ys, q, r2, srt, out = a
    nx = vlen(ex, st, xs)
    dbl = ('float', 64, True)
    k = len(ex.searches)
    ax, ay = [get_elems(ex, st, v, *elem_leaves(ex, ex.etype[(v.root, v.steps + (v.off,))])[0][:3]) for v in (xs, ys)]
    qx, qy = ex.num(ex.load(st, q, 'double')), ex.num(ex.load(st, q.at(8), 'double'))
    nm = lambda w: '%s!s%d' % (w, k)
    N = z3.Int(nm('matches')); m = z3.Function(nm('match'), I, I); inv = z3.Function(nm('where'), I, I); d = z3.Function(nm('dist'), I, R)
    def dist(i):
        ex_, ey_ = sub(ax.get((i,)), qx), sub(ay.get((i,)), qy)
        if L1: return add(ite(ge(ex_, 0), ex_, neg(ex_)), ite(ge(ey_, 0), ey_, neg(ey_)))
        return add(mul(ex_, ex_), mul(ey_, ey_))
    r2 = ex.num(r2)
    i = z3.Int(nm('i'))
    st.fact(and_(N >= 0, le(N, nx)))
    rng = and_(i >= 0, i < N)
    st.qfact(QFact([i], rng, and_(m(i) >= 0, lt(m(i), nx), lt(dist(m(i)), r2), eqv(inv(m(i)), i)), 'search: every match is near'))
    st.qfact(QFact([i], and_(i >= 0, lt(i, nx), lt(dist(i), r2)), and_(inv(i) >= 0, inv(i) < N, m(inv(i)) == i), 'search: everything near is a match'))
    set_len(ex, st, out, N)
    ls = elem_leaves(ex, ex.etype[(out.root, out.steps + (out.off,))])
    for sub_, o, l, pa in ls:
        if pa.endswith('first'): set_elems(ex, st, out, sub_, o, l, X.LamA(lambda j: m(zi(j))))
        elif pa.endswith('second'): set_elems(ex, st, out, sub_, o, l, X.LamA(lambda j: dist(m(zi(j)))))
    ex.searches.append((N, m, inv, dist))

# ------------------------------------------------------------------ messages
@pat(r'^unsignedlongrclcpp::__verif_ref<')
def ser_ref(ex, st, g, a, I_):
    ex.check_ptr(st, a[0])
    return toref(ex, a[0])
@pat(r'^.*rclcpp::__verif_obj<.*>\(unsignedlong\)$')
def ser_obj(ex, st, g, a, I_):
    n = re.sub(r'\s+', '', g['dem'])
    q = 'rclcpp::__verif_stored<' + n[n.index('__verif_obj<') + 12:n.rindex('>(')] + '>'
    t = ex.p.cls(q)
    if t is None: raise S().Unsupported('class ' + q)
    return S().Ptr(ex.heap(t), (), (a[0],), 0)
