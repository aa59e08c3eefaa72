"""Loops, for every number of iterations.

The body is executed once, symbolically, with every cell it modifies replaced by an
unknown function of the iteration number k.  The resulting step equations are solved:
closed forms (affine, finite sum, written once, overwritten) where they exist, and
otherwise the unknown function is kept together with facts proved by induction
(the step equation itself, last update, monotonicity, bounds)."""
import os
from sx import *
import sx, smt

class Comp:
    """one number that changes from iteration to iteration"""
    def __init__(s, cell, pos, sort, fn, name):
        s.cell, s.pos, s.sort, s.fn, s.name = cell, pos, sort, fn, name
        s.cf = None         # (k term, idx terms) -> term
        s.hist = False
        s.N = None          # value after the iteration, a term over K and IDX
        s.init = None
        s.monos = []
class Cell:
    def __init__(s, key, dims, arr):
        s.key, s.dims, s.arr = key, dims, arr
        s.comps = []
        s.tmpl = None       # value template for pointers / extended reals
        s.dead = False

def comps_of(v):
    if isinstance(v, Ptr): return [x for x in v.idx]
    if isinstance(v, Ext): return [v.kind, v.val]
    if v is NULL: return [0]
    return [v]
def rebuild(tmpl, cs):
    if isinstance(tmpl, Ptr): return Ptr(tmpl.root, tmpl.steps, cs, tmpl.off)
    if isinstance(tmpl, Ext): return Ext(cs[0], cs[1])
    return cs[0]

class LoopMixin:
    # -------------------------------------------------------------- driver
    def exec_loop(s, f, loop, sts):
        if len(sts) > 1: sts = s.merge(sts)
        exits, rets, throws = [], [], []
        for st in sts:
            r = s.unroll(f, loop, st)
            if r is None: r = s.symloop(f, loop, st)
            exits += r[0]; rets += r[1]; throws += r[2]
        # join the exits that go to the same place
        by = {}
        for tgt, frm, t in exits: by.setdefault(tgt, []).append((frm, t))
        out = []
        for tgt, l in by.items():
            ts = [t for _, t in l]
            if len(ts) > s.lim(): ts = s.merge(ts)
            out += [(tgt, None, t) for t in ts]
        if len(rets) > s.lim() and len(rets) > 1: rets = s.merge_rets(rets)
        return out, rets, throws

    def unroll(s, f, loop, st):
        h = loop['header']
        blocks = set(loop['blocks'])
        hcond = any(b not in blocks for b in f['succs'][h])
        mark, seen = len(s.obls), dict(s.trusted_map) if hasattr(s, 'trusted_map') else None
        cur = [st.copy()]
        exits, rets, throws = [], [], []
        for n in range(s.maxunroll + 1):
            if not hcond and n >= 4: break
            # the header alone first: undecided means symbolic treatment
            if hcond and not s.header_decided(f, h, blocks, cur): break
            s.unrolls.append(n)
            try: l, e, r, t = s.region(f, h, [(None, x) for x in cur], blocks, True)
            finally: s.unrolls.pop()
            exits += e; rets += r; throws += t
            if not l: return exits, rets, throws
            cur = l if len(l) <= s.lim() else s.merge(l)
        del s.obls[mark:]
        return None
    def header_decided(s, f, h, blocks, cur):
        save, s.checking = s.checking, False
        try:
            for x in cur:
                e, r, t = s.block(f, h, x.copy())
                ins = sum(1 for tgt, _ in e if tgt in blocks); outs = len(e) - ins
                if ins and outs: return False
        finally: s.checking = save
        return True

    # -------------------------------------------------------------- symbolic
    def symloop(s, f, loop, st0):
        h, blocks = loop['header'], set(loop['blocks'])
        if any(i['op'] == 'phi' for i in f['bmap'][h]['ins']): raise Unsupported('loop header with phi')
        lid = s.siteid.setdefault(('loop', st0.frames[-1].path, h, tuple(s.unrolls)), len(s.siteid))
        L = LoopRun(s, f, h, blocks, st0, lid)
        return L.solve()

class LoopRun:
    def __init__(s, ex, f, h, blocks, st0, lid):
        s.ex, s.f, s.h, s.blocks, s.st0, s.lid = ex, f, h, blocks, st0, lid
        s.K = z3.Int('k!L%d' % lid)
        s.cells = {}
        s.bytab = {}        # function name -> Comp
        s.inv = []          # proved invariants: functions of a k term -> z3 Bool
        s.outer = list(ex.kstack)
        s.IDX = [z3.Int('i!L%d.%d' % (lid, n)) for n in range(4)]
        # loops that run often, or cost much, are settled with fewer passes over the body
        inner = [l for b, l in f['lmap'].items() if b != h and b in blocks]
        s.quick = bool(s.outer) or any(b2 != l['header'] and b2 in set(l['blocks']) for l in inner for b2 in f['lmap'])

    # ---- cells
    def mkfn(s, name, dims, sort):
        n = len(s.outer) + 1 + dims
        fd = z3.Function(name, *([I] * n + [sort]))
        return fd
    def fdapp(s, c, kt, idx=()):
        return c.fn(*([zi(x) for x in s.outer] + [zi(kt)] + [zi(x) for x in idx]))
    def add_cell(s, key, hv, lv, dims):
        arr = dims > 0
        c = Cell(key, dims, arr)
        lf = s.ex.leaf(*key)
        nm = 'L%d.%s%s' % (s.lid, ('a' + str(s.ex.siteid.setdefault(key[0], len(s.ex.siteid)))) if key[0].startswith('a:') else key[0].replace('heap:', '').replace('o:', ''), lf[1] if lf and lf[1] else '%s@%s' % (list(key[1]) or '', key[2]))
        idx = s.IDX[:dims]
        iv = hv.get(idx) if arr and isinstance(hv, Arr) else hv
        nv = lv.get(idx) if arr and isinstance(lv, Arr) else lv
        a, b = iv, nv
        if isinstance(a, Ext) or isinstance(b, Ext):
            if not isinstance(a, Ext) and a is not UNDEF: a = Ext(0, a)
            if not isinstance(b, Ext) and b is not UNDEF: b = Ext(0, b)
        tm = b if a is UNDEF or a is None else a
        if a is NULL and isinstance(b, Ptr): tm = b
        c.tmpl = tm
        bad = isinstance(tm, (Agg, FnP, VTab, VSlot))
        if isinstance(tm, Ptr):
            for x in (a, b):
                if isinstance(x, Ptr) and x.shape() != tm.shape(): bad = True
                if x is NULL and not (tm.root.startswith('heap:') and not tm.steps and tm.off == 0): bad = True
        c.last_lv = lv
        if bad:
            c.dead = True; s.cells[key] = c; return
        ca = comps_of(a) if a is not UNDEF and a is not None else None
        cb = comps_of(b)
        for p, y in enumerate(cb):
            srt = sort_of(y)
            if ca is not None and sort_of(ca[p]) == R: srt = R
            name = '%s.%d' % (nm, p)
            k = Comp(c, p, srt, s.mkfn(name, dims, srt), name)
            if ca is not None and isinstance(tm, Ptr) and not arr and same(z(ca[p]), z(y)): pass
            c.comps.append(k)
            s.bytab[name] = k
        s.cells[key] = c
        s.set_init(c)
    def set_init(s, c):
        hv = s.entry_value(c)
        idx = s.IDX[:c.dims]
        v = hv.get(idx) if isinstance(hv, Arr) else hv
        if isinstance(c.tmpl, Ext) and not isinstance(v, Ext) and v is not UNDEF and v is not None: v = Ext(0, v)
        for p, k in enumerate(c.comps):
            k.init = None if v is UNDEF or v is None else comps_of(v)[p]
    def entry_value(s, c):
        v = s.st0.read(c.key)
        if v is None:
            v = s.ex.initial(s.st0, c.key, None, c.dims)
            if v is None: v = UNDEF
        return v
    def comp_at(s, c, kt, idx=()):
        if c.cf is not None: return c.cf(kt, idx)
        return s.fdapp(c, kt, idx)
    def cell_at(s, c, kt):
        if c.dead: return UNDEF
        if not c.arr: return rebuild(c.tmpl, [s.comp_at(x, kt) for x in c.comps])
        return LamA(lambda *idx: rebuild(c.tmpl, [s.comp_at(x, kt, idx) for x in c.comps]))

    # ---- running the body
    def run(s, kt, checking, facts=(), qfacts=(), header=False):
        ex = s.ex
        H = s.st0.copy()
        for key, c in s.cells.items(): H.write(key, s.cell_at(c, kt))
        if isz(kt): H.pc.append(('f', zi(kt) >= 0))
        for fct in facts:
            if isz(fct): H.pc.append(('f', fct))
        for q in qfacts: H.pc.append(('q', q))
        for iv in s.inv:
            t = iv(kt)
            if isz(t): H.pc.append(('f', t))
        ex.ranges_k(kt)
        save = (ex.checking, ex.inloop)
        ex.checking = checking and ex.checking
        ex.inloop += 1
        ex.kstack.append(zi(kt))
        mark = len(H.pc)
        H0 = H.copy()
        try:
            if header:
                e, r, t = ex.block(s.f, s.h, H)
                l, e = None, [(tgt, s.h, x) for tgt, x in e if tgt not in s.blocks]
                for tgt, _, x in e: ex.phis(s.f, s.h, tgt, x)
            else: l, e, r, t = ex.region(s.f, s.h, [(None, H)], s.blocks, True)
        finally:
            ex.kstack.pop()
            ex.checking, ex.inloop = save
        return H0, mark, l, e, r, t

    def discover(s):
        """run the body until the set of modified cells is known"""
        ex = s.ex
        for _ in range(12):
            H, mark, l, e, r, t = s.run(s.K, False)
            if not l: return H, mark, None, e, r, t
            if len(l) > 1: l = ex.merge(l)
            if len(l) > 1: raise Unsupported('loop body whose paths cannot be joined')
            l = l[0]
            new = False
            for key in list(l.keys()):
                root = key[0]
                if root.startswith('a:') and root not in s.st0.mem: continue
                lv = l.read(key)
                hv = H.read(key)
                dims = ex.dims(root, key[1])
                if hv is None:
                    hv = ex.initial(H, key, None, dims)
                    if hv is None: hv = UNDEF
                c = s.cells.get(key)
                if c is not None: continue
                if vsame(lv, hv) or lv is UNDEF and not (hv is not UNDEF): continue
                if dims > 0 and isinstance(lv, Arr) and isinstance(hv, Arr):
                    x, y = lv.get(s.IDX[:dims]), hv.get(s.IDX[:dims])
                    if vsame(x, y): continue
                s.add_cell(key, hv, lv, dims)
                new = True
            if l.epoch != H.epoch: raise Unsupported('a loop that gives up and retakes a lock')
            if not new: return H, mark, l, e, r, t
        raise Unsupported('modified cells of a loop do not settle')

    def newvals(s, H, l):
        """step values of the cells that are still unknown functions"""
        for key, c in s.cells.items():
            if c.dead: continue
            lv = l.read(key)
            idx = s.IDX[:c.dims]
            v = lv.get(idx) if c.arr and isinstance(lv, Arr) else lv
            if v is UNDEF or v is None:
                for x in c.comps: x.N = None
                continue
            if isinstance(c.tmpl, Ext) and not isinstance(v, Ext): v = Ext(0, v)
            if isinstance(c.tmpl, Ptr) and isinstance(v, Ptr) and v.shape() != c.tmpl.shape() or isinstance(v, (Agg, FnP, VTab, VSlot)):
                c.dead = True; s.dirty = True; continue
            if isinstance(v, Ptr) and not isinstance(c.tmpl, Ptr):
                if v.root.startswith('heap:') and not v.steps and v.off == 0: v = v.idx[0]
                else: c.dead = True; s.dirty = True; continue
            for x, y in zip(c.comps, comps_of(v)):
                if x.sort == R and sort_of(y) == I: y = zr(y) if isz(y) else Fraction(y)
                if x.sort == I and sort_of(y) == R:
                    # the cell turns out to hold reals
                    x.sort = R; x.fn = s.mkfn(x.name + 'r', c.dims, R); s.bytab[x.name + 'r'] = x; x.name += 'r'; s.dirty = True
                if x.sort == B and sort_of(y) == I: y = i2b(y)
                x.N = s.localise(x, y)
    def localise(s, x, e):
        """under i == a, X(k, a) is X(k, i)"""
        if not x.cell.arr or conc(e) or x.name not in rename_syms(e): return e
        idx = s.IDX[:x.cell.dims]
        me = s.fdapp(x, s.K, idx)
        def go(t, eqs):
            if not z3.is_app(t) or t.num_args() == 0: return t
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c = t.arg(0)
                ne = list(eqs)
                for q in conjuncts(c):
                    if isz(q) and z3.is_eq(q) and q.arg(0).sort() == I: ne.append((q.arg(0), q.arg(1))); ne.append((q.arg(1), q.arg(0)))
                return z3.If(go(c, eqs), go(t.arg(1), ne), go(t.arg(2), eqs))
            if z3.is_and(t):
                out = []
                for n, c in enumerate(t.children()):
                    ne = list(eqs)
                    for m, q in enumerate(t.children()):
                        if m != n and z3.is_eq(q) and q.arg(0).sort() == I: ne.append((q.arg(0), q.arg(1))); ne.append((q.arg(1), q.arg(0)))
                    out.append(go(c, ne))
                return z3.And(*out)
            if t.decl().name() == x.name:
                args = t.children()[len(s.outer) + 1:]
                ok = True
                for a, i in zip(args, idx):
                    if a.eq(i): continue
                    if any(p.eq(i) and q.eq(a) for p, q in eqs): continue
                    ok = False
                if ok: return me
            ch = kids(t)
            cs = [go(c, eqs) if z3.is_app(c) and x.name in rename_syms(c) else c for c, _ in ch]
            if all(a is b or a.eq(b) for a, (b, _) in zip(cs, ch)): return t
            k = t.decl().kind()
            return nary(t, cs) if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else t.decl()(*cs)
        return back(go(e, []))

    # ---- rewriting with closed forms
    def rw(s, e):
        if conc(e): return e
        tab = {n: c for n, c in s.bytab.items() if c.cf is not None}
        if not tab: return e
        no = len(s.outer)
        memo = {}
        def go(t):
            i = t.get_id()
            if i in memo: return memo[i][0]
            if not z3.is_app(t) or t.num_args() == 0: r = t
            else:
                ch = kids(t, i)
                cs = [go(c) for c, _ in ch]
                n = t.decl().name()
                c = tab.get(n)
                if c is not None and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r = z(c.cf(back(cs[no]), tuple(cs[no + 1:])))
                    if c.sort == R: r = zr(r) if r.sort() == I else r
                elif SUMS.is_sum(t):
                    tm, holes = SUMS.info[n]
                    if any(z3.is_app(q) and q.decl().name() in tab for q in subterms([tm])):
                        j = z3.Int('j!%d' % uid())
                        body = SUMS.body(t, j)
                        r = zr(SUMS.over(cs[0], j, go(z(body))))
                    else: r = t.decl()(*cs)
                elif all(a is b or a.eq(b) for a, (b, _) in zip(cs, ch)): r = t
                else:
                    k = t.decl().kind()
                    r = nary(t, cs) if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else t.decl()(*cs)
            memo[i] = (r, t)
            return r
        return back(go(e))
    def deps(s, e):
        """names of the unknown functions occurring in e (also inside sums)"""
        out = set()
        if conc(e): return out
        for n in rename_syms(e):
            if n in s.bytab: out.add(n)
            elif n in SUMS.info:
                for q in rename_syms(SUMS.info[n][0]):
                    if q in s.bytab: out.add(q)
        return out
    def link(s, l, mark):
        """functions of inner loops whose defining facts mention cells of this loop (the value before)"""
        s.linked = {}
        G, F, Q = s.suffix(l, mark)
        for q in F + [q.body for q in Q]:
            if not isz(q): continue
            mine, inner = set(), set()
            for t in subterms([q]):
                if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = t.decl().name()
                    if n in s.bytab: mine.add(n)
                    elif n[0] == 'L' and n[1:2].isdigit(): inner.add(n)
            if mine:
                for n in inner: s.linked.setdefault(n, set()).update(mine)
    def hidden(s, e):
        if conc(e): return set()
        out = set()
        if not s.linked: return out
        for n in rename_syms(e):
            if n in s.linked: out |= s.linked[n]
        return out
    linked = {}
    def at(s, e, kt, idx=(), dims=0):
        """e with K := kt, IDX := idx"""
        if conc(e): return e
        prs = [(s.K, zi(kt))] + [(i, zi(x)) for i, x in zip(s.IDX, idx)]
        return back(z3.substitute(e, *prs))
    def close(s, x, expr, kind):
        """expr over K and IDX"""
        x.kind = kind
        def cf(kt, idx=()): return s.at(expr, kt, idx)
        x.cf = cf

    def solve_comp(s, x, allow):
        """try to close x; allow = names that may occur"""
        N = s.rw(x.N) if x.N is not None else None
        if N is None: return False
        if s.clamped and isz(N): N = s.under(N)
        x.N = N
        me = s.fdapp(x, s.K, s.IDX[:x.cell.dims])
        d = s.deps(N)
        bad = [n for n in d if n != x.name and s.bytab[n].cf is None and not s.bytab[n].hist]
        init = x.init
        if isz(N) and N.eq(me):
            if init is None: return False
            s.close(x, z(init), 'unchanged'); return True
        if bad: return False
        if x.name in s.hidden(N): return False
        if x.name not in d:
            # overwritten in every iteration
            if x.cell.arr:
                if not any(occurs(N, i) for i in s.IDX[:x.cell.dims]) or init is None or True:
                    prev = s.at(N, sub(s.K, 1), s.IDX[:x.cell.dims])
                    s.close(x, z(ite(eqv(s.K, 0), init, prev)) if init is not None else z(prev), 'overwritten')
                    return True
            prev = s.at(N, sub(s.K, 1))
            e = prev if init is None else ite(eqv(s.K, 0), init, prev)
            s.close(x, z(e), 'overwritten'); return True
        if init is None: return False
        # written once per index
        if x.cell.arr and s.write_once(x, N, me): return True
        # increments
        if x.sort in (I, R):
            if x.sort == I:
                if s.clamp(x, N, me): return True
                dlt = simp(z3.simplify(zi(N) - me))
                if conc(dlt) or not (s.deps(dlt) & {x.name}) and not occurs(dlt, s.K) and not s.deps(dlt):
                    s.close(x, z(add(init, mul(s.K, dlt))), 'affine'); return True
            else:
                try:
                    n, den = poly(ind_expand(sub(zr(N), me)))
                    if den == P1: D = p_term(n)
                    else: D = rdiv(p_term(n), p_term(den))
                    if x.name not in s.deps(D):
                        if conc(D) or not occurs(D, s.K) and not any(s.bytab[q].hist for q in s.deps(D)):
                            s.close(x, z(add(zr(init), mul(zr(s.K), D))), 'affine'); return True
                        j = z3.Int('j!%d' % uid())
                        def cf(kt, idx=(), D=D, init=init, x=x):
                            jj = z3.Int('j!%d' % uid())
                            return add(to_r(s.at(init, kt, idx)), SUMS.over(kt, jj, s.at(D, jj, idx)))
                        x.cf = cf; x.kind = 'sum'
                        return True
                except TooBig: pass
        return False
    clamped = False
    def clamp(s, x, N, me):
        """an integer that moves by one constant before some iteration and by another from it on"""
        if not isz(N) or x.cell.arr or not z3.is_app_of(N, z3.Z3_OP_ITE): return False
        c = N.arg(0)
        if s.deps(c): return False
        d1, d2 = (simp(z3.simplify(N.arg(k) - me)) for k in (1, 2))
        if not (conc(d1) and conc(d2)): return False
        at = c
        if z3.is_not(at): at = at.arg(0); flip = True
        else: flip = False
        if not z3.is_le(at) or at.arg(0).sort() != I: return False
        t = s.lin_k(sub(at.arg(0), at.arg(1)))
        if t is None: return False
        # at: K <= t or K >= t
        up = prove_quick(implies(z3.substitute(at, (s.K, zi(t) - 1)), True), []) and prove_quick(z3.substitute(at, (s.K, zi(t) - 1)), [])
        if flip: d1, d2 = d2, d1
        a = add(t, 1) if up else t
        fs = relevant_ctx([f for f in s.st0.facts() if isz(f)], [z(ge(a, 0))]) if isz(a) else []
        if not prove_quick(ge(a, 0), fs): a = ite(le(a, 0), 0, a)
        init = x.init
        first, then = (d1, d2) if up else (d2, d1)
        def cf(kt, idx=()):
            e1 = mul(kt, first); e2 = add(mul(a, first), mul(sub(kt, a), then))
            y, n = (e1, e2) if up else (e2, e1)
            if flip: y, n = n, y
            return add(s.at(init, kt), ite(s.at(c, kt), y, n))
        x.cf = cf; x.kind = 'clamp'; s.clamped = True
        return True
    def under(s, t, known=()):
        """t with conditions that are decided by the enclosing ones dropped"""
        if not isz(t): return t
        def look(c, known):
            n = c.arg(0) if z3.is_not(c) else c
            for k, v in known:
                if k.eq(n): return (not v) if z3.is_not(c) else v
            return None
        def learn(c, v, known):
            if z3.is_not(c): return learn(c.arg(0), not v, known)
            if z3.is_and(c) and v or z3.is_or(c) and not v:
                for x in c.children(): known = learn(x, v, known)
                return known
            return known + [(c, v)]
        def go(t, known):
            if not z3.is_app(t) or t.num_args() == 0: return t
            if t.sort() == B:
                v = look(t, known)
                if v is not None: return z3.BoolVal(v)
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c = go(t.arg(0), known)
                if z3.is_true(c): return go(t.arg(1), known)
                if z3.is_false(c): return go(t.arg(2), known)
                return z3.If(c, go(t.arg(1), learn(c, True, known)), go(t.arg(2), learn(c, False, known)))
            if z3.is_and(t) or z3.is_or(t):
                v = z3.is_and(t)
                cs = list(t.children())
                for n in range(len(cs)):
                    kn = known
                    for m, q in enumerate(cs):
                        if m != n: kn = learn(q, v, kn)
                    cs[n] = go(cs[n], kn)
                return z3.And(*cs) if v else z3.Or(*cs)
            cs = [go(c, known) for c in t.children()]
            if all(a.eq(b) for a, b in zip(cs, t.children())): return t
            k = t.decl().kind()
            return nary(t, cs) if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else t.decl()(*cs)
        return back(go(t, list(known)))
    def cases(s, e, lim=60):
        out = []
        def go(t, cond):
            if len(out) > lim: return
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                go(t.arg(1), cond + [t.arg(0)]); go(t.arg(2), cond + [z3.Not(t.arg(0))])
            else: out.append((cond, t))
        go(z(e), [])
        return out
    def solve_for_k(s, cond, idx):
        """a k* (over idx and k-free terms) with cond => K == k*"""
        for q in cond:
            for c in conjuncts(q):
                if isz(c) and z3.is_eq(c) and c.arg(0).sort() == I:
                    r = s.lin_k(sub(c.arg(0), c.arg(1)))
                    if r is not None and any(occurs(r, i) for i in idx): return r
        return None
    def lin_k(s, e, k=None):
        """e == 0  <=>  K == result, for e linear in K with coefficient +-1"""
        k = s.K if k is None else k
        try: n, d = poly(e)
        except TooBig: return None
        if d != P1: return None
        ka = ATOMS.of(k)
        coef, rest = None, {}
        for m, c in n.items():
            ks = [p for p in m if p[0] == ka]
            if ks:
                if m != ((ka, 1),): return None
                coef = c
            else:
                if any(occurs(ATOMS.keep[p[0]], k) for p in m): return None
                rest[m] = c
        if coef is None or abs(coef) != 1: return None
        t = p_int(p_scale(rest, -1 / coef))
        return t
    def write_once(s, x, N, me):
        idx = s.IDX[:x.cell.dims]
        cs = s.cases(N)
        if len(cs) > 60: return False
        ks = None
        pos = []
        for cond, v in cs:
            if v.eq(me): continue
            k1 = s.solve_for_k(cond, idx)
            if k1 is None: return False
            if ks is None: ks = k1
            elif not same(z(ks), z(k1)) and not poly_same(ks, k1): return False
            pos.append((cond, v))
        if ks is None: return False
        init = z(x.init)
        def atk(t):
            # X(k, i) before its only write is the entry value
            no = len(s.outer)
            sub_ = [(me, init)]
            for q in list(subterms([t])):
                if z3.is_app(q) and q.decl().name() == x.name and q.arg(no).eq(s.K):
                    ix = [simp(z3.substitute(a, (s.K, zi(ks)))) for a in q.children()[no + 1:]]
                    if all(same(z(a), i) for a, i in zip(ix, idx)): sub_.append((q, init))
            t = z3.substitute(t, *sub_)
            if x.name in s.deps(t): return None
            return z3.substitute(t, (s.K, zi(ks)))
        e = init
        for cond, v in reversed(pos):
            v2 = atk(v); c2 = [atk(c) for c in cond]
            if v2 is None or any(c is None for c in c2): return False
            cc = z3.simplify(z3.And(*c2))
            e = z(ite(back(cc), v2, e))
        rng = and_(ge(ks, 0), lt(ks, s.K))
        s.close(x, z(ite(rng, e, init)), 'written once')
        # keep the sort
        return True

    # ---- top
    def solve(s):
        ex = s.ex
        if ex.deadline and time.time() > ex.deadline: raise Unsupported('time limit')
        # the cells an earlier pass over this loop found to change
        for key, lv, dims in ex.loophints.get(s.lid, ()) if s.quick else ():
            if key in s.cells or key[0].startswith('a:') and key[0] not in s.st0.mem: continue
            hv = s.st0.read(key)
            if hv is None: hv = ex.initial(s.st0, key, None, dims)
            if hv is None: hv = UNDEF
            s.add_cell(key, hv, lv, dims)
        for rnd in range(8):
            s.dirty = False
            H, mark, l, e, r, t = s.discover()
            if l is None: return s.finish_noloop()
            s.newvals(H, l)
            if s.dirty: continue
            s.link(l, mark)
            progress = False
            todo = [x for c in s.cells.values() if not c.dead for x in c.comps if x.cf is None and not x.hist]
            while True:
                step = False
                for x in list(todo):
                    if s.solve_comp(x, None): todo.remove(x); step = progress = True
                if not step: break
            if not progress or not todo:
                if progress and rnd < 7 and not (s.quick and not todo):
                    # once more with the closed forms in place: cleaner conditions
                    if not todo and rnd >= 1 and not s.want_rerun: break
                    s.want_rerun = False
                    continue
                if not todo: break
                # cyclic or not closable: keep one as a history function
                x = s.pick(todo)
                x.hist = True
                if s.quick:
                    # such loops run often: settle the others without another pass over the body
                    todo.remove(x)
                    while todo:
                        step = False
                        for x in list(todo):
                            if s.solve_comp(x, None): todo.remove(x); step = True
                        if not step:
                            x = s.pick(todo); x.hist = True; todo.remove(x)
                s.want_rerun = True
                if rnd == 7: break
                continue
        # whatever is left is a history function
        for c in s.cells.values():
            if c.dead: continue
            for x in c.comps:
                if x.cf is None: x.hist = True
        return s.finish()
    want_rerun = True
    def pick(s, todo):
        for x in todo:
            if x.N is None: return x
            N = s.rw(x.N)
            d = s.deps(N) | s.hidden(N)
            if x.name in d and all(n == x.name or s.bytab[n].cf is not None or s.bytab[n].hist for n in d): return x
        for x in todo:
            if x.N is not None and x.name in s.deps(x.N): return x
        return todo[0]

    def finish_noloop(s):
        # the body never comes back to the header
        H, mark, l, e, r, t = s.run(0, True)
        return e, r, t

    def suffix(s, l, mark):
        G = [x for k, x in l.pc[mark:] if k == 'b']
        F = [x for k, x in l.pc[mark:] if k == 'f']
        Q = [x for k, x in l.pc[mark:] if k == 'q']
        return G, F, Q

    def finish(s):
        ex = s.ex
        H, mark, l, e, r, t = s.discover()
        if l is None: return s.finish_noloop()
        s.newvals(H, l)
        if s.outer: ex.loophints[s.lid] = [(key, c.last_lv, c.dims) for key, c in s.cells.items() if not c.dead]
        hists = [x for c in s.cells.values() if not c.dead for x in c.comps if x.hist]
        for x in hists:
            if x.N is not None: x.N = s.rw(x.N)
        G, F, Q = s.suffix(l, mark)
        base = [x for k, x in l.pc[:mark] if k != 'q' and isz(x)]
        baseq = [x for k, x in l.pc[:mark] if k == 'q']
        s.houdini(hists, base, baseq, G, F, Q, e)
        if s.inv:
            # with the proved invariants in hand, once more (cleaner conditions)
            H, mark, l, e, r, t = s.run(s.K, False)
            if len(l) > 1: l = ex.merge(l)
            if len(l) != 1: raise Unsupported('loop body whose paths cannot be joined')
            l = l[0]
            s.newvals(H, l)
            for x in hists:
                if x.N is not None: x.N = s.rw(x.N)
            G, F, Q = s.suffix(l, mark)
        s.G = [s.rw(g) for g in G]
        s.F = [s.rw(x) for x in F if not ex.global_fact(x)]
        s.Q = [s.rwq(q) for q in Q]
        s.hists = hists
        s.lemmas(base, baseq)
        # general pass: obligations, and exits in mid body
        kk = z3.Const('kk!L%d' % s.lid, I) if not s.outer else z3.Function('kk!L%d' % s.lid, *([I] * len(s.outer) + [I]))(*s.outer)
        fs, qs = s.history(kk, s.G)
        # (when nothing is checked and the loop is only left from its header, the header alone will do)
        only = not ex.checking and not r and not t and e and all(x[1] == s.h for x in e)
        H, mark, l, e, r, t = s.run(kk, True, fs, qs, header=only)
        hx = [x for x in e if x[1] == s.h]
        ox = [x for x in e if x[1] != s.h]
        T = None
        if hx: T = s.pin(kk, hx, mark)
        if T is not None:
            drop = []
            keepG = []
            for g in s.G:
                # the part of the condition that says k < T is implied
                j = s.K
                if conc(g): continue
                sv = [f for f in s.st0.facts() if len_ok(f)][-80:]
                sv = relevant(sv, g, 3)
                if smt_check(sv + [j >= 0, j < zi(T), z3.Not(g)], 300)[0] == z3.unsat: continue
                keepG.append(g)
            fs, qs = s.history(T, keepG)
            H, mark, l2, e2, r2, t2 = s.run(T, False, fs, qs)
            if not l2 and e2 and all(x[1] == s.h for x in e2): hx = e2
        ex.loopnotes.append((s.f['dem'], s.h, {c.name: ('history' if c.hist else getattr(c, 'kind', '?')) for cl in s.cells.values() for c in cl.comps}, T))
        s.ex.last_loop = s
        return hx + ox, r, t

    def pin(s, kk, hx, mark):
        cands = []
        for tgt, frm, st in hx:
            for k, c in st.pc[mark:]:
                if k != 'b' or not isz(c): continue
                for q in conjuncts(c):
                    q0 = q.arg(0) if z3.is_not(q) else q
                    if z3.is_app(q0) and q0.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and q0.arg(0).sort() in (I, R):
                        for off in (0, 1, -1):
                            r = s.lin_k(add(sub(q0.arg(0), q0.arg(1)), off) if q0.arg(0).sort() == I else sub(q0.arg(0), q0.arg(1)), kk)
                            if r is not None and sort_of(r) == I: cands.append(r)
        T = s.pin_real(kk, hx, mark)
        if T is not None: return T
        for T in cands:
            for T2 in (T, simp(ite(gt(T, 0), T, 0))):
                if all(s.ex.decide(st, eqv(kk, T2), 800) is True for _, _, st in hx): return T2
        return None

    def real_cond(s, c, k):
        """c, a comparison of reals linear in k, as (coefficient, rest, strict): coefficient * k + rest < 0 (<= 0 when not strict)"""
        pos = True
        while z3.is_not(c): c = c.arg(0); pos = not pos
        if not (z3.is_app(c) and c.num_args() == 2 and c.arg(0).sort() == R): return None
        kd = c.decl().kind()
        a, b = c.arg(0), c.arg(1)
        if kd in (z3.Z3_OP_GT, z3.Z3_OP_GE): a, b = b, a
        elif kd not in (z3.Z3_OP_LT, z3.Z3_OP_LE): return None
        strict = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if not pos: a, b, strict = b, a, not strict
        if not occurs(c, k): return None
        try: n, d = poly(sub(a, b))
        except TooBig: return None
        if d != P1: return None
        ka = [i for i in set(p[0] for m in n for p in m) if occurs(ATOMS.keep[i], k)]
        if len(ka) != 1 or not any(ATOMS.keep[ka[0]].eq(t) for t in (k, z3.ToReal(k))): return None
        co, rest = {}, {}
        for m, v in n.items():
            e = [p[1] for p in m if p[0] == ka[0]]
            if not e: rest[m] = v
            elif e == [1]: co[tuple(p for p in m if p[0] != ka[0])] = v
            else: return None
        return p_term(co), p_term(rest), strict
    def pin_real(s, kk, hx, mark):
        """number of iterations of a loop that counts in reals: it goes on while co * k + rest < 0, co > 0"""
        if len(hx) != 1: return None
        st = hx[0][2]
        for k, c in st.pc[mark:]:
            if k != 'b' or not isz(c): continue
            for q in conjuncts(c):
                r = s.real_cond(z3.Not(q), kk) if isz(q) else None
                if r is None: continue
                co, rest, strict = r
                # the same comparison is what lets an iteration run
                on = None
                for g in s.G:
                    for x in conjuncts(g):
                        y = s.real_cond(x, s.K) if isz(x) else None
                        if y is not None and y[2] == strict and same(z(y[0]), z(co)) and same(z(y[1]), z(rest)): on = y
                if on is None or s.ex.decide(st, gt(co, 0)) is not True: continue
                q = rdiv(neg(rest), co)
                if strict: return simp(ite(gt(q, 0), neg(z3.ToInt(zr(neg(q)))), 0))
                return simp(ite(ge(q, 0), add(z3.ToInt(zr(q)), 1), 0))
        return None

    # ---- facts about the iterations already done
    def rwq(s, q):
        return QFact(q.vars, s.rw(q.guard), s.rw(q.body), q.name)
    def history(s, kt, G):
        """facts about iterations 0 .. kt-1 and the values at kt"""
        fs, qs = [], []
        J = z3.Int('h!L%d' % s.lid)
        rng = z3.And(J >= 0, J < zi(kt))
        def per(e): return s.at(e, J)
        conj = []
        for g in list(G) + list(s.F):
            for c in conjuncts(g):
                if isz(c) and not z3.is_true(c): conj.append(c)
        last = sub(kt, 1)
        for c in conj:
            qs.append(QFact([J], rng, per(c), 'iteration'))
            fs.append(implies(gt(kt, 0), s.at(c, last)))
            if occurs(c, s.K): fs.append(implies(gt(kt, 0), s.at(c, 0)))
        for q in s.Q:
            g2 = and_(rng, per(q.guard))
            qs.append(QFact([J] + q.vars, g2, per(q.body), q.name))
        for x in s.hists:
            idx = s.IDX[:x.cell.dims]
            if x.N is not None:
                body = eqv(s.fdapp(x, J + 1, idx), s.at(x.N, J))
                qs.append(QFact([J] + idx, rng, body, 'step ' + x.name))
                if not idx: fs.append(implies(gt(kt, 0), eqv(s.fdapp(x, kt), s.at(x.N, last))))
            if x.init is not None:
                if idx: qs.append(QFact(idx, True, eqv(s.fdapp(x, 0, idx), x.init), 'entry ' + x.name))
                else: fs.append(eqv(s.fdapp(x, 0), x.init))
                if idx: qs.append(QFact(idx, zi(kt) == 0, eqv(s.fdapp(x, kt, idx), x.init), 'entry ' + x.name))
            for lem in x.monos: 
                a, b = lem(kt)
                fs += a; qs += b
        for iv in s.inv:
            # invariants hold at every earlier iteration too
            t = iv(J)
            if isz(t): qs.append(QFact([J], z3.And(J >= 0, J <= zi(kt)), t, 'invariant'))
        fs = [x for x in fs if isz(x)]
        return fs, qs

    def lemmas(s, base, baseq):
        """derived facts about history functions"""
        ctx = relevant_ctx(base, s.G + s.F)
        for x in s.hists:
            if x.N is None or x.init is None: continue
            N = x.N
            idx = s.IDX[:x.cell.dims]
            me = s.fdapp(x, s.K, idx)
            if x.sort == B:
                # once set, stays set (or the other way round)
                for pol in (True, False):
                    p = (lambda e: e) if pol else not_
                    if not prove_quick(implies(p(me), p(N)), []): continue
                    def lemb(kt, x=x, p=p, idx=idx):
                        a = z3.Int('m!L%d' % s.lid)
                        q = QFact([a] + idx, and_(a >= 0, lt(a, kt), p(s.at(x.N, a))), p(s.fdapp(x, kt, idx)), 'stays ' + x.name)
                        q0 = QFact(idx, p(x.init), p(s.fdapp(x, kt, idx)), 'stays ' + x.name)
                        return ([], [q, q0]) if idx else ([implies(p(x.init), p(s.fdapp(x, kt)))], [q])
                    x.monos.append(lemb)
                continue
            # monotone
            gs = [g for g in s.G + s.F if isz(g) and s.small(g)]
            mono = None
            for op, nm in ((ge, 'up'), (le, 'down')):
                if prove_quick(op(N, me), ctx + gs): mono = op; break
            if mono is not None:
                def lem(kt, x=x, op=mono, idx=idx):
                    a, b = z3.Int('m!L%d' % s.lid), z3.Int('n!L%d' % s.lid)
                    q = QFact([a, b] + idx, z3.And(a >= 0, a <= b, b <= zi(kt)), op(s.fdapp(x, b, idx), s.fdapp(x, a, idx)), 'monotone ' + x.name)
                    fs = [op(s.fdapp(x, kt), x.init)] if not idx else []
                    a2 = z3.Int('m!L%d' % s.lid)
                    q2 = QFact([a2] + idx, z3.And(a2 >= 0, a2 <= zi(kt)), op(s.fdapp(x, kt, idx), s.fdapp(x, a2, idx)), 'monotone ' + x.name)
                    q3 = QFact([a2], z3.And(a2 >= 0, a2 < zi(kt)), op(s.fdapp(x, kt), s.fdapp(x, a2 + 1)), 'monotone ' + x.name) if not idx else None
                    return fs, [q2] + ([q3] if q3 is not None else [])
                x.monos.append(lem)
                for cc, v in (s.upd_cases(x, N, me) or [])[:4]:
                    # the extreme is beyond every candidate
                    if x.sort != R or x.name in s.deps(v) or not prove_quick(mono(N, v), ctx + gs): continue
                    def lemv(kt, x=x, op=mono, idx=idx, v=v):
                        a = z3.Int('m!L%d' % s.lid)
                        return [], [QFact([a] + idx, and_(a >= 0, lt(a, kt)), op(s.fdapp(x, kt, idx), s.at(v, a)), 'beyond ' + x.name)]
                    x.monos.append(lemv)
            # increments by 0/1 or any indicator sum
            if x.sort == I and not idx:
                try:
                    D = ind_expand(zr(zi(N) - me))
                    n, den = poly(D)
                    if den == P1:
                        D = p_term(n)
                        if x.name not in s.deps(D):
                            def lem2(kt, x=x, D=D):
                                j = z3.Int('j!%d' % uid())
                                S = SUMS.over(kt, j, s.at(D, j))
                                fs = [zr(s.fdapp(x, kt)) == zr(x.init) + zr(S)]
                                return fs, []
                            x.monos.append(lem2)
                except TooBig: pass
                if prove_quick(and_(le(N, add(me, 1)), ge(N, me)), ctx + gs):
                    def lem3(kt, x=x):
                        return [le(s.fdapp(x, kt), add(x.init, kt))], []
                    x.monos.append(lem3)
            # last update
            s.last_update(x, N, me, idx)
        # appends at a counter
        for c in s.cells.values():
            if c.arr and not c.dead: s.append_lemma(c)
    def small(s, g): return sum(1 for _ in zip(subterms([g]), range(400))) < 400
    def upd_cases(s, x, N, me):
        cs = s.cases(N)
        if len(cs) > 60: return None
        return [(c, v) for c, v in cs if not v.eq(me)]
    def last_update(s, x, N, me, idx):
        if not idx and isz(N) and not z3.is_app_of(N, z3.Z3_OP_ITE): N = s.inner_last(N)
        up = s.upd_cases(x, N, me)
        if not up: return
        if any(x.name in s.deps(v) for c, v in up): return
        cond = z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, v in up])
        val = z(up[-1][1])
        for c, v in reversed(up[:-1]): val = z(ite(and_(*c), v, val))
        key = cond.sexpr()
        tab = s.__dict__.setdefault('_lu', {})
        if key not in tab: tab[key] = 'last!L%d.%d' % (s.lid, len(tab))
        fd = s.mkfn(tab[key], len(idx), I)
        if not idx: s.ex.lastform[x.name] = ([zi(q) for q in s.outer], lambda kt, x=x: ite(ge(fd(*([zi(q) for q in s.outer] + [zi(kt)])), 0), s.at(val, fd(*([zi(q) for q in s.outer] + [zi(kt)]))), x.init))
        def lem(kt, x=x):
            U = fd(*([zi(q) for q in s.outer] + [zi(kt)] + list(idx)))
            J = z3.Int('u!L%d' % s.lid)
            at = lambda e, k_: s.at(e, k_)
            body = and_(U >= -1, U < zi(kt), implies(U >= 0, and_(at(cond, U), eqv(s.fdapp(x, kt, idx), at(val, U)))),
                        implies(eqv(U, -1), eqv(s.fdapp(x, kt, idx), x.init)))
            nou = not_(at(cond, J))
            fs, qs = [], []
            if not idx:
                fs.append(body)
                qs.append(QFact([J], and_(J > U, J >= 0, J < zi(kt)), nou, 'no update after the last ' + x.name))
            else:
                qs.append(QFact(idx, True, body, 'last update ' + x.name))
                qs.append(QFact([J] + list(idx), and_(J > U, J >= 0, J < zi(kt)), nou, 'no update after the last ' + x.name))
            return fs, qs
        x.monos.append(lem)
    def inner_last(s, N):
        """values left by an inner loop, as its last update"""
        out = []
        for t in subterms([N]):
            if z3.is_app(t) and t.num_args() and t.decl().name() in s.ex.lastform:
                outer, form = s.ex.lastform[t.decl().name()]
                a = t.children()
                if len(a) == len(outer) + 1 and all(p.eq(q) for p, q in zip(a, outer)): out.append((t, z(form(back(a[-1])))))
        return z3.substitute(N, *out) if out else N
    def append_lemma(s, c):
        """array written at a strictly advancing counter cell"""
        idx = s.IDX[:c.dims]
        for x in c.comps:
            if not x.hist or x.N is None or x.init is None: continue
            me = s.fdapp(x, s.K, idx)
            up = s.upd_cases(x, x.N, me)
            if not up or any(x.name in s.deps(v) for cc, v in up): continue
            # the index equation  i == n(k) with n a history function
            cnt = None
            for cond, v in up:
                hit = None
                for q in cond:
                    for e in conjuncts(q):
                        if isz(e) and z3.is_eq(e) and e.arg(0).sort() == I:
                            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                                if any(a.eq(i) for i in idx):
                                    d = s.deps(b)
                                    if len(d) == 1 and s.bytab[list(d)[0]].hist and z3.is_app(b) and b.decl().name() in s.bytab: hit = (a, b)
                if hit is None: cnt = None; break
                if cnt is not None and not cnt[1].eq(hit[1]): cnt = None; break
                cnt = hit
            if cnt is None: continue
            i, nb = cnt
            ncomp = s.bytab[nb.decl().name()]
            if ncomp.N is None or ncomp.init is None: continue
            # a write to i always advances the counter past i
            cond = z3.Or(*[z3.And(*cc) for cc, v in up])
            wr = z3.substitute(cond, (i, nb))
            if not prove_quick(implies(wr, eqv(ncomp.N, add(nb, 1))), []): continue
            if not prove_quick(ge(ncomp.N, nb), []): continue
            val = z(up[-1][1])
            for cc, v in reversed(up[:-1]): val = z(ite(and_(*cc), v, val))
            rest = [q for q in idx if not q.eq(i)]
            src = s.mkfn('src!L%d.%s' % (s.lid, ncomp.name), len(rest) + 1, I)
            same_n = prove_quick(implies(not_(wr), eqv(ncomp.N, nb)), [])
            def lem(kt, x=x, i=i, nb=nb, wr=wr, val=val, rest=rest, cond=cond, ncomp=ncomp, same_n=same_n):
                J = z3.Int('w!L%d' % s.lid)
                qs = []
                nJ = s.at(nb, J)
                ix = [nJ if q.eq(i) else q for q in idx]
                # every write is still there
                qs.append(QFact([J] + rest, and_(J >= 0, J < zi(kt), s.at(wr, J)), eqv(s.fdapp(x, kt, ix), s.at(z3.substitute(val, (i, nb)), J)), 'appended ' + x.name))
                if same_n:
                    # every element past the start was written by some iteration
                    S_ = src(*([zi(q) for q in s.outer] + [zi(kt)] + [i] + rest))
                    qs.append(QFact([i] + rest, and_(i >= zi(ncomp.init), i < s.fdapp(ncomp, kt)),
                              and_(S_ >= 0, S_ < zi(kt), s.at(wr, S_), eqv(s.at(nb, S_), i), eqv(s.fdapp(x, kt, idx), s.at(z3.substitute(val, (i, nb)), S_))), 'origin ' + x.name))
                    qs.append(QFact([i] + rest, i < zi(ncomp.init), eqv(s.fdapp(x, kt, idx), x.init), 'older ' + x.name))
                return [], qs
            x.monos.append(lem)

    def opaque(s, e):
        """loop-constant integers with a heavy definition, read as unknown integers (a generalisation)"""
        memo = {}
        def go(t):
            i = t.get_id()
            if i in memo: return memo[i][0]
            r = t
            if z3.is_app(t) and t.num_args():
                k = t.decl().kind()
                if t.sort() in (I, R) and (t.decl().name() in ('floorI',) or k == z3.Z3_OP_ITE) and heavy(t) and not occurs(t, s.K) and not s.deps(t):
                    tx = t.sexpr()
                    r = OPAQUE.setdefault(tx, z3.Const('opq!%d' % len(OPAQUE), t.sort()))
                else:
                    cs = [go(c) for c in t.children()]
                    if not all(a.eq(b) for a, b in zip(cs, t.children())): r = nary(t, cs) if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else t.decl()(*cs)
            memo[i] = (r, t)
            return r
        return go(e) if isz(e) else e
    def pq(s, goal, facts):
        if conc(goal): return bool(goal)
        g2 = s.opaque(goal)
        if g2.eq(goal): return prove_quick(goal, facts)
        fs = [s.opaque(f) for f in facts if isz(f)]
        return prove_quick(g2, fs)
    # ---- inductively checked bounds on integer history cells
    def houdini(s, hists, base, baseq, G, F, Q, exits):
        ints = [x for x in hists if x.sort == I and not x.cell.arr and x.N is not None and x.init is not None]
        terms = []
        conds = list(G)
        for tgt, frm, st in exits:
            conds += [x for k, x in st.pc if k == 'b'][-4:]
        for c in conds:
            if not isz(c): continue
            for q in subterms([c]):
                if z3.is_app(q) and q.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and q.num_args() == 2 and q.arg(0).sort() == I:
                    for t in q.children():
                        if not occurs(t, s.K) and not s.deps(t) and not any(t.eq(o) for o in terms) and len(terms) < 10: terms.append(t)
        cands = []
        for x in ints:
            i0 = x.init
            def mk(op, e, x=x): return lambda kt: op(s.fdapp(x, kt), e)
            cs = [mk(ge, i0), mk(le, i0), mk(ge, 0)]
            for e in terms:
                cs += [mk(le, e), mk(ge, e), mk(le, ite(ge(i0, e), i0, e)), mk(ge, ite(le(i0, e), i0, e))]
            cands += cs
        for c in conds:
            if not isz(c): continue
            for q in subterms([c]):
                if z3.is_app(q) and q.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and q.num_args() == 2 and q.arg(0).sort() == I and occurs(q, s.K):
                    e = s.lin_k(sub(q.arg(0), q.arg(1)))
                    if e is None or len(cands) > 80: continue
                    for e2 in (e, add(e, 1)):
                        cands.append(lambda kt, e=e2: le(kt, e))
                        cands.append(lambda kt, e=e2: le(kt, ite(gt(e, 0), e, 0)))
        if not cands: return
        ctx = relevant_ctx(base, conds)
        gs = [x for x in G + F if isz(x) and s.small(x)] + [s.K >= 0]
        inst = []
        # entry
        live = []
        tried = s.ex.houd.setdefault(s.lid, set())
        def txt(c):
            t = c(s.K)
            return t.sexpr() if isz(t) else t
        if s.outer and not s.ex.checking: cands = [c for c in cands if txt(c) not in tried]
        first = list(cands)
        for c in cands:
            t = c(0)
            for x in ints: t = sub_(t, (s.fdapp(x, 0), x.init)) if isz(t) else t
            if conc(t) and t or s.pq(t, ctx): live.append(c)
        N1 = [(s.fdapp(x, add(s.K, 1)), z(s.rw(x.N))) for x in ints]
        while live:
            hyp = [c(s.K) for c in live]
            hyp = [h for h in hyp if isz(h)]
            keep = []
            for c in live:
                t = c(add(s.K, 1))
                if conc(t): continue
                t = back(z3.substitute(t, *N1))
                if s.pq(t, ctx + gs + hyp): keep.append(c)
            if len(keep) == len(live): break
            live = keep
        s.inv += [c for c in live]
        if s.outer and not s.ex.checking: tried.update(txt(c) for c in first if not any(c is d for d in live))

OPAQUE = {}
def heavy(t):
    return any(z3.is_app(q) and (q.decl().name() == 'floorI' or q.decl().kind() == z3.Z3_OP_DIV) for q in subterms([t]))
def poly_same(a, b):
    try: return not p_add(poly(a)[0], poly(b)[0], -1)
    except TooBig: return False
def relevant_ctx(base, goals):
    fs = [f for f in base if isz(f) and len_ok(f)]
    g = z3.And(*[x for x in goals if isz(x)]) if any(isz(x) for x in goals) else None
    if g is None: return fs[-60:]
    return relevant(fs, g, 3)[:150]
def prove_quick(goal, facts, timeout=400):
    if conc(goal): return bool(goal)
    goal = simp(goal)
    if conc(goal): return bool(goal)
    fs = [f for f in facts if isz(f)]
    return smt_check(fs + axioms([goal]) + [z3.Not(goal)], timeout)[0] == z3.unsat
