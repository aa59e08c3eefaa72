"""Terms, polynomial normal forms, finite sums, and the proof procedure.

Integers are unbounded, reals are exact (machine arithmetic as mathematics).
A term is a Python int / Fraction / bool, or a z3 expression."""
from fractions import Fraction
import itertools, time, math
import z3

z3.set_param('memory_max_size', 6000)
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

def isz(x): return isinstance(x, z3.ExprRef)
def conc(x): return not isz(x)

def zr(x):
    if isz(x):
        return z3.ToReal(x) if x.sort() == I else x
    return z3.RealVal(Fraction(x) if not isinstance(x, bool) else int(x))
def zi(x): return x if isz(x) else z3.IntVal(int(x))
def zb(x): return x if isz(x) else z3.BoolVal(bool(x))
def sort_of(x):
    if isz(x): return x.sort()
    if isinstance(x, bool): return B
    if isinstance(x, int): return I
    return R
def z(x):
    if isz(x): return x
    if isinstance(x, bool): return zb(x)
    if isinstance(x, int): return zi(x)
    return zr(x)

def back(e):
    """z3 literal -> python value"""
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return e.as_fraction()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def simp(e):
    if conc(e): return e
    return back(z3.simplify(e))

def _isreal(a): return isinstance(a, Fraction) or (isz(a) and a.sort() == R)
def add(a, b):
    if conc(a) and conc(b): return a + b
    if conc(a) and a == 0 and (_isreal(b) or not _isreal(a)): return b
    if conc(b) and b == 0 and (_isreal(a) or not _isreal(b)): return a
    if _isreal(a) or _isreal(b): return zr(a) + zr(b)
    # fold integer constants: (x + c1) + c2
    r = zi(a) + zi(b)
    return back(z3.simplify(r))
def neg(a): return -a
def sub(a, b):
    if conc(a) and conc(b): return a - b
    if conc(b) and b == 0 and (_isreal(a) or not _isreal(b)): return a
    if _isreal(a) or _isreal(b): return zr(a) - zr(b)
    return back(z3.simplify(zi(a) - zi(b)))
def mul(a, b):
    if conc(a) and conc(b): return a * b
    if conc(a):
        if a == 0: return Fraction(0) if _isreal(a) or _isreal(b) else 0
        if a == 1 and (_isreal(b) or not _isreal(a)): return b
    if conc(b):
        if b == 0: return Fraction(0) if _isreal(a) or _isreal(b) else 0
        if b == 1 and (_isreal(a) or not _isreal(b)): return a
    if _isreal(a) or _isreal(b): return zr(a) * zr(b)
    return back(z3.simplify(zi(a) * zi(b)))
def rdiv(a, b):
    if conc(b) and b != 0:
        if conc(a): return Fraction(a) / Fraction(b)
        return zr(a) * zr(Fraction(1) / Fraction(b))
    if conc(a) and a == 0: return Fraction(0)
    return zr(a) / zr(b)
def eqv(a, b):
    if conc(a) and conc(b): return a == b
    sa, sb = sort_of(a), sort_of(b)
    if sa == B or sb == B:
        if conc(a): return b if a else not_(b)
        if conc(b): return a if b else not_(a)
        return True if a.eq(b) else a == b
    if sa != sb: a, b = zr(a), zr(b)
    else: a, b = z(a), z(b)
    if a.eq(b): return True
    if sa == I and sb == I:
        r = simp(a == b)
        # an index equation stays in the form  index == term
        if isz(r) and (z3.is_const(a) and not z3.is_int_value(a) or z3.is_const(b) and not z3.is_int_value(b)): return a == b
        return r
    return a == b
def lt(a, b):
    if conc(a) and conc(b): return a < b
    if sort_of(a) == I and sort_of(b) == I: return simp(zi(a) < zi(b))
    a, b = zr(a), zr(b)
    return False if a.eq(b) else a < b
def le(a, b):
    if conc(a) and conc(b): return a <= b
    if sort_of(a) == I and sort_of(b) == I: return simp(zi(a) <= zi(b))
    a, b = zr(a), zr(b)
    return True if a.eq(b) else a <= b
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def not_(a):
    if conc(a): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def and_(*xs):
    o = []
    for x in xs:
        if conc(x):
            if not x: return False
        elif not any(x.eq(y) for y in o): o.append(x)
    if not o: return True
    return o[0] if len(o) == 1 else z3.And(*o)
def or_(*xs):
    o = []
    for x in xs:
        if conc(x):
            if x: return True
        elif not any(x.eq(y) for y in o): o.append(x)
    if not o: return False
    return o[0] if len(o) == 1 else z3.Or(*o)
def implies(a, b):
    if conc(a): return b if a else True
    if conc(b): return True if b else not_(a)
    return z3.Implies(a, b)
def ite(c, a, b):
    if conc(c): return a if c else b
    if conc(a) and conc(b) and a == b and sort_of(a) == sort_of(b): return a
    if isz(a) and isz(b) and a.eq(b): return a
    sa, sb = sort_of(a), sort_of(b)
    if sa == B or sb == B:
        if conc(a) and conc(b): return c if a else not_(c)
        return z3.If(c, zb(a), zb(b))
    if sa != sb: a, b = zr(a), zr(b)
    return z3.If(c, z(a), z(b))
def b2i(c): return int(c) if conc(c) else z3.If(c, z3.IntVal(1), z3.IntVal(0))
def i2b(x):
    """x != 0"""
    if conc(x): return x != 0
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        t, e = back(x.arg(1)), back(x.arg(2))
        if conc(t) and conc(e):
            if t != 0 and e == 0: return x.arg(0)
            if t == 0 and e != 0: return not_(x.arg(0))
    return simp(x != 0)

def same(a, b):
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    return type(a) == type(b) and a == b

def sub_(e, *pairs):
    if conc(e): return e
    return back(z3.substitute(e, *[(a, z(b)) for a, b in pairs]))

_cnt = itertools.count()
def uid(): return next(_cnt)

KIDS = {}
def kids(e, i=None):
    """children, remembered (terms are immutable; the entry keeps the term alive, so its id stays its own)"""
    if i is None: i = e.get_id()
    r = KIDS.get(i)
    if r is None:
        if len(KIDS) > 600000: KIDS.clear()
        r = KIDS[i] = (() if z3.is_quantifier(e) else tuple((c, c.get_id()) for c in e.children()), e)
    return r[0]
def subterms(es):
    seen, st = set(), [(e, e.get_id()) for e in es if isz(e)]
    while st:
        e, i = st.pop()
        if i in seen: continue
        seen.add(i)
        yield e
        st.extend(kids(e, i))
def remember(fn):
    tab = {}
    def g(f):
        i = f.get_id()
        r = tab.get(i)
        if r is None:
            if len(tab) > 200000: tab.clear()
            r = tab[i] = (fn(f), f)
        return r[0]
    return g
def occurs(e, v):
    if conc(e): return False
    return any(t.eq(v) for t in subterms([e]))
def occurs_any(e, ids):
    if conc(e): return False
    return any(t.get_id() in ids for t in subterms([e]))

# ---------------------------------------------------------------- polynomials
class Atoms:
    def __init__(s): s.by = {}; s.keep = []
    def of(s, e):
        i = e.get_id()
        if i not in s.by:
            s.by[i] = len(s.keep); s.keep.append(e)
        return s.by[i]
ATOMS = Atoms()
ONE = ()
MAXTERMS = 20000
class TooBig(Exception): pass

def p_const(c): return {ONE: Fraction(c)} if c != 0 else {}
def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def m_mul(a, b):
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))
def p_mul(a, b):
    if len(a) * len(b) > MAXTERMS * 4: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0: r.pop(m, None)
            else: r[m] = v
    if len(r) > MAXTERMS: raise TooBig()
    return p_trig(r)
def p_scale(a, c): return {m: v * c for m, v in a.items()} if c != 0 else {}

# sin(x)^2 -> 1 - cos(x)^2 ; indicator^2 -> indicator
SINOF = {}     # atom index of sin(x) -> atom index of cos(x)
INDIC = set()  # atom indices that are 0/1 valued
SQRTOF = {}    # atom index of sqrt(t) -> polynomial-convertible term t
def p_trig(p):
    todo = None
    for m in p:
        for k, e in m:
            if e >= 2 and (k in SINOF or k in INDIC):
                todo = (m, k, e); break
        if todo: break
    if not todo: return p
    r = {}
    work = list(p.items())
    while work:
        m, c = work.pop()
        hit = None
        for k, e in m:
            if e >= 2 and (k in SINOF or k in INDIC): hit = (k, e); break
        if hit is None:
            v = r.get(m, 0) + c
            if v == 0: r.pop(m, None)
            else: r[m] = v
            continue
        k, e = hit
        rest = tuple(x for x in m if x[0] != k)
        if k in INDIC:
            work.append((m_mul(rest, ((k, 1),)), c))
        else:
            base = m_mul(rest, ((k, e - 2),)) if e > 2 else rest
            work.append((base, c))
            work.append((m_mul(base, ((SINOF[k], 2),)), -c))
    return r

SIN = z3.Function('sin', R, R); COS = z3.Function('cos', R, R)
EXP = z3.Function('exp', R, R); SQRT = z3.Function('sqrt', R, R)
ATAN2 = z3.Function('atan2', R, R, R)
TRUNC = z3.Function('trunc', R, I)      # toward zero
FLOOR = z3.Function('floorI', R, I)
F32 = z3.Function('f32', R, R)
NORM = z3.Function('normalize_angle', R, R)
NORMK = z3.Function('normalize_turns', R, I)
LOGF = z3.Function('log', R, R)
PI = z3.Real('pi')
INDF = z3.Function('ind', B, R)

def atom(e):
    i = ATOMS.of(e)
    if z3.is_app(e):
        d = e.decl()
        if d.eq(SIN): SINOF[i] = ATOMS.of(COS(e.arg(0)))
        elif d.eq(INDF): INDIC.add(i)
    return i

_pcache = {}
def poly(e):
    """(numerator, denominator) polynomials of a real/int term; ite's and
    non-arithmetic terms are atoms"""
    if conc(e): return p_const(Fraction(int(e) if isinstance(e, bool) else e)), {ONE: Fraction(1)}
    i = e.get_id()
    if i in _pcache: return _pcache[i][0]
    r = _poly(e)
    if len(_pcache) > 200000: _pcache.clear()
    _pcache[i] = (r, e)
    return r
P1 = {ONE: Fraction(1)}
def _poly(e):
    v = back(e)
    if conc(v): return poly(v)
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        n, d = poly(e.arg(0))
        for a in e.children()[1:]:
            n2, d2 = poly(a)
            s = 1 if k == z3.Z3_OP_ADD else -1
            if d == d2: n = p_add(n, n2, s)
            else:
                n = p_add(p_mul(n, d2), p_mul(n2, d), s); d = p_mul(d, d2)
        return n, d
    if k == z3.Z3_OP_MUL:
        n, d = poly(e.arg(0))
        for a in e.children()[1:]:
            n2, d2 = poly(a)
            n, d = p_mul(n, n2), p_mul(d, d2)
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = poly(e.arg(0)); return p_scale(n, -1), d
    if k == z3.Z3_OP_DIV:
        n, d = poly(e.arg(0)); n2, d2 = poly(e.arg(1))
        return p_mul(n, d2), p_mul(d, n2)
    if k == z3.Z3_OP_POWER:
        x = back(e.arg(1))
        if conc(x) and x == int(x) and 0 <= x <= 8:
            n, d = poly(e.arg(0)); rn, rd = P1, P1
            for _ in range(int(x)): rn, rd = p_mul(rn, n), p_mul(rd, d)
            return rn, rd
    if k == z3.Z3_OP_TO_REAL:
        return poly(e.arg(0))
    return {((atom(e), 1),): Fraction(1)}, P1

def atom_expr(i):
    e = ATOMS.keep[i]
    return z3.ToReal(e) if e.sort() == I else e
def p_term(p):
    r = Fraction(0)
    for m, c in sorted(p.items(), key=lambda x: str(x[0])):
        t = c
        for k, e in m:
            for _ in range(e): t = mul(t, atom_expr(k))
        r = add(r, t)
    return r
def normal(e):
    """normalised term (num/den)"""
    n, d = poly(e)
    if d == P1: return p_term(n)
    return rdiv(p_term(n), p_term(d))

# ---------------------------------------------------------------- case splits
def ite_conds(e, limit=40):
    out, seen = [], set()
    for t in subterms([e]):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            if c.get_id() not in seen:
                seen.add(c.get_id()); out.append(c)
                if len(out) > limit: break
    return out

# ---------------------------------------------------------------- finite sums
def p_int(p):
    """integer term of a polynomial with integer coefficients"""
    r = 0
    for m, c in sorted(p.items(), key=lambda x: str(x[0])):
        if c.denominator != 1: return None
        t = int(c)
        for k, e in m:
            a = ATOMS.keep[k]
            if a.sort() != I: return None
            for _ in range(e): t = mul(t, a)
        r = add(r, t)
    return r
class SumReg:
    """Sum over 0 <= j < n of a monomial in j, as an uninterpreted function of n
    and of the parts that do not depend on j; linear in its body."""
    def __init__(s): s.by = {}; s.info = {}
    def make(s, n, body_of, tag=None):
        j = z3.Int('j!%d' % uid())
        b = body_of(j)
        return s.over(n, j, b)
    def over(s, n, j, b):
        if conc(n) and n <= 0: return Fraction(0)
        if conc(b):
            return mul(b, zr(n)) if not (conc(b) and b == 0) else Fraction(0)
        if not occurs(b, j): return mul(zr(n), b)
        b = in_range(b, j, n)
        if conc(b) or not occurs(b, j): return mul(zr(n), b)
        b = ind_expand(b)
        num, den = poly(b)
        dparts = Fraction(1)
        if den != P1:
            # denominators free of j are pulled out; otherwise the quotient is an atom
            dt = p_term(den)
            if not occurs(dt, j): dparts = dt
            else:
                # factor: common monomial denominators stay inside as 1/den atom
                q = z3.RealVal(1) / zr(dt)
                num = p_mul(num, {((ATOMS.of(q), 1),): Fraction(1)})
        tot = Fraction(0)
        for m, c in num.items():
            inn, out = [], c
            for k, e in m:
                a = atom_expr(k)
                if occurs(a, j): inn.append((k, e))
                else:
                    for _ in range(e): out = mul(out, a)
            tot = add(tot, mul(out, s.atom(n, j, inn)))
        return tot if same(dparts, Fraction(1)) else rdiv(tot, dparts)
    def atom(s, n, j, mono):
        if not mono: return zr(n)
        body = Fraction(1)
        parts = []
        for k, e in mono:
            a = atom_expr(k)
            # independent of the order in which atoms were created
            parts.append((skel(a, j), e, a))
        parts.sort(key=lambda x: (x[0], x[1]))
        for _, e, a in parts:
            for _ in range(e): body = mul(body, a)
        args, tmpl = abstract(body, j)
        key = tmpl.sexpr()
        if key not in s.by:
            f = z3.Function('SUM%d' % len(s.by), *([I] + [a.sort() for a in args] + [R]))
            s.by[key] = f
            s.info[f.name()] = (tmpl, [HOLE(i, a.sort()) for i, a in enumerate(args)])
        f = s.by[key]
        return f(zi(n), *args)
    def body(s, app, jterm):
        tmpl, holes = s.info[app.decl().name()]
        pairs = [(h, a) for h, a in zip(holes, app.children()[1:])] + [(JVAR, z(jterm))]
        return back(z3.substitute(tmpl, *pairs))
    def is_sum(s, e): return z3.is_app(e) and e.decl().name() in s.info
def in_range(b, j, n):
    """b for 0 <= j < n: comparisons of j with the ends of the range are settled"""
    pairs = []
    (ji, jr), nr = [((ATOMS.of(q), 1),) for q in (j, zr(j))], zr(n)
    for c in subterms([b]):
        if c.sort() != B or not (z3.is_lt(c) or z3.is_le(c) or z3.is_gt(c) or z3.is_ge(c)): continue
        nn = nr if c.arg(0).sort() == R else n
        if not (c.arg(0).eq(j) or c.arg(1).eq(j) or occurs(c, j)): continue
        x, y, strict = (c.arg(0), c.arg(1), z3.is_lt(c)) if z3.is_lt(c) or z3.is_le(c) else (c.arg(1), c.arg(0), z3.is_gt(c))
        try: d, den = poly(sub(x, y))
        except TooBig: continue
        if den != P1: continue
        J1 = jr if jr in d else ji
        ja = J1[0][0]
        lo = hi = None
        for sg in (1, -1):
            r = p_add(d, {J1: Fraction(-sg)})
            if any(m != () and any(k == ja for k, e in m) for m in r): continue
            if all(m == () for m in r):
                q = r.get((), Fraction(0))
                if sg == 1: lo = q
                else: hi = q
            else:
                try: r2 = p_add(r, p_scale(poly(nn)[0], sg))
                except TooBig: continue
                if all(m == () for m in r2):
                    q = r2.get((), Fraction(0))
                    if sg == 1: hi = q - 1          # j - n + q
                    else: lo = q + 1
        if hi is not None and (hi < 0 or hi <= 0 and not strict): pairs.append((c, z3.BoolVal(True)))
        elif lo is not None and (lo >= 0 and strict or lo > 0): pairs.append((c, z3.BoolVal(False)))
    if not pairs: return b
    b = z3.substitute(z(b), *pairs)
    for c in list(subterms([b])):
        if z3.is_app(c) and c.decl().name() == 'ind' and c.num_args() == 1 and c.arg(0).sort() == B:
            v = z3.simplify(c.arg(0))
            if z3.is_true(v) or z3.is_false(v): b = z3.substitute(b, (c, z3.RealVal(1 if z3.is_true(v) else 0)))
    return back(ite_fold(b))
JVAR = z3.Int('j!bound')
_holes = {}
def HOLE(i, srt):
    k = (i, str(srt))
    if k not in _holes: _holes[k] = z3.Const('hole!%d!%s' % (i, srt), srt)
    return _holes[k]
def skel(e, j):
    args, tmpl = abstract(e, j)
    return tmpl.sexpr()
def abstract(e, j):
    """replace maximal j-free subterms by holes"""
    args = []
    memo = {}
    fun = {}
    def dep(t):
        i = t.get_id()
        if i not in memo:
            memo[i] = (t.eq(j) or any([dep(c) for c in t.children()]), t)
        return memo[i][0]
    def go(t):
        if not dep(t):
            if conc(back(t)): return t
            for i, a in enumerate(args):
                if a.eq(t): return HOLE(i, t.sort())
            args.append(t)
            return HOLE(len(args) - 1, t.sort())
        if t.eq(j): return JVAR
        i = t.get_id()
        if i not in fun: fun[i] = (t.decl()(*[go(c) for c in t.children()]) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else nary(t, [go(c) for c in t.children()]), t)
        return fun[i][0]
    r = go(z(e))
    return args, r
def nary(t, cs):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(*cs)
    if k == z3.Z3_OP_OR: return z3.Or(*cs)
    if k == z3.Z3_OP_ADD: return z3.Sum(*cs) if len(cs) > 1 else cs[0]
    if k == z3.Z3_OP_MUL: return z3.Product(*cs) if len(cs) > 1 else cs[0]
    return t.decl()(*cs)

def ind(c):
    """0/1 real for a condition, in a canonical form: products over conjunctions,
    complements for negations"""
    if conc(c): return Fraction(1 if c else 0)
    k = c.decl().kind()
    if k == z3.Z3_OP_AND:
        r = Fraction(1)
        for a in c.children(): r = mul(r, ind(back(a)))
        return r
    if k == z3.Z3_OP_OR:
        r = Fraction(1)
        for a in c.children(): r = mul(r, sub(Fraction(1), ind(back(a))))
        return sub(Fraction(1), r)
    if k == z3.Z3_OP_NOT: return sub(Fraction(1), ind(back(c.arg(0))))
    if k == z3.Z3_OP_IMPLIES: return ind(or_(not_(c.arg(0)), c.arg(1)))
    if k in (z3.Z3_OP_ITE,): return add(mul(ind(c.arg(0)), ind(back(c.arg(1)))), mul(sub(Fraction(1), ind(c.arg(0))), ind(back(c.arg(2)))))
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        a, b = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): a, b = b, a
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        isint = a.sort() == I
        if not any(z3.is_app_of(t, z3.Z3_OP_ITE) for t in subterms([a, b])):
            n, d = poly(sub(b, a))
            if d == P1:
                # canonical: p >= 0 or p > 0, with the leading coefficient's sign made positive
                if isint and strict: n = p_add(n, p_const(1), -1); strict = False
                ms = sorted((m for m in n if m != ONE), key=lambda m: mono_key(m))
                if ms:
                    lead = n[ms[0]]
                    n = p_scale(n, 1 / abs(lead))
                    if lead < 0:
                        # -q >= 0 (q = -n): not (q > 0)
                        q = p_scale(n, -1)
                        if isint:
                            # q <= 0  <=> not (q - 1 >= 0)
                            q2 = p_add(q, p_const(1), -1)
                            return sub(Fraction(1), INDF(zr(p_term(q2)) >= 0))
                        return sub(Fraction(1), INDF(zr(p_term(q)) > 0 if not strict else zr(p_term(q)) >= 0))
                    return INDF(zr(p_term(n)) > 0 if strict else zr(p_term(n)) >= 0)
        return INDF(a < b if strict else a <= b)
    if k == z3.Z3_OP_EQ and c.arg(0).sort() in (I, R):
        a, b = c.arg(0), c.arg(1)
        if not any(z3.is_app_of(t, z3.Z3_OP_ITE) for t in subterms([a, b])):
            n, d = poly(sub(a, b))
            if d == P1:
                ms = sorted((m for m in n if m != ONE), key=lambda m: mono_key(m))
                if ms:
                    n = p_scale(n, 1 / n[ms[0]])
                    return INDF(zr(p_term(n)) == 0)
        if a.get_id() > b.get_id(): a, b = b, a
        return INDF(a == b)
    if k == z3.Z3_OP_EQ:
        return INDF(c)
    if k == z3.Z3_OP_DISTINCT and c.num_args() == 2: return sub(Fraction(1), ind(c.arg(0) == c.arg(1)))
    return INDF(c)
def mono_key(m):
    return str([(ATOMS.keep[k].sexpr() if ATOMS.keep[k].num_args() < 6 else k, e) for k, e in m])
def ind_expand(e):
    """If(c, a, b) -> [c] a + (1 - [c]) b, throughout the arithmetic part of e"""
    if conc(e): return e
    memo = {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][0]
        v = back(t)
        if conc(v): r = v
        else:
            k = t.decl().kind()
            if k == z3.Z3_OP_ITE:
                c = ind(t.arg(0)); a = go(t.arg(1)); b = go(t.arg(2))
                r = add(mul(c, to_r(a)), mul(sub(Fraction(1), c), to_r(b)))
            elif k == z3.Z3_OP_ADD:
                r = Fraction(0)
                for x in t.children(): r = add(r, to_r(go(x)))
            elif k == z3.Z3_OP_SUB:
                r = to_r(go(t.arg(0)))
                for x in t.children()[1:]: r = sub(r, to_r(go(x)))
            elif k == z3.Z3_OP_MUL:
                r = Fraction(1)
                for x in t.children(): r = mul(r, to_r(go(x)))
            elif k == z3.Z3_OP_UMINUS: r = sub(Fraction(0), to_r(go(t.arg(0))))
            elif k == z3.Z3_OP_DIV: r = rdiv(to_r(go(t.arg(0))), to_r(go(t.arg(1))))
            elif k == z3.Z3_OP_TO_REAL: r = to_r(go(t.arg(0)))
            else: r = t
        memo[i] = (r, t)
        return r
    return go(e)
def to_r(x):
    if isz(x): return zr(x)
    return Fraction(int(x) if isinstance(x, bool) else x)
SUMS = SumReg()

# ---------------------------------------------------------------- quantified facts
class TrigSet(list):
    def add(s, x):
        if not any(conc(q[2]) and q == x for q in s): s.append(x)
class QFact:
    """for all Int vars: guard => body"""
    def __init__(s, vars_, guard, body, name=''):
        s.vars, s.guard, s.body, s.name = list(vars_), guard, body, name
        s.trig = None
    def subst(s, pairs):
        return QFact(s.vars, sub_(s.guard, *pairs), sub_(s.body, *pairs), s.name)
    def triggers(s):
        if s.trig is None:
            s.trig = []
            for v in s.vars:
                pos = TrigSet()
                for t in subterms([z(s.body), z(s.guard)]):
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        for p, a in enumerate(t.children()):
                            if a.eq(v): pos.add((t.decl().name(), p, 0))
                            elif a.sort() == I and z3.is_app_of(a, z3.Z3_OP_ADD) and sum(1 for c in a.children() if c.eq(v)) == 1:
                                o = [back(c) for c in a.children() if not c.eq(v)]
                                if len(o) == 1 and conc(o[0]): pos.add((t.decl().name(), p, o[0]))
                                elif not any(occurs(z(c), w) for c in o for w in s.vars):
                                    off = simp(z3.Sum(*[z(c) for c in o]) if len(o) > 1 else z(o[0]))
                                    if not any(q[0] == t.decl().name() and q[1] == p and isz(q[2]) and isz(off) and q[2].eq(off) for q in pos): pos.append((t.decl().name(), p, off))
                s.trig.append(pos)
        return s.trig
    def inst(s, ts):
        pr = list(zip(s.vars, [z(t) for t in ts]))
        return implies(sub_(s.guard, *pr), sub_(s.body, *pr))
    def formula(s):
        return z3.ForAll(s.vars, z3.Implies(zb(s.guard), zb(s.body)))

def instantiate(ground, qfacts, extra=(), rounds=3, cap=600, small=True):
    """ground: list of z3 Bool; returns list of instances"""
    out, done = [], set()
    seen_terms = set()
    pool = {}
    extra = [z(t) for t in extra]
    def absorb(es):
        for t in subterms(es):
            i = t.get_id()
            if i in seen_terms: continue
            seen_terms.add(i)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                for p, a in enumerate(t.children()):
                    if a.sort() == I:
                        d = pool.setdefault((t.decl().name(), p), {})
                        d.setdefault(a.get_id(), a)
    keep = []
    absorb(ground)
    for rnd in range(rounds):
        new = []
        for qi, q in enumerate(qfacts):
            cands = []
            for v, pos in zip(q.vars, q.triggers()):
                c = {}
                for (f, p, off) in pos:
                    for a in pool.get((f, p), {}).values():
                        t = z3.simplify(a - off) if isz(off) or off else a
                        c[t.get_id()] = t
                for t in extra: c[t.get_id()] = t
                cands.append(list(c.values())[:60])
            for ts in itertools.product(*cands):
                key = (qi,) + tuple(t.get_id() for t in ts)
                if key in done: continue
                done.add(key)
                keep.extend(ts)
                f = simp(q.inst(ts))
                if conc(f):
                    if not f: new.append(z3.BoolVal(False))
                    continue
                new.append(f)
                if len(out) + len(new) > cap: break
            if len(out) + len(new) > cap: break
        if not new: break
        out.extend(new)
        absorb(new)
        if len(out) > cap: break
    return out

# ---------------------------------------------------------------- axioms
EIGLO, EIGHI = z3.Function('eiglo', R, R, R, R), z3.Function('eighi', R, R, R, R)
def axioms(es):
    """instances of the axioms of the interpreted-by-axiom functions occurring in es"""
    out = []
    apps = {}
    for t in subterms(es):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            apps.setdefault(t.decl().name(), {})[t.get_id()] = t
    usepi = 'pi' in apps or any(n in apps for n in ('atan2', 'normalize_angle'))
    done = set()
    for n in ('sin', 'cos'):
        for t in apps.get(n, {}).values():
            a = t.arg(0)
            if a.get_id() in done: continue
            done.add(a.get_id())
            s, c = SIN(a), COS(a)
            out += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
            if conc(back(a)) and back(a) == 0: out += [s == 0, c == 1]
    for t in apps.get('exp', {}).values():
        a = t.arg(0)
        out += [t > 0, z3.Implies(a <= 0, t <= 1), z3.Implies(a == 0, t == 1), z3.Implies(a < 0, t < 1), t >= 1 + a]
    es_ = list(apps.get('exp', {}).values())
    for x, y in itertools.combinations(es_[:6], 2):
        out.append(z3.Implies(x.arg(0) < y.arg(0), x < y))
    for t in apps.get('sqrt', {}).values():
        a = t.arg(0)
        out += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a == 0, t == 0), z3.Implies(a > 0, t > 0)]
    for t in apps.get('trunc', {}).values():
        a = t.arg(0); r = z3.ToReal(t)
        out += [z3.Implies(a >= 0, z3.And(r <= a, a < r + 1, t >= 0)), z3.Implies(a < 0, z3.And(r >= a, a > r - 1, t <= 0))]
    for t in apps.get('floorI', {}).values():
        a = t.arg(0); r = z3.ToReal(t)
        out += [r <= a, a < r + 1]
    for t in apps.get('atan2', {}).values():
        y, x = t.arg(0), t.arg(1)
        h = SQRT(x * x + y * y)
        out += [t > -PI, t <= PI, h * COS(t) == x, h * SIN(t) == y, h >= 0, h * h == x * x + y * y,
                SIN(t) * SIN(t) + COS(t) * COS(t) == 1]
    for t in apps.get('normalize_angle', {}).values():
        a = t.arg(0); k = NORMK(a)
        out += [t > -PI, t <= PI, t == a - 2 * PI * z3.ToReal(k), SIN(t) == SIN(a), COS(t) == COS(a)]
    for n in ('eiglo', 'eighi'):
        for t in apps.get(n, {}).values():
            if ('eig', tuple(c.get_id() for c in t.children())) in done: continue
            done.add(('eig', tuple(c.get_id() for c in t.children())))
            a, b, d = t.children(); lo, hi = EIGLO(a, b, d), EIGHI(a, b, d)
            out += [lo <= hi, lo + hi == a + d, lo * hi == a * d - b * b]
    for t in apps.get('ind', {}).values():
        c = t.arg(0)
        out += [z3.Implies(c, t == 1), z3.Implies(z3.Not(c), t == 0)]
    for t in apps.get('f32', {}).values():
        if conc(back(t.arg(0))): out.append(t == t.arg(0))
    if usepi or any(z3.is_app(x) and x.decl().name() == 'pi' for x in subterms(out)):
        out += [PI > z3.Q(31415926, 10000000), PI < z3.Q(31415927, 10000000)]
    # sums: empty sum; one unrolled step when the bound is syntactically n + 1 or a numeral
    for n, d in apps.items():
        if n in SUMS.info:
            for t in d.values():
                b = t.arg(0)
                out.append(z3.Implies(b <= 0, t == 0))
                if sum_nonneg(t): out.append(t >= 0)
    return out

def sum_step(app):
    """n >= 1 => Sum(n) == Sum(n-1) + body(n-1)"""
    n = app.arg(0)
    prev = app.decl()(*([z3.simplify(n - 1)] + app.children()[1:]))
    return z3.Implies(n >= 1, app == prev + zr(SUMS.body(app, z3.simplify(n - 1))))

def nonneg_poly(p):
    return all(c >= 0 and all(e % 2 == 0 or nonneg_atom(ATOMS.keep[k]) for k, e in m) for m, c in p.items())
def nonneg_atom(t):
    return z3.is_app(t) and t.decl().name() in ('ind', 'exp', 'sqrt') or SUMS.is_sum(t) and sum_nonneg(t)
def sum_nonneg(t):
    try:
        n, d = poly(to_r(SUMS.body(t, z3.Int('j?'))))
        return nonneg_poly(n) and nonneg_poly(d)
    except TooBig: return False
def unit(facts):
    """the facts with implications whose premises are among them resolved"""
    out = []
    pend = list(facts)
    true = {}
    def put(f):
        for c in conjuncts(f):
            if c.get_id() not in true:
                true[c.get_id()] = c; out.append(c)
    def holds(c): return all(x.get_id() in true for x in (conjuncts(c)))
    def fails(c):
        if z3.is_not(c): return holds(c.arg(0))
        return z3.Not(c).get_id() in true
    for _ in range(3):
        left = []; prog = False
        for f in pend:
            if z3.is_app_of(f, z3.Z3_OP_IMPLIES):
                if holds(f.arg(0)): put(f.arg(1)); prog = True
                elif any(fails(c) for c in conjuncts(f.arg(0))): prog = True
                else: left.append(f)
            elif z3.is_or(f):
                cs = [c for c in f.children() if not fails(c)]
                if len(cs) == 1: put(cs[0]); prog = True
                else: left.append(f)
            elif z3.is_not(f) and z3.is_or(f.arg(0)):
                for c in f.arg(0).children(): put(not_(c)) if isz(not_(c)) else None
                prog = True
            elif z3.is_not(f) and z3.is_not(f.arg(0)): put(f.arg(0).arg(0)); prog = True
            else: put(f); prog = True
        pend = left
        if not prog or not pend: break
    return out + pend
def same_as_fact(goal, facts):
    """the goal is an equation that a fact states, up to a constant factor"""
    try: n, d = poly(sub(goal.arg(0), goal.arg(1)))
    except TooBig: return False
    if not n: return True
    k0 = min(n); 
    def norm_(p): return {m: c / p[k0] for m, c in p.items()}
    nn = norm_(n)
    for f in facts:
        if z3.is_eq(f) and f.arg(0).sort() in (R, I):
            try: a, b = poly(sub(f.arg(0), f.arg(1)))
            except TooBig: continue
            if k0 in a and len(a) == len(n) and norm_(a) == nn: return True
    return False
def sum_steps(es, facts):
    """unrolled last steps of the sums in es whose bound is a successor"""
    out = []
    for t in subterms(es):
        if z3.is_app(t) and SUMS.is_sum(t):
            b = t.arg(0)
            if z3.is_int_value(b):
                if not 1 <= b.as_long() <= 8: continue
            elif not (z3.is_app_of(b, z3.Z3_OP_ADD) and any(z3.is_int_value(c) and c.as_long() > 0 for c in b.children())): continue
            st = sum_step(t)
            r, _ = smt_check([f for f in facts if isz(f)] + [z3.Not(b >= 1)], 500)
            out.append(st.arg(1) if r == z3.unsat else st)
    return out

# ---------------------------------------------------------------- proving
class Result:
    def __init__(s, ok, how, model=None, t=0.0): s.ok, s.how, s.model, s.t = ok, how, model, t
STATS = {'queries': 0, 'z3': 0.0, 'poly': 0, 'simplify': 0, 'smt': 0, 'cvc5': 0, 'nlsat': 0, 'sum': 0}

def conjuncts(g):
    if isz(g) and z3.is_and(g):
        for c in g.children(): yield from conjuncts(c)
    elif isz(g) and z3.is_app_of(g, z3.Z3_OP_IMPLIES) and z3.is_and(g.arg(1)):
        for c in g.arg(1).children(): yield from conjuncts(z3.Implies(g.arg(0), c))
    else: yield g

def poly_eq(goal):
    """equality of reals that is an identity of rational functions"""
    try:
        if z3.is_eq(goal) and goal.arg(0).sort() in (R, I):
            a, b = goal.arg(0), goal.arg(1)
            n1, d1 = poly(a); n2, d2 = poly(b)
            if not d1 or not d2: return False
            if d1 == d2: return not p_add(n1, n2, -1)
            return not p_add(p_mul(n1, d2), p_mul(n2, d1), -1)
    except TooBig: pass
    return False

def smt_check(fs, timeout=4000, seed=1):
    s = z3.Solver()
    s.set('timeout', int(timeout)); s.set('random_seed', seed)
    for f in fs: s.add(f)
    t0 = time.time()
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    STATS['z3'] += time.time() - t0; STATS['queries'] += 1
    return r, (s.model() if r == z3.sat else None)

def ackermann(fs):
    """replace applications of uninterpreted functions by fresh constants, adding
    congruence for pairs of applications of the same function"""
    memo, apps = {}, {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][0]
        cs = [go(c) for c in t.children()]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and cs:
            r = None
            for (args, v) in apps.setdefault(t.decl().name(), []):
                if all(a.eq(b) for a, b in zip(args, cs)): r = v
            if r is None:
                r = z3.FreshConst(t.sort(), 'ack')
                apps[t.decl().name()].append((cs, r))
        elif cs:
            r = t.decl()(*cs) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else nary(t, cs)
        else: r = t
        memo[i] = (r, t)
        return r
    out = [go(f) for f in fs]
    for n, l in apps.items():
        for (a1, v1), (a2, v2) in itertools.combinations(l, 2):
            c = z3.simplify(z3.And(*[x == y for x, y in zip(a1, a2)]))
            if z3.is_false(c): continue
            out.append(z3.Implies(c, v1 == v2))
    return out

@remember
def has_div(f):
    return any(z3.is_app_of(t, z3.Z3_OP_DIV) for t in subterms([f]))
def quotients(fs):
    """replace every quotient with an unknown denominator by one number per rational function"""
    memo, by = {}, {}
    hit = [False]
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][0]
        r = t
        if z3.is_app_of(t, z3.Z3_OP_DIV) and not conc(back(t.arg(1))):
            try:
                n, d = poly(t)
                if d:
                    k0 = min(d); c0 = d[k0]
                    key = (tuple(sorted((m, c / c0) for m, c in n.items())), tuple(sorted((m, c / c0) for m, c in d.items())))
                    if key not in by: by[key] = z3.FreshConst(R, 'quot')
                    r = by[key]; hit[0] = True
                    memo[i] = (r, t)
                    return r
            except TooBig: pass
        if t.num_args():
            cs = [go(c) for c in t.children()]
            if not all(a.eq(b) for a, b in zip(cs, t.children())):
                r = t.decl()(*cs) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else nary(t, cs)
        memo[i] = (r, t)
        return r
    out = [go(f) if has_div(f) else f for f in fs]
    return out if hit[0] else None

def int_products(fs):
    """products of unknowns read as unknowns, with the monotonicity of integer products that share a factor;
    None when there are no integer products"""
    memo, prods = {}, {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][0]
        if z3.is_quantifier(t): r = t
        elif z3.is_app(t) and t.num_args():
            cs = [go(x) for x in t.children()]
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL:
                num = [x for x in cs if z3.is_rational_value(x) or z3.is_int_value(x)]; oth = sorted([x for x in cs if not (z3.is_rational_value(x) or z3.is_int_value(x))], key=lambda x: x.get_id())
                if len(oth) < 2: r = t if all(a.eq(b) for a, b in zip(cs, t.children())) else nary(t, cs)
                else:
                    key = tuple(x.get_id() for x in oth)
                    if key not in prods: prods[key] = (z3.Const('prod!%d' % len(prods), t.sort()), oth)
                    r = prods[key][0]
                    for x in num: r = x * r
            else: r = t if all(a.eq(b) for a, b in zip(cs, t.children())) else nary(t, cs) if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_DISTINCT) else t.decl()(*cs)
        else: r = t
        memo[i] = (r, t)
        return r
    out = [go(f) for f in fs if isz(f)]
    ints = [(p, o) for p, o in prods.values() if p.sort() == I and len(o) == 2]
    if not ints or len(ints) > 24: return None
    for p, (a, b) in ints:
        out.append(z3.Implies(z3.And(a >= 0, b >= 0), p >= 0))
        out.append(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(p >= a, p >= b)))
    for n, (p, o) in enumerate(ints):
        for q, u in ints[n + 1:]:
            for x in (0, 1):
                for y in (0, 1):
                    if not o[x].eq(u[y]): continue
                    f, a, b = o[x], o[1 - x], u[1 - y]
                    out.append(z3.Implies(z3.And(f >= 0, a + 1 <= b), p + f <= q)); out.append(z3.Implies(z3.And(f >= 0, b + 1 <= a), q + f <= p))
                    out.append(z3.Implies(a == b, p == q))
    return out
def nl_check(fs, timeout=4000):
    t0 = time.time()
    try:
        fs2 = ackermann(fs)
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'smt')
        ints = any(x.sort() == I for x in subterms(fs2))
        if not ints:
            t = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'simplify', 'qfnra-nlsat'), int(timeout))
        else: t = z3.TryFor(t, int(timeout))
        s = t.solver()
        for f in fs2: s.add(f)
        r = s.check()
    except z3.Z3Exception: r = z3.unknown
    STATS['z3'] += time.time() - t0; STATS['queries'] += 1
    return r

def cvc5_check(fs, timeout=6000):
    import subprocess, tempfile, os
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--nl-ext-tplanes', f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        r = p.stdout.strip().split('\n')[0]
    except Exception: r = 'unknown'
    finally: os.unlink(f.name)
    STATS['z3'] += time.time() - t0; STATS['queries'] += 1
    return {'unsat': z3.unsat, 'sat': z3.sat}.get(r, z3.unknown)

@remember
def rename_syms(f):
    s = set()
    for t in subterms([f]):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.decl().name() in ('pi',):
            s.add(t.decl().name() if t.num_args() == 0 or True else '')
    return s

def relevant(facts, goal, depth):
    if depth is None: return list(facts)
    syms = rename_syms(goal)
    fs = [(f, rename_syms(f)) for f in facts]
    got = []
    for _ in range(depth):
        add_, rest = [], []
        for f, s in fs:
            (add_ if (s & syms or not s) else rest).append((f, s))
        for f, s in add_: got.append(f); syms |= s
        fs = rest
        if not add_: break
    return got

def prove(goal, facts, qfacts=(), extra=(), timeout=6000, hard=True, sums=True, depth=None):
    """facts: list of z3 Bool/py bool. returns Result"""
    t0 = time.time()
    if isz(goal) and not (z3.is_eq(goal) or z3.is_and(goal) or z3.is_app_of(goal, z3.Z3_OP_IMPLIES)):
        g_ = simp(goal)
        if conc(g_) or not z3.is_eq(goal) and z3.is_or(goal) == (isz(g_) and z3.is_or(g_)): goal = g_
    if conc(goal) and goal is True: STATS['simplify'] += 1; return Result(True, 'simplify')
    if not conc(goal) and z3.is_eq(goal) and goal.arg(0).eq(goal.arg(1)): STATS['simplify'] += 1; return Result(True, 'simplify')
    fs = []
    for f in facts:
        if conc(f):
            if not f: return Result(True, 'unreachable')
        else: fs.append(f)
    if isz(goal):
        if z3.is_and(goal):
            hows = []
            for c in goal.children():
                r = prove(back(c), fs, qfacts, extra, timeout, hard, sums, depth)
                if not r.ok: return r
                hows.append(r.how)
            return Result(True, '+'.join(sorted(set(hows))), t=time.time() - t0)
        if z3.is_app_of(goal, z3.Z3_OP_IMPLIES):
            a0 = simp(goal.arg(0))
            if conc(a0) and not a0: return Result(True, 'simplify')
            return prove(back(goal.arg(1)), fs + ([goal.arg(0)] if not conc(a0) else []), qfacts, extra, timeout, hard, sums, depth)
        if poly_eq(goal): STATS['poly'] += 1; return Result(True, 'polynomial', t=time.time() - t0)
    g = zb(goal)
    ng = z3.Not(g)
    # directly
    ground = fs + [ng]
    inst = instantiate(ground, qfacts, extra) if qfacts else []
    base = fs + inst
    base = unit(base + sum_steps([ng], base))
    if isz(goal) and z3.is_eq(goal) and goal.arg(0).sort() in (R, I) and same_as_fact(goal, base): STATS['poly'] += 1; return Result(True, 'polynomial', t=time.time() - t0)
    if isz(goal) and z3.is_eq(goal) and goal.arg(0).sort() == R:
        g2 = rewrite_eqs(goal, base)
        if g2 is not None and (conc(g2) and g2 or isz(g2) and (poly_eq(g2) or same_as_fact(g2, base))): STATS['poly'] += 1; return Result(True, 'polynomial', t=time.time() - t0)
    ax = axioms(base + [ng])
    qa = quotients(base + ax + [ng])
    if qa is not None and smt_check(qa, min(timeout, 3000))[0] == z3.unsat: STATS['smt'] += 1; return Result(True, 'z3', t=time.time() - t0)
    pr = int_products(qa if qa is not None else base + ax + [ng])
    if pr is not None and smt_check(pr, min(timeout, 3000))[0] == z3.unsat: STATS['smt'] += 1; return Result(True, 'z3', t=time.time() - t0)
    r, m = smt_check(base + ax + [ng], timeout)
    if r == z3.unsat: STATS['smt'] += 1; return Result(True, 'z3', t=time.time() - t0)
    if isz(goal) and z3.is_eq(goal) and goal.arg(0).sort() in (R, I):
        rr = split_eq(goal, base, timeout)
        if rr: return Result(True, rr, t=time.time() - t0)
        if sums:
            rr = sum_ext(goal, fs, qfacts, extra, timeout)
            if rr: STATS['sum'] += 1; return Result(True, 'sum-extensionality', t=time.time() - t0)
    if INTERVALS[0] and interval_ok(goal, base): return Result(True, 'intervals', t=time.time() - t0)
    if hard:
        rel = relevant(base, ng, 2)
        ax2 = axioms(rel + [ng])
        r2 = nl_check(rel + ax2 + [ng], timeout)
        if r2 == z3.unsat: STATS['nlsat'] += 1; return Result(True, 'z3-nlsat', t=time.time() - t0)
        if r != z3.sat:
            r3 = cvc5_check(base + ax + [ng], timeout)
            if r3 == z3.unsat: STATS['cvc5'] += 1; return Result(True, 'cvc5', t=time.time() - t0)
    return Result(False, 'sat' if r == z3.sat else 'unknown', m, t=time.time() - t0)

INTERVALS = [False]        # only while obligations are discharged
class Ival:
    """bounds of terms from bounds of their variables; the bounds of a variable follow from
    the facts (linear arithmetic)"""
    def __init__(s, facts): s.facts, s.memo = facts, {}
    def var(s, t):
        lo = hi = None
        rel = [f for f in relevant(s.facts, t == t, 3) if len_ok(f)] if False else [f for f in relevant(s.facts, z3.Or(t <= 0, t > 0), 3)]
        rel = [f for f in rel if sum(1 for _ in zip(subterms([f]), range(60))) < 60]
        def le(c): return smt_check(rel + [t > c], 600)[0] == z3.unsat
        def ge(c): return smt_check(rel + [t < c], 600)[0] == z3.unsat
        cand = [Fraction(0), Fraction(1), Fraction(2)]
        for q in subterms(rel):
            if z3.is_rational_value(q) or z3.is_int_value(q):
                v = back(q)
                if conc(v): cand += [Fraction(v), Fraction(v) + 1, Fraction(v) - 1]
        cand = sorted(set(cand))
        for v in reversed(cand):
            if ge(z3.RealVal(str(v)) if t.sort() == R else (z3.IntVal(int(v)) if v.denominator == 1 else z3.IntVal(math.floor(v)))): lo = v; break
        for v in cand:
            if (lo is None or v >= lo) and le(z3.RealVal(str(v)) if t.sort() == R else (z3.IntVal(int(v)) if v.denominator == 1 else z3.IntVal(math.ceil(v)))): hi = v; break
        if t.sort() == I:
            lo = None if lo is None else Fraction(math.floor(lo)); hi = None if hi is None else Fraction(math.ceil(hi))
        return lo, hi
    def of(s, t):
        i = t.get_id()
        if i not in s.memo: s.memo[i] = (s.go(t), t)
        return s.memo[i][0]
    def go(s, t):
        v = back(t)
        if conc(v): return Fraction(v), Fraction(v)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            lo = hi = Fraction(0)
            for c in t.children():
                a, b = s.of(c)
                lo = None if lo is None or a is None else lo + a; hi = None if hi is None or b is None else hi + b
            return s.meet(t, lo, hi)
        if k == z3.Z3_OP_SUB and t.num_args() == 2:
            (a, b), (c, d) = s.of(t.arg(0)), s.of(t.arg(1))
            return s.meet(t, None if a is None or d is None else a - d, None if b is None or c is None else b - c)
        if k == z3.Z3_OP_UMINUS:
            a, b = s.of(t.arg(0)); return None if b is None else -b, None if a is None else -a
        if k == z3.Z3_OP_MUL:
            cs = t.children(); r = s.of(cs[0]); sq_ = False
            for n, c in enumerate(cs[1:]):
                r = s.mul(r, s.of(c))
            if len(cs) == 2 and cs[0].eq(cs[1]): r = (max(Fraction(0), r[0]) if r[0] is not None else Fraction(0), r[1])
            return r
        if k == z3.Z3_OP_DIV:
            a, b = s.of(t.arg(0)), s.of(t.arg(1))
            if b[0] is not None and b[0] > 0: return s.mul(a, (Fraction(0) if b[1] is None else 1 / b[1], 1 / b[0]))
            if b[1] is not None and b[1] < 0: return s.mul(a, (1 / b[1], Fraction(0) if b[0] is None else 1 / b[0]))
            return None, None
        if k == z3.Z3_OP_TO_REAL: return s.of(t.arg(0))
        if k == z3.Z3_OP_TO_INT:
            a, b = s.of(t.arg(0)); return None if a is None else Fraction(math.floor(a)), None if b is None else Fraction(math.floor(b))
        if k == z3.Z3_OP_ITE:
            (a, b), (c, d) = s.of(t.arg(1)), s.of(t.arg(2))
            return None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d)
        if t.decl().eq(SQRT):
            a, b = s.of(t.arg(0))
            lo = Fraction(0) if a is None or a <= 0 else Fraction(math.isqrt(int(a * 10**12)), 10**6)
            return lo, None if b is None or b < 0 else Fraction(math.isqrt(int(b * 10**12) + 1) + 1, 10**6)
        if t.decl().name() == 'trunc':
            a, b = s.of(t.arg(0))
            return None if a is None else Fraction(math.trunc(a)), None if b is None else Fraction(math.trunc(b))
        if t.decl().name() in ('sin', 'cos'): return Fraction(-1), Fraction(1)
        if t.sort() in (I, R): return s.var(t)
        return None, None
    def meet(s, t, lo, hi):
        if lo is None or hi is None:
            # linear sums may have bounds of their own
            if all(z3.is_const(q) or back(q) is not None for q in t.children()):
                a, b = s.var(t)
                lo = a if lo is None else lo; hi = b if hi is None else hi
        return lo, hi
    def mul(s, p, q):
        (a, b), (c, d) = p, q
        if p == (0, 0) or q == (0, 0): return Fraction(0), Fraction(0)
        INF = float('inf')
        f = lambda x, w: w if x is None else x
        a, b, c, d = f(a, -INF), f(b, INF), f(c, -INF), f(d, INF)
        m = lambda x, y: Fraction(0) if x == 0 or y == 0 else (x * y if not (isinstance(x, float) or isinstance(y, float)) else (INF if (x > 0) == (y > 0) else -INF))
        v = [m(x, y) for x in (a, b) for y in (c, d)]
        lo, hi = min(v), max(v)
        return None if isinstance(lo, float) else lo, None if isinstance(hi, float) else hi
def interval_ok(goal, facts):
    if not isz(goal): return False
    g, pos = goal, True
    while z3.is_not(g): g, pos = g.arg(0), not pos
    if not (z3.is_lt(g) or z3.is_le(g) or z3.is_gt(g) or z3.is_ge(g)): return False
    a, b, strict = (g.arg(0), g.arg(1), z3.is_lt(g)) if z3.is_lt(g) or z3.is_le(g) else (g.arg(1), g.arg(0), z3.is_gt(g))
    if not pos: a, b, strict = b, a, not strict
    iv = Ival([f for f in facts if isz(f)])
    (_, x), (y, _) = iv.of(a), iv.of(b)
    return x is not None and y is not None and (x < y or x == y and not strict)
def split_eq(goal, facts, timeout, depth=0, budget=None):
    """case split on the conditions of if-then-else terms, then polynomial identity;
    equalities among the facts are used as rewrites"""
    if budget is None: budget = [64]
    if budget[0] <= 0: return None
    budget[0] -= 1
    cs = ite_conds(goal)
    if not cs:
        if poly_eq(goal): STATS['poly'] += 1; return 'polynomial'
        g2 = rewrite_eqs(goal, facts)
        if g2 is not None and (conc(g2) and g2 or isz(g2) and poly_eq(g2)): STATS['poly'] += 1; return 'polynomial'
        ng = z3.Not(goal)
        ax = axioms(facts + [ng])
        r, _ = smt_check(facts + ax + [ng], min(timeout, 3000))
        if r == z3.unsat: STATS['smt'] += 1; return 'z3'
        r = nl_check(relevant(facts + ax, ng, 1) + [ng], min(timeout, 3000))
        if r == z3.unsat: STATS['nlsat'] += 1; return 'z3-nlsat'
        return None
    c = min(cs, key=lambda t: len(list(subterms([t]))))
    hows = set()
    for val in (True, False):
        lit = c if val else z3.Not(c)
        r, _ = smt_check(facts + [lit], 1500)
        if r == z3.unsat: continue
        g = z3.substitute(goal, (c, z3.BoolVal(val)))
        g = back(ite_fold(g))
        if conc(g):
            if g: continue
            return None
        h = split_eq(g, facts + [lit], timeout, depth + 1, budget)
        if h is None: return None
        hows.add(h)
    STATS['poly'] += 1
    return 'cases+' + '+'.join(sorted(hows) or ['z3'])

def ite_fold(e):
    memo = {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][0]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = go(t.arg(0))
            if z3.is_true(c): r = go(t.arg(1))
            elif z3.is_false(c): r = go(t.arg(2))
            else: r = z3.If(c, go(t.arg(1)), go(t.arg(2)))
        elif t.num_args() == 0: r = t
        else:
            cs = [go(c) for c in t.children()]
            k = t.decl().kind()
            r = nary(t, cs) if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else t.decl()(*cs)
            if r.sort() == B: r = z3.simplify(r) if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT) else r
        memo[i] = (r, t)
        return r
    return go(e)

def rewrite_eqs(goal, facts):
    """use facts  const == term  (const an uninterpreted constant or application not
    inside term) as substitutions"""
    pairs = []
    for f in facts:
        for c in conjuncts(f):
            if isz(c) and z3.is_eq(c) and c.arg(0).sort() in (I, R):
                a, b = c.arg(0), c.arg(1)
                for x, y in ((a, b), (b, a)):
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(y, x):
                        pairs.append((x, y)); break
    if not pairs: return None
    g = goal
    for _ in range(3):
        g2 = z3.substitute(g, *pairs)
        if g2.eq(g): break
        g = g2
    return back(g)

def sum_ext(goal, facts, qfacts, extra, timeout, depth=0):
    """lhs - rhs == 0 where both sides are sums: merge the sums with provably equal
    bounds into one and show its body is zero for every index"""
    try:
        n, d = poly(ind_expand(sub(goal.arg(0), goal.arg(1))))
    except TooBig: return None
    groups, rest = [], {}
    for m, c in n.items():
        ss = [(k, e) for k, e in m if SUMS.is_sum(ATOMS.keep[k])]
        if not ss: rest[m] = c; continue
        if len(ss) != 1 or ss[0][1] != 1: return None
        k = ss[0][0]
        app = ATOMS.keep[k]
        coef = c
        for k2, e2 in m:
            if k2 != k:
                for _ in range(e2): coef = mul(coef, atom_expr(k2))
        groups.append((app, coef))
    if not groups: return None
    bounds = []
    for app, coef in groups:
        b = app.arg(0)
        for bl in bounds:
            if bl[0].eq(b) or prove(bl[0] == b, facts, qfacts, extra, 1500, hard=False, sums=False).ok:
                bl[1].append((app, coef)); break
        else: bounds.append((b, [(app, coef)]))
    for b, l in bounds:
        j = z3.Int('jx!%d' % uid())
        tot = Fraction(0)
        for app, coef in l: tot = add(tot, mul(coef, to_r(SUMS.body(app, j))))
        if len(bounds) == 1 and rest:
            # rest must be q * bound: body + q == 0
            rt = p_term(rest)
            q = rdiv(rt, zr(b))
            try: nn, dd = poly(q)
            except TooBig: return None
            ex = p_div_atom(rest, b)
            if ex is None: return None
            tot = add(tot, p_term(ex))
        elif rest: return None
        r = prove(eqv(tot, Fraction(0)), facts + [j >= 0, j < b], qfacts, list(extra) + [j], timeout, hard=True, sums=(depth < 2))
        if not r.ok: return None
    return 'sum'
def p_div_atom(p, b):
    k = ATOMS.of(b)
    r = {}
    for m, c in p.items():
        d = dict(m)
        if d.get(k, 0) < 1: return None
        d[k] -= 1
        if d[k] == 0: del d[k]
        r[tuple(sorted(d.items()))] = c
    return r
