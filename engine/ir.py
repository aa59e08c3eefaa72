"""The extracted program: functions, types (from debug information), loops."""
import json, re

def norm(s): return re.sub(r'\s+', '', s)

class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.fn, s.globals, s.structs, s.di = d['functions'], d['globals'], d['structs'], d['di']
        s.bydem = {}
        for f in s.fn.values():
            s.bydem.setdefault(norm(f['dem']), f)
            # constructors come in two identical copies (C1, C2)
        for f in s.fn.values():
            if f['decl']: continue
            f['bmap'] = {b['id']: b for b in f['blocks']}
            f['lmap'] = {l['header']: l for l in f['loops']}
            f['rpo'] = s.rpo(f)
            f['dimap'] = {v[0]: v[3] for v in f.get('vars', [])}
        s.byq = {}
        for t in s.di:
            if t['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type', 'DW_TAG_union_type') and not t.get('decl'):
                s.byq.setdefault(norm(t['qname']), t['id'])
        s._flat = {}
        s._strip = {}
    def rpo(s, f):
        seen, out = set(), []
        st = [(f['blocks'][0]['id'], None)]
        def succs(b):
            t = f['bmap'][b]['ins'][-1]
            if t['op'] == 'br': return t['succ']
            if t['op'] == 'switch': return [t['default']] + [c[1] for c in t['cases']]
            if t['op'] == 'invoke': return [t['normal'], t['unwind']]
            return []
        f['succs'] = {b['id']: succs(b['id']) for b in f['blocks']}
        stack = [(f['blocks'][0]['id'], iter(f['succs'][f['blocks'][0]['id']]))]
        seen.add(f['blocks'][0]['id'])
        while stack:
            b, it = stack[-1]
            for n in it:
                if n not in seen:
                    seen.add(n); stack.append((n, iter(f['succs'][n]))); break
            else:
                out.append(b); stack.pop()
        out.reverse()
        return {b: i for i, b in enumerate(out)}
    def find(s, dem):
        """function whose demangled name is dem, or starts with dem + '('"""
        n = norm(dem)
        f = s.bydem.get(n)
        if f: return f
        c = [f for k, f in s.bydem.items() if k.startswith(n + '(')]
        c = [f for f in c if not f['decl']] or c
        return c[0] if c else None
    # ---- types
    def strip(s, t):
        """through typedefs, const, references are kept"""
        while t is not None and t >= 0 and s.di[t]['tag'] in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_member'):
            t = s.di[t].get('base', -1)
        return t
    def pointee(s, t):
        t = s.strip(t)
        if t is None or t < 0: return None
        if s.di[t]['tag'] in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return s.full(s.strip(s.di[t].get('base', -1)))
        return None
    def full(s, t):
        """definition for a forward declaration"""
        if t is None or t < 0: return t
        d = s.di[t]
        if d.get('decl'): return s.byq.get(norm(d['qname']), t)
        return t
    def cls(s, q):
        return s.byq.get(norm(q))
    def qname(s, t):
        return norm(s.di[t]['qname']) if t is not None and t >= 0 else '?'
    def derived(s, t):
        if not hasattr(s, '_der'):
            s._der = set()
            for d in s.di.values() if isinstance(s.di, dict) else s.di:
                for m in (d.get('members') or []) if d else []:
                    if m.get('inherit'): s._der.add(s.full(s.strip(m['type'])))
        return t in s._der
    def vec_elem(s, t):
        d = s.di[t]
        if norm(d['qname']).startswith('std::vector<'):
            return s.full(s.strip(d['tparams'][0]))
        return None
    def map_val(s, t):
        d = s.di[t]
        if norm(d['qname']).startswith('std::unordered_map<') or norm(d['qname']).startswith('std::map<'):
            return s.full(s.strip(d['tparams'][1]))
        return None
    def leaf(s, t):
        t = s.strip(t)
        if t is None or t < 0: return ('int', 64, False)
        d = s.di[t]
        if d['tag'] in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type', 'DW_TAG_ptr_to_member_type'):
            p = s.full(s.strip(d.get('base', -1)))
            return ('ptr', p)
        if d['tag'] == 'DW_TAG_enumeration_type': return ('int', d['size'] * 8, False)
        if d['tag'] == 'DW_TAG_base_type':
            enc = d.get('enc', 0)
            if enc == 2: return ('bool',)
            if enc == 4: return ('real', d['size'] * 8)
            return ('int', d['size'] * 8, enc in (5, 6, 13))
        return None
    def flat(s, t):
        """leaves of a type: list of (substeps, off, leaf, path); a vector contributes
        its length (off, 'n') and, one step down, its elements"""
        t = s.full(s.strip(t))
        if t in s._flat: return s._flat[t]
        s._flat[t] = []
        out = []
        d = s.di[t]
        lf = s.leaf(t)
        if lf is not None: out = [((), 0, lf, '')]
        elif d['tag'] == 'DW_TAG_array_type':
            esz = s.di[s.full(s.strip(d['base']))]['size']
            for i in range(d.get('count') or 0):
                for st, o, l, p in s.flat(d['base']):
                    out.append((((st[0] + i * esz,) + st[1:], o, l, '[%d]' % i + p) if st else (st, o + i * esz, l, '[%d]' % i + p)))
        elif s.vec_elem(t) is not None:
            out = [((), (0, 'n'), ('int', 64, False), '.size')]
            for st, o, l, p in s.flat(s.vec_elem(t)): out.append(((0,) + st, o, l, '[]' + p))
        elif s.map_val(t) is not None:
            out = [((0,), 'h', ('bool',), '.has')]
            # element is pair<const K, V>
            v = s.map_val(t)
            k = s.strip(d['tparams'][0])
            vo = max(s.di[k]['size'], s.align(v))
            for st, o, l, p in s.flat(v):
                out.append(((0,) + ((st[0] + vo,) + st[1:] if st else ()), o if st else o_add(o, vo), l, '[]' + p))
        else:
            for m in d.get('members', []):
                for st, o, l, p in s.flat(m['type']) if s.full(s.strip(m['type'])) >= 0 else []:
                    pp = ('.' if m['name'] else '') + m['name'] + p
                    if st: out.append(((st[0] + m['off'],) + st[1:], o, l, pp))
                    else: out.append((st, o_add(o, m['off']), l, pp))
        s._flat[t] = out
        return out
    def align(s, t):
        ls = [l for st, o, l, p in s.flat(t)]
        return 8 if any(l[0] in ('ptr',) or (l[0] in ('int', 'real') and l[1] == 64) for l in ls) else 4
    def path(s, t, path):
        """(substeps, off, leaf) of a named member path, e.g. 'pose_.x', 'points_[].x', 'points_.size'"""
        want = path if path.startswith('.') or path.startswith('[') or path == '' else '.' + path
        for st, o, l, p in s.flat(t):
            if p == want: return st, o, l
        raise KeyError('%s has no member %s' % (s.qname(t), path))
    def member(s, t, path):
        """offset of a (possibly composite) member path without indexing, and its type"""
        off = 0
        t = s.full(s.strip(t))
        for name in [x for x in path.split('.') if x]:
            t, o = s._member(t, name)
            off += o
        return off, t
    def _member(s, t, name):
        for m in s.di[t].get('members', []):
            if m['name'] == name: return s.full(s.strip(m['type'])), m['off']
        for m in s.di[t].get('members', []):
            if m.get('inherit'):
                try:
                    r, o = s._member(s.full(s.strip(m['type'])), name)
                    return r, o + m['off']
                except KeyError: pass
        raise KeyError('%s has no member %s' % (s.qname(t), name))

def o_add(o, d):
    return (o[0] + d, o[1]) if isinstance(o, tuple) else o + d
