"""Hash-consed value terms: the abstract value domain (value numbering)."""

import os
_SALT = int(os.environ.get('VERIF_SALT', '1'))

class T(object):
    __slots__ = ('op', 'a', 'id')
    def __hash__(self): return self.id * _SALT
    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]

def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t

def I(v):
    return mk('int', int(v))
TRUE, FALSE = I(1), I(0)
UNIT = mk('tup')
UNINIT = mk('uninit')

def is_int(t):
    return t.op == 'int'

# ---------------------------------------------------------------- sequences
EMPTY = mk('cat')

def lit(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return mk('cat', mk('lit', b)) if b else EMPTY

def one(e):
    return mk('one', e)

def seq(*elems):
    return cat(*[mk('cat', one(e)) for e in elems])

def parts(s):
    return s.a if s.op == 'cat' else (s,)

def cat(*ss):
    out = []
    for s in ss:
        for p in parts(s):
            if p.op == 'lit' and out and out[-1].op == 'lit':
                out[-1] = mk('lit', out[-1].a[0] + p.a[0])
                continue
            if out and p.op == 'slice' and out[-1].op == 'slice' and p.a[0] is out[-1].a[0] and out[-1].a[2] is p.a[1]:
                q = slice_(p.a[0], out[-1].a[1], p.a[2])
                out.pop()
                out.extend(parts(q))
                continue
            out.append(p)
    if len(out) == 1 and out[0].op not in ('lit', 'one'):
        return out[0]
    return mk('cat', *out)

def concrete_elems(s):
    """element list if the sequence is fully enumerated, else None"""
    r = []
    for p in parts(s):
        if p.op == 'one':
            r.append(p.a[0])
        elif p.op == 'lit':
            r.extend(I(b) for b in p.a[0])
        else:
            return None
    return r

def part_len(p):
    if p.op == 'one': return I(1)
    if p.op == 'lit': return I(len(p.a[0]))
    if p.op in ('be', 'le'): return I(p.a[0])
    if p.op == 'rep': return p.a[1]
    if p.op == 'slice':
        if p.a[2] is END:
            return sub(length(p.a[0]), p.a[1])
        return sub(p.a[2], p.a[1])
    if p.op == 'rev': return part_len(p.a[0])
    if p.op == 'uuid': return I(16)
    if p.op == 'comp' and len(p.a[1]) == 1 and not p.a[1][0][0] and all(x.op == 'one' for x in p.a[1][0][1]):
        return mulc(length(p.a[0]), len(p.a[1][0][1]))
    if p.op == 'sorted': return length(p.a[0])
    if p.op == 'range': return sub(p.a[1], p.a[0])
    if p.op == 'app' and p.a[0] == 'rd': return length(p.a[2])
    return mk('len', p)

def length(s):
    if s.op == 'upd' or s.op == 'sset':
        return length(s.a[0])
    r = I(0)
    for p in parts(s):
        r = add(r, part_len(p))
    return r

END = mk('end')

def slice_(s, a, b):
    """s[a..b]; b may be END"""
    if a is I(0) and (b is END or b is length(s)):
        return s
    if a is b:
        return EMPTY
    if b is not END and b is length(s):
        b = END
    if s.op == 'slice':
        na = add(s.a[1], a)
        nb = s.a[2] if b is END else add(s.a[1], b)
        return slice_(s.a[0], na, nb)
    if s.op in ('cat', 'be', 'le'):
        # cut at part boundaries when lengths are known
        ps = list(parts(s))
        pos = I(0)
        bounds = [pos]
        for p in ps:
            pos = add(pos, part_len(p))
            bounds.append(pos)
        e = bounds[-1] if b is END else b
        if a in bounds and e in bounds:
            i, j = bounds.index(a), len(bounds) - 1 - bounds[::-1].index(e)
            return cat(*ps[i:j]) if j > i else EMPTY
        # explicit elements
        if a.op == 'int' and (e.op == 'int' or b is END):
            el = concrete_elems(s)
            if el is not None:
                x, y = a.a[0], (len(el) if b is END else e.a[0])
                if 0 <= x <= y <= len(el):
                    if all(p.op == 'lit' for p in ps):
                        return lit(b''.join(p.a[0] for p in ps)[x:y])
                    return seq(*el[x:y])
        # drop whole leading parts of known int length
        if a.op == 'int' and s.op == 'cat':
            k = a.a[0]
            for n, p in enumerate(ps):
                l = part_len(p)
                if l.op != 'int' or l.a[0] > k:
                    if n:
                        rest = cat(*ps[n:])
                        used = a.a[0] - k
                        nb = END if b is END else sub(b, I(used))
                        return slice_(rest, I(k), nb)
                    if p.op == 'lit' and k < len(p.a[0]) and k:
                        rest = cat(lit(p.a[0][k:]), *ps[n+1:])
                        return slice_(rest, I(0), END if b is END else sub(b, I(k)))
                    break
                k -= l.a[0]
    return mk('slice', s, a, b)

def index(s, i):
    if s.op == 'sset':
        if s.a[1] is i: return s.a[2]
        if is_int(i) and is_int(s.a[1]): return index(s.a[0], i)
    if i.op == 'idx' and i.a[0] is s:
        return el(s)
    if s.op == 'slice':
        return index(s.a[0], add(s.a[1], i))
    if s.op == 'cat' and is_int(i):
        k = i.a[0]
        for p in s.a:
            l = part_len(p)
            if l.op != 'int':
                break
            if k < l.a[0]:
                if p.op == 'one': return p.a[0]
                if p.op == 'lit': return I(p.a[0][k])
                if p.op == 'rep': return p.a[0]
                return mk('index', p, I(k))
            k -= l.a[0]
    if s.op == 'rep':
        return s.a[0]
    if s.op == 'cat':
        # last element idiom: index(cat(.., one(e)), len-1)
        if s.a and i is sub(length(s), I(1)):
            p = s.a[-1]
            if p.op == 'one': return p.a[0]
            if p.op == 'lit': return I(p.a[0][-1])
    return mk('index', s, i)

def first(s):
    return index(s, I(0))

def last(s):
    ps = parts(s)
    if ps and ps[-1].op == 'one':
        return ps[-1].a[0]
    if ps and ps[-1].op == 'lit':
        return I(ps[-1].a[0][-1])
    if ps and ps[-1].op == 'slice' and ps[-1].a[2] is END and len(ps) == 1:
        return last(ps[-1].a[0])
    return index(s, sub(length(s), I(1)))

def rev(s):
    if s.op == 'rev':
        return s.a[0]
    if s.op == 'cat':
        out = []
        for p in reversed(s.a):
            if p.op == 'lit': out.append(lit(p.a[0][::-1]))
            elif p.op == 'one': out.append(mk('cat', p))
            else: out.append(rev(p))
        return cat(*out)
    return mk('rev', s)

def el(s):
    if s.op == 'rev':
        return el(s.a[0])
    if s.op == 'zip':
        return mk('tup', el(s.a[0]), el(s.a[1]))
    if s.op == 'enum':
        return mk('tup', mk('idx', s.a[0]), el(s.a[0]))
    if s.op == 'range' and s.a[0] is I(0) and s.a[1].op == 'len':
        return mk('idx', s.a[1].a[0])
    if s.op == 'comp' and len(s.a[1]) == 1 and not s.a[1][0][0] and len(s.a[1][0][1]) == 1 and s.a[1][0][1][0].op == 'one':
        return s.a[1][0][1][0].a[0]
    return mk('el', s)

# --------------------------------------------------------------- arithmetic
def lin_of(t):
    """-> (const, {term: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        k, v = next(iter(d.items()))
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))

def add(a, b):
    ca, da = lin_of(a); cb, db = lin_of(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return mklin(ca + cb, da)

def sub(a, b):
    ca, da = lin_of(a); cb, db = lin_of(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) - v
    return mklin(ca - cb, da)

def mulc(a, n):
    c, d = lin_of(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})

def mul(a, b):
    if is_int(a): return mulc(b, a.a[0])
    if is_int(b): return mulc(a, b.a[0])
    if a.id > b.id: a, b = b, a
    return mk('mul', a, b)

# --------------------------------------------------------------- structures
def adt(path, vname, vidx, discr, *fields):
    return mk('adt', path, vname, vidx, discr, *fields)

OPT = 'std::option::Option'
RES = 'std::result::Result'
def some(x): return adt(OPT, 'Some', 1, 1, x)
NONE = adt(OPT, 'None', 0, 0)
def ok(x): return adt(RES, 'Ok', 0, 0, x)
def err(x): return adt(RES, 'Err', 1, 1, x)
ORD = 'std::cmp::Ordering'
LESS, EQUAL, GREATER = adt(ORD, 'Less', 0, 255), adt(ORD, 'Equal', 1, 0), adt(ORD, 'Greater', 2, 1)

def fld(v, i):
    o = v.op
    if o == 'adt':
        return v.a[4 + i] if 4 + i < len(v.a) else mk('fld', v, i)
    if o == 'tup':
        return v.a[i] if i < len(v.a) else mk('fld', v, i)
    if o == 'clo':
        return v.a[2 + i]
    if o == 'upd':
        return v.a[2] if v.a[1] == i else fld(v.a[0], i)
    if o == 'mref':
        return v
    if o == 'ite':
        return ite(v.a[0], fld(v.a[1], i), fld(v.a[2], i))
    return mk('fld', v, i)

def ite(c, a, b):
    if is_int(c): return a if c.a[0] else b
    return a if a is b else mk('ite', c, a, b)

def vf(v, var, i):
    if v.op == 'adt':
        return v.a[4 + i] if v.a[2] == var and 4 + i < len(v.a) else mk('bottom')
    if v.op == 'vupd':
        return v.a[3] if (v.a[1], v.a[2]) == (var, i) else vf(v.a[0], var, i)
    return mk('vf', v, var, i)

def set_f(v, i, x):
    if v.op == 'adt':
        l = list(v.a)
        while len(l) <= 4 + i: l.append(UNINIT)
        l[4 + i] = x
        return mk('adt', *l)
    if v.op == 'tup':
        l = list(v.a)
        while len(l) <= i: l.append(UNINIT)
        l[i] = x
        return mk('tup', *l)
    if v.op == 'clo':
        l = list(v.a); l[2 + i] = x
        return mk('clo', *l)
    if v.op == 'upd':
        if v.a[1] == i: return set_f(v.a[0], i, x)
        if v.a[1] > i: return mk('upd', set_f(v.a[0], i, x), v.a[1], v.a[2])
    if v.op != 'uninit' and fld(v, i) is x:
        return v
    return mk('upd', v, i, x)

def set_vf(v, var, i, x):
    if v.op == 'adt':
        l = list(v.a)
        while len(l) <= 4 + i: l.append(UNINIT)
        l[4 + i] = x
        return mk('adt', *l)
    if vf(v, var, i) is x: return v
    if v.op == 'vupd' and (v.a[1], v.a[2]) == (var, i): return set_vf(v.a[0], var, i, x)
    return mk('vupd', v, var, i, x)

# ------------------------------------------------------------------ utility
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen: continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)

def mentions(t, pred):
    for x in subterms(t):
        if pred(x): return True
    return False

def contains(t, u):
    return mentions(t, lambda x: x is u)

_REB = {}
def rebuild(op, a):
    if op == 'cat': return cat(*[mk('cat', p) if p.op in ('lit', 'one') else p for p in a])
    if op == 'lin':
        r = I(a[0])
        for k, c in a[1]: r = add(r, mulc(k, c))
        return r
    if op == 'mul': return mul(*a)
    if op == 'slice': return slice_(*a)
    if op == 'index': return index(*a)
    if op == 'fld': return fld(*a)
    if op == 'vf': return vf(*a)
    if op == 'rev': return rev(*a)
    if op == 'el': return el(*a)
    if op == 'len': return length(*a)
    if op == 'upd': return set_f(*a)
    if op in ('eq', 'beq', 'feq') and len(a) == 2 and a[0].id > a[1].id: a = (a[1], a[0])
    if op == 'bit' and a[0] in ('BitOr', 'BitAnd', 'BitXor') and a[3].id > a[4].id: a = a[:3] + (a[4], a[3])
    f = _REB.get(op)
    if f: return f(*a)
    return mk(op, *a)

def subst(t, m, memo=None):
    """replace terms by mapping m (dict T->T), rebuilding normal forms"""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, T):
            r = m.get(x)
            if r is not None: return r
            r = memo.get(x)
            if r is not None: return r
            na = tuple(go(y) for y in x.a)
            if all(p is q for p, q in zip(na, x.a)):
                r = x
            else:
                r = rebuild(x.op, na)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            r = tuple(go(y) for y in x)
            return x if all(p is q for p, q in zip(r, x)) else r
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(t)

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, (tuple,)): return '(' + ', '.join(show(x, d+1) for x in t) + ')'
        if isinstance(t, frozenset): return '{' + ', '.join(sorted(show(x, d+1) for x in t)) + '}'
        return repr(t)
    if d > 14: return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'int': return str(a[0])
    if o == 'lit': return repr(a[0])[1:]
    if o == 'one': return '[' + s(a[0]) + ']'
    if o == 'cat': return '⟨' + ' ++ '.join(s(x) for x in a) + '⟩'
    if o == 'sym': return str(a[0])
    if o == 'fld': return '%s.%s' % (s(a[0]), a[1])
    if o == 'vf': return '%s?%d.%d' % (s(a[0]), a[1], a[2])
    if o == 'adt': return '%s{%s}' % (a[1] if a[0] in (OPT, RES, ORD) else a[0].split('::')[-1] + ('::' + a[1] if a[1] != a[0].split('::')[-1] else ''), ', '.join(s(x) for x in a[4:]))
    if o == 'tup': return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'lin':
        r = ' + '.join(('%s' % s(k)) if c == 1 else '%d*%s' % (c, s(k)) for k, c in a[1])
        return '(' + r + (' + %d' % a[0] if a[0] else '') + ')'
    if o == 'app': return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o == 'res': return '%s#%s(%s)' % (a[0], a[2] if a[2] else '', ', '.join(s(x) for x in a[1]))
    if o == 'slice': return '%s[%s..%s]' % (s(a[0]), s(a[1]), '' if a[2] is END else s(a[2]))
    if o == 'index': return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'clo': return 'closure(%s)' % a[0].split('::')[-2:]
    if o == 'comp': return 'comp(%s | %s)' % (s(a[0]), '; '.join('%s→%s' % (s(c), '⟨' + ' ++ '.join(s(p) for p in ps) + '⟩') for c, ps in a[1]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
