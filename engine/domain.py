"""Path facts: discriminants, booleans and a zone (difference-bound) domain
over linear forms.  Only comparisons are tracked; nothing is solved for."""
from terms import *

NONNEG = set()      # terms known to be unsigned

def declare_unsigned(t):
    if t.op == 'lin':
        for k, _ in t.a[1]:
            if k.op in ('len', 'idx'): NONNEG.add(k)
    elif t.op != 'int':
        NONNEG.add(t)

def canon(a, b):
    """a - b as (key, sign, const): a-b = sign*key + const, key oriented"""
    d = sub(a, b)
    c, m = lin_of(d)
    if not m:
        return None, 1, c
    items = sorted(m.items(), key=lambda kv: kv[0].id)
    s = 1 if items[0][1] > 0 else -1
    key = tuple((k, v * s) for k, v in items)
    return key, s, c

INF = float('inf')

DISCVALS = {}

def knowledge(): return set(NONNEG), dict(DISCVALS)
def forget():
    NONNEG.clear()
    DISCVALS.clear()
def recall(k):
    NONNEG.update(k[0])
    for t, v in k[1].items(): DISCVALS.setdefault(t, v)

class Facts(object):
    __slots__ = ('d', 'dn', 'b', 'z', 'zn')
    def __init__(self):
        self.d = {}     # term -> discriminant
        self.dn = {}    # term -> frozenset of excluded discriminants
        self.b = {}     # opaque boolean term -> 0/1
        self.z = {}     # key -> (lo, hi)
        self.zn = {}    # key -> frozenset excluded
    def copy(self):
        f = Facts()
        f.d = dict(self.d); f.dn = dict(self.dn); f.b = dict(self.b)
        f.z = dict(self.z); f.zn = dict(self.zn)
        return f

    # --- numeric
    def bounds(self, key):
        lo, hi = self.z.get(key, (-INF, INF))
        # through the graph for key of form x - y or x
        ex = dict(key)
        if len(key) == 1 and abs(key[0][1]) == 1:
            x, y = key[0][0], None
            # key = x (oriented positive)
        elif len(key) == 2 and key[0][1] == 1 and key[1][1] == -1:
            x, y = key[0][0], key[1][0]
        else:
            if all(k in NONNEG or k.op in ('len', 'idx') for k, _ in key):
                if all(c > 0 for _, c in key): lo = max(lo, 0)
                if all(c < 0 for _, c in key): hi = min(hi, 0)
            return lo, hi
        hi = min(hi, self.path(x, y))
        lo = max(lo, -self.path(y, x))
        return lo, hi

    def path(self, x, y):
        """least c with x - y <= c derivable"""
        edges = {}
        nodes = {None, x, y}
        def put(a, b, c):
            if c < INF:
                edges[(a, b)] = min(edges.get((a, b), INF), c)
                nodes.add(a); nodes.add(b)
        for key, (lo, hi) in self.z.items():
            if len(key) == 1 and abs(key[0][1]) == 1:
                a, b = key[0][0], None
            elif len(key) == 2 and key[0][1] == 1 and key[1][1] == -1:
                a, b = key[0][0], key[1][0]
            else:
                continue
            put(a, b, hi)      # a - b <= hi
            put(b, a, -lo)
        work = list(nodes)
        while work:
            n = work.pop()
            if n is not None and n.op == 'bit' and n.a[2] == 'u':
                # unsigned quotients, remainders, masks and right shifts stay below their operand
                put(None, n, 0)
                o, p, q = n.a[0], n.a[3], n.a[4]
                ups = [p] if o in ('Div', 'Rem', 'Shr') else [p, q] if o == 'BitAnd' else []
                if o == 'Rem' and is_int(q) and q.a[0] > 0: put(n, None, q.a[0] - 1)
                for u in ups:
                    c, m = lin_of(u)
                    if len(m) == 1 and list(m.values()) == [1]:
                        w, = m
                        if w not in nodes: nodes.add(w); work.append(w)
                        put(n, w, c)
                    elif not m: put(n, None, c)
            if n is not None and (n in NONNEG or n.op in ('len', 'idx')):
                put(None, n, 0)   # 0 - n <= 0
            if n is not None and n.op == 'idx':
                put(n, length(n.a[0]), -1) if length(n.a[0]).op != 'lin' else None
        # Bellman-Ford from x along edges a->b meaning a-b<=c
        dist = {x: 0}
        for _ in range(len(nodes) + 1):
            ch = False
            for (a, b), c in edges.items():
                if a in dist and dist[a] + c < dist.get(b, INF):
                    dist[b] = dist[a] + c; ch = True
            if not ch: break
        else:
            return -INF
        return dist.get(y, INF)

    def rel(self, a, b):
        """interval of a-b"""
        key, s, c = canon(a, b)
        if key is None: return c, c
        lo, hi = self.bounds(key)
        return (lo + c, hi + c) if s > 0 else (-hi + c, -lo + c)

    def assume_rel(self, a, b, lo, hi):
        """assume lo <= a-b <= hi; False if infeasible"""
        key, s, c = canon(a, b)
        if key is None:
            return lo <= c <= hi
        lo2, hi2 = (lo - c, hi - c) if s > 0 else (c - hi, c - lo)
        l0, h0 = self.bounds(key)
        l, h = max(l0, lo2), min(h0, hi2)
        ne = self.zn.get(key)
        if ne:
            while l in ne: l += 1
            while h in ne: h -= 1
        if l > h: return False
        self.z[key] = (max(self.z.get(key, (-INF, INF))[0], lo2, l if l > -INF else -INF), min(self.z.get(key, (-INF, INF))[1], hi2, h))
        return True

    def assume_ne(self, a, b):
        key, s, c = canon(a, b)
        if key is None: return c != 0
        v = -c * s if s > 0 else c
        lo, hi = self.bounds(key)
        if lo == hi == v: return False
        self.zn[key] = self.zn.get(key, frozenset()) | {v}
        if lo == v: return self._tight(key, v + 1, hi)
        if hi == v: return self._tight(key, lo, v - 1)
        return True

    def _tight(self, key, lo, hi):
        ne = self.zn.get(key, ())
        while lo in ne: lo += 1
        while hi in ne: hi -= 1
        if lo > hi: return False
        self.z[key] = (lo, hi)
        return True

    def truth(self, t):
        """0/1/None for a boolean term"""
        o = t.op
        if o == 'int': return 1 if t.a[0] else 0
        if o == 'not':
            r = self.truth(t.a[0])
            return None if r is None else 1 - r
        if o == 'lt':
            lo, hi = self.rel(t.a[0], t.a[1])
            if hi < 0: return 1
            if lo >= 0: return 0
            return None
        if o == 'ieq':
            lo, hi = self.rel(t.a[0], t.a[1])
            if lo == hi == 0: return 1
            if lo > 0 or hi < 0: return 0
            key, s, c = canon(t.a[0], t.a[1])
            if key is not None and (-c if s > 0 else c) in self.zn.get(key, ()): return 0
            return None
        if o == 'and':
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            if a == 0 or b == 0: return 0
            if a == 1 and b == 1: return 1
            return None
        if o == 'or':
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            if a == 1 or b == 1: return 1
            if a == 0 and b == 0: return 0
            return None
        if o == 'disceq':
            if t.a[0] in self.d: return 1 if self.d[t.a[0]] == t.a[1] else 0
            if t.a[1] in self.dn.get(t.a[0], ()): return 0
            return None
        return self.b.get(t)

    def assume(self, t, v):
        """assume boolean term t == v (0/1); returns False if infeasible"""
        o = t.op
        if o == 'int': return (1 if t.a[0] else 0) == v
        if o == 'not': return self.assume(t.a[0], 1 - v)
        if o == 'lt':
            return self.assume_rel(t.a[0], t.a[1], -INF, -1) if v else self.assume_rel(t.a[0], t.a[1], 0, INF)
        if o == 'ieq':
            return self.assume_rel(t.a[0], t.a[1], 0, 0) if v else self.assume_ne(t.a[0], t.a[1])
        if o == 'and' and v: return self.assume(t.a[0], 1) and self.assume(t.a[1], 1)
        if o == 'or' and not v: return self.assume(t.a[0], 0) and self.assume(t.a[1], 0)
        if o == 'disceq':
            return self.assume_disc(t.a[0], t.a[1]) if v else self.exclude_disc(t.a[0], t.a[1])
        r = self.truth(t)
        if r is not None: return r == v
        self.b[t] = v
        return True

    def assume_disc(self, t, k):
        if t in self.d: return self.d[t] == k
        if k in self.dn.get(t, ()): return False
        self.d[t] = k
        return True

    def exclude_disc(self, t, k):
        if t in self.d: return self.d[t] != k
        dn = self.dn.get(t, frozenset()) | {k}
        vals = DISCVALS.get(t)
        if vals:
            rest = [x for x in vals if x not in dn]
            if not rest: return False
            if len(rest) == 1:
                self.dn.pop(t, None)
                self.d[t] = rest[0]
                return True
        self.dn[t] = dn
        return True

    def cases(self, t, v):
        """disjoint fact sets whose union is `self and t == v`"""
        o = t.op
        if o == 'not': return self.cases(t.a[0], 1 - v)
        if (o == 'or' and v) or (o == 'and' and not v):
            out = []
            for f in self.cases(t.a[0], v): out.append(f)
            for f in self.cases(t.a[0], 1 - v): out += f.cases(t.a[1], v)
            return out
        if (o == 'or' and not v) or (o == 'and' and v):
            out = []
            for f in self.cases(t.a[0], v): out += f.cases(t.a[1], v)
            return out
        if o == 'ite':
            out = []
            for f in self.cases(t.a[0], 1): out += f.cases(t.a[1], v)
            for f in self.cases(t.a[0], 0): out += f.cases(t.a[2], v)
            return out
        f = self.copy()
        return [f] if f.assume(t, v) else []

    def items(self):
        out = set()
        for t, k in self.d.items(): out.add(('d', t, k))
        for t, k in self.b.items(): out.add(('b', t, k))
        for t, k in self.z.items(): out.add(('z', t, k))
        for t, k in self.dn.items(): out.add(('dn', t, k))
        for t, k in self.zn.items(): out.add(('zn', t, k))
        return out

def delta(new, old):
    return frozenset(new.items() - old.items())

def drop_mentioning(f, pred):
    g = Facts()
    def bad(t): return mentions(t, pred)
    g.d = {t: k for t, k in f.d.items() if not bad(t)}
    g.dn = {t: k for t, k in f.dn.items() if not bad(t)}
    g.b = {t: k for t, k in f.b.items() if not bad(t)}
    g.z = {t: k for t, k in f.z.items() if not any(bad(x) for x, _ in t)}
    g.zn = {t: k for t, k in f.zn.items() if not any(bad(x) for x, _ in t)}
    return g

def apply_facts(f, fs):
    """assume a frozenset of fact literals (as from delta) in f"""
    for k, t, v in fs:
        if k == 'd':
            if not f.assume_disc(t, v): return False
        elif k == 'b':
            if not f.assume(t, v): return False
        elif k == 'z':
            a = mklin(0, dict(t))
            if not f.assume_rel(a, I(0), v[0], v[1]): return False
        elif k == 'dn':
            for x in v:
                if not f.exclude_disc(t, x): return False
        elif k == 'zn':
            a = mklin(0, dict(t))
            for x in v:
                if not f.assume_ne(a, I(x)): return False
    return True

def subst_facts(fs, m):
    out = set()
    for k, t, v in fs:
        if k in ('d', 'b', 'dn'):
            out.add((k, subst(t, m), v))
        else:
            key = mklin(0, dict(t))
            nk = subst(key, m)
            c, d = lin_of(nk)
            if not d: continue
            items = sorted(d.items(), key=lambda kv: kv[0].id)
            s = 1 if items[0][1] > 0 else -1
            key2 = tuple((kk, vv * s) for kk, vv in items)
            if k == 'z':
                lo, hi = v
                lo, hi = (lo - c, hi - c) if s > 0 else (c - hi, c - lo)
                out.add((k, key2, (lo, hi)))
            else:
                out.add((k, key2, frozenset(((x - c) if s > 0 else (c - x)) for x in v)))
    return frozenset(out)

def show_fact(f):
    k, t, v = f
    if k == 'd': return '%r is #%s' % (t, v)
    if k == 'dn': return '%r not in #%s' % (t, sorted(v))
    if k == 'b': return ('' if v else '!') + repr(t)
    if k == 'z': return '%s <= %r <= %s' % (v[0], mklin(0, dict(t)), v[1])
    return '%r not in %s' % (mklin(0, dict(t)), sorted(v))

# boolean constructors
def lt(a, b):
    d = sub(a, b)
    if d.op == 'int': return TRUE if d.a[0] < 0 else FALSE
    return mk('lt', a, b)

def ieq(a, b):
    d = sub(a, b)
    if d.op == 'int': return TRUE if d.a[0] == 0 else FALSE
    if a.id > b.id: a, b = b, a
    return mk('ieq', a, b)

def not_(t):
    if t.op == 'int': return FALSE if t.a[0] else TRUE
    if t.op == 'not': return t.a[0]
    return mk('not', t)

def and_(a, b):
    if a.op == 'int': return b if a.a[0] else FALSE
    if b.op == 'int': return a if b.a[0] else FALSE
    return mk('and', a, b)

def or_(a, b):
    if a.op == 'int': return TRUE if a.a[0] else b
    if b.op == 'int': return TRUE if b.a[0] else a
    return mk('or', a, b)
