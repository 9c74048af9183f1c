"""Compaction: bit stream, Gorilla writer and reader, uncompressed codec and tags.

The bit stream rules compare, for every fill level of the last byte (a finite
partition), the symbolic bytes an operation leaves behind with the bits it has
to leave behind, for every length of both streams (lengths stay symbolic).
The Gorilla rules extract the format the writer emits and the format the reader
accepts and compare the two."""
from rulebase import *
from rules_chunk import adt_fields, with_, same3
from rules_common import fact_terms_of, facts_of, bits_of
from rules_db import walk

def load0(r, o, n=0):
    a = r.args[n]
    return r.interp.load(o.s, a) if a.op == 'mref' else a
def init(r, n=0):
    a = r.args[n]
    return mk('sym', 'arg%d' % n) if a.op == 'mref' else a

def spec(o, m, extra=()):
    """path facts of an outcome with some values fixed; None when the path does not exist then"""
    f = Facts()
    for k, t, v in o.f.items():
        if k in ('z', 'zn'):
            x = subst(mklin(0, dict(t)), m)
            if is_int(x):
                if k == 'z' and not v[0] <= x.a[0] <= v[1]: return None
                if k == 'zn' and x.a[0] in v: return None
                continue
        if k == 'b':
            x = subst(t, m)
            if is_int(x):
                if bool(x.a[0]) != bool(v): return None
                continue
        for q in subst_facts([(k, t, v)], m):
            if q[0] == 'z' and len(q[1]) == 1 and q[1][0][1] > 1:
                # a multiple of a whole number
                (x, g), (lo, hi) = q[1][0], q[2]
                if not f.assume_rel(x, I(0), lo if lo == -INF else -(-lo // g), hi if hi == INF else hi // g): return None
            elif not apply_facts(f, [q]): return None
    for t, v in extra:
        t = subst(t, m)
        if is_int(t):
            if bool(t.a[0]) != bool(v): return None
        elif not f.assume(t, v): return None
    return f

def pinned(f, t):
    """the only value t can have, if there is one"""
    lo, hi = f.rel(t, I(0))
    return I(int(lo)) if lo == hi else None

class Bad(Exception): pass
class Unk(Exception): pass

def atom_of(t, seqs, idx):
    """(sequence name, index) of a byte atom; idx: the term of the running element and its position"""
    for nm, s in seqs.items():
        if t.op == 'index' and t.a[0] is s: return nm, subst(t.a[1], idx)
        if t.op == 'index' and t.a[0].op == 'slice' and t.a[0].a[0] is s: return nm, subst(add(t.a[0].a[1], t.a[1]), idx)
    return None

def byte_bits(e, seqs, idx, clean=None):
    """most significant bit first: (sequence, index, bit) | 0 | 1"""
    widths = {}
    for t in subterms(e):
        if t.op in ('index', 'el'):
            x = atom_of(t, seqs, idx)
            if x:
                widths[t] = [x + (7 - k,) for k in range(8)]
                if clean: widths[t] = [clean(y) for y in widths[t]]
    b = bits_of(e, widths, 8)
    if b is None: raise Unk('byte %s' % show(e)[:60])
    if ('mix',) in b: raise Bad('bits are mixed up in %s' % show(e)[:80])
    if any(isinstance(x, tuple) and isinstance(x[0], T) for x in b): raise Unk('byte %s' % show(e)[:60])
    return b[::-1]

class Stream(object):
    """bits of stream A (its last byte has r free bits) followed by stream B (q free bits)"""
    def __init__(self, A, B, r, q, m):
        self.A, self.B, self.r, self.q, self.m = A, B, r, q, m
        self.lA = subst(length(A), m)
        self.lB = subst(length(B), m) if B is not None else None
    def clean(self, x):
        if x in (0, 1): return x
        nm, i, j = x
        n, free = (self.lA, self.r) if nm == 'A' else (self.lB, self.q)
        d = sub(i, sub(n, I(1)))
        if is_int(d):
            if d.a[0] > 0: return 0 if nm == 'want' else ('out', nm)
            if d.a[0] == 0 and j >= 8 - free: return 0
        return x
    def want(self, off, j):
        b = sub(off, self.lA)
        if is_int(b) and b.a[0] == -1 and j < 8 - self.r: return self.clean(('A', sub(self.lA, I(1)), j))
        if is_int(b) and b.a[0] < -1: return ('A', off, j)
        i = add(b, I((j + self.r) // 8))
        d = sub(i, sub(self.lB, I(1)))
        if is_int(d) and d.a[0] > 0: return 0
        return self.clean(('B', i, (j + self.r) % 8))
    def check(self, v):
        """v: the byte sequence left behind. Raises Bad / Unk."""
        off = I(0)
        seqs = {'A': self.A, 'B': self.B}
        for p in parts(v):
            n = subst(part_len(p), self.m)
            if p is self.A or p.op == 'slice' and p.a[0] is self.A:
                a = I(0) if p is self.A else subst(p.a[1], self.m)
                if a is not off: raise Bad('the bytes already stored move') if is_int(sub(a, off)) else Unk('bytes from %s' % show(a))
                end = sub(add(off, n), self.lA)
                if not is_int(end): raise Unk('bytes to %s' % show(end))
                if end.a[0] == 0 and self.r: raise Bad('the free bits of the last byte stay empty')
            elif p is self.B or p.op == 'slice' and p.a[0] is self.B:
                a = I(0) if p is self.B else subst(p.a[1], self.m)
                d = sub(sub(off, self.lA), a)
                if self.r: raise Bad('whole bytes are appended although the last byte has free bits')
                if d is not I(0): raise Bad('bytes are skipped or repeated') if is_int(d) else Unk('bytes from %s' % show(a))
            elif p.op == 'one': self.byte(subst(p.a[0], self.m), off, seqs, {})
            elif p.op == 'lit':
                for k, c in enumerate(p.a[0]): self.byte(I(c), add(off, I(k)), seqs, {})
            elif p.op == 'comp':
                src, ps = p.a
                if len(ps) != 1 or ps[0][0] or len(ps[0][1]) != 1 or ps[0][1][0].op != 'one': raise Unk('elements of %s' % show(p)[:60])
                e = ps[0][1][0].a[0]
                src_ = subst(src, self.m)
                i = mk('sym', 'i')
                if src.op == 'range': idx = {el(src_): add(src_.a[0], i), el(src): add(subst(src.a[0], self.m), i)}
                else:
                    base = src.a[0] if src.op == 'enum' else src
                    st = I(0)
                    if base.op == 'slice': st, base = subst(base.a[1], self.m), base.a[0]
                    if src.op not in ('enum', 'slice') and base not in (self.A, self.B): raise Unk('elements of %s' % show(src)[:60])
                    idx = {mk('idx', src.a[0] if src.op == 'enum' else src): i}
                    x = src.a[0] if src.op == 'enum' else src
                    e = subst(e, {el(x): mk('index', base, add(st, i))})
                self.byte(subst(e, self.m), add(off, i), seqs, idx)
            else: raise Unk('part %s' % show(p)[:60])
            off = add(off, n)
        return off
    def byte(self, e, off, seqs, idx):
        if opaque(e): raise Unk('byte %s' % show(e)[:60])
        for j, x in enumerate(byte_bits(e, seqs, idx, self.clean)):
            w, g = self.want(off, j), self.clean(x)
            if w == g: continue
            if isinstance(w, tuple) and isinstance(g, tuple) and w[0] == g[0] and g[0] != 'out' and w[2] == g[2] and not is_int(sub(w[1], g[1])): raise Unk('bit %s' % (g,))
            raise Bad('bit %d of byte %s is %s instead of %s' % (j, show(off), bit(g), bit(w)))

def bit(x):
    if x in (0, 1): return str(x)
    if x[0] == 'out': return 'outside the stream'
    return 'bit %d of byte %s of the %s stream' % (x[2], show(x[1]), 'old' if x[0] == 'A' else 'appended')

def bs(cx): 
    F = adt_fields(cx, 'Bstream')
    return F['data'], F['remaining']



def judge(cx, tag, key, W, what, fn):
    try: fn()
    except Bad as e: cx.bad(tag, key, W, '%s: %s' % (what, e))
    except Unk as e: cx.unk(tag, key, W, '%s: %s' % (what, e))
    else: cx.ok(tag, key, W)

def no_assert_fails(cx, tag, key, W, o, m, f, what):
    """overflow checks on the path hold (where the values in them are decided)"""
    for e, lp in walk(o.ev):
        if e.kind != 'assert': continue
        for c in e.args:
            c = subst(c, m) if isinstance(c, T) else None
            if c is FALSE: cx.bad(tag, key, W, '%s: %s' % (what, e.name))

@rule('G03')
def append(cx):
    D, R = bs(cx)
    r = cx.good(cx.need('Bstream', 'append'))
    W = where(r)
    a, b = init(r), init(r, 1)
    A, B, ra, rb = fld(a, D), fld(b, D), fld(a, R), fld(b, R)
    for ri in range(8):
        for qi in range(8):
            m0 = {ra: I(ri), rb: I(qi)}
            what = 'appending a stream with %d free bits to one with %d' % (qi, ri)
            for o in r.outs:
                ex = [(lt(I(0), length(B)), 1)] + ([(lt(I(0), length(A)), 1)] if ri else [])
                f = spec(o, m0, ex)
                if f is None: continue
                if o.kind != 'ret':
                    hard = any(opaque(t) for t in fact_terms_of(f.items()))
                    cx.chk('G03', 'append:no-panic', None if hard else False, W, what + ' panics')
                    continue
                m = dict(m0)
                p = pinned(f, length(B))
                if p is not None: m[length(B)] = p
                p = pinned(f, length(A))
                if p is not None: m[length(A)] = p
                v = load0(r, o)
                st = Stream(A, B, ri, qi, m)
                no_assert_fails(cx, 'G03', 'append:no-overflow', W, o, m, f, what)
                def bits():
                    x = fld(v, D)
                    if opaque(x): raise Unk(show(x)[:80])
                    n = st.check(x)
                    want = sub(add(st.lA, st.lB), I(1 if ri + qi >= 8 else 0))
                    if n is not want:
                        d = sub(n, want)
                        raise Bad('the data is %s bytes long instead of %s' % (show(n), show(want))) if is_int(d) else Unk('length %s' % show(n))
                judge(cx, 'G03', 'append:bits', W, what, bits)
                def free():
                    x = subst(fld(v, R), m)
                    if not is_int(x): raise Unk('free bits %s' % show(x)[:60])
                    if x.a[0] != (ri + qi) % 8: raise Bad('%d bits count as free instead of %d' % (x.a[0], (ri + qi) % 8))
                judge(cx, 'G03', 'append:free-bits', W, what, free)
        # an empty stream changes nothing
        for o in r.outs:
            m = {ra: I(ri), rb: I(0), length(B): I(0)}
            f = spec(o, m, [(lt(I(0), length(A)), 1)] if ri else [])
            if f is None: continue
            what = 'appending an empty stream to one with %d free bits' % ri
            if o.kind != 'ret': cx.chk('G03', 'append:no-panic', None if any(opaque(t) for t in fact_terms_of(f.items())) else False, W, what + ' panics'); continue
            v = load0(r, o)
            x, y = subst(fld(v, D), {B: EMPTY}), subst(fld(v, R), m)
            cx.chk('G03', 'append:empty', True if x is A and y is I(ri) else None if opaque(x) or not is_int(y) else False, W, '%s gives %s with %s free bits' % (what, show(x)[:60], show(y)))

@rule('G03')
def write_bit(cx):
    D, R = bs(cx)
    for name, val in (('write', None), ('write_one', 1), ('write_zero', 0)):
        i = cx.find('Bstream', name)
        if i is None:
            if name == 'write': cx.unk('G03', 'write:bits', '', 'Bstream::write not found')
            continue
        r = cx.good(i)
        W = where(r)
        a = init(r)
        A, ra = fld(a, D), fld(a, R)
        for ri in range(8):
            for vi in ((0, 1) if val is None else (val,)):
                m0 = {ra: I(ri)}
                if val is None: m0[r.args[1]] = I(vi)
                what = 'writing a %d bit with %d free bits' % (vi, ri)
                for o in r.outs:
                    f = spec(o, m0, [(lt(I(0), length(A)), 1)] if ri else [])
                    if f is None: continue
                    if o.kind != 'ret':
                        cx.chk('G03', name + ':no-panic', None if any(opaque(t) for t in fact_terms_of(f.items())) else False, W, what + ' panics'); continue
                    m = dict(m0)
                    p = pinned(f, length(A))
                    if p is not None: m[length(A)] = p
                    v = load0(r, o)
                    no_assert_fails(cx, 'G03', name + ':no-overflow', W, o, m, f, what)
                    B = mk('sym', 'bit')
                    def bits():
                        x = fld(v, D)
                        if val is None: x = subst(x, {r.args[1]: I(vi)})
                        if opaque(x): raise Unk(show(x)[:80])
                        st = Stream(A, mk('cat', one(I(128 * vi))), ri, 7, m)
                        st.want = (lambda w: lambda off, j: vi if (is_int(sub(off, st.lA)) and sub(off, st.lA).a[0] == (-1 if ri else 0) and j == (8 - ri) % 8) else
                                   0 if is_int(sub(off, st.lA)) and sub(off, st.lA).a[0] >= 0 else w(off, j) if j < 8 - ri or sub(off, st.lA).a[0] < -1 else 0)(st.want)
                        n = subst(length(x), m)
                        want = st.lA if ri else add(st.lA, I(1))
                        if vi == 0 and ri and x is A: return
                        st.check(x)
                        if n is not want: raise Bad('the data is %s bytes long instead of %s' % (show(n), show(want))) if is_int(sub(n, want)) else Unk('length')
                    judge(cx, 'G03', name + ':bits', W, what, bits)
                    def free():
                        x = subst(fld(v, R), m)
                        if not is_int(x): raise Unk('free bits %s' % show(x)[:60])
                        if x.a[0] != (ri - 1) % 8: raise Bad('%d bits count as free instead of %d' % (x.a[0], (ri - 1) % 8))
                    judge(cx, 'G03', name + ':free-bits', W, what, free)

APP = frozenset(('Bstream.append',))
APB = frozenset(('Bstream.append_bytes', 'Bstream.append', 'Bstream.write'))

@rule('G03')
def append_bytes(cx):
    D, R = bs(cx)
    i = cx.need('Bstream', 'append_bytes')
    r = cx.good(i, APP)
    W = where(r)
    by, rem = r.args[1], r.args[2]
    for q in range(8):
        for o in r.outs:
            f = spec(o, {rem: I(q)})
            if f is None: continue
            if o.kind != 'ret': cx.chk('G03', 'append_bytes:no-panic', None if any(opaque(t) for t in fact_terms_of(f.items())) else False, W, 'appending bytes with %d free bits panics' % q); continue
            es = top(o, 'Bstream::append')
            if len(es) != 1: cx.chk('G03', 'append_bytes:appends', None if any(e.kind in ('call', 'ext', 'loop') for e in o.ev) and not es else False, W, 'the bytes are appended %d times' % len(es)); continue
            b = es[0].args[1]
            x, y = fld(b, D), subst(fld(b, R), {rem: I(q)})
            if any(t.op == 'mref' for t in subterms(b)): cx.unk('G03', 'append_bytes:appends', W, show(b)[:80]); continue
            cx.chk('G03', 'append_bytes:appends', True if x is by and y is I(q) else None if opaque(b) else False, W, 'appended is %s with %s free bits' % (show(x)[:60], show(y)))

@rule('G03')
def write_bits(cx):
    """the low n bits of a big-endian number are appended, for every n from 1 to 64"""
    i = cx.need('Bstream', 'write_bits')
    W = i['path']
    for n in range(1, 65):
        r = cx.good(i, APB, args=[None, None, I(n)])
        by = r.args[1]
        what = 'writing %d bits' % n
        for o in r.outs:
            if o.kind != 'ret': cx.chk('G03', 'write_bits:no-panic', None if any(opaque(t) for t in fact_terms_of(o.f.items())) else False, W, what + ' panics'); continue
            no_assert_fails(cx, 'G03', 'write_bits:no-overflow', W, o, {}, o.f, what)
            def bits():
                got = emitted(o, {'by': by}, by)
                want = [('by', I(k // 8), k % 8) for k in range(64 - n, 64)]
                if got != want: raise Bad('appends %s' % bitlist(got))
            judge(cx, 'G03', 'write_bits:bits', W, what, bits)

def bitlist(l):
    return '%d bits: %s%s' % (len(l), ' '.join('%s.%d' % (show(x[1]), x[2]) if isinstance(x, tuple) else str(x) for x in l[:12]), ' …' if len(l) > 12 else '')

def one_bit(b, seqs, arr):
    """the bit of the array that a boolean value is"""
    neg = 0
    while b.op == 'not': b, neg = b.a[0], 1 - neg
    x = None
    if b.op == 'ieq': x, y = b.a
    elif b.op == 'lt' and b.a[0] is I(0): x, y = b.a[1], I(1)
    if x is not None and is_int(x): x, y = y, x
    if x is None or not is_int(y) or neg: raise Unk('bit %s' % show(b)[:40])
    nm = [k for k, v in seqs.items() if v is arr][0]
    widths = {t: [(nm, I(7 - k // 8), 7 - k % 8) for k in range(64)] for t in subterms(x) if t.op == 'from_be' and t.a[-1] is arr or t.op == 'app' and t.a[0] == 'from_be8' and t.a[1] is arr}
    v = bits_of(x, widths, 64)
    if v is None: raise Unk('bit %s' % show(b)[:60])
    k = [n for n, z in enumerate(v) if z != 0]
    if len(k) != 1 or not isinstance(v[k[0]], tuple) or v[k[0]] == ('mix',) or y.a[0] != 1 << k[0]: raise Unk('bit %s' % show(b)[:60])
    return v[k[0]]

def emitted(o, seqs, arr):
    """bits appended to the stream by the calls on a path, in order"""
    out = []
    for e in o.ev:
        if e.kind == 'loop': raise Unk('a loop')
        if e.kind not in ('call', 'ext', 'rec'): continue
        if e.name == 'Bstream::write':
            b = e.args[1]
            if not is_int(b) and o.f.truth(b) is not None: b = I(o.f.truth(b))
            out.append(b.a[0] if is_int(b) else one_bit(b, seqs, arr)); continue
        if e.name == 'Bstream::append_bytes': s, q = e.args[1], e.args[2]
        elif e.name == 'Bstream::append':
            b = e.args[1]
            if b.op != 'adt': raise Unk(show(b)[:60])
            s, q = b.a[4], b.a[5]
        else: continue
        if not is_int(q): raise Unk('free bits %s' % show(q)[:40])
        l = []
        for p in parts(s):
            if p.op == 'one': l += byte_bits(p.a[0], seqs, {})
            elif p.op == 'lit':
                for c in p.a[0]: l += [(c >> (7 - k)) & 1 for k in range(8)]
            elif p is arr or p.op == 'slice' and p.a[0] is arr:
                x, y = (I(0), I(8)) if p is arr else (p.a[1], I(8) if p.a[2] is END or p.a[2] is length(arr) else p.a[2])
                if not (is_int(x) and is_int(y)): raise Unk(show(p)[:60])
                for k in range(x.a[0], y.a[0]): l += [('by', I(k), j) for j in range(8)]
            else: raise Unk(show(p)[:60])
        q = q.a[0]
        if q > len(l):
            if l: raise Bad('more free bits than bits')
            q = 0
        if q and any(x != 0 for x in l[len(l) - q:]): raise Bad('the free bits of an appended byte are not empty')
        out += l[:len(l) - q] if q else l
    return out

@rule('G03')
def stream_form(cx):
    D, R = bs(cx)
    r = cx.good(cx.need('Bstream', 'bitlen'))
    W = where(r)
    a = init(r)
    for o in r.rets:
        want = sub(mulc(length(fld(a, D)), 8), fld(a, R))
        cx.chk('G03', 'bitlen', True if o.v is want else None if opaque(o.v) else False, W, 'the number of bits is %s' % show(o.v)[:80])
    n = cx.find('Bstream', 'new')
    if n is not None:
        r = cx.good(n)
        for o in r.rets: cx.chk('G03', 'new:empty', True if fld(o.v, D) is EMPTY and fld(o.v, R) is I(0) else None if opaque(o.v) else False, where(r), 'a new stream is %s' % show(o.v)[:60])
    s, d = cx.good(cx.need('Bstream', 'as_bytes_vec')), cx.good(cx.need('Bstream', 'from_bytes'))
    W = where(d)
    b = init(s)
    for o in s.panics: cx.chk('G03', 'serialise:no-panic', None if any(opaque(t) for t in fact_terms_of(o.f.items())) else False, where(s), 'serialising panics')
    for o in s.rets:
        if opaque(o.v): cx.unk('G03', 'serialise:round-trip', where(s), show(o.v)[:80]); continue
        x = init(d)
        hit = False
        for p in d.outs:
            f = spec(p, {x: o.v})
            if f is None: continue
            if p.kind != 'ret': cx.chk('G03', 'serialise:round-trip', None, W, 'reading back panics'); continue
            v = subst(p.v, {x: o.v})
            hit = True
            dd, rr = fld(v, D), fld(v, R)
            c = True if dd is fld(b, D) and rr is fld(b, R) else None if opaque(v) or any(t.op == 'app' for t in subterms(v)) else False
            cx.chk('G03', 'serialise:round-trip', c, W, 'a stream is written as %s and read back as %s' % (show(o.v)[:80], show(v)[:100]))
        if not hit: cx.unk('G03', 'serialise:round-trip', W, 'no reading')

@rule('G04')
def gorilla_bytes(cx):
    """the Gorilla codec serialises all of its stream"""
    s, g = cx.good(cx.need('Bstream', 'as_bytes_vec')), cx.good(cx.need('GorillaCompactor', 'as_bytes_vec'))
    F = adt_fields(cx, 'GorillaCompactor')
    want = [subst(o.v, {init(s): fld(init(g), F['bstream'])}) for o in s.rets]
    for o in g.outs:
        if o.kind != 'ret': cx.chk('G04', 'gorilla:bytes', None if hard(o) else False, where(g), 'serialising panics'); continue
        cx.chk('G04', 'gorilla:bytes', True if o.v in want else None if opaque(o.v) or len(want) != 1 or opaque(want[0]) else False, where(g), 'the serialised form is %s' % show(o.v)[:80])

# ---------------------------------------------------------------- reading
def rem8(t, k, s, m):
    """fix t mod 8 = s and t div 8 = k in a substitution"""
    for w in (64, 8, 32):
        m[mk('bit', 'Rem', w, 'u', t, I(8))] = I(s)
        m[mk('bit', 'Div', w, 'u', t, I(8))] = k
        m[mk('bit', 'Shr', w, 'u', t, I(3))] = k
        a, b = (t, I(7)) if t.id < I(7).id else (I(7), t)
        m[mk('bit', 'BitAnd', w, 'u', a, b)] = I(s)
    return m

@rule('G05')
def read_bits(cx):
    SF = adt_fields(cx, 'BstreamSeeker')
    D, R = bs(cx)
    i = cx.need('BstreamSeeker', 'read_next_n_bit')
    r = cx.good(i)
    W = where(r)
    a, n = init(r), init(r, 2)
    buf = mk('sym', 'arg1')
    data, cur = fld(fld(a, SF['data']), D), fld(a, SF['cursor'])
    free = fld(fld(a, SF['data']), R)
    total = sub(mulc(length(data), 8), free)
    # an offset of 1..7 is told apart by the rules below, the fill level by the facts
    for o in r.rets:
        pos = fld(load0(r, o), SF['cursor'])
        beyond = with_(o, [(lt(total, cur), 1)])
        if beyond is not None and beyond.f.rel(o.v, I(0)) != (0, 0): cx.chk('G05', 'read:count-at-end', None if opaque(o.v) else False, W, 'reading past the end reports %s bits' % show(o.v)[:60])
        m = {cur: total}
        f = spec(o, m)
        if f is not None:
            v, c = subst(o.v, m), subst(pos, m)
            cx.chk('G05', 'read:count-at-end', True if f.rel(v, I(0)) == (0, 0) else None if opaque(v) else False, W, 'reading at the end reports %s bits' % show(v)[:60])
            cx.chk('G05', 'read:moves', True if f.rel(c, total) == (0, 0) else None if opaque(c) else False, W, 'reading at the end moves to %s' % show(c)[:60])
        for nm, reg, want in (('enough', [(lt(cur, total), 1), (lt(total, add(cur, n)), 0)], n), ('short', [(lt(cur, total), 1), (lt(total, add(cur, n)), 1)], sub(total, cur))):
            q = with_(o, reg)
            if q is None: continue
            what = 'with %s bits left' % ('enough' if nm == 'enough' else 'too few')
            cnts = counters(o)
            def verdict(x, y):
                if q.f.rel(x, y) == (0, 0): return True
                x = subst(x, cnts)
                if opaque(x): return None
                # whole bytes are as good as bits only if the number of bits is known to be one of whole bytes
                return None if any(contains(t, n) and mentions(t, lambda z: z.op == 'bit') for t in fact_terms_of(q.f.items())) else False
            cx.chk('G05', 'read:count', verdict(o.v, want), W, '%s the reported number is %s' % (what, show(o.v)[:60]))
            cx.chk('G05', 'read:moves', verdict(pos, add(cur, want)), W, '%s the position becomes %s' % (what, show(pos)[:60]))
            if fld(load0(r, o), SF['data']) is not fld(a, SF['data']): cx.chk('G05', 'read:keeps-stream', None if opaque(load0(r, o)) else False, W, 'reading changes the stream')
            if q.f.rel(o.v, want) == (0, 0): want = o.v
            try: filled(cx, r, o, q, W, data, free, cur, want, buf, what)
            except Unk as e: cx.unk('G05', 'read:bits', W, str(e))
            except Bad as e: cx.bad('G05', 'read:bits', W, str(e))

def counters(o):
    """final values of loop counters, named"""
    m = {}
    for e in o.ev:
        if e.kind != 'loop': continue
        for h, c in e.x.closed.items():
            k = (h.a[1], h.a[2])
            if e.x.init.get(k) is I(0) and all(v.get(k) is add(h, I(1)) for d, es, v in e.x.paths): m[c] = mk('sym', 'count')
    return m

def filled(cx, r, o, q, W, data, free, cur, n, buf, what):
    final = r.interp.load(o.s, r.args[1])
    loops = [e for e in o.ev if e.kind == 'loop']
    if not loops:
        if q.f.rel(n, I(0)) == (0, 0): return
        raise Unk('no loop')
    if len(loops) != 1: raise Unk('%d loops' % len(loops))
    L = loops[0].x
    bk = [k for k in L.init if L.init[k] is buf]
    if len(bk) != 1: raise Unk('the buffer is not carried by the loop')
    bk = bk[0]
    K = mk('sym', 'k')
    hb = [h for h in L.closed if h.op == 'hdr' and h.a[1] is bk[0] and h.a[2] == bk[1]]
    if len(hb) != 1: raise Unk('loop header')
    hb = hb[0]
    cnt = None
    for h in L.closed:
        if h is hb: continue
        k = (h.a[1], h.a[2])
        if L.init.get(k) is I(0) and all(v.get(k) is add(h, I(1)) for d, es, v in L.paths): cnt = h if cnt is None else False
    if cnt is None and L.src.op == 'range' and L.src.a[0] is I(0): cnt = el(L.src)
    if not cnt: raise Unk('no counter')
    C = L.closed.get(cnt)
    # the loop runs while 8 * counter < n
    if C is not None:
        for d, es, v in L.paths:
            f = facts_of(d, q.f)
            if f is None: continue
            lo, hi = f.rel(n, mulc(cnt, 8))
            if lo < 1: cx.chk('G05', 'read:stops', None if any(opaque_but(t, cnt) for t in fact_terms_of(d)) else False, W, '%s the loop fills a byte although all bits are read' % what)
        if L.exitf is not None:
            f = L.exitf.copy()
            if f.assume(lt(mulc(cnt, 8), n), 1):
                left = f.rel(n, mulc(cnt, 8))[1]
                cx.chk('G05', 'read:complete', False if left < INF else None, W, '%s the loop ends with up to %s bits unread' % (what, left))
            else: cx.ok('G05', 'read:complete', W)
    for s in range(8):
        m0 = rem8(cur, K, s, {})
        m0[cur] = add(mulc(K, 8), I(s))
        for d, es, v in L.paths:
            f = Facts()
            okp = True
            for k, t, x in d:
                for y in subst_facts([(k, t, x)], m0):
                    if not apply_facts(f, [y]): okp = False
                if k in ('z', 'zn'):
                    z = subst(mklin(0, dict(t)), m0)
                    if is_int(z) and (k == 'z' and not x[0] <= z.a[0] <= x[1] or k == 'zn' and z.a[0] in x): okp = False
            if not okp: continue
            nb = v.get(bk)
            if nb is None: raise Unk('buffer after an iteration')
            nb = subst(nb, m0)
            if nb.op != 'sset' or nb.a[0] is not hb: raise Unk('buffer %s' % show(nb)[:60])
            pos = sub(nb.a[1], cnt)
            if pos is not I(0):
                cx.chk('G05', 'read:bits', False if is_int(pos) else None, W, 'byte %s of the buffer is filled in iteration %s' % (show(nb.a[1]), show(cnt))); continue
            base = add(K, cnt)
            # how many bytes are left from here
            lo, hi = f.rel(length(data), base)
            m = {length(data): add(base, I(int(lo)))} if lo == hi else {}
            e = subst(nb.a[2], m)
            x = dict((('D', data),))
            bits = byte_bits(e, x, {})
            for j, g in enumerate(bits):
                ix = add(base, I((j + s) // 8))
                if m:
                    left = sub(m[length(data)], ix)
                    if is_int(left) and left.a[0] <= 0: continue   # beyond the stream: cut off below
                if f.rel(length(data), ix)[1] <= 0: continue
                w = ('D', ix, (j + s) % 8)
                if g == w: cx.ok('G05', 'read:bits', W); continue
                if isinstance(g, tuple) and not is_int(sub(g[1], ix)): raise Unk('bit %s' % (g,))
                cx.bad('G05', 'read:bits', W, 'reading at bit %d of a byte: bit %d of the result is %s' % (s, j, 'bit %d of byte %s' % (g[2], show(g[1])) if isinstance(g, tuple) else g))
    # bits beyond the requested ones are cleared
    if C is None: raise Unk('last byte')
    F = L.closed[hb]
    lastb = index(F, sub(C, I(1)))
    for k in range(8):
        m = rem8(n, mk('sym', 'whole'), k, {})
        f = spec(q, m, [(lt(I(0), n), 1)])
        if f is None: continue
        y = subst(final, m)
        want = (0xff << (8 - k)) & 0xff if k else 0xff
        Fm = subst(F, m); Cm = subst(C, m)
        lm = index(Fm, sub(Cm, I(1)))
        if y is Fm:
            if f.rel(Cm, I(0)) == (0, 0): continue       # nothing was read
            cx.chk('G05', 'read:padding', True if want == 0xff else None, W, 'the last byte is not masked'); continue
        if y.op != 'sset' or y.a[0] is not Fm: raise Unk('buffer at the end %s' % show(y)[:60])
        if y.a[1] is not sub(Cm, I(1)):
            p = subst(sub(y.a[1], sub(Cm, I(1))), {Cm: mk('sym', 'count')})
            cx.chk('G05', 'read:padding', None if opaque(p) else False, W, 'the byte that is masked is %s' % show(p)); continue
        b = bits_of(y.a[2], {lm: 8}, 8)
        if b is None: raise Unk('mask %s' % show(y.a[2])[:60])
        good = all((x == (lm, j)) if (want >> j) & 1 else x == 0 for j, x in enumerate(b))
        cx.chk('G05', 'read:padding', good, W, '%d bits in the last byte: kept are bits %s' % (k or 8, [7 - j for j, x in enumerate(b) if x == (lm, j)]))

def opaque_but(t, h): return opaque(subst(t, {h: mk('sym', 'n')}))

# ------------------------------------------------------- codecs and their tags
def enum_of(cx, ty):
    """variant name -> (index, discriminant value)"""
    for p, a in cx.db.adt.items():
        if p.split('::')[-1] == ty: return {v['name']: (n, int(v['discr']) if v['discr'] is not None else n) for n, v in enumerate(a['variants'])}
    raise Undecided('no enum ' + ty)

CODEC = frozenset(('Compactor.compact', 'GorillaCompactor.compact', 'Compactor.get_bytes_vec', 'GorillaCompactor.as_bytes_vec', 'GorillaDecompactor.new', 'Bstream.from_bytes', 'Compactor.compact_vec'))

def hard(o): return any(opaque(t) for t in fact_terms_of(o.f.items()))

def disc_is(o, t, n): return t.a[3] == n if t.op == 'adt' else o.f.copy().assume_disc(t, n)

@rule('G04')
def codecs(cx):
    CV, DV, TV = enum_of(cx, 'Compactor'), enum_of(cx, 'Decompactor'), enum_of(cx, 'CompactType')
    TI = adt_fields(cx, 'TimePoint')
    names = [n for n in ('Gorilla', 'None') if n in CV and n in DV and n in TV]
    if len(names) < 2: cx.unk('G04', 'codec:types', '', 'codecs not found'); return
    # serialised form of each codec
    g = cx.good(cx.need('Compactor', 'get_bytes_vec'), CODEC)
    W = where(g)
    tags = {}
    a = init(g)
    for nm in names:
        k = CV[nm][1]
        for o in g.outs:
            if not disc_is(o, a, k): continue
            if o.kind != 'ret': cx.chk('G04', 'tag:written:' + nm, None if hard(o) else False, W, 'serialising panics'); continue
            ps = list(parts(o.v))
            l = ps[-1] if ps else None
            t = l.a[0] if l is not None and l.op == 'one' and is_int(l.a[0]) else I(l.a[0][-1]) if l is not None and l.op == 'lit' else None
            if t is None: cx.chk('G04', 'tag:written:' + nm, None if opaque(o.v) else False, W, 'the serialised form %s does not end with a tag' % show(o.v)[:80]); continue
            tags[nm] = t
            body = slice_(o.v, I(0), sub(length(o.v), I(1)))
            if nm == 'None': want = vf(a, CV[nm][1], 0)
            else:
                e = [x for x in o.ev if x.name == 'GorillaCompactor::as_bytes_vec']
                want = e[0].res if len(e) == 1 and e[0].args[0] is vf(a, CV[nm][1], 0) else None
            cx.chk('G04', 'tag:body:' + nm, None if want is None else True if body is want else None if opaque(body) else False, W, 'before the tag the serialised form is %s' % show(body)[:80])
    if len(tags) < 2: cx.unk('G04', 'tag:distinct', W, 'tags')
    else: cx.chk('G04', 'tag:distinct', len(set(t.a[0] for t in tags.values())) == len(tags), W, 'two codecs write the same tag')
    # reading checks the tag
    d = cx.good(cx.need('Decompactor', 'from'), CODEC)
    W = where(d)
    ty, data = d.args[:2]
    n = length(data)
    lastb = index(data, sub(n, I(1)))
    for nm in names:
        if nm not in tags: continue
        for o in d.outs:
            if not disc_is(o, ty, TV[nm][1]): continue
            if o.kind != 'ret': cx.chk('G04', 'tag:no-panic', None if hard(o) else False, W, 'opening a serialised form panics'); continue
            whole = with_(o, [(lt(I(0), n), 1), (ieq(lastb, tags[nm]), 1)])
            other = with_(o, [(lt(I(0), n), 1), (ieq(lastb, tags[nm]), 0)])
            empty = with_(o, [(lt(I(0), n), 0)])
            hardf = hard(o) or any(t.op in ('eq', 'app', 'haskey') for t in o.f.b)
            if o.rk == 'ok':
                for q, why in ((other, 'with another tag'), (empty, 'without a tag')):
                    if q is not None: cx.chk('G04', 'tag:enforced:' + nm, None if hardf else False, W, 'data %s is opened as %s' % (why, nm))
                    else: cx.ok('G04', 'tag:enforced:' + nm, W)
                v = o.p
                want = DV[nm][1]
                if v.op != 'adt': cx.unk('G04', 'tag:codec:' + nm, W, show(v)[:60]); continue
                cx.chk('G04', 'tag:codec:' + nm, v.a[3] == want, W, 'data tagged %s is read as %s' % (nm, v.a[1]))
                if v.a[3] != want: continue
                x = v.a[4]
                body = slice_(data, I(0), sub(n, I(1)))
                if nm == 'None': c = True if x is body else None if opaque(x) else False
                else:
                    e1, e2 = [e for e in o.ev if e.name == 'Bstream::from_bytes'], [e for e in o.ev if e.name == 'GorillaDecompactor::new']
                    c = None
                    if len(e1) == 1 and len(e2) == 1: c = True if e1[0].args[0] is body and e2[0].args[0] is e1[0].res and x is e2[0].res else None if opaque(e1[0].args[0]) else False
                cx.chk('G04', 'tag:body-read:' + nm, c, W, 'what is read is %s' % show(x)[:80])
            else:
                if whole is not None: cx.chk('G04', 'tag:accepted:' + nm, None if hardf else False, W, 'data tagged %s is refused with %s' % (nm, show(o.p)[:60]))
                else: cx.ok('G04', 'tag:accepted:' + nm, W)
                if o.p.op == 'adt' and other is not None:
                    inner = o.p.a[4] if len(o.p.a) > 4 else None
                    mm = o.p.a[1] == 'CompactionErr' and inner is not None and inner.op == 'adt' and inner.a[1] == 'CompactionTypeDontMatch'
                    cx.chk('G04', 'tag:error:' + nm, True if mm else None if inner is not None and inner.op != 'adt' and o.p.a[1] == 'CompactionErr' else False, W, 'a tag of another codec is reported as %s' % show(o.p)[:80])
                    if mm and len(inner.a) > 5: cx.chk('G04', 'tag:error-names:' + nm, True if inner.a[4] is tags[nm] and inner.a[5] is lastb else None if opaque(inner) or other.f.rel(inner.a[5], lastb) == (0, 0) else False, W, 'the error says %s' % show(inner)[:80])
    # a new compactor of a type
    nw = cx.find('Compactor', 'new')
    if nw is not None:
        r = cx.good(nw)
        for o in r.rets:
            for nm in names:
                if not disc_is(o, r.args[0], TV[nm][1]): continue
                cx.chk('G04', 'new:codec:' + nm, None if o.v.op != 'adt' else o.v.a[3] == CV[nm][1], where(r), 'a %s compactor is %s' % (nm, show(o.v)[:60]))
                if nm == 'None' and o.v.op == 'adt' and o.v.a[3] == CV[nm][1]: cx.chk('G04', 'new:empty', same(o.v.a[4], EMPTY), where(r), 'a new compactor holds %s' % show(o.v.a[4])[:60])
    # one point
    c = cx.good(cx.need('Compactor', 'compact'), CODEC)
    W = where(c)
    a = init(c)
    p = c.args[1]
    k = CV['None'][1]
    rec = None
    for o in c.outs:
        for nm in names:
            if not disc_is(o, a, CV[nm][1]): continue
            if o.kind != 'ret': cx.chk('G04', 'point:no-panic', None if hard(o) else False, W, 'adding a point panics'); continue
            if nm == 'Gorilla':
                e = [x for x in o.ev if x.name == 'GorillaCompactor::compact']
                cx.chk('G04', 'point:gorilla', True if len(e) == 1 and e[0].args[1] is p else None if any(x.kind == 'loop' for x in o.ev) or e and opaque(e[0].args[1]) else False, W, 'the point is handed to the Gorilla codec %d times' % len(e))
                continue
            v = load0(c, o)
            x = vf(v, k, 0)
            old = vf(a, k, 0)
            ps = parts(x)
            if opaque(x) or x.op == 'bottom': cx.unk('G04', 'point:appended', W, show(x)[:80]); continue
            if x is old or not ps or ps[0] is not old:
                cx.bad('G04', 'point:appended', W, 'after adding a point the data is %s' % show(x)[:100]); continue
            cx.ok('G04', 'point:appended', W)
            rec = cat(*[mk('cat', q) if q.op in ('one', 'lit') else q for q in ps[1:]])
    # reading records
    dd = cx.good(cx.need('Decompactor', 'decompact'), frozenset(('GorillaDecompactor.Iterator.next',)))
    W = where(dd)
    a2 = init(dd)
    for o in dd.outs:
        if disc_is(o, a2, DV['Gorilla'][1]):
            if o.kind != 'ret': continue
            if o.rk == 'ok':
                g0 = vf(a2, DV['Gorilla'][1], 0)
                c = True if o.p is g0 else None if opaque(o.p) or o.p.op in ('comp', 'res', 'app') else False
                if o.p.op == 'comp' and o.p.a[0] is g0 and c is None and not opaque(o.p):
                    # some points dropped, doubled or changed
                    for d_, ps in o.p.a[1]:
                        ts_ = fact_terms_of(d_)
                        if any(opaque(t) or mentions(t, lambda z: z.op in ('res', 'idx', 'hdr')) for t in ts_) or not all(contains(t, el(g0)) for t in ts_): continue
                        if any(q.op not in ('one', 'lit') for q in ps): continue
                        if len(ps) != 1 and not any(k == 'z' or k == 'd' for k, t, v in d_): c = False
                cx.chk('G04', 'read:gorilla', c, W, 'the points read are %s' % show(o.p)[:80])
            continue
        if not disc_is(o, a2, DV['None'][1]): continue
        if o.kind != 'ret': continue
        if rec is None: cx.unk('G04', 'read:records', W, 'no record'); continue
        if o.rk != 'ok': cx.chk('G04', 'read:records', None, W, 'reading fails'); continue
        v = o.p
        X = vf(a2, DV['None'][1], 0)
        if v.op == 'comp' and v.a[0].op == 'app' and v.a[0].a[0] in ('chunks', 'chunks_exact') and v.a[0].a[1] is X:
            for d_, els in v.a[1]:
                if d_ and not els and not any(opaque(t) for t in fact_terms_of(d_)): cx.bad('G04', 'read:records', W, 'some records yield no point')
        if v.op != 'comp' or len(v.a[1]) != 1 or v.a[1][0][0] or opaque(v):
            cx.chk('G04', 'read:records', None if opaque(v) or v.op == 'comp' or v.op == 'app' or mentions(v, lambda t: t.op == 'app') else False, W, 'the points read are %s' % show(v)[:100]); continue
        src, elems = v.a[0], v.a[1][0][1]
        w = None
        if src.op == 'app' and src.a[0] in ('chunks', 'chunks_exact') and src.a[1] is X: w = src.a[2]
        if w is None or not is_int(w):
            base = src.a[1] if src.op == 'app' and src.a[0] in ('chunks', 'chunks_exact') and len(src.a) > 2 else None
            cx.chk('G04', 'read:records', False if base is not None and base.op == 'slice' and base.a[0] is X and is_int(src.a[2]) else None, W, 'records are read from %s' % show(src)[:80]); continue
        if not is_int(length(rec)) or length(rec).a[0] != w.a[0]:
            cx.chk('G04', 'read:records', False if is_int(length(rec)) else None, W, 'records are %s bytes long and read %s bytes at a time' % (show(length(rec)), show(w))); continue
        if len(elems) != 1 or elems[0].op != 'one': cx.bad('G04', 'read:records', W, 'a record yields %d points' % len(elems)); continue
        e = subst(elems[0].a[0], {el(src): rec})
        for f in ('timestamp', 'value'):
            x = fld(e, TI[f])
            und = opaque(x) or mentions(x, lambda t: t.op in ('comp', 'bit') or t.op == 'app' and str(t.a[0]) not in ('f_from_be', 'f_from_le', 'fbits', 'ffrombits', 'f32_from_be', 'f32_from_le') and not str(t.a[0]).startswith('from_'))
            cx.chk('G04', 'read:' + f, True if x is fld(p, TI[f]) else None if und else False, W, 'a point\'s %s is read back as %s' % (f, show(x)[:100]))
        cx.ok('G04', 'read:records', W)
    # a list of points
    l = cx.good(cx.need('Compactor', 'compact_vec'), CODEC - {'Compactor.compact_vec'})
    W = where(l)
    a, pts = init(l), l.args[1]
    for o in l.outs:
        for nm in names:
            if not disc_is(o, a, CV[nm][1]): continue
            key = 'list:' + nm
            if o.kind != 'ret': cx.chk('G04', key, None if hard(o) else False, W, 'storing a list panics'); continue
            loops = [e for e in o.ev if e.kind == 'loop']
            calls = [e for e in o.ev if e.kind in ('call', 'rec') and e.name in ('Compactor::compact', 'GorillaCompactor::compact')]
            empty = with_(o, [(lt(I(0), length(pts)), 1)]) is None
            if not loops:
                if empty: cx.ok('G04', key, W)
                else: cx.chk('G04', key, None if calls or opaque(load0(l, o)) else False, W, 'the points are not stored')
                continue
            stored = False
            for e in loops:
                L = e.x
                ins = [[x for x in es if x.kind in ('call', 'rec') and x.name in ('Compactor::compact', 'GorillaCompactor::compact')] for d_, es, vals in L.paths]
                if not any(ins): continue
                stored = True
                if L.src is not pts:
                    part = L.src.op in ('slice', 'rev') and not opaque(L.src) and contains(L.src, pts)
                    cx.chk('G04', key, False if part else None, W, 'the points stored are those in %s' % show(L.src)[:60]); continue
                if L.partial: cx.unk('G04', key, W, 'the loop can end early'); continue
                for (d_, es, vals), xs in zip(L.paths, ins):
                    if len(xs) != 1: cx.chk('G04', key, None if any(opaque(t) for t in fact_terms_of(d_)) and not prev_only(L, d_) else False, W, 'a point is stored %d times' % len(xs)); continue
                    cx.chk('G04', key, same(xs[0].args[1], el(pts)), W, 'what is stored for a point is %s' % show(xs[0].args[1])[:60])
            if not stored:
                other = [e for e in flat(o.ev) if e.kind in ('call', 'rec', 'ext') and e.name not in ('Compactor::get_bytes_vec', 'GorillaCompactor::as_bytes_vec')]
                cx.chk('G04', key, False if not other and load0(l, o) is a and not empty else None, W, 'the points are stored otherwise' if other or load0(l, o) is not a else 'the points are not stored')
            gb = [e for e in o.ev if e.name == 'Compactor::get_bytes_vec']
            ab = [e for e in o.ev if e.name == 'GorillaCompactor::as_bytes_vec']
            def order(x): return list(o.ev).index(x)
            fin = gb[-1] if gb else ab[-1] if ab else None
            if fin is not None and loops and order(fin) < order(loops[-1]) and stored: cx.bad('G04', key + ':result', W, 'the result is taken before the points are stored'); continue
            if gb and o.v is gb[-1].res: cx.ok('G04', key + ':result', W)
            elif nm == 'Gorilla' and ab and nm in tags: cx.chk('G04', key + ':result', True if o.v is cat(ab[-1].res, seq(tags[nm])) or o.v is cat(ab[-1].res, lit(bytes([tags[nm].a[0]]))) else None if opaque(o.v) else False, W, 'the result is %s' % show(o.v)[:80])
            else: cx.chk('G04', key + ':result', None if opaque(o.v) or nm == 'None' else False, W, 'the result is %s' % show(o.v)[:80])
