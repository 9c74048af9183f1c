"""Gorilla codec: what the writer emits against what the reader accepts.

Both sides are summarised per path: the writer as the sequence of bits and
fields it appends for one point, the reader as the sequence of reads (position,
width) it performs and the point and state it derives from them.  For every
pair of paths the rule replays the reads over the emitted layout and compares
the point and the state both sides keep.  Together with equal initial states
this is an inductive argument over streams of any length.

Time stamps are taken to be ascending and steps and their differences to fit
into a signed 64-bit number (the code checks that with debug assertions)."""
from rulebase import *
from rules_chunk import adt_fields
from rules_common import fact_terms_of
from rules_compaction import Bad, Unk, init

WR = frozenset(('Bstream.append_bytes', 'Bstream.write_bits', 'Bstream.write', 'Bstream.append'))
RD = frozenset(('BstreamSeeker.read_next_n_bit',))
X, LZ, TZ = mk('sym', 'xor'), mk('sym', 'lz'), mk('sym', 'tz')
TS, VAL = mk('sym', 'timestamp'), mk('sym', 'value')
W64 = {'u64', 'i64', 'usize', 'isize'}
STATE = ('t', 'v', 'd', 'leading', 'tailing')
def fbits(x): return mk('app', 'fbits', x)
def S(n): return mk('sym', 'state.' + n)

class Field(Bad):
    """a number that does not fit its field"""
    def __init__(self, N, w, x):
        Bad.__init__(self, '%s is written into %d bits although it can be %s' % (show(N)[:60], w, x))
        self.tags = 'G01' if contains(N, TS) else 'G02'

class Split(Exception):
    def __init__(self, t, w): self.t, self.w = t, w

def rewrite(t, fn, memo=None):
    """bottom-up rewriting into normal forms"""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                y = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
                r = fn(y)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            r = tuple(go(y) for y in x)
            return x if all(p is q for p, q in zip(r, x)) else r
        return x
    return go(t)

def plain(t):
    """64-bit conversions dropped; zeros counted and xor named"""
    if t.op == 'wrap' and t.a[1] in W64 and t.a[2] in W64: return t.a[0]
    if t.op == 'bit' and t.a[0] == 'BitXor' and {t.a[3], t.a[4]} == {fbits(VAL), fbits(S('v'))}: return X
    if t.op == 'app' and t.a[0] == 'leading_zeros64' and t.a[1] is X: return LZ
    if t.op == 'app' and t.a[0] == 'trailing_zeros64' and t.a[1] is X: return TZ
    if t.op == 'wrap' and t.a[0] in (LZ, TZ): return t.a[0]
    return t

def named(cx, r, ty, point=None):
    F = adt_fields(cx, ty)
    a = init(r)
    ren = {fld(a, F[n]): S(n) for n in STATE if n in F}
    ren[fld(a, F['len' if 'len' in F else 'idx'])] = S('len')
    return F, a, ren

def norm_facts(o, fn):
    """facts of a path in the common names"""
    f = Facts()
    for k, t, v in o.f.items():
        if k in ('z', 'zn'):
            x = fn(mklin(0, dict(t)))
            if k == 'z':
                if not f.assume_rel(x, I(0), v[0], v[1]): return None
            elif not all(f.assume_ne(x, I(n)) for n in v): return None
        elif k == 'b':
            if not f.assume(fn(t), v): return None
        elif k == 'd':
            if not f.assume_disc(fn(t), v): return None
    return f

def invariants(f):
    for x in (S('leading'), S('tailing'), S('len'), TS, S('t')):
        if not f.assume_rel(x, I(0), 0, INF): return False
    if not f.assume_rel(add(S('leading'), S('tailing')), I(0), 0, 63): return False
    for x in (S('leading'), S('tailing')):
        if not f.assume_rel(x, I(0), 0, 63): return False
    return window(f)

def window(f):
    """zeros around the xor of two values"""
    for x in (LZ, TZ):
        if not f.assume_rel(x, I(0), 0, 64): return False
    if not f.assume_rel(X, I(0), 0, INF): return False
    if f.rel(X, I(0))[0] >= 1:
        if not f.assume_rel(add(LZ, TZ), I(0), 0, 63): return False
        for x, y in ((LZ, TZ), (TZ, LZ)):
            lo = f.rel(y, I(0))[0]
            if not f.assume_rel(x, I(0), 0, 63 - lo): return False
    if f.rel(add(LZ, TZ), I(0))[1] <= 0:
        if not (f.assume_rel(LZ, I(0), 0, 0) and f.assume_rel(TZ, I(0), 0, 0)): return False
    return True

# --------------------------------------------------------------------- writer
class Enc(object):
    __slots__ = ('f', 'items', 'st', 'soft', 'o', 'cls')

def const_bits(n, w): return [(n >> (w - 1 - k)) & 1 for k in range(w)]

def layout(o, fn, f=None):
    """[bit | ('f', value, width)] in the order they are appended"""
    out = []
    for e in o.ev:
        if e.kind == 'loop': raise Unk('a loop')
        if e.kind not in ('call', 'ext', 'rec') or not e.name.startswith('Bstream::'): continue
        if e.name == 'Bstream::write':
            b = fn(e.args[1])
            if f is not None and not is_int(b) and f.truth(b) is not None: b = I(f.truth(b))
            if not is_int(b): raise Unk('bit %s' % show(b)[:40])
            out.append(b.a[0])
        elif e.name == 'Bstream::write_bits':
            x, n = number(e.args[1], fn), fn(e.args[2])
            if x[1] != 64: raise Unk('bits of %s' % show(e.args[1])[:40])
            if is_int(x[0]) and is_int(n):
                if n.a[0] > 64: raise Unk('%d bits' % n.a[0])
                out += const_bits(x[0].a[0] & (2 ** 64 - 1), 64)[64 - n.a[0]:]
            else: out.append(('f', x[0], n))
        elif e.name == 'Bstream::append_bytes':
            q = fn(e.args[2])
            if not is_int(q): raise Unk('free bits %s' % show(q)[:40])
            x = number(e.args[1], fn)
            if is_int(x[0]): out += const_bits(x[0].a[0], x[1])[:x[1] - q.a[0]]
            elif q.a[0] == 0: out.append(('f', x[0], I(x[1])))
            else: raise Unk('bytes %s' % show(e.args[1])[:60])
        else: raise Unk(e.name)
    return out

WIDTH = {p + str(n): n for p in 'ui' for n in (8, 16, 32, 64, 128)}
WIDTH.update(usize=64, isize=64)

def number(s, fn):
    """a byte sequence as a big-endian number (modulo two to its width) and its width"""
    n, w = number_(s, fn)
    while n.op == 'wrap' and WIDTH.get(n.a[2], 0) >= w and WIDTH.get(n.a[1], 0) >= w: n = n.a[0]
    return n, w

def number_(s, fn):
    s = fn(s)
    if s.op == 'be': return s.a[1], 8 * (s.a[0] if isinstance(s.a[0], int) else s.a[0].a[0])
    if s.op == 'le' and isinstance(s.a[0], int): return mk('app', 'bswap', I(s.a[0]), s.a[1]), 8 * s.a[0]
    ps = parts(s)
    if len(ps) == 1 and ps[0].op == 'be': return ps[0].a[1], 8 * ps[0].a[0]
    if len(ps) == 1 and ps[0].op == 'one': return ps[0].a[0], 8
    n, w = 0, 0
    for p in ps:
        if p.op == 'lit':
            for c in p.a[0]: n, w = n * 256 + c, w + 8
        elif p.op == 'one' and is_int(p.a[0]): n, w = n * 256 + p.a[0].a[0], w + 8
        else: raise Unk('bytes %s' % show(s)[:60])
    return I(n), w

def writer(cx):
    r = cx.good(cx.need('GorillaCompactor', 'compact'), WR)
    F, a, ren = named(cx, r, 'GorillaCompactor')
    TI = adt_fields(cx, 'TimePoint')
    p = r.args[1]
    ren[fld(p, TI['timestamp'])], ren[fld(p, TI['value'])] = TS, VAL
    def fn(t): return rewrite(subst(t, ren), plain)
    out = []
    for o in r.outs:
        if o.kind != 'ret': continue
        f = norm_facts(o, fn)
        if f is None or not f.assume_rel(TS, S('t'), 0, INF) or not invariants(f): continue
        e = Enc()
        e.f, e.o = f, o
        e.soft = any(opaque(t) or mentions(t, lambda y: y.op in ('app', 'wrap', 'bit')) for t in fact_terms_of(f.items()))
        e.items = layout(o, fn, f)
        v = r.interp.load(o.s, r.args[0])
        e.st = {n: fn(fld(v, F[n])) for n in STATE}
        e.st['len'] = fn(fld(v, F['len']))
        lo, hi = f.rel(S('len'), I(0))
        e.cls = 'first' if hi == 0 else 'second' if lo == hi == 1 else 'later' if lo >= 2 else 'any'
        out.append(e)
    return r, out

# --------------------------------------------------------------------- reader
class Dec(object):
    __slots__ = ('f', 'facts', 'reads', 'o', 'st', 'kind', 'point', 'cur', 'asserts', 'soft')

def reading(cx):
    SI = adt_fields(cx, 'BstreamSeeker')
    def follow(_cx, I_, s, vals):
        def fx(I_, s, args, vals, r):
            I_.store(s, args[0], set_f(vals[0], SI['cursor'], add(fld(vals[0], SI['cursor']), r)))
            I_.store(s, args[1], mk('app', 'rd', r, vals[1]))
        I_.cut_effects = {'BstreamSeeker::read_next_n_bit': fx}
    return follow

def reader(cx):
    SI = adt_fields(cx, 'BstreamSeeker')
    r = cx.good(cx.need('GorillaDecompactor', 'next', 'Iterator'), RD, pre=reading(cx))
    F, a, ren0 = named(cx, r, 'GorillaDecompactor')
    TI = adt_fields(cx, 'TimePoint')
    cur0 = fld(fld(a, F['source']), SI['cursor'])
    out = []
    for o in r.outs:
        d = Dec()
        d.o, d.kind = o, o.kind
        rd = [e for e in o.ev if e.name == 'BstreamSeeker::read_next_n_bit']
        if any(e.kind == 'loop' for e in o.ev): raise Unk('a loop')
        ren = dict(ren0)
        for n, e in enumerate(rd):
            ren[e.res] = mk('sym', 'l%d' % n)
            ren[mk('app', 'rd', e.res, e.args[1])] = mk('sym', 'b%d' % n)
        def fn(t): return rewrite(subst(t, ren), plain)
        d.reads = []
        for e in rd:
            n = length(fn(e.args[1]))
            if not is_int(n): raise Unk('size of the read buffer')
            d.reads.append((fn(sub(fld(e.args[0], SI['cursor']), cur0)), fn(e.args[2]), n.a[0], mk('sym', 'b%d' % len(d.reads)), mk('sym', 'l%d' % len(d.reads))))
        d.facts = [(k, fn(mklin(0, dict(t))) if k in ('z', 'zn') else fn(t), v) for k, t, v in o.f.items()]
        d.asserts = [fn(c) for e in o.ev if e.kind == 'assert' for c in e.args if isinstance(c, T)]
        d.point = None
        if o.kind == 'ret':
            v = fn(o.v)
            if v.op != 'adt': raise Unk('result %s' % show(v)[:60])
            if v.a[2] == 1: d.point = (fld(v.a[4], TI['timestamp']), fld(v.a[4], TI['value']))
            fin = r.interp.load(o.s, r.args[0])
            d.st = {n: fn(fld(fin, F[n])) for n in STATE}
            d.st['len'] = fn(fld(fin, F['idx']))
            d.cur = fn(sub(fld(fld(fin, F['source']), SI['cursor']), cur0))
        out.append(d)
    return r, out

# ------------------------------------------------------------------ replaying
def unread(t, k):
    """mentions the result of a read after the first k"""
    return mentions(t, lambda x: x.op == 'sym' and isinstance(x.a[0], str) and x.a[0][0] in 'bl' and x.a[0][1:].isdigit() and int(x.a[0][1:]) >= k)

def swapped(k, n):
    return n.a[2] if n.op == 'app' and n.a[0] == 'bswap' else mk('app', 'bswap', I(k), n)

class Play(object):
    """one way of running the reads of a reader path over an emitted layout"""
    def __init__(self, e, f):
        self.e, self.f = e, f
        self.m, self.buf, self.soft = {}, {}, False
    def copy(self):
        p = Play(self.e, self.f.copy())
        p.m, p.buf, p.soft = dict(self.m), dict(self.buf), self.soft
        return p
    # bits are numbers, ('f', k, j): bit j (from the least significant) of field k, ('?', n): bits of what follows
    def tok(self, t):
        if is_int(t): return [(t.a[0] >> k) & 1 for k in range(64)] if t.a[0] >= 0 else None
        if t.op == 'index' and t.a[0] in self.buf and is_int(t.a[1]):
            c = self.buf[t.a[0]]
            if not isinstance(c, list): return None
            i = t.a[1].a[0]
            return c[8 * i:8 * i + 8][::-1] + [0] * 56
        if t.op == 'from_be' or t.op == 'app' and str(t.a[0]).startswith('from_be'):
            s = t.a[1]
            k = int(str(t.a[0])[7:]) if t.op == 'app' else t.a[0]
            i = 0
            if s.op == 'slice' and is_int(s.a[1]): i, s = s.a[1].a[0], s.a[0]
            c = self.buf.get(s)
            if not isinstance(c, list) or k > 8: return None
            return c[8 * i:8 * (i + k)][::-1] + [0] * (64 - 8 * k)
        if t.op == 'bit':
            x = self.tok(t.a[3])
            if x is None: return None
            o, w = t.a[0], t.a[1]
            if o in ('Shl', 'Shr'):
                k = self.val(t.a[4])
                if not is_int(k): return None
                k = k.a[0]
                if o == 'Shr' and t.a[2] != 'u': return x[:w][k:] + [x[w - 1]] * (64 - w + k)
                return (x[k:] + [0] * k)[:64] if o == 'Shr' else ([0] * k + x)[:w] + [0] * (64 - w)
            y = self.tok(t.a[4])
            if y is None: return None
            out = []
            for p, q in zip(x, y):
                if o == 'BitAnd': r = 0 if 0 in (p, q) else p if q == 1 else q if p == 1 else p if p == q else None
                elif o == 'BitOr': r = 1 if 1 in (p, q) else p if q == 0 else q if p == 0 else p if p == q else None
                elif o == 'BitXor': r = p if q == 0 else q if p == 0 else 0 if p == q else None
                else: r = None
                if r is None: return None
                out.append(r)
            return out
        if t.op == 'wrap':
            w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(t.a[2])
            if w is None or t.a[1] not in ('u8', 'u16', 'u32', 'u64', 'usize'): return None
            x = self.tok(t.a[0])
            return x[:w] + [0] * (64 - w) if x is not None else None
        return None
    def field(self, b, signed=None):
        """the number with these bits"""
        if all(x in (0, 1) for x in b): return I(sum(x << k for k, x in enumerate(b)))
        if any(isinstance(x, tuple) and x[0] == '?' for x in b): return None
        k = next(x[1] for x in b if isinstance(x, tuple))
        _, N, w = self.e.items[k]
        if not is_int(w): return None
        w = w.a[0]
        if w < 64 and b == [('f', k, j) for j in range(w)] + [('f', k, w - 1)] * (64 - w): signed, b = w, b[:w] + [0] * (64 - w)
        if b != [('f', k, j) for j in range(w)] + [0] * (64 - w): return None
        if w == 64: return N
        lo, hi = self.f.rel(N, I(0))
        if signed:
            if w != signed: return None
            if lo >= -(1 << (w - 1)) and hi < 1 << (w - 1): return N
            raise Field(N, w, lo if lo < -(1 << (w - 1)) else hi)
        if lo >= 0 and hi < 1 << w: return N
        if lo >= (1 << w) and hi < 2 << w: return sub(N, I(1 << w))
        if lo < 0 or hi >= 4 << w: raise Field(N, w, lo if lo < 0 else hi)
        raise Split(N, w)
    def val(self, t):
        """a reader term in terms of the writer"""
        t = subst(t, self.m)
        memo = {}
        def go(x):
            if not isinstance(x, T):
                if isinstance(x, tuple): return tuple(go(y) for y in x)
                return x
            if x in memo: return memo[x]
            r = None
            if x.op == 'wrap' and x.a[2] in ('i8', 'i16', 'i32') and (x.a[1] == 'u' + x.a[2][1:] or WIDTH.get(x.a[1], 0) > int(x.a[2][1:])):
                b, y = None, x.a[0]
                while b is None:
                    b = self.tok(y)
                    if y.op != 'wrap' or WIDTH.get(y.a[1], 0) < int(x.a[2][1:]) or WIDTH.get(y.a[2], 0) < int(x.a[2][1:]): break
                    y = y.a[0]
                if b is not None: b = b[:int(x.a[2][1:])] + [0] * (64 - int(x.a[2][1:]))
                if b is not None: r = self.field(b, int(x.a[2][1:]))
                if r is None and b is not None: r = mk('app', 'bits', tuple(map(str, b)), x.a[2])
            elif x.op == 'app' and str(x.a[0]).startswith('from_le'):
                k = int(x.a[0][7:])
                b = self.tok(mk('app', 'from_be%d' % k, x.a[1]))
                n = self.field(b) if b is not None else None
                if n is not None: r = swapped(k, n)
            elif x.op == 'app' and x.a[0] in ('f_from_be', 'f_from_le'):
                y = x.a[-1]
                b = self.tok(mk('app', 'from_be8', y))
                n = self.field(b) if b is not None else None
                if n is not None and x.a[0] == 'f_from_le': n = swapped(8, n)
                if n is not None: r = models.unfbits(n)
            elif x.op == 'bit' and x.a[0] == 'Shr' and x.a[3].op == 'app' and x.a[3].a[0] == 'from_be8' and isinstance(self.buf.get(x.a[3].a[1]), tuple):
                r = mk('app', 'payload', self.buf[x.a[3].a[1]][1], go(x.a[4]))
            elif x.op == 'app' and x.a[0] == 'from_be8' and isinstance(self.buf.get(x.a[1]), tuple):
                r = mk('app', 'payload', self.buf[x.a[1]][1], I(0))
            else:
                b = self.tok(x)
                if b is not None:
                    r = self.field(b)
                    if r is None: r = mk('app', 'bits', tuple(map(str, b)))
            if r is None:
                na = tuple(go(y) for y in x.a)
                r = plain(x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na))
            memo[x] = r
            return r
        return go(t)
    def widths(self):
        off = I(0)
        for k, x in enumerate(self.e.items):
            yield k, off, x
            off = add(off, I(1) if x in (0, 1) else x[2])
        yield None, off, None
    def total(self): return list(self.widths())[-1][1]
    def read(self, pos, n, size):
        """contents of the buffer for every number of bits that may be delivered"""
        W = list(self.widths())
        tot = W[-1][1]
        f = self.f
        if self.f.rel(pos, tot) == (0, 0): i, skip = len(W) - 1, 0
        else:
            if not is_int(pos): raise Unk('position %s' % show(pos)[:60])
            if is_int(tot) and pos.a[0] > tot.a[0]: raise Bad('the reader is beyond the point')
            for i in range(len(W) - 1, -1, -1):
                if is_int(W[i][1]) and W[i][1].a[0] <= pos.a[0]: break
            skip = pos.a[0] - W[i][1].a[0]
        x = W[i][2]
        w = I(1) if x in (0, 1) else x[2] if x else I(0)
        lo, hi = f.rel(n, I(0))
        if lo == hi: n = I(int(lo))
        if x is not None and not (is_int(n) and is_int(w)):
            lo, hi = f.rel(n, w)
            if (lo, hi) == (0, 0) and not skip: return [(n, ('payload', W[i][0]))]
            if lo > 0 or hi < 0 or closed_term(n) and closed_term(w) and not self.soft and not self.e.soft: raise Bad('the reader takes %s bits where the writer put %s' % (show(n)[:60], show(w)[:60]))
            if skip: raise Bad('the reader is %d bits into the payload' % skip)
            raise Unk('width %s against %s' % (show(n)[:60], show(w)[:60]))
        if not is_int(n): raise Unk('width %s' % show(n)[:60])
        out = []
        for k, off, x in W[i:]:
            if x is None or len(out) - skip >= n.a[0]: break
            if x in (0, 1): out.append(x)
            elif is_int(x[2]): out += [('f', k, j) for j in range(x[2].a[0] - 1, -1, -1)]
            else:
                # looking ahead into a field of variable length
                ahead = min(max(f.rel(x[2], I(0))[0], 0), n.a[0] + skip - len(out))
                out += [('?', k)] * int(ahead)
                break
        out = out[skip:]
        n = n.a[0]
        if n > 8 * size: raise Unk('a buffer of %d bytes for %d bits' % (size, n))
        res = []
        if len(out) >= n: res.append((I(n), out[:n]))
        else:
            for l in range(len(out), n + 1): res.append((I(l), out + [('?', j) for j in range(l - len(out))]))
        return [(l, b + [0] * (8 * size - len(b))) for l, b in res]
    def holds(self, facts, k):
        """facts of the reader about what it has read so far; False: this path is not taken"""
        for kind, t, v in facts:
            if unread(t, k): continue
            x = self.val(t)
            if mentions(x, lambda y: y.op == 'app' and y.a[0] == 'bits'):
                # the bits of a field or of what follows can be anything
                continue
            if opaque(x) or mentions(x, lambda y: y.op in ('app', 'bit')): self.soft = True
            if kind == 'z':
                if not self.f.assume_rel(x, I(0), v[0], v[1]): return False
            elif kind == 'zn':
                if not all(self.f.assume_ne(x, I(n)) for n in v): return False
            elif kind == 'b':
                if is_int(x):
                    if bool(x.a[0]) != bool(v): return False
                elif not self.f.assume(x, v): return False
            elif kind == 'd' and x.op == 'adt':
                if x.a[3] != v: return False
            else: self.soft = True
        return window(self.f)

def plays(e, f, d):
    """feasible runs of reader path d over layout e"""
    todo = [(Play(e, f.copy()), 0)]
    out = []
    while todo:
        p, k = todo.pop()
        if not p.holds(d.facts, k): continue
        if k == len(d.reads):
            out.append(p); continue
        pos, n, size, b, l = d.reads[k]
        try: rs = p.read(p.val(pos), p.val(n), size)
        except Bad as x:
            if p.soft: raise Unk(str(x))
            raise
        for ll, c in rs:
            q = p.copy()
            q.m[l] = ll
            q.buf[b] = c
            todo.append((q, k + 1))
    return out

def values(p, t, out=None):
    """the bit patterns whose xor a value is"""
    if t.op == 'app' and t.a[0] in ('fbits', 'ffrombits'): return values(p, t.a[1])
    if t in (VAL, S('v')): return {t}
    if t is X: return {VAL, S('v')}
    if is_int(t) and t.a[0] == 0: return set()
    if t.op == 'bit' and t.a[0] == 'BitXor': return values(p, t.a[3]) ^ values(p, t.a[4])
    if t.op == 'app' and t.a[0] == 'payload':
        _, N, w = p.e.items[t.a[1]]
        s = t.a[2]
        sh = I(0)
        if N.op == 'bit' and N.a[0] == 'Shr': N, sh = N.a[3], N.a[4]
        if N is not X: raise Unk('payload %s' % show(N)[:60])
        f = p.f
        soft = p.soft or p.e.soft
        lo, hi = f.rel(sub(sub(sub(I(64), w), s), sh), I(0))
        if (lo, hi) != (0, 0):
            if (lo > 0 or hi < 0 or lo == -INF or hi == INF or lo < hi) and not soft: raise Bad('the payload is written from bit %s on and put back elsewhere' % show(sh)[:40])
            raise Unk('alignment')
        for c, x, nm in ((LZ, s, 'leading'), (TZ, sh, 'trailing')):
            if f.rel(c, x)[0] < 0:
                if soft or opaque(x): raise Unk('window')
                raise Bad('bits of the value lie outside the written window: %s zeros are not checked' % nm)
        return {VAL, S('v')}
    if t.op == 'bit' and t.a[0] in ('Shl', 'Shr') and t.a[2] == 'u' and t.a[3].op == 'app' and t.a[3].a[0] == 'payload':
        return values(p, mk('app', 'payload', t.a[3].a[1], (sub if t.a[0] == 'Shl' else add)(t.a[3].a[2], t.a[4])))
    if closed_term(t) and mentions(t, lambda x: x.op == 'app' and x.a[0] in KNOWN): raise Bad('the value becomes %s' % show(t)[:60])
    raise Unk('value %s' % show(t)[:60])

def eqv(p, a, b):
    x = values(p, a) ^ values(p, b)
    if x == {VAL, S('v')} and p.f.rel(X, I(0)) == (0, 0): return True
    return not x

KNOWN = ('fbits', 'ffrombits', 'bswap', 'fabs')
def closed_term(t):
    return not opaque(t) and not mentions(t, lambda y: y.op in ('bit', 'res') or y.op == 'app' and y.a[0] not in KNOWN and not (y.a[0] == 'bits' and any("'?'" in z for z in y.a[1])))
def unwrapped(p, t):
    """conversions that change nothing on this path dropped"""
    def fn(x):
        if x.op == 'wrap' and x.a[2][1:].isdigit():
            w = int(x.a[2][1:])
            lo, hi = p.f.rel(x.a[0], I(0))
            if x.a[2][0] == 'u' and lo >= 0 and hi < 1 << w or x.a[2][0] == 'i' and lo >= -(1 << (w - 1)) and hi < 1 << (w - 1): return x.a[0]
        return x
    return rewrite(t, fn)

def eqn(p, a, b):
    """True / False / None: two numbers agree"""
    if a is b or p.f.rel(a, b) == (0, 0): return True
    a, b = unwrapped(p, a), unwrapped(p, b)
    if a is b or p.f.rel(a, b) == (0, 0): return True
    if closed_term(a) and closed_term(b) and not p.soft and not p.e.soft: return False
    return None

def compare(cx, W, e, d, p):
    """the reader's point and state on this run are the writer's"""
    cls = e.cls
    soft = p.soft or e.soft
    def say(tag, key, c, why): cx.chk(tag, key, None if c is False and soft else c, W, why)
    if d.kind != 'ret': say('G01', 'read-back:' + cls, False if any(True for _ in d.facts) else None, 'the reader panics on a %s point' % cls); return
    if d.point is None:
        say('G01 G02', 'read-back:' + cls, False, 'the reader gives up on a %s point although all of it is in the stream' % cls); return
    x = p.val(d.cur)
    tot = p.total()
    c = True if p.f.rel(x, tot) == (0, 0) else None if not closed_term(x) else False
    say('G01 G02', 'consumed:' + cls, c, 'the reader takes %s bits of a %s point written in %s' % (show(x)[:60], cls, show(tot)[:60]))
    x = p.val(d.point[0])
    say('G01', 'time:' + cls, eqn(p, x, TS), 'the time stamp of a %s point is read back as %s' % (cls, show(x)[:80]))
    for n in ('t', 'd'):
        x = p.val(d.st[n])
        say('G01', 'state:%s:%s' % (n, cls), eqn(p, x, e.st[n]), 'after a %s point the reader remembers %s for %s, the writer %s' % (cls, show(x)[:60], n, show(e.st[n])[:60]))
    x = p.val(d.st['len'])
    say('G01', 'count:' + cls, eqn(p, x, e.st['len']), 'after a %s point the reader counts %s, the writer %s' % (cls, show(x)[:40], show(e.st['len'])[:40]))
    for key, x, y in (('value:' + cls, d.point[1], VAL), ('state:v:' + cls, d.st['v'], e.st['v'])):
        try: say('G02', key, eqv(p, p.val(x), y), 'the value of a %s point is read back as %s' % (cls, show(p.val(x))[:100]))
        except Bad as b: say('G02', key, False, '%s point: %s' % (cls, b))
        except Unk as b: cx.unk('G02', key, W, str(b))
    for n in ('leading', 'tailing'):
        x = p.val(d.st[n])
        say('G02', 'state:%s:%s' % (n, cls), eqn(p, x, e.st[n]), 'after a %s point the reader remembers %s %s zeros, the writer %s' % (cls, show(x)[:60], n, show(e.st[n])[:60]))

def pair(cx, W, e, ds):
    todo = [e.f]
    n = 0
    hit = 0
    while todo:
        f = todo.pop()
        n += 1
        if n > 40: cx.unk('G01 G02', 'read-back:' + e.cls, W, 'too many cases'); return
        found = []
        try:
            for d in ds:
                try: found += [(d, p) for p in plays(e, f, d)]
                except Bad as b: cx.chk(getattr(b, 'tags', 'G01 G02'), 'layout:' + e.cls, None if e.soft else False, W, '%s point: %s' % (e.cls, b)); hit += 1
                except Unk as b: cx.unk('G01 G02', 'layout:' + e.cls, W, str(b)); hit += 1
            for d, p in found:
                try: compare(cx, W, e, d, p)
                except Field as b: cx.chk(b.tags, 'layout:' + e.cls, None if e.soft or p.soft else False, W, '%s point: %s' % (e.cls, b))
                except Bad as b: cx.chk('G01 G02', 'layout:' + e.cls, None if e.soft or p.soft else False, W, '%s point: %s' % (e.cls, b))
                except Unk as b: cx.unk('G01 G02', 'layout:' + e.cls, W, str(b))
            hit += len(found)
            if found: cx.ok('G01 G02', 'layout:' + e.cls, W)
        except Split as s:
            lo, hi = f.rel(s.t, I(0))
            if hi - lo > 1 << (s.w + 3): cx.unk('G01 G02', 'layout:' + e.cls, W, 'range of %s' % show(s.t)); return
            k = int(lo) >> s.w
            while (k << s.w) <= hi:
                g = f.copy()
                if g.assume_rel(s.t, I(0), k << s.w, ((k + 1) << s.w) - 1) and window(g): todo.append(g)
                k += 1
    if not hit: cx.unk('G01 G02', 'read-back:' + e.cls, W, 'no reader path')

@rule('G01', 'G02')
def gorilla(cx):
    we, es = writer(cx)
    rd, ds = reader(cx)
    W = where(rd)
    if not es or not ds: cx.unk('G01 G02', 'paths', W, 'no paths'); return
    for e in es:
        if e.cls == 'any': cx.unk('G01 G02', 'paths', where(we), 'a path for points of several kinds')
        pair(cx, W, e, ds)
    # after the last point the reader stops
    nothing = Enc()
    nothing.f, nothing.items, nothing.st, nothing.soft, nothing.o, nothing.cls = Facts(), [], {}, False, None, 'end'
    invariants(nothing.f)
    for d in ds:
        q = Play(nothing, nothing.f.copy())
        ok = True
        for k, (pos, n, size, b, l) in enumerate(d.reads):
            if not q.holds(d.facts, k): ok = False; break
            q.m[l] = I(0)
            q.buf[b] = [0] * (8 * size)
        if not ok or not q.holds(d.facts, len(d.reads)): continue
        c = d.kind == 'ret' and d.point is None
        cx.chk('G01', 'end', True if c else None if q.soft else False, W, 'at the end of the stream the reader %s' % ('panics' if d.kind != 'ret' else 'returns a point'))
    # the window stays sensible
    for e in es:
        l, t = e.st['leading'], e.st['tailing']
        okw = e.f.rel(l, I(0))[0] >= 0 and e.f.rel(t, I(0))[0] >= 0 and e.f.rel(add(l, t), I(0))[1] <= 63
        cx.chk('G02', 'window', True if okw else None, where(we), 'the window becomes %s, %s' % (show(l)[:40], show(t)[:40]))
    # both sides start alike
    a, b = cx.good(cx.need('GorillaCompactor', 'new'), frozenset()), cx.good(cx.need('GorillaDecompactor', 'new'), frozenset())
    FA, FB = adt_fields(cx, 'GorillaCompactor'), adt_fields(cx, 'GorillaDecompactor')
    SI = adt_fields(cx, 'BstreamSeeker')
    for o in a.rets:
        cx.chk('G01', 'start:writer', True if fld(o.v, FA['len']) is I(0) else None if opaque(o.v) else False, where(a), 'a new compressor counts %s' % show(fld(o.v, FA['len']))[:40])
        for p in b.rets:
            cx.chk('G01', 'start:reader', True if fld(p.v, FB['idx']) is I(0) and fld(fld(p.v, FB['source']), SI['cursor']) is I(0) else None if opaque(p.v) else False, where(b), 'a new decompressor starts at point %s, bit %s' % (show(fld(p.v, FB['idx']))[:40], show(fld(fld(p.v, FB['source']), SI['cursor']))[:40]))
            cx.chk('G01', 'start:stream', same(fld(fld(p.v, FB['source']), SI['data']), b.args[0]), where(b), 'a new decompressor reads %s' % show(fld(p.v, FB['source']))[:60])
            x = [(fld(o.v, FA[n]), fld(p.v, FB[n])) for n in ('leading', 'tailing')]
            if all(y is z for y, z in x): cx.ok('G02', 'start:window', where(b))
            elif all(is_int(y) and is_int(z) for y, z in x):
                # harmful only if the writer may use its initial window
                use = False
                for e in es:
                    f = e.f.copy()
                    if any(i not in (0, 1) and (contains(i[2], S('leading')) or contains(i[2], S('tailing'))) for i in e.items) and f.assume_rel(S('leading'), x[0][0], 0, 0) and f.assume_rel(S('tailing'), x[1][0], 0, 0) and e.cls != 'second': use = use or not e.soft
                cx.chk('G02', 'start:window', False if use else None, where(b), 'writer and reader start with different windows')
            else: cx.unk('G02', 'start:window', where(b), 'initial windows')

@rule('G06')
def round_trip(cx):
    """everything the identity rests on, layer by layer"""
    import rules_compaction as rc
    n = len(cx.obs)
    for nm, f in (('stream', rc.append), ('stream', rc.write_bit), ('stream', rc.append_bytes), ('stream', rc.write_bits), ('stream', rc.stream_form), ('reader', rc.read_bits), ('codec', rc.codecs), ('codec', rc.gorilla_bytes), ('gorilla', gorilla)):
        k = len(cx.obs)
        try: f(cx)
        except Undecided as e: cx.unk('G06', f.__name__, '', str(e))
        except Unk as e: cx.unk('G06', f.__name__, '', str(e))
        for o in cx.obs[k:]:
            o.tags, o.key = ('G06',), nm + ':' + o.key
