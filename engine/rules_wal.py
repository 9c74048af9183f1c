"""Write-ahead log: entry layout, segment writes, flush policies, reported failures."""
from rulebase import *
from rules_chunk import adt_fields, with_, same3
from rules_common import fact_terms_of, facts_of, same_bytes
from rules_db import walk

def variants(cx, ty):
    for p, a in cx.db.adt.items():
        if p.split('::')[-1] == ty: return {v['name']: (n, {f[0]: k for k, f in enumerate(v['fields'])}) for n, v in enumerate(a['variants'])}
    raise Undecided('no type ' + ty)

def und(o): return any(opaque(t) for t in fact_terms_of(o.f.items()))
def load0(r, o, n=0):
    a = r.args[n]
    return r.interp.load(o.s, a) if a.op == 'mref' else a
def init(r, n=0):
    """value an argument had on entry"""
    return mk('sym', 'arg%d' % n)

def entry_bytes(E, e, alt=False):
    crc = mk('app', 'sum', fld(e, E['crc'])) if not alt else mk('app', 'sum', mk('app', 'digest', lit('crc32'), I(0), fld(e, E['content'])))
    c = fld(e, E['content'])
    return cat(mk('be', 8, fld(e, E['seq_id'])), mk('cat', one(fld(e, E['entry_type']))), mk('be', 2, wrap_(length(c), 'u16')), c, mk('be', 4, crc))
def wrap_(t, ty): return mk('wrap', t, 'u64', ty)

@rule('L01')
def entry_layout(cx):
    E = adt_fields(cx, 'Entry')
    i = cx.need('Entry', 'get_bytes')
    r = cx.good(i)
    W = where(r)
    e = init(r)
    want = [entry_bytes(E, e), entry_bytes(E, e, True)]
    for o in r.rets:
        if any(same_bytes(o.v, w) for w in want): cx.ok('L01', 'entry:bytes', W); continue
        # up to the order facts the path is taken under
        empty = with_(o, [(lt(I(0), length(fld(e, E['content']))), 1)]) is None
        if empty and any(same_bytes(o.v, subst(w, {fld(e, E['content']): EMPTY})) for w in want): cx.ok('L01', 'entry:bytes', W); continue
        cx.chk('L01', 'entry:bytes', None if opaque(o.v) or o.v.op != 'cat' or empty else False, W, 'an entry is serialised as %s' % show(o.v)[:200])
        i2 = 1
    for o in r.panics: cx.chk('L01', 'entry:bytes', None if und(o) else False, W, 'serialising panics')
    i = cx.need('Entry', 'len')
    r2 = cx.good(i)
    for o in r2.rets:
        cx.chk('L01', 'entry:len', True if o.v is length(want[0]) else None if opaque(o.v) or any(x.op in ('wrap', 'app') for x in subterms(o.v)) and not und(o) and o.v.op not in ('lin', 'int', 'wrap') else False, where(r2), 'the reported size is %s' % show(o.v)[:100])
    i = cx.need('Entry', 'push')
    r = cx.good(i)
    for o in r.rets:
        v = load0(r, o)
        e, x = init(r), init(r, 1)
        if x is not r.args[1] and r.args[1].op == 'mref': x = mk('sym', 'arg1')
        empty = with_(o, [(lt(I(0), length(x)), 1)]) is None
        c, g = fld(v, E['content']), fld(v, E['crc'])
        if empty and v is e: cx.ok('L01', 'entry:push', where(r)); cx.ok('L01', 'entry:push-checksum', where(r)); continue
        cx.chk('L01', 'entry:push', True if c is cat(fld(e, E['content']), x) else None if opaque(c) else False, where(r), 'after pushing the data is %s' % show(c)[:120])
        wantg = mk('app', 'digest+', fld(e, E['crc']), x)
        full = g.op == 'app' and g.a[0] == 'digest' and g.a[1] is lit('crc32') and g.a[2] is I(0) and g.a[3] is cat(fld(e, E['content']), x)
        cx.chk('L01', 'entry:push-checksum', True if g is wantg or full else None if opaque(g) else False, where(r), 'after pushing the checksum is that of %s' % show(g)[:120])
        for f in ('seq_id', 'entry_type'): cx.chk('L01', 'entry:push-keeps', same(fld(v, E[f]), fld(e, E[f])), where(r), 'pushing changes %s' % f)
    fresh = mk('app', 'digest', lit('crc32'), I(0), EMPTY)
    for m, tr in (('new', None), ('default', 'Default')):
        i = cx.find('Entry', m, tr)
        if i is None: continue
        r = cx.good(i)
        for o in r.rets:
            if o.v.op != 'adt': cx.unk('L01', 'entry:' + m, where(r), show(o.v)[:80]); continue
            cx.chk('L01', 'entry:%s:empty' % m, same(fld(o.v, E['content']), EMPTY), where(r), 'a new entry has data')
            cx.chk('L01', 'entry:%s:checksum' % m, same(fld(o.v, E['crc']), fresh), where(r), 'the checksum of a new entry is %s' % show(fld(o.v, E['crc']))[:80])
            if m == 'new':
                cx.chk('L01', 'entry:new:seq', same(fld(o.v, E['seq_id']), r.args[0]), where(r), 'the sequence number is %s' % show(fld(o.v, E['seq_id']))[:80])
                t = fld(o.v, E['entry_type'])
                cx.chk('L01', 'entry:new:type', True if contains(t, r.args[1]) else None if o.f.d.get(r.args[1]) is not None or opaque(t) else False if not is_int(t) else None, where(r), 'the type is %s' % show(t)[:80])
    i = cx.find('Entry', 'clone', 'Clone')
    if i is not None:
        r = cx.good(i)
        for o in r.rets:
            if o.v is r.args[0]: cx.ok('L01', 'entry:clone', where(r)); continue
            for f in E:
                x = fld(o.v, E[f])
                y = fld(r.args[0], E[f])
                c = same(x, y)
                if f == 'crc':
                    acc = [mk('app', 'digest', lit('crc32'), mk('app', 'sum', y), EMPTY), mk('app', 'digest', lit('crc32'), I(0), fld(r.args[0], E['content'])), y]
                    c = True if x in acc else None if opaque(x) else False
                cx.chk('L01', 'entry:clone', c, where(r), 'the %s of a copied entry is %s' % (f, show(x)[:80]))

# ---------------------------------------------------------------- segments
def seg(cx):
    F = adt_fields(cx, 'Segment')
    return F

WR = ('Write::write_all', 'Write::write', 'Write::flush', 'Write::write_vectored', 'Write::write_fmt')
def writes(o_ev):
    return [(e, lp) for e, lp in walk(o_ev) if e.kind in ('call', 'ext') and e.name in WR]

def segment_ops(cx):
    out = []
    for m, tr in (('new', None), ('write_entry', None), ('close', None), ('flush', 'Write'), ('write', 'Write')):
        i = cx.find('Segment', m, tr)
        if i is not None: out.append((m, i))
    return out

@rule('L03')
def reported(cx):
    ops = segment_ops(cx)
    if len(ops) < 4: cx.unk('L03', 'segment:operations', '', 'operations not found')
    for m, i in ops:
        r = cx.good(i)
        for o in r.rets:
            if o.rk != 'ok': continue
            for e, lp in writes(o.ev):
                f = o.f
                if lp:
                    f = f.copy()
                    for L, d in lp:
                        if f is not None: f = facts_of(d, f)
                    if f is None: continue
                k = f.d.get(e.res)
                # the result itself is what the operation returns
                if k is None and o.v is e.res: k = 0
                cx.chk('L03', '%s:%s-failure' % (m, e.name.split('::')[-1]), True if k == 0 else None if und(o) and k is None and any(opaque(t) for t in fact_terms_of(o.f.items()) if contains(t, e.res)) else False, where(r, e), '%s reports success although %s %s' % (m, e.name, 'failed' if k == 1 else 'may have failed'))
                if e.name == 'Write::write' and k == 0:
                    n = vf(e.res, 0, 0)
                    if m == 'write':
                        cx.chk('L03', 'write:accepted', True if o.p is n else None if opaque(o.p) else False, where(r, e), 'write reports %s bytes accepted although the writer took %s' % (show(o.p)[:80], show(n)[:60])); continue
                    g = f.copy()
                    short = g.assume(lt(n, length(e.args[1])), 1)
                    cx.chk('L03', '%s:short-write' % m, True if not short else None if retried(o, e, n) else False, where(r, e), '%s reports success although the writer may have taken only a part of the bytes' % m)
            if not writes(o.ev): cx.ok('L03', '%s:nothing-written' % m, where(r))

def retried(o, e, n):
    """what is written depends on how much was taken before"""
    for x, lp in walk(o.ev):
        if x.kind in ('call', 'ext') and x.name in WR and len(x.args) > 1:
            if mentions(x.args[1], lambda t: t is n or t.op == 'hdr') or opaque(x.args[1]): return True
    return False

def cache_shape(cx):
    V = variants(cx, 'FlushCache')
    for k in ('None', 'NumBased', 'SizeBased', 'TimeBased'):
        if k not in V: raise Undecided('no flush policy ' + k)
    return V

def written(cx, r, o, upto=None):
    """what is handed to the segment's write path: [('each', src, bytes) | ('one', bytes) | ('flush',) | ('raw', target, bytes) | None]"""
    out = []
    w = fld(init(r), seg(cx)['writer'])
    for e in o.ev:
        if e.kind == 'loop':
            L = e.x
            inner = [(x, lp) for d, es, vals in L.paths for x, lp in walk(es) if x.kind in ('call', 'ext') and x.name in WR]
            if not inner: continue
            bs = set()
            for d, es, vals in L.paths:
                xs = [x for x, lp in walk(es) if x.kind in ('call', 'ext') and x.name in WR]
                if len(xs) != 1 or xs[0].name != 'Write::write_all': bs.add(None if xs else 'skip'); continue
                bs.add(('raw' if xs[0].args[0] is w else 'seg', xs[0].args[1]))
            ps = parts(L.src) if L.src.op == 'cat' else (L.src,)
            if len(ps) > 1 and None not in bs and 'skip' not in bs and not L.partial and len({k for k, b in bs}) == 1:
                # one kind of iteration per group of the source
                (k,) = {k for k, b in bs}
                tags = [p.a[0] if p.op == 'one' else el(p) for p in ps]
                per = [[b for k_, b in bs if mentions(b, lambda t: t is g)] for g in tags]
                if all(len(x) == 1 for x in per) and len(bs) == len(set(x[0] for x in per)) == len(ps):
                    for p, (b,) in zip(ps, per): out.append((('one', b, None) if p.op == 'one' else ('each', p, b, False)) if k == 'seg' else ('rawloop', p, b, False))
                    continue
            if len(bs) == 1 and None not in bs and 'skip' not in bs:
                (k, b), = bs
                out.append(('each' if k == 'seg' else 'rawloop', L.src, b, L.partial))
            elif 'skip' in bs and len(bs) == 2 and None not in bs: out.append(('some', L.src))
            else: out.append(None)
        elif e.kind in ('call', 'ext') and e.name in WR:
            if e.name == 'Write::write_all': out.append(('raw', e.args[1]) if e.args[0] is w else ('one', e.args[1], e))
            elif e.name == 'Write::flush': out.append(('flush',))
            else: out.append(None)
    return out

def spread(items):
    """a buffer written at once, as the groups it was put together from"""
    out = []
    for x in items:
        if x is None or x[0] != 'one': out.append(x); continue
        b = x[1]
        if b is EMPTY: continue
        rest = []
        for p in parts(b) if b.op == 'cat' else (b,):
            if p.op != 'comp': rest.append(p); continue
            if rest: out.append(('one', mk('cat', *rest))); rest = []
            if len(p.a[1]) != 1 or p.a[1][0][0]: out.append(None); continue
            ps = p.a[1][0][1]
            out.append(('each', p.a[0], cat(*[mk('cat', q) if q.op in ('one', 'lit') else q for q in ps]), False))
        if rest: out.append(x if len(rest) == len(parts(b)) else ('one', cat(*[mk('cat', q) if q.op in ('one', 'lit') else q for q in rest])))
    return out

@rule('L02')
def segment_write(cx):
    F = seg(cx)
    i = cx.find('Segment', 'write', 'Write')
    if i is None: raise Undecided('no write')
    r = cx.good(i)
    W = where(r)
    s0, b = init(r), r.args[1]
    for o in r.rets:
        if o.rk != 'ok': continue
        ws = writes(o.ev)
        if len(ws) != 1 or ws[0][1] or ws[0][0].name != 'Write::write':
            full = len(ws) == 1 and ws[0][0].name == 'Write::write_all' and ws[0][0].args[1] is b
            cx.chk('L02', 'write:passes-on', True if full else None if ws else False if not und(o) and with_(o, [(lt(I(0), length(b)), 1)]) else None, W, 'bytes are not passed on to the writer')
            if not full: continue
            n = length(b)
        else:
            e = ws[0][0]
            cx.chk('L02', 'write:passes-on', same3(e.args[:2], (fld(s0, F['writer']), b)), where(r, e), 'passed on is %s' % show(e.args[1])[:80])
            n = vf(e.res, 0, 0)
        v = load0(r, o)
        g = fld(v, F['crc'])
        want = digest_plus(fld(s0, F['crc']), slice_(b, I(0), n) if n is not length(b) else b)
        cx.chk('L02', 'write:checksum', True if g is want else None if opaque(g) else False, W, 'the checksum of the segment continues with %s' % show(g)[:120])
        cx.chk('L02', 'write:count', same(o.p, n), W, 'reported is %s' % show(o.p)[:80])
def digest_plus(c, x): return mk('app', 'digest+', c, x)

def empty_on(o, t): return with_(o, [(lt(I(0), length(t)), 1)]) is None

def check_drain(cx, r, o, tag, key, items, pend, E, W, then=()):
    """items written on this path are the pending entries in order, then `then`"""
    want = [p for p in pend]
    items = spread(items)
    got = [x for x in items if x is None or x[0] != 'flush']
    if any(x is None for x in got): cx.unk(tag, key, W, 'writes of unknown shape'); return None
    if any(x[0] in ('raw', 'rawloop') for x in got): cx.chk(tag, key + ':checksummed', False, W, 'bytes go to the writer without entering the checksum of the segment'); return None
    if any(x[0] == 'some' for x in got): cx.chk(tag, key, None if und(o) else False, W, 'some cached entries are not written'); return None
    seq = []
    for x in got:
        if x[0] == 'each':
            if x[3]: cx.chk(tag, key, False, W, 'writing the cached entries stops early'); return None
            seq.append(('each', x[1], x[2]))
        else: seq.append(('one', x[1]))
    exp = []
    for k, t in want:
        if k == 'each':
            if empty_on(o, t): continue
            exp.append(('each', t, None))
        else: exp.append(('one', t))
    def bytes_ok(b, e): return any(same_bytes(b, w) for w in (entry_bytes(E, e), entry_bytes(E, e, True)))
    if len(seq) == len(exp) and all(a[0] == b[0] for a, b in zip(seq, exp)):
        res = True
        for a, b in zip(seq, exp):
            if a[0] == 'each': c = (a[1] is b[1] or None if not opaque_src(a[1], b[1]) else None) if a[1] is not b[1] else True
            else: c = True
            if a[0] == 'each':
                if a[1] is not b[1]:
                    c = False if not opaque_src(a[1], b[1]) else None
                elif not bytes_ok(a[2], el(a[1])): c = False if not opaque(a[2]) else None
            elif not bytes_ok(a[1], b[1]): c = False if not opaque(a[1]) else None
            if c is False: cx.chk(tag, key, False, W, 'written is %s instead of the entries that are due' % show(a[-1])[:120]); return False
            if c is None: res = None
        cx.chk(tag, key, res, W, 'sequence')
        return res
    c = None if und(o) or any(opaque(x[1]) for x in seq) else False
    cx.chk(tag, key, c, W, 'written are %d groups where %d are due (%s)' % (len(seq), len(exp), facts_str(o.f)[:160]))
    return c
def opaque_src(a, b):
    """different sources that may still hold the same entries"""
    if a.op in ('rev', 'slice', 'prefix', 'sorted') and contains(a, b): return False
    return True

@rule('L02')
def policies(cx):
    F, E, V = seg(cx), adt_fields(cx, 'Entry'), cache_shape(cx)
    i = cx.need('Segment', 'write_entry')
    r = cx.good(i)
    W = where(r)
    s0, e = init(r), r.args[1]
    c0 = fld(s0, F['cache'])
    elen = length(entry_bytes(E, e))
    clen = length(fld(e, E['content']))
    seen = set()
    for o in r.rets:
        if o.rk != 'ok':
            if not any(e_.kind in ('call', 'ext', 'loop', 'lock', 'unlock') for e_ in o.ev) and not und(o):
                cx.chk('L02', 'write_entry:refused', with_(o, [(lt(I(65535), clen), 0)]) is None, W, 'an entry that fits its length field is refused when %s' % facts_str(o.f)[:160])
            continue
        k = o.f.d.get(c0)
        pol = [n for n, (x, fs) in V.items() if x == k]
        if not pol:
            # whatever the policy is
            if not any(e_.kind in ('call', 'ext', 'loop', 'lock', 'unlock') for e_ in o.ev) and load0(r, o) is s0 and not und(o): cx.bad('L02', 'write_entry:accepted', W, 'an entry is accepted that is neither written nor cached (%s)' % facts_str(o.f)[:120])
            else: cx.unk('L02', 'write_entry:policy', W, 'policy not known')
            continue
        pol = pol[0]; vi, fs = V[pol]; seen.add(pol)
        cx.chk('L01 L02', 'write_entry:length-fits', True if with_(o, [(lt(I(65535), clen), 1)]) is None else None if und(o) else False, W, 'an entry longer than its length field is accepted')
        items = written(cx, r, o)
        v = load0(r, o)
        c1 = fld(v, F['cache'])
        if pol == 'None':
            if check_drain(cx, r, o, 'L02', 'write_entry:immediate', items, [('one', e)], E, W):
                fl = [n for n, x in enumerate(items) if x and x[0] == 'flush']
                cx.chk('L02', 'write_entry:immediate:flushed', bool(fl) and fl[-1] == len(items) - 1, W, 'an entry is not flushed under the immediate policy')
            continue
        if pol == 'TimeBased':
            lk = vf(c0, vi, fs['cache'])
            loc = mk('loc', 'lock', lk)
            x = o.s.heap.get(loc)
            cont = [g for g in o.ev if g.kind == 'unlock' and g.args and g.args[0] is lk]
            if cont and cont[-1].x is not None: x = cont[-1].x
            base = mk('content', lk, 0)
            if not any(e_.kind != 'assert' for e_ in o.ev) and v is s0 and not und(o): cx.bad('L02', 'write_entry:time', W, 'an entry is accepted that is neither written nor kept'); continue
            if items: check_drain(cx, r, o, 'L02', 'write_entry:time', items, [('each', base), ('one', e)], E, W); continue
            cx.chk('L02', 'write_entry:time', True if x is cat(base, mk('cat', one(e))) else None if x is None or opaque(x) else False, W, 'the cached entries become %s' % (show(x)[:120] if x is not None else '?')); continue
        old = vf(c0, vi, fs['cache'])
        lim = vf(c0, vi, fs['limit'])
        cnt = 'idx' if pol == 'NumBased' else 'size'
        n0 = vf(c0, vi, fs[cnt]) if cnt in fs else None
        unit = I(1) if pol == 'NumBased' else elen
        key = 'write_entry:' + ('count' if pol == 'NumBased' else 'size')
        new = vf(c1, vi, fs['cache']) if c1.op != 'adt' else c1.a[4 + fs['cache']]
        n1 = (vf(c1, vi, fs[cnt]) if c1.op != 'adt' else c1.a[4 + fs[cnt]]) if cnt in fs else None
        if not items:
            cx.chk('L02', key + ':kept', True if new is cat(old, mk('cat', one(e))) else None if opaque(new) else False, W, 'the cached entries become %s' % show(new)[:120])
            reached = []
            if n0 is not None: reached.append(add(n0, unit))
            if pol == 'NumBased': reached.append(add(length(old), I(1)))
            elif n0 is not None: pass
            ok_ = any(with_(o, [(lt(x, lim), 0)]) is None for x in reached)
            cx.chk('L02', key + ':limit', True if ok_ else None if und(o) else False, W, 'entries are kept although the limit is reached')
            if n0 is not None and pol == 'SizeBased' or n0 is not None and any(contains(t, n0) for t in fact_terms_of(o.f.items())) or n0 is not None and any(n0 in dict(kk) for kk in o.f.z):
                cx.chk('L02', key + ':counted', True if n1 is add(n0, unit) else None if opaque(n1) else False, W, 'the count becomes %s' % show(n1)[:100])
        else:
            if check_drain(cx, r, o, 'L02', key + ':flush', items, [('each', old), ('one', e)], E, W) is not None:
                cx.chk('L02', key + ':emptied', True if new is EMPTY else None if opaque(new) else False, W, 'entries already written stay in the cache: %s' % show(new)[:120])
                if n1 is not None: cx.chk('L02', key + ':recounted', True if n1 is I(0) else None if opaque(n1) else False, W, 'after a flush the count is %s' % show(n1)[:80])
                fl = [n for n, x in enumerate(items) if x and x[0] == 'flush']
                cx.chk('L02', key + ':flushed', bool(fl) and fl[-1] == len(items) - 1, W, 'the writer is not flushed')
            if pol == 'NumBased' and n0 is not None:
                early = with_(o, [(lt(add(n0, I(1)), lim), 1), (lt(add(length(old), I(1)), lim), 1)])
                cx.chk('L02', key + ':not-early', True if early is None else None if und(o) else False, W, 'entries are flushed before the limit is reached')
    for p in V: cx.chk('L02', 'write_entry:possible', True if p in seen else None, W, 'no path for policy ' + p)
    # flush and close
    for m, tr in (('flush', 'Write'), ('close', None)):
        i = cx.need('Segment', m, tr)
        r = cx.good(i)
        W = where(r)
        seen = set()
        todo = []
        for o in r.rets:
            # flush may return the result of flushing the writer itself
            if o.rk != 'ok': continue
            k = o.f.d.get(c0)
            pol = [n for n, (x, fs) in V.items() if x == k or k is None and x not in o.f.dn.get(c0, ())]
            for n in pol: todo.append((o, n))
        for o, pol in todo:
            vi, fs = V[pol]; seen.add(pol)
            items = written(cx, r, o)
            pend = []
            if pol == 'TimeBased': pend = [('each', mk('content', vf(c0, vi, fs['cache']), 0))]
            elif pol != 'None': pend = [('each', vf(c0, vi, fs['cache']))]
            tail = None
            if m == 'close':
                items = [x for x in items if x is None or x[0] != 'raw' or x[1] is not EMPTY]
                items = spread(items)
                ones = [x for x in items if x is not None and x[0] in ('one', 'raw')]
                if not ones:
                    cx.chk('L02', 'close:checksum', None if any(x is None for x in items) else False, W, 'closing does not append the checksum'); continue
                tail = ones[-1]
                pos = max(n for n, x in enumerate(items) if x is tail)
                after = [x for x in items[pos + 1:] if x is None or x[0] != 'flush']
                # (nothing can be cached any more after the first flush)
                rest = [x for x in after if not (x and x[0] == 'each' and pol == 'TimeBased')]
                cx.chk('L02', 'close:checksum-last', True if not rest else None if any(x is None for x in rest) else False, W, 'something is written after the checksum')
                if tail[0] == 'raw' and after: cx.unk('L02', 'close:checksum', W, 'written past the checksum state'); continue
                se = tail[2].args[0] if tail[0] == 'one' and len(tail) > 2 else load0(r, o)
                cur = fld(se, F['crc'])
                want = mk('be', 8, mk('app', 'sum', cur))
                cx.chk('L02', 'close:checksum', True if tail[1] is want else (False if tail[1].op in ('be', 'cat', 'le') and not opaque(tail[1]) else None), W, 'closing appends %s where the checksum of everything written is %s' % (show(tail[1])[:100], show(want)[:100]))
                fl = [n for n, x in enumerate(items) if x and x[0] == 'flush']
                cx.chk('L02', 'close:flushed', bool(fl) and fl[-1] > pos, W, 'the checksum is not flushed')
                items = items[:pos]
            if check_drain(cx, r, o, 'L02', m + ':drains', items, pend, E, W) is None: continue
            if m == 'flush':
                fl = [n for n, x in enumerate(items) if x and x[0] == 'flush']
                cx.chk('L02', 'flush:flushed', bool(fl) and fl[-1] == len(items) - 1, W, 'the writer is not flushed after the cached entries')
                v = load0(r, o)
                c1 = fld(v, F['cache'])
                if pol in ('NumBased', 'SizeBased'):
                    new = vf(c1, vi, fs['cache']) if c1.op != 'adt' else c1.a[4 + fs['cache']]
                    if not (new is vf(c0, vi, fs['cache']) and empty_on(o, new)):
                        cx.chk('L02', 'flush:emptied', True if new is EMPTY else None if opaque(new) else False, W, 'after a flush the cache holds %s' % show(new)[:100])
                    cnt = 'idx' if pol == 'NumBased' else 'size'
                    if cnt in fs and not empty_on(o, vf(c0, vi, fs['cache'])):
                        n1 = vf(c1, vi, fs[cnt]) if c1.op != 'adt' else c1.a[4 + fs[cnt]]
                        cx.chk('L02', 'flush:recounted', True if n1 is I(0) else None if opaque(n1) else False, W, 'after a flush the count is %s' % show(n1)[:80])
                if pol == 'TimeBased':
                    lk = vf(c0, vi, fs['cache'])
                    un = [g for g in o.ev if g.kind == 'unlock' and g.args and g.args[0] is lk]
                    base = mk('content', lk, 0)
                    rounds = [g for g in o.ev if g.kind in ('lock', 'unlock') and g.args and g.args[0] is lk]
                    if not rounds: cx.unk('L02', 'flush:emptied', W, 'the cache is not locked'); continue
                    x = base
                    for n, g in enumerate([g for g in rounds if g.kind == 'unlock']):
                        if g.x is None: continue
                        c = mk('content', lk, n)
                        if g.x is EMPTY and n > 0 and not any(y and len(y) > 1 and isinstance(y[1], T) and contains(y[1], c) for y in items) and not empty_on(o, c):
                            cx.chk('L02', 'flush:between', None if any(y is None for y in items) else False, W, 'entries cached by another thread between reading the cache and emptying it are discarded')
                        x = g.x
                    if not empty_on(o, base): cx.chk('L02', 'flush:emptied', True if x is EMPTY else None if opaque(x) else False, W, 'after a flush the cache holds %s' % show(x)[:100])
        for p in V: cx.chk('L02', m + ':possible', True if p in seen else None, W, 'no path for policy ' + p)

@rule('L02')
def segment_new(cx):
    F, V = seg(cx), cache_shape(cx)
    P = variants(cx, 'FlushPolicy')
    i = cx.need('Segment', 'new')
    r = cx.good(i)
    W = where(r)
    pol, wr = [a for n, a in enumerate(r.args)][:2]
    for o in r.rets:
        if o.rk != 'ok': continue
        k = o.f.d.get(pol)
        names = [n for n, (x, fs) in P.items() if x == k]
        if not names or o.p.op != 'adt': cx.unk('L02', 'new:policy', W, 'policy not known'); continue
        n = names[0]
        c = fld(o.p, F['cache'])
        want = 'None' if n == 'Immediate' else n
        cx.chk('L02', 'new:policy', True if c.op == 'adt' and c.a[1] == want else False if c.op == 'adt' else None, W, 'the %s policy becomes %s' % (n, c.a[1] if c.op == 'adt' else '?'))
        cx.chk('L02', 'new:checksum', same(fld(o.p, F['crc']), mk('app', 'digest', lit('crc64'), I(0), EMPTY)), W, 'the checksum of a new segment starts as %s' % show(fld(o.p, F['crc']))[:80])
        if c.op != 'adt' or c.a[1] != want or want not in V: continue
        vi, fs = V[want]
        if 'limit' in fs: cx.chk('L02', 'new:limit', same(c.a[4 + fs['limit']], vf(pol, k, 0)), W, 'the limit is %s' % show(c.a[4 + fs['limit']])[:80])
        for f in ('idx', 'size'):
            if f in fs: cx.chk('L02', 'new:count', same(c.a[4 + fs[f]], I(0)), W, 'the count starts at %s' % show(c.a[4 + fs[f]])[:60])
        if 'cache' in fs:
            x = c.a[4 + fs['cache']]
            if x.op == 'app' and x.a[0] in ('Mutex', 'RwLock'): x = x.a[1]
            cx.chk('L02', 'new:empty', same(x, EMPTY), W, 'the cache starts as %s' % show(x)[:60])
        ws = [e for e, lp in writes(o.ev) if e.name == 'Write::write_all']
        def magic(b):
            es = concrete_elems(b)
            return None if es is None or not all(is_int(x) for x in es) else len(es) == 8 and [x.a[0] for x in es[:3]] == list(b'WAL')
        cx.chk('L02', 'new:magic', magic(ws[0].args[1]) if len(ws) == 1 and not any(e.name != 'Write::write_all' and e.name != 'Write::flush' for e, lp in writes(o.ev)) else None if ws else False, W, 'a new segment starts with %s' % ', '.join(show(e.args[1])[:60] for e in ws))
