"""MonolithDb: query, write, new/swap, metadata, reopening, rotation atomicity."""
from rulebase import *
from rules_chunk import failing, variant, tp_fields, with_, same3, FALL, FALLIBLE, IO, window, adt_fields, held_guard
from rules_storage import opaque_facts

QCUT = frozenset(('Chunk.insert', 'Chunk.query', 'Chunk.close', 'Chunk.new'))
NCUT = frozenset(('MonolithDb.read_or_create_metadata', 'MonolithDb.read_existing_chunk', 'Chunk.new', 'Chunk.close', 'Chunk.insert', 'Chunk.query', 'ChunkOpts.write_config_to_dir', '.get_current_timestamp'))

def walk(evs_, loops=()):
    """(event, chain of enclosing (loop, path facts)) for every event, loop iterations included"""
    for e in evs_:
        if e.kind == 'loop':
            yield e, loops
            for d, es, vals in e.x.paths:
                for x in walk(es, loops + ((e.x, d),)): yield x
        else: yield e, loops

def db_locks(cx):
    """lock terms of the current and the older chunks, as seen in query"""
    F = adt_fields(cx, 'MonolithDb')
    self_ = mk('sym', 'arg0')
    cur = sec = None
    for n, i in F.items():
        if n.startswith('cur'): cur = fld(self_, i)
        if n.startswith('sec'): sec = fld(self_, i)
    if cur is None or sec is None:
        # by type
        for p, a in cx.db.adt.items():
            if p.split('::')[-1] == 'MonolithDb':
                for k, (n, t) in enumerate(a['variants'][0]['fields']):
                    s = cx.db.tys[t]['s'] if isinstance(t, int) else str(t)
                    if 'RwLock' in s or 'Mutex' in s:
                        if 'Vec<' in s: sec = fld(self_, k)
                        else: cur = fld(self_, k)
    if cur is None or sec is None: raise Undecided('fields of MonolithDb')
    return cur, sec

def content_of(t, lock):
    return t.op == 'content' and t.a[0] is lock

def chunk_window(cx, c):
    A, B = window(cx)
    m = {mk('sym', 'arg0'): c}
    return subst(A, m), subst(B, m)

# ------------------------------------------------------------------ query
class Unknown(Exception): pass

def filtered(x, sec):
    """a selection of the older chunks: every element is kept as it is or left out"""
    if x.op != 'comp' or not mentions(x.a[0], lambda t: content_of(t, sec)): return False
    return all(pp is EMPTY or not pp or (len(pp) == 1 and pp[0].op == 'one' and pp[0].a[0] is el(x.a[0])) for d, pp in x.a[1])

def src_kind(src, cur, sec):
    """-> ('cur', Q) | ('old', dir) for a loop source"""
    d = 1
    x = src
    while x.op == 'rev' or filtered(x, sec):
        if x.op == 'rev': d = -d
        x = x.a[0]
    if content_of(x, sec): return ('old', d, x)
    if x.op == 'vf' and x.a[1:] == (0, 0) and x.a[0].op == 'res' and x.a[0].a[0] == 'Chunk::query':
        c = x.a[0].a[1][0]
        if content_of(c, cur): return ('q', 'cur', x, d)
        if c.op == 'el' and content_of(c.a[0], sec): return ('q', 'old', x, d)
    return None

class QErr(Exception): pass

def chain_of(src, cur, sec):
    """parts of a chained source over chunks: [('old', dir, seq) | ('cur', chunk)] or None"""
    d, x = 1, src
    while x.op == 'rev': d, x = -d, x.a[0]
    out = []
    for p in parts(x):
        if p.op == 'one' and content_of(p.a[0], cur): out.append(('cur', p.a[0])); continue
        k = src_kind(p, cur, sec)
        if k is None or k[0] != 'old': return None
        out.append(('old', k[1] * d, k[2]))
    if len(out) < 2 or len([x for x in out if x[0] == 'cur']) > 1: return None
    return out[::d]

def chain_elem(p): return p[1] if p[0] == 'cur' else el(p[2])

def chain_path(ch, d, es, v=None):
    """index of the part of the chain an iteration path works on; None when it names several or none"""
    ts = list(fact_terms(d)) + [a for e in flat(es) for a in e.args if isinstance(a, T)] + ([v] if v is not None else [])
    hit = [n for n, p in enumerate(ch) if any(contains(t, chain_elem(p)) for t in ts)]
    return hit[0] if len(hit) == 1 else None

def fact_terms(d):
    for k, t, v in d:
        for x in ([t] if isinstance(t, T) else [y for y, _ in t]): yield x

def strip_rev(t):
    while t.op == 'rev': t = t.a[0]
    return t

def pieces(v, hole, key, S, TS):
    """value stored for a label: list of 'prev' | ('pts', dir) | ('sorted', [...])"""
    out = []
    for p in parts(v):
        if p.op == 'mget' and p.a[0] is hole and p.a[1] is key: out.append('prev')
        elif p is fld(S, TS['time_points']): out.append(('pts', 1))
        elif p.op == 'rev' and p.a[0] is fld(S, TS['time_points']): out.append(('pts', -1))
        elif p.op == 'slice' and not opaque(p) and (is_int(p.a[1]) and p.a[1].a[0] > 0) and strip_rev(p.a[0]) is fld(S, TS['time_points']): raise QErr('the first points of a series are left out while merging (%s)' % show(p)[:80])
        elif p.op == 'rev' and p.a[0].op == 'slice' and not opaque(p) and is_int(p.a[0].a[1]) and p.a[0].a[1].a[0] > 0 and p.a[0].a[0] is fld(S, TS['time_points']): raise QErr('the first points of a series are left out while merging (%s)' % show(p)[:80])
        elif p.op == 'one' or p.op == 'lit': raise Unknown('piece ' + show(p)[:80])
        else: raise Unknown('piece ' + show(p)[:80])
    return out

HOLE = mk('hole')

def seqs(cx, m, cur, sec, TS):
    """map term -> list of segments of one label's point list: ('cur', dir) / ('old', chunk dir, dir)"""
    if m.op == 'map0': return []
    if m is HOLE: return ['prev']
    if m.op != 'fold': raise Unknown('map ' + m.op)
    src, body, init = m.a
    base = seqs(cx, init, cur, sec, TS)
    k = src_kind(src, cur, sec)
    ch = chain_of(src, cur, sec) if k is None else None
    if ch is not None:
        for n, part in enumerate(ch):
            r = None
            for d, v in body:
                if v is HOLE: continue
                i = chain_path(ch, d, [], v)
                if i is None: raise Unknown('element of a chained scan')
                if i != n: continue
                s = seqs(cx, v, cur, sec, TS)
                if s.count('prev') != 1:
                    if 'prev' not in s: raise QErr('points of the other chunks are discarded')
                    raise Unknown('prev')
                rest = [x for x in s if x != 'prev']
                if not rest: continue
                if len(rest) != 1 or rest[0][0] != part[0]: raise Unknown('inner merge')
                c = (rest[0][1], 1 if s.index('prev') == 0 else -1)
                if r is not None and r != c: raise Unknown('two merge forms')
                r = c
            if r is None: raise QErr('the points of %s are not merged' % ('the current chunk' if part[0] == 'cur' else 'the older chunks'))
            seg = ('cur', r[0]) if part[0] == 'cur' else ('old', part[1] * r[1], r[0])
            base = base + [seg] if r[1] == 1 else [seg] + base
        return base
    if k is None:
        x = src
        while x.op in ('rev', 'slice', 'prefix', 'sorted', 'comp'):
            if x.op in ('prefix', 'slice'): raise QErr('only a part of the chunks or of their series is merged (%s)' % show(src)[:120])
            x = x.a[0]
        raise Unknown('merged from ' + show(src)[:120])
    if k[0] == 'q':
        S = el(k[2])
        key = fld(S, TS['meta_data'])
        t = None
        for d, v in body:
            if v is HOLE:
                if d and all(kk == 'b' and tt.op == 'haskey' and tt.a[0] is HOLE and tt.a[1] is key and vv == 1 for kk, tt, vv in d): raise QErr('a series that is already collected keeps only the points of one chunk')
                raise QErr('a series of a chunk is dropped while merging') if not opaque_but_hole(d) else Unknown('condition on merging')
            if v.op != 'mset' or v.a[0] is not HOLE: raise Unknown('merge ' + show(v)[:100])
            if v.a[1] is not key:
                if opaque(v.a[1]): raise Unknown('key')
                raise QErr('points are merged under %s' % show(v.a[1])[:100])
            ps = pieces(v.a[2], HOLE, key, S, TS)
            has = None
            for kk, tt, vv in d:
                if kk == 'b' and isinstance(tt, T) and tt.op == 'haskey' and tt.a[1] is key: has = vv
            if has == 0 and 'prev' in ps: raise Unknown('previous value of an absent key')
            if has is None and k[1] == 'cur' and 'prev' not in ps: has = 0      # series of one chunk are distinct
            if has is None and not base and 'prev' not in ps: has = 0
            if has != 0 and 'prev' not in ps: raise QErr('points already collected for the same labels are overwritten')
            if not [p for p in ps if p != 'prev']: raise QErr('the points of a series are not merged')
            if len([p for p in ps if p != 'prev']) > 1: raise QErr('the points of a series are merged more than once')
            nt = [p for p in ps if p != 'prev'][0]
            pos = 1 if 'prev' not in ps else (1 if ps.index('prev') < ps.index(nt) else -1)
            if has == 0: pos = None
            cand = (nt[1], pos)
            if t is None: t = cand
            else:
                if t[0] != cand[0]: raise QErr('the points of a series are merged in two different directions')
                if t[1] is None: t = cand
                elif cand[1] is not None and cand[1] != t[1]: raise QErr('the points of a series are put both before and after the ones of other chunks')
        if t is None: raise Unknown('no merge case')
        seg = (k[1], t[0])
        if base and t[1] is None: raise QErr('points already collected for the same labels are overwritten')
        return base + [seg] if t[1] != -1 else [seg] + base
    # fold over the older chunks
    r = None
    for d, v in body:
        if v is HOLE: continue
        s = seqs(cx, v, cur, sec, TS)
        if s.count('prev') != 1:
            if 'prev' not in s: raise QErr('points of the other chunks are discarded')
            raise Unknown('prev')
        rest = [x for x in s if x != 'prev']
        if not rest: continue
        if len(rest) != 1 or rest[0][0] != 'old': raise Unknown('inner merge')
        c = (rest[0][1], 1 if s.index('prev') == 0 else -1)
        if r is not None and r != c: raise Unknown('two merge forms')
        r = c
    if r is None: raise QErr('no older chunk is merged')
    seg = ('old', k[1] * r[1], r[0])
    return base + [seg] if r[1] == 1 else [seg] + base

def opaque_but_hole(d):
    for k, t, v in d:
        for x in ([t] if isinstance(t, T) else [y for y, _ in t]):
            if opaque(x): return True
    return False

def flip(s):
    return [(x[0],) + ((-x[1], -x[2]) if x[0] == 'old' else (-x[1],)) for x in reversed(s)]

def query_value(cx, v, cur, sec, TS, ti):
    """the returned list -> (segments or 'sorted', ...)"""
    for _ in range(4):
        ps = parts(v)
        if len(ps) == 1 and ps[0].op in ('rev', 'sorted', 'sortby'): v = ps[0].a[0]; continue
        break
    ps = parts(v)
    if len(ps) != 1: raise Unknown('result ' + show(v)[:100])
    c = ps[0]
    if c.op == 'entries':
        m = c.a[0]
        K, V = fld(el(c), 0), fld(el(c), 1)
        pair = (K, V)
    elif c.op == 'comp':
        src, cases = c.a
        if src.op in ('prefix', 'slice'): raise QErr('only a part of the collected series is returned')
        while src.op == 'rev': src = src.a[0]
        if src.op != 'entries': raise Unknown('result from ' + show(src)[:100])
        m = src.a[0]
        K, V = fld(el(src), 0), fld(el(src), 1)
        pair = None
        for d, pp in cases:
            if not pp:
                f = Facts()
                if not apply_facts(f, d): continue
                if opaque_facts(d): 
                    # a condition on the collected points themselves
                    raise Unknown('a filter on the collected series')
                raise QErr('a collected series is left out of the result')
            if len(pp) != 1 or pp[0].op != 'one': raise Unknown('result element')
            if pp[0].a[0].op == 'adt' and len(pp[0].a[0].a) == 6: p = tuple(pp[0].a[0].a[4:])
            elif pp[0].a[0].op == 'tup': p = tuple(pp[0].a[0].a)
            else: raise Unknown('result element ' + show(pp[0])[:100])
            if pair is not None and pair != p: raise Unknown('two result forms')
            pair = p
        if pair is None: raise Unknown('no result element')
    else: raise Unknown('result ' + c.op)
    segs = seqs(cx, m, cur, sec, TS)
    if pair[0] is not K:
        if opaque(pair[0]) and not (pair[0].op in ('fld',) ): raise Unknown('returned labels')
        raise QErr('series are returned under other labels than they were collected')
    x, d, srt = pair[1], 1, None
    while x is not V:
        if x.op == 'rev':
            d = -d
            x = x.a[0]
        elif x.op in ('sorted', 'sortby'):
            k = x.a[1]
            if srt is None: srt = (k, d)
            x = x.a[0]
        elif x.op == 'comp' and len(x.a[1]) == 1 and not x.a[1][0][0] and x.a[1][0][1] == (one(el(x.a[0])),): x = x.a[0]
        elif x.op in ('prefix', 'slice'): raise QErr('only a part of the collected points is returned')
        else: raise Unknown('returned points ' + show(x)[:80])
    if srt is not None:
        k, dd = srt
        good = k is fld(mk('sym', 'sa'), ti)
        if not good: raise Unknown('sorted by ' + str(k))
        return ('sorted', segs, dd)
    return ('seq', flip(segs) if d == -1 else segs)

@rule('R05 R06 K03')
def db_query(cx):
    i = cx.need('MonolithDb', 'query')
    r = cx.good(i, QCUT)
    cur, sec = db_locks(cx)
    self_, labels, qs, qe = r.args[:4]
    TS = dict(adt_fields(cx, 'TimeSeries'))
    if 'time_points' not in TS or 'meta_data' not in TS: raise Undecided('TimeSeries fields')
    ti, vi = tp_fields(cx)
    OOR = variant(cx, 'MonolithErr', 'OutOfRangeErr')
    W = 'db::MonolithDb::query'
    base = lambda A, B: [(lt(B, A), 0), (lt(qe, qs), 0)]
    nok = 0
    for o in r.rets:
        allq = [(e, lp) for e, lp in walk(o.ev) if e.name == 'Chunk::query']
        for e, lp in allq:
            cx.chk('R05', 'db-query:chunk-args', same3(e.args[1:4], (labels, qs, qe)), where(r, e), 'a chunk is asked for (%s)' % ', '.join(show(x)[:80] for x in e.args[1:4]))
        if o.rk == 'err':
            fs = [e for e in failing(o)] + [e for e, lp in walk(o.ev) if e.kind in ('call', 'ext') and e.res is not None and any(('d', e.res, 1) in d for _, d in lp)]
            und = any(opaque(t) for k, t, v in o.f.items() if isinstance(t, T)) or any(e.kind == 'loop' and e.x.partial for e, lp in walk(o.ev))
            if not fs:
                inv = with_(o, [(lt(qe, qs), 0)]) is None
                cx.chk('R05 R06', 'db-query:answered', True if inv else None if und else False, W, 'a query fails although nothing failed (%s)' % show(o.p)[:100])
            continue
        nok += 1
        # the current chunk
        cq = [e for e, lp in allq if content_of(e.args[0], cur)]
        cc = cq[0].args[0] if cq else None
        if cc is None:
            c0 = [t for k, t, v in o.f.items() if k == 'z' for x, _ in t for t in subterms(x) if content_of(t, cur)]
            cc = c0[0] if c0 else mk('content', cur, 0)
        A, B = chunk_window(cx, cc)
        over = with_(o, base(A, B) + [(lt(B, qs), 0), (lt(qe, A), 0)])
        chains = [(e, chain_of(e.x.src, cur, sec)) for e in o.ev if e.kind == 'loop']
        chains = [(e, c) for e, c in chains if c]
        incur = [(e, c) for e, c in chains if any(p[0] == 'cur' for p in c)]
        if incur:
            over = None
            if any(not lp for e, lp in allq if content_of(e.args[0], cur)): cx.unk('R05', 'db-query:current-chunk-asked', W, 'the current chunk is asked inside and outside of a scan')
            cq = []
        if over is not None:
            cx.chk('R05', 'db-query:current-chunk-asked', True if len(cq) == 1 else (None if opaque_out(o) else False), W, 'the current chunk is asked %d times although its window overlaps the range' % len(cq))
        for e in cq:
            if ev_ok(over or o, e): continue
            s = o.s.copy()
            good = s.f.assume_disc(e.res, 1) and s.f.exclude_disc(vf(e.res, 1, 0), OOR)
            cx.chk('R06 R05', 'db-query:current-chunk-failure', not good, where(r, e), 'a failed query of the current chunk is taken for an empty answer')
        # older chunks
        lps = [e for e in o.ev if e.kind == 'loop' and any(x.name == 'Chunk::query' for x in flat(e.x.paths and [y for p in e.x.paths for y in p[1]] or []))]
        lps = [e for e in lps if mentions(e.x.src, lambda t: content_of(t, sec))]
        if not lps:
            used = any(content_of(t, sec) for e, lp in allq for t in subterms(e.args[0]))
            cx.chk('R05', 'db-query:older-chunks-asked', None if used else False, W, 'the older chunks are not asked')
        for L in lps:
            rec = L.x
            sk = src_kind(rec.src, cur, sec)
            ch = None
            if sk is None:
                ch = chain_of(rec.src, cur, sec)
            if sk is None and ch is None:
                part = mentions(rec.src, lambda t: t.op in ('prefix', 'slice') and contains(t, mk('content', sec, 0)))
                cx.chk('R05 R06', 'db-query:all-older-chunks', False if part else None, where(r, L), 'only a part of the older chunks is asked: %s' % show(rec.src)[:160])
                continue
            if rec.partial: cx.bad('R05 R06', 'db-query:all-older-chunks', where(r, L), 'the scan over the older chunks stops early in a successful query'); continue
            cx.ok('R05', 'db-query:all-older-chunks', where(r, L))
            for z in subterms(rec.src):
                if not filtered(z, sec): continue
                for cd, pp in z.a[1]:
                    g = Facts()
                    if pp or not apply_facts(g, cd): continue
                    A, B = chunk_window(cx, el(z.a[0]))
                    ov = all(g.assume(t, v) for t, v in base(A, B) + [(lt(B, qs), 0), (lt(qe, A), 0)])
                    cx.chk('R05', 'db-query:older-chunk-asked', True if not ov else None if opaque_facts(cd) else False, where(r, L), 'an older chunk is left out although its window overlaps the range')
            for d, es, vals in rec.paths:
                if ch is not None:
                    n = chain_path(ch, d, es)
                    if n is None: cx.unk('R05', 'db-query:older-chunk-asked', where(r, L), 'element of a chained scan'); continue
                    c, kd = chain_elem(ch[n]), 'the current' if ch[n][0] == 'cur' else 'an older'
                else: c, kd = el(sk[2]), 'an older'
                A, B = chunk_window(cx, c)
                q = [x for x in flat(es) if x.name == 'Chunk::query']
                f = iter_facts(o, d)
                if f is None: continue
                und = opaque_facts(d)
                g = f.copy()
                ov = all(g.assume(t, v) for t, v in base(A, B) + [(lt(B, qs), 0), (lt(qe, A), 0)])
                if ov: cx.chk('R05', 'db-query:older-chunk-asked', True if len(q) == 1 else None if und else False, where(r, L), '%s chunk is asked %d times although its window overlaps the range' % (kd, len(q)))
                for x in q:
                    cx.chk('R05', 'db-query:older-chunk', same(x.args[0], c), where(r, x), 'asked chunk is %s' % show(x.args[0])[:100])
                    g = f.copy()
                    lost = g.assume_disc(x.res, 1) and g.exclude_disc(vf(x.res, 1, 0), OOR)
                    cx.chk('R06 R05', 'db-query:older-chunk-failure', not lost, where(r, x), 'a failed query of %s chunk is skipped' % kd)
        # composition of the answer
        if over is None and cq == []:
            pass
        if o.p is EMPTY and all(q.p is EMPTY for q in r.rets if q.rk == 'ok'):
            cx.bad('R05', 'db-query:merged', W, 'every query is answered with nothing'); continue
        if o.p is EMPTY:
            asked = [e.x for e in o.ev if e.kind == 'loop' and not e.x.partial and src_kind(e.x.src, cur, sec) and any(x.name == 'Chunk::query' for d, es, vals in e.x.paths for x in flat(es))]
            silent = not any(mentions(t, lambda z: z.op == 'fold') for t in fact_terms(o.f.items()))
            if asked and silent and not opaque_facts(o.f.items()):
                cx.bad('R05', 'db-query:merged', W, 'nothing is returned although older chunks were asked'); continue
        try:
            kind = query_value(cx, o.p, cur, sec, TS, ti)
        except QErr as e:
            cx.bad('R05', 'db-query:merged', W, str(e)); continue
        except Unknown as e:
            cx.unk('R05', 'db-query:merged', W, str(e)); continue
        segs = kind[1]
        names = [s[0] for s in segs]
        want_cur = bool(cq) or bool(incur)
        cx.chk('R05', 'db-query:merged', sorted(names) == sorted(['old'] + (['cur'] if want_cur else [])), W, 'the answer is put together from %s' % names)
        if kind[0] == 'sorted':
            cx.chk('R05', 'db-query:time-order', kind[2] == 1, W, 'points are returned in descending order')
        else:
            exp = [('old', 1, 1)] + ([('cur', 1)] if want_cur else [])
            if incur and len(segs) != len(exp): continue
            cx.chk('R05', 'db-query:time-order', segs == exp, W, 'points are returned in the order %s' % (segs,))
    cx.chk('R05', 'db-query:possible', nok >= 1, W, 'no path answers a query')

def opaque_out(o):
    for k, t, v in o.f.items():
        for x in ([t] if isinstance(t, T) else [y for y, _ in t]):
            if opaque(x): return True
    return False

# --------------------------------------------------------------- atomicity
def intervals(evs_, lock):
    """[(lock index, unlock index, mode)] of guards on `lock` in the flat top-level event order"""
    out, open_ = [], []
    for n, e in enumerate(evs_):
        if e.kind == 'lock' and e.args and e.args[0] is lock: open_.append((n, e.name))
        elif e.kind == 'unlock' and e.args and e.args[0] is lock and open_:
            a, m = open_.pop()
            out.append((a, n, m))
    for a, m in open_: out.append((a, len(evs_), m))
    return out

@rule('K03')
def db_rotation_atomic(cx):
    cur, sec = db_locks(cx)
    q = cx.good(cx.need('MonolithDb', 'query'), QCUT)
    W = 'db::MonolithDb::query'
    for o in q.rets:
        l = list(flat_locks(o.ev))
        a, b = intervals(l, cur), intervals(l, sec)
        if o.rk != 'ok': continue
        if not a or not b:
            cx.unk('K03', 'query:reads-both', W, 'no lock on %s' % ('the current chunk' if not a else 'the older chunks')); continue
        if len(a) != 1 or len(b) != 1: 
            cx.unk('K03', 'query:one-snapshot', W, 'several acquisitions'); continue
        x, y = sorted([a[0], b[0]])
        cx.chk('K03', 'query:one-snapshot', y[0] < x[1], W, 'the first lock is released before the second is taken: a rotation in between shows a chunk twice or not at all')
    s = cx.good(cx.need('MonolithDb', 'swap'), NCUT)
    W = 'db::MonolithDb::swap'
    for o in s.rets:
        l = list(flat_locks(o.ev))
        a = [x for x in intervals(l, cur) if x[2] == 'w']
        b = [x for x in intervals(l, sec) if x[2] == 'w']
        if not a and not b: continue
        if o.rk == 'ok':
            if not a or not b: cx.bad('K03', 'swap:publishes', W, 'a rotation does not replace %s' % ('the current chunk' if not a else 'the older chunks')); continue
        if len(a) == 1 and len(b) == 1:
            x, y = sorted([a[0], b[0]])
            if y[0] > x[1]: cx.bad('K03', 'swap:one-step', W, 'the old chunk is moved and the new one published in two steps')
            elif y[1] <= x[1] or True:
                # both locks are held at the same time at least once; the order of release decides
                first_rel = 'cur' if a[0][1] < b[0][1] else 'sec'
                cx.chk('K03', 'swap:one-step', True if y[1] <= x[1] else None, W, 'overlapping lock scopes (%s released first)' % first_rel)
    w = {}
    for m in ('write_time_points', 'write_time_point'):
        r = cx.good(cx.need('MonolithDb', m), QCUT)
        for o in r.rets:
            for e in evs(o, 'Chunk::insert'):
                g = held_guard(e, ('r', 'w'))
                cx.chk('K03', m + ':under-current-lock', any(x.a[0] is cur for x in g) or None, where(r, e), 'a point is inserted without holding the current chunk: rotation can close the chunk in between')

def flat_locks(evs_):
    for e in evs_:
        if e.kind == 'loop':
            for d, es, vals in e.x.paths:
                for x in flat_locks(es): yield x
        else: yield e

# ------------------------------------------------------------------ writes
def perm_src(x):
    while x.op in ('rev', 'sorted'): x = x.a[0]
    return x

@rule('W01 W03')
def db_write_points(cx):
    i = cx.need('MonolithDb', 'write_time_points')
    r = cx.good(i, QCUT)
    cur, sec = db_locks(cx)
    self_, labels, points = r.args[:3]
    ti, vi = tp_fields(cx)
    W = 'db::MonolithDb::write_time_points'
    nok = 0
    for o in r.rets:
        ins = [(e, lp) for e, lp in walk(o.ev) if e.name == 'Chunk::insert']
        if o.rk == 'err':
            fs = failing(o) or [e for e, lp in ins if any(('d', e.res, 1) in d for _, d in lp)]
            cx.chk('W01', 'write-points:answered', True if fs else None if opaque_out(o) else False, W, 'a write fails although no insert failed')
            continue
        nok += 1
        if not ins:
            empty = o.f.truth(nonempty_term(points)) == 0
            cx.chk('W01 W03', 'write-points:inserts', True if empty else False if not opaque_out(o) else None, W, 'a write is acknowledged without inserting anything'); continue
        loops = {}
        for e, lp in ins:
            if not lp and any(z.kind == 'loop' and z.x.partial and perm_src(z.x.src) is points and any(y.name == 'Chunk::insert' for d, es, vs in z.x.paths for y in flat(es)) for z in o.ev) and e.args[2] is el(points):
                cx.bad('W01', 'write-points:all', where(r, e), 'writing stops after the first insert that decides the loop, but the write is acknowledged'); loops = None; break
            if len(lp) != 1: cx.unk('W01 W03', 'write-points:inserts', where(r, e), 'insert outside of a simple loop'); loops = None; break
            loops[id(lp[0][0])] = lp[0][0]
        if not loops: continue
        if len(loops) != 1: cx.unk('W01 W03', 'write-points:inserts', W, '%d loops' % len(loops)); continue
        rec = list(loops.values())[0]
        src = rec.src
        x = src
        sorted_ = False
        while x.op in ('rev', 'sorted'): x = x.a[0]
        if x is not points:
            part = x.op in ('prefix', 'slice') or x.op == 'app' and x.a[0] in ('dedup', 'dedupby') and x.a[1] is points
            if x.op == 'comp': cx.unk('W01 W03', 'write-points:all', W, 'source ' + show(x)[:100])
            else: cx.chk('W01 W03', 'write-points:all', False if part else None, W, 'only a part of the points is written: %s' % show(x)[:100])
            continue
        if rec.partial: cx.bad('W01 W03', 'write-points:all', W, 'writing stops early but the write is acknowledged'); continue
        cx.ok('W01 W03', 'write-points:all', W)
        e = el(points)
        t = fld(e, ti)
        cc = ins[0][0].args[0]
        if not content_of(cc, cur): cx.chk('W03', 'write-points:chunk', None if opaque(cc) else False, W, 'points go to %s' % show(cc)[:100]); continue
        A, B = chunk_window(cx, cc)
        inw = [('inside', [(lt(A, t), 1), (lt(t, B), 1)]), ('at the start', [(ieq(t, A), 1), (lt(A, B), 1)]), ('at the end', [(ieq(t, B), 1), (lt(A, B), 1)])]
        out = [('before the start', [(lt(t, A), 1), (lt(A, B), 1)]), ('after the end', [(lt(B, t), 1), (lt(A, B), 1)])]
        for d, es, vals in rec.paths:
            f = iter_facts(o, d)
            if f is None: continue
            und = opaque_facts(d)
            k = [y for y in flat(es) if y.name == 'Chunk::insert']
            for nm, reg in inw:
                g = f.copy()
                if not (g.assume(ieq(t, I(0)), 0) and all(g.assume(a, b) for a, b in reg)): continue
                cx.chk('W01 W03', 'write-points:in-window', True if len(k) == 1 else None if und else False, W, 'a point %s the window is inserted %d times' % (nm, len(k)))
            for nm, reg in out:
                g = f.copy()
                if not all(g.assume(a, b) for a, b in reg): continue
                cx.chk('W03', 'write-points:out-of-window', True if not k else None if und else False, W, 'a point %s of the window is handed to the chunk' % nm)
            for y in k:
                cx.chk('W01 W03', 'write-points:insert-args', same3(y.args[:3], (cc, labels, e)), where(r, y), 'inserted is (%s)' % ', '.join(show(z)[:60] for z in y.args[:3]))
                # failures must not be possible on a successful outcome
                g = f.copy()
                if not g.assume_disc(y.res, 1): cx.ok('W01', 'write-points:insert-failure', where(r, y)); continue
                cx.chk('W01', 'write-points:insert-failure', excluded(o, rec, d, y), where(r, y), 'a failed insert does not make the write fail')
    cx.chk('W01', 'write-points:possible', nok >= 1, W, 'no write succeeds')
    j = cx.find('MonolithDb', 'write_time_point')
    if j:
        r = cx.good(j, QCUT)
        W = 'db::MonolithDb::write_time_point'
        for o in r.rets:
            ins = evs(o, 'Chunk::insert')
            if o.rk == 'err':
                cx.chk('W01', 'write-point:answered', True if failing(o) else None if opaque_out(o) else False, W, 'a write fails although the insert did not')
                continue
            if cx.chk('W01 W03', 'write-point:inserted', len(ins) == 1, W, 'a write is acknowledged after %d inserts' % len(ins)):
                y = ins[0]
                cx.chk('W01', 'write-point:insert-result', ev_ok(o, y), where(r, y), 'a failed insert is not reported')
                cx.chk('W01 W03', 'write-point:insert-args', True if content_of(y.args[0], cur) and y.args[1] is r.args[1] and y.args[2] is r.args[2] else None if any(opaque(z) for z in y.args[:3]) else False, where(r, y), 'inserted is (%s)' % ', '.join(show(z)[:60] for z in y.args[:3]))

def nonempty_term(s): return lt(I(0), length(s))

def after_failure(o, c, d, y):
    """values an accumulator can have at the end when one iteration failed: none agrees with this
    outcome -> True, one does -> False"""
    cases, bad = [], ('d', y.res, 1)
    for cd, v in c.a[1]:
        if any(contains(t, HOLE) for k, t, x in cd for t in ([t] if isinstance(t, T) else [q for q, _ in t])): return None
        if v is not HOLE and v.op != 'int': return None
        f = Facts()
        if not apply_facts(f, cd): continue
        cases.append((frozenset(cd), v))
    st = set(v for cd, v in cases if bad in cd and cd - {bad} <= frozenset(d))
    if not st or HOLE in st: return None
    while True:
        n = st | set(v for cd, v in cases if v is not HOLE)
        if n == st: break
        st = n
    def agrees(v):
        for k, t, x in o.f.items():
            if k == 'b' and t is c and v.a[0] not in (0, 1): return None
        f = o.f.copy()
        if any(k == 'b' and t is c for k, t, x in o.f.items()): return f.assume(c, v.a[0])
        return f.assume(ieq(c, v), 1)
    rs = [agrees(v) for v in st]
    if not any(r is None or r for r in rs): return True
    und = any(opaque(t) and t is not c for t in fact_terms(o.f.items()) if not contains(t, c))
    if None in rs or und: return None
    return False

def stays_failed(o, c, d, y):
    """the same for accumulators that are themselves a Result / Option: the discriminants the
    accumulator can have at the end when one iteration failed"""
    bad, steps = ('d', y.res, 1), []
    for cd, v in c.a[1]:
        f, need, soft = Facts(), None, False
        if not apply_facts(f, cd): continue
        for k, t, x in cd:
            if t is HOLE and k == 'd': need = x
            elif any(contains(q, HOLE) for q in ([t] if isinstance(t, T) else [z for z, _ in t])): soft = True
            elif any(opaque(q) for q in ([t] if isinstance(t, T) else [z for z, _ in t])): soft = True
        if v is HOLE: out = None
        elif v.op == 'adt': out = frozenset((v.a[3],))
        elif v in f.d: out = frozenset((f.d[v],))
        elif v.op == 'res': out = frozenset((0, 1))
        else: return None
        fails = ('d', y.res, 0) not in cd and frozenset(k for k in cd if k[1] is not HOLE) - {bad} <= frozenset(d)
        if fails: steps.append((True, need, frozenset((1,)) if v is y.res else out, soft))
        if bad not in cd or not fails: steps.append((False, need, out, soft))
    def post(st, failing):
        r = set()
        for b, need, out, soft in steps:
            if failing is not b: continue
            for s in st:
                if need is not None and need != s: continue
                for q in ((s,) if out is None else out): r.add((q, soft))
        return r
    cur = post({0, 1}, True)
    if not cur: return None
    while True:
        n = cur | set((q, s1 or s0) for s, s0 in cur for b in (True, False) for q, s1 in post({s}, b))
        if n == cur: break
        cur = n
    end = o.f.d.get(c)
    if end is None: return None
    if not any(s == end for s, _ in cur): return True
    return False if (end, False) in cur else None

def excluded(o, rec, d, y):
    """on this successful outcome: an iteration on path d whose insert failed cannot have happened.
    True / False / None"""
    und = False
    def base(x):
        while x.op == 'comp' and x is not rec.src: x = x.a[0]
        return x
    for k, t, v in o.f.items():
        terms = [t] if isinstance(t, T) else [a for a, _ in t]
        for x in terms:
            for c in subterms(x):
                if c.op == 'comp':
                    # len(comp) == 0: no iteration satisfied a producing case
                    for cd, pp in c.a[1]:
                        if pp and ('d', y.res, 1) in cd and frozenset(cd) - {('d', y.res, 1)} <= frozenset(d):
                            f = o.f.copy()
                            if f.assume_rel(length(c), I(0), 1, float('inf')) is False or o.f.truth(lt(I(0), length(c))) == 0: return True
                if c.op == 'sum':
                    # a counter that is known to be 0 and grows on every such iteration
                    incs = [(cd, v) for cd, v in c.a[1]]
                    if all(v.op == 'int' and v.a[0] >= 0 for cd, v in incs):
                        mine = [v for cd, v in incs if ('d', y.res, 1) in cd and frozenset(cd) - {('d', y.res, 1)} <= frozenset(d)]
                        if mine and all(v.a[0] > 0 for v in mine) and o.f.truth(lt(I(0), c)) == 0 and base(c.a[0]) is rec.src: return True
                        if o.f.truth(lt(I(0), c)) == 0 and not mine: und = True
                    else: und = True
                if c.op == 'fold' and c.a[0] is rec.src:
                    z = after_failure(o, c, d, y)
                    if z is None: z = stays_failed(o, c, d, y)
                    if z is not None: return z
                if c.op in ('fold', 'while', 'any', 'all', 'hdr'): und = True
                if c.op == 'app' and isinstance(c.a[0], str) and c.a[0] in ('any', 'all'): und = True
    return None if und else False
