"""Storage backends: append, read, range selection, point codec."""
from rulebase import *
from rules_chunk import failing, variant, tp_fields, with_, same3, FALL

BACK = {'SledStorage': ('Tree::get', 'Tree::set', ('Tree::insert', 'Tree::del', 'Tree::remove', 'Tree::cas', 'Tree::merge')),
        'TiKvStorage': ('TiKvRawBackend::get', 'TiKvRawBackend::set', ())}

def runs(cx, ty):
    w = cx.good(cx.need(ty, 'write_time_point', 'Storage'))
    r = cx.good(cx.need(ty, 'read_time_series', 'Storage'))
    return w, r

def key_injective(key, sid):
    """the storage key is an injective function of the series id: True/False/None"""
    from rules_common import byte_bits, Leaves
    if not contains(key, sid): return False
    n = 0
    for p in parts(key):
        if not contains(p, sid): continue
        n += 1
        if p.op in ('be', 'le') and p.a[1] is sid: 
            if p.a[0] < 8: return False
            continue
        if p.op == 'dec' and p.a[0] is sid: continue
        if p.op in ('hex', 'fmt') : continue
        if p.op in ('be', 'le', 'one'):
            b = byte_bits(p if p.op != 'le' else mk('be', *p.a), Leaves())
            if b is None: return None
            if ('mix',) not in b and any((sid, k) not in b for k in range(64)): return False
            if any((sid, k) not in b for k in range(64)): return None
            continue
        return None
    return True

def decoders(r, get):
    """the chunked scan of the stored bytes: (source term, element term) pairs seen in the reader"""
    out = []
    for o in r.rets:
        for x in o.ev:
            if x.kind == 'loop' and x.x.src.op == 'app' and x.x.src.a[0] in ('chunks', 'chunks_exact') and mentions(x.x.src, lambda t: t.op == 'res' and t.a[0] == get):
                out.append(x.x)
    return out

def member(val):
    """peel sorting and filtering: -> (source, [(conditions, parts)], order) where order is None | (key, dir)
    element terms are rewritten to elements of the innermost source"""
    order = None
    v = val
    conds = None
    m = {}
    cases = None
    for _ in range(8):
        ps = parts(v)
        if len(ps) != 1: return None
        v = ps[0]
        if v.op == 'rev':
            v = v.a[0]
            if order: order = (order[0], -order[1])
            else: order = ('rev', -1)
            continue
        if v.op == 'sorted':
            if order is None: order = (v.a[1], 1)
            elif order[0] == 'rev': order = (v.a[1], -1)
            inner = v.a[0]
            m[el(v)] = el(inner)
            v = inner
            continue
        if v.op == 'comp':
            src, cs = v.a
            if src.op == 'prefix': return None
            if cases is None: cases = [(d, p) for d, p in cs]
            else:
                # compose: outer cases over element of this comprehension
                new = []
                for d2, p2 in cs:
                    if not p2: new.append((d2, ())); continue
                    if len(p2) != 1 or p2[0].op != 'one': return None
                    for d, p in cases:
                        mm = {el(v): p2[0].a[0]}
                        d = subst_facts(d, m); p = tuple(subst(x, m) for x in p)
                        new.append((frozenset(d2) | subst_facts(d, mm), tuple(subst(x, mm) for x in p)))
                cases = new
            v = src
            continue
        break
    def fix(t):
        for _ in range(3):
            t2 = subst(t, m)
            if t2 is t: break
            t = t2
        return t
    if cases is None: cases = [(frozenset(), (one(el(v)),))]
    else:
        out = []
        for d, p in cases:
            for _ in range(3): d = subst_facts(d, m)
            out.append((d, tuple(fix(x) for x in p)))
        cases = out
    return v, cases, order

def opaque_facts(d):
    return any(opaque(x) for k, t, v in d for x in ([t] if isinstance(t, T) else [y for y, _ in t]))

@rule('W01 W02 R01 R06')
def storage_sled(cx): storage(cx, 'SledStorage')

@rule('W01 W02 R01 R06 D05')
def storage_tikv(cx): storage(cx, 'TiKvStorage')

def storage(cx, ty):
    get, set_, other = BACK[ty]
    w, r = runs(cx, ty)
    P = ty + ':'
    ti, vi = tp_fields(cx)
    self_, sid, ts, val = w.args[:4]
    rself, rsid, qs, qe = r.args[:4]
    # the key both sides use
    wkeys = set((e.args[0], e.args[1]) for o in w.rets for e in flat(o.ev) if e.name in (get, set_) )
    rkeys = set((e.args[0], e.args[1]) for o in r.rets for e in flat(o.ev) if e.name == get)
    ren = {rself: self_, rsid: sid}
    rkeys = set((subst(a, ren), subst(b, ren)) for a, b in rkeys)
    if not wkeys or not rkeys: raise Undecided('no backend access found in ' + ty)
    k0 = sorted(wkeys, key=lambda k: k[1].id)[0]
    for k in wkeys | rkeys:
        cx.chk('W02 R01', P + 'one-key', same3(k, k0), where(w), 'a series is read and written under different keys: %s and %s' % (show(k[1]), show(k0[1])))
        cx.chk('W02', P + 'key-per-series', key_injective(k[1], sid), where(w), 'two series ids can share the key %s' % show(k[1]))
    # decoding as the reader does it
    dec = None
    width = None
    for lr in decoders(r, get):
        src = lr.src
        if len(src.a) == 3 and is_int(src.a[2]): width = src.a[2].a[0]
    # writer
    enc = None
    nok = 0
    lastts = None
    for o in w.rets:
        gets, sets = evs(o, get), evs(o, set_)
        oth = evs(o, *other) if other else []
        if o.rk == 'ok':
            nok += 1
            if oth: cx.bad('W02', P + 'only-append', where(w, oth[0]), '%s is used on the store while writing a point' % oth[0].name)
            if not cx.chk('W02 W01', P + 'one-set', len(sets) == 1 and sets[0] in o.ev, where(w), 'a write is acknowledged after %d store operations' % len(sets)): continue
            st = sets[0]
            cx.chk('W01 W02', P + 'set-result', ev_ok(o, st), where(w, st), 'a failed store operation is not reported')
            if not gets: cx.bad('W02', P + 'keeps-previous', where(w, st), 'the previous content of the series is not read before it is overwritten'); continue
            g = gets[-1]
            idx = list(flat(o.ev))
            cx.chk('W01 W02', P + 'get-result', ev_ok(o, g), where(w, g), 'a failed read of the previous content is taken for an empty series')
            prev = some_of(o.f, vf(g.res, 0, 0))
            v = st.args[2]
            if prev is None: cx.unk('W02', P + 'keeps-previous', where(w, st), 'previous content not distinguished'); continue
            body = v
            if prev[0] == 'some':
                ps = parts(v)
                if ps and ps[0] is prev[1]: body = cat(*[mk('cat', p) if p.op in ('lit', 'one') else p for p in ps[1:]])
                else:
                    cx.chk('W02', P + 'keeps-previous', None if opaque(v) else False, where(w, st), 'the stored content is %s instead of the previous content followed by the point' % show(v)[:300]); continue
                cx.ok('W02', P + 'keeps-previous', where(w, st))
            if enc is None: enc = body
            cx.chk('W02 W01', P + 'same-encoding', same(body, enc), where(w, st), 'first and later points are stored differently: %s / %s' % (show(body)[:200], show(enc)[:200]))
            # order invariant for readers that do not sort
            if prev[0] == 'some' and not nothing_stored(o, prev[1]): lastts = (lastts or []) + [(o, prev[1])]
        else:
            fs = failing(o)
            if fs: continue
            # refusal without a failing operation
            older = [t for t in refused_ts(o, ts)]
            if ty == 'TiKvStorage' and older:
                q = with_(o, [(lt(older[0], ts), 1)])
                cx.chk('W01', P + 'accepts-newer', q is None, where(w), 'a point newer than the last one of its series is refused')
            else:
                cx.chk('W01', P + 'accepts', None if (opaque_out(o) or any(mentions(t, lambda x: x.op == 'len') for t in fact_terms(o.f))) else False, where(w), 'a point is refused although nothing failed: %s' % show(o.p)[:200])
    cx.chk('W01', P + 'write-possible', nok >= 1, where(w), 'no path stores a point')
    # codec: what the reader makes of the writer's bytes
    if enc is not None:
        cx.chk('W02', P + 'point-width', None if width is None or length(enc).op != 'int' else length(enc).a[0] == width, where(r), 'points are written with %s bytes and read with %s' % (show(length(enc)), width))
    # reader
    OOR, NF = variant(cx, 'MonolithErr', 'OutOfRangeErr'), variant(cx, 'MonolithErr', 'NotFoundErr')
    nok = 0
    for o in r.rets:
        gets = evs(o, get)
        if not gets: cx.chk('R01', P + 'reads-store', False if o.rk == 'ok' else None, where(r), 'answered without reading the store'); continue
        g = gets[-1]
        got = o.f.d.get(g.res)
        if o.rk == 'ok':
            nok += 1
            cx.chk('R06 R01', P + 'read-get-result', got == 0, where(r, g), 'a failed backend read gives a successful result')
            pv = some_of(o.f, vf(g.res, 0, 0))
            if pv is None or pv[0] == 'none':
                cx.chk('R01', P + 'unknown-series', False if pv else None, where(r), 'an unknown series is answered with %s' % show(o.p)[:100]); continue
            read_value(cx, r, o, P, o.p, pv[1], enc, width, qs, qe, ti, vi, ts, val, lastts, sid, w)
        else:
            pv = some_of(o.f, vf(g.res, 0, 0)) if got == 0 else None
            if got == 0 and pv and pv[0] == 'none':
                if o.p.op == 'adt' and o.p.a[0].endswith('MonolithErr'): cx.chk('R01', P + 'unknown-series', o.p.a[1] == 'NotFoundErr', where(r), 'an unknown series is reported as %s' % o.p.a[1])
                continue
            if o.p.op == 'adt' and o.p.a[1] in ('OutOfRangeErr', 'NotFoundErr') and got == 0 and pv and pv[0] == 'some':
                oor(cx, r, o, P, pv[1], qs, qe, ti, width)
            if o.p.op == 'adt' and o.p.a[1] in ('OutOfRangeErr', 'NotFoundErr') and got == 1:
                cx.bad('R06', P + 'backend-failure-kind', where(r, g), 'a failed backend read is reported as %s, which a chunk query skips' % o.p.a[1])
    for o in r.panics:
        for g in evs(o, get):
            if o.f.d.get(g.res) == 0 and some_of(o.f, vf(g.res, 0, 0)) == ('none',):
                cx.bad('R01', P + 'unknown-series', where(r, g), 'reading an unknown series panics instead of reporting not found')
    cx.chk('R01', P + 'read-possible', nok >= 1, where(r), 'no path returns points')

def fact_terms(f):
    for k, t, v in f.items():
        for x in ([t] if isinstance(t, T) else [y for y, _ in t]): yield x

def opaque_out(o): return any(opaque(t) for t in fact_terms(o.f))

def refused_ts(o, ts):
    """terms the new timestamp was compared with on this path"""
    out = []
    for k, t, v in o.f.items():
        if k != 'z': continue
        m = dict(t)
        if ts in m and len(m) == 2: out += [x for x in m if x is not ts]
    return out

def read_value(cx, r, o, P, value, stored, enc, width, qs, qe, ti, vi, ts, val, lastts, sid, w):
    if drops_points(value):
        cx.bad('R01', P + 'selection', where(r), 'points are dropped that compare equal to another point'); return
    cut = [t for t in subterms(value) if t.op == 'prefix' and t.a[0].op == 'app' and t.a[0].a[0] in ('chunks', 'chunks_exact')]
    if len(cut) == 1:
        # stopping early leaves nothing out when the points are stored in order and the range is over
        src = cut[0].a[0]
        pts = set(x for t in fact_terms(o.f) for x in subterms(t) if x.op == 'app' and str(x.a[0]).startswith('from_be') and contains(x, el(src)))
        over = any(with_(o, [(lt(qe, x), 0)]) is None for x in pts)
        asc = ascending(lastts, ts, src, ti)
        if over and asc is not False:
            if asc is None: cx.unk('R01 R06', P + 'reads-all', where(r), 'stops at the end of the range'); return
            value = subst(value, {cut[0]: src})
    mb = member(value)
    if mb and mb[0].op == 'slice' and mb[0].a[0].op == 'app' and mb[0].a[0].a[0] in ('chunks', 'chunks_exact') and is_int(mb[0].a[1]) and mb[0].a[1].a[0] > 0:
        cx.bad('R01', P + 'reads-all', where(r), 'the first %d stored points are not read' % mb[0].a[1].a[0]); return
    if mb and mb[0].op == 'app' and mb[0].a[0] == 'chunks_exact':
        # the tail shorter than a record is left out unless the length was tested
        tested = any(mentions(t, lambda x: x.op == 'app' and x.a[0] == 'Rem') for t in fact_terms(o.f))
        cx.chk('R06', P + 'undecodable-reported', None if tested else False, where(r), 'stored bytes after the last whole record are silently left out')
        mb = (mk('app', 'chunks', *mb[0].a[1:]),) + tuple(mb[1:])
        e0, e1 = el(member(value)[0]), el(mb[0])
        mb = (mb[0], [(subst_facts(d, {e0: e1}), tuple(subst(x, {e0: e1}) for x in pp)) for d, pp in mb[1]], mb[2])
    if mb is None or mb[0].op != 'app' or mb[0].a[0] != 'chunks' or not contains(mb[0], stored):
        if mentions(value, lambda t: t.op == 'prefix'): cx.bad('R01 R06', P + 'reads-all', where(r), 'reading stops before the end of the series')
        else: cx.unk('R01', P + 'selection', where(r), 'value ' + show(value)[:160])
        return
    src, cases, order = mb
    cx.chk('R01 R06', P + 'reads-all', None if not mentions(src.a[1], lambda t: t.op == 'slice') and src.a[1] is not stored else src.a[1] is stored, where(r), 'only a part of the stored content is decoded: %s' % show(src.a[1])[:160])
    if order is not None:
        k, d = order
        good = isinstance(k, T) and k is fld(mk('sym', 'sa'), ti)
        cx.chk('R01', P + 'time-order', good and d == 1 if isinstance(k, T) and (k.op in ('fld', 'sym')) else (False if k == 'rev' else None), where(r), 'points are returned in order of %s (%s)' % (show(k) if isinstance(k, T) else k, 'descending' if d < 0 else 'ascending'))
    else:
        # stored order: the writer must keep it ascending
        asc = ascending(lastts, ts, src, ti)
        cx.chk('R01', P + 'time-order', asc, where(r), 'points are returned in the order they were written, and the writer accepts older points')
    e = el(src)
    keep = None
    for d, pp in cases:
        f = iter_facts(o, d)
        if f is None: continue
        und = any(opaque(t) for t in fact_terms(f))
        full = f.assume_rel(length(e), I(width or 16), 0, 0)
        if not full: continue       # undecodable tail
        if len(pp) > 1: cx.chk('R01', P + 'once', False if all(x.op == 'one' for x in pp) else None, where(r), 'a point is returned %d times' % len(pp)); continue
        tp = None
        if pp:
            if pp[0].op != 'one': cx.unk('R01', P + 'point', where(r), show(pp[0])[:100]); continue
            tp = pp[0].a[0]
            if tp.op != 'adt': cx.unk('R01', P + 'point', where(r), show(tp)[:100]); continue
            if enc is not None:
                from rules_common import same_word
                dt = subst(tp, {e: enc})
                cx.chk('W02 R01', P + 'codec-timestamp', same_word(fld(dt, ti), ts), where(r), 'a stored timestamp reads back as %s' % show(fld(dt, ti))[:200])
                cx.chk('W02 R01', P + 'codec-value', same_word(fld(dt, vi), val), where(r), 'a stored value reads back as %s' % show(fld(dt, vi))[:200])
            pt = fld(tp, ti)
            for nm, c in (('before the range', [(lt(pt, qs), 1)]), ('after the range', [(lt(qe, pt), 1)])):
                g = f.copy()
                if all(g.assume(a, b) for a, b in [(lt(qe, qs), 0)] + c): cx.chk('R01', P + 'range-excludes', None if und else False, where(r), 'a point %s is returned' % nm)
                else: cx.ok('R01', P + 'range-excludes', where(r))
            keep = pt
    for d, pp in cases:
        if pp or keep is None: continue
        f = iter_facts(o, d)
        if f is None: continue
        und = any(opaque(t) for t in fact_terms(f))
        if not f.assume_rel(length(e), I(width or 16), 0, 0):
            cx.chk('R06', P + 'undecodable-reported', None if und else False, where(r), 'stored bytes that cannot be decoded are silently left out'); continue
        for nm, c in (('at the start of the range', [(ieq(keep, qs), 1), (lt(qs, qe), 1)]), ('at the end of the range', [(ieq(keep, qe), 1), (lt(qs, qe), 1)]), ('inside the range', [(lt(qs, keep), 1), (lt(keep, qe), 1)]), ('in a one-instant range', [(ieq(keep, qs), 1), (ieq(keep, qe), 1)])):
            g = f.copy()
            if all(g.assume(a, b) for a, b in c): cx.chk('R01', P + 'range-includes', None if und else False, where(r), 'a point %s is left out' % nm)
            else: cx.ok('R01', P + 'range-includes', where(r))
    if keep is None: cx.unk('R01', P + 'selection', where(r), 'no kept element')

def drops_points(v):
    return mentions(v, lambda t: t.op == 'app' and t.a[0] in ('dedup', 'dedupby'))

def nothing_stored(o, stored):
    """the path knows that the stored bytes hold no point"""
    for t in set(x for t in fact_terms(o.f) for x in subterms(t)):
        if t.op == 'len' and (t.a[0] is stored or t.a[0].op == 'app' and t.a[0].a[0] in ('chunks', 'chunks_exact') and t.a[0].a[1] is stored) and o.f.bounds(((t, 1),))[1] == 0: return True
    return False

def ascending(lastts, ts, src, ti):
    """the writer accepts only points newer than the last one"""
    if not lastts: return None
    res = True
    for wo, prev in lastts:
        asc = False
        for t in refused_ts(wo, ts):
            if contains(t, prev) and wo.f.truth(lt(ts, t)) == 0: asc = last_element(t, prev, src, ti)
        if asc is False: return False
        if asc is None: res = None
    return res

def last_element(t, prev, src, ti):
    """is t the timestamp of the last record of the stored bytes?"""
    for x in subterms(t):
        if x.op == 'index' and x.a[0].op == 'app' and x.a[0].a[0] == 'chunks' and x.a[0].a[1] is prev and x.a[0].a[2:] == src.a[2:]: return True if x.a[1] is sub(length(x.a[0]), I(1)) else None
    if not mentions(t, lambda x: x.op in ('slice', 'app')): return None
    w = src.a[2].a[0] if is_int(src.a[2]) else 16
    want = slice_(prev, sub(length(prev), I(w)), END)
    base = [x for x in subterms(t) if x.op == 'slice' and x.a[0] is prev]
    if base and all(x.a[1] is sub(length(prev), I(w)) for x in base): return True
    return None

def oor(cx, r, o, P, stored, qs, qe, ti, width):
    """an out-of-range answer must not hide a point that is in range"""
    seen = {}
    for t in fact_terms(o.f):
        for x in subterms(t):
            if x.op == 'fld' and x.a[1] == ti and x.a[0].op == 'index': seen[x] = x.a[0]
            if x.op == 'app' and str(x.a[0]).startswith('from_be') and contains(x, stored): seen[x] = None
    if any(x.op == 'comp' for t in fact_terms(o.f) for x in subterms(t) if t.op == 'len' and t.a[0] is x): 
        cx.unk('R01', P + 'out-of-range', where(r), 'decided by an empty selection'); return
    ends = []
    for x, ix in seen.items():
        if ix is None: continue
        s, i = ix.a
        if not contains(s, stored): continue
        first = i is I(0)
        lastp = i is sub(length(s), I(1))
        if first or lastp: ends.append((x, 'first' if first else 'last', s))
    fl = {n: x for x, n, s in ends}
    base = [(lt(qe, qs), 0)]
    if 'first' in fl and 'last' in fl: base.append((lt(fl['last'], fl['first']), 0))
    if not ends and nothing_stored(o, stored): cx.ok('R01', P + 'out-of-range', where(r)); return
    if not ends:
        cx.chk('R01', P + 'out-of-range', None if opaque_out(o) or seen else (False if with_(o, base) is not None and not any(contains(t, qs) or contains(t, qe) for t in fact_terms(o.f)) else None), where(r), 'out of range is reported without looking at the points'); return
    if len(fl) == 1 and len(set(s for _, _, s in ends)) == 1:
        # only one end was looked at: some other point may still be in range
        (n, x), = fl.items()
        q = with_(o, base + [(lt(x, qs), 1)]) if n == 'first' else with_(o, base + [(lt(qe, x), 1)])
        cx.chk('R01', P + 'out-of-range', True if q is None else None if opaque_out(o) else False, where(r), 'out of range is reported although only the %s point is known to be outside the range' % n)
    for x, n, s in ends:
        for nm, c in (('at its start', [(ieq(x, qs), 1)]), ('at its end', [(ieq(x, qe), 1)]), ('inside', [(lt(qs, x), 1), (lt(x, qe), 1)])):
            q = with_(o, base + c)
            cx.chk('R01', P + 'out-of-range', q is None, where(r), 'a range that contains the %s point (%s) is reported as out of range' % (n, nm))

@rule('R01')
def trim(cx):
    """Storage::trim_time_series as such"""
    i = cx.find(None, 'trim_time_series') or cx.find('Storage', 'trim_time_series') or next((x for x in cx.db.local if x['path'].endswith('::trim_time_series')), None)
    if i is None: raise Undecided('trim_time_series not found')
    r = cx.good(i)
    ser, qs, qe = r.args[:3]
    ti, vi = tp_fields(cx)
    for o in r.rets:
        if o.rk != 'ok':
            cx.chk('R01', 'trim:no-error', None, where(r), 'error outcome'); continue
        mb = member(o.p)
        if mb is None or mb[0] is not ser: cx.unk('R01', 'trim:selection', where(r), show(o.p)[:160]); continue
        src, cases, order = mb
        e = el(ser)
        cx.chk('R01', 'trim:order', order is None or (isinstance(order[0], T) and order[0] is fld(mk('sym', 'sa'), ti) and order[1] == 1), where(r), 'the order of the points is changed')
        for d, pp in cases:
            f = o.f.copy()
            if not apply_facts(f, d): continue
            und = any(opaque(t) for t in fact_terms(f))
            t = fld(e, ti)
            if pp:
                cx.chk('R01', 'trim:point', same3(pp, (one(e),)) if len(pp) == 1 else False, where(r), 'returned instead of the point: %s' % show(pp)[:160])
                reg = (('before the range', [(lt(t, qs), 1)]), ('after the range', [(lt(qe, t), 1)]))
            else: reg = (('at the start', [(ieq(t, qs), 1), (lt(qs, qe), 1)]), ('at the end', [(ieq(t, qe), 1), (lt(qs, qe), 1)]), ('inside', [(lt(qs, t), 1), (lt(t, qe), 1)]), ('in a one-instant range', [(ieq(t, qs), 1), (ieq(t, qe), 1)]))
            for nm, c in reg:
                g = f.copy()
                good = not all(g.assume(a, b) for a, b in c)
                cx.chk('R01', 'trim:' + ('excludes' if pp else 'includes'), True if good else None if und else False, where(r), 'a point %s is %s' % (nm, 'returned' if pp else 'left out'))
