"""Chunk: insert, query, window, locking, ids."""
from rulebase import *

FALLIBLE = {'Storage::write_time_point', 'Storage::read_time_series', 'Indexer::get_series_with_label_matching', 'Indexer::get_series_id_with_label_matching', 'Indexer::create_index', 'Indexer::get_series_metadata_contains_labels', 'Indexer::get_series_id_contains_labels', 'Indexer::get_series_id_by_labels', 'Indexer::get_series_labels_by_id',
            'Builder::build', 'Builder::write_to_chunk', 'Builder::read_from_chunk', 'Builder::write_config', 'Builder::read_config',
            'TiKvRawBackend::get', 'TiKvRawBackend::set', 'Chunk::insert', 'Chunk::query', 'MonolithDb::query', 'MonolithDb::write_time_points', 'MonolithDb::write_time_point', 'ChunkOpts::write_config_to_dir', 'ChunkOpts::read_config_from_dir'}
IO = {'File::create', 'File::open', 'File::sync_all', 'File::sync_data', 'fs::read_to_string', 'fs::read', 'fs::write', 'fs::rename', 'fs::create_dir_all', 'fs::create_dir', 'fs::read_dir', 'OpenOptions::open', 'Write::write', 'Write::flush', 'Write::write_all', 'File.Write::write', 'File.Write::write_all', 'File.Write::flush', 'BufWriter.Write::flush', 'BufWriter.Write::write', 'BufWriter.Write::write_all', 'BufWriter::flush', 'BufWriter::into_inner',
      'Tree::set', 'Tree::get', 'Tree::del', 'Tree::insert', 'Tree::remove', 'Tree::flush', 'Tree::contains_key', 'Tree::cas', 'Db::start', 'Db::start_default', 'Db::open', 'Db::flush', 'Db::open_tree', 'json::to_writer', 'Read::read_to_end', 'Read::read_exact', 'Message::merge_from', 'Message::write_to', 'RawClient::get', 'RawClient::put', 'RawClient::delete', 'RawClient::new'}
FALL = FALLIBLE | IO

def failing(o, names=None):
    """events known to have failed on this path"""
    return [e for e in flat(o.ev) if e.kind in ('call', 'ext') and ev_err(o, e) and (names is None or e.name in names)]

def window(cx):
    """(start, end) terms of a chunk's window over `self` = arg0"""
    i = cx.need('Chunk', 'start_end_time')
    r = cx.good(i)
    if len(r.rets) != 1 or r.rets[0].v.op != 'tup' or len(r.rets[0].v.a) != 2: raise Undecided('start_end_time')
    return r.rets[0].v.a

def tp_fields(cx):
    """indices of timestamp, value in TimePoint"""
    a = adt_fields(cx, 'TimePoint')
    return a['timestamp'], a['value']

def adt_fields(cx, name, db=None):
    for p, a in (db or cx.db).adt.items():
        if p.split('::')[-1] == name and len(a['variants']) == 1:
            return {f[0]: n for n, f in enumerate(a['variants'][0]['fields'])}
    raise Undecided('no struct ' + name)

def variant(cx, name, var):
    for p, a in cx.db.adt.items():
        if p.split('::')[-1] == name:
            for n, v in enumerate(a['variants']):
                if v['name'] == var: return int(v['discr']) if v['discr'] is not None else n
    raise Undecided('no variant %s::%s' % (name, var))

def with_(o, conds):
    """outcome restricted by boolean conditions, or None"""
    s = o.s.copy()
    for t, v in conds:
        if not s.f.assume(t, v): return None
    return Out(o.kind, s, o.v, o.rk, o.p)

def held_guard(e, kinds=('w',)):
    return [g for g in e.held if g.op == 'guard' and g.a[1] in kinds]

@rule('W01 W02 W03 W04 W05 K01')
def chunk_insert(cx):
    A, B = window(cx)
    i = cx.need('Chunk', 'insert')
    r = cx.good(i)
    self_, labels, tp = r.args[:3]
    ti, vi = tp_fields(cx)
    t, v = fld(tp, ti), fld(tp, vi)
    W = 'chunk::Chunk::insert'
    below, above = [(lt(A, B), 1), (lt(t, A), 1)], [(lt(A, B), 1), (lt(B, t), 1)]
    inside = [(lt(A, B), 1), (lt(t, A), 0), (lt(B, t), 0)]
    okin = 0
    for n, o in enumerate(r.rets):
        for nm, reg in (('before the start', below), ('after the end', above)):
            q = with_(o, reg)
            if q is None: continue
            cx.chk('W03', 'insert:out-of-window:refused', o.rk == 'err', W, 'a timestamp %s of the window is accepted' % nm)
            if o.rk == 'err' and o.p.op == 'adt' and o.p.a[0].endswith('MonolithErr'):
                cx.chk('W03', 'insert:out-of-window:error-kind', o.p.a[1] == 'OutOfRangeErr', W, 'a timestamp %s of the window is refused with %s' % (nm, o.p.a[1]))
            eff = evs(o, 'Storage::write_time_point', 'Indexer::create_index')
            cx.chk('W03', 'insert:out-of-window:no-effect', not eff, W, 'a timestamp %s of the window touches %s' % (nm, eff[0].name if eff else ''))
        for nm, reg in (('inside', [(lt(A, B), 1), (lt(A, t), 1), (lt(t, B), 1)]), ('at the start', [(lt(A, B), 1), (ieq(t, A), 1)]), ('at the end', [(lt(A, B), 1), (ieq(t, B), 1)])):
            q = with_(o, reg)
            if q is None: continue
            if o.rk == 'err':
                cx.chk('W01 W03', 'insert:in-window:admitted', bool(failing(o)), W, 'a timestamp %s of the window is refused although nothing failed (%s)' % (nm, show(o.p)))
        q = with_(o, inside)
        if q is None: continue
        ws = evs(o, 'Storage::write_time_point')
        lk = evs(o, 'Indexer::get_series_id_by_labels')
        ci = evs(o, 'Indexer::create_index')
        # isolation on every path
        prot = ws + lk + ci
        gs = None
        for e in prot:
            g = set(held_guard(e, ('w',)))
            cx.chk('K01', 'insert:locked:' + e.name, bool(g), where(r, e), '%s runs without the chunk write lock' % e.name)
            gs = g if gs is None else gs & g
        if prot: cx.chk('K01', 'insert:one-critical-section', bool(gs), W, 'the lock is released between lookup and write')
        if o.rk != 'ok': continue
        okin += 1
        if not cx.chk('W01 W02', 'insert:stored-once', len(ws) == 1 and ws[0] in o.ev, W, 'an insert is acknowledged after %d storage writes' % len(ws)): continue
        w = ws[0]
        cx.chk('W01', 'insert:write-result', ev_ok(o, w), where(r, w), 'the result of the storage write is not checked')
        cx.chk('W02 W01', 'insert:timestamp', same(w.args[2], t), where(r, w), 'stored timestamp is %s' % show(w.args[2]))
        cx.chk('W02 W01', 'insert:value', same(w.args[3], v), where(r, w), 'stored value is %s' % show(w.args[3]))
        if not cx.chk('W04', 'insert:lookup', len(lk) >= 1, W, 'no lookup of the label set before writing'): continue
        for l in lk:
            cx.chk('W04 W01', 'insert:lookup-labels', same(l.args[1], labels), where(r, l), 'the series is looked up under %s' % show(l.args[1]))
            cx.chk('W01 W04', 'insert:lookup-result', ev_ok(o, l), where(r, l), 'a failed index lookup is not reported')
        l = lk[-1]
        look = some_of(o.f, vf(l.res, 0, 0))
        sid = w.args[1]
        if look is None:
            cx.chk('W04 W05', 'insert:lookup-used', None if opaque(sid) else (False if not contains(sid, l.res) and not ci else None), where(r, w), 'the lookup result does not decide the series written')
        elif look[0] == 'some':
            cx.chk('W04', 'insert:existing-series', same(sid, look[1]), where(r, w), 'an existing label set is written to series %s' % show(sid))
            cx.chk('W04 W05', 'insert:no-second-index', not ci, W, 'an existing label set is indexed again')
        else:
            fresh = fresh_id(o, sid)
            cx.chk('W04', 'insert:fresh-id', fresh, where(r, w), 'a new label set gets id %s, which is not a new one from the generator' % show(sid))
            if cx.chk('W05 W04', 'insert:index-created', len(ci) == 1, W, 'a new series is written after %d index creations' % len(ci)):
                c = ci[0]
                cx.chk('W04 W05', 'insert:index-id', same(c.args[2], sid), where(r, c), 'indexed id %s, written id %s' % (show(c.args[2]), show(sid)))
                cx.chk('W04 W01', 'insert:index-labels', same(c.args[1], labels), where(r, c), 'the series is indexed under %s' % show(c.args[1]))
                cx.chk('W01 W05', 'insert:index-result', ev_ok(o, c), where(r, c), 'a failed index creation is not reported')
                idx = list(flat(o.ev))
                cx.chk('W05', 'insert:index-before-data', idx.index(c) < idx.index(w), where(r, w), 'the first point is stored before the series is indexed')
    cx.chk('W01 W03', 'insert:in-window:possible', okin >= 2, W, 'no path stores an in-window point')
    for o in r.rets:
        if o.rk == 'err':
            ws, ci = evs(o, 'Storage::write_time_point'), evs(o, 'Indexer::create_index')
            if ws and ci:
                idx = list(flat(o.ev))
                cx.chk('W05', 'insert:index-before-data', idx.index(ci[0]) < idx.index(ws[0]), where(r, ws[0]), 'the first point is stored before the series is indexed')
            for c in ci:
                if ev_err(o, c): cx.chk('W05', 'insert:no-data-after-failed-index', not any(e.name == 'Storage::write_time_point' for e in list(flat(o.ev))[list(flat(o.ev)).index(c):]), where(r, c), 'data is written although index creation failed')

RMW = {'Atomic::fetch_add': 1, 'Atomic::fetch_sub': 1}
def fresh_id(o, t):
    """True when t is a value an atomic generator hands out only once"""
    if opaque(t): return None
    rs = [x for x in subterms(t) if x.op == 'res' and x.a[0] in RMW]
    if rs:
        x = rs[0]
        d = sub(t, x)
        amt = x.a[1][1]
        if d.op == 'int' and amt.op == 'int': return amt.a[0] != 0
        return None
    ld = [x for x in subterms(t) if x.op == 'res' and x.a[0] in ('Atomic::load', 'Atomic::swap', 'Atomic::compare_and_swap', 'Atomic::compare_exchange')]
    if ld:
        # load then store, safe only inside the critical section
        st = evs(o, 'Atomic::store')
        le = [e for e in flat(o.ev) if e.res is ld[0]]
        if ld[0].a[0] == 'Atomic::load' and le and held_guard(le[0], ('w',)):
            return bool(st and st[0].args[0] is ld[0].a[1][0] and st[0].args[1] is not ld[0])
        return None
    if mentions(t, lambda x: x.op in ('res', 'app', 'content')): return None if mentions(t, lambda x: x.op == 'app') else False
    return False

@rule('W04')
def id_generator(cx):
    i = cx.need('IdGenerator', 'next')
    r = cx.good(i)
    for o in r.rets:
        at = [e for e in flat(o.ev) if e.name.startswith('Atomic::')]
        rmw = [e for e in at if e.name in RMW]
        if rmw and len(at) == 1:
            d = sub(o.v, rmw[0].res) if o.v is not None else None
            cx.chk('W04', 'id-generator:next', bool(rmw[0].args[1].op == 'int' and rmw[0].args[1].a[0] != 0 and d.op == 'int') if not opaque(o.v) else None, where(r), 'the id handed out is not the old value of an atomic increment')
        else:
            lk = any(held_guard(e, ('w',)) for e in at) if at else False
            plain = at and all(e.name in ('Atomic::load', 'Atomic::store') for e in at)
            cx.chk('W04', 'id-generator:next', False if (plain and not lk) or (not at and not opaque(o.v) and not o.ev) else None, where(r), 'ids are not allocated by one atomic step, two callers can get the same id')

def err_cause(o, cx, nf, oor):
    """explains an Err outcome: 'none' | event"""
    f = failing(o)
    return f[-1] if f else None

@rule('R04 R06 K01 R05')
def chunk_query(cx):
    A, B = window(cx)
    i = cx.need('Chunk', 'query')
    r = cx.good(i)
    self_, labels, qs, qe = r.args[:4]
    W = 'chunk::Chunk::query'
    OOR, NF = variant(cx, 'MonolithErr', 'OutOfRangeErr'), variant(cx, 'MonolithErr', 'NotFoundErr')
    TS = adt_fields(cx, 'TimeSeries')
    base = [(lt(B, A), 0), (lt(qe, qs), 0)]
    over = base + [(lt(B, qs), 0), (lt(qe, A), 0)]
    regs_no = [('after', base + [(lt(B, qs), 1)]), ('before', base + [(lt(qe, A), 1)])]
    nok = 0
    for o in r.rets:
        for nm, reg in regs_no:
            if with_(o, reg) is None: continue
            cx.chk('R04', 'query:no-overlap:refused', o.rk == 'err', W, 'a range entirely %s the window is answered' % nm)
            if o.rk == 'err' and o.p.op == 'adt' and o.p.a[0].endswith('MonolithErr'): cx.chk('R04', 'query:no-overlap:error-kind', o.p.a[1] == 'OutOfRangeErr', W, 'no overlap is reported as %s' % o.p.a[1])
        q = with_(o, over)
        gs = None
        prot = evs(o, 'Storage::read_time_series', 'Indexer::get_series_metadata_contains_labels', 'Indexer::get_series_id_contains_labels', 'Indexer::get_series_labels_by_id')
        for e in prot:
            g = set(held_guard(e, ('r', 'w')))
            cx.chk('K01', 'query:locked:' + e.name, bool(g), where(r, e), '%s runs without the chunk lock' % e.name)
            gs = g if gs is None else gs & g
        if prot: cx.chk('K01', 'query:one-critical-section', bool(gs), W, 'the lock is released between index lookup and reading')
        if q is None: continue
        if o.rk == 'err':
            fs = failing(o)
            if not cx.chk('R04', 'query:overlap:answered', bool(fs), W, 'an overlapping range is refused although nothing failed (%s)' % show(o.p)): continue
            for e in fs:
                if e.name == 'Storage::read_time_series':
                    for k, what in ((OOR, 'out of range'), (NF, 'not found')):
                        p = vf(e.res, 1, 0)
                        s = o.s.copy()
                        if opaque(p): continue
                        cx.chk('R04', 'query:empty-series-skipped', not s.f.assume_disc(p, k), where(r, e), 'a series without points in range (%s) makes the whole query fail' % what)
            continue
        # success
        nok += 1
        lk = evs(o, 'Indexer::get_series_metadata_contains_labels')
        if len(lk) != 1 or lk[0] not in o.ev:
            cx.chk('R04', 'query:index-lookup', False if not prot else None, W, 'the query is answered without asking the index'); continue
        l = lk[0]
        cx.chk('R04', 'query:index-labels', same(l.args[1], labels), where(r, l), 'the index is asked for %s' % show(l.args[1]))
        cx.chk('R06 R04', 'query:index-result', ev_ok(o, l), where(r, l), 'a failed index lookup yields a successful query')
        cands = vf(l.res, 0, 0)
        check_series_comp(cx, r, o, o.p, cands, qs, qe, TS, OOR, NF, W, A, B)
    cx.chk('R04', 'query:possible', nok >= 1, W, 'no path answers an overlapping query')

def check_series_comp(cx, r, o, val, cands, qs, qe, TS, OOR, NF, W, A, B):
    ps = parts(val)
    while len(ps) == 1 and ps[0].op in ('rev', 'sorted', 'sortby'): 
        val = ps[0].a[0]; ps = parts(val)
    if val is cands or (val.op == 'cat' and not val.a):
        cx.bad('R04', 'query:series-returned', W, 'the result is %s' % show(val)); return
    if len(ps) != 1 or ps[0].op != 'comp':
        if mentions(val, lambda x: x.op == 'prefix' and contains(x, cands)): cx.bad('R04 R06', 'query:all-candidates', W, 'the scan over the matching series stops early')
        else: cx.unk('R04 R06', 'query:series-returned', W, 'result shape ' + show(val)[:200])
        return
    src, cases = ps[0].a
    if src.op == 'rev': src = src.a[0]
    if src is not cands:
        if src.op == 'prefix' or (src.op == 'slice' and src.a[0] is cands): cx.bad('R04 R06', 'query:all-candidates', W, 'only a part of the matching series is read: %s' % show(src)[:200])
        else: cx.unk('R04 R06', 'query:all-candidates', W, 'source ' + show(src)[:200])
        return
    cx.ok('R04', 'query:all-candidates', W)
    e = el(cands)
    loops = [x for x in o.ev if x.kind == 'loop']
    reads = [x for x in flat(o.ev) if x.name == 'Storage::read_time_series']
    if not reads: cx.bad('R04', 'query:reads', W, 'no series is read'); return
    for x in reads:
        # (no point is older than the chunk)
        q_ = qs
        if len(x.args) > 2 and x.args[2] is not qs and x.args[2] is A and with_(o, [(lt(A, qs), 1)]) is None: q_ = A
        q2 = qe
        if len(x.args) > 3 and x.args[3] is not qe and x.args[3] is B and with_(o, [(lt(qe, B), 1)]) is None: q2 = None
        if q2 is None: cx.unk('R04', 'query:read-args', where(r, x), 'read up to the end of the chunk'); continue
        cx.chk('R04', 'query:read-args', same3(x.args[1:4], (fld(e, 0), q_, qe)), where(r, x), 'series are read with (%s)' % ', '.join(show(y) for y in x.args[1:4]))
    rd = reads[0].res
    data = vf(rd, 0, 0)
    for d, pp in cases:
        f = iter_facts(o, d)
        if f is None: continue
        def feasible(conds):
            g = f.copy()
            for kind, t, v in conds:
                if kind == 'd':
                    if not g.assume_disc(t, v): return False
                elif kind == 'dn':
                    for k in v:
                        if not g.exclude_disc(t, k): return False
                else:
                    if not g.assume(t, v): return False
            return True
        opq = any(opaque(x) for k, t, v in d for x in ([t] if isinstance(t, T) else [y for y, _ in t]))
        nonempty = [('d', rd, 0), ('b', lt(I(0), length(data)), 1)]
        badread = [('d', rd, 1), ('dn', vf(rd, 1, 0), (OOR, NF))]
        if not pp:
            cx.chk('R04 R06', 'query:series-with-points-kept', (None if opq else False) if feasible(nonempty) else True, W, 'a matching series with points in range is left out')
            cx.chk('R06 R04', 'query:read-failure-reported', (None if opq else False) if feasible(badread) else True, W, 'a series whose read failed is silently left out')
            continue
        cx.chk('R06', 'query:read-failure-reported', (None if opq else False) if feasible([('d', rd, 1)]) else True, W, 'a series whose read failed is returned')
        if len(pp) != 1 or pp[0].op != 'one':
            cx.chk('R04', 'query:once', False if all(x.op == 'one' for x in pp) else None, W, 'a matching series is returned %d times' % len(pp)); continue
        ts = pp[0].a[0]
        if ts.op != 'adt': cx.unk('R04', 'query:series-content', W, show(ts)[:200]); continue
        fv = {n: ts.a[4 + k] for n, k in TS.items()}
        for n, want in (('id', fld(e, 0)), ('meta_data', fld(e, 1)), ('data', data), ('time_points', data), ('metadata', fld(e, 1)), ('labels', fld(e, 1))):
            if n in fv: cx.chk('R04', 'query:series-' + n, same(fv[n], want), W, 'returned %s is %s' % (n, show(fv[n])[:200]))
        if feasible([('d', rd, 0), ('b', ieq(length(data), I(0)), 1)]): cx.chk('R04', 'query:empty-series-left-out', None if opq else False, W, 'a series without points in range is returned')

def same3(a, b):
    rs = [same(x, y) for x, y in zip(a, b)]
    if any(x is False for x in rs): return False
    return None if any(x is None for x in rs) else True

@rule('K01')
def chunk_same_lock(cx):
    locks = {}
    for m in ('insert', 'query'):
        r = cx.good(cx.need('Chunk', m))
        ls = set()
        for o in r.rets:
            for e in flat(o.ev):
                if e.name in FALLIBLE: ls.add(frozenset(g.a[0] for g in e.held if g.op == 'guard'))
        locks[m] = ls
    common = None
    for m in locks:
        for s in locks[m]: common = s if common is None else common & s
    cx.chk('K01', 'chunk:same-lock', bool(common), 'chunk::Chunk', 'inserts and queries do not hold a common lock: insert %s query %s' % tuple('|'.join(','.join(map(show, s)) for s in locks[m]) for m in ('insert', 'query')))

@rule('R04 R05')
def overlap_test(cx):
    A, B = window(cx)
    i = cx.need('Chunk', 'is_with_range')
    r = cx.good(i)
    qs, qe = r.args[1:3]
    base = [(lt(B, A), 0), (lt(qe, qs), 0)]
    check_bool(cx, r, 'R04 R05', 'overlap', [
        ('range before the window', base + [(lt(qe, A), 1)], 0), ('range after the window', base + [(lt(B, qs), 1)], 0),
        ('range ends at the start', base + [(ieq(qe, A), 1)], 1), ('range starts at the end', base + [(ieq(qs, B), 1)], 1),
        ('range inside', base + [(lt(A, qs), 1), (lt(qe, B), 1)], 1), ('range around the window', base + [(lt(qs, A), 1), (lt(B, qe), 1)], 1),
        ('range over the start', base + [(lt(qs, A), 1), (lt(A, qe), 1), (lt(qe, B), 1)], 1), ('range over the end', base + [(lt(A, qs), 1), (lt(qs, B), 1), (lt(B, qe), 1)], 1)])
    i = cx.find(None, 'is_duration_overlap')
    if i:
        r = cx.good(i)
        a, b, c, d = r.args[:4]
        base = [(lt(b, a), 0), (lt(d, c), 0)]
        check_bool(cx, r, 'R04 R05', 'is_duration_overlap', [
            ('second before first', base + [(lt(d, a), 1)], 0), ('second after first', base + [(lt(b, c), 1)], 0),
            ('overlap', base + [(lt(d, a), 0), (lt(b, c), 0)], 1)])

def check_bool(cx, r, tags, key, cases, neg=False):
    """boolean function: in each region the value must be the given one"""
    for nm, reg, want in cases:
        bad = None
        undec = False
        for o in r.rets:
            q = with_(o, reg)
            if q is None: continue
            fs = q.f.cases(o.v, 1 - want)
            if fs:
                if opaque(o.v) or any(opaque(x) for x in q.f.b): undec = True
                else: bad = fs
        cx.chk(tags, '%s:%s' % (key, nm), False if bad else None if undec else True, r.inst['path'], '%s: can be %s' % (nm, 'false' if want else 'true'))

@rule('W04 D06 W03')
def chunk_new(cx):
    """the window of a new chunk is the one in its options"""
    i = cx.need('Chunk', 'new')
    r = cx.good(i)
    opts = r.args[2]
    F = adt_fields(cx, 'ChunkOpts')
    A, B = window(cx)
    si, ei = A.a[1], B.a[1]
    if A.op != 'fld' or B.op != 'fld': raise Undecided('window representation')
    so, eo = fld(opts, F['start_time']), fld(opts, F['end_time'])
    for o in r.rets:
        if o.v.op != 'adt': cx.unk('D06', 'chunk-new', where(r), show(o.v)[:100]); continue
        if o.f.d.get(so) == 1: cx.chk('D06 W03 D03', 'chunk-new:start', same(fld(o.v, si), vf(so, 1, 0)), where(r), 'window start is %s' % show(fld(o.v, si)))
        if o.f.d.get(eo) == 1: cx.chk('D06 W03 D03', 'chunk-new:end', same(fld(o.v, ei), vf(eo, 1, 0)), where(r), 'window end is %s' % show(fld(o.v, ei)))
        cx.chk('D06', 'chunk-new:storage-indexer', same(fld(o.v, 0), r.args[0]) is not None, where(r))

@rule('D03 D06')
def clock(cx):
    """time is counted in milliseconds since the epoch, as the samples' is"""
    i = cx.need(None, 'get_current_timestamp')
    r = cx.run(i)
    for o in r.rets:
        v = o.v
        while v.op == 'wrap': v = v.a[0]
        k = str(v.a[0]) if v.op == 'app' else ''
        since = k.startswith('Duration::as_') and len(v.a) == 2 and mentions(v.a[1], lambda t: t.op in ('res', 'app') and t.a[0] == 'SystemTime::duration_since')
        c = None
        if since: c = True if k == 'Duration::as_millis' else False if k in ('Duration::as_secs', 'Duration::as_micros', 'Duration::as_nanos') and not r.unmod else None
        cx.chk('D03 D06', 'clock:milliseconds', c, where(r), 'the present time is counted by %s' % k)

@rule('D03 K01 D06')
def chunk_close(cx):
    c = cx.good(cx.need('Chunk', 'close'))
    q = cx.good(cx.need('Chunk', 'is_closed'))
    for o in c.rets:
        st = [e for e in flat(o.ev) if e.name in ('Atomic::store', 'Atomic::swap', 'Atomic::fetch_or')]
        rd = [e for oo in q.rets for e in flat(oo.ev) if e.name == 'Atomic::load']
        cx.chk('D03 D06', 'chunk-close:flag', bool(st and rd and st[0].args[0] is rd[0].args[0] and st[0].args[1] is TRUE) if st or not o.ev else None, where(c), 'close does not set the flag is_closed reads')
        cx.chk('K01', 'chunk-close:locked', bool(not st or held_guard(st[0], ('w',))), where(c), 'the chunk is closed while inserts run')
