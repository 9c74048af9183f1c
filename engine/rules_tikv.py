"""Key spaces of the components that share the TiKV store."""
from rulebase import *
from rules_chunk import adt_fields, with_, same3, failing
from rules_common import fact_terms_of, trait_impls
from rules_dir import eqt

TK = frozenset()
NEWID = 'Uuid::new_v4'

def fresh(t): return t.op == 'uuid' and t.a[0].op == 'res' and t.a[0].a[0] == NEWID
def plain_(o): return not any(opaque(t) for t in fact_terms_of(o.f.items()))
def blen(t):
    """known byte length"""
    l = length(t)
    return l.a[0] if is_int(l) else 16 if t.op == 'uuid' else None

def halves(v, id_, old):
    """(half that is the id, does the other half keep the old record) or None when unknown"""
    # a record is 32 bytes long
    ps = [p for p in parts(v) if not (p.op == 'slice' and p.a[0] is old and is_int(p.a[1]) and p.a[1].a[0] >= 32)]
    if not any(p is id_ for p in ps): return None if opaque(v) else ('none', False)
    k = [n for n, p in enumerate(ps) if p is id_]
    if len(k) != 1: return ('twice', False)
    def size(p):
        if p.op == 'slice' and is_int(p.a[1]) and is_int(p.a[2]): return p.a[2].a[0] - p.a[1].a[0]
        return blen(p)
    before, after = ps[:k[0]], ps[k[0] + 1:]
    def keep(ps_, a, b):
        """ps_ is old[a..b]"""
        if old is None:
            n = [size(p) for p in ps_]
            if None in n: return None
            return sum(n) == 16
        if len(ps_) != 1: return None if any(opaque(p) for p in ps_) or len(ps_) > 1 else False
        p = ps_[0]
        if p.op == 'slice' and p.a[0] is old:
            lo = p.a[1].a[0] if is_int(p.a[1]) else None
            hi = p.a[2].a[0] if is_int(p.a[2]) else (32 if p.a[2] is length(old) or p.a[2].op == 'end' or not is_int(p.a[2]) else None)
            if lo is None: return None
            return (lo, hi) == (a, b)
        return None if opaque(p) else False
    if not before: return (0, keep(after, 16, 32))
    if not after: return (1, keep(before, 0, 16))
    return ('middle', False)

def registration(cx):
    """{flag: half the fresh identifier of a component is recorded in}"""
    ims = [i for i in cx.db.local if not i['closure'] and i['path'].split('::')[-1] == 'init_component']
    if not ims: raise Undecided('init_component not found')
    out = {}
    for i in ims:
        r = cx.good(i, TK)
        W = where(r)
        self_, key, flag = r.args[:3]
        nok = {0: 0, 1: 0}
        for o0 in r.rets:
            for fv in (0, 1):
                o = with_(o0, [(flag, fv)])
                if o is None: continue
                o.ev, o.v, o.rk, o.p = o0.ev, o0.v, o0.rk, o0.p
                nm = 'indexer' if fv else 'storage'
                if o.rk == 'err':
                    cx.chk('D05', 'register:answered', True if failing(o) else None if not plain_(o) or o.f.z or o.f.b else False, W, 'a registration fails although nothing failed'); continue
                nok[fv] += 1
                for e in evs(o, 'TiKvRawBackend::get', 'TiKvRawBackend::set'):
                    cx.chk('D05', 'register:failure-reported', True if ev_ok(o, e) else None if not plain_(o) else False, where(r, e), 'a registration succeeds although the store failed')
                sets = evs(o, 'TiKvRawBackend::set')
                if not cx.chk('D05', 'register:recorded', True if len(sets) == 1 else None if len(sets) > 1 else False, W, 'an identifier is handed out that is not recorded'): continue
                st = sets[0]
                cx.chk('D05', 'register:key', same(st.args[1], key), where(r, st), 'recorded under %s' % show(st.args[1])[:80])
                id_ = o.p
                if not cx.chk('D05', 'register:fresh', True if fresh(id_) else None if opaque(id_) or id_.op == 'app' else False, W, 'the identifier handed out is %s' % show(id_)[:120]): continue
                gets = [e for e in evs(o, 'TiKvRawBackend::get') if e.args[1] is key]
                for present in (0, 1):
                    old = None
                    if gets:
                        opt = vf(gets[0].res, 0, 0)
                        f = o.f.copy()
                        if not f.assume_disc(opt, present): continue
                        old = vf(opt, 1, 0) if present else None
                    elif present: cx.bad('D05', 'register:keeps-other', where(r, st), 'the record of the chunk is overwritten without reading it'); continue
                    h = halves(st.args[2], id_, old)
                    if h is None: cx.unk('D05', 'register:position', where(r, st), show(st.args[2])[:120]); continue
                    if not cx.chk('D05', 'register:position', h[0] in (0, 1), where(r, st), 'the record of a chunk becomes %s' % show(st.args[2])[:160]): continue
                    out.setdefault(fv, set()).add(h[0])
                    cx.chk('D05', 'register:keeps-other', h[1], where(r, st), 'registering the %s turns the record into %s' % (nm, show(st.args[2])[:160]))
        for o in r.panics:
            # a stored record shorter than two identifiers is not ours
            cx.chk('D05', 'register:no-panic', True if any(mentions(t, lambda x: x.op == 'len') for t in fact_terms_of(o.f.items())) else None, W, 'a registration can panic')
        for fv in (0, 1): cx.chk('D05', 'register:possible', nok[fv] >= 1 or None, W, 'no %s can be registered' % ('indexer' if fv else 'storage'))
    return out

@rule('D05')
def shared_store(cx):
    half = registration(cx)
    for fv in (0, 1):
        if len(half.get(fv, ())) != 1: cx.chk('D05', 'register:one-position', None if not half.get(fv) else False, '', 'an identifier is recorded in changing positions'); return
    half = {k: list(v)[0] for k, v in half.items()}
    cx.chk('D05', 'register:own-position', half[0] != half[1], 'init_component', 'storage and indexer are recorded in the same half of the record')
    flags = {}
    CO = adt_fields(cx, 'ChunkOpts')
    for ty in ('TiKvStorage', 'TiKvIndexer'):
        F = adt_fields(cx, ty)
        i = cx.need(ty + 'Builder', 'build', 'Builder')
        r = cx.good(i, TK)
        W = where(r)
        opts = vf(r.args[2], 1, 0)
        chunkid = fld(opts, CO['identifier'])
        idf = [n for f, n in F.items() if f not in ('client', 'chunk_identifier')]
        nok = 0
        for o in r.rets:
            if o.rk == 'err': continue
            v = o.p
            ie = evs(o, 'TiKvRawBackend::init_component')
            if not cx.chk('D05', ty + ':registered', True if len(ie) == 1 else None if ie or not plain_(o) else False, W, 'a component is built without registering it'): continue
            e = ie[0]
            nok += 1
            cx.chk('D05', ty + ':register-result', ev_ok(o, e), where(r, e), 'a component is built although its registration failed')
            cx.chk('D05', ty + ':register-key', True if same(e.args[1], chunkid) else None if opaque(e.args[1]) or e.args[1].op == 'ite' else False, where(r, e), 'registered under %s' % show(e.args[1])[:80])
            if is_int(e.args[2]): flags.setdefault(ty, set()).add(e.args[2].a[0])
            else: cx.unk('D05', ty + ':kind', where(r, e), show(e.args[2]))
            if v.op != 'adt': cx.unk('D05', ty + ':identifier', W, show(v)[:120]); continue
            idv = vf(e.res, 0, 0)
            using = [n for n in idf if fld(v, n) is idv]
            cx.chk('D05', ty + ':identifier', True if using else None if any(opaque(fld(v, n)) for n in idf) else False, W, 'a component is built with the identifier %s' % ', '.join(show(fld(v, n))[:80] for n in idf))
            if 'chunk_identifier' in F: cx.chk('D05', ty + ':chunk-identifier', same(fld(v, F['chunk_identifier']), chunkid), W, 'chunk identifier %s' % show(fld(v, F['chunk_identifier']))[:80])
        cx.chk('D05', ty + ':build-possible', nok >= 1 or None, W, 'no component is built')
    if all(len(flags.get(t, ())) == 1 for t in ('TiKvStorage', 'TiKvIndexer')):
        fl = {t: list(flags[t])[0] for t in flags}
        cx.chk('D05', 'register:kinds-differ', fl['TiKvStorage'] != fl['TiKvIndexer'], 'TiKvStorageBuilder::build', 'storage and indexer register as the same component')
    else: cx.unk('D05', 'register:kinds-differ', '', 'flags'); fl = {}
    # reopening reads the half that was written
    for ty in ('TiKvStorage', 'TiKvIndexer'):
        F = adt_fields(cx, ty)
        idf = [n for f, n in F.items() if f not in ('client', 'chunk_identifier')]
        i = cx.need(ty + 'Builder', 'read_from_chunk', 'Builder')
        r = cx.good(i, TK)
        W = where(r)
        chunkid = fld(vf(r.args[2], 1, 0), CO['identifier'])
        nsome = 0
        for o in r.rets:
            gets = evs(o, 'TiKvRawBackend::get')
            if o.rk == 'err':
                cx.chk('D05', ty + ':reopen-answered', True if failing(o) or any(k == 1 for k in o.f.d.values()) else None if not plain_(o) or o.f.d or o.f.b or o.f.z else False, W, 'reopening fails although nothing failed'); continue
            so = some_of(o.f, o.p)
            for g in gets:
                cx.chk('D05 D03', ty + ':reopen-read-result', True if ev_ok(o, g) else None if not plain_(o) else False, where(r, g), 'a failed read of the record is taken for a chunk without one')
            if so is None: cx.unk('D05', ty + ':reopen', W, show(o.p)[:100]); continue
            if so[0] == 'none':
                got = [g for g in gets if o.f.d.get(vf(g.res, 0, 0)) == 1]
                cx.chk('D05 D03', ty + ':reopen-recorded', None if not plain_(o) or o.f.z else False if got and not o.f.b else True, W, 'a chunk with a record is not reopened'); continue
            nsome += 1
            v = so[1]
            if v.op != 'adt': cx.unk('D05', ty + ':reopen-identifier', W, show(v)[:100]); continue
            if evs(o, 'TiKvRawBackend::init_component', 'TiKvRawBackend::set'): cx.bad('D05', ty + ':reopen-identifier', W, 'reopening changes the record of the chunk'); continue
            if not gets: cx.chk('D05', ty + ':reopen-identifier', None if opaque(v) else False, W, 'reopened with %s, without reading the record' % ', '.join(show(fld(v, n))[:60] for n in idf)); continue
            g = gets[0]
            cx.chk('D05', ty + ':reopen-key', same(g.args[1], chunkid), where(r, g), 'the record is read from %s' % show(g.args[1])[:80])
            cx.chk('D05', ty + ':reopen-chunk-identifier', same(fld(v, F['chunk_identifier']), chunkid) if 'chunk_identifier' in F else True, W, 'chunk identifier %s' % show(fld(v, F['chunk_identifier']))[:80] if 'chunk_identifier' in F else '')
            rec = vf(vf(g.res, 0, 0), 1, 0)
            x = fld(v, idf[0]) if len(idf) == 1 else next((fld(v, n) for n in idf if contains(fld(v, n), rec)), None)
            if x is None or ty not in fl: cx.unk('D05', ty + ':reopen-identifier', W, 'fields'); continue
            want = half[fl[ty]]
            c = None
            if x.op == 'slice' and x.a[0] is rec and is_int(x.a[1]):
                lo = x.a[1].a[0]
                hi = x.a[2].a[0] if is_int(x.a[2]) else 32
                c = (lo, hi) == (16 * want, 16 * want + 16)
            elif not opaque(x): c = False if x is rec or not contains(x, rec) else None
            cx.chk('D05', ty + ':reopen-identifier', c, W, 'a component registered in half %d of the record is reopened with %s' % (want, show(x)[:100]))
        never = nsome == 0 and len(r.rets) > 0 and all(o.rk == 'err' or plain_(o) and (some_of(o.f, o.p) or ('?',))[0] == 'none' for o in r.rets) and not any(evs(o, 'TiKvRawBackend::get') for o in r.outs)
        cx.chk('D05 D03', ty + ':reopen-possible', True if nsome >= 1 else False if never else None, W, 'no component is reopened')
        # every key starts with the identifier
        key_prefix(cx, ty, idf)

def key_prefix(cx, ty, idf):
    ms = {'TiKvStorage': ('write_time_point', 'read_time_series'), 'TiKvIndexer': ('create_index', 'get_series_id_by_labels', 'get_series_with_label_matching', 'get_series_to_label_by_series_ids')}
    n = 0
    for i in cx.db.local:
        if i['closure'] or not i['iself'] or last_seg(i['iself']) != ty or not i['itrait'] or last_seg(i['itrait']) not in ('Storage', 'Indexer'): continue
        try: r = cx.good(i, TK)
        except Undecided: continue
        for o in r.rets:
            for e in evs(o, 'TiKvRawBackend::get', 'TiKvRawBackend::set'):
                k = e.args[1]
                ps = list(parts(k))
                ok_ = bool(ps) and any(ps[0] is fld(r.args[0], m) for m in idf) and len(ps) > 1
                n += 1
                # a part of the random identifier is not unique, all of it is elsewhere in the key
                cutid = bool(ps) and ps[0].op == 'slice' and any(ps[0].a[0] is fld(r.args[0], m) for m in idf)
                if cutid and is_int(ps[0].a[1]) and is_int(ps[0].a[2]):
                    lo_, hi_ = ps[0].a[1].a[0], ps[0].a[2].a[0]
                    ok_ = lo_ == 0 and hi_ >= 16
                    cx.chk('D05', ty + ':key-prefix', ok_, where(r, e), 'a key of the %s starts with %d bytes of its identifier' % (ty, hi_ - lo_)); continue
                whole = any(p is fld(r.args[0], m) for p in ps[1:] for m in idf)
                cx.chk('D05', ty + ':key-prefix', True if ok_ else None if whole or opaque(k) or not ps or ps[0].op not in ('fld', 'lit', 'be', 'le', 'dec', 'sym', 'join', 'vf') else False, where(r, e), 'a key of the %s is %s' % (ty, show(k)[:140]))
    cx.chk('D05', ty + ':keys', n >= 2 or None, '', 'no keys')

@rule('D05')
def chunk_identifier(cx):
    """every new chunk has its own identifier"""
    CO = adt_fields(cx, 'ChunkOpts')
    i = cx.find('ChunkOpts', 'default', 'Default')
    if i is not None:
        r = cx.good(i, TK)
        for o in r.rets:
            v = o.v
            if v.op != 'adt': cx.unk('D05', 'chunk-identifier:fresh', where(r), show(v)[:80]); continue
            x = fld(v, CO['identifier'])
            c = True if mentions(x, fresh) else None if opaque(x) or x.op == 'app' else False
            cx.chk('D05', 'chunk-identifier:fresh', c, where(r), 'new chunk options have the identifier %s' % show(x)[:80])

@rule('D05 W02')
def raw_client(cx):
    """the real backend passes keys, values and failures through"""
    for m, nm in (('set', 'RawClient::put'), ('get', 'RawClient::get')):
        for i in trait_impls(cx, 'TiKvRawBackendImpl', m, 'TiKvRawBackend'):
            r = cx.good(i, TK)
            W = where(r)
            for o in r.rets:
                l = evs(o, nm)
                if o.rk == 'err': cx.chk('D05 W02', 'client:%s-answered' % m, True if failing(o) else None, W, 'fails'); continue
                if not cx.chk('D05 W02', 'client:%s-done' % m, True if len(l) == 1 else None if not plain_(o) or l else False, W, 'a %s succeeds without asking the store' % m): continue
                e = l[0]
                cx.chk('D05 W02', 'client:%s-result' % m, ev_ok(o, e), where(r, e), 'a failed %s is not reported' % m)
                cx.chk('D05 W02', 'client:%s-key' % m, same(e.args[1], r.args[1]), where(r, e), 'the key used is %s' % show(e.args[1])[:80])
                if m == 'set': cx.chk('D05 W02', 'client:set-value', same(e.args[2], r.args[2]), where(r, e), 'the value stored is %s' % show(e.args[2])[:80])
                else:
                    opt = vf(e.res, 0, 0)
                    so = some_of(o.f, o.p)
                    if so is None: cx.chk('D05 W02', 'client:get-value', True if o.p is opt else None, W, show(o.p)[:80]); continue
                    k = o.f.d.get(opt)
                    if so[0] == 'none': cx.chk('D05 W02', 'client:get-value', True if k == 0 else None if not plain_(o) else False, W, 'a stored value is not returned')
                    else: cx.chk('D05 W02', 'client:get-value', same(so[1], vf(opt, 1, 0)), W, 'the value returned is %s' % show(so[1])[:80])
