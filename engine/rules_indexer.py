"""Index backends: what indexing writes, what lookups read."""
from rulebase import *
from rules_chunk import adt_fields, failing, with_, same3
from rules_db import walk

BACK = {'SledIndexer': dict(get='Tree::get', set=('Tree::set', 'Tree::insert'), has='Tree::contains_key', flush=('Tree::flush', 'Db::flush'), id='u64'),
        'TiKvIndexer': dict(get='TiKvRawBackend::get', set=('TiKvRawBackend::set',), has=None, flush=())}
INTER = '::intersect_time_series_id_vec'

def key_of(e): return e.args[1]

def label_elem(t, labels):
    """terms el(X).i with X the label list in some order -> the list terms X"""
    return [x.a[0] for x in subterms(t) if x.op == 'el' and contains(x.a[0], labels)]

def family(key, labels, sid):
    """which mapping does a key belong to: 'set' (full label set), 'label' (one label), 'id'"""
    if mentions(key, lambda t: t.op == 'join' and contains(t, labels)): return 'set'
    if mentions(key, lambda t: t.op in ('fold', 'comp', 'hdr') and contains(t, labels)): return 'set'
    if label_elem(key, labels): return 'label'
    if sid is not None and contains(key, sid): return 'id'
    return None

def split_key(key):
    """(leading own identifier parts, literal prefix, rest parts)"""
    ps = list(parts(key))
    own = []
    while ps and (ps[0].op in ('fld', 'sym', 'vf') or ps[0].op == 'slice' and ps[0].a[0].op in ('fld', 'sym', 'vf')): own.append(ps.pop(0))
    if ps and ps[0].op == 'lit': return own, ps[0].a[0], ps[1:]
    return own, b'', ps

class Enc(object): pass

def encodings(cx, ty):
    """the three mappings as create_index writes them"""
    B = BACK[ty]
    r = cx.good(cx.need(ty, 'create_index', 'Indexer'))
    L = adt_fields(cx, 'Label')
    E = Enc()
    E.r, E.labels, E.sid = r, r.args[1], r.args[2]
    E.list = fld(E.labels, 0)
    E.set = E.label = E.id = None
    E.outs = []
    for o in r.rets:
        w = []
        for e, loops in walk(o.ev):
            if e.name in B['set']: w.append((e, loops, family(key_of(e), E.labels, E.sid)))
        E.outs.append((o, w))
        if o.rk != 'ok': continue
        for e, loops, f in w:
            if f == 'set' and E.set is None: E.set = e
            if f == 'label' and E.label is None: E.label = e
            if f == 'id' and E.id is None: E.id = e
    return E

def known(o, loops):
    """facts of an outcome refined by the loop path an event sits on; None when contradictory"""
    f = o.f.copy()
    for lr, d in loops:
        if not apply_facts(f, d): return None
    return f

def res(f, e): return f.d.get(e.res) if e.res is not None else None

def create(cx, ty):
    B = BACK[ty]
    P = ty + ':'
    E = encodings(cx, ty)
    r = E.r
    W = where(r)
    L = adt_fields(cx, 'Label')
    nok = 0
    if any(e.name in ('Tree::merge', 'Tree::cas', 'Tree::update_and_fetch', 'Tree::fetch_and_update', 'Tree::batch', 'Tree::apply_batch', 'Tree::transaction') for o in r.rets for e in flat(o.ev)): raise Undecided('index written with an operation without model')
    for o, w in E.outs:
        l = list(flat(o.ev))
        pos = lambda e: next(k for k, x in enumerate(l) if x is e)
        byf = {k: [x for x in w if x[2] == k] for k in ('set', 'label', 'id')}
        # the marker is written after everything else, on every path
        for e, loops, f in byf['set']:
            for e2, loops2, f2 in w:
                if f2 in ('label', 'id'):
                    cx.chk('W05', P + 'marker-last', pos(e2) < pos(e), where(r, e), 'the mapping that makes the series count as existing is written before its %s entries' % ('label' if f2 == 'label' else 'id'))
                    if pos(e2) < pos(e) and not loops2 and ev_err(o, e2): cx.bad('W05', P + 'marker-after-failure', where(r, e), 'the series is marked as existing although another entry could not be written')
                if f2 in ('label', 'id') and loops2 and pos(e2) < pos(e):
                    f = known(o, loops2)
                    if f is not None and res(f, e2) != 0: cx.bad('W05 W01', P + 'marker-after-failure', where(r, e), 'the series is marked as existing although a label entry could not be written')
        if o.rk != 'ok': continue
        nok += 1
        und = opaque_facts(o)
        done = False
        if not byf['set']:
            cx.chk('W05 W06', P + 'complete', None if any(f is None for _, _, f in w) else False, W, 'success without the label set mapping'); continue
        for k, what in (('set', 'label set to id'), ('id', 'id to label set')):
            if not byf[k]:
                cx.chk('W05 W06', P + 'complete', None if any(f is None for _, _, f in w) else False, W, 'success without writing the %s mapping' % what); continue
            for e, loops, _ in byf[k]:
                if loops: cx.unk('W05', P + 'complete', where(r, e), 'written in a loop'); continue
                cx.chk('W05 W01', P + 'write-result', ev_ok(o, e), where(r, e), 'a failed write of the %s mapping is not reported' % what)
        # per label
        lp = [x for x in o.ev if x.kind == 'loop' and any(e.name in B['set'] for d, es, vs in x.x.paths for e in flat(es))]
        if not lp:
            empty = o.f.rel(length(E.list), I(0))
            cx.chk('W05 W06', P + 'complete', True if empty == (0, 0) else None if any(f is None for _, _, f in w) or byf['label'] else False, W, 'success without writing the label to ids mappings')
        for x in lp:
            src = x.x.src
            per = perm_of(src, E.list)
            if per is False: cx.bad('W05 W06', P + 'every-label', where(r), 'only a part of the labels is indexed: %s' % show(src)[:120])
            elif per is None: cx.unk('W05 W06', P + 'every-label', where(r), 'loop over ' + show(src)[:120])
            else: cx.chk('W05 W06', P + 'every-label', not x.x.partial, where(r), 'indexing stops before the last label and still succeeds')
            for d, es, vs in x.x.paths:
                f = o.f.copy()
                if not apply_facts(f, d): continue
                sets = [e for e in flat(es) if e.name in B['set']]
                gets = [e for e in flat(es) if e.name == B['get']]
                if len(sets) != 1:
                    cx.chk('W05 W06', P + 'every-label', None if any(opaque(t) for k, t, v in d if isinstance(t, T)) else False, where(r), 'a label is indexed with %d writes' % len(sets)); continue
                st = sets[0]
                cx.chk('W05 W01', P + 'write-result', res(f, st) == 0, where(r, st), 'a failed write of a label to ids mapping is not reported')
                if family(key_of(st), E.labels, E.sid) != 'label':
                    cx.unk('W06', P + 'label-key', where(r, st), 'key ' + show(key_of(st))[:120]); continue
                g = [e for e in gets if same(key_of(e), key_of(st)) is True]
                if not g:
                    if gets: cx.chk('W06', P + 'keeps-ids', same(key_of(gets[-1]), key_of(st)), where(r, st), 'ids are read from %s and written to %s' % (show(key_of(gets[-1]))[:80], show(key_of(st))[:80]))
                    else: cx.bad('W06', P + 'keeps-ids', where(r, st), 'the ids of a label are overwritten without reading them')
                    continue
                g = g[-1]
                cx.chk('W05 W06 W01', P + 'read-result', res(f, g) == 0, where(r, g), 'a failed read of the ids of a label is taken for no ids')
                pv = some_of(f, vf(g.res, 0, 0))
                v = st.args[2]
                if pv is None: cx.unk('W06', P + 'keeps-ids', where(r, st), 'previous ids not distinguished'); continue
                if pv[0] == 'none':
                    cx.chk('W06 W05', P + 'first-id', True if id_enc(v, E.sid) else (None if opaque(v) else False), where(r, st), 'the first id of a label is stored as %s' % show(v)[:100])
                    E.one = v
                elif empty_entry(f, pv[1]): continue      # a stored list is never empty
                else:
                    ps = list(parts(v))
                    old = raw_of(ps[0]) if ps else None
                    if old is not pv[1] or len(ps) < 2:
                        cx.chk('W06', P + 'keeps-ids', None if opaque(v) else False, where(r, st), 'the new id list is %s instead of the previous ids followed by the new one' % show(v)[:160]); continue
                    cx.chk('W06', P + 'keeps-ids', True if id_enc(cat(*[wrapp(p) for p in ps[1:]]), E.sid, sep=True) else (None if opaque(v) else False), where(r, st), 'appended to the ids of a label: %s' % show(cat(*[wrapp(p) for p in ps[1:]]))[:120])
                    E.more = (ps[0], ps[1:])
        # values of the other two mappings
        if byf['set']:
            v = byf['set'][0][0].args[2]
            cx.chk('W06 W04', P + 'set-value', True if id_enc(v, E.sid) else None if opaque(v) else False, W, 'a label set is mapped to %s' % show(v)[:120])
        # durable
        if B['flush']:
            fl = [e for e in o.ev if e.name in B['flush']]
            last_set = max(pos(e) for e, _, _ in w)
            okf = [e for e in fl if pos(e) > last_set]
            if not okf: cx.bad('W05', P + 'durable', W, 'success is reported before the index entries are flushed to disk')
            else: cx.chk('W05', P + 'durable', any(ev_ok(o, e) for e in okf), where(r, okf[-1]), 'a failed flush is not reported')
    cx.chk('W01 W05', P + 'create-possible', nok >= 1, W, 'no path creates an index')
    keys(cx, ty, E, L)
    return E

def opaque_facts(o):
    return any(opaque(x) for k, t, v in o.f.items() for x in ([t] if isinstance(t, T) else [y for y, _ in t]))

def wrapp(p): return mk('cat', p) if p.op in ('lit', 'one') else p

def raw_of(p):
    """bytes a text was decoded from"""
    if p.op == 'vf' and p.a[0].op == 'app' and p.a[0].a[0] in ('from_utf8',): return p.a[0].a[1]
    return p

def empty_entry(f, raw):
    for k, t, v in f.items():
        for x in ([t] if isinstance(t, T) else [a for a, _ in t]):
            for c in subterms(x):
                if c.op == 'len' and raw_of(c.a[0]) is raw and f.rel(c, I(0)) == (0, 0): return True
    return f.rel(length(raw), I(0)) == (0, 0)

def id_enc(v, sid, sep=False):
    ps = list(parts(v))
    if sep and ps and ps[0].op == 'lit': ps = ps[1:]
    if len(ps) != 1: return False
    p = ps[0]
    return (p.op == 'dec' and p.a[0] is sid) or (p.op in ('be', 'le') and p.a[0] == 8 and p.a[1] is sid)

def perm_of(src, lst):
    """is src the label list, possibly reordered or mapped one to one: True/False/None"""
    for _ in range(6):
        if src is lst: return True
        if src.op in ('sorted', 'rev'): src = src.a[0]; continue
        if src.op == 'comp' and len(src.a[1]) >= 1 and all(len(p) == 1 and p[0].op == 'one' for d, p in src.a[1]): src = src.a[0]; continue
        if src.op == 'comp' and any(len(p) == 0 for d, p in src.a[1]): return None if any(opaque(t) for d, p in src.a[1] for k, t, v in d if isinstance(t, T)) else False
        if src.op in ('slice', 'prefix') : return False if contains(src, lst) else None
        if src.op == 'enum': src = src.a[0]; continue
        return None
    return None

def keys(cx, ty, E, L):
    P = ty + ':'
    r = E.r
    W = where(r)
    if E.set is None or E.label is None or E.id is None: return
    ks, kl, ki = key_of(E.set), key_of(E.label), key_of(E.id)
    # order of the labels does not matter
    free = [x for x in subterms(ks) if x.op in ('join', 'comp', 'fold') and contains(x, E.list)]
    srt = None
    for x in free:
        base = x.a[0]
        while base.op in ('comp', 'rev') and base is not E.list: base = base.a[0]
        if base is E.list: srt = False if x.op == 'join' and srt is None else srt
        elif base.op == 'sorted' and base.a[0] is E.list:
            k = base.a[1]
            whole = isinstance(k, T) and (k is mk('sym', 'sa') or k is fld(mk('sym', 'sa'), L['key']) or (k.op == 'tup' and any(y is fld(mk('sym', 'sa'), L['key']) for y in k.a)))
            only_val = isinstance(k, T) and k is fld(mk('sym', 'sa'), L['value'])
            size = isinstance(k, T) and k.op == 'len' and k.a[0] in (fld(mk('sym', 'sa'), L['key']), fld(mk('sym', 'sa'), L['value']))
            srt = True if whole else False if only_val or size else None
        break
    cx.chk('W04', P + 'order-free', srt, W, 'the same labels in another order give another key')
    # label sets and labels are written injectively
    inj = None
    for x in free:
        if x.op == 'join':
            e = el(x.a[0])
            inj = pair_ok(x.a[1], e, L)
            if not inj: cx.chk('W04 W06', P + 'set-key-parts', inj, W, 'a label is written into the key of its set as %s' % show(x.a[1])[:100])
            else: cx.ok('W04 W06', P + 'set-key-parts', W)
            sep = x.a[2]
            s = sep.a[0].a[0] if sep.op == 'cat' and len(sep.a) == 1 and sep.a[0].op == 'lit' else None
            if s == b'' : cx.bad('W04 W06', P + 'set-separator', W, 'labels are joined without a separator')
            elif s is not None and any(q is fld(e, L['value']) for q in parts(x.a[1])):
                cx.bad('W06 W04', 'label-value-contains-separator:%s' % s.decode('latin1'), W, 'label values are joined with %r without escaping: a value that contains it reads back as different labels and makes two label sets share a key' % s.decode('latin1'))
            break
        if x.op == 'comp' and len(x.a[1]) == 1 and (x.a[0] is E.list or x.a[0].op == 'sorted'):
            e = el(x.a[0])
            ps = [y for p in x.a[1][0][1] for y in ([p] if p.op != 'one' else [p])]
            if ps and all(p is fld(e, L['key']) or p is fld(e, L['value']) or p.op == 'lit' for p in ps) and ps[0].op != 'lit' and ps[-1].op != 'lit':
                cx.bad('W04 W06', P + 'set-separator', W, 'labels are joined without a separator')
            break
    lead, pre, rest = split_key(kl)
    es = [x for x in subterms(kl) if x.op == 'el' and contains(x.a[0], E.labels)]
    es.sort(key=lambda t: (len(list(subterms(t))), t.id))
    if es:
        p = pair_ok(mk('cat', *rest) if len(rest) != 1 else rest[0], es[0], L)
        cx.chk('W06', P + 'label-key-parts', p, W, 'a label is looked up under %s' % show(kl)[:100])
    # the three mappings are kept apart
    fam = (('set', ks), ('label', kl), ('id', ki))
    for a in range(3):
        for b in range(a + 1, 3):
            oa, pa, ra = split_key(fam[a][1])
            ob_, pb, rb = split_key(fam[b][1])
            if tuple(oa) != tuple(ob_): continue
            if pa == pb: cx.bad('W06', P + 'prefix', W, 'the %s and %s mappings share the prefix %r' % (fam[a][0], fam[b][0], pa.decode('latin1')))
            elif pa.startswith(pb) or pb.startswith(pa):
                names = sorted((pa.decode('latin1'), pb.decode('latin1')))
                cx.bad('W06', 'prefix-overlap:%s:%s' % tuple(names), W, 'the prefix %r of one mapping starts the prefix %r of another: a label name that begins with the rest makes their keys collide' % tuple(names))
            else: cx.ok('W06', P + 'prefix', W)

def pair_ok(t, e, L):
    """name ++ separator ++ value, in any order with a literal in between: True/False/None"""
    n, v = fld(e, L['key']), fld(e, L['value'])
    ps = list(parts(t))
    if not contains(t, n) or not contains(t, v): return None if opaque(t) else False
    if len(ps) == 3 and ps[0] is n and ps[1].op == 'lit' and ps[2] is v: return True
    idx = [k for k, p in enumerate(ps) if p is n or p is v]
    if len(idx) == 2 and idx[1] == idx[0] + 1: return False
    return None

def ren(E, run):
    """lookup arguments renamed to create_index arguments"""
    m = {run.args[0]: E.r.args[0]}
    return m

def lookup(cx, ty, E):
    """full label set -> id"""
    B = BACK[ty]
    P = ty + ':'
    r = cx.good(cx.need(ty, 'get_series_id_by_labels', 'Indexer'))
    W = where(r)
    m = {r.args[0]: E.r.args[0], r.args[1]: E.labels}
    wk = key_of(E.set) if E.set is not None else None
    n = 0
    for o in r.rets:
        gets = evs(o, B['get'])
        if o.rk == 'err': continue
        n += 1
        if not gets:
            cx.chk('W06 W04', P + 'lookup-reads', False if o.p.op == 'adt' else None, W, 'the lookup answers without reading the index'); continue
        g = gets[-1]
        if wk is not None: cx.chk('W06 W04', P + 'lookup-key', same(subst(key_of(g), m), wk), where(r, g), 'a label set is looked up under %s but stored under %s' % (show(key_of(g))[:160], show(wk)[:160]))
        cx.chk('W06 R02 W01', P + 'lookup-result', ev_ok(o, g), where(r, g), 'a failed lookup gives a successful answer')
        pv = some_of(o.f, vf(g.res, 0, 0))
        ans = some_of(o.f, o.p)
        if pv is None or ans is None: cx.unk('W06', P + 'lookup-answer', W, show(o.p)[:100]); continue
        if pv[0] == 'none': cx.chk('W06 W04', P + 'lookup-answer', ans[0] == 'none', W, 'a label set without entry is answered with a series'); continue
        if ans[0] == 'none':
            cx.chk('W04 W06', P + 'lookup-answer', None if opaque_facts(o) else False, W, 'a stored label set is reported as not existing'); continue
        if E.set is not None:
            v = E.set.args[2]
            got = subst(ans[1], {mk('app', 'from_utf8', pv[1]): mk_ok(pv[1])})
            got = subst(got, {pv[1]: v})
            cx.chk('W06 W04', P + 'lookup-codec', same(got, E.sid), W, 'the stored id is read back as %s' % show(got)[:120])
    cx.chk('W04', P + 'lookup-possible', n >= 2, W, 'the lookup cannot tell both cases')

def mk_ok(x): return adt(RES, 'Ok', 0, 0, x)

def contains_(cx, ty, E):
    """labels -> ids"""
    B = BACK[ty]
    P = ty + ':'
    r = cx.good(cx.need(ty, 'get_series_id_contains_labels', 'Indexer'), frozenset(('.intersect_time_series_id_vec',)))
    W = where(r)
    lst = fld(r.args[1], 0)
    m = {r.args[0]: E.r.args[0], r.args[1]: E.labels}
    n = 0
    for o in r.rets:
        # failures inside loops must not be survived
        for e, loops in walk(o.ev):
            if e.kind == 'loop' or e.name != B['get']: continue
            f = known(o, loops)
            if f is None: continue
            if o.rk == 'ok': cx.chk('R02 R06', P + 'search-read-result', True if res(f, e) == 0 else False if res(f, e) == 1 else None if opaque_facts(o) else False, where(r, e), 'a failed index read leaves its label out instead of failing the query')
            if E.label is not None:
                wk = key_of(E.label)
                k = subst(key_of(e), m)
                es, ws = label_elem_terms(k, E.labels), label_elem_terms(wk, E.labels)
                if len(es) == 1 and len(ws) == 1: k = subst(k, {es[0]: ws[0]})
                cx.chk('W06 R02', P + 'search-key', same(k, wk), where(r, e), 'a label is searched under %s but stored under %s' % (show(k)[:120], show(wk)[:120]))
        if o.rk != 'ok': continue
        n += 1
        ic = [e for e in o.ev if e.name == INTER]
        if not ic:
            if o.p is EMPTY or (o.p.op == 'cat' and not o.p.a):
                none = False
                for e, loops in walk(o.ev):
                    if e.kind != 'loop' and e.name == B['get']:
                        f = known(o, loops)
                        if f is not None and some_of(f, vf(e.res, 0, 0)) == ('none',): none = True
                nolab = o.f.rel(length(lst), I(0)) == (0, 0)
                cx.chk('R02', P + 'search-empty', True if none or nolab else None if opaque_facts(o) else False, W, 'no series is reported although every label may have some')
            else: cx.unk('R02', P + 'search-result', W, show(o.p)[:120])
            continue
        c = ic[-1]
        cx.chk('R02 R06', P + 'search-intersect-result', ev_ok(o, c), where(r, c), 'a failed intersection is not reported')
        cx.chk('R02', P + 'search-result', same(o.p, vf(c.res, 0, 0)), W, 'the answer is %s' % show(o.p)[:120])
        arg = c.args[0]
        lists(cx, ty, E, r, o, arg, lst, m)
    cx.chk('R02', P + 'search-possible', n >= 1, W, 'no path answers a search')

def label_elem_terms(t, labels):
    return sorted(set(x for x in subterms(t) if x.op == 'el' and contains(x.a[0], labels)), key=lambda t: t.id)

def lists(cx, ty, E, r, o, arg, lst, m):
    B = BACK[ty]
    P = ty + ':'
    W = where(r)
    v = arg
    if mentions(v, lambda t: t.op == 'prefix' and contains(t.a[0], lst)):
        # stopping early is only harmless once some label has no ids at all
        zero = any(k == 'z' and x == (0, 0) and mentions(t[0][0], lambda q: q.op == 'res') for k, t, x in o.f.items())
        cx.chk('R02', P + 'search-all-labels', None if zero else False, W, 'the search stops before the last label'); return
    # innermost comprehension must range over all labels; each label gives exactly one list
    chain = []
    b = v
    while b.op in ('comp', 'rev', 'sorted') and b is not lst:
        if b.op == 'comp': chain.append(b)
        b = b.a[0]
    if b is not lst:
        cx.chk('R02', P + 'search-all-labels', False if b.op in ('slice', 'prefix') and contains(b, lst) else None, W, 'only %s is searched' % show(b)[:100]); return
    cx.ok('R02', P + 'search-all-labels', W)
    for comp in chain:
        for d, pp in comp.a[1]:
            f = o.f.copy()
            if not apply_facts(f, d): continue
            und = any(opaque(t) for k, t, x in d if isinstance(t, T))
            cx.chk('R02', P + 'search-every-label', True if len(pp) == 1 and pp[0].op == 'one' else None if und or len(pp) > 1 else False, W, 'a label is left out of the search: %s' % facts_str(f)[:160])
            for k, t, x in d:
                if k == 'd' and x == 1 and t.op == 'app' and t.a[0] in ('parse', 'from_utf8'): cx.bad('R02 R06', P + 'search-undecodable', W, 'an index entry that cannot be decoded is skipped')
    if not chain: return
    # decode of one list against what indexing writes
    for d, pp in chain[0].a[1]:
        if len(pp) != 1 or pp[0].op != 'one': continue
        f = o.f.copy()
        if not apply_facts(f, d): continue
        ids = pp[0].a[0]
        gr = [x for x in subterms(ids) if x.op == 'vf' and x.a[1] == 1 and x.a[0].op == 'vf' and x.a[0].a[0].op == 'res' and x.a[0].a[0].a[0] == B['get']]
        if ids is EMPTY:
            none = any(k == 'd' and x == 0 and t.op == 'vf' and t.a[0].op == 'res' and t.a[0].a[0] == B['get'] for k, t, x in d)
            cx.chk('R02', P + 'search-unknown-label', True if none else None, W, ''); continue
        if len(set(gr)) != 1: cx.unk('R02', P + 'search-decode', W, show(ids)[:120]); continue
        raw = gr[0]
        decode_ids(cx, ty, E, W, ids, raw)

def decode_ids(cx, ty, E, W, ids, raw):
    P = ty + ':'
    if ids.op == 'prefix': cx.bad('R02 R06', P + 'search-decode', W, 'decoding of an id list stops early'); return
    more = getattr(E, 'more', None)
    x = ids
    if x.op == 'sorted' : x = x.a[0]
    if x.op == 'app' and x.a[0] in ('dedup',): x = x.a[1]
    if x.op == 'sorted' : x = x.a[0]
    if x.op != 'comp' or x.a[0].op != 'app': cx.unk('R02 W06', P + 'search-decode', W, show(x)[:120]); return
    src, cs = x.a
    for d, pp in cs:
        if not pp: cx.chk('R02 R06', P + 'search-decode', None if any(opaque(t) for k, t, q in d if isinstance(t, T)) else False, W, 'some stored ids are left out')
    if any(not pp for d, pp in cs) or len(cs) != 1 or len(cs[0][1]) != 1 or cs[0][1][0].op != 'one': return
    e = cs[0][1][0].a[0]
    name = src.a[0]
    if raw_of(src.a[1]) is not raw: cx.chk('W06 R02', P + 'search-decode', None if opaque(src.a[1]) else False, W, 'decoded from %s' % show(src.a[1])[:100]); return
    if not more: cx.unk('W06', P + 'search-decode', W, 'no appended form'); return
    app_ = more[1]
    if name == 'split':
        sep = src.a[2]
        s = app_[0] if app_ and app_[0].op == 'lit' else None
        cx.chk('W06 R02', P + 'ids-codec', s is not None and sep.op == 'cat' and sep.a[0] is s and len(app_) == 2, W, 'ids are appended with %s and split at %s' % (show(s) if s is not None else 'no separator', show(sep)))
        got = subst(e, {el(src): app_[-1]})
        cx.chk('W06 R02', P + 'ids-codec', same(got, E.sid), W, 'a stored id is read back as %s' % show(got)[:100])
    elif name in ('chunks', 'chunks_exact'):
        w = src.a[2]
        cx.chk('W06 R02', P + 'ids-codec', len(app_) == 1 and length(app_[0]) is w, W, 'ids are stored in %s bytes and read in %s' % (show(length(cat(*[wrapp(p) for p in app_]))), show(w)))
        got = subst(e, {el(src): app_[-1]})
        cx.chk('W06 R02', P + 'ids-codec', same(got, E.sid), W, 'a stored id is read back as %s' % show(got)[:100])
    elif name in ('splitn', 'rsplitn') and is_int(src.a[2]): cx.bad('W06 R02', P + 'ids-codec', W, 'an id list is read in at most %d pieces, a longer one is not decoded' % src.a[2].a[0])
    else: cx.unk('W06 R02', P + 'ids-codec', W, show(src)[:100])

def metadata(cx, ty, E):
    """labels -> (id, full label set)"""
    B = BACK[ty]
    P = ty + ':'
    r = cx.good(cx.need(ty, 'get_series_metadata_contains_labels', 'Indexer'), frozenset((ty + '.get_series_id_contains_labels', '.intersect_time_series_id_vec')))
    W = where(r)
    S = ty + '::get_series_id_contains_labels'
    L = adt_fields(cx, 'Label')
    n = 0
    for o in r.rets:
        if o.rk != 'ok': continue
        n += 1
        src = None
        for c in evs(o, S, 'Indexer::get_series_id_contains_labels', INTER):
            if c.name != INTER: cx.chk('R02', P + 'meta-labels', same(c.args[1], r.args[1]), where(r, c), 'the series are searched for other labels: %s' % show(c.args[1])[:100])
            cx.chk('R02 R06', P + 'meta-search-result', ev_ok(o, c), where(r, c), 'a failed search gives a successful result')
            src = vf(c.res, 0, 0)
        if src is None: cx.unk('R02', P + 'meta-source', W, 'no search'); continue
        for e, loops in walk(o.ev):
            if e.kind == 'loop' or e.name != B['get'] or not loops: continue
            f = known(o, loops)
            if f is None: continue
            cx.chk('R02 R06', P + 'meta-read-result', res(f, e) == 0, where(r, e), 'a failed index read drops the series instead of failing the query')
        v = o.p
        if v.op == 'prefix' or mentions(v, lambda t: t.op == 'prefix'): cx.bad('R02', P + 'meta-every-series', W, 'the list of series stops early'); continue
        b = v
        chain = []
        while b.op in ('comp', 'rev', 'sorted') and b is not src:
            if b.op == 'comp': chain.append(b)
            b = b.a[0]
        if b is not src or len(chain) != 1: cx.chk('R02', P + 'meta-every-series', False if b.op == 'slice' and contains(b, src) else None, W, 'only %s' % show(b)[:100]); continue
        comp = chain[0]
        e = el(comp.a[0])
        for d, pp in comp.a[1]:
            f = o.f.copy()
            if not apply_facts(f, d): continue
            und = any(opaque(t) for k, t, x in d if isinstance(t, T))
            gs = [t for k, t, x in d if k == 'd' and t.op == 'res' and t.a[0] == B['get']]
            if not pp:
                none = any(k == 'd' and x == 0 and t.op == 'vf' and t.a[0].op == 'res' and t.a[0].a[0] == B['get'] for k, t, x in d)
                if any(k == 'd' and x == 1 and t.op == 'res' for k, t, x in d): continue
                dec = any(k == 'd' and x == 1 and t.op == 'app' for k, t, x in d)
                cx.chk('R02 R06' if dec else 'R02', P + 'meta-every-series', True if none else None if und else False, W, 'a series is left out: %s' % '; '.join(sorted(show_fact(x) for x in d))[:200]); continue
            if len(pp) > 1: cx.chk('R02', P + 'meta-once', None if und else False, W, 'a series is listed %d times' % len(pp)); continue
            t = pp[0].a[0] if pp[0].op == 'one' else None
            if t is None or t.op != 'tup': cx.unk('R02', P + 'meta-entry', W, show(pp[0])[:80]); continue
            cx.chk('R02', P + 'meta-id', same(t.a[0], e), W, 'series %s is listed with id %s' % (show(e)[:60], show(t.a[0])[:60]))
            # the key it reads
            for g in gs:
                k = g.a[1][1] if len(g.a[1]) > 1 else None
                if k is None or E.id is None: continue
                kk = subst(subst(k, {e: E.sid}), {r.args[0]: E.r.args[0]})
                cx.chk('W06 R02', P + 'meta-key', same(kk, key_of(E.id)), W, 'the labels of an id are read from %s and stored under %s' % (show(k)[:100], show(key_of(E.id))[:100]))
                raw = vf(vf(g, 0, 0), 1, 0)
                decode_set(cx, ty, E, W, t.a[1], raw, L)
    cx.chk('R02', P + 'meta-possible', n >= 1, W, 'no path answers')

# what these return differs from what they are given, for some texts
CHANGES = tuple('str:' + x for x in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase'))
def decode_set(cx, ty, E, W, labels, raw, L):
    P = ty + ':'
    enc = E.id.args[2] if E.id is not None else None
    if enc is None: return
    if enc.op != 'join': cx.unk('W06', P + 'labels-codec', W, 'stored as ' + show(enc)[:100]); return
    x = fld(labels, 0)
    while x.op == 'sorted': x = x.a[0]
    if not opaque(labels) and not mentions(labels, lambda t: t.op in ('res', 'hdr', 'content', 'uuid', 'unk')) and mentions(labels, lambda t: t.op == 'sym'):
        cx.bad('R02', P + 'labels-codec', W, 'the labels of a series are %s, not what was stored for it' % show(labels)[:100]); return
    if x.op != 'comp' or x.a[0].op != 'app' or x.a[0].a[0] != 'split': cx.unk('W06', P + 'labels-codec', W, show(x)[:120]); return
    src, cs = x.a
    if src.a[1].op == 'app' and src.a[1].a[0] == 'lossy' and contains(src.a[1], raw): cx.bad('W06 R02 R06', P + 'labels-codec', W, 'stored labels that cannot be decoded are replaced by others'); return
    if raw_of(src.a[1]) is not raw and src.a[1] is not raw: cx.chk('W06', P + 'labels-codec', None if opaque(src.a[1]) or not contains(src.a[1], raw) else False, W, 'labels decoded from %s' % show(src.a[1])[:100]); return
    cx.chk('W06 R02', P + 'labels-separator', same(src.a[2], enc.a[2]), W, 'labels are joined with %s and split at %s' % (show(enc.a[2]), show(src.a[2])))
    le = el(enc.a[0])
    n, v = fld(le, L['key']), fld(le, L['value'])
    ps = list(parts(enc.a[1]))
    if not (len(ps) == 3 and ps[0] is n and ps[2] is v and ps[1].op == 'lit'):
        cx.unk('W06', P + 'labels-codec', W, 'a label is stored as ' + show(enc.a[1])[:100]); return
    eq = mk('cat', ps[1])
    piece = el(src)
    nn = 0
    for d, pp in cs:
        if not pp:
            cx.chk('R02 R06 W06', P + 'labels-complete', None if any(opaque(t) for k, t, q in d if isinstance(t, T)) else False, W, 'a label that cannot be decoded is dropped'); continue
        if len(pp) != 1 or pp[0].op != 'one' or pp[0].a[0].op != 'adt': cx.unk('W06', P + 'labels-codec', W, show(pp)[:100]); continue
        lab = pp[0].a[0]
        sub_ = {piece: enc.a[1],
                mk('app', 'find', piece, eq): adt(OPT, 'Some', 1, 1, length(n)),
                index(mk('app', 'splitn', piece, I(2), eq), I(0)): n, index(mk('app', 'splitn', piece, I(2), eq), I(1)): v}
        got = subst(lab, sub_)
        if any(t.op == 'app' and t.a[0] in ('rfind', 'rsplit', 'rsplitn') for t in subterms(lab)):
            cx.bad('W06 R02', P + 'labels-codec', W, 'a label is cut at the last separator, so a value that contains it is read back differently'); continue
        gk, gv = fld(got, L['key']), fld(got, L['value'])
        un = lambda t: mentions(t, lambda q: q.op == 'app' and q.a[0] not in ('find',) + CHANGES)
        cx.chk('W06 R02', P + 'labels-codec', None if (un(gk) and gk is not n) else same(gk, n), W, 'a label name reads back as %s' % show(gk)[:120])
        cx.chk('W06 R02', P + 'labels-codec', None if (un(gv) and gv is not v) else same(gv, v), W, 'a label value reads back as %s' % show(gv)[:120])
        nn += 1

@rule('R06')
def lookup_errors(cx):
    """a failing lookup is not reported as the range being missed, which queries pass over"""
    for ty in BACK:
        for m, c in (('get_series_id_contains_labels', ('.intersect_time_series_id_vec',)), ('get_series_metadata_contains_labels', (ty + '.get_series_id_contains_labels', '.intersect_time_series_id_vec'))):
            r = cx.good(cx.need(ty, m, 'Indexer'), frozenset(c))
            for o in r.rets:
                if o.rk != 'err' or o.p is None: continue
                p = o.p
                cx.chk('R06', '%s:%s:error-kind' % (ty, m), p.a[1] != 'OutOfRangeErr' if p.op == 'adt' else True if p.op in ('vf', 'res') else None, where(r), 'a lookup that fails reports %s, for which a query leaves the whole chunk out' % show(p)[:60])

@rule('W01 W04 W05 W06 R02 R06')
def index_sled(cx): index_(cx, 'SledIndexer')

@rule('W01 W04 W05 W06 R02 R06')
def index_tikv(cx): index_(cx, 'TiKvIndexer')

def index_(cx, ty):
    E = create(cx, ty)
    for f in (lookup, contains_, metadata):
        try: f(cx, ty, E)
        except Undecided as e: cx.unk('W06 R02', ty + ':' + f.__name__, '', str(e))
