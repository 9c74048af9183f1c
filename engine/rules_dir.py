"""Directories and metadata: creation of chunks, metadata files, reopening."""
from rulebase import *
from rules_chunk import failing, with_, same3, FALL, window, adt_fields, variant, IO
from rules_db import NCUT, walk, db_locks, content_of, flat_locks, intervals
from rules_storage import opaque_facts, opaque_out

def last(t):
    """final component of a path term, its parent"""
    if t.op != 'path': return None, None
    p = t.a[:-1]
    return t.a[-1], (p[0] if len(p) == 1 else mk('path', *p))

def dir_name(cx, start, end):
    """name term encode_chunk_dir gives to a window"""
    i = cx.find(None, 'encode_chunk_dir')
    if i is None: return None
    r = cx.run(i)
    if r.err or r.unmod or len(r.rets) != 1: return None
    return subst(r.rets[0].v, {mk('sym', 'arg0'): start, mk('sym', 'arg1'): end})

def length_is(d, size):
    """d (linear term end - start) is the configured length in milliseconds? True/False/None"""
    ms = mk('app', 'Duration::as_millis', size)
    def core(x):
        while x.op == 'wrap': x = x.a[0]
        return x
    if core(d) is ms: return True
    if core(d).op == 'int': return False
    c = core(d)
    if c.op == 'bit' and c.a[0] in ('Div', 'Shr') and len(c.a) == 5 and core(c.a[3]) is ms and is_int(c.a[4]) and c.a[4].a[0] > (1 if c.a[0] == 'Div' else 0): return False
    c = core(d)
    if c.op == 'app' and isinstance(c.a[0], str) and c.a[0].startswith('Duration::as_') and len(c.a) == 2 and c.a[1] is size: return False
    if d.op == 'lin':
        k, cs = lin_of(d)
        if len(cs) == 1:
            (x, n), = cs.items()
            if core(x) is ms and n == 1: return None if abs(k) <= 1 else False
            if core(x) is ms: return False
            if core(x).op == 'app' and isinstance(core(x).a[0], str) and core(x).a[0].startswith('Duration::as_') and core(x).a[1] is size:
                f = {'Duration::as_secs': 1000, 'Duration::as_secs_f32': None}.get(core(x).a[0], 0)
                if f is None: return None
                return None if n == f else False
    return None

def known_ok(o, e):
    return ev_ok(o, e)

class NewChunk(object): pass

def new_chunk(cx, r, o, P, W, sb, ib, base, size, dbopts):
    """obligations on preparing a chunk, on an outcome that publishes `Chunk::new`; returns the event or None"""
    T_ = 'D06 D04'
    l = list(flat(o.ev))
    cn = [e for e in l if e.name == 'Chunk::new']
    if len(cn) != 1:
        cx.chk('D06', P + ':one-chunk', None, W, '%d chunks built' % len(cn)); return None
    c = cn[0]
    O = adt_fields(cx, 'ChunkOpts')
    opts = c.args[2]
    if opts.op != 'adt': cx.unk(T_, P + ':options', where(r, c), 'options ' + show(opts)[:100]); return None
    fs = opts.a[4:]
    st, en, idf = fs[O['start_time']], fs[O['end_time']], fs[O['identifier']]
    if not (st.op == 'adt' and st.a[1] == 'Some' and en.op == 'adt' and en.a[1] == 'Some'):
        cx.chk('D06 D04', P + ':window', False if (st.op == 'adt' and st.a[1] == 'None') or (en.op == 'adt' and en.a[1] == 'None') else None, where(r, c), 'the new chunk has no complete window'); return None
    s, e = st.a[4], en.a[4]
    cx.chk('D05', P + ':identifier-fresh', True if mentions(idf, lambda t: t.op == 'uuid') else None if opaque(idf) or mentions(idf, lambda t: t.op in ('app', 'call')) else False, where(r, c), 'the identifier of the new chunk is %s' % show(idf)[:100])
    cx.chk('D06', P + ':length', length_is(sub(e, s), size), where(r, c), 'the window is %s .. %s long' % (show(s)[:60], show(sub(e, s))[:120]))
    bs = [x for x in l if x.name == 'Builder::build']
    wt = [x for x in l if x.name == 'Builder::write_to_chunk']
    mc = [x for x in l if x.name == 'ChunkOpts::write_config_to_dir']
    S, I_ = c.args[0], c.args[1]
    bS = [x for x in bs if vf(x.res, 0, 0) is S]
    bI = [x for x in bs if vf(x.res, 0, 0) is I_]
    if not cx.chk('D06', P + ':storage-built', True if bS else None if opaque(S) else False, where(r, c), 'the storage of the chunk is %s' % show(S)[:100]): return c
    if not cx.chk('D06', P + ':indexer-built', True if bI else None if opaque(I_) else False, where(r, c), 'the index of the chunk is %s' % show(I_)[:100]): return c
    bS, bI = bS[0], bI[0]
    cx.chk('D06', P + ':storage-builder', same(bS.args[0], sb), where(r, bS), 'the storage comes from %s' % show(bS.args[0]))
    cx.chk('D06', P + ':indexer-builder', same(bI.args[0], ib), where(r, bI), 'the index comes from %s' % show(bI.args[0]))
    d = bS.args[1]
    cx.chk('D06 D03', P + ':one-directory', same(bI.args[1], d), where(r, bI), 'the index is built in %s, the storage in %s' % (show(bI.args[1])[:80], show(d)[:80]))
    name, par = last(d)
    if name is None: cx.chk('D06 D03', P + ':directory', None, where(r, bS), 'directory ' + show(d)[:100])
    else:
        cx.chk('D06 D03', P + ':base-directory', same(par, base), where(r, bS), 'the chunk is stored in %s' % show(par)[:100])
        want = dir_name(cx, s, e)
        cx.chk('D06 D03 D02', P + ':directory-name', None if want is None else True if name is want else None if not mentions(name, lambda t: t.op == 'app' and t.a[0] == 'hex') and opaque(name) else False, where(r, bS), 'the directory of the chunk is named %s' % show(name)[:120])
    for x, nm in ((bS, 'storage'), (bI, 'indexer')):
        cx.chk('D06', P + ':%s-result' % nm, known_ok(o, x), where(r, x), 'a failed %s build is not noticed' % nm)
        a = x.args[2]
        cx.chk('D06 D05 D04', P + ':%s-options' % nm, True if a.op == 'adt' and a.a[1] == 'Some' and a.a[4] is opts else None if opaque(a) else False, where(r, x), 'the %s is built with other options than the chunk: %s' % (nm, show(a)[:120]))
    # builders prepare the directory
    for b, nm in ((sb, 'storage'), (ib, 'indexer')):
        w = [x for x in wt if x.args[0] is b]
        cx.chk('D06', P + ':%s-prepared' % nm, True if w else None, W, 'the %s builder does not prepare the directory' % nm)
        for x in w:
            cx.chk('D06', P + ':%s-prepared-dir' % nm, same(x.args[1], d), where(r, x), 'prepared directory is %s' % show(x.args[1])[:100])
            cx.chk('D06', P + ':%s-prepared-result' % nm, known_ok(o, x), where(r, x), 'a failed preparation is not noticed')
    # metadata
    if not cx.chk('D04', P + ':metadata-written', len(mc) >= 1, W, 'the chunk is put into service without metadata'): return c
    m = mc[-1]
    cx.chk('D04', P + ':metadata-result', known_ok(o, m), where(r, m), 'a failed metadata write is not noticed')
    cx.chk('D04', P + ':metadata-content', same(m.args[0], opts), where(r, m), 'metadata written is %s, the chunk uses %s' % (show(m.args[0])[:120], show(opts)[:120]))
    cx.chk('D04 D03', P + ':metadata-dir', same(m.args[1], d), where(r, m), 'metadata goes to %s' % show(m.args[1])[:100])
    return c

def opt_fields(cx):
    F, D = adt_fields(cx, 'MonolithDb'), adt_fields(cx, 'DbOpts')
    return F, D

@rule('D06 D04 D03 D02 D05 K03')
def db_swap(cx):
    F, D = opt_fields(cx)
    i = cx.need('MonolithDb', 'swap')
    r = cx.good(i, NCUT)
    cur, sec = db_locks(cx)
    self_, start = r.args[:2]
    W = 'db::MonolithDb::swap'
    opt = fld(self_, F['options'])
    sb, ib = fld(fld(self_, F['storage_builder']), 0), fld(fld(self_, F['indexer_builder']), 0)
    nok = 0
    for o in r.rets:
        l = list(flat_locks(o.ev))
        pub = [e for e in l if e.kind == 'unlock' and e.args[0] is cur and isinstance(e.x, T)]
        old = [e for e in l if e.kind == 'unlock' and e.args[0] is sec and isinstance(e.x, T)]
        if o.rk == 'err':
            ch = [e for e in pub + old if not (e.x.op == 'content' and e.x.a[0] is e.args[0])]
            cx.chk('D06', 'swap:failure-leaves-chunks', not ch, W, 'a failed rotation has changed %s' % ('the current chunk' if ch and ch[0].args[0] is cur else 'the older chunks'))
            cl = evs(o, 'Chunk::close')
            cx.chk('D06', 'swap:failure-leaves-current-open', not cl, W, 'a failed rotation has closed the current chunk')
            fs = failing(o)
            cx.chk('D06', 'swap:answered', True if fs else None if opaque_out(o) else False, W, 'a rotation fails although nothing failed')
            continue
        nok += 1
        bad = [e for e in flat(o.ev) if e.kind in ('call', 'ext') and e.name in FALL and not ev_ok(o, e) and e.res is not None and not e.name.startswith('Write::write')]
        c = new_chunk(cx, r, o, 'swap', W, sb, ib, fld(opt, D['base_dir']), fld(opt, D['chunk_size']), opt)
        if c is None: continue
        O = adt_fields(cx, 'ChunkOpts')
        s = c.args[2].a[4:][O['start_time']].a[4]
        cx.chk('D06', 'swap:start', same(s, start), where(r, c), 'the new window starts at %s' % show(s)[:100])
        # publication
        if not cx.chk('D06', 'swap:published', len(pub) >= 1, W, 'the new chunk is not put into service'): continue
        v = pub[-1].x
        cx.chk('D06', 'swap:published-chunk', same(v, c.res), where(r, pub[-1]), 'the current chunk becomes %s' % show(v)[:100])
        if not cx.chk('D06', 'swap:old-kept', len(old) >= 1, W, 'the outgoing chunk is not kept'): continue
        v = old[-1].x
        ps = parts(v)
        oc = [p for p in ps if p.op == 'one' and content_of(p.a[0], cur)]
        pc = [p for p in ps if content_of(p, sec)]
        if len(oc) == 1 and len(pc) == 1 and len(ps) == 2:
            cx.chk('D06 R05', 'swap:old-appended', True if ps.index(pc[0]) == 0 else False, where(r, old[-1]), 'the outgoing chunk is put before the older ones')
        else:
            und = opaque(v)
            why = 'the outgoing chunk is dropped' if not oc else 'older chunks are dropped' if not pc else 'older chunks become %s' % show(v)[:120]
            if v.op in ('sorted',): und = True
            extra = [p for p in ps if p.op == 'one' and same(p.a[0], c.res)]
            cx.chk('D06 R05', 'swap:old-kept', None if und else False, where(r, old[-1]), why)
        cl = evs(o, 'Chunk::close')
        if cx.chk('D06', 'swap:old-closed', len(cl) >= 1, W, 'the outgoing chunk is not closed'):
            cx.chk('D06', 'swap:closed-chunk', True if any(content_of(e.args[0], cur) for e in cl) else None if any(opaque(e.args[0]) for e in cl) else False, where(r, cl[0]), 'closed is %s' % show(cl[0].args[0])[:100])
            cx.chk('D06', 'swap:new-open', not any(e.args[0] is c.res for e in cl), where(r, cl[0]), 'the new chunk is closed')
        # everything fallible happened before the first change
        idx = {id(e): n for n, e in enumerate(l)}
        first = min([n for n, e in enumerate(l) if e.kind == 'lock' and e.name == 'w' and e.args[0] in (cur, sec)] or [len(l)])
        m = [e for e in l if e.name == 'ChunkOpts::write_config_to_dir']
        for e in m: cx.chk('D04', 'swap:metadata-before-service', idx[id(e)] < idx[id(pub[-1])], where(r, e), 'metadata is written after the chunk is put into service')
    cx.chk('D06', 'swap:possible', nok >= 1, W, 'no rotation succeeds')

@rule('D06 D04 D03 D01 D02 D05')
def db_new(cx):
    F, D = opt_fields(cx)
    i = cx.need('MonolithDb', 'new')
    r = cx.good(i, NCUT)
    ops, sb, ib = r.args[:3]
    W = 'db::MonolithDb::new'
    base = fld(ops, D['base_dir'])
    nok = 0
    for o in r.rets:
        l = [e for e in flat(o.ev)]
        if o.rk == 'err':
            cx.chk('D06', 'new:answered', True if failing_any(o) else None if opaque_out(o) else False, W, 'opening fails although nothing failed')
        rc = [n for n, e in enumerate(l) if e.name == 'MonolithDb::read_or_create_metadata']
        wr = [n for n, e in enumerate(l) if e.name in ('Builder::write_to_chunk', 'Builder::write_config', 'Builder::build', 'ChunkOpts::write_config_to_dir', 'Chunk::new', 'Builder::read_from_chunk', 'MonolithDb::read_existing_chunk') or e.name in ('fs::create_dir_all', 'fs::create_dir', 'File::create', 'fs::write')]
        if wr:
            cx.chk('D01', 'new:checked-first', bool(rc) and rc[0] < min(wr) and ev_ok(o, l[rc[0]]), W, 'the directory is used before its recorded backends are checked')
        if o.rk != 'ok': continue
        nok += 1
        if not rc: continue
        e = l[rc[0]]
        cx.chk('D01', 'new:checked-dir', same(e.args[0], base), where(r, e), 'checked directory is %s' % show(e.args[0])[:100])
        m = e.args[1]
        if m.op == 'adt':
            fs = m.a[4:]
            tn = lambda x: mk_tyname(x)
            names = [tyname_of(x) for x in fs]
            if None in names: cx.chk('D01', 'new:recorded-backends', None if any(opaque(x) or x.op not in ('lit', 'str') for x in fs) else False, where(r, e), 'recorded backends are %s' % show(m)[:120])
            else: cx.chk('D01', 'new:recorded-backends', len(set(names)) == len(fs) and len(fs) == 2, where(r, e), 'recorded backends are %s' % show(m)[:120])
        else: cx.unk('D01', 'new:recorded-backends', where(r, e), show(m)[:120])
        rx = [e for e in l if e.name == 'MonolithDb::read_existing_chunk']
        if cx.chk('D03', 'new:existing-read', len(rx) == 1, W, 'existing chunks are not read'):
            x = rx[0]
            cx.chk('D03', 'new:existing-dir', same3(x.args[:1], (base,)), where(r, x), 'existing chunks are read from %s' % show(x.args[0])[:100])
            cx.chk('D03', 'new:existing-result', ev_ok(o, x), where(r, x), 'a failure to read existing chunks is not noticed')
            v = o.p
            if v.op == 'adt' and v.a[0].endswith('MonolithDb'):
                fs = v.a[4:]
                k = fs[F_sec(cx)]
                want = vf(x.res, 0, 0)
                c = k.a[-1] if k.op in ('app', 'lockv') or k.op == 'RwLock' else None
                c = lock_content(k)
                cx.chk('D03 R05', 'new:existing-kept', None if c is None else same(c, want), W, 'the older chunks become %s' % (show(c)[:120] if c is not None else show(k)[:120]))
        for e in l:
            if e.name == 'Builder::write_config': cx.chk('D04', 'new:config-result', ev_ok(o, e), where(r, e), 'a failed configuration write is not noticed')
        c = new_chunk(cx, r, o, 'new', W, fld(sb, 0), fld(ib, 0), base, fld(ops, D['chunk_size']), ops)
        if c is None: continue
        v = o.p
        if v.op == 'adt' and v.a[0].endswith('MonolithDb'):
            x = lock_content(v.a[4:][F_cur(cx)])
            cx.chk('D06 D04', 'new:current', None if x is None else same(x, c.res), W, 'the current chunk becomes %s' % (show(x)[:100] if x is not None else '?'))
            for nm, want in (('options', ops), ('storage_builder', None), ('indexer_builder', None)):
                if want is not None and nm in F: cx.chk('D06', 'new:' + nm, same(v.a[4:][F[nm]], want), W, '%s of the database are %s' % (nm, show(v.a[4:][F[nm]])[:100]))
        rotation_threads(cx, r, o, l, fld(ops, D['chunk_size']), c, W)
    cx.chk('D06', 'new:possible', nok >= 1, W, 'no database can be opened')

TIMED = ('Duration::from_millis',)
def sleeps_for(d, size):
    """a pause of `d` is the configured length? True/False/None"""
    if d is size: return True
    if d.op == 'app' and d.a[0] == 'Duration::from_millis' and len(d.a) == 2: return length_is(d.a[1], size)
    if d.op == 'app' and isinstance(d.a[0], str) and d.a[0].startswith('Duration::from_') and len(d.a) == 2 and (is_int(d.a[1]) or length_is(d.a[1], size)): return False
    return None

QUIET = ('::get_current_timestamp', 'Sender::send', 'SyncSender::send', 'MonolithDb::swap', 'Receiver::recv', 'thread::sleep')
def rotation_threads(cx, r, o, l, size, c, W):
    """the threads started by `new` rotate the chunks, once per chunk length"""
    ths, und = [], False
    for e in l:
        if e.name != 'thread::spawn': continue
        q = run_closure(cx, e.args[0], frozenset(('MonolithDb.swap', '.get_current_timestamp')))
        if q is None or q.err or q.unmod: und = True; continue
        its = []
        for oo in q.outs:
            for z in oo.ev:
                if z.kind == 'loop' and oo.kind == 'diverge': its += [(z.x, list(flat(es)), d) for d, es, vals in z.x.paths]
        if not its:
            for oo in q.outs:
                for z in oo.ev:
                    if z.kind == 'loop': its += [(z.x, list(flat(es)), d) for d, es, vals in z.x.paths]
        ths.append((q, [z for oo in q.outs for z in flat(oo.ev)], its))
    rot = [(q, a, its) for q, a, its in ths if any(z.name == 'MonolithDb::swap' for z in a)]
    if not rot:
        everywhere = any(calls(cx, x, 'MonolithDb', 'swap') for x in cx.db.local if 'test' not in x['path'])
        cx.chk('D06', 'new:rotates', None if und or everywhere else False, W, 'no thread rotates the chunks'); return
    cx.ok('D06', 'new:rotates', W)
    if und or len(rot) != 1: return
    q, a, its = rot[0]
    ticks = []      # threads that decide when to rotate
    for L, es, d in its:
        sw = [z for z in es if z.name == 'MonolithDb::swap']
        if len(sw) != 1: continue
        at = sw[0].args[1]
        k, cs = lin_of(at) if at.op == 'lin' else (0, {at: 1})
        if len(cs) != 1 or list(cs.values()) != [1]: cx.unk('D06', 'new:rotation-time', where(r), 'rotation at %s' % show(at)[:100]); continue
        x = list(cs)[0]
        rcv = [z for z in es if z.name == 'Receiver::recv']
        if x.op == 'vf' and rcv and x.a[0] is rcv[0].res:
            for q2, a2, its2 in ths:
                if q2 is q: continue
                for L2, es2, d2 in its2:
                    sd = [z for z in es2 if z.name in ('Sender::send', 'SyncSender::send')]
                    if len(sd) != 1: continue
                    y = sd[0].args[1]
                    k2, cs2 = lin_of(y) if y.op == 'lin' else (0, {y: 1})
                    now = [z for z in es2 if z.name == '::get_current_timestamp']
                    if now and list(cs2) == [now[-1].res]: ticks.append((es2, k + k2, now[-1]))
        else:
            now = [z for z in es if z.name == '::get_current_timestamp']
            if now and x is now[-1].res: ticks.append((es, k, now[-1]))
    waits = [es for L, es, d in its if any(z.name == 'Receiver::recv' for z in es)]
    allq = all(z.name in QUIET or z.name.startswith('overflow_') for q_, a_, its_ in ths for z in a_ if z.kind in ('call', 'ext')) and all(its_ for q_, a_, its_ in ths)
    if not ticks and waits and allq and not any(z.name in ('Sender::send', 'SyncSender::send') for q_, a_, its_ in ths for z in a_):
        cx.bad('D06', 'new:rotation-paced', W, 'the rotating thread waits for a message nobody sends'); return
    if len(ticks) != 1: cx.unk('D06', 'new:rotation-paced', W, '%d sources of rotations' % len(ticks)); return
    es, k, now = ticks[0]
    plain = all(z.kind not in ('call', 'ext') or z.name in QUIET for z in es)
    sl = [z for z in es if z.name == 'thread::sleep']
    if not sl: cx.chk('D06', 'new:rotation-paced', False if plain else None, W, 'the chunks are rotated without pause')
    elif len(sl) == 1:
        v = sleeps_for(sl[0].args[0], size)
        cx.chk('D06', 'new:rotation-paced', v, W, 'the chunks are rotated every %s' % show(sl[0].args[0])[:100])
        if v and es.index(sl[0]) < es.index(now):
            # the clock is read after the window of the outgoing chunk has passed
            cx.chk('D06', 'new:rotation-time', True if k >= 1 else False, W, 'the next window starts at the time of rotation %+d, which can lie within the previous one' % k)
        else: cx.unk('D06', 'new:rotation-time', W, 'clock read before the pause')
    else: cx.unk('D06', 'new:rotation-paced', W, '%d pauses' % len(sl))

def calls(cx, x, ty, name):
    """the body x calls (or names) ty::name"""
    pat = lambda p: isinstance(p, str) and last_seg(p) == name and ty in p
    def fns(v):
        if isinstance(v, dict):
            if 'fn' in v and isinstance(v['fn'], dict) and pat(v['fn'].get('path')): return True
            return any(fns(y) for y in v.values())
        if isinstance(v, list): return any(fns(y) for y in v)
        return False
    return any(fns(b) for b in x['blocks'])

def run_closure(cx, cl, cuts):
    """abstract run of a closure body"""
    try:
        i = cx.db.inst[cl.a[1]] if hasattr(cx.db, 'inst') else None
    except Exception: i = None
    if i is None:
        c = [x for x in cx.db.local if x['path'] == cl.a[0]]
        i = c[0] if c else None
    if i is None: return None
    return cx.run(i, cuts, args=(cl,))

def eqt(a, b): return mk('eq', *sorted((a, b), key=lambda t: t.id))

def failing_any(o):
    if cause(o): return True
    return [e for e, lp in walk(o.ev) if e.kind in ('call', 'ext') and e.res is not None and (ev_err(o, e) or any(('d', e.res, 1) in d for _, d in lp))]

def F_cur(cx):
    c, s = db_locks(cx); return c.a[1]
def F_sec(cx):
    c, s = db_locks(cx); return s.a[1]
def lock_content(k):
    if k.op == 'app' and k.a[0] in ('RwLock', 'Mutex'): return k.a[1]
    if k.op in ('RwLock', 'Mutex', 'lockval'): return k.a[0]
    return None

def tyname_of(x):
    t = [y for y in subterms(x) if y.op == 'res' and y.a[0].endswith('get_type_name')]
    if x.op == 'res' and x.a[0].endswith('get_type_name'): return x.a[1]
    return None
def mk_tyname(x): return x

# ------------------------------------------------------------- durable writes
CREATE = ('File::create', 'OpenOptions::open', 'fs::write')
def durable(cx, tags, P, r, o, content, final, W):
    """outcome reports success: `content` was written under `final` atomically and durably.
    returns True when something was written"""
    l = list(o.ev)
    n = lambda e: next(k for k, x in enumerate(l) if x is e)
    inplace = [e for e in flat(l) if e.name in CREATE and e.args and e.args[0] is final]
    for e in inplace:
        cx.bad(tags, P + ':aside', where(r, e), 'the file is created under its final name: a crash leaves a partial file behind')
    ren = [e for e in l if e.name in ('fs::rename', 'fs::hard_link') and e.args[1] is final]
    other = [e for e in flat(l) if e.name == 'fs::copy' and e.args[1] is final]
    for e in other: cx.bad(tags, P + ':aside', where(r, e), 'the file is copied under its final name: a crash leaves a partial file behind')
    if not ren:
        w = [e for e in flat(l) if e.name in CREATE + ('fs::rename', 'fs::copy')]
        if not w: return False
        if not inplace and not other:
            und = any(opaque(a) for e in w for a in e.args)
            cx.chk(tags, P + ':final-name', None if und else False, where(r, w[-1]), 'the file is not put under %s' % show(final)[:80])
        return True
    e = ren[-1]
    cx.chk(tags, P + ':rename-result', ev_ok(o, e), where(r, e), 'a failed rename is not noticed')
    tmp = e.args[0]
    cr = [x for x in l if x.name in CREATE and x.args[0] is tmp and n(x) < n(e)] or [x for x in l if x.name in CREATE and same(x.args[0], tmp) is not False and n(x) < n(e)]
    if not cr:
        oc = [x for x in flat(l) if x.name in CREATE]
        cx.chk(tags, P + ':renamed-file', None if any(opaque(a) for x in oc for a in x.args) or opaque(tmp) or any(x.name == 'OpenOptions::open' for x in oc) else False, where(r, e), 'renamed is %s, which was not written' % show(tmp)[:80])
        return True
    c = cr[-1]
    cx.chk(tags, P + ':create-result', ev_ok(o, c), where(r, c), 'a failed create is not noticed')
    if c.name == 'fs::write':
        cx.chk(tags, P + ':content', json_is(c.args[1], content), where(r, c), 'written is %s' % show(c.args[1])[:100])
        cx.unk(tags, P + ':synced', where(r, c), 'no handle to synchronise')
        return True
    h = vf(c.res, 0, 0)
    bw = mk('app', 'bufw', h)
    wr = [x for x in l if x.args and x.args[0] in (h, bw) and (x.name == 'json::to_writer' or x.name.endswith('Write::write_all') or x.name.endswith('Write::write'))]
    if not wr:
        cx.chk(tags, P + ':content', None if any(x.name.endswith('write') or x.name.endswith('write_all') or x.name == 'json::to_writer' for x in flat(l)) else False, where(r, c), 'nothing is written into the file'); return True
    cx.chk(tags, P + ':content-once', True if len(wr) == 1 else None, where(r, wr[-1]), '%d writes' % len(wr))
    w = wr[-1]
    if w.name.endswith('Write::write'): cx.unk(tags, P + ':content', where(r, w), 'single write call')
    elif w.name == 'json::to_writer': cx.chk(tags, P + ':content', same(w.args[1], content), where(r, w), 'written is %s' % show(w.args[1])[:100])
    else: cx.chk(tags, P + ':content', json_is(w.args[1], content), where(r, w), 'written is %s' % show(w.args[1])[:100])
    cx.chk(tags, P + ':write-result', ev_ok(o, w), where(r, w), 'a failed write is not noticed')
    cx.chk(tags, P + ':write-before-rename', n(w) < n(e), where(r, w), 'the file gets its final name before it is written')
    pos = n(w)
    if w.args[0] is bw:
        fl = [x for x in l if x.args and x.args[0] is bw and (x.name.endswith('Write::flush') or x.name == 'BufWriter::into_inner') and n(x) > pos]
        good = [x for x in fl if n(x) < n(e) and ev_ok(o, x)]
        cx.chk(tags, P + ':flushed', bool(good), where(r, w), 'buffered content is not flushed, with its errors noticed, before the file gets its final name')
        if good: pos = n(good[0])
    sy = [x for x in l if x.name in ('File::sync_all', 'File::sync_data') and x.args[0] is h]
    alls = [x for x in flat(l) if x.name in ('File::sync_all', 'File::sync_data')]
    good = [x for x in sy if pos < n(x) < n(e) and ev_ok(o, x)]
    cx.chk(tags, P + ':synced', True if good else None if len(alls) > len(sy) else False, where(r, e), 'the content is not on disk before the file gets its final name')
    return True

def cause(o):
    """a pure fallible operation (parsing, encoding) failed on this path"""
    return any(k == 'd' and v == 1 and isinstance(t, T) and t.op == 'app' and t.a[0] in ('json_str', 'json_parse') for k, t, v in o.f.items())

def json_is(t, content):
    if t.op == 'vf': t = t.a[0]
    if t.op == 'app' and t.a[0] == 'json_str': return same(t.a[1], content)
    return None

def reads_name(cx, i, dirarg):
    """path read by a metadata reader"""
    r = cx.good(i)
    ps = set()
    for o in r.outs:
        for e in flat(o.ev):
            if e.name in ('fs::read_to_string', 'fs::read', 'File::open'): ps.add(e.args[0])
    if len(ps) != 1: raise Undecided('paths read by ' + i['path'])
    return list(ps)[0]

@rule('D04 D03')
def chunk_metadata(cx):
    rd = cx.need('ChunkOpts', 'read_config_from_dir')
    p = reads_name(cx, rd, 0)
    i = cx.need('ChunkOpts', 'write_config_to_dir')
    r = cx.good(i)
    self_, d = r.args[:2]
    final = subst(p, {mk('sym', 'arg0'): d})
    O = adt_fields(cx, 'ChunkOpts')
    W = i['path']
    nw = 0
    for o in r.rets:
        if o.rk == 'err':
            fs = [e for e in flat(o.ev) if e.kind in ('call', 'ext') and ev_err(o, e)]
            none = any(o.f.d.get(fld(self_, O[k])) == 0 for k in ('start_time', 'end_time'))
            cx.chk('D04', 'chunk-metadata:answered', True if fs or none or cause(o) else None if opaque_out(o) else False, W, 'writing metadata fails although nothing failed')
            continue
        none = any(o.f.d.get(fld(self_, O[k])) == 0 for k in ('start_time', 'end_time'))
        w = durable(cx, 'D04', 'chunk-metadata', r, o, self_, final, W)
        if w: nw += 1
        else: cx.chk('D04', 'chunk-metadata:written', none or (None if opaque_out(o) else False), W, 'success is reported without writing metadata')
        for e in flat(o.ev):
            if e.kind in ('call', 'ext') and e.name.startswith('fs::create_dir'): cx.chk('D04', 'chunk-metadata:dir-result', True if ev_ok(o, e) else None, where(r, e), '')
    cx.chk('D04', 'chunk-metadata:possible', nw >= 1, W, 'metadata is never written')
    # reading it back
    q = cx.good(rd)
    for o in q.rets:
        if o.rk == 'ok':
            res = [e for e in flat(o.ev) if e.name in ('fs::read_to_string', 'fs::read', 'File::open')]
            ok_ = o.p.op == 'vf' and o.p.a[0].op == 'app' and o.p.a[0].a[0] == 'json_parse'
            cx.chk('D03 D04', 'chunk-metadata:read-back', True if ok_ else None if opaque(o.p) or not res else False, rd['path'], 'metadata read back is %s' % show(o.p)[:120])
        else:
            nf = variant(cx, 'MonolithErr', 'NotFoundErr')
            if o.p.op == 'adt' and o.p.a[3] == nf:
                # "no metadata" is claimed only for a missing file
                k = [(t, v) for kk, t, v in o.f.items() if kk == 'd' and isinstance(t, T) and t.op == 'app' and t.a[0] == 'Error::kind']
                c = [e for e in flat(o.ev) if e.kind in ('call', 'ext') and ev_err(o, e)]
                if k: cx.chk('D03', 'chunk-metadata:missing-only', all(v == 0 for t, v in k), rd['path'], 'metadata counts as missing after another failure')
                else: cx.chk('D03', 'chunk-metadata:missing-only', None if opaque_out(o) and not c else False, rd['path'], 'unreadable metadata counts as missing: the chunk is skipped on reopening')

@rule('D01')
def type_names(cx):
    """a record tells the backends apart"""
    for tr in ('Storage', 'Indexer'):
        impls = set(x['iself'] for x in cx.db.local if x['iself'] and x['itrait'] and last_seg(x['itrait']) == tr and 'test_utils' not in x['path'])
        names = {}
        for x in cx.db.local:
            if x['itrait'] and last_seg(x['itrait']) == 'HasTypeName' and x['path'].endswith('get_type_name') and x['iself'] in impls:
                r = cx.run(x)
                vs = set(o.v for o in r.rets)
                v = vs.pop() if len(vs) == 1 and not r.unmod and not r.err else None
                names[x['iself']] = v if v is not None and (v.op == 'lit' or v.op == 'cat' and all(p.op == 'lit' for p in v.a)) else None
        ns = sorted(names)
        for a in range(len(ns)):
            for b in range(a + 1, len(ns)):
                va, vb = names[ns[a]], names[ns[b]]
                cx.chk('D01', 'backend-names:%s' % tr, None if va is None or vb is None else va is not vb, '%s, %s' % (ns[a], ns[b]), 'two kinds of %s are recorded under the name %s' % (tr.lower(), show(va) if va is not None else '?'))

@rule('D01')
def db_metadata(cx):
    i = cx.need('MonolithDb', 'read_or_create_metadata')
    r = cx.good(i)
    d, want = r.args[:2]
    W = i['path']
    D = adt_fields(cx, 'DbMetadata')
    nf = 0
    ncreate = nmatch = 0
    for o in r.rets:
        rd = [e for e in flat(o.ev) if e.name in ('fs::read_to_string', 'fs::read', 'File::open')]
        ex = [t for k, t, v in o.f.items() if k == 'b' and isinstance(t, T) and t.op == 'app' and 'exists' in str(t.a[0])]
        writes = [e for e in flat(o.ev) if e.name in CREATE + ('fs::rename', 'fs::copy', 'fs::remove_file', 'json::to_writer')]
        js = set(t for k, t, v in o.f.items() if k == 'd' and isinstance(t, T) and t.op == 'app' and t.a[0] == 'json_parse')
        if rd and ev_ok(o, rd[0]):
            cx.chk('D01', 'db-metadata:not-overwritten', not writes, where(r, writes[0]) if writes else W, 'existing backend records are overwritten')
            if o.rk == 'ok':
                nmatch += 1
                if not js: cx.chk('D01', 'db-metadata:compared', None if opaque_out(o) else False, W, 'recorded backends are not read'); continue
                j = vf(list(js)[0], 0, 0)
                cx.chk('D01', 'db-metadata:parsed', o.f.d.get(list(js)[0]) == 0, W, 'an invalid record is accepted')
                for n, k in D.items():
                    if n not in ('indexer_type', 'storage_type') and len(D) > 2: continue
                    t = eqt(fld(j, k), fld(want, k))
                    v = o.f.truth(t)
                    alt = with_(o, [(t, 0)])
                    whole = o.f.truth(eqt(j, want)) == 1
                    cx.chk('D01', 'db-metadata:same-' + n, True if v == 1 or alt is None or whole else None if opaque_out(o) or cross(o, j, want) else False, W, 'a directory with another %s is opened' % n)
            else:
                # a refusal needs a mismatch or a bad record
                bad = any(o.f.d.get(t) == 1 for t in js) or [e for e in flat(o.ev) if e.kind in ('call', 'ext') and ev_err(o, e)]
                if not bad and js:
                    j = vf(list(js)[0], 0, 0)
                    q = with_(o, [(eqt(fld(j, k), fld(want, k)), 1) for k in D.values()])
                    cx.chk('D01', 'db-metadata:matching-accepted', True if q is None else None if opaque_out(o) or cross(o, j, want) else False, W, 'a directory with the same backends is refused')
            continue
        if rd and ev_err(o, rd[0]):
            kinds = [v for k, t, v in o.f.items() if k == 'd' and isinstance(t, T) and t.op == 'app' and t.a[0] == 'Error::kind']
            if writes or o.rk == 'ok':
                good = kinds and all(v == 0 for v in kinds)
                cx.chk('D01', 'db-metadata:unreadable-is-error', True if good else None if opaque_out(o) and not kinds else False, where(r, writes[0]) if writes else W, 'a record that cannot be read is replaced by a new one')
        if not rd and (writes or o.rk == 'ok'):
            cx.unk('D01', 'db-metadata:absence', W, 'absence is tested another way'); 
        if o.rk == 'ok':
            p = rd[0].args[0] if rd else None
            if p is None: continue
            w = durable(cx, 'D01', 'db-metadata', r, o, want, p, W)
            cx.chk('D01', 'db-metadata:recorded', w, W, 'a new directory gets no record of its backends')
            if w: ncreate += 1
    cx.chk('D01', 'db-metadata:possible', (ncreate >= 1 and nmatch >= 1) or None, W, '')

def cross(o, a, b):
    """facts compare a and b in a way other than field by field"""
    for k, t, v in o.f.items():
        if k == 'b' and isinstance(t, T) and t.op == 'eq':
            x, y = t.a
            if not (x.op == 'fld' and y.op == 'fld'): 
                if contains(t, a) or contains(t, b): return True
    return False

# ---------------------------------------------------------------- reopening
RCUT = frozenset(('Chunk.new', 'Chunk.close', 'ChunkOpts.read_config_from_dir', '.get_current_timestamp', '.decode_chunk_dir'))

@rule('D03')
def db_reopen(cx):
    i = cx.need('MonolithDb', 'read_existing_chunk')
    r = cx.good(i, RCUT)
    d, sb, ib = r.args[:3]
    W = i['path']
    O = adt_fields(cx, 'ChunkOpts')
    nfk = variant(cx, 'MonolithErr', 'NotFoundErr')
    nok = 0
    for o in r.rets:
        if o.rk == 'err':
            cx.chk('D03', 'reopen:answered', True if failing_any(o) or elerr(o) else None if opaque_out(o) or any(e.kind == 'loop' for e in o.ev) else False, W, 'reopening fails although nothing failed'); continue
        nok += 1
        rdd = top(o, 'fs::read_dir')
        if not cx.chk('D03', 'reopen:reads-directory', len(rdd) == 1 or None, W, 'directory reads'): continue
        cx.chk('D03', 'reopen:directory', same(rdd[0].args[0], d), where(r, rdd[0]), 'chunks are looked for in %s' % show(rdd[0].args[0])[:80])
        cx.chk('D03', 'reopen:directory-result', ev_ok(o, rdd[0]), where(r, rdd[0]), 'an unreadable directory counts as empty')
        ents = vf(rdd[0].res, 0, 0)
        v = o.p
        srt = None
        while v.op in ('sorted', 'sortby', 'rev'):
            if v.op in ('sorted', 'sortby') and srt is None: srt = (v.op, v.a[1], v)
            elif v.op == 'rev' and srt is None: srt = ('rev', None, v)
            v = v.a[0]
        ps = parts(v)
        if len(ps) == 1: v = ps[0]
        while v.op in ('sorted', 'sortby'):
            if srt is None: srt = (v.op, v.a[1], v)
            v = v.a[0]
        if v is EMPTY and all(q.p is EMPTY for q in r.rets if q.rk == 'ok'):
            cx.bad('D03', 'reopen:chunks', W, 'no chunk is brought back'); continue
        if v.op != 'comp': cx.unk('D03', 'reopen:chunks', W, 'chunks are %s' % show(v)[:120]); continue
        cx.chk('D03', 'reopen:sorted', True if srt and srt[0] == 'sorted' and (sort_natural(srt[1]) or srt[1] is fld(mk('sym', 'sa'), adt_fields(cx, 'Chunk')['start_time'])) else None if srt and srt[0] != 'rev' else False, W, 'reopened chunks are not ordered by start time')
        src, cases = v.a
        if src is not ents:
            part = src.op in ('prefix', 'slice')
            ch = src
            while ch.op in ('prefix', 'slice', 'rev', 'sorted'): ch = ch.a[0]
            cx.chk('D03', 'reopen:all-entries', False if part and ch is ents else None if not (ch is ents) else True, W, 'only some entries are looked at: %s' % show(src)[:120])
        loops = [e.x for e in o.ev if e.kind == 'loop']
        for L in [e for e in o.ev if e.kind == 'loop']:
            if L.x.src is not src: continue
            for dd, es, vals in L.x.paths:
                f = iter_facts(o, dd)
                if f is None: continue
                reopen_path(cx, r, o, L, f, dd, list(flat(es)), cases, src, sb, ib, O, nfk, W)
        # each case that yields a chunk
    cx.chk('D03', 'reopen:possible', nok >= 1, W, 'no directory can be reopened')
    for o in r.panics:
        v = o.v
        t = v.a[2] if isinstance(v, T) and v.op == 'panic' and v.a[0] == 'unwrap' and len(v.a) > 2 else None
        if isinstance(t, T) and t.op == 'vf' and t.a[0].op == 'res' and t.a[0].a[0] == 'Builder::read_from_chunk' and o.f.d.get(t) == 0:
            cx.bad('D03', 'reopen:half-made', W, 'a chunk of which only one half was recorded stops the database from opening')

def elerr(o):
    return any(k == 'd' and v == 1 and isinstance(t, T) and (t.op == 'el' or (t.op == 'app')) for k, t, v in o.f.items())

def entry_name(t, e):
    """t is the name of the directory entry e? True/False/None"""
    ent = vf(e, 0, 0)
    def text(x):
        while x.op == 'vf' and x.a[0].op == 'app' and x.a[0].a[0] in ('into_string', 'to_str'): x = x.a[0].a[1]
        while x.op == 'app' and x.a[0] in ('to_string_lossy', 'into_string', 'to_str') and len(x.a) == 2: x = x.a[1]
        return x
    b = text(t)
    isp = lambda x: x.op == 'app' and x.a[0] == 'DirEntry::path' and x.a[1] is ent
    if b.op == 'app' and b.a[0] == 'DirEntry::file_name' and b.a[1] is ent: return True
    if isp(b): return False
    if t.op == 'slice' and isp(text(t.a[0])):
        lo, hi = t.a[1], t.a[2] if len(t.a) > 2 else None
        k, cs = lin_of(lo) if lo.op == 'lin' else (0, {lo: 1})
        if len(cs) == 1:
            x = list(cs)[0]
            if x.op == 'vf' and x.a[1] == 1 and x.a[0].op == 'app' and x.a[0].a[0] in ('rfind', 'find') and x.a[0].a[1] is t.a[0] and x.a[0].a[2] is lit('/'):
                if x.a[0].a[0] == 'rfind': return k == 1
                return False
    return None

def sort_natural(k):
    return k is lit('natural') or k == 'natural'

def reopen_path(cx, r, o, L, f, dd, es, cases, src, sb, ib, O, nfk, W):
    dec = [e for e in es if e.name == '::decode_chunk_dir']
    cfg = [e for e in es if e.name == 'ChunkOpts::read_config_from_dir']
    rs = [e for e in es if e.name == 'Builder::read_from_chunk']
    cn = [e for e in es if e.name == 'Chunk::new']
    cl = [e for e in es if e.name == 'Chunk::close']
    dk = lambda t: t.a[3] if t.op == 'adt' else f.d.get(t)
    # does this iteration produce a chunk?
    out = None
    for cd, pp in cases:
        if all(x in dd for x in cd) or frozenset(cd) <= frozenset(dd):
            if pp: out = pp
    if out is None and not any(frozenset(cd) <= frozenset(dd) for cd, pp in cases): return
    if out is None:
        # skipped: only for entries that are no chunks
        if any(dk(e.res) == 1 for e in dec): cx.ok('D03', 'reopen:skipped', W); return
        if not dec:
            und = opaque_facts(dd) or not any(x[0] == 'd' for x in dd)
            ent_err = f.d.get(el(src)) == 1
            cx.chk('D03', 'reopen:skipped', False if ent_err else None, W, 'an entry that cannot be read is skipped' if ent_err else 'an entry is skipped before its name is decoded'); return
        for e in cfg:
            if dk(e.res) == 1:
                k = f.d.get(vf(e.res, 1, 0))
                cx.chk('D03', 'reopen:skipped', True if k == nfk else False, where(r, e), 'a chunk whose metadata cannot be read is skipped on reopening'); return
        for e in rs:
            if dk(e.res) == 1: cx.bad('D03', 'reopen:skipped', where(r, e), 'a chunk that cannot be opened is skipped on reopening'); return
        if any(dk(e.res) == 0 and dk(vf(e.res, 0, 0)) == 0 for e in rs): cx.ok('D03', 'reopen:skipped', W); return
        for e in cfg:
            if dk(e.res) is None: cx.bad('D03', 'reopen:skipped', where(r, e), 'a chunk is skipped on reopening whether or not it has metadata'); return
        for e in rs:
            if dk(e.res) is None: cx.bad('D03', 'reopen:skipped', where(r, e), 'a chunk is skipped on reopening whether or not it can be opened'); return
        cx.chk('D03', 'reopen:skipped', None if opaque_facts(dd) else False, W, 'a chunk directory is skipped on reopening')
        return
    if len(out) != 1 or out[0].op != 'one': cx.unk('D03', 'reopen:chunk', W, 'element'); return
    v = out[0].a[0]
    if len(cn) != 1: cx.unk('D03', 'reopen:chunk', W, '%d chunks per entry' % len(cn)); return
    c = cn[0]
    cx.chk('D03', 'reopen:chunk', same(v, c.res), where(r, c), 'kept is %s' % show(v)[:100])
    cx.chk('D03 K01', 'reopen:closed', True if any(e.args[0] is c.res for e in cl) else None if any(opaque(e.args[0]) for e in cl) else False, where(r, c), 'a reopened chunk accepts writes')
    if len(dec) != 1 or len(cfg) != 1: cx.unk('D03', 'reopen:options', W, 'name or metadata read %d/%d times' % (len(dec), len(cfg))); return
    n, m = dec[0], cfg[0]
    cx.chk('D03', 'reopen:name', entry_name(n.args[0], el(src)), where(r, n), 'the window is read from %s' % show(n.args[0])[:160])
    cx.chk('D03', 'reopen:metadata-result', f.d.get(m.res) == 0, where(r, m), 'a chunk without readable metadata is opened')
    win = vf(n.res, 0, 0)
    S, E = fld(win, 0), fld(win, 1)
    stored = vf(m.res, 0, 0)
    opts = c.args[2]
    if opts.op == 'adt': of = opts.a[4:]
    elif opts.op == 'upd' or True:
        of = [fld(opts, k) for k in range(len(O))]
    st, en, idf = of[O['start_time']], of[O['end_time']], of[O['identifier']]
    def some(t):
        if t.op == 'adt' and t.a[1] == 'Some': return t.a[4]
        return None
    s = some(st)
    if s is None and st is fld(stored, O['start_time']): cx.ok('D03', 'reopen:start-time', where(r, c))
    else: cx.chk('D03', 'reopen:start-time', None if s is None and opaque(st) else False if s is None else same(s, S) or (None if s is vf(fld(stored, O['start_time']), 1, 0) else same(s, S)), where(r, c), 'a reopened chunk starts at %s' % show(s if s is not None else st)[:100])
    e = some(en)
    now = [x.res for x in es if x.name == '::get_current_timestamp'] + [x for x in subterms(en) if x.op == 'res' and x.a[0] == '::get_current_timestamp']
    if e is None: cx.chk('D03', 'reopen:end-time', True if en is fld(stored, O['end_time']) else None if opaque(en) else False, where(r, c), 'a reopened chunk ends at %s' % show(en)[:100])
    elif e is E or e is vf(fld(stored, O['end_time']), 1, 0): cx.ok('D03', 'reopen:end-time', where(r, c))
    elif e in now:
        g = f.copy()
        cx.chk('D03', 'reopen:end-time', not g.assume(lt(E, e), 1), where(r, c), 'a reopened chunk is extended up to now')
    elif e.op in ('min',) or (e.op == 'app' and e.a[0] == 'min'): cx.chk('D03', 'reopen:end-time', True if set(x for x in e.a if isinstance(x, T)) <= set([E] + now) else None, where(r, c), '')
    else: cx.chk('D03', 'reopen:end-time', None if opaque(e) or now and contains(e, now[0]) else False, where(r, c), 'a reopened chunk ends at %s' % show(e)[:100])
    cx.chk('D03 D05', 'reopen:identifier', same(idf, fld(stored, O['identifier'])), where(r, c), 'a reopened chunk gets the identifier %s' % show(idf)[:100])
    # both parts
    md = m.args[0]
    for k, b, nm in ((0, sb, 'storage'), (1, ib, 'indexer')):
        q = [x for x in rs if same(c.args[k], vf(vf(x.res, 0, 0), 1, 0))]
        if not q:
            cx.chk('D03', 'reopen:%s' % nm, None if opaque(c.args[k]) else False, where(r, c), 'the %s of a reopened chunk is %s' % (nm, show(c.args[k])[:100])); continue
        x = q[0]
        cx.chk('D03', 'reopen:%s-builder' % nm, same(x.args[0], fld(b, 0)), where(r, x), 'the %s is opened by %s' % (nm, show(x.args[0])[:60]))
        cx.chk('D03', 'reopen:%s-options' % nm, True if some(x.args[2]) is opts else None if opaque(x.args[2]) else False, where(r, x), 'the %s is opened with other options than the chunk' % nm)
        sub_, par = last(x.args[1])
        if sub_ is None: cx.chk('D03', 'reopen:%s-path' % nm, None, where(r, x), show(x.args[1])[:80]); continue
        cx.chk('D03', 'reopen:%s-path' % nm, same(par, md), where(r, x), 'the %s is opened in %s, the metadata was in %s' % (nm, show(par)[:80], show(md)[:80]))
        want = built_at(cx, nm)
        if want is not None: cx.chk('D03', 'reopen:%s-place' % nm, same(sub_, want), where(r, x), 'the %s is opened at %s but written at %s' % (nm, show(sub_), show(want)))

OPENS = ('Db::start_default', 'Db::start', 'Db::open')
def open_path(e):
    """path of a sled open event"""
    a = e.args[0]
    if e.name in ('Db::start_default', 'Db::open'): return a
    if e.name == 'Db::start':
        for t in subterms(a):
            if t.op == 'app' and t.a[0] == 'ConfigBuilder::path': return t.a[2]
    return None

def built_at(cx, nm):
    """sub-directory where the sled builder of this part creates its files"""
    ty = {'storage': 'SledStorageBuilder', 'indexer': 'SledIndexerBuilder'}[nm]
    i = cx.find(ty, 'build', 'Builder')
    if i is None: return None
    r = cx.run(i)
    if r.err: return None
    s = set()
    for o in r.outs:
        for e in flat(o.ev):
            if e.name in OPENS:
                p = open_path(e)
                if p is None: return None
                n, par = last(p)
                s.add((n, par))
    if len(s) != 1: return None
    (n, par), = s
    if par is not mk('sym', 'arg1'): return None
    return n

@rule('D03 D06 W02')
def sled_builders(cx):
    for ty, nm in (('SledStorageBuilder', 'storage'), ('SledIndexerBuilder', 'indexer')):
        b = cx.find(ty, 'build', 'Builder'); q = cx.find(ty, 'read_from_chunk', 'Builder')
        if not b or not q: cx.unk('D03', 'sled-%s:builder' % nm, ty, 'builder not found'); continue
        for i, meth in ((b, 'build'), (q, 'read_from_chunk')):
            r = cx.run(i)
            W = i['path']
            if r.err or r.unmod: cx.unk('D03', 'sled-%s:%s' % (nm, meth), W, '%s %s' % (r.err, sorted(r.unmod))); continue
            nok = 0
            for o in r.rets:
                op = [e for e in flat(o.ev) if e.name in OPENS]
                if o.rk == 'err':
                    cx.chk('D03', 'sled-%s:%s:answered' % (nm, meth), True if [e for e in flat(o.ev) if ev_err(o, e)] else None if opaque_out(o) else False, W, 'opening fails although nothing failed'); continue
                v = o.p
                if meth == 'read_from_chunk':
                    so = some_of(o.f, v)
                    if so is None: cx.unk('D03', 'sled-%s:%s' % (nm, meth), W, show(v)[:100]); continue
                    if so[0] == 'none':
                        # "nothing there" must not be claimed for an existing directory
                        ex = exists_false(o, r.args[1])
                        cx.chk('D03', 'sled-%s:none' % nm, True if ex else None if opaque_out(o) else False, W, 'an existing %s is not reopened' % nm)
                        continue
                    v = so[1]
                nok += 1
                if not cx.chk('D03 D06', 'sled-%s:%s:opens' % (nm, meth), True if len(op) == 1 else None if op else False, W, '%d databases opened' % len(op)): continue
                e = op[0]
                cx.chk('D03 D06', 'sled-%s:%s:open-result' % (nm, meth), ev_ok(o, e), where(r, e), 'a failed open is not noticed')
                p = open_path(e)
                if p is None: cx.unk('D03', 'sled-%s:%s:path' % (nm, meth), where(r, e), show(e.args[0])[:100])
                elif meth == 'build':
                    n, par = last(p)
                    cx.chk('D03 D06', 'sled-%s:build:path' % nm, None if n is None and opaque(p) else True if n is not None and par is r.args[1] else False, where(r, e), 'the %s is created at %s' % (nm, show(p)[:100]))
                else: cx.chk('D03', 'sled-%s:read:path' % nm, same(p, r.args[1]), where(r, e), 'the %s is opened at %s' % (nm, show(p)[:100]))
                cx.chk('D03 D06', 'sled-%s:%s:uses-db' % (nm, meth), True if contains(v, vf(e.res, 0, 0)) else None if opaque(v) else False, W, 'the %s returned does not use the opened database' % nm)
                ro = mentions(e.args[0], lambda t: t.op == 'app' and t.a[0] == 'ConfigBuilder::temporary')
                if ro:
                    tv = [t.a[-1] for t in subterms(e.args[0]) if t.op == 'app' and t.a[0] == 'ConfigBuilder::temporary'][:1]
                    cx.chk('D03', 'sled-%s:%s:temporary' % (nm, meth), tv[0].a[0] == 0 if is_int(tv[0]) else None, where(r, e), 'the database is removed when it is closed')
            cx.chk('D03', 'sled-%s:%s:possible' % (nm, meth), nok >= 1, W, 'never opens')
    a, b = built_at(cx, 'storage'), built_at(cx, 'indexer')
    if a is not None and b is not None: cx.chk('D03 D06 W02', 'sled:separate', a is not b, 'storage/sled_storage.rs', 'storage and index share the place %s' % show(a))

def exists_false(o, p):
    for k, t, v in o.f.items():
        if k == 'b' and v == 0 and isinstance(t, T) and t.op in ('app', 'res') and ('exists' in str(t.a[0]) or 'is_dir' in str(t.a[0])): return True
    return False

@rule('D03 R05')
def chunk_order(cx):
    """reopened chunks are sorted with Chunk's own ordering: it must be the start time"""
    F = adt_fields(cx, 'Chunk')
    A, B = window(cx)
    self_, oth = mk('sym', 'arg0'), mk('sym', 'arg1')
    for tr, m in (('Ord', 'cmp'), ('PartialOrd', 'partial_cmp')):
        i = cx.find('Chunk', m, tr)
        if i is None: cx.unk('D03', 'chunk-order:' + m, 'Chunk', 'not found'); continue
        r = cx.run(i)
        if r.err or r.unmod: cx.unk('D03', 'chunk-order:' + m, i['path'], '%s' % (r.err or sorted(r.unmod))); continue
        a, b = A, subst(A, {self_: oth})
        for o in r.rets:
            for nm, conds, want in (('before', [(lt(a, b), 1)], -1), ('after', [(lt(b, a), 1)], 1), ('same', [(ieq(a, b), 1)], 0)):
                s = o.s.copy()
                if not all(s.f.assume(t, v) for t, v in conds): continue
                v = o.v
                if m == 'partial_cmp':
                    so = some_of(s.f, v)
                    if so is None: cx.unk('D03', 'chunk-order:' + m, i['path'], show(v)[:80]); continue
                    if so[0] == 'none': cx.chk('D03 R05', 'chunk-order:' + m, None if opaque_out(o) else False, i['path'], 'chunks are not comparable'); continue
                    v = so[1]
                k = ordering(s.f, v)
                if nm == 'same' and k != 0: cx.chk('D03 R05', 'chunk-order:same-start', None, i['path'], ''); continue
                cx.chk('D03 R05', 'chunk-order:' + m, None if k is None else k == want, i['path'], 'a chunk starting %s another one compares as %s' % (nm, k))

def ordering(f, v):
    if v.op == 'adt' and v.a[1] in ('Less', 'Equal', 'Greater'): return {'Less': -1, 'Equal': 0, 'Greater': 1}[v.a[1]]
    if (v.op == 'cmp' or v.op == 'app' and v.a[0] == 'cmp') and len(v.a) >= 2:
        x, y = v.a[-2:]
        if f.truth(lt(x, y)) == 1: return -1
        if f.truth(lt(y, x)) == 1: return 1
        if f.truth(ieq(x, y)) == 1: return 0
    k = f.d.get(v)
    if k is not None: return k if k in (-1, 0, 1) else {255: -1}.get(k)
    return None
