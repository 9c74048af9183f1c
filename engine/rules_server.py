"""HTTP server: triage, replies, read and write requests."""
from rulebase import *
from rules_chunk import variant, adt_fields, with_, same3, failing
from rules_common import all_of, and3, unw, conv_fields, is_plabel, is_sample, is_tp, is_label, fact_terms_of, facts_of
from rules_dir import eqt
from rules_db import walk, excluded

SCUT = frozenset(('MonolithDb.query', 'MonolithDb.write_time_points', 'MonolithDb.write_time_point', 'MonolithServer.query', 'MonolithServer.write'))
QC = frozenset(('MonolithDb.query', 'MonolithDb.write_time_points', 'MonolithDb.write_time_point'))

def handler(cx):
    i = cx.find('MonolithServer', '_process')
    if i is not None: return i
    def takes_request(i):
        for n in range(i['argc']):
            t = cx.db.tys[i['locals'][n + 1]]
            if t['k'] == 'adt' and t['path'].split('::')[-1] == 'Request': return True
        return False
    c = [i for i in cx.db.local if not i['closure'] and takes_request(i) and i['identity']]
    if len(c) != 1: raise Undecided('no single request handler (%s)' % ', '.join(i['path'] for i in c))
    return c[0]

def response(t):
    """(status, data) of a response term; data None when unknown or empty"""
    if t.op != 'app' or not isinstance(t.a[0], str): return None
    n, a = t.a[0], t.a[1:]
    def code(x):
        while x.op == 'app' and x.a[0] == 'StatusCode' and len(x.a) > 1: x = x.a[1]
        return x.a[0] if is_int(x) else None
    if n in ('Response::empty', 'Response::new_empty'): return (code(a[0]), None)
    if n in ('Response::from_data', 'Response::from_string'): return (200, a[0])
    if n == 'Response::with_status_code':
        b = response(a[0])
        return (code(a[1]), b[1] if b else None)
    return None

KNOWN = ('eq', 'starts_with', 'ends_with', 'contains')
def atom(t): return t.a[0].split(':')[-1] if t.op == 'app' and isinstance(t.a[0], str) else t.op
def url_atoms(f, url):
    return [t for t in f.b if contains(t, url)]

def has_cause(o, msg):
    """something in the request or below the server went wrong"""
    for t, k in o.f.d.items():
        if k == 1 and (t.op == 'res' or t.op == 'app' and t.a[0] in ('decompress', 'compress')): return True
    z = with_(o, [(lt(I(0), mk('app', 'msgsize', msg)), 1)]) if msg is not None else o
    return z is None

def simple_facts(o, msg, url, rp, wp):
    """all facts of the outcome are ones this rule understands"""
    ok_ = {eqt(url, rp), eqt(url, wp)}
    for t in fact_terms_of(o.f.items()):
        if t in ok_ or t.op == 'int': continue
        if t.op == 'res' or t.op == 'app' and t.a[0] in ('decompress', 'compress', 'msgsize'): continue
        return False
    return True

@rule('S01 W01 R06')
def process(cx):
    i = handler(cx)
    r = cx.good(i, SCUT)
    W = where(r)
    F = adt_fields(cx, 'MonolithServer')
    sv = [a for n, a in enumerate(r.args) if last_seg(ty_name(cx, i, n)) == 'MonolithServer']
    rq = [a for n, a in enumerate(r.args) if last_seg(ty_name(cx, i, n)) == 'Request']
    if len(sv) != 1 or len(rq) != 1: raise Undecided('request handler arguments')
    sv, rq = sv[0], rq[0]
    rp, wp = fld(sv, F['read_path']), fld(sv, F['write_path'])
    url = mk('app', 'Request::url', rq)
    isr, isw = eqt(url, rp), eqt(url, wp)
    nr = nw = n4 = 0
    for o in r.rets:
        rs = [(e, lp) for e, lp in walk(o.ev) if e.kind in ('call', 'ext') and e.name == 'Request::respond']
        if any(lp for e, lp in rs): cx.unk('S01', 'reply:once', W, 'reply in a loop'); continue
        rs = [e for e, lp in rs if e.args[0] is rq]
        und = any(opaque(t) for t in fact_terms_of(o.f.items()))
        # tiny_http answers 500 for a request that is dropped: still a missing reply of ours
        if not cx.chk('S01', 'reply:once', True if len(rs) == 1 else None if und else False, W, 'a request gets %d replies (%s)' % (len(rs), facts_str(o.f)[:300])): continue
        e = rs[0]
        x = response(e.args[1])
        if x is None or x[0] is None: cx.unk('S01', 'reply:status', where(r, e), show(e.args[1])[:120]); continue
        code, data = x
        good = 200 <= code < 300
        # where the decoded request comes from
        qs, ws = top(o, 'MonolithServer::query'), top(o, 'MonolithServer::write')
        rd, wr, ua = o.f.b.get(isr), o.f.b.get(isw), url_atoms(o.f, url)
        plain = all(t in (isr, isw) for t in ua)
        dbev = qs + ws
        # triage
        if qs: cx.chk('S01', 'triage:read-path', True if rd == 1 else False if plain or all(atom(t) in KNOWN for t in ua) and not any(mentions(t, lambda y: y.op == 'len' and y.a[0] in (url, rp, wp)) for t in fact_terms_of(o.f.items())) else None, where(r, qs[0]), 'a request whose url is not the read path is handled as a query (%s)' % '; '.join(show(t)[:60] for t in ua))
        if ws: cx.chk('S01', 'triage:write-path', True if wr == 1 else False if plain or all(atom(t) in KNOWN for t in ua) and not any(mentions(t, lambda y: y.op == 'len' and y.a[0] in (url, rp, wp)) for t in fact_terms_of(o.f.items())) else None, where(r, ws[0]), 'a request whose url is not the write path is handled as a write (%s)' % '; '.join(show(t)[:60] for t in ua))
        if qs and ws: cx.bad('S01', 'triage:one-operation', W, 'one request is both a query and a write'); continue
        cx.chk('S01', 'triage:one-operation', len(dbev) <= 1, W, 'one request is carried out %d times' % len(dbev))
        msgs = set(t for t in deep(o) if t.op == 'app' and t.a[0] == 'decoded')
        msg = dbev[0].args[1] if dbev else (list(msgs)[0] if len(msgs) == 1 else None)
        simple = simple_facts(o, msg, url, rp, wp)
        cause = has_cause(o, msg)
        T1 = 'S01 W01' if ws else 'S01 R06' if qs else 'S01'
        if good and code == 200 or good:
            if code != 200: cx.chk('S01', 'reply:status', False, where(r, e), 'success status %d' % code)
            if not dbev:
                rg = 'W01 S01' if rd != 1 and wr != 0 else 'R06 S01'
                cx.chk(rg, 'reply:success-only-if-done', None if und else False, where(r, e), 'a request that was neither answered nor carried out gets status %d (%s)' % (code, facts_str(o.f)[:200])); continue
            c = dbev[0]
            cx.chk(T1, 'reply:success-only-if-done', True if ev_ok(o, c) else False, where(r, e), 'status %d although the %s failed' % (code, 'query' if qs else 'write'))
            # the operation worked on the whole, decoded request
            complete(cx, o, c, rq, T1, where(r, c))
            if qs:
                nr += 1
                z = with_(o, [(ieq(mk('app', 'msgsize', c.args[1]), I(0)), 1)])
                other = any(contains(t, c.args[1]) and not (t.op == 'app' and t.a[0] == 'msgsize') and t is not c.res and not (t.op == 'app' and t.a[0] == 'compress') for t in fact_terms_of(o.f.items()))
                cx.chk('S01', 'reply:empty-query-refused', True if z is None else None if other else False, where(r, c), 'an empty read request gets a success reply')
                enc = mk('app', 'encoded', vf(c.res, 0, 0))
                comp = mk('app', 'compress', enc)
                want = vf(comp, 0, 0)
                # a snappy stream starts with the length of its content: never empty
                if with_(o, [(lt(I(0), length(want)), 1)]) is None: continue
                cx.chk('S01 S03 R06', 'reply:data', False if data is None else same(data, want), where(r, e), 'the reply carries %s' % (show(data)[:160] if data is not None else 'no data'))
                wt = [y for y in o.ev if y.name == 'Message::write_to']
                if o.f.d.get(comp) is not None: cx.chk('S01', 'reply:compressed', o.f.d.get(comp) == 0, where(r, e), 'a reply is sent although compressing it failed')
            else: nw += 1
        elif code >= 400:
            if code == 404 and not dbev:
                n4 += rd == 0 and wr == 0
                if rd == 1 or wr == 1:
                    cx.chk('S01', 'reply:failure-has-cause', True if cause else False if simple and not und else None, W, 'a request to the %s path gets status 404' % ('read' if rd == 1 else 'write'))
                else: cx.ok('S01', 'reply:failure-has-cause', W)
                continue
            if rd == 0 and wr == 0: cx.chk('S01', 'reply:unknown-path', True if code == 404 or cause else False if simple else None, where(r, e), 'a request to an unknown path gets status %d' % code); continue
            cx.chk('S01', 'reply:failure-has-cause', True if cause else False if simple and not und else None, where(r, e), 'status %d although nothing failed (%s)' % (code, facts_str(o.f)[:300]))
        else: cx.chk('S01', 'reply:status', False, where(r, e), 'a request is answered with status %d' % code)
    cx.chk('S01 R06', 'reply:query-possible', nr >= 1 or None, W, 'no query is answered')
    cx.chk('S01 W01', 'reply:write-possible', nw >= 1 or None, W, 'no write is acknowledged')
    cx.chk('S01', 'reply:404-possible', n4 >= 1 or None, W, 'no request is answered with 404')
    allp = all(o.f.b.get(isr) in (0, 1) for o in r.rets)
    if not nr and not any(opaque(t) for o in r.rets for t in fact_terms_of(o.f.items())) and not any(top(o, 'MonolithServer::query') for o in r.rets): cx.bad('S01', 'reply:query-possible', W, 'no request is ever handled as a query')
    if not nw and not any(opaque(t) for o in r.rets for t in fact_terms_of(o.f.items())) and not any(top(o, 'MonolithServer::write') for o in r.rets): cx.bad('S01 W01', 'reply:write-possible', W, 'no request is ever handled as a write')

def deep(o):
    for t in fact_terms_of(o.f.items()):
        for x in subterms(t): yield x
    for e in o.ev:
        for a in e.args or ():
            if isinstance(a, T):
                for x in subterms(a): yield x

def ty_name(cx, i, n):
    t = cx.db.tys[i['locals'][n + 1]]
    while t['k'] == 'ref': t = cx.db.tys[t.get('ty', t.get('to'))]
    return t.get('path', t['k'])

def complete(cx, o, c, rq, tags, W):
    """the request handed on is the whole body, decompressed and decoded, each step successful"""
    m = c.args[1]
    if m.op != 'app' or m.a[0] != 'decoded': cx.chk(tags, 'request:decoded', None if opaque(m) else False, W, 'carried out is %s, not the decoded body' % show(m)[:160]); return
    st = m.a[1]
    mg = [e for e in flat(o.ev) if e.name == 'Message::merge_from' and e.args[0] is st]
    cx.chk(tags, 'request:decode-result', any(ev_ok(o, e) for e in mg), W, 'a request that could not be decoded is carried out')
    b = st.a[1] if st.op == 'app' and st.a[0] == 'cis' else None
    dec = b.a[0] if b is not None and b.op == 'vf' and b.a[1] == 0 else None
    if dec is None or dec.op != 'app' or dec.a[0] != 'decompress':
        cx.chk(tags, 'request:decompressed', None if b is None or opaque(b) else False, W, 'decoded is %s, not the decompressed body' % show(b if b is not None else st)[:160]); return
    cx.chk(tags, 'request:decompress-result', o.f.d.get(dec) == 0, W, 'a body that could not be decompressed is carried out')
    d = dec.a[1]
    if d.op == 'app' and d.a[0] == 'readdata':
        src = d.a[1]
        if src.op == 'res':
            cx.chk(tags, 'request:read-result', o.f.d.get(src) == 0, W, 'a request is carried out although reading its body failed')
            cx.chk(tags, 'request:read-whole', True if src.a[0] in ('Read::read_to_end', 'Read::read_exact') else False, W, 'only one piece of the body is read')
            body = src.a[1][0] if isinstance(src.a[1], tuple) and src.a[1] else None
            cx.chk(tags, 'request:body', True if body is mk('app', 'body', rq) else None, W, 'read from %s' % (show(body)[:80] if body is not None else '?'))
        else: cx.unk(tags, 'request:read-result', W, show(src)[:100])
    else:
        part = d.op == 'slice' and d.a[0].op == 'app' and d.a[0].a[0] == 'readdata'
        cx.chk(tags, 'request:body', False if part and not opaque(d) else None, W, 'only a part of the body is decoded: %s' % show(d)[:100])

@rule('S01')
def serve(cx):
    i = cx.need('MonolithServer', 'serve')
    h = handler(cx)
    hn = 'MonolithServer.' + h['path'].split('::')[-1]
    ev_ = 'MonolithServer::' + h['path'].split('::')[-1]
    r = cx.good(i, frozenset((hn,)))
    W = where(r)
    n = 0
    for o in r.rets:
        if o.rk == 'err': continue
        for e in o.ev:
            if e.kind != 'loop': continue
            L = e.x
            if not (L.src.op == 'res' and L.src.a[0] == 'Server::incoming_requests'):
                if mentions(L.src, lambda t: t.op == 'res' and t.a[0] == 'Server::incoming_requests'):
                    x = L.src
                    cut = x.op in ('slice', 'prefix') or x.op == 'comp' and any(not pp for d, pp in x.a[1])
                    cx.chk('S01', 'serve:every-request', False if cut and not opaque(x) else None, W, 'only the requests %s are handled' % show(x)[:120])
                    n += 1
                continue
            n += 1
            cx.chk('S01', 'serve:every-request', not L.partial, W, 'the server stops taking requests after one of them')
            for d, es, vals in L.paths:
                c = [x for x, lp in walk(es) if x.kind == 'call' and x.name == ev_]
                und = any(opaque(t) for t in fact_terms_of(d))
                if not cx.chk('S01', 'serve:handled-once', True if len(c) == 1 else None if und else False, W, 'a request is handled %d times' % len(c)): continue
                cx.chk('S01', 'serve:handled', True if any(a is el(L.src) for a in c[0].args) else None, where(r, c[0]), 'handled is %s' % ', '.join(show(a)[:60] for a in c[0].args))
                F = adt_fields(cx, 'MonolithServer')
                s_ = [a for a in c[0].args if a is not el(L.src)]
                if s_ and s_[0] is not r.args[0] and s_[0].op == 'adt':
                    for f in ('read_path', 'write_path', 'db'): cx.chk('S01', 'serve:same-server', same(fld(s_[0], F[f]), fld(r.args[0], F[f])), where(r, c[0]), 'requests are handled with %s %s' % (f, show(fld(s_[0], F[f]))[:80]))
        if not n and not any(e.kind == 'loop' for e in o.ev) and top(o, 'Server::incoming_requests') and not any(opaque(t) for t in fact_terms_of(o.f.items())):
            cx.bad('S01', 'serve:loop', W, 'the server returns after at most one request')
    cx.chk('S01', 'serve:loop', n >= 1 or None, W, 'no loop over the incoming requests')

@rule('S01')
def server_new(cx):
    F = adt_fields(cx, 'MonolithServer')
    O = adt_fields(cx, 'ServerOpts')
    for i in cx.db.local:
        if i['closure'] or not i['iself'] or last_seg(i['iself']) != 'MonolithServer': continue
        n = i['path'].split('::')[-1]
        if n == 'new' and not i['itrait']:
            r = cx.good(i)
            for o in r.rets:
                if o.v.op != 'adt': cx.unk('S01', 'server:options', where(r), show(o.v)[:100]); continue
                for f in ('read_path', 'write_path', 'port', 'worker_num'):
                    if f in F and f in O: cx.chk('S01 O01' if f == 'port' else 'S01 O01', 'server:options', same(fld(o.v, F[f]), fld(r.args[0], O[f])), where(r), 'the %s of the server is %s' % (f, show(fld(o.v, F[f]))[:80]))
                cx.chk('S01', 'server:db', same(fld(o.v, F['db']), r.args[1]), where(r), 'the server works on %s' % show(fld(o.v, F['db']))[:80])
        if n == 'clone' and i['itrait']:
            r = cx.good(i)
            for o in r.rets:
                if o.v is r.args[0]: cx.ok('S01', 'server:clone', where(r)); continue
                for f in F: cx.chk('S01', 'server:clone', same(fld(o.v, F[f]), fld(r.args[0], F[f])) if o.v.op == 'adt' else None, where(r), 'the %s of a copy is %s' % (f, show(fld(o.v, F[f]))[:80]))

# ------------------------------------------------------------------ queries
def one_fields(cx, path):
    for p, a in cx.db.adt.items():
        if p == path and len(a['variants']) == 1: return {f[0]: n for n, f in enumerate(a['variants'][0]['fields'])}
    raise Undecided('no struct ' + path)

def unfield(v):
    while v.op == 'adt' and last_seg(v.a[0]) in ('RepeatedField', 'SingularField') and len(v.a) == 5: v = v.a[4]
    return v

def bound(t, raw, f):
    """a time bound: raw when not negative, zero otherwise"""
    # (the cast of a value known not to be negative keeps it)
    def val(t):
        if t is I(0): return 'zero'
        if t is raw: return 'raw'
        if t.op == 'wrap' and t.a[0] is raw and t.a[2] == 'u64': return 'raw'
        if t.op == 'ite': return 'mix'
        if t.op == 'app' and t.a[0] == 'max' and raw in t.a[1:] and I(0) in t.a[1:]: return 'both'
        if opaque(t): return None
        return 'other'
    k = val(t)
    if k in (None, 'mix'):
        if k == 'mix':
            c, a, b = t.a
            fs1, fs2 = f.cases(c, 1), f.cases(c, 0)
            return and3(*([bound(a, raw, g) for g in fs1] + [bound(b, raw, g) for g in fs2]))
        return None
    if k == 'other': return False
    if k == 'both': return True
    g = f.copy()
    if k == 'zero':
        if not g.assume(lt(I(0), raw), 1): return True
        return False
    if g.assume(lt(raw, I(0)), 1): return False
    return True

@rule('S03 S04 R06 S01')
def server_query(cx):
    i = cx.need('MonolithServer', 'query')
    r = cx.good(i, QC)
    W = where(r)
    F = conv_fields(cx)
    SF = adt_fields(cx, 'MonolithServer')
    RQ, RS = one_fields(cx, 'proto::remote::ReadRequest'), one_fields(cx, 'proto::remote::ReadResponse')
    Q, QR = one_fields(cx, 'proto::remote::Query'), one_fields(cx, 'proto::remote::QueryResult')
    M = one_fields(cx, 'proto::types::LabelMatcher')
    TAGS = 'S03'
    EQ = variant(cx, 'LabelMatcher_Type', 'EQ')
    kinds = [variant(cx, 'LabelMatcher_Type', k) for k in ('NEQ', 'RE', 'NRE')]
    src = unfield(fld(r.args[1], RQ['queries']))
    nok = 0
    for o in r.rets:
        und = any(opaque(t) for t in fact_terms_of(o.f.items()))
        if o.rk == 'err':
            qf = [t for t, k in o.f.d.items() if k == 1 and t.op == 'res']
            if not qf and (opaque(o.p) or mentions(o.p, lambda t: t.op == 'vf' and t.a[1] == 1)): qf = [1]
            if qf: cx.ok('S03 S01', 'server-query:fails-only-with-query', W); continue
            ty = [t for t in fact_terms_of(o.f.items()) if t.op == 'fld' and t.a[1] == M['field_type']]
            if ty:
                # refused because of the comparison type of a matcher
                eq_ = [t for t in ty if o.f.copy().assume_disc(t, EQ)]
                cx.chk('S04 S03', 'server-query:equality-answered', True if not eq_ else None if und else False, W, 'a query whose matchers are equalities is refused'); continue
            cx.chk('S03 S01', 'server-query:fails-only-with-query', None if und or o.f.items() or any(e.kind == 'loop' for e in o.ev) else False, W, 'a read request fails although no query failed (%s)' % show(o.p)[:80]); continue
        nok += 1
        v = o.p
        if v.op != 'adt': cx.unk(TAGS, 'server-query:results', W, show(v)[:160]); continue
        res = unfield(fld(v, RS['results']))
        if res.op != 'comp' or res.a[0] is not src:
            # (an empty request)
            if res.op in ('seq', 'cat', 'lit') and with_(o, [(lt(I(0), length(src)), 1)]) is None: continue
            x = res.a[0] if res.op == 'comp' else res
            y = x
            while y.op in ('rev', 'slice', 'prefix', 'sorted', 'uniq'): y = y.a[0]
            fixed = not opaque(res) and all(p.op == 'one' for p in parts(res)) and not any(opaque(t) for t in fact_terms_of(o.f.items())) and with_(o, [(lt(I(len(parts(res))), length(src)), 1)]) is not None
            c = False if fixed or (y is src and x is not src and x.op in ('rev', 'slice', 'prefix')) or not contains(res, src) and not opaque(res) else None
            cx.chk('S03 R06', 'server-query:one-result-per-query', c, W, 'results are %s' % show(res)[:200]); continue
        q = el(src)
        for d, pp in res.a[1]:
            f = facts_of(d, o.f)
            if f is None: continue
            und = any(opaque(t) for t in fact_terms_of(d))
            if len(pp) != 1 or pp[0].op != 'one':
                qe = [t for k, t, x in d if k == 'd' and x == 1 and t.op == 'res']
                T2 = 'R06 S03' if qe else 'S03'
                cx.chk(T2, 'server-query:one-result-per-query', None if und or pp and not all(p.op == 'one' for p in pp) else False, W, 'a query %s yields %d results' % ('that failed' if qe else '', len(pp))); continue
            cx.ok('S03', 'server-query:one-result-per-query', W)
            item = pp[0].a[0]
            # the database query behind this result
            qs = set(t for t in subterms(item) if t.op == 'res' and t.a[0] == 'MonolithDb::query') | set(t for k, t, x in d if k == 'd' and t.op == 'res' and t.a[0] == 'MonolithDb::query')
            if len(qs) != 1: cx.chk('S03 R06', 'server-query:asked', None if und or opaque(item) or len(qs) > 1 else False, W, 'a result is produced by %d database queries' % len(qs)); continue
            qr = qs.pop()
            cx.chk('R06 S01', 'server-query:query-result', True if f.d.get(qr) == 0 else False, W, 'a failed query yields a result')
            a = qr.a[1]
            if f.d.get(qr) != 0: continue
            # arguments
            cx.chk('S03', 'server-query:db', same(a[0], fld(r.args[0], SF['db'])), W, 'asked is %s' % show(a[0])[:60])
            ms = unfield(fld(q, Q['matchers']))
            lv = a[1]
            F0 = F['label']
            def is_m(v, e):
                if v.op != 'adt' or v.a[0] != 'common::label::Label': return None
                return and3(same(fld(v, F0['key']), fld(e, M['name'])), same(fld(v, F0['value']), fld(e, M['value'])))
            lv = fld(lv, 0) if lv.op == 'adt' else lv
            c = all_of(lv, ms, is_m)
            if c is False and lv.op == 'comp' and lv.a[0] is ms and contains(lv, fld(el(ms), M['field_type'])):
                # matchers treated by their type: a subset may be looked up in the index
                c = None
            cx.chk('S03 S04', 'server-query:matchers', c, W, 'the labels asked for are %s' % show(lv)[:200])
            for nm, t, raw in (('start', a[2], fld(q, Q['start_timestamp_ms'])), ('end', a[3], fld(q, Q['end_timestamp_ms']))):
                cx.chk('S03', 'server-query:' + nm, bound(t, raw, f), W, 'the %s of the queried range is %s (%s)' % (nm, show(t)[:80], '; '.join(show_fact(x) for x in d)[:120]))
            # result
            pairs = vf(qr, 0, 0)
            if item.op != 'adt': cx.unk('S03', 'server-query:series', W, show(item)[:160]); continue
            ts = fld(item, QR['timeseries'])
            def is_series(v, e):
                if v.op != 'adt': return None
                return and3(all_of(fld(v, F['pts']['labels']), fld(fld(e, 0), 0), is_plabel(F)), all_of(fld(v, F['pts']['samples']), fld(e, 1), is_sample(F)))
            cx.chk('S03 R06', 'server-query:series', all_of(ts, pairs, is_series), W, 'the series returned are %s' % show(ts)[:300])
            # comparison type: no matcher that is not an equality gets this far
            cx.chk('S04', 'matcher-type', matcher_types(cx, o, d, lv, item, src, ms, M['field_type'], kinds), W, 'a matcher that is not an equality is evaluated as one, or ignored')
    cx.chk('S03 R06', 'server-query:possible', nok >= 1 or None, W, 'no read request is answered')

def matcher_types(cx, o, d, lv, item, src, ms, FT, kinds):
    """True: every matcher of an answered query is known to be an equality"""
    elt = fld(el(ms), FT)
    def is_ft(t): return t.op == 'fld' and t.a[1] == FT and (contains(t.a[0], ms))
    loops = []
    def collect(es, whole, facts):
        for e in es:
            if e.kind != 'loop': continue
            L = e.x
            if L.src is ms: loops.append((L, whole))
            for k, (dd, es2, vals) in enumerate(L.paths):
                # (the paths of the loop over the queries that lead to this result)
                if L.src is src and facts_of(dd, facts) is None: continue
                collect(es2, whole and (not L.partial), facts_of(dd, facts) if L.src is src else facts)
    collect(o.ev, True, facts_of(d, o.f))
    res = []
    for L, whole in loops:
        if L.partial: res.append(False); continue
        c = True
        typed = any(contains(t, elt) for dd, es2, vals in L.paths for t in fact_terms_of(dd) + list(vals.values()))
        for dd, es2, vals in L.paths:
            f = facts_of(dd)
            if f is None: continue
            for k in kinds:
                if f.copy().assume_disc(elt, k): c = None if typed and (any(v.op != 'it' for v in vals.values()) or any(opaque(t) for t in fact_terms_of(dd))) else (c and False)
        res.append(c)
    if True in res: return True
    # a list of matchers of one type only
    x = lv
    if x.op == 'comp' and contains(x, elt) and (x.a[0] is ms or x.a[0].op == 'comp'):
        return False if not mentions(item, lambda t: t.op == 'ite') and not filtered(item, o, ms, FT) else None
    if None in res: return None
    terms = list(fact_terms_of(d)) + list(fact_terms_of(o.f.items())) + [lv]
    if any(opaque(t) for t in terms): return None
    # (looking at the first or one given matcher only)
    other = [t for t in terms if mentions(t, is_ft)]
    if any(not (t.a[0].op in ('index', 'vf', 'el') ) for tt in other for t in subterms(tt) if is_ft(t)): return None
    return False

def filtered(item, o, ms, FT):
    """is the result filtered with the matchers afterwards?"""
    def rec(t):
        if not isinstance(t, T) or t.op == 'res': return False
        if t.op == 'comp' and any(contains(x, el(ms)) for dd, pp in t.a[1] for x in fact_terms_of(dd)): return True
        def kids(a):
            for x in a:
                if isinstance(x, T): yield x
                elif isinstance(x, (tuple, frozenset)): yield from kids(x)
        return any(rec(x) for x in kids(t.a))
    return rec(item)

# ------------------------------------------------------------------- writes
@rule('W01 S03')
def server_write(cx):
    i = cx.need('MonolithServer', 'write')
    r = cx.good(i, QC)
    W = where(r)
    F = conv_fields(cx)
    SF = adt_fields(cx, 'MonolithServer')
    WR = one_fields(cx, 'proto::remote::WriteRequest')
    src = unfield(fld(r.args[1], WR['timeseries']))
    nok = 0
    for o in r.rets:
        und = any(opaque(t) for t in fact_terms_of(o.f.items()))
        if o.rk == 'err':
            c = any(k == 1 for k in o.f.d.values()) or mentions(o.p, lambda t: t.op == 'vf' and t.a[1] == 1)
            cx.chk('W01', 'server-write:fails-only-with-write', True if c else None if und else False, W, 'a write request fails although no write failed'); continue
        nok += 1
        ws = [(e, lp) for e, lp in walk(o.ev) if e.kind == 'call' and e.name in ('MonolithDb::write_time_points', 'MonolithDb::write_time_point')]
        loops = []
        for e, lp in ws:
            for L, d in lp[:1]:
                if L not in loops: loops.append(L)
        if with_(o, [(lt(I(0), length(src)), 1)]) is None: cx.ok('W01', 'server-write:every-series', W); continue
        if not ws:
            alls = [e.x for e in o.ev if e.kind == 'loop']
            cx.chk('W01', 'server-write:every-series', None if und or any(opaque(L.src) for L in alls) else False, W, 'a write request is acknowledged without writing anything'); continue
        tops = [e for e, lp in ws if not lp]
        if tops and o.f.d.get(tops[-1].res) == 1:
            cx.bad('W01', 'server-write:failure-reported', W, 'a write request is acknowledged although writing one of its series failed'); continue
        if len(loops) != 1 or any(len(lp) != 1 for e, lp in ws) or any(e.name.endswith('point') for e, lp in ws):
            cx.unk('W01 S03', 'server-write:every-series', W, 'shape'); continue
        L = loops[0]
        rec = L if hasattr(L, 'src') else L.x
        s = rec.src
        if s is not src:
            y = s
            while y.op in ('rev', 'slice', 'prefix', 'sorted', 'chunks'): y = y.a[0]
            part = y is src and s.op in ('slice', 'prefix') and not opaque(s)
            if y is src and s.op == 'rev': pass
            elif s.op == 'comp' and s.a[0] is src: pass
            else: cx.chk('W01', 'server-write:every-series', False if part else None, W, 'only the series %s are written' % show(s)[:120]); continue
        cx.chk('W01', 'server-write:every-series', not rec.partial, W, 'writing stops early but the request is acknowledged')
        if s.op == 'comp':
            for d, pp in s.a[1]:
                if not pp: cx.chk('W01', 'server-write:every-series', None if any(opaque(t) for t in fact_terms_of(d)) or emptysamples(d, fld(el(src), F['pts']['samples'])) else False, W, 'some series of the request are not written')
        e0 = el(s)
        for d, es, vals in rec.paths:
            f = facts_of(d, o.f)
            if f is None: continue
            dund = any(opaque(t) for t in fact_terms_of(d))
            k = [x for x, lp in walk(es) if x.kind == 'call' and x.name == 'MonolithDb::write_time_points']
            if len(k) != 1:
                if not k:
                    c = True if emptysamples(d, fld(e0, F['pts']['samples'])) else None if dund else False
                    cx.chk('W01', 'server-write:every-series', c, W, 'a series of the request is not written (%s)' % '; '.join(show_fact(x) for x in d)[:160])
                else: cx.unk('W01', 'server-write:every-series', W, 'a series is written %d times' % len(k))
                continue
            x = k[0]
            cx.chk('W01', 'server-write:write-result', True if f.d.get(x.res) == 0 else excluded(o, rec, [z for z in d if z[1] is not x.res], x), where(r, x), 'a failed write does not make the request fail')
            if s is not src and s.op == 'comp': cx.unk('S03', 'server-write:args', where(r, x), 'mapped source'); continue
            cx.chk('W01 S03', 'server-write:db', same(x.args[0], fld(r.args[0], SF['db'])), where(r, x), 'written to %s' % show(x.args[0])[:60])
            lb, pts = x.args[1], x.args[2]
            lb = fld(lb, 0) if lb.op == 'adt' else lb
            cx.chk('W01 S03', 'server-write:labels', all_of(lb, fld(e0, F['pts']['labels']), is_label(F)), where(r, x), 'a series is written under %s' % show(lb)[:200])
            cx.chk('W01 S03', 'server-write:points', all_of(pts, fld(e0, F['pts']['samples']), is_tp(F)), where(r, x), 'the points written are %s' % show(pts)[:200])
    cx.chk('W01', 'server-write:possible', nok >= 1 or None, W, 'no write request succeeds')

def emptysamples(d, smp):
    f = facts_of(d)
    if f is None: return False
    return not f.copy().assume(lt(I(0), length(smp)), 1)
