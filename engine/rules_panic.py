"""No panic is reachable from a client request."""
from rulebase import *
from rules_server import handler, SCUT, QC
from rules_common import fact_terms_of, facts_of
from rules_db import walk

def stored(t):
    """value read back from a backend"""
    return mentions(t, lambda x: x.op == 'res' and isinstance(x.a[0], str) and (x.a[0].split('::')[0] in ('Tree', 'TiKvRawBackend', 'Db', 'Batch') or x.a[0].split('::')[0] in ('Storage', 'Indexer')))

DECODE = ('from_utf8', 'parse', 'try_from', 'from_str', 'try_into')
def damaged(o):
    """the path needs a stored value that no write of this program produces"""
    p = o.v
    if isinstance(p, T):
        if mentions(p, lambda x: x.op == 'sym' and x.a[0] == 'TryFromSliceError'): return True
    for t, k in o.f.d.items():
        if k == 1 and t.op == 'app' and isinstance(t.a[0], str) and t.a[0].split('::')[-1].split(':')[0] in DECODE and stored(t): return True
    for key, (lo, hi) in o.f.z.items():
        if len(key) != 1 or key[0][0].op != 'len': continue
        t, s = key[0]
        if not stored(t): continue
        l, h = o.f.bounds(key)
        if s > 0 and h <= 0 and mentions(t, lambda x: x.op == 'chunks' or x.op == 'app' and x.a[0] == 'chunks'): return True
    return False

def huge(o):
    """more than 4 GiB of answer"""
    return any(k == 1 and t.op == 'app' and t.a[0] == 'compress' for t, k in o.f.d.items())

def from_request(t, cl, lens=True):
    """mentions a value the client chose, other than through the length of something that exists"""
    if t in cl: return True
    if not isinstance(t, T): return False
    if t.op == 'len' and not lens: return False
    if t.op == 'app' and t.a and t.a[0] == 'from_utf8' and stored(t): return True       # text: label names and values
    if t.op == 'res' and stored(t): return False
    if t.op == 'app' and t.a and t.a[0] == 'char_boundary': return from_request(t.a[1], cl, lens) or from_request(t.a[2], cl, lens)
    for x in t.a:
        if isinstance(x, T):
            if from_request(x, cl, lens): return True
        elif isinstance(x, tuple):
            for y in tup(x):
                if from_request(y, cl, lens): return True
    return False
def tup(x):
    for y in x:
        if isinstance(y, T): yield y
        elif isinstance(y, tuple):
            for z in tup(y): yield z

def entries(cx):
    """(function, cuts, what the client chose)"""
    h = handler(cx)
    def rest(r): return r.args[1:]
    out = [(h, frozenset(), rest)]
    if cx.run(h, frozenset(), log=True).err:
        # too large in one piece: handler, server operations and database operations one by one
        out = [(h, SCUT, rest)]
        for m in ('query', 'write'): out.append((cx.need('MonolithServer', m), QC, rest))
        for m in ('query', 'write_time_points', 'write_time_point'): out.append((cx.need('MonolithDb', m), frozenset(), rest))
    for tr in ('Storage', 'Indexer'):
        for i in cx.db.local:
            if i['closure'] or not i['itrait'] or last_seg(i['itrait']) != tr or not i['identity']: continue
            if last_seg(i['iself'] or '').startswith('Stub'): continue
            out.append((i, frozenset(), lambda r: r.args[1:]))
    return out

@rule('S02')
def request_panics(cx):
    full = []
    for i, cuts, client in entries(cx):
        nm = last_seg(i['iself'] or '') + '.' + i['path'].split('::')[-1]
        try: r = cx.good(i, cuts, log=True)
        except Undecided as e: cx.unk('S02', 'no-panic:' + nm, i['path'], str(e)); continue
        if i['itrait'] is None: full.append(r)
        W = where(r)
        cl = set(client(r))
        for o in r.panics:
            at = panic_site(o) or W
            if damaged(o): cx.ok('S02', 'panic-only-on-damaged-store:' + nm, at); continue
            if huge(o): cx.ok('S02', 'panic-only-on-huge-answer:' + nm, at); continue
            und = any(opaque(t) for t in fact_terms_of(o.f.items()))
            cx.chk('S02', 'no-panic:' + nm, None if und else False, at, 'a request panics: %s when %s' % (show(o.v)[:100], facts_str(o.f)[:300]))
        if not r.panics: cx.ok('S02', 'no-panic:' + nm, W)
        seen = set()
        for o in r.outs:
            for e, lp in walk(o.ev):
                if e.kind in ('ext', 'call') and e.name == 'exit':
                    cx.chk('S02', 'no-exit:' + nm, None if any(opaque(t) for t in fact_terms_of(o.f.items())) else False, where(r, e), 'a request ends the server process')
                if e.kind != 'assert' or (e.name, e.args[0], e.site) in seen: continue
                seen.add((e.name, e.args[0], e.site))
                c = e.args[0]
                key = 'no-panic:%s:%s' % (nm, e.name.split(' ')[0])
                if c is not FALSE and stored(c) and not from_request(c, cl): cx.ok('S02', 'stored-only:' + nm, where(r, e)); continue
                f = e.x.copy() if e.x is not None else o.f.copy()
                if e.x is None:
                    for L, d in lp:
                        if d is not None and f is not None: f = facts_of(d, f)
                if f is None or not f.assume(c, 0): cx.ok('S02', key, where(r, e)); continue
                if e.name in ('overflow_Add', 'overflow_Mul') and below_len(f, c): cx.ok('S02', key, where(r, e)); continue
                if e.name == 'capacity' and not from_request(c, cl, False): cx.ok('S02', key, where(r, e)); continue
                if c is FALSE:
                    und = any(opaque(t) for t in fact_terms_of(f.items())) or not any(from_request(t, cl) for t in fact_terms_of(f.items()))
                    cx.chk('S02', key, None if und else False, where(r, e), 'a request panics: %s when %s' % (e.name, facts_str(f)[:300])); continue
                if not from_request(c, cl): cx.unk('S02', key, where(r, e), 'cannot bound %s' % show(c)[:160]); continue
                und = opaque(c) or any(opaque(t) for t in fact_terms_of(f.items()))
                if not und and i['itrait'] and not callers(full, i, r, c): cx.ok('S02', key, where(r, e)); continue
                cx.chk('S02', key, None if und else False, where(r, e), 'a request panics: %s when not %s' % (e.name, show(c)[:200]))

@rule('S02')
def serve_panics(cx):
    i = cx.need('MonolithServer', 'serve')
    h = handler(cx)
    r = cx.good(i, frozenset(('MonolithServer.' + h['path'].split('::')[-1],)), log=True)
    W = where(r)
    def per_request(t): return mentions(t, lambda x: x.op == 'el' and mentions(x, lambda y: y.op == 'res' and y.a[0] == 'Server::incoming_requests'))
    n = 0
    for o in r.panics:
        if any(per_request(t) for t in fact_terms_of(o.f.items())):
            n += 1
            cx.chk('S02', 'no-panic:serve', None if any(opaque(t) for t in fact_terms_of(o.f.items())) else False, panic_site(o) or W, 'taking a request panics when %s' % facts_str(o.f)[:300])
    if not n: cx.ok('S02', 'no-panic:serve', W)

def lengthlike(t):
    """bounded by a few lengths of things in memory"""
    c, m = lin_of(t)
    if not -1 << 32 < c < 1 << 32: return False
    return all(abs(k) <= 64 and (x.op in ('len', 'idx') or x.op == 'vf' and x.a[0].op == 'app' and x.a[0].a[0] in ('find', 'rfind', 'position', 'rposition')) for x, k in m.items())

def below_len(f, c):
    """x + 1 where x is below a length"""
    if not (c.op == 'not' and c.a[0].op == 'app' and c.a[0].a[0] == 'overflows'): return False
    t = c.a[0].a[1]
    if t.op == 'app' and all(lengthlike(x) for x in t.a[1:3]): return str(t.a[0]).startswith('Add') or any(is_int(x) and abs(x.a[0]) < 1 << 12 for x in t.a[1:3])
    if t.op == 'app' and not str(t.a[0]).startswith('Add'): return False
    if not (t.op == 'app' and is_int(t.a[2]) and t.a[2].a[0] == 1): return False
    for key, (lo, hi) in f.z.items():
        m = dict(key)
        ls = [k for k in m if k.op == 'len']
        if len(m) == 2 and t.a[1] in m and len(ls) == 1:
            if m[t.a[1]] == 1 and m[ls[0]] == -1 and hi < 0 or m[t.a[1]] == -1 and m[ls[0]] == 1 and lo > 0: return True
    return False

def panic_site(o):
    v = o.v
    if isinstance(v, T) and v.op == 'panic' and len(v.a) > 1 and isinstance(v.a[1], str): return v.a[1]
    return None

def callers(full, i, r, c):
    """can the condition fail for the arguments the request handler passes?"""
    tr = last_seg(i['itrait'])
    n = tr + '::' + i['path'].split('::')[-1]
    found = False
    for o in [o for x in full for o in x.outs]:
        for e, lp in walk(o.ev):
            if e.kind not in ('call', 'ext') or e.name != n: continue
            found = True
            f = o.f.copy()
            for L, d in lp:
                if f is not None and d is not None: f = facts_of(d, f)
            if f is None: continue
            m = {a: b for a, b in zip(r.args[1:], e.args[1:]) if a is not b}
            if f.assume(subst(c, m), 0): return True
    return not found
