"""Command line: which option reaches which setting, what is refused, which backends are started."""
from rulebase import *
from rules_chunk import adt_fields, with_
from rules_common import fact_terms_of

SETTING = {
    'DbOpts': {'storage': 'storage', 'indexer': 'indexer', 'base_dir': 'file_dir', 'chunk_size': 'chunk_size', 'tikv_config': 'tikv_config'},
    'ServerOpts': {'port': 'port', 'write_path': 'write_path', 'read_path': 'read_path', 'worker_num': 'worker_num'},
}
NAMES = [n for d in SETTING.values() for n in d.values()]
LETTER = {'s': 'storage', 'i': 'indexer', 'd': 'file_dir'}
def und(o): return any(opaque(t) for t in fact_terms_of(o.f.items()))

def option_of(t, m):
    """value_of terms of the options a value is taken from"""
    return {x.a[2].a[0].a[0].decode() for x in subterms(t) if x.op == 'app' and x.a[0] == 'ArgMatches::value_of' and x.a[1] is m and x.a[2].op == 'cat' and len(x.a[2].a) == 1 and x.a[2].a[0].op == 'lit'}
def value_of(m, n): return mk('app', 'ArgMatches::value_of', m, lit(n))
def parses(f, v):
    return [t for k, t, *_ in f.items() if k == 'd' and t.op == 'app' and t.a[0] == 'parse' and t.a[1] is v]

@rule('O01')
def config(cx):
    for ty, fs in SETTING.items():
        i = cx.need(ty, 'get_config')
        r = cx.good(i)
        F = adt_fields(cx, ty)
        W = where(r)
        m = r.args[0]
        D = defaults(cx, ty)
        for o in r.rets:
            if o.rk == 'ok':
                if o.p.op != 'adt': cx.unk('O01', '%s:settings' % ty, W, show(o.p)[:80]); continue
                for f, n in fs.items():
                    v = fld(o.p, F[f])
                    s = value_of(m, n)
                    given = vf(s, 1, 0)
                    key = 'option:%s' % n
                    if o.f.d.get(s) == 0:
                        # nothing given: the default
                        if n == 'tikv_config': cx.chk('O01', key + ':default', same(v, NONE), W, 'without the option %s is %s' % (f, show(v)[:80]))
                        elif D.get(f) is not None and not opaque(D[f]): cx.chk('O01', key + ':default', True if v is D[f] else None if opaque(v) or n == 'file_dir' or n == 'chunk_size' else False, W, 'without the option %s is %s' % (f, show(v)[:80]))
                        continue
                    if n == 'tikv_config': exp = [some(given)]
                    elif f in ('storage', 'indexer', 'base_dir', 'write_path', 'read_path'): exp = [given]
                    else:
                        P = parses(o.f, given)
                        exp = [vf(p, 0, 0) for p in P]
                        if f == 'chunk_size': exp = [mk('app', 'Duration::from_secs', x) for x in exp]
                    if v in exp: cx.ok('O01', key, W); continue
                    got = option_of(v, m)
                    if got and n not in got: c = False
                    elif f == 'chunk_size' and v.op == 'app' and v.a[0] == 'Duration::new' and not opaque(v): c = False if not any(v.a[1] is e.a[1] for e in exp) and mentions(v, lambda t: any(t is e.a[1] for e in exp)) else None
                    elif opaque(v) or any(x.op in ('wrap', 'hdr') for x in subterms(v)): c = None
                    elif f == 'chunk_size' and v.op != 'app': c = None
                    elif f == 'chunk_size' and v.op == 'app' and v.a[0] not in ('Duration::from_secs', 'Duration::from_millis', 'Duration::from_micros', 'Duration::from_nanos'): c = None
                    elif f == 'chunk_size' and scaled(v, exp): c = True
                    else: c = False
                    cx.chk('O01', key, c, W, '%s is set to %s' % (f, show(v)[:120]))
                # refusals
                for k, t, *x in o.f.items():
                    if k == 'd' and t.op == 'app' and t.a[0] == 'parse' and option_of(t, m):
                        cx.chk('O01', 'option:%s:number' % sorted(option_of(t, m))[0], x[0] == 0, W, 'text that is not a number is accepted')
                if ty == 'ServerOpts':
                    P = [t for k, t, *x in o.f.items() if k == 'd' and t.op == 'app' and t.a[0] == 'parse' and option_of(t, m) == {'port'}]
                    if len(P) != 1: cx.unk('O01', 'option:port:limits', W, '%d port numbers' % len(P)); continue
                    v = vf(P[0], 0, 0)
                    w = {lit('u16'): 65535, lit('u8'): 255}.get(P[0].a[2])
                    ctx = [(lt(I(w), v), 0)] if w else []
                    for bad, what in ((lt(v, I(1024)), 'below 1024'), (lt(I(65535), v), 'above 65535')):
                        cx.chk('O01', 'option:port:limits', True if with_(o, ctx + [(bad, 1)]) is None else None if und(o) else False, W, 'a port %s is accepted' % what)
            else:
                # refused: some number cannot be read, or the port is outside its limits
                P = [(t, x[0]) for k, t, *x in o.f.items() if k == 'd' and t.op == 'app' and t.a[0] == 'parse' and option_of(t, m)]
                if any(x == 1 for t, x in P): cx.ok('O01', '%s:refusal' % ty, W); continue
                if any(k == 'b' for k, *_ in o.f.items()) or und(o): cx.unk('O01', '%s:refusal' % ty, W, facts_str(o.f)[:200]); continue
                ports = [vf(t, 0, 0) for t, x in P if option_of(t, m) == {'port'}]
                good = [(lt(v, I(1024)), 0) for v in ports] + [(lt(I(65535), v), 0) for v in ports]
                others = [dict(k) for kk, k, *_ in o.f.items() if kk == 'z' and not any(v in dict(k) for v in ports)]
                missing = any(k == 'd' and t.op == 'app' and t.a[0] == 'ArgMatches::value_of' and x[0] == 0 for k, t, *x in o.f.items())
                c = True if ports and with_(o, good) is None else None if others or missing else False
                cx.chk('O01', '%s:refusal' % ty, c, W, 'refused although every number can be read and the port is within its limits: %s' % facts_str(o.f)[:200])
        for o in r.panics:
            P = [t for k, t, *x in o.f.items() if k == 'd' and t.op == 'app' and t.a[0] == 'parse' and x[0] == 1 and option_of(t, m)]
            if P: cx.chk('O01', 'option:%s:number' % sorted(option_of(P[0], m))[0], None if und(o) else False, W, 'a number that cannot be read panics instead of being refused with an error')

def scaled(v, exp):
    """the same length of time written in another unit"""
    k = {'Duration::from_secs': 1, 'Duration::from_millis': 10**3, 'Duration::from_micros': 10**6, 'Duration::from_nanos': 10**9}[v.a[0]]
    return any(v.a[1] is mul(e.a[1], I(k)) for e in exp)

def defaults(cx, ty):
    i = cx.find(ty, 'default', 'Default')
    if i is None: return {}
    r = cx.run(i)
    if r.err or r.unmod: return {}
    F = adt_fields(cx, ty)
    vs = [o.v for o in r.rets if o.v.op == 'adt']
    if len(vs) != 1: return {}
    out = {}
    for f in SETTING[ty]:
        if f in F: out[f] = fld(vs[0], F[f])
    return out

def text_of(t):
    """concrete text of a term"""
    if t.op == 'cat' and all(p.op == 'lit' for p in t.a): return b''.join(p.a[0] for p in t.a).decode('utf8', 'replace')
    if t.op == 'cat' and len(t.a) == 1: t = t.a[0]
    if t.op == 'dec' and is_int(t.a[0]): return str(t.a[0].a[0])
    return None

def main_run(cx):
    b = cx.bin('monolith_server.json')
    l = [i for i in b.local if i['path'] == 'main']
    if not l: raise Undecided('no main')
    C = frozenset(['DbOpts.get_config', 'ServerOpts.get_config', 'TiKvRawBackendSingleton.from_config_file', 'TiKvRawBackendSingleton.new', 'TiKvStorageBuilder.new', 'TiKvIndexerBuilder.new', 'SledStorageBuilder.new', 'SledIndexerBuilder.new',
                   'MonolithDb.new', 'MonolithServer.new', 'MonolithServer.serve'])
    r = cx.run(l[0], C, db=b)
    if r.err: raise Undecided('main: %s' % r.err)
    return r

def arg_list(m):
    """[(name, {method: args})], complete?"""
    full = True
    l = []
    t = m
    if not (t.op == 'app' and t.a[0] == 'App::get_matches'): return [], False
    t = t.a[1]
    while t.op == 'app' and t.a[0].startswith('App::') and t.a[0] != 'App::new':
        if t.a[0] == 'App::args':
            es = concrete_elems(t.a[2])
            if es is None: full = False
            else: l = list(es) + l
        elif t.a[0] == 'App::arg': l = [t.a[2]] + l
        elif t.a[0] not in ('App::version', 'App::about', 'App::author', 'App::name', 'App::long_about'): full = False
        t = t.a[1]
    if not (t.op == 'app' and t.a[0] == 'App::new'): full = False
    out = []
    for a in l:
        d = {}
        while a.op == 'app' and a.a[0].startswith('Arg::'):
            n = a.a[0].split('::')[1]
            if n == 'with_name': d['name'] = a.a[1]; break
            d.setdefault(n, a.a[2] if len(a.a) > 2 else None)
            a = a.a[1]
        n = text_of(d['name']) if 'name' in d else None
        if n is None: full = False; continue
        out.append((n, d))
    return out, full

KNOWN = {'name', 'short', 'long', 'default_value', 'takes_value', 'help', 'long_help', 'value_name', 'required', 'possible_values', 'multiple', 'hidden', 'empty_values', 'validator', 'number_of_values'}

@rule('O01')
def declared(cx):
    r = main_run(cx)
    W = where(r)
    ms = {e.args[0] for o in r.outs for e in o.ev if e.name in ('DbOpts::get_config', 'ServerOpts::get_config')}
    if len(ms) != 1: cx.unk('O01', 'declared:matches', W, '%d sources of options' % len(ms)); return
    m, = ms
    al, full = arg_list(m)
    D = {}
    for ty in SETTING:
        d = defaults(cx, ty)
        for f, n in SETTING[ty].items():
            if f in d: D[n] = d[f]
    seen_long, seen_short = {}, {}
    by = dict(al)
    for n in NAMES:
        d = by.get(n)
        key = 'declared:' + n
        if d is None:
            cx.chk('O01', key, False if full else None, W, 'there is no option %s' % n); continue
        plain = set(d) <= KNOWN
        long_, short = text_of(d['long']) if 'long' in d else None, text_of(d['short']) if 'short' in d else None
        if 'long' in d and long_ is None or 'short' in d and short is None: plain = False
        c = True if long_ == n else False if long_ in NAMES or plain and long_ is None and short is None else None
        cx.chk('O01', key, c, W, 'the option %s is written --%s' % (n, long_))
        ch = short.lstrip('-')[:1] if short else None
        if ch: cx.chk('O01', key + ':letter', True if LETTER.get(ch) == n else False if ch in LETTER else None, W, 'the option %s is written -%s' % (n, ch))
        if long_:
            if long_ in seen_long: cx.chk('O01', key + ':unique', False, W, '--%s names two options' % long_)
            seen_long[long_] = n
        if ch:
            if ch in seen_short: cx.chk('O01', key + ':unique', False, W, '-%s names two options' % ch)
            seen_short[ch] = n
        # it takes a value
        tv = d.get('takes_value')
        v = True if 'default_value' in d or 'possible_values' in d or 'value_name' in d or 'number_of_values' in d or tv is not None and is_int(tv) and tv.a[0] else None if not plain or tv is not None and not is_int(tv) else False
        cx.chk('O01', key + ':value', v, W, 'the option %s does not take a value: what is given with it is refused and the setting cannot be changed' % n)
        if 'required' in d and is_int(d['required']) and d['required'].a[0]: cx.chk('O01', key + ':optional', False if 'default_value' not in d and n == 'tikv_config' else None, W, 'the option has to be given')
        dv = text_of(d['default_value']) if 'default_value' in d else None
        if 'default_value' in d and dv is None: cx.unk('O01', key + ':default', W, 'default %s' % show(d['default_value'])[:80]); continue
        if n == 'tikv_config':
            cx.chk('O01', key + ':default', 'default_value' not in d, W, 'without the option a config file is assumed'); continue
        if 'default_value' not in d:
            cx.chk('O01', key + ':default', False if plain and 'required' not in d and unwrapped(cx, n) else None, W, 'without the option the program ends: there is no default for %s' % n); continue
        if n == 'file_dir' or n not in D: cx.ok('O01', key + ':default', W); continue
        w = D[n]
        want = text_of(w)
        if want is None and is_int(w): want = str(w.a[0])
        if want is None:
            ls = [text_of(x) for x in subterms(w) if x.op == 'cat' and text_of(x) and text_of(x).isdigit()]
            want = ls[0] if len(ls) == 1 else None
        if want is None: cx.unk('O01', key + ':default', W, 'default %s' % show(w)[:80]); continue
        cx.chk('O01', key + ':default', True if dv == want or dv.lstrip('0') == want else False, W, 'the default of the option %s is %s, that of the setting %s' % (n, dv, want))

def unwrapped(cx, n):
    for ty in SETTING:
        if n in SETTING[ty].values():
            i = cx.find(ty, 'get_config')
            r = cx.run(i)
            s = value_of(r.args[0], n)
            return any(o.f.d.get(s) == 0 for o in r.panics)
    return False

# ------------------------------------------------------------------ backends
def eq_fact(f, v, name):
    """is the setting known to be / not to be this name"""
    for k, t, *x in f.items():
        if k == 'b' and t.op in ('eq', 'beq', 'app') and lit(name) in t.a and v in t.a: return x[0]
    if v is lit(name): return 1
    return None

def kind_of(t):
    if t.op == 'vf': t = t.a[0]
    n = t.a[0] if t.op in ('res', 'app') and isinstance(t.a[0], str) else None
    return t, n

@rule('O02')
def dispatch(cx):
    r = main_run(cx)
    if any(n.split('::')[0] not in ('App', 'Arg') for n in r.unmod): cx.unk('O02', 'main', where(r), 'no model for %s' % ', '.join(sorted(r.unmod))); return
    F = adt_fields(cx, 'DbOpts')
    combos = {}
    for o in r.outs:
        g = [e for e in o.ev if e.name == 'DbOpts::get_config']
        if o.kind == 'panic':
            # a value that is never there is demanded for a combination of backends that is offered
            v = o.v
            if g and isinstance(v, T) and v.op == 'panic' and v.a[0] == 'unwrap' and len(v.a) > 2 and isinstance(v.a[2], T) and v.a[2].op == 'adt' and v.a[2].a[1] == 'None' and not und(o):
                opts = vf(g[0].res, 0, 0)
                ks = [[n for n in ('sled', 'tikv') if eq_fact(o.f, fld(opts, F[w]), n) == 1] for w in ('storage', 'indexer')]
                if all(ks): cx.bad('O02', 'start:%s+%s' % (ks[0][0], ks[1][0]), where(r), 'no server is started for storage %s and indexer %s: a connection is demanded that was not made' % (ks[0][0], ks[1][0]))
            continue
        if not g:
            if o.kind == 'ret': cx.chk('O02', 'main:configuration', None if und(o) else False, where(r), 'the program ends without reading its options')
            continue
        opts = vf(g[0].res, 0, 0)
        st, ix = fld(opts, F['storage']), fld(opts, F['indexer'])
        conf = fld(opts, F['tikv_config'])
        W = where(r)
        facts = {(v, n): eq_fact(o.f, v, n) for v in (st, ix) for n in ('sled', 'tikv')}
        made = [e for e in o.ev if e.kind == 'call' and e.name == 'MonolithDb::new']
        touched = [e for e in o.ev if e.kind == 'call' and (e.name in ('MonolithDb::new', 'TiKvStorageBuilder::new', 'TiKvIndexerBuilder::new') or e.name.startswith(('fs::', 'File::', 'sled::')))]
        served = [e for e in o.ev if e.kind == 'call' and e.name == 'MonolithServer::serve']
        other = any(facts[v, 'sled'] == 0 and facts[v, 'tikv'] == 0 for v in (st, ix))
        if other:
            what = 'an unknown backend name'
            ex = [e for e in o.ev if e.name in ('exit', 'process::exit')]
            if o.kind == 'ret': cx.chk('O02', 'unknown:refused', None if und(o) else False, W, 'the program ends successfully%s for %s' % (' after starting a server' if served else '', what))
            elif ex: cx.chk('O02', 'unknown:refused', (ex[-1].args[0].a[0] & 0xff != 0) if is_int(ex[-1].args[0]) else None, W, 'the exit status for %s is %s' % (what, show(ex[-1].args[0])[:40]))
            else: cx.unk('O02', 'unknown:refused', W, 'diverges')
            cx.chk('O02', 'unknown:untouched', True if not touched else None if und(o) else False, W, '%s is called for %s' % (touched[0].name if touched else '', what))
            continue
        possible = [(a, b) for a in ('sled', 'tikv') for b in ('sled', 'tikv') if facts[st, a] != 0 and facts[ix, b] != 0 and facts[st, 'tikv' if a == 'sled' else 'sled'] != 1 and facts[ix, 'tikv' if b == 'sled' else 'sled'] != 1]
        if not served:
            named = all(any(facts[v, n] == 1 for n in ('sled', 'tikv')) for v in (st, ix))
            cx.chk('O02', 'start:%s' % '+'.join(possible[0]) if len(possible) == 1 else 'start', (None if und(o) else False) if named else None, W, 'no server is started')
            continue
        if len(made) != 1: cx.unk('O02', 'start', W, '%d databases are opened' % len(made)); continue
        d = made[0]
        for which, v, arg, kinds in (('storage', st, 1, {'sled': 'SledStorageBuilder::new', 'tikv': 'TiKvStorageBuilder::new'}), ('indexer', ix, 2, {'sled': 'SledIndexerBuilder::new', 'tikv': 'TiKvIndexerBuilder::new'})):
            t, n = kind_of(d.args[arg])
            k = [a for a, x in kinds.items() if x == n]
            if not k: cx.unk('O02', 'start:' + which, W, 'builder %s' % show(t)[:80]); continue
            k = k[0]
            c = True if facts[v, k] == 1 else False if not und(o) else None
            cx.chk('O02', 'start:%s:%s' % (which, k), c, W, 'the %s is %s where the option is %s' % (which, k, ' or '.join(a for a in kinds if facts[v, a] != 0) or 'another name'))
            if k == 'tikv':
                s, sn = kind_of(t.a[1][0] if t.op == 'res' else t.a[1])
                got = o.f.d.get(conf)
                if got == 1:
                    want = sn == 'TiKvRawBackendSingleton::from_config_file' and (s.a[1][0] if s.op == 'res' else s.a[1]) is vf(conf, 1, 0)
                    cx.chk('O02', 'connection:configured', True if want else None if opaque(s) else False, W, 'the connection of the %s is %s although a config file is given' % (which, show(s)[:80]))
                elif got == 0:
                    cx.chk('O02', 'connection:dry-run', True if s.op == 'app' and s.a[0] == 'default' else None, W, show(s)[:80])
                else: cx.chk('O02', 'connection:configured', None if und(o) or sn == 'TiKvRawBackendSingleton::from_config_file' else False, W, 'the connection of the %s is %s whether or not a config file is given' % (which, show(s)[:80]))
        cx.chk('O02 O01', 'start:options', same(d.args[0], opts), W, 'the database is opened with %s' % show(d.args[0])[:80])
        so = [e for e in o.ev if e.name == 'ServerOpts::get_config']
        ns = [e for e in o.ev if e.name == 'MonolithServer::new']
        if len(ns) == 1:
            cx.chk('O02 O01', 'start:server-options', same(ns[0].args[0], vf(so[0].res, 0, 0)) if so else None if opaque(ns[0].args[0]) else False, W, 'the server is started with %s' % show(ns[0].args[0])[:80])
            cx.chk('O02', 'start:database', same(ns[0].args[1], vf(d.res, 0, 0)), W, 'the server is started on another database')
            cx.chk('O02', 'start:serves', same(served[0].args[0], ns[0].res), W, 'another server is run')
        for p in possible: combos[p] = True
    for a in ('sled', 'tikv'):
        for b in ('sled', 'tikv'):
            cx.chk('O02', 'start:possible:%s+%s' % (a, b), True if combos.get((a, b)) else None, where(r), 'no path starts this combination')

@rule('O02')
def connection(cx):
    i = cx.find('TiKvRawBackendSingleton', 'from_config_file')
    if i is None: cx.unk('O02', 'connection', '', 'not found'); return
    F = adt_fields(cx, 'TiKvRawBackendSingleton')
    G = adt_fields(cx, 'TiKvBackendConfigFile')
    r = cx.good(i)
    W = where(r)
    for o in r.rets:
        if o.rk != 'ok': continue
        if o.p.op != 'adt': cx.unk('O02', 'connection:file', W, show(o.p)[:80]); continue
        rd = [t for k, t, *x in o.f.items() if k == 'd' and t.op in ('res', 'app') and t.a[0] == 'yaml_parse' and x[0] == 0]
        if not rd:
            lost = [t for k, t, *x in o.f.items() if k == 'd' and t.op in ('res', 'app') and t.a[0] == 'yaml_parse' and x[0] == 1]
            cx.chk('O02', 'connection:file', False if lost and not contains(o.p, lost[0]) and not opaque(o.p) else None, W, 'a config file that cannot be read as one is taken for %s' % show(o.p)[:80]); continue
        c = vf(rd[0], 0, 0)
        dry, eps = fld(c, G['dry_run']), fld(c, G['pd_endpoints'])
        isdry = o.f.truth(dry)
        d = fld(o.p, F['dry_run'])
        v = d.a[0] if is_int(d) else None
        if d is dry: cx.ok('O02', 'connection:dry-run-flag', W); v = isdry
        elif isdry is None: cx.chk('O02', 'connection:dry-run-flag', None if v is None or und(o) else False, W, 'dry run is %s whatever the config file says' % show(d)[:40])
        else: cx.chk('O02', 'connection:dry-run-flag', v == isdry if v is not None else None, W, 'dry run is %s where the config file says %s' % (show(d)[:40], isdry))
        if v == 1: continue
        cf = fld(o.p, F['config'])
        cx.chk('O02', 'connection:endpoints', True if cf.op == 'app' and cf.a[0] == 'Config::new' and cf.a[1] is eps else None if opaque(cf) or cf.op != 'app' or cf.a[0] != 'Config::new' or contains(cf, eps) else False, W, 'the endpoints are %s' % show(cf)[:100])
        rf = [e for e in o.ev if e.name in ('fs::read', 'fs::read_to_string', 'File::open')]
        if len(rf) == 1: cx.chk('O02', 'connection:file', same(rf[0].args[0], r.args[0]), W, 'read is %s' % show(rf[0].args[0])[:80])
    i = cx.need('TiKvRawBackendSingleton', 'get_instance')
    r = cx.good(i)
    W = where(r)
    s = r.args[0]
    for o in r.rets:
        if o.rk != 'ok': continue
        dry = o.f.truth(fld(s, F['dry_run']))
        p = o.p
        n = p.a[0].split('::')[-1] if p.op == 'adt' else None
        if n is None: cx.unk('O02', 'connection:instance', W, show(p)[:80]); continue
        isdummy = n == 'DummyTiKvBackend'
        cx.chk('O02', 'connection:instance', True if dry is not None and isdummy == bool(dry) else None if und(o) or n not in ('DummyTiKvBackend', 'TiKvRawBackendImpl') else False, W, '%s is used when dry run is %s' % (n, dry))
        if not isdummy:
            cl = [e for e in o.ev if e.name == 'RawClient::new']
            if cl: cx.chk('O02', 'connection:client', same(cl[0].args[0], fld(s, F['config'])), W, 'the client connects with %s' % show(cl[0].args[0])[:80])
    i = cx.find('TiKvRawBackendSingleton', 'new')
    if i is not None:
        r = cx.good(i)
        for o in r.rets:
            if o.rk == 'ok' and o.p.op == 'adt':
                cx.chk('O02', 'connection:new', same3((fld(o.p, F['config']), fld(o.p, F['dry_run'])), (r.args[0], I(0))) , where(r), 'a connection is made with %s' % show(o.p)[:100])
from rules_chunk import same3
