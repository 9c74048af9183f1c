"""The generated protobuf messages: every field is read from, written under and sized with its own number and kind.
Oracle: the field tables of the Prometheus remote protocol."""
from rulebase import *
from rules_chunk import with_
from rules_common import fact_terms_of
from rules_server import one_fields

R, T_ = 'proto::remote::', 'proto::types::'
#        message        path                 (number, field, kind)
MSGS = {
    'WriteRequest':  (R + 'WriteRequest', ((1, 'timeseries', 'msgs'),)),
    'ReadRequest':   (R + 'ReadRequest', ((1, 'queries', 'msgs'),)),
    'ReadResponse':  (R + 'ReadResponse', ((1, 'results', 'msgs'),)),
    'Query':         (R + 'Query', ((1, 'start_timestamp_ms', 'int64'), (2, 'end_timestamp_ms', 'int64'), (3, 'matchers', 'msgs'))),
    'QueryResult':   (R + 'QueryResult', ((1, 'timeseries', 'msgs'),)),
    'Sample':        (T_ + 'Sample', ((1, 'value', 'double'), (2, 'timestamp', 'int64'))),
    'TimeSeries':    (T_ + 'TimeSeries', ((1, 'labels', 'msgs'), (2, 'samples', 'msgs'))),
    'Label':         (T_ + 'Label', ((1, 'name', 'string'), (2, 'value', 'string'))),
    'LabelMatcher':  (T_ + 'LabelMatcher', ((1, 'field_type', 'enum'), (2, 'name', 'string'), (3, 'value', 'string'))),
}
OTHER = ('ReadHints', 'Labels', 'Chunk', 'ChunkedSeries', 'ChunkedReadResponse')
METHODS = ('merge_from', 'compute_size', 'write_to_with_cached_sizes', 'is_initialized')
WIRE = {'int64': 'WireTypeVarint', 'double': 'WireTypeFixed64', 'enum': 'WireTypeVarint', 'string': 'WireTypeLengthDelimited', 'msgs': 'WireTypeLengthDelimited'}
SCALAR = {'int64': 'CodedInputStream::read_int64', 'double': 'CodedInputStream::read_double'}
INTO = {'string': 'rt::read_singular_proto3_string_into', 'msgs': 'rt::read_repeated_message_into', 'enum': 'rt::read_proto3_enum_with_unknown_fields_into'}
WRITE = {'int64': 'CodedOutputStream::write_int64', 'double': 'CodedOutputStream::write_double', 'enum': 'CodedOutputStream::write_enum', 'string': 'CodedOutputStream::write_string'}

def cuts(m): return frozenset(x + '.Message.' + f for x in list(MSGS) + list(OTHER) if x != m for f in METHODS)

LIB = ('CodedInputStream::', 'CodedOutputStream::', 'rt::', 'CachedSize::', 'SingularPtrField::', 'UnknownFields::')
def run_(cx, i, m):
    r = cx.run(i, cuts(m))
    if r.err: raise Undecided('%s: %s' % (i['path'], r.err))
    u = [n for n in r.unmod if not n.startswith(LIB)]
    if u: raise Undecided('%s: no model for %s' % (i['path'], ', '.join(sorted(u))))
    return r

def resonly(t, roots=()):
    """a fact term that speaks only of what the outside delivered"""
    if t.op == 'lt' or t.op in ('ieq', 'not', 'and', 'or', 'eq', 'disceq', 'feq', 'flt', 'fle'): return all(not isinstance(x, T) or resonly(x, roots) for x in t.a)
    while t.op in ('vf', 'f', 'fld', 'disc', 'wrap', 'index'): t = t.a[0] if isinstance(t.a[0], T) else t
    return t.op in ('res', 'int', 'adt') or t in roots

def hazy(t):
    """opaque, not counting what an outside call was given"""
    if t.op == 'res': return False
    if t.op in OPAQUE or t.op == 'app' and isinstance(t.a[0], str) and (t.a[0] in ('call', 'callv') or t.a[0].startswith('mut:')): return True
    return any(hazy(x) for x in t.a if isinstance(x, T))

def reachable(d, L, cell, F, table):
    """some input reaches a path with facts d: they speak of what was read and of the fields read so far"""
    H = {mk('hdr', L.L, c[0], c[1]): k for k, c in cell.items()}
    kinds = {F[f]: k for _, f, k in table}
    m = {}
    for t in fact_terms_of(d):
        if resonly(t): continue
        for y in subterms(t):
            if y.op == 'res': continue
            if y in H:
                if kinds.get(H[y]) == 'int64': m[y] = I(0)
                elif kinds.get(H[y]) in ('string', 'msgs') and t.op == 'len' and t.a[0] is y: pass
                else: return False
        if not contains(t, mk('sym', '?')) and not resonly(t, tuple(H)) and not (t.op == 'len' and t.a[0] in H): return False
    if not m: return True
    f = Facts()
    q = subst_facts(d, m)
    return q is not None and apply_facts(f, q)

def tagof(evs_):
    e = [x for x in evs_ if x.name == 'CodedInputStream::read_tag_unpack']
    return e[-1] if e else None

def wire_disc(cx, name):
    """discriminant of a wire type, from the type as the code uses it"""
    return {'WireTypeVarint': 0, 'WireTypeFixed64': 1, 'WireTypeLengthDelimited': 2, 'WireTypeStartGroup': 3, 'WireTypeEndGroup': 4, 'WireTypeFixed32': 5}[name]

@rule('S03 S04 S02')
def wire_read(cx):
    for m, (path, table) in MSGS.items():
        i = cx.find(m, 'merge_from', 'Message')
        if i is None: cx.unk('S03', 'wire:read:' + m, '', 'not found'); continue
        F = one_fields(cx, path)
        r = run_(cx, i, m)
        W = where(r)
        tags = 'S03 S04' if m == 'LabelMatcher' else 'S03'
        if not r.panics: cx.ok('S02', 'wire:no-panic:' + m, W)
        for o in r.outs:
            if o.kind == 'panic':
                ok_ = all(resonly(t) for t in fact_terms_of(o.f.items()) if not mentions(t, lambda z: z.op in ('fold', 'hdr')))
                cx.chk('S02', 'wire:no-panic:' + m, False if ok_ and o.p is None and o.v.op == 'panic' and o.v.a[0] == 'unwrap' else None, W, 'a malformed %s panics' % m)
        loops = []
        for o in r.rets:
            for e in o.ev:
                if e.kind == 'loop' and tagof([x for _, es, _ in e.x.paths for x in es]) is not None and e.x not in loops: loops.append(e.x)
            if o.rk == 'ok':
                ends = [e for e in o.ev if e.name == 'CodedInputStream::eof']
                lp = [e for e in o.ev if e.kind == 'loop']
                c = None
                if ends and ends[-1].res is not None:
                    q = o.f.truth(vf(ends[-1].res, 0, 0))
                    c = True if q == 1 else None
                    if q in (None, 0) and all(resonly(t) or mentions(t, lambda z: z.op == 'fold') for t in fact_terms_of(o.f.items())): c = False
                elif not lp and not o.ev: c = False
                cx.chk(tags, 'wire:read-all:' + m, c, W, 'reading a %s ends before its end' % m)
        if not loops: cx.unk(tags, 'wire:read:' + m, W, 'no loop'); continue
        L = loops[0]
        cell = {}
        for c in L.init:
            if c[0] is mk('loc', 'arg', 1) and len(c[1]) == 1 and c[1][0][0] == 'f': cell[c[1][0][1]] = c
            if c[0] is mk('loc', 'arg', 1) and c[1] == (): cell[None] = c
        H = lambda c: mk('hdr', L.L, c[0], c[1])
        for num, fname, kind in table:
            key = 'wire:read:%s.%s' % (m, fname)
            ix = F.get(fname)
            if ix is None: cx.unk(tags, key, W, 'no field'); continue
            seen = False
            for d, es, vals in L.paths:
                te = tagof(es)
                if te is None: cx.unk(tags, key, W, 'no tag'); continue
                n, wt = fld(vf(te.res, 0, 0), 0), fld(vf(te.res, 0, 0), 1)
                f = Facts()
                if not apply_facts(f, d) or not f.assume(ieq(n, I(num)), 1) or not f.assume_disc(wt, wire_disc(cx, WIRE[kind])): continue
                seen = True
                plain = reachable(d, L, cell, F, table)
                rd = [e for e in es if e is not te and e.name.startswith(('CodedInputStream::read_', 'rt::read_')) and e.res is not None]
                if None in cell: cx.unk(tags, key, W, 'the message is assigned as a whole'); continue
                if ix not in cell:
                    others = all(vals[c] is H(c) for c in vals if c[0] not in (mk('loc', 'arg', 1), mk('loc', 'arg', 2)))
                    cx.chk(tags, key, False if plain and others else None, W, 'field %d of a %s is not stored in %s' % (num, m, fname)); continue
                v = vals[cell[ix]]
                for k, c in cell.items():
                    if k == ix or k == F.get('unknown_fields') or k == F.get('cached_size'): continue
                    if vals[c] is not H(c): cx.chk(tags, 'wire:only:%s.%s' % (m, fname), False if plain else None, W, 'reading %s of a %s changes another field' % (fname, m))
                if v is H(cell[ix]):
                    cx.chk(tags, key, False if plain else None, W, 'field %d of a %s is not stored in %s' % (num, m, fname)); continue
                if kind in SCALAR:
                    e = [e for e in rd if e.name == SCALAR[kind]]
                    if e and v is vf(e[-1].res, 0, 0): cx.ok(tags, key, W)
                    else: cx.chk(tags, key, None if hazy(v) or not plain else False, W, 'what is stored in %s of a %s is %s' % (fname, m, show(v)[:80]))
                else:
                    e = [e for e in rd if e.name == INTO[kind]]
                    x = [e2 for e2 in rd if e2.name.startswith('rt::read_') and e2.name != 'rt::read_unknown_or_skip_group']
                    good = len(e) == 1 and len(x) == 1 and v.op == 'app' and str(v.a[0]).startswith('mut:' + INTO[kind]) and contains(v, e[0].res)
                    c = True if good else None
                    if good and kind == 'msgs' and e[0].args[-1] is not H(cell[ix]): c = None if hazy(e[0].args[-1]) or not plain else False
                    cx.chk(tags, key, c, W, '%s of a %s is read as %s' % (fname, m, show(v)[:80]))
            if not seen: cx.chk(tags, key, False if not L.partial or True else None, W, 'field %d of a %s with its wire type is never accepted' % (num, m))
        # a well-formed field is not refused
        for o in r.rets:
            if o.rk != 'err': continue
            te = tagof(o.ev)
            if te is None: continue
            after = list(o.ev)[list(o.ev).index(te):]
            if any(e.res is not None and (o.f.d.get(e.res) == 1 or o.f.d.get(e.res) is None) for e in after if e.name.startswith(('CodedInputStream::', 'rt::read_'))): continue
            n, wt = fld(vf(te.res, 0, 0), 0), fld(vf(te.res, 0, 0), 1)
            for num, fname, kind in table:
                q = with_(o, [(ieq(n, I(num)), 1)])
                if q is None: continue
                f = q.f.copy()
                if not f.assume_disc(wt, wire_disc(cx, WIRE[kind])): continue
                own = [t for t in fact_terms_of(o.f.items()) if contains(t, te.res)]
                cx.chk(tags, 'wire:accepted:%s.%s' % (m, fname), False if all(resonly(t) for t in own) else None, W, 'a well-formed field %d of a %s is refused' % (num, m))

def nondefault(o, x, kind):
    """can the field have a non-default value here: True/False/None"""
    if kind == 'int64': return with_(o, [(ieq(x, I(0)), 0)]) is not None
    if kind == 'string': return with_(o, [(lt(I(0), length(x)), 1)]) is not None
    if kind == 'enum':
        f = o.f.copy()
        return any(f.copy().assume_disc(x, k) for k in (1, 2, 3))
    for k, t, v in o.f.items():
        if k == 'b' and contains(t, x):
            s = t
            while s.op == 'not': s, v = s.a[0], 1 - v
            if s.op == 'feq' or s.op == 'app' and str(s.a[0]).startswith('f') and 'eq' in str(s.a[0]).lower(): return v == 0
            if s.op == 'eq': return v == 0
            if len([1 for q in o.f.items() if any(contains(y, x) for y in fact_terms_of([q]))]) == 1 and s.op not in ('and', 'or'): return True   # one comparison other than with zero
            return None
    return True

@rule('S03 S04')
def wire_write(cx):
    for m, (path, table) in MSGS.items():
        i = cx.find(m, 'write_to_with_cached_sizes', 'Message')
        if i is None: cx.unk('S03', 'wire:write:' + m, '', 'not found'); continue
        F = one_fields(cx, path)
        r = run_(cx, i, m)
        W = where(r)
        me = init(r) if r.args[0].op == 'mref' else r.args[0]
        for o in r.rets:
            if o.rk != 'ok': continue
            for e in flat(o.ev):
                if e in o.ev and e.kind in ('ext', 'call') and e.res is not None and e.name.startswith('CodedOutputStream::'):
                    cx.chk('S03', 'wire:write-failure:' + m, True if ev_ok(o, e) else False if o.f.d.get(e.res) is None or ev_err(o, e) else None, W, 'a failing write of a %s is ignored' % m)
            for num, fname, kind in table:
                x = fld(me, F[fname])
                key = 'wire:write:%s.%s' % (m, fname)
                if kind == 'msgs':
                    ls = [e.x for e in o.ev if e.kind == 'loop' and e.x.src is x]
                    if len(ls) != 1:
                        other = [e.x for e in o.ev if e.kind == 'loop' and contains(e.x.src, x)]
                        cx.chk('S03', key, False if not other and not any(contains(a, x) for e in flat(o.ev) for a in e.args if isinstance(a, T)) and not [t for t in fact_terms_of(o.f.items()) if contains(t, x)] else False if len(other) == 1 and other[0].src.op in ('slice', 'rev') and not opaque(other[0].src) else None, W, 'the %s of a %s are not all written in order' % (fname, m)); continue
                    L = ls[0]
                    if L.partial and not any(True for _ in L.paths): cx.unk('S03', key, W, 'loop'); continue
                    for d, es, vals in L.paths:
                        tg = [e for e in es if e.name == 'CodedOutputStream::write_tag']
                        ln = [e for e in es if e.name == 'CodedOutputStream::write_raw_varint32']
                        nested = [e for e in es if e.name.endswith('::write_to_with_cached_sizes')]
                        raw = any(e.name.startswith('CodedOutputStream::') and e not in tg + ln for e in es)
                        if len(tg) == 1 and len(ln) == 1 and len(nested) == 1 and not raw:
                            t = tg[0].args
                            bad = []
                            if t[1] is not I(num): bad.append('under number %s' % show(t[1])[:20] if is_int(t[1]) else None)
                            if not (t[2].op == 'adt' and t[2].a[1] == 'WireTypeLengthDelimited'): bad.append('with another wire type' if t[2].op == 'adt' else None)
                            if nested[0].args[0] is not el(x): bad.append('not from the element' if not opaque(nested[0].args[0]) else None)
                            cs = ln[0].args[1]
                            if not (contains(cs, el(x)) and not opaque(cs) and cs.op in ('res', 'app') and 'get' in show(cs).split('(')[0]): bad.append('with the length %s' % show(cs)[:30] if not contains(cs, el(x)) and not opaque(cs) else None)
                            ps = [list(es).index(y) for y in (tg[0], ln[0], nested[0])]
                            if ps != sorted(ps): bad.append('in another order')
                            cx.chk('S03', key, True if not bad else None if None in bad else False, W, 'an element of %s of a %s is written %s' % (fname, m, ', '.join(b for b in bad if b)))
                        else:
                            fs = [t for t in fact_terms_of(d) if not resonly(t)]
                            cx.chk('S03', key, False if not nested and not raw and not tg and all(contains(t, el(x)) and not opaque(t) for t in fs) else None, W, 'an element of %s of a %s is not written' % (fname, m))
                    continue
                nd = nondefault(o, x, kind)
                ws = [e for e in o.ev if e.name.startswith('CodedOutputStream::write_') and len(e.args) > 2 and (contains(e.args[2], x))]
                hit = [e for e in ws if e.args[1] is I(num)]
                if not ws:
                    if nd is False: cx.ok('S03', key, W)
                    else: cx.chk('S03' if kind != 'enum' else 'S03 S04', key, False if nd and not any(contains(a, x) for e in flat(o.ev) for a in e.args if isinstance(a, T)) and not any(opaque(t) for t in fact_terms_of(o.f.items()) if contains(t, x)) else None, W, 'the %s of a %s is not written' % (fname, m))
                    continue
                if not hit: cx.chk('S03', key, False if all(is_int(e.args[1]) for e in ws) else None, W, 'the %s of a %s is written under number %s' % (fname, m, show(ws[0].args[1])[:20])); continue
                e = hit[-1]
                if kind == 'enum': good = e.name == WRITE[kind] and mentions(e.args[2], lambda z: z.op == 'disc' and z.a[0] is x)
                else: good = e.name == WRITE[kind] and e.args[2] is x
                cx.chk('S03', key, True if good else None if opaque(e.args[2]) or kind == 'enum' else False, W, 'the %s of a %s is written by %s as %s' % (fname, m, e.name, show(e.args[2])[:50]))
                # nothing else goes under this number
                dup = [e2 for e2 in o.ev if e2.name in WRITE.values() and e2.args[1] is I(num) and e2 not in ws]
                if dup: cx.bad('S03', key + ':number', W, 'another value is written under number %d of a %s' % (num, m))

SUMS = {}
def sumform(t):
    """linear form with folds over fields opened: {atom or ('each', src, frozenset form): coefficient} or None"""
    c, d = lin_of(t)
    out = {}
    def put(k, v):
        out[k] = out.get(k, 0) + v
        if out[k] == 0: del out[k]
    if c: put('1', c)
    for x, k in d.items():
        if x.op == 'fold':
            src, cases, ini = x.a[0], x.a[1], x.a[2]
            if len(cases) != 1 or cases[0][0]: return None
            b = sumform(cases[0][1])
            if b is None or b.pop(mk('hole'), None) != 1: return None
            if any(isinstance(y, T) and contains(y, mk('hole')) for y in b): return None
            put(('each', src, frozenset(b.items())), k)
            s = sumform(ini)
            if s is None: return None
            for y, v in s.items(): put(y, v * k)
        else: put(x, k)
    return out

def fname_of(x):
    """name of an uninterpreted function"""
    n = x.a[0] if x.op in ('app', 'res') and isinstance(x.a[0], str) else x.op
    return 'msgsize' if n.endswith('::compute_size') else n

@rule('S03')
def wire_size(cx):
    """the size announced for a message is that of the fields written: otherwise the receiver cuts the message wrongly"""
    for m, (path, table) in MSGS.items():
        i = cx.find(m, 'compute_size', 'Message')
        if i is None: cx.unk('S03', 'wire:size:' + m, '', 'not found'); continue
        F = one_fields(cx, path)
        r = run_(cx, i, m)
        W = where(r)
        me = r.args[0]
        rest = [f for f in F if f not in [t[1] for t in table] + ['unknown_fields', 'cached_size']]
        for o in r.rets:
            key = 'wire:size:' + m
            st = [e for e in o.ev if e.name == 'CachedSize::set']
            if len(st) != 1: cx.chk('S03', key + ':kept', False if not st and not [e for e in flat(o.ev) if e.kind in ('ext', 'call') and 'ached' in e.name] else None, W, 'the size of a %s is not kept for writing' % m)
            elif st[0].args[1] is o.v: cx.ok('S03', key + ':kept', W)
            else:
                s1, s2 = sumform(st[0].args[1]), sumform(o.v)
                cx.chk('S03', key + ':kept', None if s1 is None or s2 is None or any(isinstance(k, T) and not fname_of(k).startswith(('rt::', 'msgsize')) for k in list(s1) + list(s2)) else False if s1 != s2 else None, W, 'the size kept for writing is %s' % show(st[0].args[1])[:80])
            s = sumform(o.v)
            if s is None: cx.unk('S03', key, W, show(o.v)[:100]); continue
            # parts about fields of no interest
            def about(k, x):
                ys = [k] if isinstance(k, T) else [k[1]] if isinstance(k, tuple) else []
                return any(contains(y, x) for y in ys)
            if any(about(k, fld(me, F[f])) for k in s for f in rest):
                cx.ok('S03', key, W); continue
            unk = [k for k in s if isinstance(k, T) and fname_of(k) == 'rt::unknown_fields_size']
            for k in unk: del s[k]
            want = {}
            skip = False
            for num, fname, kind in table:
                x = fld(me, F[fname])
                if kind == 'msgs':
                    e = [k for k in s if isinstance(k, tuple) and k[1] is x]
                    if len(e) != 1: skip = skip or bool(e); want[('each', x)] = 1; continue
                    b = dict(e[0][2])
                    ms = [k for k in b if isinstance(k, T) and fname_of(k) == 'msgsize' and contains(k, el(x))]
                    vs = [k for k in b if isinstance(k, T) and fname_of(k) == 'rt::compute_raw_varint32_size']
                    good = len(ms) == 1 and len(vs) == 1 and b == {'1': 1, ms[0]: 1, vs[0]: 1} and contains(vs[0], ms[0])
                    known_ = all(k == '1' or k in ms or k in vs for k in b)
                    cx.chk('S03', '%s.%s' % (key, fname), True if good else False if known_ and s[e[0]] == 1 else None, W, 'the size counted for an element of %s is %s' % (fname, ' + '.join(show(k)[:40] if isinstance(k, T) else str(v) for k, v in b.items())))
                    want[e[0]] = 1
                    continue
                nd = nondefault(o, x, kind)
                if nd is None: skip = True; continue
                if nd and kind in ('int64', 'string', 'enum'):
                    # may the field be default here too? then either form is right
                    pass
                if not nd: continue
                if kind == 'double': want['1'] = want.get('1', 0) + 9; continue
                nm = {'int64': 'rt::value_size', 'string': 'rt::string_size', 'enum': 'rt::enum_size'}[kind]
                c = [k for k in s if isinstance(k, T) and fname_of(k) == nm and contains(k, x) and mentions(k, lambda z: z is I(num)) and (kind != 'int64' or mentions(k, lambda z: z.op == 'adt' and z.a[1] == 'WireTypeVarint'))]
                want[c[0] if len(c) == 1 else (nm, num)] = 1
            if skip: cx.unk('S03', key, W, 'field'); continue
            odd = [k for k in s if isinstance(k, T) and fname_of(k) not in ('rt::value_size', 'rt::string_size', 'rt::enum_size', 'rt::compute_raw_varint32_size', 'msgsize')]
            cx.chk('S03', key, True if s == want else None if odd else False, W, 'the size of a %s is counted as %s' % (m, show(o.v)[:120]))

@rule('S03 S04')
def wire_enum(cx):
    """matcher types have the numbers of the protocol in both directions"""
    i = cx.find('LabelMatcher_Type', 'from_i32', 'ProtobufEnum')
    names = ('EQ', 'NEQ', 'RE', 'NRE')
    if i is not None:
        r = cx.good(i)
        W = where(r)
        a = r.args[0]
        for k, nm in enumerate(names):
            for o in r.rets:
                q = with_(o, [(ieq(a, I(k)), 1)])
                if q is None: continue
                v = o.v
                c = None
                if v.op == 'adt' and v.a[2] == 0: c = False if sum(1 for p in r.rets if with_(p, [(ieq(a, I(k)), 1)]) is not None) == 1 else None
                elif v.op == 'adt' and v.a[4].op == 'adt': c = v.a[4].a[1] == nm
                cx.chk('S03 S04', 'wire:enum:' + nm, c, W, 'matcher type %d is read as %s' % (k, show(v)[:60]))
    for p, a in cx.db.adt.items():
        if p.endswith('::LabelMatcher_Type'):
            for n, v in enumerate(a['variants']):
                d = int(v['discr']) if v['discr'] is not None else n
                if v['name'] in names: cx.chk('S03 S04', 'wire:number:' + v['name'], d == names.index(v['name']), p, 'matcher type %s has number %d' % (v['name'], d))

@rule('S03')
def wire_initialized(cx):
    """no field is required: a message without one is complete"""
    for m, (path, table) in MSGS.items():
        i = cx.find(m, 'is_initialized', 'Message')
        if i is None: continue
        r = run_(cx, i, m)
        for o in r.outs:
            if o.kind != 'ret': continue
            if o.v is TRUE: cx.ok('S03', 'wire:complete:' + m, where(r)); continue
            own = [e for e in flat(o.ev) if e.res is not None and e.name.endswith('is_initialized')]
            if o.v is FALSE and any(o.f.truth(e.res) == 0 for e in own): cx.ok('S03', 'wire:complete:' + m, where(r)); continue
            ts = fact_terms_of(o.f.items())
            cx.chk('S03', 'wire:complete:' + m, None if own or any(hazy(t) or t.op == 'res' or contains(t, mk('sym', 'none')) for t in ts) or not is_int(o.v) and hazy(o.v) else False, where(r), 'a %s without some field is refused' % m)
