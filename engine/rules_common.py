"""Labels, time points, id list intersection, chunk directory names, conversions."""
from rulebase import *
from rules_chunk import tp_fields, adt_fields, with_, same3, check_bool
from rules_dir import run_closure, eqt

def trait_impls(cx, ty, method, trait):
    return [i for i in cx.db.local if not i['closure'] and i['path'].split('::')[-1] == method and i['iself'] and last_seg(i['iself']) == ty and i['itrait'] and last_seg(i['itrait']) == trait]

def fact_mentions(items, pred):
    for k, t, v in items:
        for x in ([t] if isinstance(t, T) else [y for y, _ in t]):
            if mentions(x, pred): return True
    return False

def fact_terms_of(items):
    out = []
    for k, t, v in items: out += [t] if isinstance(t, T) else [y for y, _ in t]
    return out

def facts_of(items, base=None):
    f = base.copy() if base is not None else Facts()
    return f if apply_facts(f, items) else None

# ------------------------------------------------------------------- labels
@rule('E01')
def label_eq(cx):
    i = cx.need('Label', 'eq', 'PartialEq')
    r = cx.good(i)
    F = adt_fields(cx, 'Label')
    a, b = r.args[:2]
    n = F['key'], F['value']
    kq, vq = eqt(fld(a, n[0]), fld(b, n[0])), eqt(fld(a, n[1]), fld(b, n[1]))
    check_bool(cx, r, 'E01', 'label-eq', [('same name and value', [(kq, 1), (vq, 1)], 1), ('other name', [(kq, 0), (vq, 1)], 0), ('other value', [(kq, 1), (vq, 0)], 0), ('other name and value', [(kq, 0), (vq, 0)], 0)])
    for o in r.panics: cx.chk('E01', 'label-eq:no-panic', None if any(opaque(t) for t in fact_terms_of(o.f.items())) else False, where(r), 'comparing labels can panic')

@rule('E01')
def label_order(cx):
    F = adt_fields(cx, 'Label')
    for m, tr in (('cmp', 'Ord'), ('partial_cmp', 'PartialOrd')):
        i = cx.find('Label', m, tr)
        if i is None: continue
        r = cx.good(i)
        a, b = r.args[:2]
        want = mk('cmp', fld(a, F['key']), fld(b, F['key']))
        for o in r.rets:
            v = o.v
            if m == 'partial_cmp' and v.op == 'adt': v = v.a[4] if v.a[2] == 1 else v
            # (when the names differ the order must be the order of the names)
            c = True if v is want else None
            if c is None and v.op == 'cmp': c = False if v.a == (fld(b, F['key']), fld(a, F['key'])) or not contains(v, fld(a, F['key'])) else None
            if c is None and v.op == 'cmp' and set(v.a) in ({fld(a, F['key']), fld(b, F['value'])}, {fld(a, F['value']), fld(b, F['key'])}): c = False
            if c is False and o.f.d.get(eqt(fld(a, F['key']), fld(b, F['key']))): c = True
            if c is False and o.f.d.get(want) == 0: c = True
            cx.chk('E01', 'label-order:' + m, c, where(r), 'labels are ordered by %s' % show(v)[:120])

@rule('E01')
def labels_eq(cx):
    i = cx.need('Labels', 'eq', 'PartialEq')
    r = cx.good(i)
    F = adt_fields(cx, 'Label')
    a, b = r.args[:2]
    la, lb = fld(a, 0), fld(b, 0)
    W = where(r)
    na, nb = length(la), length(lb)
    for o in r.panics:
        cx.chk('E01', 'labels-eq:no-panic', None if any(opaque(t) for t in fact_terms_of(o.f.items())) else False, W, 'comparing label sets can panic (%s)' % '; '.join(show_fact(x) for x in list(o.f.items())[:3])[:160])
    for o in r.rets:
        if o.v is eqt(la, lb):
            for k in ('length', 'elements', 'unequal-has-cause'): cx.ok('E01', 'labels-eq:' + k, W)
            continue
        for nm, reg in (('shorter', lt(na, nb)), ('longer', lt(nb, na))):
            q = with_(o, [(reg, 1)])
            if q is None: continue
            fs = q.f.cases(o.v, 1)
            if not fs: cx.ok('E01', 'labels-eq:length', W); continue
            # equal in spite of different lengths?
            op_ = opaque(o.v) or any(opaque(t) for t in fact_terms_of(q.f.items())) or o.v.op in ('eq', 'app')
            cx.chk('E01', 'labels-eq:length', None if op_ else False, W, 'a label set that is %s can compare equal' % nm)
        if o.v is TRUE:
            loops = [e.x for e in o.ev if e.kind == 'loop']
            if o.f.d.get(eqt(la, lb)) == 1 or with_(o, [(lt(I(0), na), 1)]) is None: cx.ok('E01', 'labels-eq:elements', W); continue
            if not loops:
                cx.chk('E01', 'labels-eq:elements', None if o.f.b and any(opaque(t) for t in o.f.b) else False, W, 'label sets can compare equal without looking at their labels'); continue
            L = loops[-1]
            s = L.src
            xa, xb = None, None
            if s.op == 'zip': xa, xb = el(s.a[0]), el(s.a[1])
            elif s is mk('range', I(0), na) or s is la: xa, xb = el(la), index(lb, mk('idx', la))
            elif s is mk('range', I(0), nb) or s is lb: xa, xb = index(la, mk('idx', lb)), el(lb)
            elif s.op == 'enum' and s.a[0] is la: xa, xb = el(la), index(lb, mk('idx', la))
            full = s in (la, lb) or s.op == 'range' and s.a[0] is I(0) and s.a[1] in (na, nb) or s.op == 'zip' and set(s.a) == {la, lb} or s.op == 'enum' and s.a[0] in (la, lb)
            if xa is not None and full:
                pairs = [eqt(xa, xb)] + [eqt(fld(xa, F[nm]), fld(xb, F[nm])) for nm in ('key', 'value')]
                if any(o.f.b.get(q) == 0 for q in pairs): cx.bad('E01', 'labels-eq:elements', W, 'label sets can compare equal although a label differs'); continue
            if xa is None or s.op == 'zip' and not full or L.partial:
                part = s.op in ('slice', 'range', 'zip') and not opaque(s) and all(x in (na, nb, la, lb) or x.op in ('int', 'slice') for x in s.a[:2]) and not L.partial and s.op != 'range'
                rg = s.op == 'range' and not opaque(s) and not L.partial
                cx.chk('E01', 'labels-eq:elements', False if (rg and s.a[0].op == 'int' and s.a[0].a[0] > 0 and s.a[1] in (na, nb)) or (part and mentions(s, lambda t: t.op == 'slice')) else None, W, 'only the labels in %s are compared' % show(s)[:100]); continue
            for d, es, vals in L.paths:
                f = facts_of(d)
                if f is None: continue
                whole = f.b.get(eqt(xa, xb)) == 1
                for nm in ('key', 'value'):
                    q = eqt(fld(xa, F[nm]), fld(xb, F[nm]))
                    c = True if whole or f.b.get(q) == 1 else (None if any(opaque(t) for t in fact_terms_of(d)) or any(v.op == 'ite' for v in vals.values()) else False)
                    # result kept in an accumulator instead of an exit
                    if c is False and any(mentions(v, lambda t: t.op in ('eq', 'and')) for v in vals.values()): c = None
                    cx.chk('E01', 'labels-eq:elements', c, W, 'label sets can compare equal although the %s of a label differs' % nm)
        elif o.v is FALSE:
            if any(opaque(t) for t in fact_terms_of(o.f.items())): cx.unk('E01', 'labels-eq:unequal-has-cause', W); continue
            diff = with_(o, [(ieq(na, nb), 1)]) is None or any(t.op == 'eq' and k == 0 for t, k in o.f.b.items())
            nofacts = not [t for t in o.f.b] and not [t for t in o.f.d]
            cx.chk('E01', 'labels-eq:unequal-has-cause', True if diff else False if nofacts else None, W, 'label sets can compare unequal although nothing differs')
        elif o.v.op == 'eq' and sorted_of(o.v.a[0]) in (la, lb) and sorted_of(o.v.a[1]) in (la, lb): cx.bad('E01', 'labels-eq:elements', W, 'label sets are compared without regard to order: %s' % show(o.v)[:100])
        else: cx.unk('E01', 'labels-eq:elements', W, show(o.v)[:120])

def sorted_of(t): return t.a[0] if t.op == 'sorted' else None

BADHASH = {'capacity', 'addr', 'random', 'now', 'SystemTime::now', 'Instant::now', 'uuid', 'as_ptr', 'thread_id'}
def impure(t):
    return t.op in ('uuid', 'fresh', 'now') or t.op == 'app' and isinstance(t.a[0], str) and t.a[0] in BADHASH
@rule('E01')
def label_hash(cx):
    for ty in ('Label', 'Labels'):
        i = cx.need(ty, 'hash', 'Hash')
        r = cx.good(i)
        for o in r.rets:
            st = r.args[1]
            v = r.interp.load(o.s, st) if st.op == 'mref' else st
            if v.op not in ('app', 'fold', 'sym', 'upd'): cx.unk('E01', 'hash:' + ty, where(r), show(v)[:100]); continue
            cx.chk('E01', 'hash:%s' % ty, False if mentions(v, impure) else True, where(r), 'the hash of a %s depends on %s' % (ty, show(v)[:120]))
    i = cx.find('Labels', 'get_hash')
    if i is not None:
        r = cx.good(i)
        for o in r.rets: cx.chk('E01', 'hash:get_hash', False if mentions(o.v, impure) else True, where(r), 'the hash of a label set is %s' % show(o.v)[:120])

# --------------------------------------------------------------- time points
def flt_atoms(t, out):
    for x in subterms(t):
        if x.op in ('flt<', 'flt<=', 'feq'): out.add(x)
import struct, ast
def fconst(t):
    """float constant of a term"""
    if t.op == 'flt':
        v = t.a[0]
        return struct.unpack('>d', struct.pack('>Q', v))[0] if isinstance(v, int) else v
    if t.op == 'app' and t.a[0] == 'fneg':
        c = fconst(t.a[1]); return None if c is None else -c
    return None

@rule('E02')
def tp_eq(cx):
    i = cx.need('TimePoint', 'eq', 'PartialEq')
    r = cx.good(i)
    ti, vi = tp_fields(cx)
    a, b = r.args[:2]
    ta, tb, va, vb = fld(a, ti), fld(b, ti), fld(a, vi), fld(b, vi)
    W = where(r)
    for nm, reg in (('earlier', [(lt(ta, tb), 1)]), ('later', [(lt(tb, ta), 1)])):
        bad = None
        for o in r.rets:
            q = with_(o, reg)
            if q is None: continue
            if q.f.cases(o.v, 1):
                ats = set(); flt_atoms(o.v, ats)
                bad = None if opaque(o.v) else False
                if bad is False: cx.bad('E02', 'tp-eq:timestamp', W, 'a point at an %s time can compare equal' % nm); break
                cx.unk('E02', 'tp-eq:timestamp', W, show(o.v)[:100])
        else: cx.ok('E02', 'tp-eq:timestamp', W)
    # value comparison: every float atom is a relation between the difference and a constant
    ats = set()
    for o in r.rets:
        flt_atoms(o.v, ats)
        for t in o.f.b: flt_atoms(t, ats)
    D = mk('app', 'fSub', va, vb), mk('app', 'fSub', vb, va)
    consts = set()
    def linear(t):
        """(sign, abs?, const): t = sign*(va-vb), |va-vb| or constant; None otherwise"""
        c = fconst(t)
        if c is not None: return ('c', c)
        if t.op == 'fSub' or t.op == 'app' and t.a[0] == 'fSub':
            x, y = (t.a[0], t.a[1]) if t.op == 'fSub' else t.a[1:3]
            if (x, y) == (va, vb): return ('d', 1)
            if (x, y) == (vb, va): return ('d', -1)
            return None
        if t.op == 'app' and t.a[0] == 'fabs':
            q = linear(t.a[1])
            return ('abs', 1) if q and q[0] in ('d', 'abs') else None
        if t.op == 'app' and t.a[0] == 'fneg':
            q = linear(t.a[1])
            return ('d', -q[1]) if q and q[0] == 'd' else None
        if t is va: return ('v', 0)
        if t is vb: return ('v', 1)
        return None
    rel = {}
    for t in ats:
        l, q = linear(t.a[0]), linear(t.a[1])
        if l is None or q is None: cx.unk('E02', 'tp-eq:value', W, 'comparison %s' % show(t)[:100]); return
        for x in (l, q):
            if x[0] == 'c': consts.add(abs(x[1]))
        rel[t] = (l, q)
    M = sorted(c for c in consts if c > 0)
    def ev(x, d):
        if x[0] == 'c': return x[1]
        if x[0] == 'd': return None if d is None else x[1] * d
        if x[0] == 'abs': return None if d is None else abs(d)
        return None if d is None else (d, 0.0)[x[1]]      # (va, vb) = (d, 0)
    def truth(t, d):
        l, q = rel[t]
        x, y = ev(l, d), ev(q, d)
        if x is None or y is None: return 0                # not a number: every comparison is false
        return int(x < y if t.op == 'flt<' else x <= y if t.op == 'flt<=' else x == y)
    def value(o, d):
        """possible truth values of the result for equal timestamps and va - vb == d"""
        f = o.f.copy()
        if not f.assume(ieq(ta, tb), 1): return set()
        for t in ats:
            if not f.assume(t, truth(t, d)): return set()
        if o.v.op == 'not' and o.v.a[0] in ats: return {1 - truth(o.v.a[0], d)}
        if o.v in ats: return {truth(o.v, d)}
        out = set()
        for k in (0, 1):
            if f.cases(o.v, k): out.add(k)
        return out
    def result(d):
        s = set()
        for o in r.rets: s |= value(o, d)
        return s
    if not ats:
        feq = any(contains(o.v, mk('eq', *sorted((va, vb), key=lambda t: t.id))) for o in r.rets)
        cx.chk('E02', 'tp-eq:value', None if any(contains(o.v, va) or any(contains(t, va) for t in o.f.b) for o in r.rets) else False, W, 'values are not compared'); return
    if not M: cx.unk('E02', 'tp-eq:value', W, 'no tolerance'); return
    lo, hi = M[0], M[-1]
    cx.chk('E02', 'tp-eq:tolerance', lo == hi and hi < 1e-3, W, 'the tolerance is %s' % ', '.join('%g' % m for m in M))
    for nm, d, want in (('same value', 0.0, 1), ('slightly larger', lo / 2, 1), ('slightly smaller', -lo / 2, 1), ('larger', 2 * hi, 0), ('smaller', -2 * hi, 0), ('much larger', 1e12, 0), ('much smaller', -1e12, 0), ('larger by the tolerance', hi, 0), ('smaller by the tolerance', -hi, 0), ('not a number', None, 0)):
        s = result(d)
        if want and d == 0.0 or want:
            c = s == {1} if len(s) == 1 else None
        else: c = 1 not in s if len(s) == 1 else None
        cx.chk('E02', 'tp-eq:value', c, W, 'points whose values differ (%s) compare %s' % (nm, 'equal' if not want else 'unequal'))

@rule('E02')
def tp_order(cx):
    ti, vi = tp_fields(cx)
    for m, tr in (('cmp', 'Ord'), ('partial_cmp', 'PartialOrd')):
        i = cx.need('TimePoint', m, tr)
        r = cx.good(i)
        a, b = r.args[:2]
        ta, tb = fld(a, ti), fld(b, ti)
        for nm, reg, want in (('earlier', [(lt(ta, tb), 1)], LESS), ('later', [(lt(tb, ta), 1)], GREATER), ('same', [(ieq(ta, tb), 1)], EQUAL)):
            for o in r.rets:
                q = with_(o, reg)
                if q is None: continue
                v = o.v
                if m == 'partial_cmp':
                    if v.op == 'adt' and v.a[0] == OPT:
                        if v.a[2] == 0: cx.bad('E02', 'tp-order:' + m, where(r), 'points are incomparable'); continue
                        v = v.a[4]
                if v.op == 'fcmp' or v.op == 'app' and v.a[0] == 'fcmp': c = None if contains(v, ta) or contains(v, tb) or opaque(v) else False
                elif v.op == 'cmp': c = True if v.a == (ta, tb) else False if v.a == (tb, ta) or not opaque(v) and want is not EQUAL and not (contains(v, ta) and contains(v, tb)) else None
                elif v in (LESS, EQUAL, GREATER): c = v is want
                else: c = None
                if c is False and v.op == 'cmp' and v.a == (tb, ta) and want is EQUAL: c = True
                cx.chk('E02', 'tp-order:' + m, c, where(r), 'a point at %s time is ordered by %s' % (nm, show(v)[:100]))
        for o in r.panics: cx.chk('E02', 'tp-order:no-panic', None, where(r))

# -------------------------------------------------------------- intersection
OI = 'Vec.OrderIntersect.order_intersect'
@rule('R03')
def order_intersect(cx):
    i = cx.need('Vec', 'order_intersect', 'OrderIntersect')
    r = cx.good(i)
    a, b = r.args[:2]
    W = where(r)
    na, nb = length(a), length(b)
    for o in r.rets:
        ls = [e.x for e in o.ev if e.kind == 'loop']
        if not ls:
            empty = o.v is EMPTY
            none = with_(o, [(lt(I(0), na), 1), (lt(I(0), nb), 1)]) is None
            only = not o.f.b and not o.f.d and not any(opaque(t) for t in fact_terms_of(o.f.items()))
            if not empty and o.v.op == 'comp': pass
            cx.chk('R03', 'merge:early', True if empty and none else False if empty and only and all(t in (na, nb) or t.op == 'len' for t in fact_terms_of(o.f.items())) else None, W, 'two non-empty lists intersect to nothing'); continue
        v = o.v
        if v.op == 'comp' and v.a[0] in (a, b) and not opaque(v):
            # filter by membership
            src, oth = v.a[0], b if v.a[0] is a else a
            okc = True
            for d, pp in v.a[1]:
                memb = any(k == 'b' and t.op == 'app' and t.a[0] in ('contains', 'haskey') and t.a[1] is oth and val == 1 for k, t, val in d) or any(k == 'd' and t.op == 'app' and t.a[0] in ('bsearch', 'binary_search') and oth in t.a and val == 0 for k, t, val in d)
                nmemb = any(k == 'b' and t.op == 'app' and t.a[0] in ('contains', 'haskey') and t.a[1] is oth and val == 0 for k, t, val in d)
                if pp and nmemb: okc = False
                elif not pp and memb: okc = False
                elif pp and not memb: okc = None if okc else okc
            cx.chk('R03', 'merge:filter', okc, W, 'the intersection is %s' % show(v)[:150]); continue
        if len(ls) != 1 or ls[0].src.op != 'while' and ls[0].exitf is None: cx.unk('R03', 'merge', W, 'loop shape'); continue
        merge_loop(cx, r, o, ls[0], a, b, W)

def merge_loop(cx, r, o, L, a, b, W):
    ish = lambda t: t.op == 'hdr' and t.a[0] == L.L
    cells = {mk('hdr', L.L, c[0], c[1]): c for c in L.init}
    ixa, ixb = set(), set()
    for d, es, vals in L.paths:
        for t in fact_terms_of(d) + list(vals.values()):
            for x in subterms(t):
                if x.op == 'index' and x.a[0] in (a, b): (ixa if x.a[0] is a else ixb).add(x.a[1])
                elif x.op == 'el' and x.a[0] in (a, b): (ixa if x.a[0] is a else ixb).add(mk('idx', x.a[0]))
    # a look at the next id(s) goes through the same cursor
    def base(ix):
        hs = [h for h in ix if h in cells or h.op == 'el' and h.a[0] is L.src]
        return {hs[0]} if len(hs) == 1 and all(is_int(sub(h, hs[0])) for h in ix) else ix
    ahead = [index(a, h) for h in ixa] + [index(b, h) for h in ixb]
    ixa, ixb = base(ixa), base(ixb)
    if len(ixa) != 1 or len(ixb) != 1: cx.unk('R03', 'merge', W, 'no two cursors'); return
    hi, hj = ixa.pop(), ixb.pop()
    cnt = el(L.src) if L.src.op == 'range' else None       # a counter advances by one on every path
    st_of = lambda h: L.src.a[0] if h is cnt else L.init[cells[h]]
    step = lambda h, vals: I(1) if h is cnt else sub(vals[cells[h]], h)
    if any(h not in cells and h is not cnt for h in (hi, hj)) or hi is hj: cx.unk('R03', 'merge', W, 'cursors %s, %s' % (show(hi), show(hj))); return
    acc = [h for h, c in cells.items() if L.init[c] is EMPTY and all(v[c] is h or v[c].op == 'cat' and parts(v[c])[0] is h for d, es, v in L.paths)]
    if len(acc) != 1: cx.unk('R03', 'merge', W, 'no single accumulator'); return
    acc = acc[0]
    x, y = index(a, hi), index(b, hj)
    na, nb = length(a), length(b)
    for h in (hi, hj):
        st = st_of(h)
        cx.chk('R03', 'merge:start', True if st is I(0) else False if is_int(st) else None, W, 'a cursor starts at %s' % show(st))
    plain = {x, y, hi, hj} | set(ahead) | set(parts(na)) | set(parts(nb))
    def simple(items, more=None): return all(t in plain or more is not None and t is length(more) or t in (na, nb) or t.op == 'len' and t.a[0] in (a, b) or t.op in ('cmp', 'cmpd') and set(t.a) <= {x, y} for t in fact_terms_of(items) if t.op != 'int')
    for d, es, vals in L.paths:
        f = facts_of(d)
        if f is None: continue
        di, dj = step(hi, vals), step(hj, vals)
        v = vals[cells[acc]]
        push = [] if v is acc else list(parts(v))[1:]
        for nm, reg, k in (('first smaller', lt(x, y), 'a'), ('second smaller', lt(y, x), 'b'), ('equal', ieq(x, y), 'e')):
            g = f.copy()
            if not g.assume(reg, 1): continue
            if not g.assume(lt(hi, na), 1) or not g.assume(lt(hj, nb), 1): continue
            s = simple(d)
            if k == 'e':
                good = len(push) == 1 and push[0].op == 'one' and push[0].a[0] in (x, y)
                cx.chk('R03', 'merge:common-kept', True if good else False if simple(d, acc) and (not push or len(push) > 1) else None, W, 'an id in both lists is added %d times' % len(push))
                adv = (di, dj)
                good = di in (I(0), I(1)) and dj in (I(0), I(1)) and not (di is I(0) and dj is I(0))
                cx.chk('R03', 'merge:advance-equal', True if good else False if s and is_int(di) and is_int(dj) else None, W, 'after a common id the cursors move by %s and %s' % (show(di), show(dj)))
            else:
                want = (I(1), I(0)) if k == 'a' else (I(0), I(1))
                cx.chk('R03', 'merge:only-common', True if not push else False if s else None, W, 'an id of only one list is added (%s)' % nm)
                st, seq, h, oth = (di, a, hi, y) if k == 'a' else (dj, b, hj, x)
                if (dj if k == 'a' else di) is I(0) and is_int(st) and st.a[0] > 1:
                    # ids that are jumped over must be known to be smaller too
                    for m in range(1, st.a[0]):
                        g2 = g.copy()
                        jump = index(seq, add(h, I(m)))
                        cx.chk('R03', 'merge:advance', True if not g2.assume(ieq(jump, oth), 1) else False if s else None, W, 'when the %s id is smaller an id that may be common is jumped over' % ('first' if k == 'a' else 'second'))
                    continue
                cx.chk('R03', 'merge:advance', True if (di, dj) == want else False if s and is_int(di) and is_int(dj) else None, W, 'when the %s id is smaller the cursors move by %s and %s' % ('first' if k == 'a' else 'second', show(di), show(dj)))
    # exit only when one list is exhausted
    f = L.exitf
    if f is not None and cnt is not None: f = None
    if f is not None:
        g = f.copy()
        feas = g.assume(lt(hi, na), 1) and g.assume(lt(hj, nb), 1)
        mine = [q for q in f.items() if fact_mentions([q], ish)]
        cx.chk('R03', 'merge:exhausted', True if not feas else False if all(t in (hi, hj, na, nb) or t.op == 'len' for t in fact_terms_of(mine)) else None, W, 'the merge stops before either list is exhausted')
        ex = L.exitv.get(cells[acc])
        cl = L.closed.get(acc)
        cx.chk('R03', 'merge:result', True if o.v is cl and ex is acc else None, W, 'the result is %s' % show(o.v)[:100])

@rule('R03')
def intersect_vec(cx):
    i = cx.need(None, 'intersect_time_series_id_vec')
    C = frozenset((OI, '.intersect_time_series_id_vec'))
    r = cx.good(i, C)
    ts = r.args[0]
    W = where(r)
    n = length(ts)
    NAME = '::intersect_time_series_id_vec'
    class Cov(object):
        """part of the input lists a value is the intersection of; conds: index facts"""
        pass
    IX = mk('sym', 'anyindex')
    def union(*cs):
        out = []
        for c in cs:
            if c is None: return None
            out += c
        return out
    # a coverage is a list of sets of facts about IX (index of an input list): disjunction
    def listcov(v, o, depth=0):
        """coverage of a list of lists"""
        if depth > 6: return None
        if v is ts: return [frozenset()]
        if v is EMPTY: return []
        if v.op == 'cat':
            cs = []
            for p in v.a:
                if p.op == 'one': cs.append(cov(p.a[0], o, depth + 1))
                else: cs.append(listcov(p, o, depth + 1))
            return union(*cs)
        if v.op == 'slice' and v.a[0] is ts:
            lo, hi = v.a[1], n if v.a[2] is END else v.a[2]
            return [[(lt(IX, lo), 0), (lt(IX, hi), 1)]]
        if v.op in ('rev', 'sorted'): return listcov(v.a[0], o, depth + 1)
        if v.op == 'comp' and v.a[0].op in ('range',) or v.op == 'comp' and v.a[0] is ts or v.op == 'comp' and v.a[0].op == 'enum' and v.a[0].a[0] is ts:
            part = v.a[0].op == 'range' and not (v.a[0].a[0] is I(0) and v.a[0].a[1] is n)
            out = []
            ix = mk('idx', ts)
            for d, pp in v.a[1]:
                if not pp: continue
                if len(pp) != 1 or pp[0].op != 'one': return None
                e = pp[0].a[0]
                if part:
                    ix = el(v.a[0])
                    if not (e.op == 'index' and e.a[0] is ts and e.a[1] is ix): return None
                elif e is not el(ts): return None
                if fact_mentions(d, lambda t: t.op in OPAQUE): return None
                out.append(('facts', d, ix))
            return out
        return None
    def kept_in(v):
        """the list the ids of v.a[0] are looked up in -> (list, one of several suffices) or None"""
        e0 = el(v.a[0])
        keeps, drops = [], []
        for d, ps in v.a[1]:
            if ps and not (len(ps) == 1 and ps[0].op == 'one' and ps[0].a[0] is e0): return None
            fs = []
            for k, t, val in d:
                if k == 'z' and all(x is n for x, _ in t): continue
                if k == 'b' and t.op == 'app' and t.a[0] == 'contains' and t.a[2] is e0: fs.append((t.a[1], val == 1))
                elif k == 'd' and t.op == 'app' and t.a[0] == 'bsearch' and t.a[2] is mk('cmp', mk('sym', 'probe'), e0): fs.append((t.a[1], val == 0))
                else: return None
            if len(fs) > 1: return None
            (keeps if ps else drops).append(fs[0] if fs else None)
        xs = set(f[0] for f in keeps + drops if f)
        if len(xs) != 1: return None
        x = xs.pop()
        if not all(f is None or f[1] for f in keeps) or not all(f is None or not f[1] for f in drops): return None
        if any(drops): return None if None in drops else (x, False)
        return (x, True) if x.op == 'el' and drops else None
    def cov(v, o, depth=0):
        """coverage of one list"""
        if depth > 8: return None
        if v.op == 'index' and v.a[0] is ts: return [[(ieq(IX, v.a[1]), 1)]]
        if v.op == 'el' and v.a[0] is ts: return None
        if v is EMPTY: return []
        if v.op == 'res' and v.a[0].endswith('order_intersect'): return union(*[cov(x, o, depth + 1) for x in v.a[1][:2]])
        if v.op == 'fold':
            src, cases, init = v.a[0], v.a[1], v.a[2]
            ign, keep = False, False
            for d, q in cases:
                if q.op == 'res' and q.a[0].endswith('order_intersect') and set(q.a[1]) == {mk('hole'), el(src)} and (not d or len(cases) == 2): keep = True
                elif q.op == 'comp' and q.a[0] is mk('hole') and kept_in(q) == (el(src), False): keep = True
                elif q is mk('hole') and all(contains(t, el(src)) for t in fact_terms_of(d)) and not any(mentions(t, lambda z: z.op in OPAQUE or z.op in ('idx', 'index', 'res', 'app')) for t in fact_terms_of(d)): ign = True
                else: return None
            # a list that is passed over for what it contains leaves the result unchanged
            return cov(init, o, depth + 1) if ign else union(cov(init, o, depth + 1), listcov(src, o, depth + 1))
        if v.op == 'comp':
            kx = kept_in(v)
            if kx is None: return None
            x, some = kx
            base = cov(v.a[0], o, depth + 1)
            if x.op != 'el': return union(base, cov(x, o, depth + 1))
            if some and with_(o, [(lt(I(2), length(x.a[0])), 1)]) is not None: return base
            return union(base, listcov(x.a[0], o, depth + 1))
        if v.op == 'vf':
            x = v.a[0]
            if x.op == 'res' and x.a[0] == NAME and v.a[1:] == (0, 0):
                c = listcov(x.a[1][0], o, depth + 1)
                return c
            while x.op == 'vf' and x.a[1:] == (0, 0): x = x.a[0]
            if x.op == 'res' and x.a[0] in ('Receiver::try_recv', 'Receiver::recv', 'Receiver::recv_timeout') and x.a[1][0].op == 'app' and x.a[1][0].a[0] == 'rx':
                return sent(x.a[1][0].a[1], o, depth)
        return None
    memo = {}
    def sent(k, o, depth):
        """what the workers send on channel k"""
        out, found = None, False
        for e in flat(o.ev):
            if e.name != 'thread::spawn' or not e.args or e.args[0].op != 'clo': continue
            c = e.args[0]
            if c not in memo:
                memo[c] = run_closure(cx, c, C)
            w = memo[c]
            if w is None or w.err or w.unmod: return None
            for q in w.rets:
                for s in evs(q, 'Sender::send', 'SyncSender::send'):
                    if s.args[0] is not mk('app', 'tx', k): continue
                    x = s.args[1]
                    if x.op == 'res' and x.a[0] == NAME: cc = listcov(x.a[1][0], o, depth + 1)
                    else: return None
                    if cc is None: return None
                    if found and cc != out: return None
                    out, found = cc, True
        return out if found else None
    def holes(cv, f):
        """an index covered by no disjunct? True/False/None"""
        def rec(cs, g):
            if not cs: return True
            c = cs[0]
            alts = []
            if isinstance(c, frozenset): return False          # everything
            if isinstance(c, tuple):
                _, d, ix = c
                items = [(k, (subst(t, {ix: IX}) if isinstance(t, T) else tuple((subst(x, {ix: IX}), m) for x, m in t)), v) for k, t, v in d]
                for it in items:
                    k, t, v = it
                    if k == 'z':
                        lin = mklin(0, dict(t))
                        lo, hi = v
                        if lo > -INF: alts.append((lt(lin, I(int(lo))), 1))
                        if hi < INF: alts.append((lt(I(int(hi)), lin), 1))
                    elif k == 'zn':
                        lin = mklin(0, dict(t))
                        for z in v: alts.append((ieq(lin, I(int(z))), 1))
                    elif k == 'b': alts.append((t, 1 - v))
                    else: return None
            else: alts = [(t, 1 - v) for t, v in c]
            got = False
            for t, v in alts:
                h = g.copy()
                if not h.assume(t, v): continue
                x = rec(cs[1:], h)
                if x is None: return None
                if x: got = True
            return got
        g = f.copy()
        if not (g.assume(lt(IX, I(0)), 0) and g.assume(lt(IX, n), 1)): return False
        return rec(list(cv), g)
    def coverage(o, v, key):
        cv = cov(v, o)
        if cv is None: cx.unk('R03', key, W, 'result is %s' % show(v)[:120]); return
        h = holes(cv, o.f)
        cx.chk('R03', key, None if h is None else not h, W, 'some of the lists are not intersected (result %s)' % show(v)[:160])
    for o in r.rets:
        if o.rk != 'ok':
            c = [e for e in flat(o.ev) if e.res is not None and (ev_err(o, e) or o.f.d.get(vf(e.res, 0, 0)) == 1)]
            nofail = not c and o.f.d == {} and not any(opaque(t) for t in fact_terms_of(o.f.items()))
            cx.chk('R03', 'intersect:error-has-cause', True if c else False if nofail and not any(e.kind == 'loop' for e in o.ev) and with_(o, [(lt(I(0), n), 1)]) is not None and o.p.op == 'adt' else None, W, 'intersecting fails although nothing failed')
            continue
        for e in flat(o.ev):
            if e.name == NAME and e in o.ev: cx.chk('R03', 'intersect:error-propagates', True if ev_ok(o, e) or o.p.op == 'vf' and o.p.a[0] is e.res or o.v is e.res else False if ev_err(o, e) or not any(x is not e.res and contains(x, e.res) for x in [o.v]) and o.f.d.get(e.res) is None else None, W, 'a failing part does not fail the intersection')
        v = o.p
        if v is EMPTY:
            z = with_(o, [(lt(I(0), n), 1)])
            only = all(t.op == 'len' or t is n for t in fact_terms_of(o.f.items()))
            cx.chk('R03', 'intersect:empty', True if z is None else False if only and not o.ev else None, W, 'lists are given but nothing is returned')
            continue
        # final recursion over gathered parts
        ls = [e.x for e in o.ev if e.kind == 'loop' and (e.x.src.op == 'while')]
        if ls and v.op == 'vf' and v.a[0].op == 'res' and v.a[0].a[0] == NAME and any(x is EMPTY for x in ls[-1].init.values()):
            gather(cx, o, ls[-1], W, cov, holes, union)
        else: coverage(o, v, 'intersect:all-lists')
        # termination: no part is the whole input
    seen = set()
    for o in r.outs:
        args = [e.args[0] for e in flat(o.ev) if e.name == NAME]
        for c in [e.args[0] for e in flat(o.ev) if e.name == 'thread::spawn' and e.args and e.args[0] in memo]:
            w = memo[c]
            if w is not None and not w.err: args += [e.args[0] for q in w.rets for e in flat(q.ev) if e.name == NAME]
        for x in args:
            if x in seen: continue
            seen.add(x)
            cv = listcov(x, o)
            if cv is None: continue
            f = Facts(); f.assume(lt(I(2), n), 1)
            h = holes(cv, f)
            if x is ts or x.op in ('comp', 'slice'): cx.chk('R03', 'intersect:terminates', None if h is None else True if h else (False if with_(o, [(lt(I(2), n), 1)]) is not None else True), W, 'a part is the whole input again: endless recursion')

def gather(cx, o, L, W, cov, holes, union):
    """results of several workers collected in a polling loop: the loop ends only when each was kept"""
    if L.exitf is None: cx.unk('R03', 'intersect:gather', W, 'loop shape'); return
    isrx = lambda t: t.op == 'app' and t.a[0] == 'rx'
    acc = [c for c, v in L.init.items() if v is EMPTY and all(p[2][c].op in ('hdr', 'cat') for p in L.paths)]
    bools = [c for c, v in L.init.items() if v in (TRUE, FALSE)]
    if len(acc) != 1: cx.unk('R03', 'intersect:gather', W, 'no single accumulator'); return
    acc = acc[0]
    H = lambda c: mk('hdr', L.L, c[0], c[1])
    def pushed(v):
        if v is H(acc): return ()
        ps = parts(v)
        if ps[0] is not H(acc): return None
        return tuple(p.a[0] if p.op == 'one' else None for p in ps[1:])
    def enabled(items, st):
        for k, t, v in items:
            for c in bools:
                if t is H(c) and k == 'b' and v != st[c]: return False
        return True
    def bval(t, st):
        if t in (TRUE, FALSE): return t.a[0]
        for c in bools:
            if t is H(c): return st[c]
        return None
    init = {c: L.init[c].a[0] for c in bools}
    todo, seen, exits = [(tuple(init.items()), ())], set(), []
    exitfs = []
    for e in [L]: exitfs.append((L.exitf.items(), L.exitv))
    while todo:
        st0 = todo.pop()
        if st0 in seen or len(seen) > 400: continue
        seen.add(st0)
        st, got = dict(st0[0]), st0[1]
        for d, es, vals in L.paths:
            if not enabled(d, st): continue
            p = pushed(vals[acc])
            if p is None or None in p: cx.unk('R03', 'intersect:gather', W, 'accumulator'); return
            ns = {}
            for c in bools:
                x = bval(vals[c], st)
                if x is None: cx.unk('R03', 'intersect:gather', W, 'flag'); return
                ns[c] = x
            if len(got) + len(p) > 4: continue
            todo.append((tuple(ns.items()), got + p))
        for items, xv in exitfs:
            if not enabled(items, st): continue
            p = pushed(xv[acc])
            if p is None or None in p: cx.unk('R03', 'intersect:gather', W, 'accumulator'); return
            exits.append(got + p)
    for g in exits:
        cv = union(*[cov(x, o) for x in g])
        if cv is None: cx.unk('R03', 'intersect:all-lists', W, ', '.join(show(x)[:80] for x in g)); continue
        h = holes(cv, o.f)
        cx.chk('R03', 'intersect:all-lists', None if h is None else not h, W, 'the parts combined are (%s): some lists are missing' % ', '.join(show(x)[:80] for x in g))

# ------------------------------------------------------ chunk directory names
def cut_(b, n): return None if b is None else b[:n]
def byte_bits(v, widths):
    """bits of a big-endian byte string read as a number"""
    if v.op == 'slice':
        b = byte_bits(v.a[0], widths)
        if b is None or not is_int(v.a[1]) or not (is_int(v.a[2]) or v.a[2] is END): return None
        n = len(b) // 8
        i, j = v.a[1].a[0], n if v.a[2] is END else v.a[2].a[0]
        return b[8 * (n - j):8 * (n - i)] if 0 <= i <= j <= n else None
    out = []
    for p in parts(v):
        if p.op == 'be': b = cut_(bits_of(p.a[1], widths), 8 * p.a[0])
        elif p.op == 'lit': b = [(x >> k) & 1 for x in reversed(p.a[0]) for k in range(8)]
        elif p.op == 'one': b = cut_(bits_of(p.a[0], widths), 8)
        elif p.op == 'slice': b = byte_bits(p, widths)
        else: b = None
        if b is None: return None
        out = b + out
    return out

class Leaves(dict):
    """every number that is not computed from others is 64 bits of its own"""
    def __contains__(self, t): return t.op not in ('int', 'bit', 'wrap', 'lin', 'be', 'ite') and not (t.op == 'app' and str(t.a[0]).startswith('from_be'))
    def __getitem__(self, t): return 64

def byte_seq(v):
    """a byte string as bytes (eight bits each) and strings of unknown content"""
    out = []
    for p in parts(v) if v.op == 'cat' else (v,):
        b = byte_bits(p, Leaves()) if p.op in ('be', 'one', 'lit') else None
        if b is None: out.append(p); continue
        for k in range(len(b), 0, -8): out.append(tuple(b[k - 8:k]))
    return out

def same_bytes(a, b):
    """the same byte string, however it is put together"""
    if a is b: return True
    x, y = byte_seq(a), byte_seq(b)
    return len(x) == len(y) and all(p is q or isinstance(p, tuple) and p == q and ('mix',) not in p for p, q in zip(x, y))

def same_word(a, b):
    """the same 64-bit word (number, or floating point number by its bits), however it is put together"""
    if a is b: return True
    def fl(t):
        if t.op == 'app' and t.a[0] == 'ffrombits': return bits_of(t.a[1], Leaves())
        if t.op == 'app' and t.a[0] == 'f_from_be': return byte_bits(t.a[1], Leaves())
        return None
    x, y = fl(a), fl(b)
    if x is not None or y is not None:
        x = bits_of(mk('app', 'fbits', a), Leaves()) if x is None else x
        y = bits_of(mk('app', 'fbits', b), Leaves()) if y is None else y
    else: x, y = bits_of(a, Leaves()), bits_of(b, Leaves())
    if x is not None and y is not None and ('mix',) not in x + y: return x[:64] == y[:64]
    if same(a, b) is None: return None
    return None if mentions(a, lambda z: z.op == 'bit') else False

def bits_of(t, widths, W=128):
    """bit vector of a term: list of (term, k) | 0 | 1, least significant first; None unknown"""
    if t in widths:
        w = widths[t]
        if isinstance(w, list): return (w + [0] * W)[:W]
        return [(t, k) if k < w else 0 for k in range(W)]
    if is_int(t): return [(t.a[0] >> k) & 1 for k in range(W)]
    if t.op == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('from_be') and t.a[0][7:].isdigit():
        b = byte_bits(t.a[1], widths)
        return None if b is None or len(b) != 8 * int(t.a[0][7:]) else (b + [0] * W)[:W]
    if t.op == 'bit':
        o = t.a[0]
        x = bits_of(t.a[3], widths, W)
        if x is None: return None
        w = t.a[1]
        if o in ('Shl', 'Shr'):
            if not is_int(t.a[4]): return None
            k = t.a[4].a[0]
            if o == 'Shl': return ([0] * k + x[:w - k] + [0] * W)[:w] + [0] * (W - w)
            return (x[k:] + [0] * k)[:W]
        if o in ('Div', 'Rem') and is_int(t.a[4]) and t.a[4].a[0] > 0 and t.a[4].a[0] & (t.a[4].a[0] - 1) == 0:
            k = t.a[4].a[0].bit_length() - 1
            return (x[k:] + [0] * k)[:W] if o == 'Div' else x[:k] + [0] * (W - k)
        y = bits_of(t.a[4], widths, W)
        if y is None: return None
        out = []
        for p, q in zip(x, y):
            mixed = ('mix',) in (p, q)
            if mixed and not (p in (0, 1) or q in (0, 1)) : return None
            if o == 'BitAnd': r = 0 if 0 in (p, q) else p if q == 1 else q if p == 1 else p if p == q else None
            elif o == 'BitOr': r = 1 if 1 in (p, q) else p if q == 0 else q if p == 0 else p if p == q else None
            elif o == 'BitXor': r = p if q == 0 else q if p == 0 else 0 if p == q else None
            else: return None
            out.append(('mix',) if r is None else r)
        return out
    if t.op == 'wrap':
        w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}.get(t.a[2])
        x = bits_of(t.a[0], widths, W)
        if w is None or x is None: return None
        return x[:w] + [0] * (W - w)
    if t.op == 'lin':
        # disjoint sum: shifted copies that do not overlap
        c, d = lin_of(t)
        if c < 0: return None
        out = [(c >> k) & 1 for k in range(W)]
        for x, m in d.items():
            if m <= 0 or m & (m - 1): return None
            b = bits_of(x, widths, W)
            if b is None: return None
            k = m.bit_length() - 1
            if any(z != 0 for z in b[W - k:]) and k: return None
            b = [0] * k + b[:W - k]
            for n, z in enumerate(b):
                if z == 0: continue
                if out[n] != 0: return None
                out[n] = z
        return out
    return None

def hexof(p):
    if p.op == 'hex': return p.a[0]
    if p.op == 'app' and p.a[0] in ('hex', 'HEX'): return p.a[1]
    return None

def name_bits(v, widths):
    """(radix, bits of the number the name spells), 'joined' for variable-width numbers that run into one another, None when the form is not understood"""
    ps = list(parts(v))
    if len(ps) == 1 and ps[0].op == 'dec':
        b = bits_of(ps[0].a[0], widths)
        return None if b is None else (10, b)
    out = []
    for n, p in enumerate(ps):
        x, w = hexof(p), None
        if x is None and p.op == 'app' and p.a[0] == 'pad' and hexof(p.a[2]) is not None:
            try: opts = dict(ast.literal_eval(p.a[1].a[0].a[0].decode()))
            except Exception: return None
            fl = opts.get('flags')
            if not isinstance(opts.get('width'), int) or not isinstance(fl, bytes) or len(fl) != 4 or not fl[3] & 1 or fl[2] & 0xe0: return None
            x, w = hexof(p.a[2]), opts['width']
        if x is None:
            if len(ps) >= 2 and all(q.op in ('hex', 'dec') or hexof(q) is not None for q in ps): return 'joined'
            return None
        b = bits_of(x, widths)
        if b is None: return None
        top_ = max([k for k, z in enumerate(b) if z != 0] + [-1]) + 1
        if n:
            if w is None: return 'joined' if all(hexof(q) is not None or q.op == 'dec' for q in ps) else None
            if top_ > 4 * w: return None
        if n == 0: out = list(b)
        else:
            if any(z != 0 for z in out[len(out) - 4 * w:]): return None
            out = (b[:4 * w] + out)[:len(out)]
    return (16, out) if out else None

def shares_digits(v, s, t):
    """the name is the text of s * A + t * B with A < 2^64 * B: (0, A) and (B, 0) have the same name"""
    nums = [x for x in subterms(v) if x.op == 'lin']
    if len(nums) != 1 or any(contains(x, y) for y in (s, t) for x in subterms(subst(v, {nums[0]: I(0)}))): return False
    c, d = lin_of(nums[0])
    f = {}
    for x, k in d.items():
        if x.op == 'bit' and x.a[0] == 'Shl' and is_int(x.a[4]) if len(x.a) > 4 else False: x, k = x.a[3], k << x.a[4].a[0]
        if x not in (s, t) or x in f: return False
        f[x] = k
    if len(f) != 2 or min(f.values()) <= 0: return False
    return max(f.values()) < min(f.values()) << 64

@rule('D02')
def chunk_dir_name(cx):
    e, d = cx.need(None, 'encode_chunk_dir'), cx.need(None, 'decode_chunk_dir')
    re_, rd = cx.good(e), cx.good(d)
    W1, W2 = where(re_), where(rd)
    s, t = re_.args[:2]
    widths = {s: 64, t: 64}
    for o in re_.panics: cx.chk('D02', 'dir-name:encode-no-panic', None if isinstance(o.v, T) and opaque(o.v) else False, W1, 'encoding a window can panic')
    forms = []
    for o in re_.rets:
        r = name_bits(o.v, widths)
        if r == 'joined':
            cx.bad('D02', 'dir-name:unambiguous', W1, 'variable-width numbers are joined without separator: %s' % show(o.v)[:100]); return
        if r is None:
            if shares_digits(o.v, s, t): cx.bad('D02', 'dir-name:injective', W1, 'the start and the end time share digits of the name: %s' % show(o.v)[:100]); return
            cx.unk('D02', 'dir-name:encode', W1, show(o.v)[:120]); return
        forms.append((o, r[0], r[1]))
    if not forms: cx.unk('D02', 'dir-name:encode', W1, 'no name is returned'); return
    enc_radix = forms[0][1]
    if any(r != enc_radix for o, r, cb in forms): cx.unk('D02', 'dir-name:encode', W1, 'forms of several bases'); return
    def under(o, cb):
        # the bits of a form on its own path: a time known to be a constant contributes constant bits
        known = {}
        for x in (s, t):
            lo, hi = o.f.bounds(((x, 1),))
            if lo is not None and lo == hi: known[x] = lo
        return [(known[z[0]] >> z[1]) & 1 if isinstance(z, tuple) and z[0] in known else z for z in cb]
    cb = max((cb for o, r, cb in forms), key=lambda cb: len(set(z for z in cb if isinstance(z, tuple))))
    for o, r, c2 in forms:
        if c2 is cb: continue
        if under(o, c2) != under(o, cb): cx.unk('D02', 'dir-name:encode', W1, 'the forms of the name do not agree'); return
    used = set(x for x in cb if isinstance(x, tuple))
    miss = [] if ('mix',) in used else [(x, k) for x in (s, t) for k in range(64) if (x, k) not in used]
    cx.chk('D02', 'dir-name:injective', not miss, W1, 'the name does not depend on bit %d of the %s time: two windows share a name' % ((miss[0][1], 'start' if miss[0][0] is s else 'end') if miss else (0, '')))
    # decoding
    name = rd.args[0]
    parses = set()
    for o in rd.rets:
        for x in [o.v] + list(fact_terms_of(o.f.items())):
            for y in subterms(x):
                if y.op == 'app' and isinstance(y.a[0], str) and (y.a[0].startswith('parse_radix') or y.a[0] == 'parse'): parses.add(y)
    if len(parses) != 1: cx.unk('D02', 'dir-name:decode', W2, 'parses: %s' % ', '.join(show(p) for p in parses)[:120]); return
    P = parses.pop()
    pty = P.a[0].split(':')[1] if ':' in P.a[0] else None
    if pty is None and P.a[0] == 'parse':
        l = P.a[2] if len(P.a) > 2 else None
        pty = l.a[0].a[0].decode() if l is not None and l.op == 'cat' and l.a else None
        radix = 10
    else: radix = P.a[2].a[0] if len(P.a) > 2 and is_int(P.a[2]) else None
    if P.a[1] is not name: cx.unk('D02', 'dir-name:decode', W2, 'decodes %s' % show(P.a[1])[:80]); return
    if radix is None: cx.unk('D02', 'dir-name:decode', W2, 'radix'); return
    cx.chk('D02', 'dir-name:radix', radix == enc_radix, W2, 'names are written in base %d and read in base %d' % (enc_radix, radix))
    top = max([k for k, x in enumerate(cb) if x != 0] or [0])
    pw = {'u128': 128, 'i128': 127, 'u64': 64, 'i64': 63, 'u32': 32}.get(pty)
    cx.chk('D02', 'dir-name:width', None if pw is None else pw > top, W2, 'a name holds %d bits, only %s are read' % (top + 1, pw))
    num = vf(P, 0, 0)
    nok = 0
    for o in rd.rets:
        if o.rk == 'err':
            c = o.f.d.get(P) == 1
            cx.chk('D02', 'dir-name:valid-accepted', True if c else None, W2, 'a valid name may be refused'); continue
        nok += 1
        cx.chk('D02', 'dir-name:invalid-refused', True if o.f.d.get(P) == 0 else False if o.f.d.get(P) == 1 and not opaque(o.p) else None, W2, 'a name that is not an encoding is decoded to %s' % show(o.p)[:80])
        if o.f.d.get(P) != 0: continue
        if o.p.op != 'tup' or len(o.p.a) != 2: cx.unk('D02', 'dir-name:round-trip', W2, show(o.p)[:100]); continue
        for nm, x, want in (('start', o.p.a[0], s), ('end', o.p.a[1], t)):
            b = bits_of(x, {**widths, num: cb})
            if b is None: cx.unk('D02', 'dir-name:round-trip', W2, show(x)[:120]); continue
            wb = [(want, k) if k < 64 else 0 for k in range(128)]
            diff = [k for k in range(64) if b[k] != wb[k]]
            cx.chk('D02', 'dir-name:round-trip', not diff, W2, 'bit %d of the %s time is decoded as %s' % (diff[0] if diff else 0, nm, (show(b[diff[0]][0]) + ' bit %d' % b[diff[0]][1] if len(b[diff[0]]) == 2 else 'a mix of two bits') if diff and isinstance(b[diff[0]], tuple) else b[diff[0]] if diff else ''))
    cx.chk('D02', 'dir-name:decodable', nok >= 1, W2, 'no name can be decoded')
    for o in rd.panics:
        c = o.f.d.get(P) == 1 or not o.f.d and not o.f.b
        cx.chk('D02', 'dir-name:no-panic', False if c and not any(opaque(x) for x in fact_terms_of(o.f.items())) else None, W2, 'an invalid name panics')
    if not rd.panics: cx.ok('D02', 'dir-name:no-panic', W2)

# --------------------------------------------------------------- conversions
def all_of(v, src, mkelem):
    """v is the list of mkelem(element) of every element of src, in order: True/False/None; mkelem(value, element) -> True/False/None"""
    while v.op == 'adt' and last_seg(v.a[0]) in ('RepeatedField', 'SingularField') and len(v.a) == 5: v = v.a[4]
    if v is src: return mkelem(el(src), el(src))
    if v.op != 'comp':
        if opaque(v) or not contains(v, src): return None if opaque(v) else False
        return None
    s = v.a[0]
    if s is not src:
        if s.op == 'comp' and all_of(s, src, lambda w, e: True) is True:
            # every element mapped, then filtered
            if any(not pp for d, pp in v.a[1]) and not any(opaque(t) for d, pp in v.a[1] for t in fact_terms_of(d)): return False
            return None
        x = s
        lost = False
        while x.op in ('rev', 'slice', 'prefix', 'sorted') or x.op == 'app' and x.a[0] in ('dedup', 'dedupby'):
            if x.op == 'app': lost = True; x = x.a[1]
            else: x = x.a[0]
        if x is src and (lost or s.op in ('rev', 'slice', 'sorted')): return False
        return None
    if len(v.a[1]) != 1 or v.a[1][0][0]:
        if any(not pp for d, pp in v.a[1]) and not any(opaque(t) for d, pp in v.a[1] for t in fact_terms_of(d)): return False
        res = [mkelem(pp[0].a[0], el(src)) if len(pp) == 1 and pp[0].op == 'one' else None for d, pp in v.a[1]]
        # a different value over a whole range of numbers
        if any(x is False and d and not any(opaque(t) for t in fact_terms_of(d)) and all(f[0] == 'z' and f[2][0] != f[2][1] for f in d) for x, (d, pp) in zip(res, v.a[1])): return False
        return True if all(res) else None
    pp = v.a[1][0][1]
    if len(pp) != 1 or pp[0].op != 'one':
        return False if len(pp) > 1 and all(p.op == 'one' for p in pp) else None
    return mkelem(pp[0].a[0], el(src))

def and3(*l):
    if any(x is False for x in l): return False
    return True if all(l) else None

def unw(t, frm, to):
    """value of an integer cast, or the term"""
    if t.op == 'wrap' and t.a[1] == frm and t.a[2] == to: return t.a[0]
    return t

def conv_fields(cx):
    L, PL = adt_fields(cx, 'Label'), None
    db = cx.db
    def one_(path, names):
        for p, a in db.adt.items():
            if p == path and len(a['variants']) == 1: return {f[0]: n for n, f in enumerate(a['variants'][0]['fields'])}
        raise Undecided('no struct ' + path)
    return {'label': one_('common::label::Label', 0), 'plabel': one_('proto::types::Label', 0), 'tp': one_('common::time_point::TimePoint', 0), 'sample': one_('proto::types::Sample', 0),
            'ts': one_('common::time_series::TimeSeries', 0), 'pts': one_('proto::types::TimeSeries', 0)}

def is_plabel(F):
    def f(v, e):
        if v.op != 'adt': return None
        return and3(same(fld(v, F['plabel']['name']), fld(e, F['label']['key'])), same(fld(v, F['plabel']['value']), fld(e, F['label']['value'])))
    return f
def is_label(F):
    def f(v, e):
        if v.op != 'adt': return None
        return and3(same(fld(v, F['label']['key']), fld(e, F['plabel']['name'])), same(fld(v, F['label']['value']), fld(e, F['plabel']['value'])))
    return f
def is_sample(F):
    def f(v, e):
        if v.op != 'adt': return None
        return and3(same(unw(fld(v, F['sample']['timestamp']), 'u64', 'i64'), fld(e, F['tp']['timestamp'])), same(fld(v, F['sample']['value']), fld(e, F['tp']['value'])))
    return f
def is_tp(F):
    def f(v, e):
        if v.op != 'adt': return None
        return and3(same(unw(fld(v, F['tp']['timestamp']), 'i64', 'u64'), fld(e, F['sample']['timestamp'])), same(fld(v, F['tp']['value']), fld(e, F['sample']['value'])))
    return f

@rule('S03')
def conversions(cx):
    F = conv_fields(cx)
    seen = 0
    for i in cx.db.local:
        if i['closure'] or i['path'].split('::')[-1] != 'from' or not i['itrait'] or last_seg(i['itrait']) != 'From' or not i['iself']: continue
        at = i['itrait_args'] if 'itrait_args' in i else None
        ty = cx.db.tys[i['locals'][1]]
        if ty['k'] != 'ref': continue
        src = cx.db.tys[ty['ty'] if 'ty' in ty else ty['to']]
        sp = src.get('path') if src['k'] == 'adt' else src['k']
        dst = i['iself']
        W = i['path']
        pair = (sp, dst)
        if pair == ('common::label::Label', 'proto::types::Label'): chk, nm = is_plabel(F), 'label-out'
        elif pair == ('proto::types::Label', 'common::label::Label'): chk, nm = is_label(F), 'label-in'
        elif pair == ('common::time_point::TimePoint', 'proto::types::Sample'): chk, nm = is_sample(F), 'sample-out'
        elif pair == ('proto::types::Sample', 'common::time_point::TimePoint'): chk, nm = is_tp(F), 'sample-in'
        elif dst == 'proto::types::TimeSeries' and sp == 'common::time_series::TimeSeries':
            nm = 'series-out'
            chk = lambda v, e: and3(all_of(fld(v, F['pts']['labels']), fld(fld(e, F['ts']['meta_data']), 0), is_plabel(F)), all_of(fld(v, F['pts']['samples']), fld(e, F['ts']['time_points']), is_sample(F)))
        elif dst == 'proto::types::TimeSeries' and sp in ('tuple', 'tup'):
            nm = 'pairs-out'
            chk = lambda v, e: and3(all_of(fld(v, F['pts']['labels']), fld(fld(e, 0), 0), is_plabel(F)), all_of(fld(v, F['pts']['samples']), fld(e, 1), is_sample(F)))
        elif dst == 'common::time_series::TimeSeries' and sp == 'proto::types::TimeSeries':
            nm = 'series-in'
            chk = lambda v, e: and3(all_of(fld(fld(v, F['ts']['meta_data']), 0), fld(e, F['pts']['labels']), is_label(F)), all_of(fld(v, F['ts']['time_points']), fld(e, F['pts']['samples']), is_tp(F)))
        else: continue
        r = cx.good(i)
        seen += 1
        for o in r.rets:
            if any(opaque(t) for t in fact_terms_of(o.f.items())): cx.unk('S03', 'conversion:' + nm, W, 'conditional'); continue
            v = o.v
            c = chk(v, r.args[0]) if v.op == 'adt' else None
            if c is False and o.f.b:
                # (a value that is only different under a condition that makes it equal is fine)
                c = False
            cx.chk('S03', 'conversion:' + nm, c, W, 'the converted value is %s' % show(v)[:300])
        for o in r.panics: cx.chk('S03', 'conversion:' + nm, None, W, 'conversion can panic')
    cx.chk('S03', 'conversion:present', seen >= 5 or None, '', 'conversions')

@rule('S03 S04')
def matcher_conversion(cx):
    i = cx.need('Label', 'from_label_matcher')
    r = cx.good(i)
    F = conv_fields(cx)
    M = adt_fields(cx, 'LabelMatcher')
    for o in r.rets:
        v = o.v
        if v.op != 'adt' or v.a[0] != 'common::label::Label': cx.unk('S03 S04', 'conversion:matcher', where(r), show(v)[:100]); continue
        cx.chk('S03 S04', 'conversion:matcher', and3(same(fld(v, F['label']['key']), fld(r.args[0], M['name'])), same(fld(v, F['label']['value']), fld(r.args[0], M['value']))), where(r), 'a matcher becomes %s' % show(v)[:160])
