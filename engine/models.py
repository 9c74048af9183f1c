"""Models of std and extern callees (everything that has no MIR of its own)."""
from terms import *
from domain import *
from names import norm
import interp as _i

MODELS = {}
PREFIX = []

def model(*names):
    def deco(fn):
        for n in names: MODELS[n] = fn
        return fn
    return deco

def lookup(iname, name, f):
    m = MODELS.get(iname) or MODELS.get(name)
    if m: return m
    last_ = name.split('::')[-1]
    return MODELS.get('*::' + last_) if name.split('::')[0] in ANYTYPES else None

ANYTYPES = set()
S = lambda I_, s, a: I_.load(s, a) if a.op == 'mref' else a      # value behind a reference

def ret(s, v): return [('ret', s, v)]

def fork(s, cond):
    """-> list of (bool, state)"""
    t = s.f.truth(cond)
    if t is not None: return [(bool(t), s)]
    out = []
    for v in (1, 0):
        for f in s.f.cases(cond, v):
            s2 = s.copy()
            s2.f = f
            out.append((bool(v), s2))
    return out

def fork_opt(s, v, some_=1):
    """fork on Option value; -> [(is_some, state, payload)]"""
    if v.op == 'adt':
        return [(v.a[2] == 1, s, v.a[4] if v.a[2] == 1 else None)]
    if v.op == 'ite':
        out = []
        for c, x in ((1, v.a[1]), (0, v.a[2])):
            s2 = s.copy()
            if s2.f.assume(v.a[0], c): out += fork_opt(s2, x)
        return out
    out = []
    DISCVALS.setdefault(v, (0, 1))
    for k in (1, 0):
        s2 = s.copy()
        if s2.f.assume_disc(v, k): out.append((k == 1, s2, vf(v, 1, 0) if k == 1 else None))
    return out

def fork_res(s, v):
    """fork on Result: [(is_ok, state, payload)]"""
    if v.op == 'adt':
        return [(v.a[2] == 0, s, v.a[4])]
    if v.op == 'ite':
        out = []
        for c, x in ((1, v.a[1]), (0, v.a[2])):
            s2 = s.copy()
            if s2.f.assume(v.a[0], c): out += fork_res(s2, x)
        return out
    out = []
    DISCVALS.setdefault(v, (0, 1))
    for k in (0, 1):
        s2 = s.copy()
        if s2.f.assume_disc(v, k): out.append((k == 0, s2, vf(v, k, 0)))
    return out

def nonempty(v): return lt(I(0), length(v))

# --------------------------------------------------------------- cut points
def cut_event(I_, s, f, name, args, ctx):
    vals = [S(I_, s, a) for a in args]
    r = I_.event(s, name, vals, ctx.get('site'))
    fx = getattr(I_, 'cut_effects', {}).get(name)
    if fx: fx(I_, s, args, vals, r)
    for i, a in enumerate(args):
        if a.op == 'mref' and name in MUTATING_CUTS:
            I_.store(s, a, mk('app', 'after:' + name, r, I(i)))
    return ret(s, r)
MUTATING_CUTS = set()

# ------------------------------------------------------------------ identity
def ident(I_, s, a, c): return a[0]
def ident_load(I_, s, a, c): return S(I_, s, a[0])
for n in ('Arc::clone', 'Box::new', 'Arc::new', 'Rc::new', 'Cow::into_owned', 'hint::must_use', 'T.From::from', 'T.Into::into', 'String.From::from', 'Vec.From::from',
          'PathBuf.From::from', 'RepeatedField.From::from', 'Box.From::from', 'Arc.From::from', 'Cow.From::from', 'OsString.From::from', 'Box::pin', 'Into::into', 'usize.From::from', 'usize::from', 'u64::from', 'u128::from', 'u32::from', 'i64::from', 'i128::from', 'u64.From::from', 'u128.From::from', 'u32.From::from',
          'From::from',
          'String::into_bytes', 'String::into_boxed_str', 'Vec::into_boxed_slice', 'OsString::into', 'PathBuf::into_os_string',
          'RepeatedField::into_vec', 'RepeatedField::from_vec', 'RepeatedField::from_slice', 'Path::to_path_buf', 'AssertUnwindSafe', 'IVec.From::from', 'iter::once_', 'Path::new', 'PathBuf::new_', 'ManuallyDrop::new', 'Wrapping', 'NonZero::get', 'Reverse', 'identity', 'convert::identity', 'black_box',
          'Vec.IntoIterator', 'Cell::new', 'RefCell::new', 'Value.From::from', 'Key.From::from'):
    MODELS[n] = ident
for n in ('Clone::clone', 'ToOwned::to_owned', 'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'String::as_str', 'String::as_bytes', 'str::as_bytes', 'Vec::as_slice', '[T]::to_vec', 'PathBuf::as_path',
          'RepeatedField::to_vec', 'ToOwned::to_owned', 'str::to_owned', 'str::to_string', 'Path::as_os_str', 'OsStr::to_os_string', '[T]::as_slice', 'array::as_slice', 'Path::as_ref', 'Option.Clone::clone', '[T]::to_owned', 'RepeatedField::as_ref', 'str::as_ref', 'Request::url_', 'Vec::leak', 'str::into_string',
          'Option::as_deref_', 'str::to_vec', '[T; N]::as_slice', 'RepeatedField.Deref::deref', 'Arc::as_ref', 'Box::as_ref', '[T]::into_vec', 'RepeatedField::as_slice', 'Path::as_path', 'clone::clone', 'str::as_str', 'Iterator::copied_', 'Path::to_owned'):
    MODELS[n] = ident_load
def m_into(I_, s, a, c):
    # the From impl of the target type
    ts = c['f'].get('args') or []
    if len(ts) == 2:
        for t, i in I_.db.impls.get(('From', 'from'), ()):
            if I_.db.tys[i['locals'][1]]['s'] == I_.db.tys[ts[0]]['s'] and I_.db.tys[i['locals'][0]]['s'] == I_.db.tys[ts[1]]['s'] and not i.get('promoted'):
                if i['id'] in c.get('stack', ()): break
                return I_.call_inst(s, i, [a[0]], c.get('stack', ()))
        d = I_.db.tys[ts[1]]
        if ts[0] != ts[1] and d['k'] == 'adt' and d['path'] in I_.db.adt and d['path'].split('::')[0] not in ('std', 'core', 'alloc'): return mk('app', 'into', lit(d['path'].encode()), S(I_, s, a[0]))
    return a[0]
MODELS['Into::into'] = MODELS['T.Into::into'] = m_into
MODELS['AsMut::as_mut'] = ident
for n in ('DerefMut::deref_mut', 'Vec::as_mut_slice', 'BorrowMut::borrow_mut', 'RepeatedField.DerefMut::deref_mut', 'Iterator::by_ref_', '[T]::as_mut', 'Vec::as_mut', 'String::as_mut_str', 'Box::as_mut'):
    MODELS[n] = ident

@model('Deref::deref')
def m_deref(I_, s, a, c):
    v = S(I_, s, a[0])
    if v.op == 'guard': return guard_read(s, v)
    return v

@model('DerefMut::deref_mut', 'IndexMut::index_mut_')
def m_deref_mut(I_, s, a, c):
    v = S(I_, s, a[0])
    if v.op == 'guard':
        loc = mk('loc', 'lock', v.a[0])
        if loc not in s.heap: s.heap[loc] = mk('content', v.a[0], v.a[2])
        return mk('mref', loc)
    if v.op == 'mref': return v
    return a[0]

def guard_read(s, g):
    loc = mk('loc', 'lock', g.a[0])
    if g.a[1] == 'w' and loc in s.heap: return s.heap[loc]
    return mk('content', g.a[0], g.a[2])

# --------------------------------------------------------------------- locks
def lock(mode):
    def f(I_, s, a, c):
        l = S(I_, s, a[0])
        n = sum(1 for e in s.ev if e.kind == 'lock' and e.args[0] is l)
        g = mk('guard', l, mode, n)
        s.ev = s.ev + (_i.Ev('lock', mode, (l,), g, c['site'], s.held),)
        s.held = s.held + (g,)
        s.heap.pop(mk('loc', 'lock', l), None)
        return ok(g)
    return f
MODELS['RwLock::read'] = lock('r')
MODELS['RwLock::write'] = lock('w')
MODELS['Mutex::lock'] = lock('w')
def try_lock(mode):
    def f(I_, s, a, c):
        s2 = s.copy()
        r1 = lock(mode)(I_, s, a, c)
        s2.ev = s2.ev + (_i.Ev('trylockfail', mode, (S(I_, s2, a[0]),), None, c['site'], s2.held),)
        return [('ret', s, r1), ('ret', s2, err(mk('sym', 'wouldblock')))]
    return f
MODELS['RwLock::try_read'] = try_lock('r')
MODELS['RwLock::try_write'] = try_lock('w')
MODELS['Mutex::try_lock'] = try_lock('w')
MODELS['RwLock::new'] = lambda I_, s, a, c: mk('app', 'RwLock', a[0])
MODELS['Mutex::new'] = lambda I_, s, a, c: mk('app', 'Mutex', a[0])

@model('mem::drop')
def m_drop(I_, s, a, c):
    I_.drop(s, a[0], c['site'])
    return UNIT

@model('mem::forget')
def m_forget(I_, s, a, c): return UNIT

@model('mem::take')
def m_take(I_, s, a, c):
    v = I_.load(s, a[0])
    I_.store(s, a[0], default_of(I_, c))
    return v

def default_of(I_, c):
    t = I_.db.tys[c['retty']] if c.get('retty') is not None else None
    if t is None: return mk('app', 'default')
    if t['k'] in ('int', 'uint'): return I(0)
    if t['k'] == 'bool': return FALSE
    if t['k'] == 'adt':
        n = t['path'].split('::')[-1]
        if n in ('Vec', 'String', 'RepeatedField', 'PathBuf', 'VecDeque'): return EMPTY
        if n == 'Option': return NONE
        if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'): return MAP0
    return mk('app', 'default', lit(t['s']))

@model('mem::replace')
def m_replace(I_, s, a, c):
    v = I_.load(s, a[0]); I_.store(s, a[0], a[1]); return v

@model('mem::swap')
def m_swap(I_, s, a, c):
    x, y = I_.load(s, a[0]), I_.load(s, a[1])
    I_.store(s, a[0], y); I_.store(s, a[1], x); return UNIT

@model('Option::take')
def m_otake(I_, s, a, c):
    v = I_.load(s, a[0]); I_.store(s, a[0], NONE); return v

@model('Option::replace', 'Option::insert_')
def m_oreplace(I_, s, a, c):
    v = I_.load(s, a[0]); I_.store(s, a[0], some(a[1])); return v

# ------------------------------------------------------------ option, result
def unwrap_(kind):
    def f(I_, s, a, c):
        out = []
        v = S(I_, s, a[0])
        for good, s2, p in (fork_opt if kind == 'o' else fork_res)(s, v):
            if good: out.append(('ret', s2, p))
            else: out.append(('panic', s2, mk('panic', 'unwrap', (c['site'] or ('?',))[0], v)))
        return out
    return f
for n in ('Option::unwrap', 'Option::expect'): MODELS[n] = unwrap_('o')
for n in ('Result::unwrap', 'Result::expect'): MODELS[n] = unwrap_('r')

@model('Option::as_ref', 'Option::as_deref', 'Option::cloned', 'Option::copied', 'Result::as_ref', 'Result::cloned', 'Result::copied', 'Result::as_deref', 'Option::cloned')
def m_asref(I_, s, a, c): return S(I_, s, a[0])

@model('Option::as_mut', 'Option::as_deref_mut', 'Result::as_mut')
def m_asmut(I_, s, a, c):
    v = I_.load(s, a[0])
    out = []
    for good, s2, p in fork_opt(s, v):
        out.append(('ret', s2, some(mk('mref', a[0].a[0], *(a[0].a[1:] + (('vf', 1, 0),)))) if good else NONE))
    return out

def base_ty(I_, t):
    if t is None: return None
    t = I_.db.tys[t] if isinstance(t, int) else t
    while t['k'] in ('ref', 'ptr'): t = I_.db.tys[t['to']]
    return t

def prim_eq(I_, x, y, ty):
    """equality of two values of a known elementary type"""
    k = ty['k'] if ty else None
    if k in ('int', 'uint', 'char'):
        if k != 'int': declare_unsigned(x); declare_unsigned(y)
        return ieq(x, y)
    if k == 'bool': return _i.binop('Eq', x, y, ty)
    if k == 'float': return _i.binop('Eq', x, y, ty)
    if x.op == 'int' or y.op == 'int': return ieq(x, y)
    if k == 'adt' and ty['path'].split('::')[-1] not in ('String', 'Vec', 'PathBuf', 'OsString') or k is None: return mk('eq', *sorted((x, y), key=lambda t: t.id))
    return seq_eq(x, y)

def do_eq(I_, s, x, y, ty=None):
    """-> boolean term, or None when the shapes do not decide it"""
    if x is y: return TRUE
    args = ty.get('args', ()) if ty else ()
    def sub_eq(p, q, n):
        t = base_ty(I_, args[n]) if n is not None and n < len(args) else None
        r = do_eq(I_, s, p, q, t)
        return prim_eq(I_, p, q, t) if r is None else r
    if x.op == 'adt' and y.op == 'adt' and x.a[0] == y.a[0]:
        if x.a[2] != y.a[2]: return FALSE
        r = TRUE
        n = x.a[2] if x.a[0] in (OPT, RES) else None
        for p, q in zip(x.a[4:], y.a[4:]): r = and_(r, sub_eq(p, q, (0 if x.a[0] == OPT else n) if n is not None else None))
        return r
    for p, q in ((x, y), (y, x)):
        if p.op == 'adt' and p.a[0] in (OPT, RES):
            d = mk('disceq', q, p.a[3])
            DISCVALS.setdefault(q, (0, 1))
            if len(p.a) == 4: return d
            return and_(d, sub_eq(p.a[4], vf(q, p.a[2], 0), 0 if p.a[0] == OPT else p.a[2]))
        if p.op == 'adt' and len(p.a) == 4 and q.op != 'adt':
            if p.a[0] == ORD and q.op == 'cmp':
                return {255: lt(*q.a), 0: ieq(*q.a), 1: lt(q.a[1], q.a[0])}[p.a[3]]
            return mk('disceq', q, p.a[3])
    if x.op == 'tup' and y.op == 'tup' and len(x.a) == len(y.a):
        r = TRUE
        for n, (p, q) in enumerate(zip(x.a, y.a)): r = and_(r, sub_eq(p, q, n))
        return r
    return None

def seq_eq(x, y):
    if x is y: return TRUE
    ex, ey = concrete_elems(x), concrete_elems(y)
    if ex is not None and ey is not None and all(is_int(e) for e in ex + ey): return FALSE
    for p, q in ((x, y), (y, x)):
        if p is EMPTY: return not_(nonempty(q))
    # strip common literal prefix
    px, py = parts(x), parts(y)
    if px and py and px[0].op == 'lit' and py[0].op == 'lit':
        a, b = px[0].a[0], py[0].a[0]
        n = min(len(a), len(b))
        if a[:n] != b[:n]: return FALSE
    if x.id > y.id: x, y = y, x
    return mk('eq', x, y)

@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(I_, s, a, c):
    x, y = S(I_, s, a[0]), S(I_, s, a[1])
    neg = c['name'].endswith('::ne')
    f = c['f']
    out = eq_generic(I_, s, x, y, c)
    if neg: out = [(k, s2, not_(v) if k == 'ret' else v) for k, s2, v in out]
    return out

def eq_generic(I_, s, x, y, c):
    ty = arg_base_ty(I_, c, 0)
    k = ty['k'] if ty else None
    r = do_eq(I_, s, x, y, ty)
    if r is None:
        if k in ('int', 'uint', 'char', 'bool'):
            if k != 'int': declare_unsigned(x); declare_unsigned(y)
            r = ieq(x, y) if k != 'bool' else _i.binop('Eq', x, y, {'k': 'bool'})
        elif k == 'float': r = _i.binop('Eq', x, y, {'k': 'float'})
        elif x.op in ('int',) or y.op in ('int',): r = ieq(x, y)
        elif k == 'adt' and ty['path'].split('::')[-1] not in ('String', 'Vec', 'PathBuf', 'OsString') and k == 'adt':
            # user type compared through generic code: use its own eq when there is one
            e = I_.db.trait_impl(ty['path'], 'PartialEq', 'eq')
            if e is not None and e['id'] not in c.get('stack', ()):
                return I_.call_inst(s, e, [x, y], c.get('stack', ()))
            r = mk('eq', *sorted((x, y), key=lambda t: t.id))
        else: r = seq_eq(x, y)
    return ret(s, r)

def arg_base_ty(I_, c, i):
    ats = c.get('argtys')
    if not ats or i >= len(ats): return None
    t = I_.db.tys[ats[i]]
    while t['k'] in ('ref', 'ptr'): t = I_.db.tys[t['to']]
    return t

def cmpfn(op):
    def f(I_, s, a, c):
        x, y = S(I_, s, a[0]), S(I_, s, a[1])
        ty = arg_base_ty(I_, c, 0)
        nm = c.get('name', '')
        if ty and ty['k'] == 'float':
            if op in ('Lt', 'Le', 'Gt', 'Ge'): return _i.binop(op, x, y, ty)
            if op == 'PartialCmp': return mk('app', 'fcmp', x, y)
        if ty and ty['path'] in ('log::Level', 'log::LevelFilter') if ty and ty['k'] == 'adt' else False:
            return TRUE if I_.log else FALSE
        if ty and ty['k'] == 'adt':
            e = I_.db.trait_impl(ty['path'], 'Ord', 'cmp')
            if e is not None and e['id'] not in c.get('stack', ()):
                outs = []
                for k, s2, v in I_.call_inst(s, e, [x, y], c.get('stack', ())):
                    if k == 'ret': v = finish_cmp(op, v)
                    outs.append((k, s2, v))
                return outs
        if ty and ty['k'] in ('uint', 'char'): declare_unsigned(x); declare_unsigned(y)
        v = mk('cmp', x, y) if sub(x, y).op != 'int' else (EQUAL if sub(x, y).a[0] == 0 else LESS if sub(x, y).a[0] < 0 else GREATER)
        return finish_cmp(op, v)
    return f

def finish_cmp(op, v):
    if op == 'Cmp': return v
    if op == 'PartialCmp': return some(v)
    d = {'Lt': (LESS,), 'Gt': (GREATER,), 'Le': (LESS, EQUAL), 'Ge': (GREATER, EQUAL)}[op]
    if v.op == 'adt': return TRUE if v in d else FALSE
    if v.op == 'cmp':
        a, b = v.a
        return {'Lt': lt(a, b), 'Gt': lt(b, a), 'Le': not_(lt(b, a)), 'Ge': not_(lt(a, b))}[op]
    return mk('app', 'ord' + op, v)
for n, o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge'), ('partial_cmp', 'PartialCmp')):
    MODELS['PartialOrd::' + n] = cmpfn(o)
MODELS['Ord::cmp'] = cmpfn('Cmp')

@model('Ordering::reverse')
def m_ordrev(I_, s, a, c):
    v = a[0]
    if v.op == 'cmp': return mk('cmp', v.a[1], v.a[0])
    if v.op == 'adt': return {LESS: GREATER, GREATER: LESS, EQUAL: EQUAL}[v]
    return mk('app', 'ordrev', v)

@model('Ordering::then', 'Ordering::then_with')
def m_then(I_, s, a, c):
    v = a[0]
    out = []
    if v.op == 'adt':
        if v is not EQUAL: return v
        return a[1] if c['name'].endswith('then') else I_.call_value(s, a[1], [], c['stack'], c)
    if v.op == 'cmp':
        for eq_, s2 in fork(s, ieq(*v.a)):
            if not eq_: out.append(('ret', s2, v))
            elif c['name'].endswith('then'): out.append(('ret', s2, a[1]))
            else: out += I_.call_value(s2, a[1], [], c['stack'], c)
        return out
    return mk('app', 'then', *a)

def ord_is(op):
    return lambda I_, s, a, c: finish_cmp(op, a[0]) if op not in ('Eq', 'Ne') else (not_ if op == 'Ne' else (lambda x: x))(ieq(*a[0].a) if a[0].op == 'cmp' else (TRUE if a[0] is EQUAL else FALSE))
for n, o in (('is_lt', 'Lt'), ('is_le', 'Le'), ('is_gt', 'Gt'), ('is_ge', 'Ge'), ('is_eq', 'Eq'), ('is_ne', 'Ne')):
    MODELS['Ordering::' + n] = ord_is(o)

def minmax(op):
    def f(I_, s, a, c):
        out = []
        declare = arg_base_ty(I_, c, 0)
        if declare and declare['k'] == 'uint': declare_unsigned(a[0]); declare_unsigned(a[1])
        if declare and declare['k'] not in ('int', 'uint'): return mk('app', op, *a)
        for t, s2 in fork(s, lt(a[0], a[1])):
            out.append(('ret', s2, (a[0] if t else a[1]) if op == 'min' else (a[1] if t else a[0])))
        return out
    return f
for n in ('min', 'max'):
    MODELS['Ord::' + n] = minmax(n); MODELS['cmp::' + n] = minmax(n)

@model('Ord::clamp')
def m_clamp(I_, s, a, c):
    ty = arg_base_ty(I_, c, 0)
    x, lo, hi = [S(I_, s, y) for y in a]
    may_panic(I_, s, not_(lt(hi, lo)), 'clamp', c)
    if not ty or ty['k'] not in ('int', 'uint'): return mk('app', 'clamp', x, lo, hi)
    if ty['k'] == 'uint':
        for y in (x, lo, hi): declare_unsigned(y)
    out = []
    for t, s2 in fork(s, lt(x, lo)):
        if t: out.append(('ret', s2, lo)); continue
        for t2, s3 in fork(s2, lt(hi, x)): out.append(('ret', s3, hi if t2 else x))
    return out

# -------------------------------------------------------------- fmt, logging
MODELS['log::max_level'] = lambda I_, s, a, c: mk('sym', 'maxlevel')
MODELS['log::__private_api_log'] = lambda I_, s, a, c: UNIT
MODELS['log::__private_api_enabled'] = lambda I_, s, a, c: FALSE
for n in ('io::_print', 'io::_eprint', 'stdio::_print', 'stdio::_eprint'): MODELS[n] = lambda I_, s, a, c: UNIT

def disp(kind):
    def f(I_, s, a, c):
        ty = arg_base_ty(I_, c, 0)
        v = S(I_, s, a[0])
        return mk('fmtarg', display(v, ty, kind))
    return f

def display(v, ty, kind='display'):
    k = ty['k'] if ty else None
    if kind == 'display':
        if k == 'str' or (k == 'adt' and ty['path'].split('::')[-1] in ('String', 'Cow')): return v
        if k in ('int', 'uint'):
            return lit(str(v.a[0])) if is_int(v) else mk('dec', v)
        if k == 'char': return mk('cat', one(v))
        if k == 'adt' and ty['path'].endswith('path::Display'): return v
        return mk('app', 'display', v)
    return mk('app', kind, v)
MODELS['Argument::new_display'] = disp('display')
MODELS['Argument::new_lower_hex'] = disp('hex')
MODELS['Argument::new_upper_hex'] = disp('HEX')
MODELS['Argument::new_debug'] = disp('debug')
MODELS['Argument::new_binary'] = disp('binary')
MODELS['Argument::new_octal'] = disp('octal')

@model('Arguments::new')
def m_fmtnew(I_, s, a, c):
    tpl, args = S(I_, s, a[0]), S(I_, s, a[1])
    es = concrete_elems(tpl)
    ar = concrete_elems(args)
    if es is None or ar is None or any(not is_int(e) for e in es): return mk('app', 'fmt', tpl, args)
    b = [e.a[0] for e in es]
    out, i, ai = [], 0, 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(lit(bytes(b[i:i+n]))); i += n
        elif n == 0x80:
            l = b[i] | b[i+1] << 8; i += 2
            out.append(lit(bytes(b[i:i+l]))); i += l
        else:
            opt = []
            if n & 1: opt.append(('flags', bytes(b[i:i+4]))); i += 4
            if n & 2: opt.append(('width', b[i] | b[i+1] << 8)); i += 2
            if n & 4: opt.append(('prec', b[i] | b[i+1] << 8)); i += 2
            if n & 8: ai = b[i] | b[i+1] << 8; i += 2
            x = ar[ai] if ai < len(ar) else mk('bottom')
            ai += 1
            x = x.a[0] if x.op == 'fmtarg' else x
            if opt: x = mk('app', 'pad', lit(repr(opt)), x)
            out.append(x)
    return mk('fmtargs', cat(*out))

@model('Arguments::from_str', 'Arguments::new_const')
def m_fmtstr(I_, s, a, c): return mk('fmtargs', S(I_, s, a[0]))

@model('fmt::format', 'alloc::format', 'fmt::format_inner')
def m_format(I_, s, a, c):
    return a[0].a[0] if a[0].op == 'fmtargs' else mk('app', 'format', a[0])

@model('ToString::to_string')
def m_tostring(I_, s, a, c):
    ty = arg_base_ty(I_, c, 0)
    return display(S(I_, s, a[0]), ty)

@model('Path::display', 'Path::to_string_lossy', 'String::from_utf8_lossy', 'OsStr::to_string_lossy')
def m_pdisp(I_, s, a, c):
    v = S(I_, s, a[0])
    return mk('app', 'lossy', v) if 'lossy' in c['name'] and 'utf8' in c['name'] else v

# panics
def m_panic(I_, s, a, c):
    return [('panic', s, mk('panic', c['name'], (c['site'] or ('?',))[0]))]
for n in ('panicking::panic', 'panicking::panic_fmt', 'panicking::unimplemented_default_msg', 'panicking::unreachable_default_msg', 'panicking::todo_default_msg', 'panicking::panic_display', 'panicking::assert_failed', 'panicking::panic_explicit', 'panicking::unreachable_display',
          'panicking::begin_panic', 'rt::panic_fmt', 'rt::begin_panic', 'panicking::panic_str', 'option::unwrap_failed', 'result::unwrap_failed', 'option::expect_failed', 'panicking::panic_nounwind', 'panicking::panic_bounds_check'): MODELS[n] = m_panic
def m_exit(I_, s, a, c):
    I_.event(s, 'exit', a, c['site'])
    return [('diverge', s, mk('exit', a[0]))]
MODELS['process::exit'] = m_exit
MODELS['process::abort'] = m_exit

# ------------------------------------------------------------- vec, str, slice
for n in ('Vec::new', 'String::new', 'PathBuf::new', 'RepeatedField::new', 'Vec.Default::default', 'String.Default::default', 'VecDeque::new'):
    MODELS[n] = lambda I_, s, a, c: EMPTY
@model('Default::default')
def m_default(I_, s, a, c): return default_of(I_, c)
for n in ('Vec::shrink_to_fit', 'String::shrink_to_fit'): MODELS[n] = lambda I_, s, a, c: UNIT
@model('Vec::reserve', 'String::reserve', 'Vec::reserve_exact')
def m_reserve(I_, s, a, c):
    capacity(I_, s, a[1], c)
    return UNIT
@model('Vec::with_capacity', 'String::with_capacity', 'VecDeque::with_capacity')
def m_withcap(I_, s, a, c):
    capacity(I_, s, a[0], c)
    return EMPTY
MODELS['Vec::capacity'] = lambda I_, s, a, c: mk('app', 'capacity', S(I_, s, a[0]))

def upd(I_, s, r, fn):
    v = I_.load(s, r); I_.store(s, r, fn(v)); return v

@model('Vec::push', 'String::push', 'VecDeque::push_back', 'RepeatedField::push')
def m_push(I_, s, a, c):
    upd(I_, s, a[0], lambda v: cat(v, mk('cat', one(a[1])) if not (is_int(a[1]) and c['name'] == 'String::push') else lit(chr(a[1].a[0]))))
    return UNIT
@model('String::push_str', 'Vec::extend_from_slice', 'String.Extend::extend_', 'PathBuf::_')
def m_pushstr(I_, s, a, c):
    x = S(I_, s, a[1]); upd(I_, s, a[0], lambda v: cat(v, x)); return UNIT
@model('fmt::Write::write_str', 'Write::write_str')
def m_wstr(I_, s, a, c):
    x = S(I_, s, a[1]); upd(I_, s, a[0], lambda v: cat(v, x)); return ok(UNIT)
@model('Vec::append')
def m_append(I_, s, a, c):
    if a[1].op != 'mref':
        x = a[1]
    else:
        x = I_.load(s, a[1]); I_.store(s, a[1], EMPTY)
    upd(I_, s, a[0], lambda v: cat(v, x)); return UNIT
@model('Add::add', 'AddAssign::add_assign')
def m_add(I_, s, a, c):
    ty = arg_base_ty(I_, c, 0)
    y = S(I_, s, a[1])
    x = S(I_, s, a[0])
    r = add(x, y) if ty and ty['k'] in ('int', 'uint') else (mk('app', 'add', x, y) if ty and ty['k'] == 'float' else cat(x, y) if ty and ty['k'] == 'adt' and ty['path'].endswith('String') else mk('app', 'add', x, y))
    if 'assign' in c['name']:
        I_.store(s, a[0], r); return UNIT
    return r
@model('Mul::mul', 'Sub::sub')
def m_mul(I_, s, a, c):
    ty = arg_base_ty(I_, c, 0)
    if ty and ty['k'] in ('int', 'uint'):
        return mul(S(I_, s, a[0]), S(I_, s, a[1])) if 'mul' in c['name'] else sub(S(I_, s, a[0]), S(I_, s, a[1]))
    return mk('app', c['name'], *[S(I_, s, x) for x in a])
@model('String::insert_str', 'String::insert')
def m_insstr(I_, s, a, c):
    x = S(I_, s, a[2])
    if c['name'].endswith('insert'): x = lit(chr(x.a[0])) if is_int(x) else mk('cat', one(x))
    v0 = I_.load(s, a[0])
    may_panic(I_, s, not_(lt(length(v0), a[1])), 'insert index', c); at_boundary(I_, s, v0, a[1], c)
    upd(I_, s, a[0], lambda v: cat(slice_(v, I(0), a[1]), x, slice_(v, a[1], END))); return UNIT
@model('Vec::insert')
def m_vinsert(I_, s, a, c):
    upd(I_, s, a[0], lambda v: cat(slice_(v, I(0), a[1]), mk('cat', one(a[2])), slice_(v, a[1], END)))
    may_panic(I_, s, not_(lt(length(I_.load(s, a[0])), a[1])), 'insert index', c); return UNIT
@model('String::remove', 'Vec::remove')
def m_remove(I_, s, a, c):
    v = I_.load(s, a[0])
    may_panic(I_, s, lt(a[1], length(v)), 'remove index', c)
    at_boundary(I_, s, v, a[1], c)
    I_.store(s, a[0], cat(slice_(v, I(0), a[1]), slice_(v, add(a[1], I(1)), END)))
    return index(v, a[1])
@model('Vec::swap_remove')
def m_swaprm(I_, s, a, c):
    v = I_.load(s, a[0])
    may_panic(I_, s, lt(a[1], length(v)), 'remove index', c)
    I_.store(s, a[0], mk('app', 'swap_removed', v, a[1])); return index(v, a[1])
@model('String::replace_range')
def m_replrange(I_, s, a, c):
    lo, hi = rng(I_, s, a[1]); x = S(I_, s, a[2])
    upd(I_, s, a[0], lambda v: cat(slice_(v, I(0), lo), x, slice_(v, hi, END) if hi is not END else EMPTY)); return UNIT
@model('Vec::drain', 'String::drain')
def m_drain(I_, s, a, c):
    lo, hi = rng(I_, s, a[1])
    v = I_.load(s, a[0])
    if hi is not END: may_panic(I_, s, not_(lt(length(v), hi)), 'slice end', c)
    may_panic(I_, s, not_(lt(hi if hi is not END else length(v), lo)), 'slice start', c)
    for x in (lo, hi): at_boundary(I_, s, v, x, c)
    I_.store(s, a[0], cat(slice_(v, I(0), lo), EMPTY if hi is END else slice_(v, hi, END)))
    return mk('it', 'src', slice_(v, lo, hi))
@model('Vec::truncate', 'String::truncate')
def m_trunc(I_, s, a, c):
    v = I_.load(s, a[0])
    out = []
    for lt_, s2 in fork(s, lt(a[1], length(v))):
        if lt_: at_boundary(I_, s2, v, a[1], c)
        if lt_: I_.store(s2, a[0], slice_(v, I(0), a[1]))
        out.append(('ret', s2, UNIT))
    return out
@model('Vec::split_off', 'String::split_off')
def m_splitoff(I_, s, a, c):
    v = I_.load(s, a[0])
    may_panic(I_, s, not_(lt(length(v), a[1])), 'split_off', c); at_boundary(I_, s, v, a[1], c)
    I_.store(s, a[0], slice_(v, I(0), a[1])); return slice_(v, a[1], END)
@model('Vec::clear', 'String::clear', 'HashMap::clear_', 'VecDeque::clear', 'RepeatedField::clear')
def m_clear(I_, s, a, c): I_.store(s, a[0], EMPTY); return UNIT
@model('Vec::resize')
def m_resize(I_, s, a, c):
    v = I_.load(s, a[0])
    I_.store(s, a[0], cat(v, mk('rep', a[2], sub(a[1], length(v)))) if v is not EMPTY else _i.repeat(a[2], a[1])); return UNIT
@model('Vec::len', '[T]::len', 'str::len', 'String::len', 'RepeatedField::len', 'array::len', 'VecDeque::len', 'ExactSizeIterator::len')
def m_len(I_, s, a, c):
    v = S(I_, s, a[0])
    if v.op == 'it': v = v.a[1] if v.a[0] == 'src' else v
    return length(v)
@model('HashMap::len', 'HashSet::len', 'BTreeMap::len')
def m_mlen(I_, s, a, c): return mk('len', mk('entries', S(I_, s, a[0])))
@model('Vec::is_empty', '[T]::is_empty', 'str::is_empty', 'String::is_empty', 'RepeatedField::is_empty', 'VecDeque::is_empty')
def m_isempty(I_, s, a, c): return not_(nonempty(S(I_, s, a[0])))
@model('HashMap::is_empty', 'BTreeMap::is_empty', 'HashSet::is_empty')
def m_mempty(I_, s, a, c): return not_(nonempty(mk('entries', S(I_, s, a[0]))))

def join_pop(v):
    """cat(.., comp(src, [.. lit c])) with last byte removed, for non-empty src"""
    ps = parts(v)
    p = ps[-1] if ps else None
    if p is not None and p.op == 'comp' and len(p.a[1]) == 1 and not p.a[1][0][0]:
        eps = p.a[1][0][1]
        if eps and eps[-1].op == 'lit':
            b = eps[-1].a[0]
            elem = cat(*[mk('cat', x) if x.op in ('lit', 'one') else x for x in eps[:-1]] + ([lit(b[:-1])] if len(b) > 1 else []))
            return cat(*(list(ps[:-1]) + [mk('join', p.a[0], elem, lit(b[-1:]))])), b[-1]
    return None

@model('Vec::pop', 'String::pop')
def m_pop(I_, s, a, c):
    v = I_.load(s, a[0])
    if c['name'] == 'String::pop':
        j = join_pop(v)
        if j is not None and len(parts(v)) == 1:
            I_.store(s, a[0], j[0]); return mk('app', 'popped', v)
    ps = parts(v)
    if ps and ps[-1].op == 'one':
        I_.store(s, a[0], cat(*[mk('cat', p) if p.op in ('lit', 'one') else p for p in ps[:-1]])); return some(ps[-1].a[0])
    if ps and ps[-1].op == 'lit':
        b = ps[-1].a[0]
        I_.store(s, a[0], cat(*([mk('cat', p) if p.op in ('lit', 'one') else p for p in ps[:-1]] + [lit(b[:-1])]))); return some(I(b[-1]))
    out = []
    for ne, s2 in fork(s, nonempty(v)):
        if ne:
            I_.store(s2, a[0], slice_(v, I(0), sub(length(v), I(1)))); out.append(('ret', s2, some(last(v))))
        else: out.append(('ret', s2, NONE))
    return out

def optidx(get):
    def f(I_, s, a, c):
        v = S(I_, s, a[0])
        out = []
        for ne, s2 in fork(s, nonempty(v)):
            out.append(('ret', s2, some(get(v)) if ne else NONE))
        return out
    return f
MODELS['[T]::first'] = optidx(first)
MODELS['[T]::last'] = optidx(last)
@model('[T]::split_first', '[T]::split_last')
def m_splitfirst(I_, s, a, c):
    v = S(I_, s, a[0]); out = []
    for ne, s2 in fork(s, nonempty(v)):
        if not ne: out.append(('ret', s2, NONE))
        elif c['name'].endswith('first'): out.append(('ret', s2, some(mk('tup', first(v), slice_(v, I(1), END)))))
        else: out.append(('ret', s2, some(mk('tup', last(v), slice_(v, I(0), sub(length(v), I(1)))))))
    return out
def mutidx(proj):
    def f(I_, s, a, c):
        v = I_.load(s, a[0]); out = []
        for ne, s2 in fork(s, nonempty(v)):
            out.append(('ret', s2, some(mk('mref', a[0].a[0], *(a[0].a[1:] + (proj,)))) if ne else NONE))
        return out
    return f
MODELS['[T]::last_mut'] = mutidx(('last',))
MODELS['[T]::first_mut'] = mutidx(('i', I(0)))

def rng(I_, s, r):
    """range value -> (lo, hi)"""
    r = S(I_, s, r)
    if r.op == 'adt':
        n = r.a[0].split('::')[-1]
        fs = r.a[4:]
        if n == 'Range': return fs[0], fs[1]
        if n == 'RangeFrom': return fs[0], END
        if n == 'RangeTo': return I(0), fs[0]
        if n == 'RangeFull': return I(0), END
        if n == 'RangeInclusive': return fs[0], add(fs[1], I(1))
        if n == 'RangeToInclusive': return I(0), add(fs[0], I(1))
    if r.op == 'it' and r.a[0] == 'src' and r.a[1].op == 'range': return r.a[1].a[0], r.a[1].a[1]
    if r is UNIT: return I(0), END
    return None

NONNEG_ = declare_unsigned
def may_panic(I_, s, cond, what, c):
    if cond is TRUE: return
    f = s.f
    for x in subterms(cond):
        # a match lies within the text searched
        if x.op == 'vf' and x.a[1] == 1 and x.a[0].op == 'app' and x.a[0].a[0] in ('find', 'rfind'):
            v, p = x.a[0].a[1:3]
            if f is s.f: f = f.copy()
            NONNEG_(x)
            f.assume(not_(lt(length(v), add(x, length(p) if p.op == 'cat' else I(1)))), 1)
    t = f.truth(cond)
    if t == 1: return
    I_.note(s, 'assert', what, (cond,), c.get('site'), s.f.copy())
def is_str(I_, c, n=0):
    ty = arg_base_ty(I_, c, n)
    return bool(ty) and (ty['k'] == 'str' or ty['k'] == 'adt' and ty['path'].split('::')[-1] == 'String')
def char_boundary(v, i):
    if i is END or i is I(0) or i is length(v): return TRUE
    c_, m = lin_of(i)
    if len(m) == 1:
        (x, k), = m.items()
        if k == 1 and x.op == 'vf' and x.a[1] == 1 and x.a[0].op == 'app' and x.a[0].a[0] in ('find', 'rfind') and x.a[0].a[1] is v:
            p = x.a[0].a[2]
            if c_ == 0 or length(p) is I(c_): return TRUE
    return mk('app', 'char_boundary', v, i)
def at_boundary(I_, s, v, i, c):
    """byte offset into a text"""
    if is_str(I_, c): may_panic(I_, s, char_boundary(v, i), 'char boundary', c)
CAPACITY = I(1 << 32)
def capacity(I_, s, n, c): may_panic(I_, s, lt(n, CAPACITY), 'capacity', c)
@model('str::is_char_boundary')
def m_ischb(I_, s, a, c): return char_boundary(S(I_, s, a[0]), a[1])

@model('Index::index', 'IndexMut::index_mut')
def m_index(I_, s, a, c):
    mutb = c['name'].endswith('index_mut')
    v = S(I_, s, a[0])
    if v.op in ('mset', 'map0') : return map_get(v, a[1])
    r = rng(I_, s, a[1]) if a[1].op == 'adt' or (a[1].op == 'it') else None
    if r is None:
        may_panic(I_, s, lt(a[1], length(v)), 'index', c)
        if mutb: return mk('mref', a[0].a[0], *(a[0].a[1:] + (('i', a[1]),)))
        return index(v, a[1])
    lo, hi = r
    if hi is not END: may_panic(I_, s, not_(lt(length(v), hi)), 'slice end', c)
    may_panic(I_, s, not_(lt(hi if hi is not END else length(v), lo)), 'slice start', c)
    for x in (lo, hi): at_boundary(I_, s, v, x, c)
    if mutb: return mk('mref', a[0].a[0], *(a[0].a[1:] + (('sl', lo, hi),)))
    return slice_(v, lo, hi)

@model('[T]::get', 'str::get')
def m_get(I_, s, a, c):
    v = S(I_, s, a[0])
    out = []
    r = rng(I_, s, a[1]) if a[1].op in ('adt', 'it') else None
    if r is None:
        declare_unsigned(a[1])
        for t, s2 in fork(s, lt(a[1], length(v))): out.append(('ret', s2, some(index(v, a[1])) if t else NONE))
        return out
    lo, hi = r
    h = length(v) if hi is END else hi
    cond = and_(not_(lt(h, lo)), not_(lt(length(v), h)))
    for t, s2 in fork(s, cond): out.append(('ret', s2, some(slice_(v, lo, hi)) if t else NONE))
    return out
@model('[T]::get_mut')
def m_getmut(I_, s, a, c):
    v = I_.load(s, a[0]); out = []
    for t, s2 in fork(s, lt(a[1], length(v))):
        out.append(('ret', s2, some(mk('mref', a[0].a[0], *(a[0].a[1:] + (('i', a[1]),)))) if t else NONE))
    return out
@model('[T]::get_unchecked')
def m_getu(I_, s, a, c): return index(S(I_, s, a[0]), a[1])

@model('[T]::split_at', 'str::split_at')
def m_splitat(I_, s, a, c):
    v = S(I_, s, a[0])
    may_panic(I_, s, not_(lt(length(v), a[1])), 'split_at', c)
    at_boundary(I_, s, v, a[1], c)
    return mk('tup', slice_(v, I(0), a[1]), slice_(v, a[1], END))
@model('[T]::copy_from_slice', '[T]::clone_from_slice')
def m_copyfs(I_, s, a, c): I_.store(s, a[0], S(I_, s, a[1])); return UNIT
@model('[T]::fill')
def m_fill(I_, s, a, c):
    v = I_.load(s, a[0]); I_.store(s, a[0], _i.repeat(a[1], length(v))); return UNIT
@model('[T]::concat')
def m_concat(I_, s, a, c):
    v = S(I_, s, a[0])
    es = concrete_elems(v)
    if es is not None: return cat(*es)
    if v.op == 'comp' and all(len(p) == 1 and p[0].op == 'one' for _, p in v.a[1]):
        return mk('comp', v.a[0], tuple((d, tuple(parts(p[0].a[0]))) for d, p in v.a[1]))
    return mk('comp', v, ((frozenset(), (el(v),)),))
@model('[T]::join')
def m_join(I_, s, a, c):
    v, sep = S(I_, s, a[0]), S(I_, s, a[1])
    es = concrete_elems(v)
    if es is not None:
        out = []
        for i, e in enumerate(es):
            if i: out.append(sep)
            out.append(e)
        return cat(*out)
    return mk_join(v, sep)
def mk_join(v, sep):
    if v.op == 'comp' and len(v.a[1]) == 1 and not v.a[1][0][0] and len(v.a[1][0][1]) == 1:
        return mk('join', v.a[0], v.a[1][0][1][0].a[0], sep)
    return mk('join', v, el(v), sep)
@model('[T]::sort', '[T]::sort_unstable')
def m_sort(I_, s, a, c):
    ty = arg_base_ty(I_, c, 0)
    v = I_.load(s, a[0])
    es = concrete_elems(v)
    if es is not None and len(es) <= 1: return UNIT
    key = lit('natural')
    x, y = mk('sym', 'sa'), mk('sym', 'sb')
    ety = elem_ty(I_, c)
    d = 1
    if ety and ety['k'] == 'adt':
        e = I_.db.trait_impl(ety['path'], 'Ord', 'cmp')
        if e is not None:
            r = order_key(I_.call_inst(s.copy(), e, [x, y], c.get('stack', ())), x, y)
            if r: key, d = r
    elif ety and ety['k'] in ('uint', 'int'): key = x
    v = mk('sorted', v, key)
    I_.store(s, a[0], v if d > 0 else rev(v)); return UNIT
def elem_ty(I_, c):
    """element type of the slice or vector argument 0"""
    t = arg_base_ty(I_, c, 0)
    for _ in range(3):
        if not t: return None
        if t['k'] in ('slice', 'array'):
            return I_.db.tys[t['to']]
        if t['k'] == 'adt' and t.get('args'):
            x = t['args'][0]
            return I_.db.tys[x] if isinstance(x, int) else None
        return None
def order_key(outs, x, y):
    """comparison outcomes over (x, y) -> (key term over x, +1 ascending / -1 descending) or None"""
    cands = [x] + [fld(x, i) for i in range(4)]
    for o in outs:
        if o[0] != 'ret': return None
        v = o[2]
        if v.op == 'adt' and v.a[0] == OPT and v.a[2] == 1: v = v.a[4]
        if v.op == 'cmp' and len(outs) == 1:
            a, b = v.a
            if subst(a, {x: y}) is b and not contains(b, x): return a, 1
            if subst(b, {x: y}) is a and not contains(a, x): return b, -1
    for k in cands:
        ky = subst(k, {x: y})
        for d in (1, -1):
            good = bool(outs)
            for kk, s2, v in outs:
                if v.op == 'adt' and v.a[0] == OPT and v.a[2] == 1: v = v.a[4]
                p, q = (k, ky) if d > 0 else (ky, k)
                if v is LESS: c = lt(p, q)
                elif v is GREATER: c = lt(q, p)
                elif v is EQUAL: c = ieq(p, q)
                elif v.op == 'cmp' and v.a == (p, q): continue
                else: good = False; break
                if s2.f.truth(c) != 1: good = False; break
            if good: return k, d
    return None
@model('[T]::sort_by_key', '[T]::sort_unstable_by_key', '[T]::sort_by', '[T]::sort_unstable_by', '[T]::sort_by_cached_key')
def m_sortby(I_, s, a, c):
    v = I_.load(s, a[0])
    es = concrete_elems(v)
    if es is not None and len(es) <= 1: return UNIT
    x, y = mk('sym', 'sa'), mk('sym', 'sb')
    by = 'key' in c['name']
    key, d = None, 1
    outs = I_.call_value(s.copy(), a[1], [x] if by else [x, y], c['stack'], c)
    if by:
        if len(outs) == 1 and outs[0][0] == 'ret':
            key = outs[0][2]
            if key.op == 'adt' and key.a[0].split('::')[-1] == 'Reverse': key, d = key.a[4], -1
    else:
        r = order_key(outs, x, y)
        if r: key, d = r
    if key is None: key = mk('app', 'bykey', a[1])
    v = mk('sorted', v, key)
    I_.store(s, a[0], v if d > 0 else rev(v)); return UNIT
@model('[T]::reverse')
def m_reverse(I_, s, a, c): upd(I_, s, a[0], rev); return UNIT
@model('Vec::dedup_by_key', 'Vec::dedup_by')
def m_dedupby(I_, s, a, c): upd(I_, s, a[0], lambda v: mk('app', 'dedupby', v, a[1])); return UNIT
@model('Vec::dedup')
def m_dedup(I_, s, a, c): upd(I_, s, a[0], lambda v: mk('app', 'dedup', v)); return UNIT
@model('Vec::retain')
def m_retain(I_, s, a, c):
    v = I_.load(s, a[0])
    def step(I2, s2, e, accs):
        out = []
        for k, s3, r in I2.call_value(s2, a[1], [e], c['stack'], c):
            if k != 'ret': out.append((k, s3, r)); continue
            for t, s4 in fork(s3, r):
                if t: I2.store(s4, accs[0], cat(I2.load(s4, accs[0]), mk('cat', one(e))))
                out.append(('cont', s4, None))
        return out
    out = []
    for k, s2, vals, left, b in I_.consume(s, mk('it', 'src', v), step, (EMPTY,), c['site'], c['stack']):
        if k == 'done': I_.store(s2, a[0], vals[0]); out.append(('ret', s2, UNIT))
        else: out.append((k, s2, vals))
    return out
@model('Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains')
def m_rcontains(I_, s, a, c):
    r, x = rng(I_, s, a[0]), S(I_, s, a[1])
    if r is None: return None
    out = []
    lo, hi = r
    for t, s2 in fork(s, lt(x, lo)):
        if t: out.append(('ret', s2, FALSE)); continue
        if hi is END: out.append(('ret', s2, TRUE)); continue
        for t2, s3 in fork(s2, lt(x, hi)): out.append(('ret', s3, TRUE if t2 else FALSE))
    return out
@model('[T]::contains', 'str::contains', 'String::contains')
def m_contains(I_, s, a, c):
    v, x = S(I_, s, a[0]), S(I_, s, a[1])
    es = concrete_elems(v)
    if es is not None and c['name'].startswith('[T]'):
        out = []
        cur = s
        for i, e in enumerate(es):
            r = eq_generic(I_, cur, e, x, dict(c, argtys=c['argtys'][1:] if c.get('argtys') else None))
            if len(r) != 1: return mk('app', 'contains', v, x)
            fk = fork(cur, r[0][2])
            nxt = None
            for t, s2 in fk:
                if t: out.append(('ret', s2, TRUE))
                else: nxt = s2
            if nxt is None: return out
            cur = nxt
        out.append(('ret', cur, FALSE))
        return out
    return mk('app', 'contains', v, x)
@model('[T]::binary_search', '[T]::binary_search_by_key', '[T]::binary_search_by', '[T]::partition_point')
def m_bsearch(I_, s, a, c):
    r = bsearch(I_, s, a, c)
    # a position within the slice (for a partition point and for a missing element: or its end)
    n = length(S(I_, s, a[0]))
    if r.a[0] == 'ppoint':
        s.f.assume_rel(r, I(0), 0, float('inf')); s.f.assume_rel(n, r, 0, float('inf'))
    return r
def bsearch(I_, s, a, c):
    v = S(I_, s, a[0])
    n = c['name'].split('::')[-1]
    e = mk('sym', 'probe')
    if n == 'binary_search':
        x = S(I_, s, a[1])
        # comparison the search performs, on a generic probe
        outs = cmpfn('Cmp')(I_, s.copy(), [e, x], c)
        cv = outs if isinstance(outs, T) else (outs[0][2] if len(outs) == 1 else None)
        if cv is None: cv = mk('app', 'cmp?', e, x)
        return mk('app', 'bsearch', v, cv)
    if n == 'binary_search_by_key':
        outs = I_.call_value(s.copy(), a[2], [e], c['stack'], c)
        if len(outs) == 1 and outs[0][0] == 'ret': return mk('app', 'bsearch', v, mk('cmp', outs[0][2], S(I_, s, a[1])))
        return mk('app', 'bsearch', v, mk('app', 'cmp?', a[1]))
    outs = I_.call_value(s.copy(), a[1], [e], c['stack'], c)
    if len(outs) == 1 and outs[0][0] == 'ret':
        return mk('app', 'bsearch' if n != 'partition_point' else 'ppoint', v, outs[0][2])
    # boolean predicate returned through branches
    if n == 'partition_point' and all(k == 'ret' and is_int(r) for k, _, r in outs):
        tr = [sorted(delta(s2.f, s.f), key=repr) for k, s2, r in outs if r is TRUE]
        return mk('app', 'ppoint', v, mk('pathpred', tuple(map(tuple, tr))))
    return mk('app', 'bsearch?', v, a[1])

# operators applied through references
@model('bool.BitOr::bitor', 'bool.BitAnd::bitand', 'bool.BitXor::bitxor')
def m_boolop(I_, s, a, c):
    x, y = S(I_, s, a[0]), S(I_, s, a[1])
    n = c['name'].rsplit('::', 1)[-1]
    return or_(x, y) if n == 'bitor' else and_(x, y) if n == 'bitand' else __import__('interp').binop('BitXor', x, y, {'k': 'bool'})

# strings
@model('str::find', 'str::rfind')
def m_find(I_, s, a, c):
    n = c['name'].split('::')[-1]
    p = S(I_, s, a[1])
    if is_int(p): p = lit(chr(p.a[0]))
    return mk('app', n, S(I_, s, a[0]), p)
def chlit(p): return lit(chr(p.a[0])) if is_int(p) else p
@model('str::split', 'str::splitn', 'str::rsplit', 'str::split_terminator', 'str::rsplitn')
def m_split(I_, s, a, c):
    n = c['name'].split('::')[-1]
    sep = chlit(S(I_, s, a[-1]))
    if n in ('splitn', 'rsplitn'): return mk('it', 'src', mk('app', n, S(I_, s, a[0]), a[1], sep))
    return mk('it', 'src', split_norm(S(I_, s, a[0]), sep) if n == 'split' else mk('app', n, S(I_, s, a[0]), sep))
def split_norm(v, sep):
    return mk('app', 'split', v, sep)
@model('str::split_once', 'str::rsplit_once')
def m_splitonce(I_, s, a, c):
    v, sep = S(I_, s, a[0]), chlit(S(I_, s, a[1]))
    fnd = mk('app', 'find' if 'rsplit' not in c['name'] else 'rfind', v, sep)
    out = []
    for good, s2, i in fork_opt(s, fnd):
        out.append(('ret', s2, some(mk('tup', slice_(v, I(0), i), slice_(v, add(i, length(sep)), END))) if good else NONE))
    return out
@model('str::strip_prefix', '[T]::strip_prefix')
def m_strip(I_, s, a, c):
    v, p = S(I_, s, a[0]), chlit(S(I_, s, a[1]))
    out = []
    for t, s2 in fork(s, mk('app', 'starts_with', v, p)): out.append(('ret', s2, some(slice_(v, length(p), END)) if t else NONE))
    return out
@model('str::starts_with', 'str::ends_with', '[T]::starts_with', '[T]::ends_with')
def m_sw(I_, s, a, c): return mk('app', c['name'].split('::')[-1], S(I_, s, a[0]), chlit(S(I_, s, a[1])))
@model('str::chars', 'str::bytes', 'str::char_indices_')
def m_chars(I_, s, a, c): return mk('it', 'src', S(I_, s, a[0]))
@model('String::from_utf8', 'str::from_utf8')
def m_fromutf8(I_, s, a, c):
    v = S(I_, s, a[0])
    return ok(v) if all(p.op in ('lit',) for p in parts(v)) else mk('app', 'from_utf8', v)
@model('OsString::into_string', 'OsStr::to_str', 'Path::to_str')
def m_osstr(I_, s, a, c):
    n = 'into_string' if 'into' in c['name'] else 'to_str'
    return mk('app', n, S(I_, s, a[0]))
@model('str::parse', 'FromStr::from_str')
def m_parse(I_, s, a, c):
    t = I_.db.tys[c['retty']] if c.get('retty') is not None else None
    to = None
    if t and t['k'] == 'adt' and t['args']: to = I_.db.tys[t['args'][0]]
    v = S(I_, s, a[0])
    if to and to['s'] in ('std::path::PathBuf', 'std::string::String'): return ok(v)
    if to and v.op == 'dec' and to['k'] == 'uint': return ok(v.a[0])
    return mk('app', 'parse', v, lit(to['s'] if to else '?'))
@model('String::into_string')
def m_is(I_, s, a, c): return a[0]

def intfn(ty, w, sg):
    def to_be(I_, s, a, c):
        x = a[0]
        if sg: x = _i.num_cast(x, {'k': 'int', 'w': w}, {'k': 'uint', 'w': w})
        if is_int(x): return lit((x.a[0] & ((1 << w) - 1)).to_bytes(w // 8, 'big'))
        if w == 8: return seq(x)
        return mk('be', w // 8, x)
    def from_be(I_, s, a, c):
        v = S(I_, s, a[0])
        r = None
        if v.op == 'be' and v.a[0] == w // 8: r = v.a[1]
        else:
            es = concrete_elems(v)
            if es is not None and all(is_int(e) for e in es) and len(es) == w // 8: r = I(int.from_bytes(bytes(e.a[0] for e in es), 'big'))
        if r is None and w == 8: r = index(v, I(0))
        if r is None: r = mk('app', 'from_be%d' % (w // 8), v)
        if sg: r = _i.num_cast(r, {'k': 'uint', 'w': w}, {'k': 'int', 'w': w})
        return r
    MODELS[ty + '::to_be_bytes'] = to_be
    MODELS[ty + '::from_be_bytes'] = from_be
    def to_le(I_, s, a, c):
        x = a[0]
        if sg: x = _i.num_cast(x, {'k': 'int', 'w': w}, {'k': 'uint', 'w': w})
        if is_int(x): return lit((x.a[0] & ((1 << w) - 1)).to_bytes(w // 8, 'little'))
        if w == 8: return seq(x)
        return mk('le', w // 8, x)
    MODELS[ty + '::to_le_bytes'] = to_le
    MODELS[ty + '::to_ne_bytes'] = to_le
    def swapb(I_, s, a, c):
        x = a[0]
        if is_int(x): return I(int.from_bytes((x.a[0] & ((1 << w) - 1)).to_bytes(w // 8, 'big'), 'little', signed=bool(sg)))
        if x.op == 'app' and x.a[0] == 'swap%d' % w: return x.a[1]
        r = mk('app', 'swap%d' % w, x)
        if not sg: NONNEG.add(r)
        return r
    for n in ('swap_bytes', 'to_be', 'from_be'): MODELS[ty + '::' + n] = swapb
    for n in ('to_le', 'from_le'): MODELS[ty + '::' + n] = lambda I_, s, a, c: a[0]
    def from_le(I_, s, a, c):
        v = S(I_, s, a[0])
        r = None
        if v.op == 'le' and v.a[0] == w // 8: r = v.a[1]
        else:
            es = concrete_elems(v)
            if es is not None and all(is_int(e) for e in es) and len(es) == w // 8: r = I(int.from_bytes(bytes(e.a[0] for e in es), 'little'))
        if r is None and w == 8: r = index(v, I(0))
        if r is None: r = mk('app', 'from_le%d' % (w // 8), v)
        if sg: r = _i.num_cast(r, {'k': 'uint', 'w': w}, {'k': 'int', 'w': w})
        return r
    MODELS[ty + '::from_le_bytes'] = from_le
    MODELS[ty + '::max_value'] = lambda I_, s, a, c: I((1 << (w - sg)) - 1)
    MODELS[ty + '::min_value'] = lambda I_, s, a, c: I(-(1 << (w - 1)) if sg else 0)
    for n in ('leading_zeros', 'trailing_zeros', 'count_ones', 'leading_ones'):
        MODELS['%s::%s' % (ty, n)] = (lambda n: lambda I_, s, a, c: bitcount(n, w, a[0]))(n)
    def chk(op):
        def f(I_, s, a, c):
            x, y = S(I_, s, a[0]), S(I_, s, a[1])
            t = {'k': 'int' if sg else 'uint', 'w': w}
            out = []
            if op == 'Sub' and not sg:
                declare_unsigned(x); declare_unsigned(y)
                cond = not_(lt(x, y))
            elif op in ('Shl', 'Shr'): cond = lt(y, I(w))
            elif op in ('Div', 'Rem'): cond = not_(ieq(y, I(0)))
            else:
                r = _i.binop(op, x, y, t)
                if is_int(r): return some(r)
                cond = not_(mk('app', 'overflows', mk('app', op + str(w), x, y)))
            for tt, s2 in fork(s, cond): out.append(('ret', s2, some(_i.binop(op, x, y, t)) if tt else NONE))
            return out
        return f
    for n, o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem'), ('shl', 'Shl'), ('shr', 'Shr')):
        MODELS['%s::checked_%s' % (ty, n)] = chk(o)
        MODELS['%s::wrapping_%s' % (ty, n)] = (lambda o: lambda I_, s, a, c: _i.binop(o, S(I_, s, a[0]), S(I_, s, a[1]), {'k': 'int' if sg else 'uint', 'w': w}))(o)
        MODELS['%s::overflowing_%s' % (ty, n)] = (lambda o: lambda I_, s, a, c: mk('tup', _i.binop(o, a[0], a[1], {'k': 'int' if sg else 'uint', 'w': w}), mk('app', 'ovf', *a)))(o)
    def satsub(I_, s, a, c):
        out = []
        declare_unsigned(a[0]); declare_unsigned(a[1])
        if sg: return mk('app', 'satsub', *a)
        for t, s2 in fork(s, lt(a[0], a[1])): out.append(('ret', s2, I(0) if t else sub(a[0], a[1])))
        return out
    MODELS[ty + '::saturating_sub'] = satsub
    MODELS[ty + '::saturating_add'] = lambda I_, s, a, c: add(a[0], a[1])
    MODELS[ty + '::pow'] = lambda I_, s, a, c: I(a[0].a[0] ** a[1].a[0]) if is_int(a[0]) and is_int(a[1]) else mk('app', 'pow', *a)
    def absf(I_, s, a, c):
        out = []
        for t, s2 in fork(s, lt(a[0], I(0))): out.append(('ret', s2, mulc(a[0], -1) if t else a[0]))
        return out
    MODELS[ty + '::abs'] = absf
    MODELS[ty + '::from_str_radix'] = lambda I_, s, a, c: mk('app', 'parse_radix:' + ty, S(I_, s, a[0]), a[1])
    MODELS[ty + '::is_positive'] = lambda I_, s, a, c: lt(I(0), a[0])
    MODELS[ty + '::is_negative'] = lambda I_, s, a, c: lt(a[0], I(0))
for w in (8, 16, 32, 64, 128):
    intfn('u%d' % w, w, 0); intfn('i%d' % w, w, 1)
intfn('usize', 64, 0); intfn('isize', 64, 1)

def bitcount(n, w, x):
    if is_int(x):
        b = format(x.a[0] & ((1 << w) - 1), '0%db' % w)
        return I({'leading_zeros': lambda: len(b) - len(b.lstrip('0')), 'trailing_zeros': lambda: len(b) - len(b.rstrip('0')), 'count_ones': lambda: b.count('1'), 'leading_ones': lambda: len(b) - len(b.lstrip('1'))}[n]())
    r = mk('app', '%s%d' % (n, w), x)
    NONNEG.add(r)
    return r

for n, e in (('to_be_bytes', 'be'), ('to_le_bytes', 'le')):
    MODELS['f64::' + n] = (lambda e: lambda I_, s, a, c: mk(e, 8, mk('app', 'fbits', a[0])))(e)
def f_from(e):
    def f(I_, s, a, c):
        v = S(I_, s, a[0])
        if v.op == e and v.a[0] == 8: return unfbits(v.a[1])
        return mk('app', 'f_from_' + e, v)
    return f
def unfbits(x): return x.a[1] if x.op == 'app' and x.a[0] == 'fbits' else mk('app', 'ffrombits', x)
MODELS['f64::from_be_bytes'] = f_from('be')
MODELS['f64::from_le_bytes'] = f_from('le')
MODELS['f32::from_be_bytes'] = lambda I_, s, a, c: mk('app', 'f32_from_be', S(I_, s, a[0]))
MODELS['f32::from_le_bytes'] = lambda I_, s, a, c: mk('app', 'f32_from_le', S(I_, s, a[0]))
MODELS['f32::from_bits'] = lambda I_, s, a, c: mk('app', 'f32frombits', a[0])
MODELS['f32::to_bits'] = lambda I_, s, a, c: mk('app', 'fbits32', a[0])
for n, e in (('to_be_bytes', 'be'), ('to_le_bytes', 'le')):
    MODELS['f32::' + n] = (lambda e: lambda I_, s, a, c: mk(e, 4, mk('app', 'fbits32', a[0])))(e)
def m_durnew(I_, s, a, c): return mk('app', 'Duration::from_secs', a[0]) if a[1] is I(0) else mk('app', 'Duration::new', a[0], a[1])
MODELS['Duration::new'] = m_durnew
MODELS['Vec::as_ptr'] = MODELS['[T]::as_ptr'] = MODELS['str::as_ptr'] = lambda I_, s, a, c: mk('app', 'as_ptr', S(I_, s, a[0]))
MODELS['f64::to_bits'] = lambda I_, s, a, c: mk('app', 'fbits', a[0])
MODELS['f64::from_bits'] = lambda I_, s, a, c: unfbits(a[0])
MODELS['f64::abs'] = lambda I_, s, a, c: mk('app', 'fabs', a[0])
for n_ in ('is_finite', 'is_infinite', 'is_normal', 'is_sign_negative', 'is_sign_positive', 'is_subnormal'):
    MODELS['f64::' + n_] = (lambda n_: lambda I_, s, a, c: mk('app', n_, a[0]))(n_)
MODELS['f64::is_nan'] = lambda I_, s, a, c: mk('app', 'isnan', a[0])

@model('mem::size_of')
def m_sizeof(I_, s, a, c):
    t = c['f']['args']
    t = I_.db.tys[t[0]] if t else None
    n = sizeof(I_, t)
    return I(n) if n is not None else mk('app', 'sizeof', lit(t['s'] if t else '?'))
def sizeof(I_, t):
    if t is None: return None
    if t['k'] in ('int', 'uint', 'float'): return t['w'] // 8
    if t['k'] == 'bool': return 1
    if t['k'] == 'char': return 4
    if t['k'] == 'array':
        n = sizeof(I_, I_.db.tys[t['to']]); return None if n is None else n * int(t['n'])
    return None
@model('mem::size_of_val')
def m_sizeofval(I_, s, a, c):
    n = sizeof(I_, arg_base_ty(I_, c, 0))
    return I(n) if n is not None else mk('app', 'sizeofval', S(I_, s, a[0]))

@model('TryInto::try_into', 'TryFrom::try_from')
def m_tryinto(I_, s, a, c):
    t = I_.db.tys[c['retty']] if c.get('retty') is not None else None
    v = S(I_, s, a[0])
    to = I_.db.tys[t['args'][0]] if t and t['k'] == 'adt' and t['args'] else None
    base = to
    while base and base['k'] == 'ref': base = I_.db.tys[base['to']]
    if base and base['k'] == 'array':
        n = I(int(base['n']))
        l = length(v)
        out = []
        for t_, s2 in fork(s, ieq(l, n)):
            out.append(('ret', s2, ok(v) if t_ else err(mk('sym', 'TryFromSliceError'))))
        return out
    src = arg_base_ty(I_, c, 0)
    if base and src and base['k'] in ('int', 'uint') and src['k'] in ('int', 'uint'):
        out = []
        sk, sw, tk, tw = src['k'], src['w'], base['k'], base['w']
        conds = TRUE
        if sk == 'int' and tk == 'uint': conds = not_(lt(v, I(0)))
        hi = (1 << (tw - (tk == 'int'))) - 1
        shi = (1 << (sw - (sk == 'int'))) - 1
        if sk == 'uint': declare_unsigned(v)
        if shi > hi: conds = and_(conds, not_(lt(I(hi), v)))
        if sk == 'int' and tk == 'int' and tw < sw: conds = and_(conds, not_(lt(v, I(-hi - 1))))
        for t_, s2 in fork(s, conds): out.append(('ret', s2, ok(v) if t_ else err(mk('sym', 'TryFromIntError'))))
        return out
    return mk('app', 'try_into', v, lit(to['s'] if to else '?'))

# vec! macro plumbing
@model('Box::new_uninit')
def m_newuninit(I_, s, a, c): return I_.new_loc(s, UNINIT, 'box')
@model('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init', '[T]::into_vec')
def m_assume(I_, s, a, c):
    v = S(I_, s, a[0])
    while v.op in ('upd', 'vupd'): v = v.a[-1]
    return v
@model('vec::from_elem')
def m_fromelem(I_, s, a, c):
    capacity(I_, s, a[1], c)
    return _i.repeat(a[0], a[1])

# --------------------------------------------------------------------- maps
MAP0 = mk('map0')
def map_get(m, k):
    if m.op == 'mset':
        if m.a[1] is k: return m.a[2]
    if k.op == 'fld' and k.a[1] == 0 and k.a[0].op == 'el' and k.a[0].a[0] is mk('entries', m): return fld(k.a[0], 1)
    return mk('mget', m, k)
def map_set(m, k, v):
    if m.op == 'mset' and m.a[1] is k: return mk('mset', m.a[0], k, v)
    return mk('mset', m, k, v)
def haskey(m, k):
    if m is MAP0: return FALSE
    if m.op == 'mset' and m.a[1] is k: return TRUE
    if k.op == 'fld' and k.a[1] == 0 and k.a[0].op == 'el' and k.a[0].a[0] is mk('entries', m): return TRUE
    if m.op == 'mset' and m.a[0] is MAP0: return mk('eq', *sorted((m.a[1], k), key=lambda t: t.id))
    return mk('haskey', m, k)
MT = ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet')
def mm(*names):
    def deco(fn):
        for t in MT:
            for n in names: MODELS['%s::%s' % (t, n)] = fn
        return fn
    return deco
@mm('new', 'with_capacity', 'default')
def m_mapnew(I_, s, a, c):
    if 'with_capacity' in c['name'] and a: capacity(I_, s, a[0], c)
    return MAP0
@mm('insert')
def m_mapins(I_, s, a, c):
    m = I_.load(s, a[0])
    v = a[2] if len(a) > 2 else UNIT
    I_.store(s, a[0], map_set(m, a[1], v))
    if len(a) == 2: return not_(haskey(m, a[1]))
    h = haskey(m, a[1])
    return ite(h, some(map_get(m, a[1])), NONE) if not is_int(h) else (some(map_get(m, a[1])) if h is TRUE else NONE)
@mm('get', 'get_key_value')
def m_mapget(I_, s, a, c):
    m, k = S(I_, s, a[0]), S(I_, s, a[1])
    out = []
    for t, s2 in fork(s, haskey(m, k)):
        v = map_get(m, k)
        out.append(('ret', s2, some(mk('tup', k, v) if 'key_value' in c['name'] else v) if t else NONE))
    return out
@mm('contains_key', 'contains')
def m_maphas(I_, s, a, c): return haskey(S(I_, s, a[0]), S(I_, s, a[1]))
@mm('get_mut')
def m_mapgetmut(I_, s, a, c):
    m, k = I_.load(s, a[0]), S(I_, s, a[1])
    out = []
    for t, s2 in fork(s, haskey(m, k)):
        out.append(('ret', s2, some(mk('mref', a[0].a[0], *(a[0].a[1:] + (('mk', k),)))) if t else NONE))
    return out
@mm('remove', 'remove_entry')
def m_maprem(I_, s, a, c):
    m, k = I_.load(s, a[0]), S(I_, s, a[1])
    I_.store(s, a[0], mk('mdel', m, k))
    h = haskey(m, k)
    v = map_get(m, k)
    if 'entry' in c['name']: v = mk('tup', k, v)
    return ite(h, some(v), NONE) if not is_int(h) else (some(v) if h is TRUE else NONE)
@mm('entry')
def m_mapentry(I_, s, a, c): return mk('app', 'entry', a[0], a[1])
def m_orins(kind):
    def f(I_, s, a, c):
        e = a[0]
        if e.op != 'app' or e.a[0] != 'entry': return None
        r, k = e.a[1], e.a[2]
        m = I_.load(s, r)
        out = []
        tgt = mk('mref', r.a[0], *(r.a[1:] + (('mk', k),)))
        for t, s2 in fork(s, haskey(m, k)):
            if t: out.append(('ret', s2, tgt)); continue
            if kind == 'v': vs = [('ret', s2, a[1])]
            elif kind == 'd': vs = [('ret', s2, entry_default(I_, c))]
            else: vs = I_.call_value(s2, a[1], [], c['stack'], c)
            for kk, s3, v in vs:
                if kk == 'ret':
                    I_.store(s3, r, map_set(I_.load(s3, r), k, v)); out.append(('ret', s3, tgt))
                else: out.append((kk, s3, v))
        return out
    return f
def entry_default(I_, c):
    t = I_.db.tys[c['retty']] if c.get('retty') is not None else None
    if t and t['k'] == 'ref': return default_of(I_, {'retty': t['to']})
    return default_of(I_, c) if t else EMPTY
for n in ('Entry', 'hash_map::Entry', 'map::Entry'):
    pass
MODELS['Entry::or_insert'] = m_orins('v'); MODELS['Entry::or_insert_with'] = m_orins('f'); MODELS['Entry::or_default'] = m_orins('d')
@model('Entry::and_modify')
def m_andmod(I_, s, a, c):
    e = a[0]
    if e.op != 'app' or e.a[0] != 'entry': return None
    r, k = e.a[1], e.a[2]
    out = []
    for t, s2 in fork(s, haskey(I_.load(s, r), k)):
        if not t: out.append(('ret', s2, e)); continue
        for kk, s3, v in I_.call_value(s2, a[1], [mk('mref', r.a[0], *(r.a[1:] + (('mk', k),)))], c['stack'], c):
            out.append((kk, s3, e if kk == 'ret' else v))
    return out
def pyfn(db_name, fn): PY[db_name] = fn; return mk('pyfn', db_name)
PY = {}
FST = pyfn('fst', lambda I_, s, a: [('ret', s, fld(a[0], 0))])
SND = pyfn('snd', lambda I_, s, a: [('ret', s, fld(a[0], 1))])
IDF = pyfn('id', lambda I_, s, a: [('ret', s, a[0])])
@mm('keys', 'into_keys')
def m_keys(I_, s, a, c): return mk('it', 'map', mk('it', 'src', mk('entries', S(I_, s, a[0]))), FST)
@mm('values', 'into_values')
def m_values(I_, s, a, c): return mk('it', 'map', mk('it', 'src', mk('entries', S(I_, s, a[0]))), SND)
@mm('iter', 'into_iter', 'drain')
def m_miter(I_, s, a, c):
    it = mk('it', 'src', mk('entries', S(I_, s, a[0])))
    return mk('it', 'map', it, FST) if 'Set' in c['iname'] else it

# ----------------------------------------------------------------- iterators
def to_it(I_, s, v):
    if v.op == 'mref':
        x = I_.load(s, v)
        if x.op == 'it' or (x.op == 'adt' and x.a[0].split('::')[-1] in ('Range', 'RangeInclusive')):
            return mk('it', 'ref', v)
        if x.op == 'adt' and I_.db.trait_impl(x.a[0], 'Iterator', 'next') is not None: return mk('it', 'ref', v)
        v = x
    if v.op == 'it': return v
    if v.op == 'adt':
        n = v.a[0].split('::')[-1]
        if n == 'Range': return mk('it', 'src', mk_range(v.a[4], v.a[5]))
        if n == 'RangeFrom': return mk('it', 'src', mk('range', v.a[4], mk('sym', 'inf')))
        if v.a[0] == OPT: return mk('it', 'src', seq(v.a[4]) if v.a[2] == 1 else EMPTY)
        i = I_.db.trait_impl(v.a[0], 'Iterator', 'next')
        if i is not None: return mk('it', 'local', v, i['id'])
    if v.op in ('map0', 'mset', 'mget'): return mk('it', 'src', mk('entries', v))
    if v.op in ('sym', 'fld', 'vf', 'hdr', 'upd'): return mk('it', 'src', v)
    return mk('it', 'src', v)
def mk_range(a, b):
    if is_int(a) and is_int(b) and b.a[0] <= a.a[0]: return EMPTY
    return mk('range', a, b)

@model('IntoIterator::into_iter')
def m_intoiter(I_, s, a, c):
    iname = c['iname']
    v = S(I_, s, a[0]) if a[0].op == 'mref' else a[0]
    ty = arg_base_ty(I_, c, 0)
    if ty and ty['k'] == 'adt' and ty['path'].split('::')[-1] in MT: return mk('it', 'src', mk('entries', v))
    if a[0].op == 'mref':
        t0 = I_.db.tys[c['argtys'][0]] if c.get('argtys') else None
        base = ty
        if base and base['k'] in ('slice', 'array') or (base and base['k'] == 'adt' and base['path'].split('::')[-1] in ('Vec', 'RepeatedField')):
            return mk('it', 'mutsrc', a[0]) if False else mk('it', 'src', v)
        return to_it(I_, s, a[0])
    return to_it(I_, s, v)
@model('[T]::iter', 'RepeatedField::iter', 'Vec::iter', 'Option::iter', 'VecDeque::iter', 'RepeatedField::into_iter')
def m_iter(I_, s, a, c): return to_it(I_, s, S(I_, s, a[0]))
@model('[T]::iter_mut')
def m_itermut(I_, s, a, c): return mk('it', 'src', S(I_, s, a[0]))
MODELS['RangeInclusive::new'] = lambda I_, s, a, c: mk('it', 'src', mk_range(a[0], add(a[1], I(1))))
MODELS['Range.Iterator::_'] = ident
@model('[T]::chunks', '[T]::windows', '[T]::chunks_exact', '[T]::rchunks', '[T]::split', 'str::char_indices', 'str::lines', 'str::split_whitespace')
def m_chunks(I_, s, a, c):
    n = c['name'].split('::')[-1]
    return mk('it', 'src', norm_app(n, *[S(I_, s, x) for x in a]))

def plain(it): return it.a[1] if it.a[0] == 'src' else None

def revit(it):
    k = it.a[0]
    if k == 'src': return mk('it', 'src', rev(it.a[1]))
    if k in ('map', 'filter', 'filter_map'): return mk('it', k, revit(it.a[1]), it.a[2])
    if k == 'chain': return mk('it', 'chain', revit(it.a[2]), revit(it.a[1]))
    return mk('it', 'src', mk('rev', mk('items', it)))

def adaptor(kind):
    def f(I_, s, a, c):
        it = to_it(I_, s, a[0])
        p = plain(it)
        if kind in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'flat_map', 'inspect', 'map_while'): return mk('it', kind, it, a[1])
        if kind in ('cloned', 'copied', 'fuse', 'into_iter', 'by_ref', 'peekable'): return it if kind != 'by_ref' else to_it(I_, s, a[0])
        if kind == 'rev': return revit(it)
        if kind == 'enumerate':
            if p is not None and concrete_elems(p) is None: return mk('it', 'src', mk('enum', p) if not (p.op == 'rev') else mk('enum', p))
            return mk('it', 'enum', it, I(0))
        if kind == 'skip':
            if p is not None: return mk('it', 'src', slice_(p, a[1], END))
            if a[1] is I(0): return it
            return mk('it', 'skip', it, a[1])
        if kind == 'take':
            if p is not None and (concrete_elems(p) is None or not is_int(a[1])):
                if p.op == 'slice' and p.a[2] is END and a[1] is sub(length(p.a[0]), p.a[1]): return it
                return mk('it', 'src', slice_(p, I(0), a[1]))
            if it.a[0] in ('map', 'inspect') and plain(it.a[1]) is not None and (not is_int(a[1]) or concrete_elems(plain(it.a[1])) is None):
                return mk('it', it.a[0], f(I_, s, [it.a[1], a[1]], c), it.a[2])
            return mk('it', 'take', it, a[1])
        if kind == 'step_by':
            return mk('it', 'src', mk('app', 'step_by', p if p is not None else it, a[1]))
        if kind in ('zip', 'chain'):
            o = to_it(I_, s, a[1])
            q = plain(o)
            if kind == 'chain':
                if p is not None and q is not None: return mk('it', 'src', cat(p, q))
                return mk('it', 'chain', it, o)
            if p is not None and q is not None and (concrete_elems(p) is None or concrete_elems(q) is None): return mk('it', 'src', mk('zip', p, q))
            return mk('it', 'zip', it, o)
        if kind == 'flatten': return mk('it', 'flat_map', it, IDF)
    return f
for n in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'flat_map', 'inspect', 'map_while', 'cloned', 'copied', 'fuse', 'by_ref', 'rev', 'enumerate', 'skip', 'take', 'step_by', 'zip', 'chain', 'flatten', 'peekable'):
    MODELS['Iterator::' + n] = adaptor(n)
MODELS['DoubleEndedIterator::rev'] = adaptor('rev')
MODELS['iter::once'] = lambda I_, s, a, c: mk('it', 'src', seq(a[0]))
MODELS['iter::empty'] = lambda I_, s, a, c: mk('it', 'src', EMPTY)
MODELS['iter::repeat'] = lambda I_, s, a, c: mk('it', 'src', mk('rep', a[0], mk('sym', 'inf')))

def leafgen(it):
    if it.op != 'it': return None
    if it.a[0] == 'gen': return it.a[1]
    for x in it.a:
        if isinstance(x, T) and x.op == 'it':
            r = leafgen(x)
            if r is not None: return r
    return None

def leafsrc(it):
    if it.op != 'it': return None
    if it.a[0] == 'gen': return it.a[2]
    for x in it.a:
        if isinstance(x, T) and x.op == 'it':
            r = leafsrc(x)
            if r is not None: return r
    return None

def next_val(I_, s, it, stack):
    """-> [(kind, st, elem, newit)] kind: none|some|skip|panic.."""
    k = it.a[0]
    if k == 'src':
        v = it.a[1]
        if v.op == 'range':
            a, b = v.a
            out = []
            for t, s2 in fork(s, lt(a, b)):
                out.append(('some', s2, a, mk('it', 'src', mk_range(add(a, I(1)), b))) if t else ('none', s2, None, it))
            return out
        if v.op == 'rev' and v.a[0].op == 'range' and is_int(v.a[0].a[0]) and is_int(v.a[0].a[1]):
            a, b = v.a[0].a
            if a.a[0] >= b.a[0]: return [('none', s, None, it)]
            return [('some', s, sub(b, I(1)), mk('it', 'src', rev(mk_range(a, sub(b, I(1))))))]
        if v.op in ('enum', 'zip'):
            out = []
            for t, s2 in fork(s, nonempty(v.a[0])):
                if t: out.append(('some', s2, mk('tup', I(0) if v.op == 'enum' else first(v.a[0]), first(v.a[0]) if v.op == 'enum' else first(v.a[1])), mk('it', 'src', mk('app', 'tail', v))))
                else: out.append(('none', s2, None, it))
            return out
        if v is EMPTY: return [('none', s, None, it)]
        ps = parts(v)
        p = ps[0]
        w = lambda q: mk('cat', q) if q.op in ('lit', 'one') else q
        rest = [w(q) for q in ps[1:]]
        if p.op == 'one': return [('some', s, p.a[0], mk('it', 'src', cat(*rest)))]
        if p.op == 'lit': return [('some', s, I(p.a[0][0]), mk('it', 'src', cat(*([lit(p.a[0][1:])] + rest))))]
        out = []
        for t, s2 in fork(s, nonempty(p)):
            if t: out.append(('some', s2, first(p), mk('it', 'src', cat(*([slice_(p, I(1), END)] + rest)))))
            elif rest: out += next_val(I_, s2, mk('it', 'src', cat(*rest)), stack)
            else: out.append(('none', s2, None, it))
        return out
    if k == 'gen':
        L, src = it.a[1], it.a[2]
        out = []
        sn = s.copy()
        sn.flags = sn.flags | {('exh', L, src)}
        out.append(('none', sn, None, it))
        fl = ('gen', L, src)
        n = 0
        if fl in s.flags:
            e = mk('el2', src)
            out.append(('some', s.copy(), e, it))
            return out
        for kk, s2, e in gen_elems(I_, s, src, L):
            s2.flags = s2.flags | {fl}
            out.append((kk, s2, e if kk == 'some' else L, it))
        return out
    if k == 'local':
        cell = I_.new_loc(s, it.a[1], 'iter')
        inst = I_.db.insts[it.a[2]]
        out = []
        for kk, s2, v in I_.call_inst(s, inst, [cell], stack):
            if kk != 'ret': out.append((kk, s2, v, it)); continue
            nv = I_.load(s2, cell)
            for good, s3, p in fork_opt(s2, v):
                out.append(('some' if good else 'none', s3, p, mk('it', 'local', nv, it.a[2])))
        return out
    if k == 'ref':
        out = []
        for kk, s2, e in next_it(I_, s, it.a[1], stack):
            out.append((kk, s2, e, it))
        return out
    if k in ('map', 'inspect'):
        out = []
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            nit = mk('it', k, ni, it.a[2])
            if kk != 'some': out.append((kk, s2, e, nit)); continue
            for k3, s3, v in I_.call_value(s2, it.a[2], [e], stack):
                out.append(('some', s3, v if k == 'map' else e, nit) if k3 == 'ret' else (k3, s3, v, nit))
        return out
    if k == 'skip_while':
        # once an element fails the test, the later ones are not tested any more
        out = []
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            nit = mk('it', k, ni, it.a[2])
            if kk != 'some': out.append((kk, s2, e, nit)); continue
            for k3, s3, v in I_.call_value(s2, it.a[2], [e], stack):
                if k3 != 'ret': out.append((k3, s3, v, nit)); continue
                for t, s4 in fork(s3, v):
                    if not t: out.append(('some', s4, e, nit)); continue
                    for t2, s5 in fork(s4, mk('app', 'skipping', e)):
                        L = leafgen(ni)
                        if not t2: out.append(('some', s5, e, nit))
                        elif L is not None: out.append(('skip', s5, L, nit))
                        elif has_opaque(ni): out.append(('skip', s5, None, nit))
                        else: out += next_val(I_, s5, nit, stack)
        return out
    if k in ('filter', 'filter_map', 'take_while', 'map_while'):
        out = []
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            nit = mk('it', k, ni, it.a[2])
            if kk != 'some': out.append((kk, s2, e, nit)); continue
            for k3, s3, v in I_.call_value(s2, it.a[2], [e], stack):
                if k3 != 'ret': out.append((k3, s3, v, nit)); continue
                if k in ('filter', 'take_while'): br = [(t, s4, e) for t, s4 in fork(s3, v)]
                else: br = fork_opt(s3, v)
                for t, s4, p in br:
                    if t: out.append(('some', s4, p, nit))
                    elif k in ('take_while', 'map_while'): out.append(('none', s4, None, mk('it', 'src', EMPTY)))
                    else:
                        L = leafgen(ni)
                        if L is not None: out.append(('skip', s4, L, nit))
                        elif has_opaque(ni): out.append(('skip', s4, None, nit))
                        else: out += next_val(I_, s4, nit, stack)
        return out
    if k == 'enum':
        out = []
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            if kk != 'some': out.append((kk, s2, e, mk('it', 'enum', ni, it.a[2]))); continue
            L = leafgen(ni)
            ix = it.a[2] if L is None else mk('idx', mk('items', it.a[1]) if it.a[1].a[0] != 'gen' else it.a[1].a[2])
            out.append(('some', s2, mk('tup', ix, e), mk('it', 'enum', ni, add(it.a[2], I(1)) if L is None else it.a[2])))
        return out
    if k == 'chain':
        out = []
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            if kk == 'none':
                for k3, s3, e3, n3 in next_val(I_, s2, it.a[2], stack): out.append((k3, s3, e3, mk('it', 'chain', mk('it', 'src', EMPTY), n3)))
            else: out.append((kk, s2, e, mk('it', 'chain', ni, it.a[2])))
        return out
    if k == 'zip':
        out = []
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            if kk != 'some': out.append((kk, s2, e, mk('it', 'zip', ni, it.a[2]))); continue
            for k3, s3, e3, n3 in next_val(I_, s2, it.a[2], stack):
                out.append((k3, s3, mk('tup', e, e3) if k3 == 'some' else e3, mk('it', 'zip', ni, n3)))
        return out
    if k == 'take':
        n = it.a[2]
        if n is I(0): return [('none', s, None, it)]
        out = []
        L = leafgen(it)
        if L is not None and n is not length(leafsrc(it)): out.append(('none', s.copy(), None, it))     # the limit may be reached before the end
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            out.append((kk, s2, e, mk('it', 'take', ni, sub(n, I(1)) if L is None else n)))
        return out
    if k == 'skip':
        n = it.a[2]
        if is_int(n) and leafgen(it) is None:
            cur = [(s, it.a[1])]
            out = []
            for _ in range(n.a[0]):
                nxt = []
                for s1, i1 in cur:
                    for kk, s2, e, ni in next_val(I_, s1, i1, stack):
                        if kk == 'some': nxt.append((s2, ni))
                        else: out.append((kk, s2, e, ni))
                cur = nxt
            for s1, i1 in cur: out += next_val(I_, s1, i1, stack)
            return out
        L = leafgen(it)
        out = []
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            nit = mk('it', 'skip', ni, n)
            if kk == 'some' and L is not None: out.append(('skip', s2.copy(), L, nit))
            out.append((kk, s2, e, nit))
        return out
    if k == 'flat_map':
        out = []
        for kk, s2, e, ni in next_val(I_, s, it.a[1], stack):
            nit = mk('it', k, ni, it.a[2])
            if kk != 'some': out.append((kk, s2, e, nit)); continue
            for k3, s3, v in I_.call_value(s2, it.a[2], [e], stack):
                if k3 != 'ret': out.append((k3, s3, v, nit)); continue
                inner = to_it(I_, s3, v)
                p = plain(inner)
                if p is not None and concrete_elems(p) is None:
                    out.append(('some', s3, el(p), nit))
                    L = leafgen(ni)
                    if L is not None: out.append(('skip', s3.copy(), L, nit))
                elif p is not None:
                    es = concrete_elems(p)
                    if len(es) > 1: raise _i.Budget('flat_map')
                    if es: out.append(('some', s3, es[0], nit)); continue
                    L = leafgen(ni)
                    if L is not None: out.append(('skip', s3, L, nit))
                    elif has_opaque(ni): out.append(('skip', s3, None, nit))
                    else: out += next_val(I_, s3, nit, stack)
                else: raise _i.Budget('flat_map')
        return out
    raise _i.Budget('iterator ' + str(k))

def has_opaque(it):
    if it.a[0] == 'src': return concrete_elems(it.a[1]) is None and it.a[1].op != 'range'
    return any(has_opaque(x) for x in it.a if isinstance(x, T) and x.op == 'it')

def gen_elems(I_, s, src, L):
    """generic element(s) of src"""
    if src.op == 'range':
        e = el(src); s2 = s.copy()
        NONNEG.add(e)
        good = s2.f.assume(lt(e, src.a[1]), 1) and s2.f.assume(lt(e, src.a[0]), 0)
        return [('some', s2, e)] if good else []
    if src.op == 'rev': return gen_elems(I_, s, src.a[0], L)
    if src.op == 'enum':
        s2 = s.copy()
        return [('some', s2, el(src))]
    if src.op == 'cat':
        out = []
        for p in src.a:
            if p.op == 'one': out.append(('some', s.copy(), p.a[0]))
            elif p.op == 'lit': out.append(('some', s.copy(), el(mk('cat', p))))
            else: out += gen_elems(I_, s, p, L)
        return out
    if src.op == 'comp' and not (len(src.a[1]) == 1 and not src.a[1][0][0] and len(src.a[1][0][1]) == 1 and src.a[1][0][1][0].op == 'one'):
        out = []
        for d, ps in src.a[1]:
            s2 = s.copy()
            if not apply_facts(s2.f, d): continue
            if not ps: out.append(('skip', s2, None)); continue
            for p in ps:
                if p.op == 'one': out.append(('some', s2.copy(), p.a[0]))
                else: out.append(('some', s2.copy(), el(p if p.op not in ('lit',) else mk('cat', p))))
        return out
    return [('some', s.copy(), el(src))]

def next_it(I_, s, cell, stack):
    v = I_.load(s, cell)
    if v.op == 'adt':
        i = I_.db.trait_impl(v.a[0], 'Iterator', 'next')
        if i is not None:
            out = []
            for kk, s2, r in I_.call_inst(s, i, [cell], stack):
                if kk != 'ret': out.append((kk, s2, r)); continue
                for good, s3, p in fork_opt(s2, r): out.append(('some' if good else 'none', s3, p))
            return out
    it = v if v.op == 'it' else to_it(I_, s, v)
    out = []
    for kk, s2, e, ni in next_val(I_, s, it, stack):
        I_.store(s2, cell, ni)
        out.append((kk, s2, e))
    return out

@model('Iterator::next')
def m_next(I_, s, a, c):
    out = []
    for kk, s2, e in next_it(I_, s, a[0], c['stack']):
        if kk == 'some': out.append(('ret', s2, some(e)))
        elif kk == 'none': out.append(('ret', s2, NONE))
        elif kk == 'skip' and e is None:
            # rejected first element outside a loop: some later one, or none
            r = mk('app', 'nextmatch', I_.load(s2, a[0]))
            out.append(('ret', s2, r))
        else: out.append((kk, s2, e))
    return out
@model('DoubleEndedIterator::next_back')
def m_nextback(I_, s, a, c):
    it = to_it(I_, s, I_.load(s, a[0]))
    I_.store(s, a[0], revit(it))
    out = m_next(I_, s, a, c)
    for kk, s2, e in out:
        v = I_.load(s2, a[0])
        I_.store(s2, a[0], revit(v))
    return out

def consume_to(I_, s, it, step, acc, c, fin, onbreak=None):
    out = []
    for k, s2, vals, left, b in I_.consume(s, it, step, acc, c['site'], c['stack']):
        if k == 'done': out.append(('ret', s2, fin(s2, vals)))
        elif k == 'break': out.append(('ret', s2, onbreak(s2, vals, b) if onbreak else b))
        else: out.append((k, s2, vals))
    return out

def push_step(I_, s, e, accs):
    I_.store(s, accs[0], cat(I_.load(s, accs[0]), mk('cat', one(e))))
    return [('cont', s, None)]
def spl_step(I_, s, e, accs):
    I_.store(s, accs[0], cat(I_.load(s, accs[0]), e if e.op != 'int' else lit(chr(e.a[0]))))
    return [('cont', s, None)]

@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(I_, s, a, c):
    ty = I_.db.tys[c['retty']] if c.get('retty') is not None else None
    it = to_it(I_, s, a[0])
    return collect_as(I_, s, it, ty, c)

def collect_as(I_, s, it, ty, c):
    n = ty['path'].split('::')[-1] if ty and ty['k'] == 'adt' else ''
    if n in ('Result', 'Option'):
        inner = I_.db.tys[ty['args'][0]]
        res = n == 'Result'
        ip = inner['path'].split('::')[-1] if inner['k'] == 'adt' else ('unit' if inner['s'] == '()' else '')
        def step(I2, s2, e, accs):
            out = []
            for good, s3, p in (fork_res if res else fork_opt)(s2, e):
                if good:
                    acc_add(I2, s3, accs[0], p, ip); out.append(('cont', s3, None))
                else: out.append(('break', s3, err(p) if res else NONE))
            return out
        return consume_to(I_, s, it, step, (acc0(ip),), c, lambda s2, v: (ok if res else some)(v[0] if ip != 'unit' else UNIT))
    p = plain(it)
    if n in ('Vec', 'String', 'RepeatedField', 'VecDeque') or not n or n == 'Box':
        if p is not None: 
            if p.op not in ('enum', 'zip'): return p
        st = push_step
        if n == 'String':
            # chars are elements, strings are spliced
            def st(I2, s2, e, accs):
                if e.op in ('el', 'int', 'index') and not (e.op == 'el' and e.a[0].op in ('app', 'comp')):
                    return push_step(I2, s2, e, accs)
                return spl_step(I2, s2, e, accs)
        return consume_to(I_, s, it, st, (EMPTY,), c, lambda s2, v: v[0])
    if n in MT:
        if p is not None and p.op == 'entries': return p.a[0]
        def step(I2, s2, e, accs):
            m = I2.load(s2, accs[0])
            I2.store(s2, accs[0], map_set(m, fld(e, 0), fld(e, 1)) if 'Map' in n else map_set(m, e, UNIT))
            return [('cont', s2, None)]
        return consume_to(I_, s, it, step, (MAP0,), c, lambda s2, v: v[0])
    if ty and ty['k'] == 'adt' and I_.db.trait_impl(ty['path'], 'FromIterator', 'from_iter') is not None:
        return I_.call_inst(s, I_.db.trait_impl(ty['path'], 'FromIterator', 'from_iter'), [it], c['stack'])
    return consume_to(I_, s, it, push_step, (EMPTY,), c, lambda s2, v: mk('app', 'collected', lit(n), v[0]))

def acc0(ip): return MAP0 if ip in MT else EMPTY
def acc_add(I_, s, acc, p, ip):
    v = I_.load(s, acc)
    if ip in MT: I_.store(s, acc, map_set(v, fld(p, 0), fld(p, 1)) if 'Map' in ip else map_set(v, p, UNIT))
    elif ip == 'unit': pass
    elif ip == 'String': I_.store(s, acc, cat(v, p))
    else: I_.store(s, acc, cat(v, mk('cat', one(p))))

@model('Iterator::for_each')
def m_foreach(I_, s, a, c):
    def step(I2, s2, e, accs):
        return [('cont' if k == 'ret' else k, s3, v) for k, s3, v in I2.call_value(s2, a[1], [e], c['stack'], c)]
    return consume_to(I_, s, to_it(I_, s, a[0]), step, (), c, lambda s2, v: UNIT)
@model('Iterator::try_for_each')
def m_tryforeach(I_, s, a, c):
    ty = I_.db.tys[c['retty']]
    res = ty['path'].endswith('Result')
    def step(I2, s2, e, accs):
        out = []
        for k, s3, v in I2.call_value(s2, a[1], [e], c['stack'], c):
            if k != 'ret': out.append((k, s3, v)); continue
            for good, s4, p in (fork_res if res else fork_opt)(s3, v):
                out.append(('cont', s4, None) if good else ('break', s4, err(p) if res else NONE))
        return out
    return consume_to(I_, s, to_it(I_, s, a[0]), step, (), c, lambda s2, v: ok(UNIT) if res else some(UNIT))
@model('Iterator::fold')
def m_fold(I_, s, a, c):
    def step(I2, s2, e, accs):
        out = []
        for k, s3, v in I2.call_value(s2, a[2], [I2.load(s2, accs[0]), e], c['stack'], c):
            if k == 'ret': I2.store(s3, accs[0], v); out.append(('cont', s3, None))
            else: out.append((k, s3, v))
        return out
    return consume_to(I_, s, to_it(I_, s, a[0]), step, (a[1],), c, lambda s2, v: v[0])
@model('Iterator::try_fold')
def m_tryfold(I_, s, a, c):
    ty = I_.db.tys[c['retty']]
    res = ty['path'].endswith('Result')
    def step(I2, s2, e, accs):
        out = []
        for k, s3, v in I2.call_value(s2, a[2], [I2.load(s2, accs[0]), e], c['stack'], c):
            if k != 'ret': out.append((k, s3, v)); continue
            for good, s4, p in (fork_res if res else fork_opt)(s3, v):
                if good: I2.store(s4, accs[0], p); out.append(('cont', s4, None))
                else: out.append(('break', s4, err(p) if res else NONE))
        return out
    it = to_it(I_, s, a[0])
    return consume_to(I_, s, it, step, (a[1],), c, lambda s2, v: (ok if res else some)(v[0]))
def m_pred(kind):
    def f(I_, s, a, c):
        def step(I2, s2, e, accs):
            out = []
            for k, s3, v in I2.call_value(s2, a[1], [e], c['stack'], c):
                if k != 'ret': out.append((k, s3, v)); continue
                if kind == 'find_map':
                    for good, s4, p in fork_opt(s3, v): out.append(('break', s4, some(p)) if good else ('cont', s4, None))
                    continue
                for t, s4 in fork(s3, v):
                    if kind == 'any': out.append(('break', s4, TRUE) if t else ('cont', s4, None))
                    elif kind == 'all': out.append(('cont', s4, None) if t else ('break', s4, FALSE))
                    elif kind == 'find': out.append(('break', s4, some(e)) if t else ('cont', s4, None))
                    elif kind == 'position': out.append(('break', s4, some(mk('app', 'position', e))) if t else ('cont', s4, None))
            return out
        d = {'any': FALSE, 'all': TRUE, 'find': NONE, 'position': NONE, 'find_map': NONE}[kind]
        return consume_to(I_, s, to_it(I_, s, a[0]), step, (), c, lambda s2, v: d)
    return f
for n in ('any', 'all', 'find', 'position', 'find_map'): MODELS['Iterator::' + n] = m_pred(n)
@model('Iterator::eq', 'Iterator::ne')
def m_iteq(I_, s, a, c):
    neg = c['name'].endswith('::ne')
    out = []
    for k, s2, x in collect_as(I_, s, to_it(I_, s, a[0]), None, c) if not plain_ok(I_, s, a[0]) else [('ret', s, plain(to_it(I_, s, a[0])))]:
        if k != 'ret': out.append((k, s2, x)); continue
        it2 = to_it(I_, s2, a[1])
        p2 = plain(it2)
        for k3, s3, y in ([('ret', s2, p2)] if p2 is not None and p2.op not in ('enum', 'zip') else collect_as(I_, s2, it2, None, c)):
            if k3 != 'ret': out.append((k3, s3, y)); continue
            r = do_eq(I_, s3, x, y)
            if r is None: r = seq_eq(x, y)
            out.append(('ret', s3, not_(r) if neg else r))
    return out
def plain_ok(I_, s, v):
    p = plain(to_it(I_, s, v))
    return p is not None and p.op not in ('enum', 'zip')
@model('Iterator::count')
def m_count(I_, s, a, c):
    def step(I2, s2, e, accs):
        I2.store(s2, accs[0], add(I2.load(s2, accs[0]), I(1))); return [('cont', s2, None)]
    return consume_to(I_, s, to_it(I_, s, a[0]), step, (I(0),), c, lambda s2, v: v[0])
@model('Iterator::sum')
def m_sum(I_, s, a, c):
    def step(I2, s2, e, accs):
        I2.store(s2, accs[0], add(I2.load(s2, accs[0]), e)); return [('cont', s2, None)]
    return consume_to(I_, s, to_it(I_, s, a[0]), step, (I(0),), c, lambda s2, v: v[0])
@model('Iterator::last')
def m_itlast(I_, s, a, c):
    p = plain(to_it(I_, s, a[0]))
    if p is not None:
        return [('ret', s2, some(last(p)) if ne else NONE) for ne, s2 in fork(s, nonempty(p))]
    return mk('app', 'itlast', to_it(I_, s, a[0]))
@model('Iterator::nth')
def m_nth(I_, s, a, c):
    it = to_it(I_, s, I_.load(s, a[0]))
    p = plain(it)
    if p is not None and p.op != 'range':
        out = []
        for t, s2 in fork(s, lt(a[1], length(p))):
            I_.store(s2, a[0], mk('it', 'src', slice_(p, add(a[1], I(1)), END)))
            out.append(('ret', s2, some(index(p, a[1])) if t else NONE))
        return out
    return None
@model('Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::max_by', 'Iterator::min_by')
def m_itmax(I_, s, a, c): return mk('app', c['name'], to_it(I_, s, a[0]), *a[1:])
@model('Iterator::size_hint')
def m_sizehint(I_, s, a, c): return mk('app', 'size_hint', S(I_, s, a[0]))
@model('Extend::extend')
def m_extend(I_, s, a, c):
    ty = arg_base_ty(I_, c, 0)
    n = ty['path'].split('::')[-1] if ty and ty['k'] == 'adt' else 'Vec'
    it = to_it(I_, s, a[1])
    p = plain(it)
    if n in ('Vec', 'String', 'RepeatedField') and p is not None and not (n == 'String' and False):
        upd(I_, s, a[0], lambda v: cat(v, p)); return UNIT
    def step(I2, s2, e, accs):
        if n in MT: upd(I2, s2, a[0], lambda m: map_set(m, fld(e, 0), fld(e, 1)))
        elif n == 'String' : upd(I2, s2, a[0], lambda v: cat(v, e if e.op not in ('int',) else lit(chr(e.a[0]))))
        else: upd(I2, s2, a[0], lambda v: cat(v, mk('cat', one(e))))
        return [('cont', s2, None)]
    return consume_to(I_, s, it, step, (), c, lambda s2, v: UNIT)
@model('Iterator::partition')
def m_partition(I_, s, a, c):
    def step(I2, s2, e, accs):
        out = []
        for k, s3, v in I2.call_value(s2, a[1], [e], c['stack'], c):
            if k != 'ret': out.append((k, s3, v)); continue
            for t, s4 in fork(s3, v):
                acc = accs[0 if t else 1]
                I2.store(s4, acc, cat(I2.load(s4, acc), mk('cat', one(e)))); out.append(('cont', s4, None))
        return out
    return consume_to(I_, s, to_it(I_, s, a[0]), step, (EMPTY, EMPTY), c, lambda s2, v: mk('tup', *v))
@model('Iterator::unzip')
def m_unzip(I_, s, a, c):
    def step(I2, s2, e, accs):
        for i in (0, 1): I2.store(s2, accs[i], cat(I2.load(s2, accs[i]), mk('cat', one(fld(e, i)))))
        return [('cont', s2, None)]
    return consume_to(I_, s, to_it(I_, s, a[0]), step, (EMPTY, EMPTY), c, lambda s2, v: mk('tup', *v))

# ------------------------------------------------------- effects as events
def effect(name=None):
    def f(I_, s, a, c):
        return I_.event(s, name or c['name'], [S(I_, s, x) for x in a], c['site'])
    return f
for n in ('File::create', 'File::open', 'File::sync_all', 'File::sync_data', 'fs::read_to_string', 'fs::read', 'fs::write', 'fs::rename', 'fs::remove_file', 'fs::remove_dir_all', 'fs::create_dir_all', 'fs::create_dir', 'fs::read_dir', 'fs::metadata', 'fs::copy', 'fs::hard_link',
          'OpenOptions::open', 'Write::write', 'Write::flush', 'Write::write_all', 'Tree::set', 'Tree::get', 'Tree::del', 'Tree::insert', 'Tree::remove', 'Tree::flush', 'Tree::contains_key', 'Tree::cas', 'Tree::merge', 'Tree::scan', 'Db::start', 'Db::start_default', 'Db::open', 'Db::flush', 'Db::drop_tree', 'Db::open_tree',
          'SystemTime::now', 'Instant::now', 'Uuid::new_v4', 'Receiver::recv', 'Receiver::try_recv', 'Receiver::recv_timeout', 'Sender::send', 'thread::sleep', 'Server::http', 'Server::incoming_requests', 'Server::recv',
          'Request::respond', 'ThreadPool::install_', 'ThreadPool::spawn_', 'RawClient::get', 'RawClient::put', 'RawClient::delete', 'RawClient::new', 'JoinHandle::join', 'BufWriter::flush', 'CodedOutputStream::flush', 'env::current_dir', 'DirEntry::metadata', 'DirEntry::file_type',
          'Atomic::load', 'Atomic::store', 'Atomic::fetch_add', 'Atomic::fetch_sub', 'Atomic::compare_exchange', 'Atomic::compare_and_swap', 'Atomic::swap', 'Atomic::fetch_or', 'Atomic::fetch_max', 'AtomicU64::fetch_add', 'thread::yield_now', 'BufWriter::into_inner', 'Condvar::wait', 'Condvar::notify_one', 'Condvar::notify_all', 'Barrier::wait', 'thread::park', 'Path::exists', 'Path::is_dir', 'Path::is_file', 'env_logger::init'):
    MODELS[n] = effect()
@model('File.Write::write', 'File.Write::flush', 'File.Write::write_all', 'BufWriter.Write::flush', 'BufWriter.Write::write', 'BufWriter.Write::write_all')
def m_filewrite(I_, s, a, c):
    return I_.event(s, c['name'], [S(I_, s, x) for x in a], c['site'])
MODELS['Atomic::new'] = lambda I_, s, a, c: mk('app', 'atomic', a[0])
MODELS['Path::join'] = lambda I_, s, a, c: path_join(S(I_, s, a[0]), S(I_, s, a[1]))
def path_join(a, b):
    return mk('path', a, b) if a.op != 'path' else mk('path', *(a.a + (b,)))
@model('PathBuf::push')
def m_ppush(I_, s, a, c):
    x = S(I_, s, a[1]); upd(I_, s, a[0], lambda v: path_join(v, x)); return UNIT
@model('ConfigBuilder::path', 'ConfigBuilder::read_only', 'ConfigBuilder::build', 'ConfigBuilder::cache_capacity', 'ConfigBuilder::flush_every_ms', 'ConfigBuilder::snapshot_after_ops', 'ConfigBuilder::use_compression', 'ConfigBuilder::compression_factor', 'ConfigBuilder::temporary', 'ConfigBuilder::print_profile_on_drop', 'ConfigBuilder::new')
def m_sledcfg(I_, s, a, c): return mk('app', c['name'], *[S(I_, s, x) for x in a])
@model('Path::with_extension', 'Path::with_file_name', 'Path::file_name', 'Path::parent', 'DirEntry::path', 'DirEntry::file_name', 'SystemTime::duration_since', 'Duration::as_millis', 'Duration::as_secs', 'Duration::from_millis', 'Duration::from_secs', 'Duration::from_micros', 'Duration::as_micros',
       'Request::method', 'Request::url', 'Request::body_length', 'Request::remote_addr', 'Request::http_version', 'Request::headers', 'Request::secure', 'Response::empty', 'Response::from_data', 'Uuid::nil', 'Uuid::as_bytes', 'Digest::new', 'ArgMatches::value_of', 'Decoder::new', 'Encoder::new', 'ThreadPoolBuilder::new', 'ThreadPoolBuilder::num_threads', 'ThreadPoolBuilder::build', 'Response::from_string', 'StatusCode', 'Response::with_status_code', 'Response::new_empty', 'Duration::as_nanos', 'Duration::subsec_millis', 'Path::extension', 'Path::file_stem', 'Error::kind', 'SocketAddr', 'Error::to_string', 'Error::raw_os_error')
def m_pure(I_, s, a, c):
    n = c['name']
    vals = [S(I_, s, x) for x in a]
    if n == 'Uuid::as_bytes': return vals[0] if vals[0].op != 'res' else mk('uuid', vals[0])
    if n == 'Uuid::nil': return lit(b'\0' * 16)
    if n == 'Uuid::into_bytes': return vals[0]
    if n == 'Duration::as_millis' and vals[0].op == 'app' and vals[0].a[0] == 'Duration::from_millis': return vals[0].a[1]
    if n == 'Duration::as_secs' and vals[0].op == 'app' and vals[0].a[0] == 'Duration::from_secs': return vals[0].a[1]
    if n == 'Duration::as_millis' and vals[0].op == 'app' and vals[0].a[0] == 'Duration::from_secs': return mulc(vals[0].a[1], 1000)
    if n == 'Duration::from_secs' : pass
    return mk('app', n, *vals)
MODELS['Uuid::into_bytes'] = m_pure
MODELS['Uuid::to_vec'] = m_pure

@model('File::create', 'File::open', 'OpenOptions::open')
def m_fcreate(I_, s, a, c): return I_.event(s, c['name'], [S(I_, s, x) for x in a], c['site'])
@model('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new')
def m_bufw(I_, s, a, c): return mk('app', 'bufw', S(I_, s, a[-1]))

@model('BufWriter::get_ref', 'BufWriter::get_mut', 'BufReader::get_ref', 'LineWriter::get_ref')
def m_buf_ref(I_, s, a, c):
    v = S(I_, s, a[0])
    return v.a[1] if v.op == 'app' and v.a[0] == 'bufw' else None
@model('Cursor::new')
def m_cursor(I_, s, a, c): return mk('cursor', S(I_, s, a[0]))
def unread(v):
    """what reading a cursor gives: nothing after it was written to its end"""
    return v.a[0] if len(v.a) == 1 else seq() if v.a[1] is TRUE else mk('app', 'curdata', v)
@model('Cursor::position', 'Cursor::get_ref', 'Cursor::into_inner')
def m_curpos(I_, s, a, c):
    v = S(I_, s, a[0])
    if c['name'].endswith('position'): return mk('app', 'position', v)
    return v.a[0] if v.op == 'cursor' else mk('app', 'curdata', v)
@model('Cursor::set_position')
def m_setpos(I_, s, a, c):
    p = S(I_, s, a[1])
    def f(v):
        if v.op != 'cursor': return v
        if p is I(0): return mk('cursor', v.a[0])
        if p is length(v.a[0]): return mk('cursor', v.a[0], TRUE)
        return mk('cursor', v.a[0], p)
    upd(I_, s, a[0], f)
    return UNIT
@model('Read::read_to_end', 'Read::read_to_string')
def m_rte(I_, s, a, c):
    r = S(I_, s, a[0])
    if r.op == 'cursor':
        d = unread(r)
        if a[0].op == 'mref': I_.store(s, a[0], mk('cursor', r.a[0], TRUE))
        upd(I_, s, a[1], lambda v: cat(v, d)); return ok(length(d))
    res = I_.event(s, 'Read::read_to_end', [r], c['site'])
    upd(I_, s, a[1], lambda v: cat(v, mk('app', 'readdata', res)))
    return res
@model('Read::read', 'Read::read_exact')
def m_read(I_, s, a, c):
    r = S(I_, s, a[0])
    res = I_.event(s, c['name'], [r], c['site'])
    I_.store(s, a[1], mk('app', 'readdata', res))
    return res
@model('Request::as_reader')
def m_asreader(I_, s, a, c): return mk('app', 'body', S(I_, s, a[0]))
@model('Decoder::decompress_vec', 'Encoder::compress_vec', 'Decoder::decompress', 'Encoder::compress')
def m_snap(I_, s, a, c): return mk('app', 'decompress' if 'decompress' in c['name'] else 'compress', S(I_, s, a[1]))
@model('CodedInputStream::new')
def m_cis(I_, s, a, c):
    v = S(I_, s, a[0])
    return mk('app', 'cis', unread(v) if v.op == 'cursor' else v)
@model('CodedInputStream::from_bytes', 'CodedInputStream::from_buffered_reader')
def m_cisb(I_, s, a, c):
    v = S(I_, s, a[0]); return mk('app', 'cis', unread(v) if v.op == 'cursor' else v)
@model('CodedOutputStream::new', 'CodedOutputStream::vec')
def m_cos(I_, s, a, c): return mk('app', 'cos', a[0])
@model('Message::write_to')
def m_writeto(I_, s, a, c):
    msg, out = S(I_, s, a[0]), S(I_, s, a[1])
    if out.op == 'app' and out.a[0] == 'cos' and out.a[1].op == 'mref':
        def put(v):
            if v.op == 'cursor': return mk('cursor', cat(v.a[0], mk('app', 'encoded', msg)), TRUE)
            return cat(v, mk('app', 'encoded', msg))
        upd(I_, s, out.a[1], put)
    return I_.event(s, 'Message::write_to', [msg], c['site'])
@model('Message::write_to_bytes')
def m_wtb(I_, s, a, c):
    msg = S(I_, s, a[0])
    r = I_.event(s, 'Message::write_to', [msg], c['site'])
    out = []
    for good, s2, p in fork_res(s, r): out.append(('ret', s2, ok(mk('app', 'encoded', msg)) if good else err(p)))
    return out
@model('Message::write_to_vec', 'Message::write_to_writer')
def m_wtv(I_, s, a, c):
    msg = S(I_, s, a[0])
    def put(v): return mk('cursor', cat(v.a[0], mk('app', 'encoded', msg)), TRUE) if v.op == 'cursor' else cat(v, mk('app', 'encoded', msg))
    upd(I_, s, a[1], put)
    return I_.event(s, 'Message::write_to', [msg], c['site'])
@model('Message::merge_from', 'Message::merge_from_bytes')
def m_merge(I_, s, a, c):
    tgt, st = I_.load(s, a[0]), S(I_, s, a[1])
    if c['name'].endswith('bytes'): st = mk('app', 'cis', st)
    res = I_.event(s, 'Message::merge_from', [st], c['site'])
    I_.store(s, a[0], mk('app', 'decoded', st))
    return res
@model('protobuf::parse_from_bytes', 'Message::parse_from_bytes', 'message::parse_from_bytes')
def m_pfb(I_, s, a, c):
    st = mk('app', 'cis', S(I_, s, a[0]))
    res = I_.event(s, 'Message::merge_from', [st], c['site'])
    return [('ret', s2, ok(mk('app', 'decoded', st)) if g else err(p)) for g, s2, p in fork_res(s, res)]
@model('Message::compute_size')
def m_csize(I_, s, a, c):
    r = mk('app', 'msgsize', S(I_, s, a[0])); NONNEG.add(r); return r
@model('serde_json::from_str', 'serde_json::from_slice', 'serde_json::from_reader')
def m_fromstr(I_, s, a, c): return mk('app', 'json_parse', S(I_, s, a[0]))
@model('serde_json::to_writer', 'serde_json::to_writer_pretty')
def m_towriter(I_, s, a, c): return I_.event(s, 'json::to_writer', [S(I_, s, a[0]), S(I_, s, a[1])], c['site'])
@model('serde_json::to_string', 'serde_json::to_vec', 'serde_json::to_string_pretty', 'serde_json::to_vec_pretty')
def m_tostr(I_, s, a, c): return mk('app', 'json_str', S(I_, s, a[0]))
@model('serde_yaml::from_slice', 'serde_yaml::from_str')
def m_yaml(I_, s, a, c): return mk('app', 'yaml_parse', S(I_, s, a[0]))
@model('thread::spawn')
def m_spawn(I_, s, a, c):
    return I_.event(s, 'thread::spawn', [a[0]], c['site'])
@model('ThreadPool::install', 'ThreadPool::scope', 'ThreadPool::spawn')
def m_install(I_, s, a, c):
    I_.event(s, 'ThreadPool::install', [S(I_, s, a[0])], c['site'])
    return I_.call_value(s, a[1], [], c['stack'], c)
@model('mpsc::channel', 'mpsc::sync_channel')
def m_channel(I_, s, a, c):
    n = sum(1 for e in s.ev if e.name == 'channel')
    I_.event(s, 'channel', [], c['site'])
    return mk('tup', mk('app', 'tx', I(n)), mk('app', 'rx', I(n)))
# digests: accumulate
@model('Digest::new', 'Digest::new_with_initial')
def m_digest(I_, s, a, c):
    n = c['f']['path'].split('::')[1] if '::' in c['f']['path'] else ''
    if a and is_int(a[0]) and a[0].a[0] not in POLY.get(n, ()): n += ':%d' % a[0].a[0]
    return mk('app', 'digest', lit(n), a[1] if len(a) > 1 else I(0), EMPTY)
POLY = {'crc32': (0xedb88320,), 'crc64': (0xc96c5795d7870f42,)}
@model('Hasher32::write', 'Hasher::write')
def m_hwrite(I_, s, a, c):
    x = S(I_, s, a[1])
    def put(v):
        if v.op == 'app' and v.a[0] == 'digest': return mk('app', 'digest', v.a[1], v.a[2], cat(v.a[3], x))
        if v.op == 'app' and v.a[0] == 'digest+': return mk('app', 'digest+', v.a[1], cat(v.a[2], x))
        return mk('app', 'digest+', v, x)
    upd(I_, s, a[0], put); return UNIT
def digest_put(v, x):
    if v.op == 'app' and v.a[0] == 'digest': return mk('app', 'digest', v.a[1], v.a[2], cat(v.a[3], x))
    if v.op == 'app' and v.a[0] == 'digest+': return mk('app', 'digest+', v.a[1], cat(v.a[2], x))
    return mk('app', 'digest+', v, x)

PROBE = {}
def written_fields(I_, i):
    """fields of a writer that its write method changes; None when unknown"""
    k = (id(I_.db), i['id'])
    if k not in PROBE:
        PROBE[k] = None
        st = _i.St()
        w, b = mk('sym', 'probe'), mk('sym', 'probed')
        ref = I_.new_loc(st, w, 'probe')
        ch = set()
        try:
            for kk, s2, v in I_.call_inst(st, i, [ref, b], ()):
                if kk == 'panic': continue
                if kk != 'ret': return None
                for p in _i.diffs(w, I_.load(s2, ref)): ch.add(p)
            PROBE[k] = frozenset(ch)
        except Exception: return None
    return PROBE[k]

def writer_impl(I_, c):
    ty = arg_base_ty(I_, c, 0)
    if not ty or ty['k'] != 'adt' or ty['path'] not in I_.db.adt: return None
    for t, i in I_.db.impls.get(('Write', 'write'), ()):
        j = I_.db.tys[i['locals'][1]]
        while j['k'] in ('ref', 'ptr'): j = I_.db.tys[j['to']]
        if j.get('path') == ty['path']: return i
    return None

def m_writeall(I_, s, a, c):
    ty = arg_base_ty(I_, c, 0)
    if a[0].op == 'mref' and ty and ty['k'] == 'adt' and ty['path'].split('::')[-1] == 'Vec':
        # a vector takes everything
        I_.store(s, a[0], cat(I_.load(s, a[0]), S(I_, s, a[1])))
        return ret(s, ok(UNIT))
    res = I_.event(s, c['name'], [S(I_, s, x) for x in a], c['site'])
    i = writer_impl(I_, c)
    if i is None or a[0].op != 'mref' or i['id'] in c.get('stack', ()): return res
    ch = written_fields(I_, i)
    if ch is None: return res
    v, x = I_.load(s, a[0]), S(I_, s, a[1])
    out = []
    for good, s2, p in fork_res(s, res):
        w = v
        for f in sorted(ch):
            old = _i.getp(v, f)
            w = _i.setp(w, f, digest_put(old, x) if good else mk('app', 'partly', old, x))
        I_.store(s2, a[0], w)
        out.append(('ret', s2, ok(UNIT) if good else res))
    return out
MODELS['Write::write_all'] = m_writeall

@model('Hasher32::sum32', 'Hasher::finish')
def m_sum32(I_, s, a, c): return mk('app', 'sum', S(I_, s, a[0]))
@model('DefaultHasher::new')
def m_dh(I_, s, a, c): return mk('app', 'digest', lit('siphash'), I(0), EMPTY)
@model('Hash::hash')
def m_hash(I_, s, a, c):
    x = S(I_, s, a[0])
    def put(v):
        y = mk('cat', one(x))
        if v.op == 'app' and v.a[0] == 'digest': return mk('app', 'digest', v.a[1], v.a[2], cat(v.a[3], y))
        if v.op == 'app' and v.a[0] == 'digest+': return mk('app', 'digest+', v.a[1], cat(v.a[2], y))
        return mk('app', 'digest+', v, y)
    upd(I_, s, a[1], put); return UNIT
for _n in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left', 'trim_right', 'replace', 'replacen', 'repeat'):
    MODELS['str::' + _n] = (lambda n: lambda I_, s, a, c: mk('app', 'str:' + n, *[S(I_, s, x) for x in a]))(_n)
@model('str::eq_ignore_ascii_case')
def m_eqcase(I_, s, a, c):
    x, y = S(I_, s, a[0]), S(I_, s, a[1])
    if x is y: return I(1)
    out = []
    for t, s2 in fork(s, mk('eq', *sorted((x, y), key=lambda t: t.id))):
        if t: out.append(('ret', s2, I(1)))
        else: out.append(('ret', s2, mk('app', 'eq_ignore_case', *sorted((x, y), key=lambda t: t.id))))
    return out
@model('CachedSize::set')
def m_cset(I_, s, a, c):
    I_.event(s, 'CachedSize::set', [S(I_, s, a[0]), a[1]], c['site'], kind='ext')
    return UNIT
@model('executor::block_on')
def m_blockon(I_, s, a, c): return a[0]
@model('Option.PartialEq::eq')
def m_opteq(I_, s, a, c): return m_eq(I_, s, a, c)
@model('checksum_ieee', 'crc32::checksum_ieee')
def m_crcieee(I_, s, a, c): return mk('app', 'sum', mk('app', 'digest', lit('crc32'), I(0), S(I_, s, a[0])))

def norm_app(*a):
    """re-evaluate invertible codecs after substitution"""
    n = a[0]
    if n == 'parse' and a[1].op == 'dec' and a[2].op == 'cat' and a[2].a and a[2].a[0].op == 'lit' and a[2].a[0].a[0].startswith(b'u'): return ok(a[1].a[0])
    if n in ('chunks', 'chunks_exact', 'windows') and len(a) == 3 and a[1] is EMPTY: return EMPTY
    if isinstance(n, str) and len(a) == 2:
        v = a[1]
        if n.startswith('from_be') and n[7:].isdigit():
            w = int(n[7:])
            if v.op == 'cat' and len(v.a) == 1: v = v.a[0]
            if v.op == 'be' and v.a[0] == w: return v.a[1]
            if v.op == 'lit' and len(v.a[0]) == w: return I(int.from_bytes(v.a[0], 'big'))
        if n.startswith('from_le') and n[7:].isdigit():
            if v.op == 'cat' and len(v.a) == 1: v = v.a[0]
            if v.op == 'le' and v.a[0] == int(n[7:]): return v.a[1]
        if n in ('f_from_be', 'f_from_le'):
            if v.op == 'cat' and len(v.a) == 1: v = v.a[0]
            if v.op == n[-2:] and v.a[0] == 8: return unfbits(v.a[1])
        if n == 'ffrombits': return unfbits(v)
        if n == 'fbits' and v.op == 'app' and v.a[0] == 'ffrombits': return v.a[1]
    return mk('app', *a)
import terms as _tt
_tt._REB['app'] = norm_app

# command line description (clap): values that only describe
for n in ('App::new', 'App::version', 'App::about', 'App::author', 'App::args', 'App::arg', 'App::get_matches', 'App::name', 'App::long_about', 'App::setting', 'App::settings',
          'Arg::with_name', 'Arg::short', 'Arg::long', 'Arg::default_value', 'Arg::takes_value', 'Arg::help', 'Arg::long_help', 'Arg::value_name', 'Arg::required', 'Arg::possible_values', 'Arg::multiple',
          'Arg::hidden', 'Arg::empty_values', 'Arg::validator', 'Arg::number_of_values', 'Config::new'):
    MODELS.setdefault(n, (lambda n: lambda I_, s, a, c: mk('app', n, *[S(I_, s, x) if x.op == 'mref' else x for x in a]))(n))
