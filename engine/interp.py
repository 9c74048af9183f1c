"""Trace-partitioned abstract interpretation of MIR over the value domain.

Calls are inlined, loops are summarised (one generic iteration to a fixpoint of
modified cells, closed forms for the cells it changes); every path carries its
facts and its ordered effect events."""
import sys
sys.setrecursionlimit(20000)
from terms import *
from domain import *
from names import norm

class Budget(Exception):
    pass

class Ev(object):
    __slots__ = ('kind', 'name', 'args', 'res', 'site', 'held', 'x')
    def __init__(self, kind, name, args=(), res=None, site=None, held=(), x=None):
        self.kind, self.name, self.args, self.res, self.site, self.held, self.x = kind, name, tuple(args), res, site, held, x
    def __repr__(self):
        if self.kind == 'loop': return 'LOOP(%r)' % (self.x.src,)
        return '%s %s(%s)' % (self.kind, self.name, ', '.join(map(repr, self.args)))

class LoopRec(object):
    """src; paths: [(facts, events, cellvals)]; early: bool partial"""
    def __init__(self, src, paths, partial, site):
        self.src, self.paths, self.partial, self.site = src, paths, partial, site
        self.init, self.exitf, self.exitv, self.closed = {}, None, {}, {}   # over raw header terms

class St(object):
    __slots__ = ('heap', 'f', 'ev', 'held', 'flags')
    def __init__(self):
        self.heap, self.f, self.ev, self.held, self.flags = {}, Facts(), (), (), frozenset()
    def copy(self):
        s = St.__new__(St)
        s.heap, s.f, s.ev, s.held, s.flags = dict(self.heap), self.f.copy(), self.ev, self.held, self.flags
        return s

class Frame(object):
    __slots__ = ('fid', 'inst', 'stack', 'unroll', 'tyargs')

def natural_loops(inst):
    """header -> set of blocks (non-cleanup)"""
    if '_loops' in inst: return inst['_loops']
    B = inst['blocks']
    succ = {}
    for n, b in enumerate(B):
        succ[n] = [] if b.get('u') else [x for x in term_succ(b['t']) if not B[x].get('u')]
    # iterative DFS for back edges, dominators by simple iteration
    order, seen, stack = [], set(), [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        n, it = stack[-1]
        for m in it:
            if m not in seen:
                seen.add(m); stack.append((m, iter(succ[m]))); break
        else:
            order.append(n); stack.pop()
    rpo = order[::-1]
    pred = {n: [] for n in rpo}
    for n in rpo:
        for m in succ[n]: pred[m].append(n)
    dom = {0: {0}}
    alls = set(rpo)
    for n in rpo[1:]: dom[n] = alls
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            ps = [dom[p] for p in pred[n]]
            d = set.intersection(*ps) | {n} if ps else {n}
            if d != dom[n]: dom[n] = d; ch = True
    loops = {}
    for n in rpo:
        for h in succ[n]:
            if h in dom[n]:
                body = loops.setdefault(h, {h})
                st = [n]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(pred[x])
    inst['_loops'] = loops
    return loops

def term_succ(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None and t[4] >= 0 else []
    if k == 'assert': return [t[4]]
    return []

class Interp(object):
    def __init__(self, db, cut=None, log=False, max_out=3000, track_panics=False):
        self.db = db
        self.cut = cut or (lambda fr, name, ctx: False)
        self.log = log
        self.nf = 0
        self.nl = 0
        self.max_out = max_out
        self.unmodelled = {}
        self.fns = set()          # analysed function paths
        self.ncalls = 0
        self.steps = 0
        import models
        self.models = models

    # ------------------------------------------------------------ memory
    def load(self, st, ref):
        v = st.heap.get(ref.a[0], UNINIT)
        for p in ref.a[1:]:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if v.op == 'mref' and p[0] != 'dv':
            v = self.load(st, v)
        k = p[0]
        if k == 'f': return fld(v, p[1])
        if k == 'vf': return vf(v, p[1], p[2])
        if k == 'i': return index(v, p[1])
        if k == 'mk': return self.models.map_get(v, p[1])
        if k == 'last': return last(v)
        if k == 'sl': return slice_(v, p[1], p[2])
        raise Budget('proj %r' % (p,))

    def store(self, st, ref, x):
        loc = ref.a[0]
        st.heap[loc] = self.upd(st, st.heap.get(loc, UNINIT), ref.a[1:], x)

    def upd(self, st, v, ps, x):
        if not ps: return x
        p = ps[0]
        if v.op == 'mref':
            # field of a boxed/borrowed object reached without an explicit deref
            self.store(st, mk('mref', v.a[0], *(v.a[1:] + tuple(ps))), x)
            return v
        k = p[0]
        if k == 'f': return set_f(v, p[1], self.upd(st, fld(v, p[1]), ps[1:], x))
        if k == 'vf': return set_vf(v, p[1], p[2], self.upd(st, vf(v, p[1], p[2]), ps[1:], x))
        if k == 'i':
            n = self.upd(st, index(v, p[1]), ps[1:], x)
            return seq_set(v, p[1], n)
        if k == 'mk': return self.models.map_set(v, p[1], self.upd(st, self.models.map_get(v, p[1]), ps[1:], x))
        if k == 'last':
            n = self.upd(st, last(v), ps[1:], x)
            return seq_set_last(v, n)
        if k == 'sl':
            n = self.upd(st, slice_(v, p[1], p[2]), ps[1:], x)
            return cat(slice_(v, I(0), p[1]), n, EMPTY if p[2] is END else slice_(v, p[2], END))
        raise Budget('upd %r' % (p,))

    def new_loc(self, st, v, kind='tmp'):
        self.nf += 1
        loc = mk('loc', kind, self.nf)
        st.heap[loc] = v
        return mk('mref', loc)

    def ref_place(self, st, fr, pl):
        """mref for a place"""
        loc, ps = mk('loc', fr.fid, pl[0]), []
        dv = None
        for e in pl[1]:
            if e == '*':
                v = self.load(st, mk('mref', loc, *ps))
                if v.op == 'mref':
                    loc, ps = v.a[0], list(v.a[1:])
                dv = None
            elif e[0] == 'd':
                dv = e[1]
            elif e[0] == 'f':
                cur = self.load(st, mk('mref', loc, *ps))
                if cur.op == 'mref' and dv is None:
                    # Box/NonNull internals: stay on the pointer
                    continue
                ps.append(('f', e[1]) if dv is None else ('vf', dv, e[1]))
                dv = None
            elif e[0] == 'i':
                ps.append(('i', self.read(st, fr, [e[1], []])))
            elif e[0] == 'ci':
                base = self.load(st, mk('mref', loc, *ps))
                ps.append(('i', sub(length(base), I(e[1])) if e[3] else I(e[1])))
            elif e[0] == 'sub':
                base = self.load(st, mk('mref', loc, *ps))
                ps.append(('sl', I(e[1]), sub(length(base), I(e[2])) if e[3] else I(e[2])))
            else:
                raise Budget('place %r' % (e,))
        return mk('mref', loc, *ps)

    def read(self, st, fr, pl):
        v = st.heap.get(mk('loc', fr.fid, pl[0]), UNINIT)
        dv = None
        for e in pl[1]:
            if e == '*':
                if v.op == 'mref': v = self.load(st, v)
                dv = None
            elif e[0] == 'd':
                dv = e[1]
            elif e[0] == 'f':
                if v.op == 'mref' and dv is not None: v = self.load(st, v)
                v = fld(v, e[1]) if dv is None else vf(v, dv, e[1])
                dv = None
            elif e[0] == 'i':
                v = index(v, self.read(st, fr, [e[1], []]))
            elif e[0] == 'ci':
                v = index(v, sub(length(v), I(e[1])) if e[3] else I(e[1]))
            elif e[0] == 'sub':
                v = slice_(v, I(e[1]), sub(length(v), I(e[2])) if e[3] else I(e[2]))
            else:
                raise Budget('place %r' % (e,))
        return v

    def write(self, st, fr, pl, x):
        if not pl[1]:
            st.heap[mk('loc', fr.fid, pl[0])] = x
        else:
            self.store(st, self.ref_place(st, fr, pl), x)

    # ----------------------------------------------------------- operands
    def operand(self, st, fr, o):
        if 'c' in o: return self.read(st, fr, o['c'])
        if 'm' in o: return self.read(st, fr, o['m'])
        if 'k' in o: return self.const(st, fr, o['k'])
        return FALSE     # runtime checks off

    def const(self, st, fr, k):
        if 'fn' in k:
            f = k['fn']
            return self.fnval(f)
        if 'promoted' in k:
            return self.promoted(fr, k)
        ty = self.db.tys[k['ty']]
        v = k['v']
        if 'i' in v: return self.intconst(int(v['i']), ty)
        if 'str' in v: return lit(v['str'])
        if 'bytes' in v: return lit(bytes(v['bytes']))
        if 'zst' in v:
            if ty['k'] == 'closure': return mk('clo', ty['def'], ty.get('inst'))
            if ty['k'] == 'fndef': return self.fnval(ty['fn'])
            if ty['k'] == 'adt': return self.unit_adt(ty)
            return UNIT
        if 'pbytes' in v:
            b = v['pbytes']
            to = ty
            while to['k'] == 'ref': to = self.db.tys[to['to']]
            if to['k'] in ('array', 'slice', 'str'):
                et = self.db.tys[to['to']] if 'to' in to else None
                if et is None or et.get('w') == 8: return lit(bytes(b))
                w = (et.get('w') or 64) // 8
                return seq(*[self.intconst(int.from_bytes(bytes(b[i:i+w]), 'little'), et) for i in range(0, len(b), w)])
            if to['k'] in ('int', 'uint', 'float', 'bool', 'char'):
                return self.intconst(int.from_bytes(bytes(b), 'little'), to)
            return mk('kconst', bytes(b), ty['s'])
        if 'static' in v: return mk('static', v['static'])
        if 'fnptr' in v: return mk('fnptr', v['fnptr'])
        return mk('kconst', str(sorted(v.items())), k.get('name') or ty['s'])

    def unit_adt(self, ty):
        a = self.db.adt.get(ty['path'])
        if a and a['variants'] and a['kind'] != 'union':
            v = a['variants'][0]
            return adt(ty['path'], v['name'], 0, int(v['discr'] or 0), *[UNIT for _ in v['fields']])
        return UNIT

    def intconst(self, n, ty):
        k = ty['k']
        if k == 'float':
            return mk('flt', n)
        if k == 'int':
            w = ty['w']
            if n >> (w - 1): n -= 1 << w
        if k == 'adt':
            # scalar constant of an enum / newtype
            a = self.db.adt.get(ty['path'])
            if a and a['kind'] == 'enum':
                for i, v in enumerate(a['variants']):
                    if v['discr'] is not None and int(v['discr']) == n and not v['fields']:
                        return adt(ty['path'], v['name'], i, n)
            return mk('kconst', n, ty['s'])
        return I(n)

    def fnval(self, f):
        if f.get('ctor'):
            return mk('ctor', f['ctor'][0], f['ctor'][1] if len(f['ctor']) > 1 and f['ctor'][1] is not None else '')
        key = (f['path'], f.get('ipath'), f.get('inst'), tuple(f.get('args') or ()))
        self.db.fnrefs[key] = f
        return mk('fn', *key)

    def promoted(self, fr, k):
        of = k.get('of')
        body = None
        insts = self.db.insts
        owner = fr.inst if of is None else self.db.by_promo_owner(of, fr.inst)
        body = owner['promoted'][k['promoted']]
        memo = self.db.promo_memo
        key = (owner['id'], k['promoted'])
        if key in memo: return memo[key]
        st = St()
        f = self.frame(dict(owner, **{'blocks': body['blocks'], 'locals': body['locals']}), ())
        outs = self.run_blocks(f, st, 0, None)
        rets = [o for o in outs if o[0] == 'ret']
        v = rets[0][2] if len(rets) == 1 else mk('kconst', 'promoted', k['promoted'])
        if v.op == 'mref': v = rets[0][1].heap.get(v.a[0], v)
        memo[key] = v
        return v

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, pl):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k == 'ref':
            if r[2]: return self.ref_place(st, fr, r[1])
            return self.read(st, fr, r[1])
        if k == 'discr':
            v = self.read(st, fr, r[1])
            ty = self.place_ty(fr, r[1])
            return self.discr(v, ty)
        if k == 'agg': return self.aggregate(st, fr, r)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(r[1], v, self.db.tys[r[3]], self.db.tys[r[4]] if len(r) > 4 else None)
        if k == 'bin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(r[1], a, b, self.db.tys[r[4]])
        if k == 'un':
            return self.unop(r[1], self.operand(st, fr, r[2]), r)
        if k == 'repeat':
            x = self.operand(st, fr, r[1])
            n = r[2]
            if isinstance(n, dict): n = self.const(st, fr, n)
            n = I(int(n)) if not isinstance(n, T) else n
            return repeat(x, n)
        if k == 'setdiscr':
            v = self.read(st, fr, pl)
            ty = self.place_ty(fr, pl)
            a = self.db.adt.get(ty.get('path')) if ty else None
            if a:
                vv = a['variants'][r[1]]
                if v.op == 'adt': return mk('adt', a['path'], vv['name'], r[1], int(vv['discr'] or 0), *v.a[4:])
                return adt(a['path'], vv['name'], r[1], int(vv['discr'] or 0))
            return v
        if k == 'tls': return mk('static', str(r[1]))
        return mk('app', 'rv:' + str(k))

    def discr(self, v, ty):
        if v.op == 'adt': return I(v.a[3])
        if v.op == 'cmp': return mk('cmpd', *v.a)
        if v.op == 'vupd': return self.discr(v.a[0], ty)
        vals = ()
        if ty and ty.get('k') == 'adt':
            a = self.db.adt.get(ty['path'])
            if a: vals = tuple(int(x['discr']) if x['discr'] is not None else i for i, x in enumerate(a['variants']))
        if vals: DISCVALS.setdefault(v, vals)
        return mk('disc', v, vals)

    def place_ty(self, fr, pl):
        t = self.db.tys[fr.inst['locals'][pl[0]]]
        var = 0
        for e in pl[1]:
            if t is None: return None
            if e == '*':
                if t['k'] in ('ref', 'ptr'): t = self.db.tys[t['to']]
                elif t['k'] == 'adt' and t['args']: t = self.db.tys[t['args'][0]]
                else: return None
            elif e[0] == 'f':
                t = self.db.tys[e[2]] if len(e) > 2 and e[2] is not None else None
            elif e[0] == 'd':
                pass
            elif e[0] in ('i', 'ci'):
                t = self.db.tys[t['to']] if 'to' in t else None
            else: return t
        return t

    def aggregate(self, st, fr, r):
        kd = r[1]
        ops = [self.operand(st, fr, o) for o in r[2]]
        k = kd[0] if isinstance(kd, list) else kd
        if k == 'tuple': return mk('tup', *ops)
        if k == 'array': return cat(*[mk('cat', one(o)) for o in ops]) if not all(o.op == 'int' and 0 <= o.a[0] < 256 for o in ops) else seq(*ops)
        if k == 'closure':
            return mk('clo', kd[1], kd[2] if len(kd) > 2 else None, *ops)
        if k == 'adt':
            path, vi = kd[1], kd[2]
            a = self.db.adt.get(path)
            if a is None: return adt(path, '', vi, vi, *ops)
            if a['kind'] == 'union': return ops[0]
            v = a['variants'][vi]
            return adt(path, v['name'], vi, int(v['discr']) if v['discr'] is not None else vi, *ops)
        if k == 'rawptr': return ops[0]
        return mk('app', 'agg:' + str(kd), *ops)

    def cast(self, kind, v, to, frm):
        if frm is None: return v
        if kind.startswith('Pointer') or kind.startswith('PtrToPtr') or 'Transmute' in kind or kind in ('FnPtrToPtr',):
            if kind.startswith('Pointer') and v.op in ('fn', 'clo', 'ctor'): return v
            if to['k'] in ('int', 'uint', 'float') and frm['k'] in ('int', 'uint', 'float'):
                return retag(v, frm, to)
            return v
        return num_cast(v, frm, to)

    def unop(self, op, v, r):
        if op == 'Not':
            ty = self.db.tys[r[3]] if len(r) > 3 and isinstance(r[3], int) else None
            if ty is not None and ty['k'] != 'bool':
                if is_int(v) and ty['k'] == 'uint': return I((~v.a[0]) & ((1 << ty['w']) - 1))
                return mk('app', 'bnot', v)
            return not_(v)
        if op == 'Neg':
            if v.op == 'flt' or (len(r) > 3 and isinstance(r[3], int) and self.db.tys[r[3]]['k'] == 'float'): return mk('app', 'fneg', v)
            return mulc(v, -1)
        if op == 'PtrMetadata': return length(v)
        return mk('app', 'un:' + op, v)

    def binop(self, op, a, b, ty):
        return binop(op, a, b, ty)

    # ---------------------------------------------------------- execution
    def frame(self, inst, stack):
        f = Frame()
        self.nf += 1
        f.fid, f.inst, f.stack, f.unroll = self.nf, inst, stack, {}
        return f

    def call_inst(self, st, inst, args, stack, spread=False):
        if len(stack) > 40: raise Budget('inline depth')
        self.fns.add(inst['path'])
        fr = self.frame(inst, stack + (inst['id'],))
        n = inst['argc']
        if len(args) < n and args and args[-1].op == 'tup':
            args = list(args[:-1]) + list(args[-1].a)
        for i in range(n):
            st.heap[mk('loc', fr.fid, i + 1)] = args[i] if i < len(args) else UNINIT
        outs = self.run_blocks(fr, st, 0, None)
        for k, s, v in outs:
            for loc in [l for l in s.heap if l.a[0] == fr.fid]:
                del s.heap[loc]
        return outs

    def run_blocks(self, fr, st, start, region):
        """region: None or (header, blockset). returns outcomes"""
        inst = fr.inst
        B = inst['blocks']
        loops = natural_loops(inst)
        outs = []
        work = [(start, st, region is not None)]
        while work:
            bb, s, atstart = work.pop()
            self.steps += 1
            if self.steps > self.db.step_limit: raise Budget('steps')
            if len(outs) > self.max_out: raise Budget('paths in ' + inst['path'])
            if region is not None and not atstart:
                if bb == region[0]:
                    outs.append(('back', s, None)); continue
                if bb not in region[1]:
                    outs.append(('exit', s, bb)); continue
            if bb in loops and not (atstart and region is not None and bb == region[0]):
                cnt = fr.unroll.get(bb, 0)
                res = None
                if cnt < 5000:
                    res = self.mir_loop(fr, s, bb, loops[bb])
                if res is not None:
                    for k, s2, p in res:
                        if k == 'exit': work.append((p, s2, False))
                        else: outs.append((k, s2, p))
                    continue
                fr.unroll[bb] = cnt + 1
            b = B[bb]
            for stt in b['s']:
                self.write(s, fr, stt[0], self.rvalue(s, fr, stt[1], stt[0]))
            t = b['t']
            k = t[0]
            if k == 'goto':
                work.append((t[1], s, False))
            elif k == 'return':
                outs.append(('ret', s, s.heap.get(mk('loc', fr.fid, 0), UNIT)))
            elif k == 'switch':
                for s2, tgt in self.switch(s, fr, t):
                    work.append((tgt, s2, False))
            elif k == 'drop':
                v = self.read(s, fr, t[1])
                self.drop(s, v, (inst['path'], b.get('l')))
                work.append((t[2], s, False))
            elif k == 'assert':
                c = self.operand(s, fr, t[1])
                exp = t[2]
                c2 = c if exp else not_(c)
                if is_int(c2):
                    if c2.a[0]: work.append((t[4], s, False))
                    else:
                        outs.append(('panic', s, mk('panic', 'assert:' + str(t[3]), inst['path'])))
                else:
                    tr = s.f.truth(c2)
                    if tr == 0:
                        outs.append(('panic', s, mk('panic', 'assert:' + str(t[3]), inst['path'])))
                    else:
                        if tr is None:
                            s.ev += (Ev('assert', str(t[3]), (c2,), None, (inst['path'], b.get('l')), s.held, s.f.copy() if t[3] != 'other' else None),)
                            if 'ounds' in str(t[3]): s.f.assume(c2, 1)
                        work.append((t[4], s, False))
            elif k == 'call':
                for kk, s2, v in self.do_call(s, fr, b, t):
                    if kk == 'ret':
                        if t[4] is not None and t[4] >= 0:
                            self.write(s2, fr, t[3], v)
                            work.append((t[4], s2, False))
                        else:
                            outs.append(('diverge', s2, v))
                    else:
                        outs.append((kk, s2, v))
            elif k == 'unreachable':
                pass
            else:
                outs.append(('diverge', s, UNIT))
        return outs

    def switch(self, s, fr, t):
        v = self.operand(s, fr, t[1])
        ty = self.db.tys[t[4]]
        return self.switch_on(s, v, [(int(a), b) for a, b in t[2]], t[3], ty)

    def switch_on(self, s, v, arms, other, ty):
        if v.op == 'ite':
            out = []
            for c, val in ((1, v.a[1]), (0, v.a[2])):
                s2 = s.copy()
                if s2.f.assume(v.a[0], c): out += self.switch_on(s2, val, arms, other, ty)
            return out
        if v.op == 'cmpd':
            a, b = v.a
            out = []
            rels = {255: lt(a, b), 0: ieq(a, b), 1: lt(b, a)}
            rest = dict(rels)
            for val, bb in arms:
                rest.pop(val & 255, None)
                s2 = s.copy()
                if s2.f.assume(rels[val & 255], 1): out.append((s2, bb))
            if other is not None:
                for val, c in rest.items():
                    s2 = s.copy()
                    if s2.f.assume(c, 1): out.append((s2, other))
            return out
        if v.op == 'int':
            n = v.a[0]
            for val, bb in arms:
                w = ty.get('w')
                if val == n or (n < 0 and w and val == n + (1 << w)): return [(s, bb)]
            return [(s, other)]
        if v.op == 'disc':
            t0, vals = v.a
            if t0.op in ('and', 'or', 'not', 'lt', 'ieq'): pass
            out = []
            listed = [a for a, _ in arms]
            for val, bb in arms:
                if s.f.d.get(t0, val) != val or val in s.f.dn.get(t0, ()): continue
                s2 = s.copy()
                if s2.f.assume_disc(t0, val): out.append((s2, bb))
            if other is not None:
                rest = [x for x in vals if x not in listed]
                cur = s.f.d.get(t0)
                if vals and not rest: return out
                if cur is not None:
                    if cur not in listed: out.append((s, other))
                    return out
                s2 = s.copy()
                if len(rest) == 1:
                    if s2.f.assume_disc(t0, rest[0]): out.append((s2, other))
                else:
                    good = all(s2.f.exclude_disc(t0, a) for a in listed)
                    if good:
                        if vals:
                            left = [x for x in rest if x not in s2.f.dn.get(t0, ())]
                            if not left: return out
                            if len(left) == 1: s2.f.assume_disc(t0, left[0])
                        out.append((s2, other))
            return out
        if ty['k'] == 'bool':
            tr = s.f.truth(v)
            m = dict(arms)
            def tgt(x): return m.get(x, other)
            if tr is not None: return [(s, tgt(tr))]
            out = []
            for x in (0, 1):
                for f in s.f.cases(v, x):
                    s2 = s.copy()
                    s2.f = f
                    out.append((s2, tgt(x)))
            return out
        out = []
        s0 = s.copy()
        alive = True
        if ty['k'] in ('uint', 'char'): declare_unsigned(v)
        for val, bb in arms:
            if ty['k'] == 'int' and val >> (ty['w'] - 1): val -= 1 << ty['w']
            s2 = s0.copy()
            if s2.f.assume(ieq(v, I(val)), 1): out.append((s2, bb))
            if not s0.f.assume(ieq(v, I(val)), 0): alive = False; break
        if alive: out.append((s0, other))
        return out

    # ------------------------------------------------------------- effects
    def event(self, st, name, args, site=None, kind='call', x=None, pure=False):
        args = tuple(args)
        k = 0
        if not pure:
            k = count_events(st.ev, name, args)
        res = mk('res', name, args, k)
        st.ev = st.ev + (Ev(kind, name, args, res, site, st.held, x),)
        return res

    def note(self, st, kind, name, args=(), site=None, x=None):
        st.ev = st.ev + (Ev(kind, name, tuple(args), None, site, st.held, x),)

    def drop(self, st, v, site):
        for g in guards_in(v):
            self.unlock(st, g, site)
        if v.op == 'app' and v.a[0] == 'bufw':
            self.note(st, 'drop', 'BufWriter', v.a[1:], site)

    def unlock(self, st, g, site):
        h = [x for x in st.held if x is g]
        if h:
            st.held = tuple(x for x in st.held if x is not g)
            x = st.heap.get(mk('loc', 'lock', g.a[0])) if g.a[1] == 'w' else None
            st.ev = st.ev + (Ev('unlock', g.a[1], (g.a[0],), g, site, st.held, x),)

    # ---------------------------------------------------------------- calls
    def do_call(self, s, fr, b, t):
        args = [self.operand(s, fr, o) for o in t[2]]
        site = (fr.inst['path'], b.get('l'))
        f = t[1]
        ctx = {'argtys': t[5] if len(t) > 5 else None, 'retty': t[6] if len(t) > 6 else None, 'fr': fr, 'site': site}
        if 'k' in f and 'fn' in f['k']:
            return self.call_fnref(s, f['k']['fn'], args, fr.stack, ctx)
        fv = self.operand(s, fr, f)
        return self.call_value(s, fv, args, fr.stack, ctx)

    def call_value(self, s, f, args, stack, ctx=None):
        ctx = ctx or {'argtys': None, 'retty': None, 'fr': None, 'site': None}
        self_arg = f
        if f.op == 'mref':
            g = self.load(s, f)
        else:
            g = f
        if g.op == 'mref': g = self.load(s, g)
        if g.op == 'pyfn':
            return self.db.pyfns[g.a[0]](self, s, args)
        if g.op == 'clo':
            inst = self.db.closure_inst(g)
            if inst is None: return [('ret', s, mk('app', 'call', g, *args))]
            if inst['id'] in stack and stack.count(inst['id']) > 2: raise Budget('closure recursion')
            env = self_arg
            t1 = self.db.tys[inst['locals'][1]] if len(inst['locals']) > 1 else None
            if t1 and t1['k'] == 'ref' and t1.get('mut') and env.op != 'mref':
                env = self.new_loc(s, g)
            return self.call_inst(s, inst, [env] + list(args), stack)
        if g.op == 'fn':
            fr = self.db.fnrefs.get(g.a)
            if fr: return self.call_fnref(s, fr, args, stack, ctx)
        if g.op == 'ctor':
            return [('ret', s, self.ctor(g, args))]
        if g.op == 'app' and g.a[0] == 'boxedfn':
            return self.call_value(s, g.a[1], args, stack, ctx)
        return [('ret', s, mk('app', 'callv', g, *args))]

    def ctor(self, g, args):
        path, var = g.a
        a = self.db.adt.get(path)
        if a is None: return adt(path, str(var), 0, 0, *args)
        for i, v in enumerate(a['variants']):
            if v['name'] == var or i == var or (var == '' and len(a['variants']) == 1):
                return adt(path, v['name'], i, int(v['discr']) if v['discr'] is not None else i, *args)
        return adt(path, str(var), 0, 0, *args)

    def call_fnref(self, s, f, args, stack, ctx):
        self.ncalls += 1
        if f.get('ctor'):
            return [('ret', s, self.ctor(self.fnval(f), args))]
        name = norm(f['path'])
        iname = norm(f.get('ipath')) if f.get('ipath') else name
        if name in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call') :
            a = list(args[1].a) if len(args) > 1 and args[1].op == 'tup' else list(args[1:])
            return self.call_value(s, args[0], a, stack, ctx)
        inst = self.db.insts.get(f.get('inst')) if f.get('inst') is not None else None
        c = self.cut(f, name, iname, inst)
        if c:
            return self.models.cut_event(self, s, f, name if c is True else c, args, ctx)
        proto = inst is not None and inst['local'] and 'proto/' in (inst['file'] or '') and (f.get('trait') or '').split('<')[0].split('::')[-1] in ('Message', 'Clone')
        if inst is None or not inst['local'] or proto:
            m = self.models.lookup(iname, name, f)
            if m is not None:
                r = m(self, s, args, dict(ctx, f=f, name=name, iname=iname, stack=stack))
                if r is not None:
                    return r if isinstance(r, list) else [('ret', s, r)]
        if inst is not None:
            if inst['id'] in stack:
                r = self.event(s, 'rec:' + inst['path'], args, ctx.get('site'), kind='rec')
                return [('ret', s, r)]
            outs = self.call_inst(s, inst, args, stack)
            if name == 'Clone::clone' and inst['local']:
                v0 = self.load(s, args[0]) if args[0].op == 'mref' else args[0]
                outs = [(k, s2, v0 if k == 'ret' and eta(v, v0) else v) for k, s2, v in outs]
            return outs
        if f['ikind'] in ('unresolved', 'virtual'):
            if not args and f.get('args'): args = [mk('ty', self.db.tys[f['args'][0]].get('s', '?'))]
            return self.models.cut_event(self, s, f, name, args, ctx)
        return self.unknown(s, f, iname, args, ctx)

    def unknown(self, s, f, name, args, ctx):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        return self.opaque_call(s, name, args, ctx)

    def opaque_call(self, s, name, args, ctx):
        """unmodelled extern function: pure unless it takes a mutable reference"""
        vals, muts = [], []
        for a in args:
            if a.op == 'mref':
                muts.append(a); vals.append(self.load(s, a))
            else: vals.append(a)
        if muts:
            r = self.event(s, name, vals, ctx.get('site'), kind='ext')
            for i, m in enumerate(muts):
                self.store(s, m, mk('app', 'mut:%s:%d' % (name, i), r))
            return [('ret', s, r)]
        return [('ret', s, mk('app', name, *vals))]

    # ---------------------------------------------------------------- loops
    def mir_loop(self, fr, st, header, blocks):
        def run(s): return self.run_blocks(fr, s, header, (header, blocks))
        return self.summarise(st, run, (fr.inst['path'], fr.inst['blocks'][header].get('l')), unroll_ok=fr.unroll.get(header, 0) < 80, decided=lambda: self.guard_decided(fr, st, header))

    def guard_decided(self, fr, st, header):
        """the loop condition is a comparison of constants in this state"""
        s, bb = st.copy(), header
        for _ in range(4):
            b = fr.inst['blocks'][bb]
            for stt in b['s']: self.write(s, fr, stt[0], self.rvalue(s, fr, stt[1], stt[0]))
            if b['t'][0] == 'switch': return is_int(self.operand(s, fr, b['t'][1]))
            if b['t'][0] != 'goto': return False
            bb = b['t'][1]
        return False

    def summarise(self, st, run, site, unroll_ok=True, decided=None):
        """returns outcomes, or None when the caller should unroll one step"""
        self.nl += 1
        L = self.nl
        base = dict(st.heap)
        n0 = len(st.ev)
        M = {}
        override = {}
        outs = None
        gsrc = {}
        for rnd in range(25):
            S = st.copy()
            gsrc.clear()
            conc = self.generalise(S, M, L, override, gsrc)
            if conc and unroll_ok: return None
            g0 = dict(S.heap)
            outs = self.runL(run, S, L)
            new = {}
            consts = bool(M == {})
            for k, s, p in outs:
                if k != 'back': continue
                for loc in base:
                    a, b = g0[loc], s.heap.get(loc, UNINIT)
                    if a is not b:
                        for path in diffs(a, b):
                            if not covered(M, loc, path): new[(loc, path)] = True
            if rnd == 0 and unroll_ok:
                kinds = set(k for k, _, _ in outs)
                if 'back' in kinds and 'exit' not in kinds and 'ret' not in kinds:
                    # decided guard: unroll when driven by integer constants
                    for (loc, path) in new:
                        a = getp(g0[loc], path)
                        bs = [getp(s.heap.get(loc, UNINIT), path) for k, s, p in outs if k == 'back']
                        if a.op == 'int' and all(x.op == 'int' and x is not a for x in bs): return None
                backs = [s for k, s, p in outs if k == 'back']
                if len(backs) == 1 and len(kinds) > 1 and decided is not None:
                    # the same with other ways out
                    for (loc, path) in new:
                        a, x = getp(g0[loc], path), getp(backs[0].heap.get(loc, UNINIT), path)
                        if a.op == 'int' and x.op == 'int' and x is not a and decided(): return None
                if kinds and 'back' not in kinds:
                    # leaves on every path: no iteration
                    return [(k, s, p) for k, s, p in outs]
            if not new: break
            for c in new:
                M[c] = True
            # prefixes subsume
            for (loc, path) in list(M):
                for (l2, p2) in list(M):
                    if l2 is loc and p2 != path and path[:len(p2)] == p2:
                        M.pop((loc, path), None)
        else:
            raise Budget('loop fixpoint')
        return self.finish_loop(st, run, L, M, outs, base, n0, gsrc, site)

    def runL(self, run, S, L):
        outs = []
        for k, s, p in run(S):
            if k == 'skip' and p == L: k = 'back'
            outs.append((k, s, p))
        return outs

    def generalise(self, S, M, L, override, gsrc):
        conc = False
        for (loc, path) in M:
            v = S.heap.get(loc, UNINIT)
            cur = getp(v, path)
            if (loc, path) in override:
                nv = override[(loc, path)]
            elif cur.op == 'it':
                nv, c = genit(cur, L, gsrc)
                conc = conc or c
            else:
                nv = mk('hdr', L, loc, path)
            S.heap[loc] = setp(v, path, nv)
        return conc

    def finish_loop(self, st, run, L, M, outs, base, n0, gsrc, site):
        ishdr = lambda t: t.op == 'hdr' and t.a[0] == L
        f0 = st.f
        # choose the source
        src = None
        for k, s, p in outs:
            for fl in s.flags:
                if fl[0] == 'exh' and fl[1] == L: src = fl[2]
        counter = None
        exh_outs = None
        if src is None:
            counter = self.find_counter(st, M, L, outs, ishdr)
            if counter is not None:
                (cell, a0, B, h) = counter
                src = mk('range', a0, B)
                e = el(src)
                S = st.copy()
                g2 = {}
                self.generalise(S, M, L, {cell: e}, g2)
                NONNEG.add(e)
                S.f.assume(lt(e, B), 1); S.f.assume(lt(e, a0), 0)
                exh_outs = []
                for k, s, p in outs:
                    if k != 'back' and implies_ge(s.f, h, B, f0):
                        exh_outs.append((k, s, p))
                outs2 = self.runL(run, S, L)
                it_outs = [o for o in outs2]
            else:
                src = mk('while', L)
        if exh_outs is None:
            exh_outs = [(k, s, p) for k, s, p in outs if k != 'back' and any(fl[0] == 'exh' and fl[1] == L and fl[2] is src for fl in s.flags)]
            it_outs = [(k, s, p) for k, s, p in outs if (k, s, p) not in exh_outs]
            if src.op == 'while':
                exh_outs = []
        # every element already went through an earlier complete loop over the same sequence
        for e in st.ev:
            if e.kind == 'loop' and e.x.src is src and src.op != 'while' and not e.x.partial and e.x.paths and len(e.x.paths) <= 8:
                prior = [[x for x in d if not any(mentions(t, lambda y: y.op == 'hdr' and y.a[0] == getattr(e.x, 'L', None)) for t in ([x[1]] if isinstance(x[1], T) else [q for q, _ in x[1]]))] for d, es, v in e.x.paths]
                if any(not d for d in prior): continue
                it_outs = [(k, s, p) for k, s, p in it_outs if any(apply_facts(s.f.copy(), d) for d in prior)]
        backs = [(s, p) for k, s, p in it_outs if k == 'back']
        early = [(k, s, p) for k, s, p in it_outs if k != 'back']
        # iteration record
        paths = []
        Gf = st.f
        for s, p in backs:
            d = delta(s.f, Gf)
            vals = {}
            for (loc, path) in M:
                vals[(loc, path)] = getp(s.heap.get(loc, UNINIT), path)
            paths.append((d, s.ev[n0:], vals))
        # closed forms
        full, part = {}, {}
        for cell in M:
            loc, path = cell
            init = getp(base[loc], path)
            if init.op == 'it':
                continue
            h = mk('hdr', L, loc, path)
            if counter is not None and cell == counter[0]:
                full[h] = counter[2]
                continue
            full[h] = closed(src, init, h, paths, cell)
            part[h] = closed(mk('prefix', src), init, h, paths, cell) if src.op != 'while' else full[h]
        # mutual references between closed forms
        for m in (full, part):
            for _ in range(3):
                for h in list(m):
                    if mentions(m[h], lambda t: ishdr(t) and t in m and t is not h):
                        m[h] = subst(m[h], {k: v for k, v in m.items() if k is not h})
        rec_paths = [(d, evs, {c: v for c, v in vals.items()}) for d, evs, vals in paths]
        results = []
        for partial, group, m in ((False, exh_outs, full), (True, early, part)):
            for k, s, p in group:
                s2 = s.copy()
                memo = {}
                if m:
                    for loc in s2.heap:
                        v = s2.heap[loc]
                        nv = subst(v, m, memo)
                        if nv is not v: s2.heap[loc] = nv
                    if isinstance(p, T): p = subst(p, m, memo)
                    s2.f = subst_F(s2.f, m, ishdr)
                # iterator cells
                for (loc, path) in M:
                    if loc in s2.heap:
                        cur = getp(s2.heap[loc], path)
                        if cur.op == 'it':
                            s2.heap[loc] = setp(s2.heap[loc], path, ungen(cur, L, partial))
                tail = tuple(subst_ev(e, m, memo) for e in s.ev[n0:])
                if not partial:
                    s2.f = drop_el(s2.f, st.f, src)
                rec = LoopRec(src, rec_paths, partial, site)
                rec.exitf, rec.closed = s.f, m
                rec.init = {c: getp(base[c[0]], c[1]) for c in M}
                rec.exitv = {c: getp(s.heap.get(c[0], UNINIT), c[1]) for c in M}
                rec.L = L
                s2.ev = st.ev + (Ev('loop', 'loop', (), None, site, st.held, rec),) + tail
                s2.flags = frozenset(fl for fl in s.flags if not (fl[0] in ('exh', 'gen') and fl[1] == L))
                results.append((k, s2, p))
        if not results:
            s2 = st.copy()
            rec = LoopRec(src, rec_paths, False, site)
            s2.ev = st.ev + (Ev('loop', 'loop', (), None, site, st.held, rec),)
            results.append(('diverge', s2, UNIT))
        return results

    def find_counter(self, st, M, L, outs, ishdr):
        for cell in M:
            loc, path = cell
            init = getp(st.heap[loc], path)
            h = mk('hdr', L, loc, path)
            good = True
            nb = 0
            for k, s, p in outs:
                if k == 'back':
                    nb += 1
                    v = getp(s.heap.get(loc, UNINIT), path)
                    if v is not add(h, I(1)): good = False
            if not good or not nb: continue
            # bound: h < B on every back path, with B loop-invariant
            cands = None
            for k, s, p in outs:
                if k != 'back': continue
                bs = set()
                for key, (lo, hi) in s.f.z.items():
                    if st.f.z.get(key) == (lo, hi): continue
                    km = dict(key)
                    if h in km and abs(km[h]) == 1:
                        # h*c + rest in [lo,hi]
                        rest = {x: v for x, v in km.items() if x is not h}
                        if any(mentions(x, ishdr) for x in rest): continue
                        c = km[h]
                        if c == 1 and hi < INF:     # h <= hi - rest
                            B = add(sub(I(int(hi)), mklin(0, rest)), I(1)); bs.add(B)
                        if c == -1 and lo > -INF:   # rest - h >= lo
                            B = add(sub(mklin(0, rest), I(int(lo))), I(1)); bs.add(B)
                cands = bs if cands is None else cands & bs
            for B in sorted(cands or (), key=lambda t: t.id):
                if any(k != 'back' and implies_ge(s.f, h, B, st.f) for k, s, p in outs):
                    return (cell, init, B, h)
        return None

    # python-driven loops (iterator consumers)
    def consume(self, st, it, step, acc=(), site=None, stack=()):
        """drive iterator value `it`; step(self, st, elem, accrefs) -> outcomes
        ('cont'|'break'|'panic'..., st, val). acc: initial accumulator values.
        returns outcomes ('done'|'break'|..., st, (val, accvals))"""
        cell = self.new_loc(st, it, 'it')
        accs = [self.new_loc(st, a, 'acc') for a in acc]
        def run(s):
            out = []
            for k, s2, e in self.models.next_it(self, s, cell, stack):
                if k == 'none': out.append(('exit', s2, mk('done')))
                elif k == 'some':
                    for kk, s3, v in step(self, s2, e, accs):
                        if kk == 'cont': out.append(('back', s3, None))
                        elif kk == 'break': out.append(('exit', s3, mk('brk', v)))
                        else: out.append((kk, s3, v))
                else: out.append((k, s2, e))
            return out
        pend = [st]
        res = []
        n = 0
        while pend:
            s = pend.pop()
            r = self.summarise(s, run, site)
            if r is None:
                n += 1
                if n > 300: raise Budget('unroll')
                for k, s2, p in run(s):
                    if k == 'back' : pend.append(s2)
                    elif k == 'skip': pend.append(s2) if p is None else res.append((k, s2, p))
                    else: res.append((k, s2, p))
            else:
                res.extend(r)
        out = []
        for k, s, p in res:
            if k == 'exit':
                vals = [self.load(s, a) for a in accs]
                left = self.load(s, cell)
                for a in accs + [cell]: s.heap.pop(a.a[0], None)
                if p.op == 'done': out.append(('done', s, vals, left, None))
                else: out.append(('break', s, vals, left, p.a[0]))
            else:
                out.append((k, s, p, None, None))
        return out

# ------------------------------------------------------------------ helpers
def count_events(evs, name, args):
    k = 0
    for e in evs:
        if e.kind == 'loop':
            for d, es, v in e.x.paths:
                k += count_events(es, name, args)
        elif e.name == name and e.args == args and e.kind in ('call', 'rec', 'ext'):
            k += 1
    return k

def eta(v, x):
    """v rebuilds x field by field"""
    if v is x: return True
    if v.op != 'adt' or len(v.a) == 4: return False
    if x.op == 'adt': return False
    return all(eta(y, fld(x, i)) if not (len(v.a) > 4 and v.a[2]) else eta(y, vf(x, v.a[2], i)) for i, y in enumerate(v.a[4:]))

def guards_in(v):
    if v.op == 'guard': return [v]
    if v.op in ('adt', 'tup', 'clo', 'upd'):
        out = []
        for x in v.a:
            if isinstance(x, T): out += guards_in(x)
        return out
    return []

def diffs(a, b, path=()):
    if a is b: return []
    if a.op == 'adt' and b.op == 'adt' and a.a[:4] == b.a[:4] and len(a.a) == len(b.a):
        r = []
        for i in range(4, len(a.a)):
            r += diffs(a.a[i], b.a[i], path + (('f', i - 4),))
        return r
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        r = []
        for i in range(len(a.a)): r += diffs(a.a[i], b.a[i], path + (('f', i),))
        return r
    if a.op == 'clo' and b.op == 'clo' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        r = []
        for i in range(2, len(a.a)): r += diffs(a.a[i], b.a[i], path + (('f', i - 2),))
        return r
    ua, ub = updmap(a), updmap(b)
    if (a.op == 'upd' or b.op == 'upd') and ua[0] is ub[0]:
        r = []
        for i in sorted(set(ua[1]) | set(ub[1])):
            r += diffs(fld(a, i), fld(b, i), path + (('f', i),))
        return r
    return [path]

def updmap(t):
    m = {}
    while t.op == 'upd':
        m.setdefault(t.a[1], t.a[2]); t = t.a[0]
    return t, m

def getp(v, path):
    for k, i in path: v = fld(v, i)
    return v

def setp(v, path, x):
    if not path: return x
    i = path[0][1]
    return set_f(v, i, setp(fld(v, i), path[1:], x))

def covered(M, loc, path):
    for n in range(len(path) + 1):
        if (loc, path[:n]) in M: return True
    return False

def genit(it, L, gsrc):
    """generalise iterator value; -> (value, is_concrete)"""
    k = it.a[0]
    if k == 'src':
        s = it.a[1]
        if concrete_elems(s) is not None or (s.op == 'range' and is_int(s.a[0]) and is_int(s.a[1]) and s.a[1].a[0] - s.a[0].a[0] <= 128):
            return it, True
        if s.op == 'rev' and s.a[0].op == 'range' and is_int(s.a[0].a[0]) and is_int(s.a[0].a[1]) and s.a[0].a[1].a[0] - s.a[0].a[0].a[0] <= 128: return it, True
        gsrc[s] = True
        return mk('it', 'gen', L, s), False
    if k == 'gen':
        return mk('it', 'gen', L, it.a[2]), False
    conc = False
    a = []
    for x in it.a:
        if isinstance(x, T) and x.op == 'it':
            x, c = genit(x, L, gsrc)
            conc = conc or c
        a.append(x)
    return mk('it', *a), conc

def ungen(it, L, partial):
    if it.op != 'it': return it
    if it.a[0] == 'gen' and it.a[1] == L:
        return mk('it', 'src', mk('suffix', it.a[2]) if partial else EMPTY)
    return mk('it', *[ungen(x, L, partial) if isinstance(x, T) else x for x in it.a])

def implies_ge(f, h, B, f0):
    lo, hi = f.rel(h, B)
    return lo >= 0

def subst_F(f, m, ishdr):
    items = f.items()
    touched = False
    g = Facts()
    for k, t, v in items:
        if k in ('d', 'b', 'dn'):
            if mentions(t, ishdr):
                touched = True; break
        elif any(mentions(x, ishdr) for x, _ in t):
            touched = True; break
    if not touched: return f
    fs = subst_facts(items, m)
    if not apply_facts(g, fs):
        # closed forms may subsume; keep only untouched facts
        return drop_mentioning(f, ishdr)
    return g

def drop_el(f, f0, src):
    """forget facts about the generic element on normal loop exit"""
    e = el(src) if src.op != 'while' else None
    if e is None: return f
    elems = set([e] + ([x for x in e.a if isinstance(x, T)] if e.op == 'tup' else []))
    d = delta(f, f0)
    bad = []
    for k, t, v in d:
        ts = [t] if k in ('d', 'b', 'dn') else [x for x, _ in t]
        if any(mentions(x, lambda y: y in elems) for x in ts): bad.append((k, t))
    if not bad: return f
    g = f.copy()
    for k, t in bad:
        getattr(g, {'d': 'd', 'b': 'b', 'dn': 'dn', 'z': 'z', 'zn': 'zn'}[k]).pop(t, None)
    return g

def subst_ev(e, m, memo):
    if not m or e.kind == 'loop': return e
    na = tuple(subst(a, m, memo) if isinstance(a, T) else a for a in e.args)
    nr = subst(e.res, m, memo) if isinstance(e.res, T) else e.res
    if na == e.args and nr is e.res: return e
    return Ev(e.kind, e.name, na, nr, e.site, e.held, e.x)

def closed(src, init, h, paths, cell):
    base_src = src.a[0] if src.op == 'prefix' else src
    vals = [(d, v[cell]) for d, _, v in paths]
    if all(v is h for _, v in vals): return init
    def norm_cases(cases):
        cs = {}
        for d, ps in cases:
            cs.setdefault(ps, []).append(d)
        if len(cs) == 1:
            return ((frozenset(), next(iter(cs))),)
        out = []
        for ps, ds in cs.items():
            for d in simplify_cases(ds): out.append((d, ps))
        return tuple(sorted(out, key=lambda c: (repr(c[1]), sorted(map(repr, c[0])))))
    # append
    app, ok_ = [], True
    for d, v in vals:
        if v is h: app.append((d, ())); continue
        ps = parts(v)
        if ps and ps[0] is h and not any(mentions(p, lambda t: t is h) for p in ps[1:]):
            app.append((d, tuple(ps[1:])))
        else: ok_ = False; break
    if ok_ and not any(mentions_facts(d, h) for d, _ in app):
        return cat(init, comp(src, norm_cases(app)))
    pre, ok_ = [], True
    for d, v in vals:
        if v is h: pre.append((d, ())); continue
        ps = parts(v)
        if ps and ps[-1] is h and not any(mentions(p, lambda t: t is h) for p in ps[:-1]):
            pre.append((d, tuple(ps[:-1])))
        else: ok_ = False; break
    if ok_ and not any(mentions_facts(d, h) for d, _ in pre):
        return cat(comp(mk('rev', src) if src.op != 'rev' else src.a[0], norm_cases(pre)), init)
    # counters
    ks, ok_ = [], True
    for d, v in vals:
        x = sub(v, h)
        if x.op == 'int': ks.append((d, x.a[0]))
        else: ok_ = False; break
    if ok_ and not any(mentions_facts(d, h) for d, _ in ks):
        if len(set(k for _, k in ks)) == 1 and src.op not in ('while',):
            return add(init, mulc(mk('len', src) if src.op not in ('cat',) else length(src), ks[0][1])) if ks[0][1] else init
        return add(init, mk('sum', src, tuple(sorted(((d, I(k)) for d, k in ks), key=lambda c: (c[1].a[0], sorted(map(repr, c[0])))))))
    # components of a structure that evolve independently
    comps, ok_ = {}, not any(mentions_facts(d, h) for d, _ in vals)
    for n, (d, v) in enumerate(vals):
        while ok_ and v is not h:
            if v.op == 'upd': k = ('f', v.a[1])
            elif v.op == 'vupd': k = ('v', v.a[1], v.a[2])
            else: ok_ = False; break
            comps.setdefault(k, {}).setdefault(n, v.a[-1])
            v = v.a[0]
    if ok_ and comps and len(set(k[0] for k in comps)) == 1 and len(set(k[1] for k in comps if k[0] == 'v')) <= 1:
        res = init
        for k in sorted(comps):
            own = fld(h, k[1]) if k[0] == 'f' else vf(h, k[1], k[2])
            h2 = mk('hdr', 'part', h, k)
            ps = [(d, subst(comps[k].get(n, own), {own: h2})) for n, (d, v) in enumerate(vals)]
            if any(contains(x, h) for _, x in [(d, subst(x, {h2: UNIT})) for d, x in ps]): res = None; break
            i0 = fld(init, k[1]) if k[0] == 'f' else vf(init, k[1], k[2])
            x = closed(src, i0, h2, [(d, (), {cell: x}) for d, x in ps], cell)
            res = set_f(res, k[1], x) if k[0] == 'f' else set_vf(res, k[1], k[2], x)
        if res is not None: return res
    cases = tuple(sorted(((frozenset(d), v) for d, v in vals), key=lambda c: (repr(c[1]), sorted(map(repr, c[0])))))
    hole = mk('hole')
    return mk('fold', src, subst(cases, {h: hole}), init)

def simplify_cases(ds):
    """drop facts that vary both ways across the alternatives of one outcome"""
    ds = list(set(frozenset(d) for d in ds))
    ch = True
    while ch:
        ch = False
        for i in range(len(ds)):
            for j in range(i + 1, len(ds)):
                a, b = ds[i] - ds[j], ds[j] - ds[i]
                if len(a) == 1 and len(b) == 1:
                    (ka, ta, va), (kb, tb, vb) = next(iter(a)), next(iter(b))
                    if ka == kb == 'b' and ta is tb and va != vb:
                        n = ds[i] & ds[j]
                        ds = [d for k, d in enumerate(ds) if k not in (i, j)] + [n]
                        ch = True; break
            if ch: break
    # subsumption
    out = [d for d in ds if not any(o < d for o in ds)]
    return out

def mentions_facts(d, h):
    for k, t, v in d:
        ts = [t] if k in ('d', 'b', 'dn') else [x for x, _ in t]
        if any(contains(x, h) for x in ts): return True
    return False

def comp(src, cases):
    """normal form of a comprehension over src"""
    s0 = src
    pfx = False
    if src.op == 'prefix': s0 = src.a[0]; pfx = True
    if s0.op == 'range' and s0.a[0] is I(0) and s0.a[1].op == 'len':
        ix = mk('idx', s0.a[1].a[0])
        if not any(mentions_any(c, ix) for c in cases):
            s0 = s0.a[1].a[0]
            src = mk('prefix', s0) if pfx else s0
    if len(cases) == 1 and not cases[0][0]:
        ps = cases[0][1]
        if not ps: return EMPTY
        if len(ps) == 1 and ps[0].op == 'one' and ps[0].a[0] is el(s0) and s0.op not in ('while',):
            return src
        if s0.op == 'comp' and not pfx and len(s0.a[1]) == 1 and not s0.a[1][0][0] and len(s0.a[1][0][1]) == 1 and s0.a[1][0][1][0].op == 'one':
            return comp(s0.a[0], cases)
    return mk('comp', src, cases)

def mentions_any(c, ix):
    d, ps = c
    if mentions_facts(d, ix): return True
    return any(contains(p, ix) for p in ps)

import terms as _t
def _reb_comp(src, cases): return comp(src, cases)
_t._REB['comp'] = _reb_comp
_t._REB['ite'] = ite
_t._REB['lt'] = lt
_t._REB['ieq'] = ieq
_t._REB['not'] = not_
def _reb_wrap(v, f, t):
    if is_int(v) and t[0] in 'iu':
        w = int(t[1:])
        n = v.a[0] & ((1 << w) - 1)
        return I(n - (1 << w) if t[0] == 'i' and n >> (w - 1) else n)
    return mk('wrap', v, f, t)
_t._REB['wrap'] = _reb_wrap
_t._REB['and'] = and_
_t._REB['or'] = or_

def seq_set(v, i, x):
    if is_int(i):
        es = concrete_elems(v)
        if es is not None and 0 <= i.a[0] < len(es):
            es[i.a[0]] = x
            return seq(*es)
    if i is sub(length(v), I(1)): return seq_set_last(v, x)
    if index(v, i) is x: return v
    if v.op == 'sset' and v.a[1] is i: return mk('sset', v.a[0], i, x)
    return mk('sset', v, i, x)

def seq_set_last(v, x):
    ps = list(parts(v))
    if ps and ps[-1].op == 'one':
        return cat(*(ps[:-1] + [mk('cat', one(x))]))
    if ps and ps[-1].op == 'lit':
        b = ps[-1].a[0]
        return cat(*(ps[:-1] + [lit(b[:-1]), mk('cat', one(x))]))
    if len(ps) == 1 and ps[0].op == 'slice' and ps[0].a[2] is not END and ps[0].a[2] is add(ps[0].a[1], I(1)): pass
    return cat(slice_(v, I(0), sub(length(v), I(1))), mk('cat', one(x)))

def repeat(x, n):
    if is_int(n) and n.a[0] <= 32: return seq(*([x] * n.a[0]))
    return mk('rep', x, n)

def width(ty): return ty.get('w') or (64 if ty['k'] != 'bool' else 8)

def num_cast(v, frm, to):
    fk, tk = frm['k'], to['k']
    if fk == 'adt' or fk == 'bool' or fk == 'char':
        if v.op == 'adt': return I(v.a[3] if v.a[3] < 128 else v.a[3] - 256)
        if fk == 'adt': return mk('app', 'discr', v)
        if fk == 'bool' and v.op != 'int': return ite(v, I(1), I(0))
        return v
    if fk == 'float' and tk == 'float': return v if to.get('w', 64) >= frm.get('w', 64) else mk('app', 'f2f%s' % to.get('w'), v)
    if fk == 'float': return mk('app', 'f2%s%d' % (tk, to['w']), v)
    if tk == 'float':
        return mk('app', 'i2f', v)
    if fk in ('int', 'uint') and tk in ('int', 'uint', 'char'):
        fw, tw = frm['w'], to.get('w', 32)
        if is_int(v):
            n = v.a[0] & ((1 << tw) - 1)
            if tk == 'int' and n >> (tw - 1): n -= 1 << tw
            return I(n)
        if fk == 'uint' and (tw > fw or (tw == fw and tk == 'uint')): return v
        if fk == 'int' and tk == 'int' and tw >= fw: return v
        return mk('wrap', v, fk[0] + str(fw), tk[0] + str(tw))
    return v

def retag(v, frm, to):
    return mk('app', 'bits:%s%s' % (to['k'][0], to.get('w')), v)

def binop(op, a, b, ty):
    k = ty['k']
    chk = op.endswith('WithOverflow')
    o = op.replace('WithOverflow', '').replace('Unchecked', '')
    if k == 'float':
        m = {'Lt': lambda: mk('flt<', a, b), 'Gt': lambda: mk('flt<', b, a), 'Le': lambda: mk('flt<=', a, b), 'Ge': lambda: mk('flt<=', b, a),
             'Eq': lambda: TRUE if a is b and a.op == 'flt' else mk('feq', *sorted((a, b), key=lambda t: t.id)),
             'Ne': lambda: not_(mk('feq', *sorted((a, b), key=lambda t: t.id)))}
        if o in m: return m[o]()
        return mk('app', 'f' + o, a, b)
    if k == 'bool':
        if o in ('BitAnd',): return and_(a, b)
        if o in ('BitOr',): return or_(a, b)
        if o in ('Eq', 'Ne', 'BitXor'):
            r = None
            if is_int(b): r = a if b.a[0] else not_(a)
            elif is_int(a): r = b if a.a[0] else not_(b)
            else: r = TRUE if a is b else mk('beq', *sorted((a, b), key=lambda t: t.id))
            return r if o == 'Eq' else not_(r)
    if k in ('uint', 'char'):
        for x in (a, b):
            if o in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'): declare_unsigned(x)
    if k == 'adt' or k in ('int', 'uint', 'char', 'ptr', 'ref', 'fnptr'):
        if o == 'Lt': return lt(a, b)
        if o == 'Gt': return lt(b, a)
        if o == 'Le': return not_(lt(b, a))
        if o == 'Ge': return not_(lt(a, b))
        if o in ('Eq', 'Ne'):
            r = None
            for x, y in ((a, b), (b, a)):
                if x.op == 'disc' and is_int(y): r = mk('disceq', x.a[0], y.a[0])
                if x.op == 'cmpd' and is_int(y):
                    r = {255: lt(*x.a), -1: lt(*x.a), 0: ieq(*x.a), 1: lt(x.a[1], x.a[0])}.get(y.a[0])
            if r is None: r = ieq(a, b)
            return r if o == 'Eq' else not_(r)
        if o == 'Cmp': return mk('cmp', a, b) if a is not b else EQUAL
    w = ty.get('w', 64)
    r = None
    if o == 'Add': r = add(a, b)
    elif o == 'Sub': r = sub(a, b)
    elif o == 'Mul': r = mul(a, b)
    elif is_int(a) and is_int(b):
        x, y = a.a[0], b.a[0]
        try:
            r = I({'Div': lambda: int(x / y) if abs(x) < 2**50 else x // y, 'Rem': lambda: x - y * (x // y) if x >= 0 else -((-x) % y), 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                   'BitXor': lambda: x ^ y, 'Shl': lambda: (x << y) & ((1 << w) - 1) if k == 'uint' else x << y, 'Shr': lambda: x >> y}[o]())
        except (KeyError, ZeroDivisionError):
            r = None
    if r is None:
        from bits import bitop
        r = bitop(o, a, b, ty)
    if chk:
        if o == 'Sub' and k == 'uint':
            declare_unsigned(a); declare_unsigned(b)
            ov = lt(a, b)
        elif is_int(r):
            lo, hi = (0, (1 << w) - 1) if k == 'uint' else (-(1 << (w-1)), (1 << (w-1)) - 1)
            ov = FALSE if lo <= r.a[0] <= hi else TRUE
        else: ov = mk('app', 'overflows', mk('app', o + str(w), a, b))
        return mk('tup', r, ov)
    return r
