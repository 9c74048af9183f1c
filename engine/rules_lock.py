"""Lock order: which locks are taken while others are held, over every operation of the database."""
from rulebase import *
from rules_common import fact_terms_of
from rules_db import walk
from rules_dir import run_closure

WRAP = ('Arc', 'Rc', 'Box')
def strip(s):
    s = s.strip()
    while True:
        if s.startswith('&'):
            s = s[1:].strip()
            if s.startswith("'"): s = s.split(' ', 1)[1]
            if s.startswith('mut '): s = s[4:]
            continue
        h = s.split('<', 1)
        if len(h) == 2 and h[0].split('::')[-1] in WRAP and s.endswith('>'): s = generic(s)[0]; continue
        return s
def generic(s):
    """type arguments of 'X<A, B>'"""
    a = s[s.index('<') + 1:-1]
    out, d, cur = [], 0, ''
    for ch in a:
        if ch in '<([': d += 1
        elif ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def head(s): return s.split('<', 1)[0]

class Typer(object):
    """source type of a term, from the declared types of arguments and fields"""
    def __init__(self, cx, args):
        self.cx, self.memo, self.args = cx, {}, {}
        for t, s in args: self.args[t] = strip(s)
    def ty(self, t):
        if t in self.memo: return self.memo[t]
        self.memo[t] = None
        r = self.args.get(t) or self.go(t)
        self.memo[t] = strip(r) if r else None
        return self.memo[t]
    def go(self, t):
        if t.op == 'fld':
            s = self.ty(t.a[0])
            if s is None: return None
            if s.startswith('('):
                p = generic('T<' + s[1:-1] + '>')
                return p[t.a[1]] if t.a[1] < len(p) else None
            a = self.cx.db.adt.get(head(s))
            if a is None or len(a['variants']) != 1: return None
            fs = a['variants'][0]['fields']
            if t.a[1] >= len(fs): return None
            f = fs[t.a[1]][1]
            return self.cx.db.tys[f]['s'] if isinstance(f, int) else f
        if t.op == 'content':
            s = self.ty(t.a[0])
            if s and head(s).split('::')[-1] in ('RwLock', 'Mutex') and '<' in s: return generic(s)[0]
            return None
        if t.op in ('el', 'idx_', 'index', 'first', 'last') or t.op == 'at':
            s = self.ty(t.a[0])
            return elem(s)
        if t.op in ('rev', 'slice', 'prefix', 'sorted'): return self.ty(t.a[0])
        return None
def elem(s):
    if s is None: return None
    if head(s).split('::')[-1] in ('Vec', 'VecDeque') and '<' in s: return generic(s)[0]
    if s.startswith('['): return s[1:-1].split(';')[0]
    return None

def lock_class(cx, ty, t):
    """'Struct.field' of a lock"""
    while t.op in ('rev', 'slice', 'prefix'): t = t.a[0]
    if t.op == 'fld':
        s = ty.ty(t.a[0])
        if s and not s.startswith('('):
            a = cx.db.adt.get(head(s))
            if a and len(a['variants']) == 1 and t.a[1] < len(a['variants'][0]['fields']):
                return last_seg(head(s)) + '.' + a['variants'][0]['fields'][t.a[1]][0]
    s = ty.ty(t)
    if t.op == 'sym' and s: return 'argument ' + last_seg(head(s))
    return None

MODS = ('db', 'chunk', 'server', 'storage', 'indexer', 'backend', 'common')
def top_mod(i):
    p = (i['iself'] or i['path']).lstrip('<&').split('::')[0]
    if p not in MODS: p = i['path'].lstrip('<&').split('::')[0]
    return p

def operations(cx):
    """every operation of the database, its chunks, stores, indexes and backends"""
    out = []
    for i in cx.db.local:
        if i['closure'] or not i['identity'] or top_mod(i) not in MODS: continue
        if 'test_utils' in i['path'] or last_seg(i['itrait'] or '') in ('Debug', 'Display'): continue
        out.append(i)
    return out

def run_of(cx, i):
    cuts = frozenset()
    if last_seg(i['iself'] or '') == 'MonolithServer':
        from rules_server import QC
        cuts = QC | frozenset(('MonolithServer._process', 'MonolithServer.query', 'MonolithServer.write'))
    return cx.run(i, cuts, log=True)

BLOCKING = ('Receiver::recv', 'JoinHandle::join', 'Receiver::recv_timeout', 'Barrier::wait', 'Condvar::wait', 'Condvar::wait_timeout', 'Condvar::wait_while', 'ScopedJoinHandle::join')
def blocking(e): return e.kind in ('call', 'ext') and (e.name in BLOCKING or e.name.split('::')[-1] == 'join' and 'Thread' in e.name)

def graph(cx):
    if hasattr(cx, '_lockgraph'): return cx._lockgraph
    edges, acquires, waits, bad, runs, und = {}, {}, [], [], [], []
    seen = set()
    for i in operations(cx):
        r = run_of(cx, i)
        if r.err or r.unmod: und.append((i, r.err or 'no model for ' + ', '.join(sorted(r.unmod)))); 
        if r.err: continue
        args = [(a, cx.db.tys[i['locals'][n + 1]]['s']) for n, a in enumerate(r.args) if a.op == 'sym']
        runs.append((i, r, Typer(cx, args), r.outs))
        for o in r.outs:
            for e, lp in walk(o.ev):
                if e.kind in ('call', 'ext') and e.name.endswith('spawn') and e.args and (i['id'], e.site) not in seen:
                    seen.add((i['id'], e.site))
                    x = closure_run(cx, e)
                    if x is not None: runs.append((dict(i, itrait=None, thread=True), x, runs[-1][2], x.outs))
    # locks behind trait calls
    for i, r, ty, outs in runs:
        tr = last_seg(i['itrait']) if i['itrait'] else None
        if tr not in TRAITS: continue
        n = tr + '::' + i['path'].split('::')[-1]
        for o in outs:
            for e, lp in walk(o.ev):
                if e.kind == 'lock': acquires.setdefault(n, set()).add(lock_class(cx, ty, e.args[0]) or show(e.args[0])[:80])
    for i, r, ty, outs in runs:
        for o in outs:
            tries = set(e.site for e, lp in walk(o.ev) if e.kind == 'trylockfail') | set(e.site for o2 in outs for e, lp in walk(o2.ev) if e.kind == 'trylockfail')
            for e, lp in walk(o.ev):
                if not e.held: continue
                hs = [(g, lock_class(cx, ty, g.a[0])) for g in e.held if g.op == 'guard']
                if e.kind == 'lock' and e.site not in tries:
                    c = lock_class(cx, ty, e.args[0])
                    for g, h in hs:
                        if g.a[0] is e.args[0]:
                            bad.append((c or h or show(e.args[0])[:60], r, e, o)); continue
                        if c is None or h is None:
                            if i.get('thread'): continue
                            und.append((i, 'lock %s taken under %s' % (show(e.args[0])[:60], show(g.a[0])[:60]))); continue
                        edges.setdefault((h, c), (r, e, o))
                elif e.kind in ('call', 'ext') and e.name in acquires:
                    for c in acquires[e.name]:
                        for g, h in hs:
                            if h: edges.setdefault((h, c), (r, e, o))
                elif blocking(e): waits.append((i, r, e, o, hs, ty))
    cx._lockgraph = (edges, acquires, waits, bad, runs, und)
    return cx._lockgraph

def closure_run(cx, e):
    c = [a for a in e.args if a.op == 'clo']
    if len(c) != 1: return None
    x = run_closure(cx, c[0], frozenset())
    if x is None or x.err: return None
    return x

@rule('K02')
def lock_order(cx):
    edges, acquires, waits, bad, runs, und = graph(cx)
    for i, why in und: cx.unk('K02', 'lock-order:analysed:' + last_seg(i['iself'] or '') + '.' + i['path'].split('::')[-1], i['path'], why)
    nlock = 0
    for i, r, ty, outs in runs:
        for o in outs:
            for e, lp in walk(o.ev):
                if e.kind == 'lock': nlock += 1
    cx.ob('K02', 'lock-order:acquisitions', OKS if nlock else UNK, '', '%d' % nlock)
    for c, r, e, o in bad:
        u = any(opaque(t) for t in fact_terms_of(o.f.items()))
        cx.chk('K02', 'no-reacquire:' + c, None if u and opaque(e.args[0]) else False, where(r, e), 'the lock %s is taken by an operation that already holds it' % c)
    if not bad: cx.ok('K02', 'no-reacquire')
    G = {}
    for (a, b) in edges: G.setdefault(a, set()).add(b)
    def reach(a, b, seen=()):
        if a == b: return [a]
        for n in sorted(G.get(a, ())):
            if n in seen: continue
            p = reach(n, b, seen + (n,))
            if p: return [a] + p
        return None
    for (a, b), (r, e, o) in sorted(edges.items(), key=lambda kv: kv[0]):
        key = 'order:%s->%s' % (a, b)
        if a == b: cx.unk('K02', key, where(r, e), 'two locks of the same kind are held together'); continue
        p = reach(b, a)
        if p:
            r2, e2, o2 = edges[(p[0], p[1])]
            cx.bad('K02', 'order:%s<->%s' % tuple(sorted((a, b))), where(r, e), '%s takes %s while it holds %s, and %s takes them in the other order (%s)' % (r.inst['path'], b, a, where(r2, e2), ' -> '.join(p)))
        else: cx.ok('K02', key, where(r, e))
    for i, r, e, o, hs, ty in waits:
        held = [g.a[0] for g, h in hs]
        nm = last_seg(i['iself'] or '') + '.' + i['path'].split('::')[-1]
        sp = [x for x, lp in walk(o.ev) if x.kind in ('call', 'ext') and x.name.endswith('spawn') and x.args]
        done = False
        for x in sp:
            c = closure_run(cx, x)
            if c is None: cx.unk('K02', 'wait:' + nm, where(r, e), 'the thread waited for is not analysed'); done = True; continue
            need = set(y.args[0] for q in c.outs for y, lp in walk(q.ev) if y.kind == 'lock')
            need |= set(b for (a, b) in ())
            hit = [l for l in need if l in held]
            if hit:
                gm = [g for g, h in hs if g.a[0] in hit]
                cx.bad('K02', 'wait:' + nm, where(r, e), 'waits for a thread that needs %s, which is held here' % ', '.join(lock_class(cx, ty, l) or show(l)[:60] for l in hit)); done = True
            else: cx.ok('K02', 'wait:' + nm, where(r, e)); done = True
        if not done: cx.unk('K02', 'wait:' + nm, where(r, e), 'waits while holding a lock')
    cx.ok('K02', 'trait-calls', '', str(sorted(acquires)))
