"""Rule infrastructure: anchors, cached abstract runs, obligations."""
import time, traceback
from terms import *
from domain import *
import domain
from interp import *
import models, facts
from names import norm

OKS, BAD, UNK = 'ok', 'violated', 'undecided'
TRAITS = {'Storage', 'Indexer', 'Builder', 'TiKvRawBackend'}
CHUNK = frozenset(('Chunk.insert', 'Chunk.query', 'Chunk.close', 'Chunk.start_end_time', 'Chunk.is_with_range', 'Chunk.new', 'Chunk.is_closed', 'ChunkOpts.write_config_to_dir', 'ChunkOpts.read_config_from_dir'))
DBM = frozenset(('MonolithDb.query', 'MonolithDb.write_time_points', 'MonolithDb.write_time_point'))

class Undecided(Exception):
    """the analysis cannot decide (never reported as a violation)"""

class Ob(object):
    __slots__ = ('tags', 'key', 'status', 'where', 'why')
    def __init__(self, tags, key, status, where, why):
        self.tags, self.key, self.status, self.where, self.why = tags, key, status, where, why

class Out(object):
    """one abstract path outcome, result-valued outcomes split into ok/err"""
    __slots__ = ('kind', 's', 'f', 'ev', 'v', 'rk', 'p')
    def __init__(self, kind, s, v, rk=None, p=None):
        self.kind, self.s, self.f, self.ev, self.v, self.rk, self.p = kind, s, s.f, s.ev, v, rk, p
    def copy_assume(self, t, val):
        s = self.s.copy()
        if not s.f.assume(t, val): return None
        return Out(self.kind, s, self.v, self.rk, self.p)
    def is_(self, t, k):
        """discriminant of t known to be k?"""
        if t.op == 'adt': return t.a[3] == k
        return self.f.d.get(t) == k
    def isok(self, r): return self.disc(r) == 0
    def iserr(self, r): return self.disc(r) == 1
    def disc(self, t):
        if t.op == 'adt': return t.a[3]
        return self.f.d.get(t)

class Run(object):
    def __init__(self):
        self.outs, self.err, self.unmod, self.fns, self.site = [], None, {}, set(), None
        self.inst = None
        self.args = []
        self.steps = 0
    @property
    def rets(self): return [o for o in self.outs if o.kind == 'ret']
    @property
    def panics(self): return [o for o in self.outs if o.kind == 'panic']

def split_result(kind, s, v):
    if kind != 'ret': return [Out(kind, s, v)]
    if v.op == 'adt':
        if v.a[0] == RES: return [Out(kind, s, v, 'ok' if v.a[2] == 0 else 'err', v.a[4])]
        return [Out(kind, s, v)]
    if v.op == 'ite':
        out = []
        for c, x in ((1, v.a[1]), (0, v.a[2])):
            s2 = s.copy()
            if s2.f.assume(v.a[0], c): out += split_result(kind, s2, x)
        return out
    out = []
    for k in (0, 1):
        s2 = s.copy()
        if s2.f.assume_disc(v, k): out.append(Out(kind, s2, v, 'ok' if k == 0 else 'err', vf(v, k, 0)))
    return out

class Ctx(object):
    def __init__(self, repo, tier='quick'):
        self.repo, self.tier = repo, tier
        self.dir = facts.build(repo)
        self.db = facts.Db(self.dir)
        self.obs = []
        self.cache = {}
        self.allfns = set()
        self.runs = []
        self.rule = None
        self.calls = 0
        self._bin = {}
    def bin(self, fname):
        if fname not in self._bin: self._bin[fname] = facts.Db(self.dir, fname)
        return self._bin[fname]

    # ------------------------------------------------------------ anchors
    def find(self, ty, method, trait=None, db=None):
        c = []
        for i in (db or self.db).local:
            if i['closure']: continue
            if i['path'].split('::')[-1] != method and norm(i['path']).split('::')[-1] != method: continue
            st = last_seg(i['iself']) if i['iself'] else None
            if ty is not None and st != ty: continue
            if ty is None and i['iself']: continue
            tr = last_seg(i['itrait']) if i['itrait'] else None
            if trait is not None and tr != trait: continue
            if trait is None and tr is not None and ty is not None and tr not in (None,): continue
            c.append(i)
        c.sort(key=lambda i: (not i['identity'], i['id']))
        return c[0] if c else None
    def need(self, ty, method, trait=None, public=False, tags=()):
        i = self.find(ty, method, trait)
        if i is None: raise Undecided('anchor %s::%s not found' % (ty, method))
        return i

    # --------------------------------------------------------------- runs
    def run(self, inst, cuts=frozenset(), args=None, db=None, log=False, limit=None, pre=None, rawargs=False, traits=TRAITS):
        key = (id(db or self.db), inst['id'], cuts, tuple(args) if args else None, log, pre.__name__ if pre else None, tuple(sorted(traits)))
        if key in self.cache:
            r = self.cache[key]
            recall(r.known)
            return r
        # what is known of a term belongs to the function it was met in: other functions name other things by it
        before = knowledge()
        forget()
        try: r = self._run(key, inst, cuts, args, db, log, limit, pre, rawargs, traits)
        finally:
            mine = knowledge()
            recall(before)
        r.known = mine
        return r

    def _run(self, key, inst, cuts, args, db, log, limit, pre, rawargs, traits):
        db = db or self.db
        r = Run()
        r.inst = inst
        def cut(f, name, iname, ci):
            tr = (f.get('trait') or '').split('<')[0].split('::')[-1]
            if tr in traits and f['ikind'] != 'item': return True
            if cuts and ci is None and name.replace('::', '.') in cuts: return True
            if ci is not None and ci['local'] and not ci['closure'] and cuts:
                t = last_seg(ci['iself']) if ci['iself'] else ''
                n = ci['path'].split('::')[-1]
                if not ci['itrait'] or tr in TRAITS:
                    if t + '.' + n in cuts: return t + '::' + n
                if ci['itrait'] and t + '.' + last_seg(ci['itrait']) + '.' + n in cuts: return t + '::' + n
            return False
        I_ = Interp(db, cut, log=log)
        st = St()
        vals = []
        for n in range(inst['argc']):
            if args and n < len(args) and args[n] is not None:
                v = args[n]
            else: v = mk('sym', 'arg%d' % n)
            t = db.tys[inst['locals'][n + 1]]
            if t['k'] == 'ref' and t.get('mut') and v.op != 'mref': v = I_.new_loc(st, v, 'arg')
            vals.append(v)
        r.args = vals
        if pre: pre(self, I_, st, vals)
        t0 = time.time()
        try:
            outs = I_.call_inst(st, inst, vals, ())
            for k, s, v in outs:
                if isinstance(v, T): r.outs += split_result(k, s, v) if is_result_ty(db, inst) else [Out(k, s, v)]
                else: r.outs.append(Out(k, s, v))
        except Budget as e: r.err = 'budget: %s' % e
        except RecursionError: r.err = 'recursion'
        except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError) as e:
            r.err = 'analysis: %r %s' % (e, traceback.format_exc().strip().splitlines()[-3:-1])
        r.unmod = dict(I_.unmodelled)
        r.fns = set(I_.fns) | {inst['path']}
        r.steps = I_.steps
        r.interp = I_
        self.allfns |= r.fns
        self.calls += I_.ncalls
        self.runs.append(r)
        self.cache[key] = r
        return r
    def good(self, inst, *a, **k):
        """run that must be usable for a definite verdict"""
        r = self.run(inst, *a, **k)
        if r.err: raise Undecided('%s: %s' % (inst['path'], r.err))
        if r.unmod: raise Undecided('%s: no model for %s' % (inst['path'], ', '.join(sorted(r.unmod))))
        return r

    # --------------------------------------------------------- obligations
    def ob(self, tags, key, status, where='', why=''):
        if isinstance(tags, str): tags = tags.split()
        self.obs.append(Ob(tuple(tags), key, status, where, why))
    def ok(self, tags, key, where='', why=''): self.ob(tags, key, OKS, where, why)
    def bad(self, tags, key, where='', why=''): self.ob(tags, key, BAD, where, why)
    def unk(self, tags, key, where='', why=''): self.ob(tags, key, UNK, where, why)
    def chk(self, tags, key, cond, where='', why=''):
        """cond: True ok / False violated / None undecided"""
        self.ob(tags, key, OKS if cond else UNK if cond is None else BAD, where, '' if cond else why)
        return cond

def last_seg(p):
    p = p.strip()
    if p.startswith('&'): p = p[1:].strip()
    d, o = 0, []
    for ch in p:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: o.append(ch)
    return ''.join(o).split('::')[-1].strip()

def is_result_ty(db, inst):
    t = db.tys[inst['locals'][0]]
    return t['k'] == 'adt' and t['path'].endswith('result::Result')

RULES = []
def rule(*tags):
    def d(f):
        RULES.append((tuple(' '.join(tags).split()), f))
        return f
    return d

# -------------------------------------------------------------- path helpers
def flat(evs):
    """all events including those inside loop iterations"""
    for e in evs:
        if e.kind == 'loop':
            for d, es, vals in e.x.paths:
                for x in flat(es): yield x
        else: yield e

def evs(o_or_evs, *names):
    l = o_or_evs.ev if isinstance(o_or_evs, Out) else o_or_evs
    return [e for e in flat(l) if e.kind in ('call', 'ext', 'rec') and e.name in names]

def top(o_or_evs, *names):
    l = o_or_evs.ev if isinstance(o_or_evs, Out) else o_or_evs
    return [e for e in l if e.kind in ('call', 'ext', 'rec') and e.name in names]

def where(run, e=None):
    if e is not None and e.site: return '%s:%s' % (e.site[0], e.site[1]) if e.site[1] else e.site[0]
    return run.inst['path']

OPAQUE = {'fold', 'hdr', 'while', 'hole', 'prefix', 'ite', 'uninit', 'bottom', 'unk', 'sum', 'mut', 'gen'}
def opaque(t):
    """value outside the fragment whose normal form is canonical"""
    return mentions(t, lambda x: x.op in OPAQUE or (x.op == 'app' and isinstance(x.a[0], str) and (x.a[0] in ('call', 'callv') or x.a[0].startswith('mut:'))))

def same(a, b):
    """True: equal; False: certainly different for some values; None: cannot tell"""
    if a is b: return True
    if opaque(a) or opaque(b): return None
    return False

def prev_only(L, d):
    """facts d of a loop path that speak only about the element and about what the previous element left in a cell
    (every path leaves the same function of its element there): some input reaches the path"""
    m = {}
    for c in L.init:
        h = mk('hdr', L.L, c[0], c[1])
        if not mentions_facts(d, h): continue
        vs = set(p[2].get(c) for p in L.paths)
        if len(vs) != 1: return False
        v = vs.pop()
        if v is None or opaque(v): return False
        m[h] = subst(v, {el(L.src): mk('sym', 'prev element')})
    if not m: return False
    f = Facts()
    try: q = subst_facts(d, m)
    except Exception: return False
    if q is None or not apply_facts(f, q): return False
    for k, t, v in q:
        for y in ([t] if isinstance(t, T) else [y for y, _ in t]):
            if opaque(y) or mentions(y, lambda z: z.op in ('bit', 'app', 'res', 'idx', 'comp')): return False
    return True

def some_of(f, t):
    """Option-valued term under facts -> ('some', payload) | ('none',) | None"""
    if t.op == 'adt':
        return ('some', t.a[4]) if t.a[2] == 1 else ('none',)
    k = f.d.get(t)
    if k == 1: return ('some', vf(t, 1, 0))
    if k == 0: return ('none',)
    return None

def ev_ok(o, e):
    """event result known Ok on this path"""
    return e.res is not None and o.f.d.get(e.res) == 0
def ev_err(o, e):
    return e.res is not None and o.f.d.get(e.res) == 1

def err_variant(p):
    return p.a[1] if isinstance(p, T) and p.op == 'adt' else None

def holds_lock(e, kind, on=None):
    """event executed while a guard of the kind ('r'/'w') is held"""
    for g in e.held:
        if g.op == 'guard' and (kind == 'any' or g.a[1] == kind or (kind == 'r' and g.a[1] == 'w')):
            if on is None or g.a[0] is on: return True
    return False

def facts_str(f, n=8):
    l = sorted(show_fact(x) for x in f.items())
    return '; '.join(l[:n])

def iter_facts(o, d):
    """what holds in an iteration on path d of a loop of outcome o: what the outcome knows about the
    things that are the same in every iteration, and the path's own conditions; None: cannot be"""
    f = drop_mentioning(o.f, lambda t: t.op in ('el', 'hdr'))
    return f if apply_facts(f, d) else None
