"""Runs the rules of a property and reports."""
import json, os, sys, time, traceback
from rulebase import *
import rules_chunk
for m in ('rules_db', 'rules_dir', 'rules_storage', 'rules_indexer', 'rules_server', 'rules_common', 'rules_tikv', 'rules_compaction', 'rules_gorilla', 'rules_wal', 'rules_option', 'rules_panic', 'rules_lock', 'rules_wire'):
    try: __import__(m)
    except ModuleNotFoundError as e:
        if e.name != m: raise
import rulebase, domain
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known():
    """{property: {key: text}} from the committed known-findings file"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                _, rest = l.split(':', 1)
                prop, key, text = [x.strip() for x in rest.split('|', 2)]
                out.setdefault(prop.replace('property=', ''), {})[key] = text
    return out

def run_rules(cx, prop=None, only=None):
    for tags, f in RULES:
        if prop and prop not in tags: continue
        if only and f.__name__ not in only: continue
        cx.rule = f.__name__
        domain.forget()
        n0 = len(cx.obs)
        try: f(cx)
        except Undecided as e: cx.unk(tags, 'rule:' + f.__name__, '', str(e))
        except Exception as e:
            cx.unk(tags, 'rule:' + f.__name__, '', 'analysis stopped: %r' % (e,))
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        for o in cx.obs[n0:]: o.key = o.key
        if len(cx.obs) == n0: cx.unk(tags, 'rule:' + f.__name__, '', 'no obligation')

def merge(obs):
    """one verdict per key: violated > undecided > ok"""
    rank = {BAD: 2, UNK: 1, OKS: 0}
    d = {}
    for o in obs:
        if o.key not in d: d[o.key] = [o, 1]
        else:
            d[o.key][1] += 1
            if rank[o.status] > rank[d[o.key][0].status]: d[o.key][0] = o
    return d

def decide(cx, prop, verbose, t0, evdir):
    run_rules(cx, prop)
    obs = [o for o in cx.obs if prop in o.tags]
    m = merge(obs)
    kn = known().get(prop, {})
    viol, undec, oks, kf = [], [], [], []
    for key, (o, n) in sorted(m.items()):
        if o.status == BAD: (kf if key in kn else viol).append((key, o, n))
        elif o.status == UNK: undec.append((key, o, n))
        else: oks.append((key, o, n))
    ev = {'property': prop, 'tier': cx.tier}
    title = ''
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] == prop: title = p['title']
    rep = os.path.join(ROOT, 'evidence', prop + '.violation.txt')
    if evdir:
        os.makedirs(evdir, exist_ok=True)
        from evidence import write
        write(evdir, cx, prop, title, oks, undec, viol, kf, time.time() - t0)
        if viol:
            with open(rep, 'w') as f:
                for key, o, n in viol: f.write('%s\n  at %s\n  %s\n' % (key, o.where, o.why))
        elif os.path.exists(rep): os.remove(rep)
    print('%s %s: %d obligations (%d checked instances) hold, %d undecided, %d known findings, %d violated; %d functions, %d abstract calls, %d path outcomes, %.1fs' % (
        prop, title, len(oks), sum(n for _, _, n in oks), len(undec), len(kf), len(viol), len(cx.allfns), cx.calls, sum(len(r.outs) for r in cx.runs), time.time() - t0))
    for key, o, n in oks:
        if verbose: print('  ok        %s (x%d)' % (key, n))
    for key, o, n in undec: print('  undecided %s at %s: %s' % (key, o.where, o.why))
    for key, o, n in kf: print('KNOWN-FINDING: property=%s %s (%s at %s: %s)' % (prop, key, kn[key], o.where, o.why))
    for key, o, n in viol:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        print('  %s at %s: %s' % (key, o.where, o.why))
    return 1 if viol else 0
