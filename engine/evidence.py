"""Evidence file: what this run analysed."""
import json, os

def write(evdir, cx, prop, title, oks, undec, viol, kf, wall):
    fns = sorted(cx.allfns)
    def row(key, o, n): return {'obligation': key, 'instances': n, 'where': o.where, **({'detail': o.why} if o.why else {})}
    sites = set()
    npaths = nev = 0
    from rulebase import flat
    for r in cx.runs:
        npaths += len(r.outs)
        for o in r.outs:
            for e in flat(o.ev):
                nev += 1
                if e.site: sites.add((str(e.site[0]), str(e.site[1]), e.name))
    d = {
        'property': prop, 'tier': cx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the type-checked MIR of the current working tree (no execution, no solver): each anchor function is abstractly interpreted on all its paths (calls inlined, loops summarised at a fixpoint, effects recorded as events with the locks held), and the rules of this property are evaluated on every path outcome. Counts below are of this run.',
            'obligations': len(oks) + len(undec) + len(viol) + len(kf), 'discharged': len(oks),
            'obligation_instances': sum(n for _, _, n in oks + undec + viol + kf),
            'anchors_analysed': sorted(set(r.inst['path'] for r in cx.runs)),
            'functions_analysed': len(fns), 'functions': fns[:400],
            'path_outcomes': npaths, 'effect_events': nev, 'effect_sites': len(sites),
            'abstract_calls': cx.calls, 'abstract_steps': sum(r.steps for r in cx.runs),
            'rules': [{'obligation': k, 'instances': n} for k, o, n in oks],
            'undecided': [row(*x) for x in undec], 'violated': [row(*x) for x in viol], 'known_findings': [row(*x) for x in kf],
            'unmodelled_functions': sorted(set(u for r in cx.runs for u in r.unmod)),
        },
        'assumptions': ['external crates (std, sled, tiny_http, protobuf, snap, serde_json, tikv-client) behave as the effect models in engine/models.py say', 'lock poisoning does not occur', 'rustc lowers the source to MIR correctly'],
        'wall_s': round(wall, 2), 'violations': len(viol),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f: json.dump(d, f, indent=1, sort_keys=True)
