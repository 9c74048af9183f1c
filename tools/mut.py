#!/usr/bin/env python3
"""Self-test of the rules: applies small source edits to a scratch copy and shows which properties are reported.
usage: mut.py [-k SUBSTR] [FILE.py ...]   (files define M = [(name, expected-props or '' for benign, [(file, old, new), ...])])"""
import os, sys, shutil, subprocess, tempfile, time, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.dont_write_bytecode = True

PROPS = [p for p in os.environ.get('VERIF_PROPS', '').split() if p]
def worker(args):
    wd, jobs = args
    os.environ['VERIF_CACHE'] = wd + '/cache'
    for m in list(sys.modules):
        pass
    res = []
    import facts
    facts.CACHE = wd + '/cache'
    import rulebase, allrules
    import faulthandler
    for name, exp, edits in jobs:
        faulthandler.dump_traceback_later(240, exit=True, file=open(wd + "/hang.txt", "w")); open(wd+"/cur.txt","w").write(name)
        subprocess.check_call(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', wd + '/repo/'])
        bad = None
        for f, old, new in edits:
            p = wd + '/repo/' + f
            s = open(p).read()
            if old is None: s = s + new
            elif s.count(old) < 1: bad = 'edit does not apply: %s %r' % (f, old[:60]); break
            else: s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        if bad: res.append((name, exp, 'ERR', bad, [])); continue
        t0 = time.time()
        try:
            cx = rulebase.Ctx(wd + '/repo')
        except facts.BuildError as e:
            res.append((name, exp, 'ERR', str(e)[-1500:], [])); continue
        for q in PROPS or [None]: allrules.run_rules(cx, q)
        m = allrules.merge(cx.obs)
        viol, unk = {}, []
        kn = allrules.known()
        for o in cx.obs:
            if o.status == rulebase.BAD:
                for t in o.tags:
                    if o.key not in kn.get(t, {}): viol.setdefault(t, set()).add((o.key, o.why[:160]))
        for k, (o, n) in m.items():
            if o.status == rulebase.UNK: unk.append((k, o.why[:200]))
        res.append((name, exp, viol, unk, time.time() - t0))
    faulthandler.cancel_dump_traceback_later()
    return res

def main():
    from multiprocessing import Pool
    files = [a for a in sys.argv[1:] if a.endswith('.py')]
    k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else None
    jobs = []
    for f in files:
        sp = importlib.util.spec_from_file_location('mm', f); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
        jobs += mod.M
    if k: jobs = [j for j in jobs if k in j[0]]
    n = min(int(os.environ.get('MUTN', '6')), len(jobs)) or 1
    base = os.environ.get('MUTW', '/tmp/m/mutw')
    os.makedirs(base, exist_ok=True)
    import fcntl
    lock = open(base + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    wds = []
    for i in range(n):
        wd = '%s/%d' % (base, i); os.makedirs(wd + '/cache', exist_ok=True); wds.append(wd)
    chunks = [(wds[i], jobs[i::n]) for i in range(n)]
    good = 0
    with Pool(n) as p:
        out = []
        for r in p.imap(worker, chunks): out += r
    order = {j[0]: i for i, j in enumerate(jobs)}
    for name, exp, viol, unk, t in sorted(out, key=lambda r: order[r[0]]):
        if viol == 'ERR': print('ERROR  %-40s %s' % (name, unk)); continue
        got = set(viol)
        want = set(exp.split())
        ok = (not got) if not want else want <= got
        good += ok
        print('%s %-40s want[%s] got[%s]' % ('ok    ' if ok else 'WRONG ', name, ' '.join(sorted(want)), ' '.join(sorted(got))))
        if not ok or '-v' in sys.argv:
            for t_ in sorted(viol):
                for x in sorted(viol[t_]): print('        %s %s: %s' % (t_, x[0], x[1]))
            for x in unk: print('        undecided %s: %s' % x)
    print('%d of %d as expected' % (good, len(jobs)))
main()
