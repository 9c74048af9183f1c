#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--repo DIR] [-v]: decides one property by static analysis of the current tree"""
import json, os, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    # same set order, and so the same report, on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    import facts, rulebase, allrules
    tier = 'thorough' if a.thorough else 'quick'
    t0 = time.time()
    try:
        cx = rulebase.Ctx(a.repo, tier)
    except facts.BuildError as e:
        print('BUILD-ERROR: the working tree does not compile, nothing can be decided')
        print(str(e)[-3000:])
        sys.exit(2)
    return allrules.decide(cx, a.property, a.v, t0, None if a.no_evidence else os.path.join(ROOT, 'evidence'))

if __name__ == '__main__':
    sys.exit(main())
