#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tests/seeds.py and confirms each one:
   seed.py gen [ID...]     write patch.diff, demo.sh, demo.rs, meta.json
   seed.py check [ID...]   apply to /repo, build, run the tests, the demo and the check, undo"""
import sys, os, subprocess, json, difflib, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location('seeds', ROOT + '/tests/seeds.py'); S = importlib.util.module_from_spec(sp); sp.loader.exec_module(S)
DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is broken
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a "$MIRROR"/. "$w"/
cat "$here"/demo.rs >> "$w"/%(file)s
cd "$w" || exit 2
export PWD
timeout 280 cargo test --offline %(sel)s vp_demo -- --test-threads 4 > "$w"/out.txt 2>&1
rc=$?
tail -n 40 "$w"/out.txt
grep -q 'test result: ok. [1-9][0-9]* passed' "$w"/out.txt || exit 1
exit $rc
'''
def files(s):
    out = {}
    for f, old, new in s['edits']:
        src = out.get(f) or open('/repo/' + f).read()
        assert src.count(old) >= 1, (s['id'], f, old)
        out[f] = src.replace(old, new, 1)
    return out
def gen(s):
    d = '%s/seeded/%s' % (ROOT, s['id'])
    os.makedirs(d, exist_ok=True)
    p = ''
    for f, new in files(s).items():
        old = open('/repo/' + f).read()
        p += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(p)
    open(d + '/demo.sh', 'w').write(DEMO % {'file': s.get('file', 'src/db.rs'), 'sel': s.get('sel', '--lib')})
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(s['demo'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b
def check(s, quiet=False):
    d = '%s/seeded/%s' % (ROOT, s['id'])
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    res = {}
    a = sh('bash /opt/vp/build.sh'); assert a.returncode == 0, a.stdout[-2000:]
    a = sh('bash %s/demo.sh' % d, cwd='/repo'); res['clean'] = a.returncode
    if a.returncode: print(a.stdout[-3000:])
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d); assert a.returncode == 0, a.stdout
        a = sh('bash /opt/vp/build.sh'); res['build'] = a.returncode
        if a.returncode: print(a.stdout[-3000:])
        a = sh('bash /opt/vp/test.sh /tmp/m/seed.json')
        out = json.load(open('/tmp/m/seed.json'))
        res['tests'] = summary(out)
        a = sh('bash %s/demo.sh' % d, cwd='/repo'); res['patched'] = a.returncode
        if not a.returncode or 'error: could not compile' in a.stdout or 'error[' in a.stdout: print(a.stdout[-2000:])
        a = sh('python3 %s/check.py %s --no-evidence' % (ROOT, s['property'])); res['check'] = a.returncode
        res['said'] = [l for l in a.stdout.splitlines() if l.startswith('  ') and not l.startswith('  undecided')][:2]
    finally:
        sh('git -C /repo checkout -- .')
    good = res['clean'] == 0 and res['build'] == 0 and res['patched'] != 0 and res['tests'] == 'ok'
    print('%-6s %-34s %s %s' % ('VALID' if good else 'BAD', s['id'], 'caught' if res['check'] == 1 else 'MISSED', res), flush=True)
    return good
def summary(out):
    b = json.load(open('/opt/vp/BASELINE.json'))
    st = b.get('stable') or b.get('pass') or b.get('passed') or b.get('tests')
    ps = set(out.get('passed') or out.get('pass') or [])
    miss = [t for t in st if t not in ps]
    return 'ok' if not miss else 'failed: %s' % miss[:3]
if __name__ == '__main__':
    ids = sys.argv[2:]
    l = [s for s in S.SEEDS if not ids or s['id'] in ids]
    for s in l:
        if sys.argv[1] == 'gen': gen(s)
        else: gen(s); check(s)
