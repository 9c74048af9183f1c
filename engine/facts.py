"""Builds the MIR facts of the current working tree of the repository and loads them."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CACHE = os.environ.get('VERIF_CACHE') or os.path.join(ROOT, '.cache')
FILES = ('monolith.json', 'monolith_server.json', 'tikv_cli.json')

class BuildError(Exception):
    pass

def tree_hash(repo, extra):
    h = hashlib.sha256()
    fs = []
    for top, dirs, files in os.walk(repo):
        if top == repo: dirs[:] = [d for d in dirs if d not in ('.git', 'target')]
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(top, f)
            if os.path.isfile(p) and (p.endswith(('.rs', '.toml', '.lock', '.proto', '.yml')) ): fs.append(p)
    for p in fs + extra:
        h.update(p.encode()); h.update(b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def run(cmd, env, cwd, what):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what, p.stdout.decode('utf8', 'replace')[-4000:]))

def build(repo):
    """-> directory holding the facts of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    extra = [os.path.join(ROOT, 'driver', 'main.rs'), os.path.join(ROOT, 'prep.py')]
    for top, dirs, files in os.walk(os.path.join(ROOT, 'stub')):
        dirs[:] = [d for d in dirs if d != 'target']
        extra += [os.path.join(top, f) for f in files if f.endswith(('.rs', '.toml'))]
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash(repo, sorted(extra))
        out = os.path.join(CACHE, 'facts-' + key)
        if all(os.path.exists(os.path.join(out, f)) for f in FILES): return out
        env = dict(os.environ)
        for v in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTDOCFLAGS', 'CARGO_INCREMENTAL', 'CARGO_TARGET_DIR'): env.pop(v, None)
        env.setdefault('HOME', '/root')
        env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
        env['CARGO_NET_OFFLINE'] = 'true'
        env['RUSTUP_TOOLCHAIN'] = 'nightly'
        dh = hashlib.sha256(open(extra[0], 'rb').read()).hexdigest()[:16]
        drv = os.path.join(CACHE, 'mirfacts-' + dh)
        if not os.path.exists(drv):
            run(['rustc', '-O', extra[0], '-o', drv + '.tmp'], env, ROOT, 'building the extractor')
            os.rename(drv + '.tmp', drv)
        src = os.path.join(CACHE, 'src')
        sys.path.insert(0, ROOT)
        import prep
        prep.prepare(repo, src, os.path.join(ROOT, 'stub', 'tikv-client'))
        sysroot = subprocess.check_output(['rustc', '--print', 'sysroot'], env=env).decode().strip()
        tmp = os.path.join(CACHE, 'facts.tmp')
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env.update(PWD=src, MIRFACTS_OUT=tmp, LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(CACHE, 'target'))
        # make cargo re-run the workspace crate
        for d in ('lib.rs',):
            for top, dirs, files in os.walk(os.path.join(src, 'src')):
                for f in files: os.utime(os.path.join(top, f))
        run(['cargo', 'check', '--lib', '--bins', '--offline', '-q'], env, src, 'type-checking the working tree')
        for f in FILES:
            if not os.path.exists(os.path.join(tmp, f)): raise BuildError('no facts for ' + f)
        for d in os.listdir(CACHE):
            if d.startswith('facts-'): shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.rename(tmp, out)
        return out

class Db(object):
    def __init__(self, path, fname='monolith.json'):
        d = json.load(open(os.path.join(path, fname)))
        self.crate = d['crate']
        self.tys = d['tys']
        self.adt = {a['path']: a for a in d['adts']}
        self.insts = {i['id']: i for i in d['insts']}
        self.fnrefs = {}
        self.promo_memo = {}
        self.step_limit = 30000
        import models
        self.pyfns = models.PY
        self.bypath = {}
        for i in d['insts']: self.bypath.setdefault(i['path'], []).append(i)
        self.local = [i for i in d['insts'] if i['local']]
        self.impls = {}
        for i in d['insts']:
            if i['local'] and i['itrait'] and not i['closure']:
                tr = i['itrait']
                m = i['path'].split('::')[-1]
                self.impls.setdefault((tr.split('<')[0].split('::')[-1], m), []).append((i['iself'], i))
    def by_promo_owner(self, of, inst):
        if inst['path'] == of and inst['promoted']: return inst
        for i in self.bypath.get(of, ()):
            if i['promoted']: return i
        return inst
    def closure_inst(self, clo):
        if clo.a[1] is not None and clo.a[1] in self.insts: return self.insts[clo.a[1]]
        l = self.bypath.get(clo.a[0])
        return l[0] if l else None
    def trait_impl(self, adt_path, trait, method):
        for t, i in self.impls.get((trait, method), ()):
            if t and t.split('<')[0] == adt_path: return i
        return None
    def fn(self, suffix, pred=None):
        """identity (non-specialised first) instance whose path ends with suffix"""
        c = [i for i in self.local if i['path'] == suffix or i['path'].endswith('::' + suffix) or norm_path(i['path']) == suffix]
        if pred: c = [i for i in c if pred(i)]
        c.sort(key=lambda i: (not i['identity'], i['id']))
        return c[0] if c else None

_np = {}
def norm_path(p):
    if p not in _np:
        from names import strip
        _np[p] = strip(p) if not p.startswith('<') else p
    return _np[p]
