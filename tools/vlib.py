"""Build pipeline and driver of the solver-based checks (see DESIGN.md)."""
import os, sys, subprocess, json, hashlib, time, fcntl, shutil, glob, re, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TC = '1.80.0'
T0 = time.time()
def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True); self.path = os.path.join(BUILD, name + '.lock')
    def __enter__(self):
        self.f = open(self.path, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def die(msg, out=''):
    print('CHECK-ERROR ' + msg); sys.stdout.write(out[-6000:]); sys.exit(2)

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout.decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')) + '\nTIMEOUT'

def tree_hash(dirs, exts=None):
    h = hashlib.sha256()
    for d in dirs:
        fs = [d] if os.path.isfile(d) else sorted(os.path.join(r, f) for r, ds, fs in os.walk(d) for f in fs if '/target' not in r and '/.git' not in r and '/build' not in r[len(d):])
        for f in fs:
            if exts and not f.endswith(exts): continue
            h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read())
    return h.hexdigest()

def engine():
    """The symbolic executor, built from engine/."""
    with Lock('engine'):
        rc, out = sh(['make', '-C', os.path.join(VERIF, 'engine'), '-s', '-j8'], 600)
        if rc: die('engine does not build', out)
    return os.path.join(VERIF, 'engine', 'build', 'vsym')

DEPS = {'core': ['core'], 'cli': ['core', 'cli'], 'web': ['core', 'web']}
def repo_hash(crate):
    return tree_hash([os.path.join(REPO, d) for d in DEPS[crate]] + [os.path.join(REPO, 'Cargo.lock'), os.path.join(REPO, 'Cargo.toml')], ('.rs', '.toml', '.lock', '.stpl', '.html', '.css', '.js'))

def cargo_fresh(tdir, h):
    """Forces recompilation of everything that comes from /repo when its content changed (whatever the time stamps say)."""
    m = os.path.join(tdir, 'repo.hash')
    if os.path.exists(m) and open(m).read() == h: return
    for p in glob.glob(os.path.join(tdir, '**', '.fingerprint', '*'), recursive=True):
        if re.match(r'(subweight|swc|vh-)', os.path.basename(p)): shutil.rmtree(p, ignore_errors=True)
    os.makedirs(tdir, exist_ok=True)

def bitcode(crate):
    """The real code and the harness as one LLVM module."""
    vs = engine()
    with Lock('bc-' + crate):
        rh = repo_hash(crate); tdir = os.path.join(BUILD, crate); cargo_fresh(tdir, rh)
        env = {'RUSTUP_TOOLCHAIN': TC, 'RUSTFLAGS': '-C linker-plugin-lto -C no-vectorize-loops -C no-vectorize-slp', 'CARGO_TERM_COLOR': 'never'}
        t = time.time()
        rc, out = sh(['cargo', 'build', '--offline', '--release', '--lib', '--target', 'x86_64-unknown-linux-gnu', '--target-dir', tdir], 800, env, os.path.join(VERIF, 'harness', crate))
        if rc: die('harness %s does not build against /repo' % crate, out)
        open(os.path.join(tdir, 'repo.hash'), 'w').write(rh)
        lib = os.path.join(tdir, 'x86_64-unknown-linux-gnu', 'release', 'libvh_%s.a' % crate)
        bc = os.path.join(BUILD, crate + '.bc')
        key = hashlib.sha256(open(lib, 'rb').read() + open(vs, 'rb').read()).hexdigest(); kf = bc + '.key'
        log('cargo %s %.1fs' % (crate, time.time() - t)); t = time.time()
        if not (os.path.exists(bc) and os.path.exists(kf) and open(kf).read() == key):
            rc, out = sh([vs, 'link', bc, lib, 'prop_*', 'ovr*', 'model_*'], 600)
            if rc: die('linking the bitcode of %s' % crate, out)
            open(kf, 'w').write(key)
        log('link %s %.1fs' % (crate, time.time() - t))
    return bc

def root_of(r, crate):
    """The crate, the name and the options of a root, written [CRATE/]NAME or ([CRATE/]NAME, OPTION, ..)."""
    n, args = (r, []) if isinstance(r, str) else (r[0], list(r[1:]))
    return (*n.split('/'), args) if '/' in n else (crate, n, args)

def replay_bin(crate, profile):
    with Lock('rp-' + crate + profile):
        rh = repo_hash(crate); tdir = os.path.join(BUILD, crate + '-replay'); cargo_fresh(tdir, rh)
        cmd = ['cargo', 'build', '--offline', '--bin', 'replay', '--features', 'replay', '--target-dir', tdir] + (['--release'] if profile == 'release' else [])
        rc, out = sh(cmd, 800, {'RUSTUP_TOOLCHAIN': TC, 'CARGO_TERM_COLOR': 'never'}, os.path.join(VERIF, 'harness', crate))
        if rc: die('native harness %s does not build' % crate, out)
        open(os.path.join(tdir, 'repo.hash'), 'w').write(rh)
    return os.path.join(tdir, 'release' if profile == 'release' else 'debug', 'replay')

def replay(crate, root, model, path, profile='dev', tmo=60):
    """Runs the harness natively on the inputs of `model`. Returns (verdict, output)."""
    with open(path, 'w') as f:
        for k, v in model.items(): f.write('%s %s\n' % (k, v))
    b = replay_bin(crate, profile)
    d = tempfile.mkdtemp(prefix='vsreplay')
    try:
        rc, out = sh([b, root], tmo, {'VS_MODEL': path, 'VS_SCRATCH': d, 'TMPDIR': d, 'RUST_BACKTRACE': '0'}, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc == 0 and 'REPLAY-OK' in out: return 'ok', out
    if rc == 0: return 'void', out
    if rc == 9 and 'REPLAY-ASSERT' in out: return 'violation', out
    if rc == -1: return 'hang', out
    return 'abort', out

def run_root(vs, bc, root, args, deadline, outdir, jobs=8):
    o = os.path.join(outdir, root + '.jsonl')
    rc, out = sh(['timeout', '-k', '5', str(int(deadline + 60)), vs, 'run', bc, '--root', root, '--jobs', str(jobs), '--deadline', str(deadline), '--out', o] + args, deadline + 90)
    ev, st = [], {}; covers, funcs, samples, done = {}, {}, [], None
    for l in open(o, errors='replace') if os.path.exists(o) else []:
        try: d = json.loads(l)
        except ValueError: continue
        if d['ev'] == 'STATS':
            for k, v in d.items():
                if isinstance(v, (int, float)): st[k] = max(st.get(k, 0), v) if k == 'maxq_s' else st.get(k, 0) + v
            for k, v in d['covers'].items(): covers[k] = covers.get(k, 0) + v
            for n, c in d['funcs']: funcs[n] = funcs.get(n, 0) + c
            samples += d['samples']
        elif d['ev'] == 'DONE': done = d
        else: ev.append(d)
    return {'root': root, 'rc': rc, 'events': ev, 'stats': st, 'covers': covers, 'funcs': funcs, 'samples': samples, 'done': done, 'tail': out[-1500:]}
