"""Build pipeline: /repo's current sources -> LLVM bitcode -> engine input."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(VERIF, 'build')
RUST = '/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu'
LT = RUST + '/lib/rustlib/x86_64-unknown-linux-gnu/bin'
STDLIB = RUST + '/lib/rustlib/x86_64-unknown-linux-gnu/lib'
ENV = dict(os.environ)
ENV.update(HOME='/root', PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
STD_PARTS = ['std', 'core', 'alloc', 'panic_unwind', 'hashbrown', 'std_detect', 'gimli', 'addr2line', 'object', 'miniz_oxide', 'libc', 'unwind', 'rustc_demangle', 'adler2', 'memchr', 'cfg_if']
SKIP_DEPS = {'ring', 'syn', 'cc', 'quote', 'proc_macro2', 'autocfg', 'shlex', 'find_msvc_tools', 'unicode_ident', 'version_check'}
OURS = {'harness', 'dummy', 'statics', 'tls', 'wruster', 'wruster_handlers', 'wrusdummy', 'wrustatic'}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    kw.setdefault('env', ENV)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        if b'"reason":"compiler-message"' in r.stdout:
            errs = []
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l).get('message')
                    if m and m.get('level') == 'error':
                        errs.append(m['rendered'])
                except (ValueError, AttributeError):
                    pass
            raise BuildError('\n'.join(errs)[:6000])
        raise BuildError('%s\n%s\n%s' % (' '.join(cmd)[:600], r.stdout.decode(errors='replace')[-3000:], r.stderr.decode(errors='replace')[-6000:]))
    return r.stdout

def src_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, ds, fs in os.walk(root) for f in fs if '/target/' not in d + '/')
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()

def repo_sources():
    out = [os.path.join(REPO, 'Cargo.toml')]
    for c in ('wruster', 'wruster_handlers', 'wrusdummy', 'wrustatic'):
        out += [os.path.join(REPO, c, 'Cargo.toml'), os.path.join(REPO, c, 'src')]
    return [p for p in out if os.path.exists(p)]

# ---- engine -----------------------------------------------------------
def build_engine():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'engine'))
    sh(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'engine'), env=env)

ENGINE = os.path.join(B, 'engine', 'release', 'engine')

# ---- rust -> bitcode --------------------------------------------------
def cargo_bitcode():
    """Compile the harness crate and its dependencies; returns {crate: [bitcode files]}.

    When the tree does not compile with the hooks on, the checks that do without them are still built."""
    err = os.path.join(B, 'hooks.err')
    if os.path.exists(err):
        os.unlink(err)
    first = None
    for feats in ('hooks,dummy,statics', 'hooks,dummy', 'hooks,statics', 'hooks', 'dummy,statics', 'dummy', 'statics', ''):
        try:
            r = cargo_build('harness', feats)
        except BuildError as e:
            first = first or e
            continue
        if first:
            open(err, 'w').write(str(first))
        return r
    raise first

def cargo_build(pkg, feats):
    hooks = 'hooks' in feats
    tgt = os.path.join(B, 'rust' + ('_' + pkg if pkg != 'harness' else '') + ('' if hooks else '_nohooks'))
    stamp = tgt + '.hash'
    cur = src_hash(repo_sources() + [os.path.join(VERIF, d) for d in ('harness', 'dummy', 'statics', 'tls')]) + ' ' + feats
    old = open(stamp).read() if os.path.exists(stamp) else ''
    env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-C no-prepopulate-passes -C codegen-units=1' + (' --cfg wruster_verif' if hooks else ''))
    h = os.path.join(VERIF, pkg)
    if old != cur and os.path.exists(tgt):
        # cargo decides freshness by file times; contents are what counts here
        for c in ('wruster', 'wruster_handlers', 'dummy', 'statics', 'harness') if pkg == 'harness' else ('wruster', 'rustls', pkg):
            subprocess.run(['cargo', 'clean', '--release', '--offline', '-p', c], cwd=h, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in glob.glob(os.path.join(tgt, 'release', 'deps', pkg + '-*.bc')):
        if old != cur:
            os.unlink(f)
    out = sh(['cargo', 'rustc', '--release', '--offline', '--lib', '--message-format=json'] + (['--features', feats] if feats else []) + ['--', '--emit=llvm-bc'], cwd=h, env=env)
    arts = {}
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact' and 'custom-build' not in m['target']['kind'] and 'proc-macro' not in m['target']['kind']:
            for f in m['filenames']:
                if f.endswith('.rlib'):
                    arts.setdefault(m['target']['name'].replace('-', '_'), []).append(f)
    hb = sorted(glob.glob(os.path.join(tgt, 'release', 'deps', pkg + '-*.bc')), key=os.path.getmtime)
    if not hb or 'wruster' not in arts:
        raise BuildError('cargo produced no bitcode')
    open(stamp, 'w').write(cur)
    return arts, hb[-1], cur

def rlib_bitcode(rlib, outdir):
    os.makedirs(outdir, exist_ok=True)
    res = []
    members = sh([LT + '/llvm-ar', 't', rlib]).decode().split()
    base = os.path.basename(rlib)[:-5]
    for i, m in enumerate(members):
        if not m.endswith('.o'):
            continue
        data = sh([LT + '/llvm-ar', 'p', rlib, m])
        p = os.path.join(outdir, '%s_%d.bc' % (base, i))
        if data[:4] in (b'BC\xc0\xde', b'\xde\xc0\x17\x0b'):
            open(p, 'wb').write(data)
            res.append(p)
        elif data[:4] == b'\x7fELF':
            o = p + '.o'
            open(o, 'wb').write(data)
            r = subprocess.run([LT + '/llvm-objcopy', '--dump-section', '.llvmbc=' + p, o, '/dev/null'], stderr=subprocess.DEVNULL)
            os.unlink(o)
            if r.returncode == 0 and os.path.getsize(p) > 0:
                res.append(p)
            elif os.path.exists(p):
                os.unlink(p)
    return res

def build_base(arts):
    """Third-party crates and the standard library, linked once (setup)."""
    out = os.path.join(B, 'base.bc')
    d = os.path.join(B, 'bcs')
    shutil.rmtree(d, ignore_errors=True)
    files = []
    for name, rlibs in sorted(arts.items()):
        if name in OURS or name in SKIP_DEPS:
            continue
        for r in rlibs:
            files += rlib_bitcode(r, d)
    for part in STD_PARTS:
        for r in sorted(glob.glob('%s/lib%s-*.rlib' % (STDLIB, part))):
            files += rlib_bitcode(r, d)
    sh([LT + '/llvm-link', '-o', out] + files)
    shutil.rmtree(d, ignore_errors=True)

def build_model():
    outs = []
    for c in sorted(glob.glob(os.path.join(VERIF, 'model', '*.c'))):
        o = os.path.join(B, os.path.basename(c)[:-2] + '.bc')
        sh(['clang', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-Wall', '-Werror', '-Wno-unused-function', '-emit-llvm', '-c', c, '-o', o])
        outs.append(o)
    return outs

class lock:
    """one build at a time"""
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def tree_key():
    return src_hash(repo_sources() + [os.path.join(VERIF, 'harness', 'src'), os.path.join(VERIF, 'harness', 'Cargo.toml'), os.path.join(VERIF, 'dummy'), os.path.join(VERIF, 'statics'), os.path.join(VERIF, 'tls', 'src'), os.path.join(VERIF, 'tls', 'rustls'), os.path.join(VERIF, 'model')])

def fresh(out, key):
    return os.path.exists(out) and os.path.exists(out + '.key') and open(out + '.key').read() == key

PROGRAMS = ('h_dummy', 'h_statics')
TLS = ('h_tls',)
def variant(harness, points):
    """Which of the engine's inputs a harness is in: the library's, that with preemption points, or that of the programs."""
    return 'tls' if harness.startswith(TLS) else 'prog' if harness.startswith(PROGRAMS) else 'pt' if points else ''

def build_final(var='', native=False, log=None):
    """Regenerate the engine's input from /repo's current tree (kept while every source is unchanged)."""
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    out = os.path.join(B, 'final%s%s.bc' % ('_' + var if var else '', '_native' if native else ''))
    fkey = tree_key() + ' ' + hashlib.sha256(open(ENGINE, 'rb').read()).hexdigest()
    if fresh(out, fkey):
        return out
    linked = os.path.join(B, 'linked%s.bc' % ('_' + var if var in ('prog', 'tls') else ''))
    if not fresh(linked, fkey):
        build_linked(linked, var)
        open(linked + '.key', 'w').write(fkey)
    t2 = time.time()
    sh([ENGINE, 'prep', linked, out] + (['--points'] if var in ('pt', 'tls') else []) + (['--native'] if native else []) + [x for p in PROGRAMS for x in ('--only' if var == 'prog' else '--drop', p)])
    open(out + '.key', 'w').write(fkey)
    if log is not None:
        log.update(link=round(t2 - t0, 2), prep=round(time.time() - t2, 2))
    return out

def build_linked(linked, var):
    arts, hbc, key = cargo_build('tls', 'hooks') if var == 'tls' else cargo_bitcode()
    base = os.path.join(B, 'base.bc')
    if not os.path.exists(base):
        build_base(arts)
    mine = [hbc]
    for c in ('wruster', 'rustls') if var == 'tls' else ('wruster', 'wruster_handlers') + (('dummy', 'statics') if var == 'prog' else ()):
        for r in arts.get(c, []):
            mine += rlib_bitcode(r, os.path.join(B, 'mine'))
    mine += build_model()
    stage = linked.replace('linked', 'stage')
    sh([LT + '/llvm-link', '-o', stage] + mine)
    sh([LT + '/llvm-link', '-o', linked, stage, '--only-needed', base])

def build_native(var=''):
    """The replay program: the same bitcode as machine code, with model/native/replay.c."""
    bc = build_final(var, native=True)
    exe = bc[:-3] + '.exe'
    key = hashlib.sha256(open(bc, 'rb').read() + open(os.path.join(VERIF, 'model', 'native', 'replay.c'), 'rb').read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(exe + '.key') and open(exe + '.key').read() == key:
        return exe
    sh([LT + '/llc', '-O1', '-filetype=obj', '-relocation-model=pic', bc, '-o', exe + '.o'])
    # (the crates that were left out are never called)
    missing = ['-Wl,--defsym=%s=0' % n for n in sh([LT + '/llvm-nm', '-u', exe + '.o']).decode().split() if '4ring' in n or 'ring_core' in n]
    sh(['gcc', '-O1', '-w', '-rdynamic', '-o', exe, os.path.join(VERIF, 'model', 'native', 'replay.c'), exe + '.o', '-lpthread', '-ldl', '-lm', '-lgcc_s'] + missing)
    os.unlink(exe + '.o')
    open(exe + '.key', 'w').write(key)
    return exe

def setup():
    os.makedirs(B, exist_ok=True)
    build_engine()
    arts, _, _ = cargo_bitcode()
    build_base(arts)
    for v in ('', 'pt', 'prog', 'tls'):
        build_final(v)
        build_native(v)

if __name__ == '__main__':
    t = time.time()
    if sys.argv[1] == 'setup':
        setup()
    elif sys.argv[1] == 'final':
        l = {}
        print(build_final('pt' if '--points' in sys.argv else '', native='--native' in sys.argv, log=l), l)
    print('%.1f s' % (time.time() - t))
