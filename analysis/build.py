"""Builds what the checks need from /repo's current working tree, under
/verif/.build, keyed by content so that file times never matter."""
import os, sys, re, shlex, subprocess, hashlib, json, shutil, glob, fcntl, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CRATES = ('mockall', 'mockall_derive', 'mockall_double')
TC = 'nightly'
STABLE = '1.86.0'     # the toolchain of the project's stable builds
FLAGS = ['-Zalways-encode-mir', '-Zmir-opt-level=0', '-Zmir-enable-passes=-CheckAlignment,-CheckNull']


class BuildError(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS')}
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e.update(kw)
    return e


def run(cmd, **kw):
    kw.setdefault('env', env())
    kw.setdefault('timeout', 600)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def repo_sources():
    out = []
    for c in CRATES:
        for d, ds, fs in os.walk(os.path.join(REPO, c)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'tests', 'benches', 'examples'))
            for f in sorted(fs):
                if f.endswith('.rs') or f.endswith('.toml') or f.endswith('.md'):
                    out.append(os.path.join(d, f))
    for f in ('Cargo.toml', 'Cargo.lock'):
        out.append(os.path.join(REPO, f))
    return [f for f in out if os.path.exists(f)]


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\1')
    return h.hexdigest()[:20]


_sys = {}


def sysroot(tc=TC):
    if tc not in _sys:
        _sys[tc] = run(['rustc', '+' + tc, '--print', 'sysroot']).stdout.strip()
        if not _sys[tc]:
            raise BuildError('toolchain %s not found' % tc)
    return _sys[tc]


def prune(prefix, keep, n=2):
    ds = [d for d in glob.glob(os.path.join(BUILD, prefix + '-*')) if d != keep and os.path.isdir(d)]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-n] if n else ds:
        shutil.rmtree(d, ignore_errors=True)


def driver(which='extract'):
    src = os.path.join(VERIF, 'driver', which + '.rs')
    d = os.path.join(BUILD, 'driver-%s-%s' % (which, digest([src], sysroot())))
    exe = os.path.join(d, 'xt')
    with lock('driver-' + which):
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            p = run(['rustc', '+' + TC, '--edition', '2021', '-O', src, '-o', exe + '.tmp'])
            if p.returncode:
                raise BuildError('driver: ' + p.stderr[-3000:])
            os.rename(exe + '.tmp', exe)
            prune('driver-' + which, d, 1)
    return exe


BASE_TOML = '''[package]
name = "base"
version = "0.0.0"
edition = "2021"
[features]
nightly = ["mockall/nightly"]
[dependencies]
mockall = { path = "%(r)s/mockall" }
mockall_double = { path = "%(r)s/mockall_double" }
[workspace]
'''


def base(tc=TC, nightly=False):
    """type-checked mockall for a toolchain: (dir, [link args], {crate: rmeta})"""
    mir = tc == TC
    h = digest(repo_sources(), '%s|%s|%s|%s' % (sysroot(tc), nightly, mir, BASE_TOML + ' '.join(FLAGS) + 'v2'))
    name = 'base-%s%s' % (tc.replace('.', '_'), '-ni' if nightly else '')
    d = os.path.join(BUILD, name + '-' + h)
    with lock(name):
        if not os.path.exists(os.path.join(d, 'ok')):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(os.path.join(d, 'src'))
            with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
                f.write(BASE_TOML % dict(r=REPO))
            with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
                f.write('')
            if os.path.exists(os.path.join(REPO, 'Cargo.lock')):
                shutil.copy(os.path.join(REPO, 'Cargo.lock'), d)
            cmd = ['cargo', '+' + tc, 'check', '--offline', '-v', '--message-format=json', '--target-dir', os.path.join(d, 't')]
            if nightly:
                cmd += ['--features', 'nightly']
            e = env()
            if mir:
                e['RUSTFLAGS'] = ' '.join(FLAGS) + ' --cap-lints=allow'
            p = run(cmd, cwd=d, env=e)
            if p.returncode:
                raise BuildError('mockall does not build (%s): %s' % (tc, (p.stdout + p.stderr)[-3000:]))
            arts = {}
            dirs = set()
            for line in p.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get('reason') == 'compiler-artifact':
                    for f in m['filenames']:
                        dirs.add(os.path.dirname(f))
                        arts.setdefault(m['target']['name'].replace('-', '_'), f)
                        if f.endswith('.rmeta'):
                            arts[m['target']['name'].replace('-', '_')] = f
            cmds = {}
            for line in p.stderr.splitlines():
                m = re.match(r'\s*Running `(.*--crate-name (\w+) .*)`', line)
                if m and m.group(2) in CRATES:
                    cmds[m.group(2)] = m.group(1)
            with open(os.path.join(d, 'ok'), 'w') as f:
                json.dump([sorted(dirs), arts, cmds], f)
            prune(name, d, 1)
    with open(os.path.join(d, 'ok')) as f:
        dirs, arts, _ = json.load(f)
    largs = []
    for x in dirs:
        largs += ['-L', 'dependency=' + x]
    return d, largs, arts


def externs(arts, names=('mockall', 'mockall_double')):
    out = []
    for n in names:
        out += ['--extern', '%s=%s' % (n, arts[n])]
    return out


def extract(src, name, nightly=False, crate='corp', cfg=()):
    """run the extraction driver on a corpus file: (json or None, stderr)"""
    xt = driver()
    d, largs, arts = base(TC, nightly)
    w = os.path.join(BUILD, 'work-%s-%d' % (name, os.getpid()))
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        sf = os.path.join(w, 'corp.rs')
        with open(sf, 'w') as f:
            f.write(src)
        out = os.path.join(w, 'out.json')
        cmd = [xt, '--sysroot', sysroot(), '--edition', '2021', '--crate-type', 'lib', '--crate-name', crate,
               '--error-format=json', sf] + FLAGS + largs + externs(arts) + ['--emit=metadata', '-o', os.path.join(w, 'x.rmeta')]
        for c in cfg:
            cmd += ['--cfg', c]
        if nightly:
            cmd += ['--cfg', 'nightly_feature']
        p = run(cmd, env=env(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), XT_OUT=out))
        if p.returncode or not os.path.exists(out):
            return None, p.stderr
        with open(out) as f:
            return json.load(f), p.stderr
    finally:
        shutil.rmtree(w, ignore_errors=True)


@contextlib.contextmanager
def workdir(name):
    w = os.path.join(BUILD, 'work-%s-%d' % (name, os.getpid()))
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        yield w
    finally:
        shutil.rmtree(w, ignore_errors=True)


def diags(stderr, fname):
    """compiler messages as (level, code, line, message); line is that of the
    first primary span in the file itself, following macro expansion"""
    out = []
    for line in stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if 'message' not in m or m.get('level') not in ('error', 'warning', 'error: internal compiler error'):
            continue
        ln = None
        for prim in (True, False):
            for sp in m.get('spans', []):
                if prim and not sp.get('is_primary'):
                    continue
                x = sp
                while x and os.path.basename(x['file_name']) != fname and x.get('expansion'):
                    x = x['expansion']['span']
                while x and x.get('expansion'):
                    y = x['expansion']['span']
                    if os.path.basename(y['file_name']) != fname:
                        break
                    x = y
                if x and os.path.basename(x['file_name']) == fname:
                    ln = x['line_start']
                    break
            if ln:
                break
        code = (m.get('code') or {}).get('code') if m.get('code') else None
        out.append((m['level'], code, ln, m['message']))
    return out


def check(src, name, tc=TC, nightly=False, crate='corp', args=(), ctype='lib', emit='metadata'):
    """type-check a source text against /repo's mockall: (ok, diagnostics)"""
    d, largs, arts = base(tc, nightly)
    with workdir(name) as w:
        with open(os.path.join(w, 'corp.rs'), 'w') as f:
            f.write(src)
        cmd = ['rustc', '+' + tc, '--edition', '2021', '--crate-type', ctype, '--crate-name', crate, '--error-format=json', 'corp.rs'] + largs + externs(arts) + ['--emit=' + emit, '-o', os.path.join(w, 'x.out')] + list(args)
        if nightly:
            cmd += ['--cfg', 'nightly_feature']
        p = run(cmd, cwd=w)
        return p.returncode == 0, diags(p.stderr, 'corp.rs')


def items(src, name, nightly=False, crate='corp', args=()):
    """run the item driver on a source text: (list of items or None, diagnostics)"""
    xt = driver('items')
    d, largs, arts = base(TC, nightly)
    with workdir(name) as w:
        with open(os.path.join(w, 'corp.rs'), 'w') as f:
            f.write(src)
        out = os.path.join(w, 'out.jsonl')
        cmd = [xt, '--sysroot', sysroot(), '--edition', '2021', '--crate-type', 'lib', '--crate-name', crate,
               '--error-format=json', 'corp.rs'] + largs + externs(arts) + ['--emit=metadata', '-o', os.path.join(w, 'x.rmeta')] + list(args)
        if nightly:
            cmd += ['--cfg', 'nightly_feature']
        p = run(cmd, cwd=w, env=env(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), XT_OUT=out))
        dg = diags(p.stderr, 'corp.rs')
        if p.returncode or not os.path.exists(out):
            return None, dg or [('error', None, None, p.stderr[-500:])]
        with open(out) as f:
            return [json.loads(l) for l in f], dg


def crate(name, which, nightly=False):
    """run a driver on one of the project's own crates, compiled as its
    dependents compile it: list of JSON lines"""
    d, _, _ = base(TC, nightly)
    with open(os.path.join(d, 'ok')) as f:
        cmd = json.load(f)[2].get(name)
    if cmd is None:
        raise BuildError('no compiler command recorded for ' + name)
    a = shlex.split(cmd)
    e = {}
    while not a[0].endswith('rustc'):
        if '=' in a[0]:
            k, v = a[0].split('=', 1)
            e[k] = v
        a.pop(0)
    a.pop(0)
    xt = driver(which)
    with workdir('crate-%s-%s' % (name, which)) as w:
        out = os.path.join(w, 'out.jsonl')
        args, skip = [], False
        for x in a:
            if skip:
                skip = False
            elif x in ('--out-dir', '--error-format', '--json'):
                skip = True
            elif not re.match(r'--(error-format|json|out-dir|emit)=|-Cincremental', x):
                args.append(x)
        p = run([xt, '--sysroot', sysroot()] + args + ['--emit=metadata', '--out-dir', w], cwd=os.path.join(REPO, name) if not os.path.exists(os.path.join(d, 'x')) else d,
                env=env(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), XT_OUT=out, **e))
        if p.returncode or not os.path.exists(out):
            raise BuildError('driver %s on %s: %s' % (which, name, p.stderr[-1500:]))
        with open(out) as f:
            return [json.loads(l) for l in f]
