"""Builds everything a check needs from /repo's current working tree; cached under /verif/build by content."""
import fcntl, hashlib, os, shutil, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RSH_REPO', '/repo')
B = os.path.join(V, 'build')


def tree_files():
    out = []
    for base in ('src', 'build.rs', 'Cargo.toml', '.cargo', 'rust-toolchain', 'rust-toolchain.toml'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            out.append(p)
        for d, _, fs in os.walk(p):
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in tree_files():
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for x in extra:
        with open(x, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.p = os.path.join(B, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo_env():
    e = dict(os.environ)
    home = e.get('HOME') or '/root'
    e.update(HOME=home, PATH=home + '/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin'), RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_INCREMENTAL='1', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='')
    return e


def prune(dirpath, keep=6):
    try:
        ds = sorted((os.path.join(dirpath, d) for d in os.listdir(dirpath)), key=os.path.getmtime)
    except OSError:
        return
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def rsh():
    """path of the rsh binary built from the current tree"""
    with Lock('rsh'):
        out = os.path.join(B, 'out', tree_hash())
        exe = os.path.join(out, 'rsh')
        if os.path.exists(exe):
            return exe
        lock = os.path.join(B, 'lock', 'rsh', 'Cargo.lock')
        os.makedirs(os.path.dirname(lock), exist_ok=True)
        shutil.copy('/opt/vp/Cargo.lock', lock)
        e = cargo_env()
        e.update(CARGO_TARGET_DIR=os.path.join(B, 'target'), CARGO_RESOLVER_LOCKFILE_PATH=lock)
        # the crate itself is always built from the files as they are now, whatever their time stamps
        for d in ('.fingerprint',):
            p = os.path.join(B, 'target', 'debug', d)
            if os.path.isdir(p):
                for x in os.listdir(p):
                    if x.startswith('rsh-'):
                        shutil.rmtree(os.path.join(p, x), ignore_errors=True)
        r = subprocess.run(['cargo', 'build', '--offline', '--bin', 'rsh'], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError('building rsh failed:\n' + r.stdout.decode()[-3000:])
        os.makedirs(out, exist_ok=True)
        shutil.copy(os.path.join(B, 'target', 'debug', 'rsh'), exe + '.tmp')
        os.rename(exe + '.tmp', exe)
        prune(os.path.join(B, 'out'))
        return exe


def probe():
    src = os.path.join(V, 'e2e', 'probe.c')
    with Lock('probe'):
        out = os.path.join(B, 'p')
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            subprocess.run(['gcc', '-O1', '-static', '-w', '-o', out + '.tmp', src], check=True)
            os.rename(out + '.tmp', out)
        return out


def dump():
    """path of the MIR dump of the current tree; raises RuntimeError when it cannot be made"""
    with Lock('dump'):
        md = os.path.join(B, 'mirdump', 'debug', 'mirdump')
        if not os.path.exists(md) or os.path.getmtime(md) < os.path.getmtime(os.path.join(V, 'mirdump', 'src', 'main.rs')):
            r = subprocess.run([os.path.join(V, 'build_tools.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise RuntimeError('building mirdump failed:\n' + r.stdout.decode()[-2000:])
        out = os.path.join(B, 'dumps', tree_hash([os.path.join(V, 'mirdump', 'src', 'main.rs'), os.path.join(V, 'dump.sh')]))
        f, g = os.path.join(out, 'dump.json'), os.path.join(out, 'grammar.rs')
        if os.path.exists(f) and os.path.exists(g):
            return f
        os.makedirs(out, exist_ok=True)
        r = subprocess.run([os.path.join(V, 'dump.sh'), f + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(f + '.tmp'):
            raise RuntimeError('dumping the MIR failed:\n' + r.stdout.decode()[-2000:])
        # the parser generated for this very dump
        made = []
        for d, _, fs in os.walk(os.path.join(B, 'nightly', 'debug', 'build')):
            made += [os.path.join(d, x) for x in fs if x == 'grammar.rs' and os.path.basename(d) == 'out']
        if made:
            shutil.copy(max(made, key=os.path.getmtime), g)
        os.rename(f + '.tmp', f)
        prune(os.path.join(B, 'dumps'))
        return f


def native(name, subst):
    """a native harness around source files of the current tree; raises RuntimeError when it does not compile"""
    with Lock('native'):
        with open(os.path.join(V, 'native', name + '.rs')) as f:
            src = f.read()
        h = hashlib.sha256(src.encode())
        for k, p in subst.items():
            p = os.path.join(REPO, p)
            src = src.replace(k, p)
            if not os.path.exists(p):
                raise RuntimeError('no such file: ' + p)
            with open(p, 'rb') as f:
                h.update(f.read())
        d = os.path.join(B, 'native')
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, name + '-' + h.hexdigest()[:20])
        if os.path.exists(exe):
            return exe
        for x in os.listdir(d):
            if x.startswith(name + '-') and len(os.listdir(d)) > 12:
                os.unlink(os.path.join(d, x))
        with open(exe + '.rs', 'w') as f:
            f.write(src)
        r = subprocess.run(['rustc', '--edition', '2021', '-O', '-A', 'warnings', '-o', exe + '.tmp', exe + '.rs'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
        if r.returncode:
            raise RuntimeError('the harness does not compile:\n' + r.stdout.decode()[-1500:])
        os.rename(exe + '.tmp', exe)
        return exe


if __name__ == '__main__':
    t = time.time()
    print(rsh(), '%.1fs' % (time.time() - t)); t = time.time()
    print(probe(), '%.1fs' % (time.time() - t)); t = time.time()
    print(dump(), '%.1fs' % (time.time() - t))
