"""Runs scripts on the real rsh binary in a scratch directory, as an unprivileged user."""
import os, pwd, shutil, signal, subprocess, tempfile, threading, time, json, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
UID = GID = 65534


def plain():
    """what the check was started with must not reach the shells it starts: ignored or blocked signals (a job in the background of a script), the file mode mask"""
    os.umask(0o022)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    for n in signal.valid_signals():
        # a handler here is the default action in the shells; SIGPIPE and SIGXFSZ are restored by subprocess
        if signal.getsignal(n) == signal.SIG_IGN and n not in (signal.SIGPIPE, signal.SIGXFSZ):
            signal.signal(n, lambda *a: None)


try:
    plain()
except ValueError:
    pass                    # not the main thread


class Res:
    __slots__ = ('out', 'err', 'rc', 'log', 'files', 'timeout', 'wall', 'shell')

    def brief(self):
        return {'stdout': self.out[:400], 'stderr': self.err[:400], 'rc': self.rc, 'log': [x[:200] for x in self.log[:30]], 'timeout': self.timeout}


class Box:
    def __init__(self, rsh, probe):
        self.root = tempfile.mkdtemp(prefix='rshv.', dir='/tmp')
        os.chmod(self.root, 0o755)
        self.bin = os.path.join(self.root, 'bin')
        os.mkdir(self.bin)
        shutil.copy(rsh, os.path.join(self.bin, 'rsh'))
        shutil.copy(probe, os.path.join(self.bin, 'p'))
        for f in ('rsh', 'p'):
            os.chmod(os.path.join(self.bin, f), 0o755)
        self.n = 0
        self.lock = threading.Lock()
        self.runs = 0
        self.kept = []

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def dir(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.root, 'w%d' % self.n)
        os.mkdir(d)
        os.chown(d, UID, GID)
        return d

    def run(self, script, mode='c', env=None, files=None, timeout=8.0, collect=(), stdin=b'', setup=None, args=None, keep_env=False, sigprep=None, watch=False, fds=0, opts=()):
        d = self.dir()
        self.runs += 1
        try:
            for name, data in (files or {}).items():
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(data if isinstance(data, bytes) else data.encode())
                os.chmod(p, 0o666)
                q = os.path.dirname(p)
                while q != d:
                    os.chmod(q, 0o777)
                    q = os.path.dirname(q)
            if setup:
                setup(d)
            e = {'PATH': self.bin + ':/usr/bin:/bin', 'HOME': d, 'PLOG': os.path.join(d, '.log'), 'PWD': d, 'RUST_BACKTRACE': '0', 'LANG': 'C.UTF-8', 'PS1': ''}
            for k, v in (env or {}).items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v.replace('@D@', d).replace('@P@', self.bin)
            rsh = os.path.join(self.bin, 'rsh')
            if mode == 'c':
                argv = [rsh] + list(opts) + ['-c', script] + list(args or [])
                inp = stdin
            elif mode == 'file':
                with open(os.path.join(d, '.script'), 'w') as f:
                    f.write(script)
                argv = [rsh] + list(opts) + ['.script'] + list(args or [])
                inp = stdin
            else:
                argv = [rsh] + list(opts)
                inp = script if isinstance(script, bytes) else script.encode()

            r = Res()
            t0 = time.time()
            # more descriptors that the shell finds open (it does not know them)
            if fds:
                argv = ['/bin/bash', '-c', 'n=$1; shift; for ((k = 3; k < 3 + n; k++)); do eval "exec $k<>/dev/null"; done; exec "$@"', 'bash', str(fds)] + argv
            pr = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=e,
                                  user=UID, group=GID, extra_groups=[], start_new_session=True, close_fds=True, preexec_fn=sigprep)
            r.timeout = False
            r.shell = None
            try:
                if watch:
                    pr.stdin.write(inp)
                    pr.stdin.flush()
                    r.shell = watch_shell(pr, e['PLOG'], t0 + timeout)
                    inp = b''
                out, err = pr.communicate(inp, timeout=timeout)
            except subprocess.TimeoutExpired:
                r.timeout = True
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except OSError:
                    pass
                pr.kill()
                try:
                    out, err = pr.communicate(timeout=3)
                except subprocess.TimeoutExpired:
                    out, err = b'', b''
            try:
                os.killpg(pr.pid, signal.SIGKILL)
            except OSError:
                pass
            r.wall = time.time() - t0
            out = out.decode('utf-8', 'replace')
            if mode == 'c':
                out = strip_prelude(out)
            r.out, r.err, r.rc = out, err.decode('utf-8', 'replace'), pr.returncode
            try:
                with open(e.get('PLOG', os.path.join(d, '.log')), errors='replace') as f:
                    r.log = f.read().split('\n')[:-1]
            except OSError:
                r.log = []
            r.files = {}
            for c in collect:
                try:
                    with open(os.path.join(d, c), 'rb') as f:
                        r.files[c] = f.read()
                except OSError:
                    r.files[c] = None
            # the scratch path is replaced, so that expectations do not depend on it
            r.out = r.out.replace(d, '@D@')
            r.err = r.err.replace(d, '@D@')
            r.log = [x.replace(d, '@D@').replace(self.bin, '@BIN@') for x in r.log]
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)


def watch_shell(pr, plog, until):
    """once a command of the script has logged WATCH: what the kernel says about the signals of the shell, which waits for more input"""
    while time.time() < until and pr.poll() is None:
        try:
            with open(plog) as f:
                if 'WATCH' in f.read():
                    break
        except OSError:
            pass
        time.sleep(0.005)
    best = None
    for _ in range(6):
        time.sleep(0.02)
        try:
            with open('/proc/%d/status' % pr.pid) as f:
                d = dict(l.rstrip('\n').split(':\t', 1) for l in f if ':\t' in l)
        except OSError:
            return best
        best = {k: int(d[k], 16) for k in ('SigBlk', 'SigIgn', 'SigCgt') if k in d}
        if best.get('SigBlk') == 0:
            break
    return best


def strip_prelude(out):
    """what rsh -c itself prints about its arguments before it evaluates the script"""
    while True:
        i = out.find('\n')
        if i < 0 or not out.startswith('arg: '):
            break
        out = out[i + 1:]
    if out.startswith('["'):
        i = out.find('"]\n')
        if i >= 0:
            out = out[i + 3:]
    return out


class Case:
    """one end-to-end case: a script and what must be observed"""
    def __init__(self, script, check, tag='', **kw):
        self.script, self.check, self.tag, self.kw = script, check, tag, kw


def run_cases(box, cases, deadline=None, workers=8, retry=True):
    """-> (number run, list of failures (case, message, result)). A failure is confirmed by running the case again."""
    fails = []
    done = [0]

    def one(c):
        if deadline and time.time() > deadline:
            return
        if len(fails) >= 3:
            return
        r = box.run(c.script, **c.kw)
        m = c.check(r)
        if m and retry:
            r = box.run(c.script, **c.kw)
            m = c.check(r)
            if m:
                r = box.run(c.script, **dict(c.kw, timeout=c.kw.get('timeout', 8.0) * 2))
                m = c.check(r)
        done[0] += 1
        if m:
            fails.append((c, m[:700], r))
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, cases))
    return done[0], fails


def expect(out=None, log=None, rc=None, files=None, err_contains=None, no_panic=True):
    """a check that compares what is given"""
    def chk(r):
        if r.timeout:
            return 'the script did not end'
        if no_panic and 'panicked at' in r.err:
            return 'the shell or a child of it crashed: ' + r.err[:200]
        if out is not None and r.out != out:
            return 'standard output %r, expected %r' % (r.out[:300], out[:300])
        if log is not None and r.log != log:
            return 'commands run: %r, expected %r' % (r.log[:30], log[:30])
        if rc is not None and r.rc != rc:
            return 'exit status of the shell %r, expected %r' % (r.rc, rc)
        for k, v in (files or {}).items():
            if r.files.get(k) != v:
                return 'file %s holds %r, expected %r' % (k, r.files.get(k), v)
        if err_contains is not None and err_contains not in r.err:
            return 'standard error %r does not contain %r' % (r.err[:200], err_contains)
        return None
    return chk
