"""Building the implementation from /repo and running programs on it."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('X1_REPO', '/repo')
JOBS = os.cpu_count() or 4

_scratch = None


def scratch():
    """a directory of this run, removed at exit"""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 2 << 30:
                base = None
        _scratch = tempfile.mkdtemp(prefix='x1v-', dir=base)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode('utf-8', 'replace')[-3000:])


def build(tools=False, opt='-O1'):
    """compile compiler and simulator from the working tree; returns paths"""
    b = os.path.join(scratch(), 'build')
    os.makedirs(b + '/bin', exist_ok=True)
    os.makedirs(b + '/library', exist_ok=True)
    sim = os.path.join(REPO, 'simulator')
    srcs = sorted(f for f in os.listdir(sim) if f.endswith('.cpp'))
    jobs = []
    with ThreadPoolExecutor(JOBS) as ex:
        objs = []
        for f in srcs:
            o = os.path.join(b, f[:-4] + '.o')
            objs.append(o)
            jobs.append(ex.submit(_run, ['g++', '-std=c++17', opt, '-w', '-DVERSION_STRING="0.0"',
                                         '-I' + sim, '-c', os.path.join(sim, f), '-o', o]))
        comp = os.path.join(REPO, 'compiler')
        csrc = [os.path.join(comp, f) for f in sorted(os.listdir(comp)) if f.endswith('.c')]
        jobs.append(ex.submit(_run, ['gcc', opt, '-w', '-I' + comp] + csrc + ['-o', b + '/bin/x1algc', '-lm']))
        if tools:
            for t in ('objfile', 'from5track'):
                jobs.append(ex.submit(_run, ['g++', '-std=c++17', opt, '-w',
                                             os.path.join(REPO, 'library', t + '.cc'), '-o', b + '/bin/' + t]))
        for j in jobs:
            j.result()
    _run(['g++', '-o', b + '/bin/x1sim'] + objs)
    shutil.copy(os.path.join(REPO, 'library', 'x1algol.lib'), b + '/library/x1algol.lib')
    return X1(b, [o for o in objs if not o.endswith('/main.o')])


def seconds(t, tz=None):
    """of the day; tz: hours east of Greenwich"""
    if tz is not None:
        return int(t + tz * 3600) % 86400
    t = time.localtime(t)
    return t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec


class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'clk')

    def __init__(self, rc, out, err, timeout=False, clk=(0, 0)):
        self.clk = clk
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


class X1:
    def __init__(self, root, objs):
        self.root = root
        self.objs = objs
        self.lib = root + '/library/x1algol.lib'
        self.sim = root + '/bin/x1sim'
        self.comp = root + '/bin/x1algc'
        self._n = 0
        self._lock = threading.Lock()

    def env(self, **kw):
        e = {'PATH': self.root + '/bin:/usr/bin:/bin', 'HOME': self.root, 'LC_ALL': 'C.UTF-8',
             'X1ALGOL_LIB': self.lib}
        e.update(kw)
        return e

    def newdir(self):
        with self._lock:
            self._n += 1
            d = os.path.join(scratch(), 'run', '%06d' % self._n)
        os.makedirs(d)
        return d

    def exec(self, args, cwd, stdin=b'', timeout=20, env=None, maxout=1 << 20, tz=None):
        if tz is not None:
            env = dict(env if env is not None else self.env(), TZ='XXX%+d' % -tz)
        # output goes to files, so that the limit on file sizes stops a runaway program
        with tempfile.TemporaryFile(dir=scratch()) as fo, tempfile.TemporaryFile(dir=scratch()) as fe:
            t0 = seconds(time.time(), tz)
            try:
                p = subprocess.run(['timeout', '-s', 'KILL', str(timeout)] + args, cwd=cwd, input=stdin,
                                   stdout=fo, stderr=fe,
                                   env=env if env is not None else self.env(),
                                   preexec_fn=_limits)
            except OSError as e:
                raise BuildError(str(e))
            to = p.returncode in (137, -9)
            fo.seek(0)
            fe.seek(0)
            return Result(p.returncode, fo.read(maxout), fe.read(maxout), to, (t0, seconds(time.time(), tz) + 1))

    def run(self, src, stdin=b'', timeout=20, args=(), keep=False, tz=None):
        """compile and run a source text (str or bytes)"""
        d = self.newdir()
        if isinstance(src, str):
            src = src.encode('utf-8')
        with open(d + '/p.a60', 'wb') as f:
            f.write(src)
        r = self.exec([self.sim] + list(args) + ['p.a60'], d, stdin, timeout, tz=tz)
        if keep:
            return r, d
        shutil.rmtree(d, ignore_errors=True)
        return r

    def compile(self, src, timeout=20, libs=None):
        d = self.newdir()
        if isinstance(src, str):
            src = src.encode('utf-8')
        with open(d + '/p.a60', 'wb') as f:
            f.write(src)
        r = self.exec([self.comp, 'p.a60'] + ([self.lib] if libs is None else libs), d, b'', timeout)
        shutil.rmtree(d, ignore_errors=True)
        return r


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (16 << 20, 16 << 20))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def pmap(f, xs, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(f, xs))
