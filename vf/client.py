"""Driver side of the worker protocol."""
import os
import select
import signal
import subprocess
import tempfile
from . import codec

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv/bin/python'
TICK = os.sysconf('SC_CLK_TCK')


class Violation(AssertionError):
    """The property does not hold for this input."""


class TargetError(Violation):
    """The code under test raised on an input the property covers."""

    def __init__(self, kind, msg, tb, path):
        super().__init__('%s raised %s: %s\n%s' % (path, kind, msg, tb))
        self.kind, self.msg, self.tb = kind, msg, tb


class TargetCrash(Violation):
    """The process running the code under test died."""


class TargetHang(Violation):
    """A call that normally takes milliseconds did not return."""


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, build_dir, repo='/repo', threads=1, call_timeout=120.0):
        self.build_dir, self.repo, self.threads, self.call_timeout = build_dir, repo, threads, call_timeout
        self.p = None
        self.calls = 0

    def start(self):
        env = {'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', 'HOME': '/root', 'LANG': 'C.UTF-8',
               'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg',
               'OMP_NUM_THREADS': str(self.threads), 'OPENBLAS_NUM_THREADS': '1',
               'PYTHONPYCACHEPREFIX': os.path.join(ROOT, '.build', 'pyc'),
               'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
               'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_btl_vader_single_copy_mechanism': 'none'}
        for k in ('LD_LIBRARY_PATH', 'TMPDIR', 'VERIF_HOOKS'):
            if k in os.environ:
                env[k] = os.environ[k]
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([PYPY, '-B', os.path.join(ROOT, 'worker', 'main.py'), self.repo, self.build_dir],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, bufsize=0)

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.err):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def _err_tail(self):
        try:
            self.err.seek(0)
            return self.err.read()[-1500:].decode(errors='replace')
        except Exception:
            return ''

    def _cpu(self):
        """CPU seconds of the worker and the processes it started."""
        tot, todo = 0., [self.p.pid]
        while todo:
            pid = todo.pop()
            try:
                with open('/proc/%d/stat' % pid) as f:
                    x = f.read().rsplit(')', 1)[1].split()
                tot += sum(int(v) for v in x[11:15]) / TICK
                with open('/proc/%d/task/%d/children' % (pid, pid)) as f:
                    todo += [int(v) for v in f.read().split()]
            except (OSError, IndexError, ValueError):
                pass
        return tot

    def _wait(self, timeout):
        """Did the call return? The limit is one of computing time: a call that got little of the processor because
        the machine is busy is given more time, one that neither computes nor returns is not."""
        c0 = c = self._cpu()
        for _ in range(4):
            if select.select([self.p.stdout], [], [], timeout)[0]:
                return True
            now = self._cpu()
            if now - c0 > .6 * timeout or now - c < .02 * timeout:
                return False
            c = now
        return False

    def raw(self, path, *args, **kwargs):
        """-> ('ok', value) or ('exc', kind, msg, tb)"""
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        self.calls += 1
        timeout = kwargs.pop('_timeout', self.call_timeout)
        try:
            self.p.stdin.write(codec.dumps((path, list(args), dict(kwargs))))
            self.p.stdin.flush()
            if not self._wait(timeout):
                self.stop()
                raise TargetHang('%s did not return within %g s' % (path, timeout))
            return codec.load(self.p.stdout)
        except (EOFError, BrokenPipeError):
            rc = self.p.wait()
            tail = self._err_tail()
            self.stop()
            what = 'signal %s' % signal.Signals(-rc).name if rc < 0 else 'exit status %d' % rc
            raise TargetCrash('%s ended the process (%s)\n%s' % (path, what, tail))

    def call(self, path, *args, **kwargs):
        r = self.raw(path, *args, **kwargs)
        if r[0] == 'ok':
            return r[1]
        raise TargetError(r[1], r[2], r[3], path)
