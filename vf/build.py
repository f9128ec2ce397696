"""Builds the native parts of /repo's current working tree into a scratch directory.
Nothing is written inside /repo.  A content hash keys the result, so a changed tree never
meets an old binary."""
import hashlib
import os
import shutil
import subprocess
import sys
import fcntl

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, '.build')


class BuildError(Exception):
    pass


def _files(sub, exts, extra=()):
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, sub)):
        ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'tests', 'build'))
        for f in sorted(fs):
            if f.endswith(exts) or f in extra:
                out.append(os.path.join(d, f))
    return out


def _hash(files, salt):
    h = hashlib.sha256(salt.encode())
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd, cwd, log):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('VERIF_SEED', None)
    env['PATH'] = '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin'
    with open(log, 'ab') as fh:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=fh, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           timeout=600)
    if r.returncode:
        with open(log, errors='replace') as fh:
            raise BuildError('build failed (%s):\n%s' % (cmd, fh.read()[-3000:]))


EXT_SETUP = r'''
import sys, re
want = sys.argv.pop(1)
src = open("setup.py").read()
import setuptools
_setup = setuptools.setup
def setup(**k):
    k["ext_modules"] = [e for e in k.get("ext_modules", []) if e.name.split(".")[-1] == want]
    k.pop("packages", None); k["packages"] = ["edpyt"]
    return _setup(**k)
setuptools.setup = setup
exec(compile(src, "setup.py", "exec"))
'''


def _build_ext(dst, which):
    """One Cython extension, built by the repository's own setup.py on a scratch copy."""
    w = dst + '.w'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.join(w, 'edpyt'))
    stale = {os.path.basename(p)[:-4] + '.c' for p in _files('edpyt', ('.pyx',))}
    shutil.copy(os.path.join(REPO, 'setup.py'), w)
    for p in _files('edpyt', ('.pyx', '.pxd', '.pxi', '.c', '.h', '.py')):
        if os.path.basename(p) in stale:
            continue
        q = os.path.join(w, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copy(p, q)
    with open(os.path.join(w, '_one.py'), 'w') as fh:
        fh.write(EXT_SETUP)
    _run([PY, '_one.py', which, '-q', 'build_ext', '--inplace', '--force'], w, w + '.log')
    sos = [f for f in os.listdir(os.path.join(w, 'edpyt')) if f.startswith(which + '.') and f.endswith('.so')]
    if not sos:
        raise BuildError('setup.py built no %s:\n%s' % (which, open(w + '.log', errors='replace').read()[-3000:]))
    os.makedirs(dst, exist_ok=True)
    for f in sos:
        shutil.copy(os.path.join(w, 'edpyt', f), dst)
    shutil.rmtree(w, ignore_errors=True)


def _copy_backend(w):
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for p in _files('edpyt_backend', ('.c', '.h', '.sh', '.py')):
        if os.path.basename(p) == '_fit.c':
            continue
        q = os.path.join(w, os.path.relpath(p, os.path.join(REPO, 'edpyt_backend')))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copy(p, q)


def _build_fit(dst, cffi):
    w = dst + '.w'
    _copy_backend(w)
    _run(['bash', '-e', 'build_shared.sh'], w, w + '.log')
    os.makedirs(dst, exist_ok=True)
    shutil.copy(os.path.join(w, 'libfit.so'), dst)
    if cffi:
        # the cffi module's rpath is the build folder: keep libfit.so there under its final place
        shutil.copy(os.path.join(w, 'libfit.so'), dst)
        # point the cffi build at dst
        for f in os.listdir(w):
            if f.endswith(('.h', 'fit.py')):
                shutil.copy(os.path.join(w, f), dst)
        _run([PY, 'fit.py'], dst, w + '.log')
    shutil.rmtree(w, ignore_errors=True)


def _build_asan(dst, _):
    """The C backend plus the sanitizer driver of worker/fit_driver.c in one executable."""
    w = dst + '.w'
    _copy_backend(w)
    os.makedirs(dst, exist_ok=True)
    srcs = sorted(f for f in os.listdir(w) if f.endswith('.c') and os.path.isfile(os.path.join(w, f)))
    _run(['gcc', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
          '-fno-omit-frame-pointer', '-w', '-I.', '-o', os.path.join(dst, 'fit_driver')] + srcs +
         [os.path.join(ROOT, 'worker', 'fit_driver.c'), '-lm'], w, w + '.log')
    shutil.rmtree(w, ignore_errors=True)


TARGETS = {
    'psparse': ('edpyt', ('.pyx', '.pxd', '.pxi', '.c', '.h'), ('setup.py',), lambda d: _build_ext(d, '_psparse'), 'edpyt'),
    'cf': ('edpyt', ('.pyx', '.pxd', '.pxi', '.c', '.h'), ('setup.py',), lambda d: _build_ext(d, '_continued_fraction'), 'edpyt'),
    'fit': ('edpyt_backend', ('.c', '.h', '.sh', 'fit.py'), (), lambda d: _build_fit(d, True), 'edpyt_backend'),
    'asan': ('edpyt_backend', ('.c', '.h'), (), lambda d: _build_asan(d, None), 'asan'),
}


def build(names):
    """Build the named targets (in parallel) and return a directory laid out as
    <dir>/edpyt/_x.so, <dir>/edpyt_backend/..., <dir>/asan/fit_driver."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        pids = []
        dirs = {}
        for n in names:
            sub, exts, extra, fn, pkg = TARGETS[n]
            files = _files(sub, exts, extra)
            if sub == 'edpyt':
                files.append(os.path.join(REPO, 'setup.py'))
            if n == 'asan':
                files.append(os.path.join(ROOT, 'worker', 'fit_driver.c'))
            with open(os.path.abspath(__file__)) as fh:
                salt = fh.read()
            d = os.path.join(CACHE, n + '-' + _hash(files, salt))
            dirs[n] = (d, pkg)
            if not os.path.exists(os.path.join(d, '.done')):
                shutil.rmtree(d, ignore_errors=True)
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        fn(d)
                        open(os.path.join(d, '.done'), 'w').close()
                        rc = 0
                    except BaseException as e:  # noqa
                        sys.stderr.write('%s\n' % e)
                    finally:
                        os._exit(rc)
                pids.append((n, pid))
        bad = []
        for n, pid in pids:
            _, st = os.waitpid(pid, 0)
            if st:
                bad.append(n)
        if bad:
            raise BuildError('native build failed: ' + ', '.join(bad))
        tag = hashlib.sha256(repr(sorted((n, d) for n, (d, _) in dirs.items())).encode()).hexdigest()[:16]
        top = os.path.join(CACHE, 'run-' + tag)
        if not os.path.exists(os.path.join(top, '.done')):
            shutil.rmtree(top, ignore_errors=True)
            os.makedirs(top)
            for n, (d, pkg) in dirs.items():
                os.makedirs(os.path.join(top, pkg), exist_ok=True)
                for f in os.listdir(d):
                    if f.endswith('.so') or f == 'fit_driver':
                        os.symlink(os.path.join(d, f), os.path.join(top, pkg, f))
            open(os.path.join(top, '.done'), 'w').close()
        return top
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(sys.argv[1:]), time.time() - t)
