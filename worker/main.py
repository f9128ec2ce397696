"""Worker process (PyPy): imports the code under test from the working tree and executes
calls sent by the driver over a pipe.  argv: REPO BUILD_DIR"""
import os
import sys
import io
import types
import traceback
import warnings
import importlib
import importlib.abc
import importlib.machinery
import importlib.util

REPO, BUILD = sys.argv[1], sys.argv[2]
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True

# The protocol owns the original stdin/stdout; anything the code prints goes to fd 1 -> log.
_in = os.fdopen(os.dup(0), 'rb')
_out = os.fdopen(os.dup(1), 'wb')
_log = os.open(os.devnull, os.O_RDWR)
os.dup2(_log, 0)
os.dup2(_log, 1)

sys.path.insert(0, os.path.join(HERE, 'stubs'))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, '..'))
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import numba_stub  # noqa: E402
numba_stub.install()
import env_stubs  # noqa: E402
env_stubs.install()
from vf import codec  # noqa: E402


class NativeFinder(importlib.abc.MetaPathFinder):
    """Compiled modules come from this run's own build, never from what lies in the working tree."""

    def find_spec(self, name, path=None, target=None):
        parts = name.split('.')
        if parts[0] not in ('edpyt', 'edpyt_backend') or len(parts) < 2:
            return None
        d = os.path.join(BUILD, *parts[:-1])
        if not os.path.isdir(d):
            return None
        for f in os.listdir(d):
            if f.startswith(parts[-1] + '.') and f.endswith('.so'):
                p = os.path.join(d, f)
                loader = importlib.machinery.ExtensionFileLoader(name, p)
                return importlib.util.spec_from_file_location(name, p, loader=loader)
        if os.path.exists(os.path.join(REPO, *parts) + '.py') or os.path.isdir(os.path.join(REPO, *parts)):
            return None
        return None


sys.meta_path.insert(0, NativeFinder())


def _block_stale_so():
    # refuse compiled modules straight from the working tree
    class Block(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            parts = name.split('.')
            if parts[0] in ('edpyt', 'edpyt_backend') and len(parts) == 2 and \
                    not os.path.exists(os.path.join(REPO, *parts) + '.py'):
                raise ImportError('no compiled module built for %s in this run' % name)
            return None
    sys.meta_path.insert(1, Block())


_block_stale_so()

# libfit.so is loaded by path next to the wrapper: redirect to this run's build.
import ctypes  # noqa: E402
_CDLL = ctypes.CDLL


class CDLL(_CDLL):
    def __init__(self, name, *a, **k):
        n = name if name is None else str(name)
        if n is not None and n.startswith(os.path.join(REPO, 'edpyt_backend') + os.sep):
            n = os.path.join(BUILD, 'edpyt_backend', os.path.basename(n))
        super().__init__(n, *a, **k)


ctypes.CDLL = CDLL


def resolve(path):
    mod, _, attr = path.partition(':')
    o = importlib.import_module(mod)
    for a in attr.split('.'):
        o = getattr(o, a)
    return o


def main():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    while True:
        try:
            msg = codec.load(_in)
        except EOFError:
            os._exit(0)
        path, args, kwargs = msg
        sink = io.StringIO()
        so = sys.stdout
        sys.stdout = sink
        try:
            try:
                r = ('ok', resolve(path)(*args, **kwargs))
            finally:
                sys.stdout = so
            b = codec.dumps(r)
        except SystemExit as e:
            b = codec.dumps(('exc', 'SystemExit', str(e), traceback.format_exc()[-3000:]))
        except BaseException as e:  # noqa
            b = codec.dumps(('exc', type(e).__name__, str(e)[:2000], traceback.format_exc()[-3000:]))
        _out.write(b)
        _out.flush()


if __name__ == '__main__':
    main()
