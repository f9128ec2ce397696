"""Stand-ins for third-party packages that cannot be imported under PyPy here.

* scipy's two pybind11 extension modules abort the interpreter when they are loaded:
  scipy.spatial._distance_pybind (never used by edpyt) and
  scipy.fft._pocketfft.pypocketfft (replaced by numpy.fft for the transforms edpyt uses).
* matplotlib, ase, traitlets: plotting helpers and one stray import, never called.
"""
import sys
import types
import importlib.machinery
import numpy as np


class _Lax(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def missing(*a, **k):
            raise RuntimeError('%s.%s is not available in this sandbox' % (self.__name__, n))
        return missing


def _norm(out, axes_len, inorm):
    if inorm == 0:
        return out
    return out / (np.sqrt(axes_len) if inorm == 1 else axes_len)


def _c2c(a, axes=None, forward=True, inorm=0, out=None, workers=1):
    a = np.asarray(a)
    axes = tuple(range(a.ndim)) if axes is None else tuple(np.atleast_1d(axes))
    n = 1
    r = a.astype(complex)
    for ax in axes:
        m = a.shape[ax]
        n *= m
        r = np.fft.fft(r, axis=ax) if forward else np.fft.ifft(r, axis=ax) * m
    r = _norm(r, n, inorm)
    if out is not None:
        out[...] = r
        return out
    return r


def _r2c(a, axes=None, forward=True, inorm=0, out=None, workers=1):
    a = np.asarray(a, float)
    axes = tuple(range(a.ndim)) if axes is None else tuple(np.atleast_1d(axes))
    r = _c2c(a, axes, forward, inorm)
    sl = [slice(None)] * a.ndim
    sl[axes[-1]] = slice(0, a.shape[axes[-1]] // 2 + 1)
    return r[tuple(sl)]


class _LaxFinder:
    NAMES = ('matplotlib', 'ase', 'traitlets')

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.NAMES:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = _Lax(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


def install():
    m = _Lax('scipy.spatial._distance_pybind')
    sys.modules[m.__name__] = m
    p = _Lax('scipy.fft._pocketfft.pypocketfft')
    p.c2c, p.r2c = _c2c, _r2c
    sys.modules[p.__name__] = p
    sys.meta_path.append(_LaxFinder())
