import io
import sys
import types
import contextlib
import numpy as np
from ops.space import rows


def fock(n, pairs, kind):
    from edpyt.eshow import fock
    cast = {'int': int, 'u4': np.uint32, 'i8': np.int64}[kind]
    return [fock(cast(u), cast(d), n) for u, d in pairs]


def _space(n, items):
    from edpyt.espace import build_empty_sector
    out = {}
    for key, e, v, order in items:
        s = build_empty_sector(n, *key)
        s.eigvals, s.eigvecs = np.array(e, float), np.array(np.array(v, float).reshape(s.d, -1), order=order)
        out[tuple(key)] = s
    return out


def _print(espace, n):
    from edpyt.eshow import eprint
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        eprint(espace, n)
    return f.getvalue()


def synthetic(n, items):
    espace = _space(n, items)
    before = rows(espace)
    text = _print(espace, n)
    after = rows(espace)
    return text, before, all(np.array_equal(a[1], b[1]) and np.array_equal(a[2], b[2]) for a, b in zip(before, after))


def solved(m, symmetry):
    from edpyt.espace import build_espace
    from ops.space import model
    from ops import mb
    try:
        H, V = model(m)
        espace, egs = build_espace(H, V, symmetry=symmetry)
    finally:
        mb.set_params()
    return _print(espace, m['n']), rows(espace)


class Axes:
    def __init__(self):
        self.lines = []

    def hlines(self, y, xmin, xmax, **k):
        y, a, b = np.atleast_1d(y), np.atleast_1d(xmin), np.atleast_1d(xmax)
        self.lines.append((y.tolist(), a.tolist(), b.tolist()))


def diagram(n, items, own):
    """The charge diagram on a recording plot."""
    from edpyt.eshow import pdisplay
    plt, mod = Axes(), types.ModuleType('matplotlib')
    mod.pyplot = plt
    keep = {k: sys.modules.get(k) for k in ('matplotlib', 'matplotlib.pyplot')}
    sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = mod, plt
    ax = Axes() if own else None
    try:
        pdisplay(_space(n, items), **({'ax': ax} if own else {}))
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return (ax if own else plt).lines, plt.lines if own else []
