import numpy as np
from ops import mb
from ops.space import model, rows


def _z(zs):
    zs = np.asarray(zs, complex)
    return zs.real.copy(), zs.imag.copy()


def exact(m, beta, shift, jobs, zs, matrix=False, scalar=False):
    """jobs: list of (pos, ispin); with matrix, list of ispin."""
    from edpyt.espace import build_espace
    from edpyt.gf_exact import build_gf_exact
    from edpyt.gf2_exact import build_gf2_exact
    try:
        H, V = model(m)
        espace, egs = build_espace(H, V)
        before = rows(espace)
        e, eta = _z(zs)
        out = []
        for j in jobs:
            if matrix:
                g = build_gf2_exact(H, V, espace, beta, egs + shift, ispin=j)
            else:
                pos, s = j
                g = build_gf_exact(H, V, espace, beta, egs + shift, pos, s)
            if scalar:
                out.append(np.array([np.squeeze(g(float(a), float(b))) for a, b in zip(e, eta)]))
            else:
                out.append(np.array(g(e, eta)))
        same = _same(before, rows(espace))
    finally:
        mb.set_params()
    return dict(g=out, same=same)


def _same(a, b):
    return bool(len(a) == len(b) and all(x[0] == y[0] and np.array_equal(x[1], y[1]) and np.array_equal(x[2], y[2]) for x, y in zip(a, b)))


def kept(m, neig, beta, cutoff):
    from edpyt.espace import build_espace, screen_espace
    H, V = model(m)
    espace, egs = build_espace(H, V, None if neig is None else np.array(neig))
    if cutoff is not None:
        screen_espace(espace, egs, beta, cutoff)
    return H, V, espace, egs


def lanczos(m, neig, beta, cutoff, shift, jobs, zs, repeat=False):
    """jobs: list of (pos, ispin, repr, separate)."""
    from edpyt.gf_lanczos import build_gf_lanczos
    try:
        H, V, espace, egs = kept(m, neig, beta, cutoff)
        before = rows(espace)
        e, eta = _z(zs)
        out = []
        same = True
        for pos, s, rep, sep in list(jobs) + (list(jobs) if repeat else []):
            g = build_gf_lanczos(H, V, espace, beta, egs + shift, pos, rep, s, sep)
            out.append([np.broadcast_to(np.asarray(f(e, eta)), e.shape).copy() for f in g] if sep else
                       [np.broadcast_to(np.asarray(g(e, eta)), e.shape).copy()])
            same = same and _same(before, rows(espace))
    finally:
        mb.set_params()
    return dict(g=out, same=same, rows=before, egs=egs)


def matrix_lanczos(m, neig, beta, cutoff, shift, ispin, rep, sep, zs):
    from edpyt.gf2_lanczos import build_gf2_lanczos
    try:
        H, V, espace, egs = kept(m, neig, beta, cutoff)
        before = rows(espace)
        e, eta = _z(zs)
        g = build_gf2_lanczos(H, V, espace, beta, egs + shift, ispin, rep, sep)
        n = H.shape[-1]
        full = g(e, eta)
        items = np.empty((n, n, e.size), complex)
        for i in range(n):
            for j in range(n):
                items[i, j] = g[i, j](e, eta)
        same = _same(before, rows(espace))
    finally:
        mb.set_params()
    return dict(g=[np.array(x) for x in full] if sep else [np.array(full)], items=items, same=same, rows=before, egs=egs)
