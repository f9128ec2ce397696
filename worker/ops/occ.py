import numpy as np
from ops import mb
from ops.gf import kept
from ops.space import rows


def _layout(v, order):
    v = np.array(v, float)
    if order == 'F':
        return np.asfortranarray(v)
    if order == 'C':
        return np.ascontiguousarray(v)
    if order == 'Cslice':            # leading columns of a larger row-ordered array
        big = np.zeros((v.shape[0], v.shape[1] + 3))
        big[:, :v.shape[1]] = v
        return big[:, :v.shape[1]]
    if order == 'Fslice':
        big = np.asfortranarray(np.zeros((v.shape[0], v.shape[1] + 3)))
        big[:, :v.shape[1]] = v
        return big[:, :v.shape[1]]
    if order == 'index':             # fancy column selection, as screening does
        return np.concatenate([v, v], axis=1)[:, np.arange(v.shape[1])]
    raise ValueError(order)


def vectors(n, nup, ndw, v, order, coeffs=None, times=1):
    from edpyt.espace import build_empty_sector
    from edpyt.observs import get_evecs_occupation
    sct = build_empty_sector(n, nup, ndw)
    v = _layout(v, order)
    v0, shape = np.array(v), v.shape
    c = None if coeffs is None else np.array(coeffs, float)
    for _ in range(times):
        if c is None:
            a, b = get_evecs_occupation(v, sct.states.up, sct.states.dw, n)
        else:
            a, b = get_evecs_occupation(v, sct.states.up, sct.states.dw, n, c)
    kept_ = v.shape == shape and np.array_equal(v, v0) and (c is None or np.array_equal(c, coeffs))
    return dict(up=np.array(a), dw=np.array(b), kept=bool(kept_))


def thermal(m, neig, beta, cutoff, shift, orders):
    from edpyt.observs import get_occupation
    try:
        H, V, espace, egs = kept(m, neig, beta, cutoff)
    finally:
        mb.set_params()
    for k, s in enumerate(espace.values()):
        o = orders[k % len(orders)]
        if o != 'as is':
            s.eigvecs = _layout(s.eigvecs, o)
    before = rows(espace)
    n = H.shape[-1]
    a, b = get_occupation(espace, egs + shift, beta, n)
    a2, b2 = get_occupation(espace, egs + shift, beta, n)
    after = rows(espace)
    same = all(x[1].shape == y[1].shape and x[2].shape == y[2].shape and np.array_equal(x[1], y[1]) and np.array_equal(x[2], y[2])
               for x, y in zip(before, after))
    return dict(up=np.array(a), dw=np.array(b), again=bool(np.array_equal(a, a2) and np.array_equal(b, b2)), same=bool(same), rows=before,
                egs=float(egs))


def impurity(n, nup, ndw, v):
    from edpyt.espace import build_empty_sector
    from edpyt.dedlib import get_occupation
    sct = build_empty_sector(n, nup, ndw)
    v = np.array(v, float)
    v0 = v.copy()
    r = [float(get_occupation(v, sct.states.up, sct.states.dw, p)) for p in range(n)]
    return dict(occ=r, kept=bool(np.array_equal(v, v0) and v.shape == v0.shape))
