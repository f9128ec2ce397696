import numpy as np


def kernel():
    """The hybridisation kernel (the one the impurities evaluate); the fixed-grid function where it has another name."""
    from edpyt import fit_cg as f
    k = getattr(f, '_delta', None)
    if k is None:
        def k(p, z):
            if p.ndim == 1 and z.ndim == 1:
                return np.array(f.Delta(z)(p))
            m = max(len(x) for x in (p, z) if x.ndim > 1)
            return np.array([k(np.array(a), np.array(b)) for a, b in zip(np.broadcast_to(p, (m, p.shape[-1])), np.broadcast_to(z, (m, z.shape[-1])))])
    return k


def parts(p, z, vals):
    from edpyt import fit_cg as f
    p, z, vals = np.array(p, float), np.array(z, complex), np.array(vals, complex)
    delta, ddelta = f.Delta(z), f.DDelta(z, p.size)
    chi2, dchi2 = f.Chi2(delta, vals), f.dChi2(delta, ddelta, vals)
    keep = p.copy(), z.copy(), vals.copy()
    r = dict(delta=np.array(kernel()(p, z)), delta2=np.array(delta(p)), ddelta=np.array(ddelta(p)), chi2=float(chi2(p)), dchi2=np.array(dchi2(p)))
    q = p[::-1].copy()
    r['other'] = float(chi2(q))
    r['again'] = bool(float(chi2(p)) == r['chi2'] and np.array_equal(dchi2(p), r['dchi2']))
    r['same'] = bool(all(np.array_equal(a, b) for a, b in zip(keep, (p, z, vals))))
    return r


def many(ps, z):
    """gufunc loops: one parameter set per row, or one grid per row."""
    return np.array(kernel()(np.array(ps, float), np.array(z, complex)))


def bath(nbath, bandwidth, how):
    from edpyt.fit_cg import get_initial_bath
    kw = {} if bandwidth is None else dict(bandwidth=bandwidth)
    if how == 'p':
        p = np.full(2 * nbath, np.nan)
        q = get_initial_bath(p=p, **kw)
        return np.array(q), bool(q is p)
    np.empty(2 * nbath).fill(np.nan)   # dirty the allocator
    return np.array(get_initial_bath(nbath=nbath, **kw)), True


def minimise(p, nmats, vals, beta):
    from edpyt.fit_cg import fit_hybrid
    p, vals = np.array(p, float), np.array(vals, complex)
    v = vals.copy()
    r = fit_hybrid(p, nmats, vals, beta)
    return dict(p=p, same=bool(np.array_equal(v, vals)), ret=r is None)
