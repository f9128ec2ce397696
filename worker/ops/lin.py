import numpy as np


def _mv(A, log=None):
    def mv(x):
        assert x.shape == (len(A),)
        return A @ x
    return mv


def recursion(A, v, maxn=None, ND=None, second=None):
    """second: None or (select, (lo, hi), vectors?)"""
    from edpyt.lanczos import build_sl_tridiag, sl_solve, ZeroNormInitialVector
    A = np.array(A, float)
    A0 = A.copy()
    kw = {}
    if maxn is not None:
        kw['maxn'] = maxn
    if ND is not None:
        kw['ND'] = ND
    try:
        a, b = build_sl_tridiag(_mv(A), np.array(v, float), **kw)
    except ZeroNormInitialVector:
        return 'zero'
    out = dict(a=np.array(a), b=np.array(b), kept=bool(np.array_equal(A, A0)))
    if second is not None:
        sel, rng, vecs = second
        if vecs:
            w, X = sl_solve(_mv(A), a, b, np.array(v, float), sel, tuple(rng))
            out['X'] = np.array(X)
        else:
            w = sl_solve(_mv(A), a, b, None, sel, tuple(rng), eigvals_only=True)
        out['w'] = np.array(w)
        out['ab_kept'] = bool(np.array_equal(a, out['a']) and np.array_equal(b, out['b']))
    return out


def step(A, v, l):
    from edpyt.lanczos import sl_step
    A = np.array(A, float)
    a, b, v1, w = sl_step(_mv(A))(np.array(v, float), np.array(l, float))
    return float(a), float(b), np.array(v1), np.array(w)


def block(A, vs, maxn=None, tol=None, ND=None, delta=None):
    from edpyt.lanczos import build_bd_tridiag
    A = np.array(A, float)
    kw = {}
    if maxn is not None:
        kw['maxn'] = maxn
    if tol is not None:
        kw['tol'] = tol
    if delta is not None:
        kw["delta"] = delta
    if ND is not None:
        kw['ND'] = ND
    return np.array(build_bd_tridiag(_mv(A), [np.array(v, float) for v in vs], **kw))


def ortho(X, kind, rows, norm):
    from edpyt.lanczos import gram_schmidt_rows, gram_schmidt_columns
    X = np.array(X, float)
    X0 = X.copy()
    if kind == 'columns':
        Y = gram_schmidt_columns(X)
    else:
        Y = gram_schmidt_rows(X, rows, norm)
    return np.array(Y), bool(np.array_equal(X, X0))


def tri(a, b, select, rng, eigvals_only):
    from edpyt.tridiag import eigh_tridiagonal
    a, b = np.array(a, float), np.array(b, float)
    a0, b0 = a.copy(), b.copy()
    r = eigh_tridiagonal(a, b, select, tuple(rng), eigvals_only)
    keep = bool(np.array_equal(a, a0) and np.array_equal(b, b0))
    if eigvals_only:
        return np.array(r), None, keep
    return np.array(r[0]), np.array(r[1]), keep


def ground(a, b):
    from edpyt.tridiag import egs_tridiag, gs_tridiag
    a, b = np.array(a, float), np.array(b, float)
    e = float(egs_tridiag(a, b))
    w, v = gs_tridiag(a, b)
    return e, np.array(w), np.array(v)


def cf(a, b, z, scalar=False):
    from edpyt._continued_fraction import continued_fraction
    a, b, z = np.array(a, float), np.array(b, float), np.array(z, complex)
    a0, b0, z0 = a.copy(), b.copy(), z.copy()
    if scalar:
        out = [continued_fraction(complex(x), a, b) for x in z]
        r = np.array([complex(x) for x in out])
        nd = [int(np.ndim(x)) for x in out]
    else:
        r = continued_fraction(z, a, b)
        nd = [int(np.ndim(r))]
        r = np.array(r)
    return dict(r=r, nd=nd, kept=bool(np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(z, z0)))


def recursion_scheduled(A, v, seed, threads, burst, **kw):
    import interleave
    with interleave.schedule(seed, threads, burst):
        r = recursion(A, v, **kw)
        if r != 'zero':
            r['loops'], r['switches'] = interleave.used, interleave.switches
    return r


def long_recursion(w, v, kw, second):
    """Recursion of a diagonal operator (the coefficients depend on the spectral measure of the start vector only)."""
    from edpyt.lanczos import build_sl_tridiag, sl_solve, ZeroNormInitialVector
    w = np.array(w, float)
    calls = [0]

    def mv(x):
        calls[0] += 1
        return w * x
    try:
        a, b = build_sl_tridiag(mv, np.array(v, float), **kw)
    except ZeroNormInitialVector:
        return 'zero'
    out = dict(a=np.array(a), b=np.array(b), calls=calls[0])
    if second:
        e, X = sl_solve(mv, a, b, np.array(v, float), 2, (0, 0))
        out['e'], out['X'] = np.array(e), np.array(X)
    return out
