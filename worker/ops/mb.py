"""Many-body helpers running next to the code under test."""
import numpy as np


def set_params(hf=False, mu=0., z=None):
    from edpyt import shared
    shared.params['hfmode'] = bool(hf)
    shared.params['mu'] = float(mu)
    shared.params['z'] = None if z is None else np.asarray(z, float)


def arr(x):
    return None if x is None else np.array(x, dtype=float)


def pot(U, Jx=None, Jp=None, asdict=None):
    U, Jx, Jp = arr(U), arr(Jx), arr(Jp)
    if asdict is None:
        asdict = Jx is not None or Jp is not None
    if not asdict:
        return U
    d = {}
    if U is not None:
        d['U'] = U
    if Jx is not None:
        d['Jx'] = Jx
    if Jp is not None:
        d['Jp'] = Jp
    return d


def espace_out(espace):
    return [(tuple(int(x) for x in k), np.array(s.eigvals), np.array(s.eigvecs), int(s.d)) for k, s in espace.items()]


def sector_states(sct):
    s = sct.states
    if hasattr(s, 'up'):
        return [np.array(s.up), np.array(s.dw)]
    return [np.array(s)]


def ham(H, U, qns, Jx=None, Jp=None, hf=False, mu=0., z=None, asdict=None):
    """Dense matrix and matvec columns of one sector."""
    from edpyt.espace import build_empty_sector
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.matvec_product import todense, matvec_operator
    H = arr(H)
    H0 = H.copy()
    V = pot(U, Jx, Jp, asdict)
    parts = [x for x in (V.values() if isinstance(V, dict) else [V]) if x is not None]
    V0 = [np.array(x) for x in parts]
    set_params(hf, mu, z)
    import warnings
    try:
        n = H.shape[-1]
        sct = build_empty_sector(n, *qns)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            ops = build_mb_ham(H, V, sct)
        dense = todense(*ops)
        mv = matvec_operator(*build_mb_ham(H, V, sct))
        cols = np.empty((sct.d, sct.d))
        for k in range(sct.d):
            e = np.zeros(sct.d)
            e[k] = 1.
            cols[:, k] = mv(e)
    finally:
        set_params()
    kept = all(np.array_equal(x, y) for x, y in zip(parts, V0))
    return dict(states=sector_states(sct), d=int(sct.d), dense=np.asarray(dense), matvec=cols, V_kept=bool(kept),
                H_kept=bool(np.array_equal(H, H0)), writable=bool(H.flags.writeable),
                warnings=[str(w.message) for w in ws])


def ham_scheduled(H, U, qns, seed, threads, burst, **kw):
    """Same as ham, with the parallel loops run under a generated schedule."""
    import interleave
    with interleave.schedule(seed, threads, burst):
        r = ham(H, U, qns, **kw)
        r['loops'], r['switches'] = interleave.used, interleave.switches
    return r
