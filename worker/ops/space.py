import numpy as np
from ops import mb


def model(m):
    mb.set_params(m.get('hf', False), m.get('mu', 0.), m.get('z'))
    return mb.arr(m['H']), mb.pot(m['U'], m.get('Jx'), m.get('Jp'))


def rows(espace):
    return [(tuple(int(x) for x in k), np.array(s.eigvals), np.array(s.eigvecs), int(s.d), mb.sector_states(s))
            for k, s in espace.items()]


def solve(m, neig=None, symmetry='sz'):
    from edpyt.espace import build_espace
    try:
        H, V = model(m)
        kw = {} if symmetry is None else dict(symmetry=symmetry)
        espace, egs = build_espace(H, V, None if neig is None else np.array(neig), **kw)
    finally:
        mb.set_params()
    return dict(rows=rows(espace), egs=float(egs))


def free(ek):
    from edpyt.espace import build_non_interacting_espace
    ek = mb.arr(ek)
    e0 = ek.copy()
    espace, egs = build_non_interacting_espace(ek)
    return dict(rows=[(tuple(int(x) for x in k), np.array(s.eigvals)) for k, s in espace.items()], egs=float(egs),
                kept=bool(np.array_equal(ek, e0)))


def one(m, qns, k=None):
    from edpyt.espace import build_empty_sector, solve_sector
    try:
        H, V = model(m)
        sct = build_empty_sector(H.shape[-1], *qns)
        e, v = solve_sector(H, V, sct) if k is None else solve_sector(H, V, sct, k)
    finally:
        mb.set_params()
    return np.array(e), np.array(v)


def arpack(A, k, v0=None):
    from edpyt.eigh_arpack import eigsh
    A = np.array(A, float)
    x0 = None if v0 is None else np.array(v0, float)
    keep = None if v0 is None else x0.copy()
    count = [0]

    def mv(x):
        count[0] += 1
        assert x.shape == (len(A),)
        return A @ x
    e, v = eigsh(len(A), k, mv) if v0 is None else eigsh(len(A), k, mv, v0=x0)
    return np.array(e), np.array(v), (keep is None or bool(np.array_equal(keep, x0)))


def _snapshot(espace):
    return [(tuple(int(x) for x in k), np.array(s.eigvals), np.array(s.eigvecs)) for k, s in espace.items()]


def history(n, neig, rounds):
    """rounds: list of dict(m, beta, cutoff); the request vector is carried over."""
    from edpyt.espace import build_espace, screen_espace, adjust_neigsector
    neig = np.array(neig)
    out = []
    for r in rounds:
        try:
            H, V = model(r['m'])
            espace, egs = build_espace(H, V, neig)
        finally:
            mb.set_params()
        before = _snapshot(espace)
        ask = neig.copy()
        screen_espace(espace, egs, beta=r['beta'], cutoff=r['cutoff'])
        after = _snapshot(espace)
        adjust_neigsector(espace, neig, n)
        out.append(dict(ask=ask, next=neig.copy(), before=before, after=after, egs=float(egs)))
    return out


def synthetic(n, spec, neig, beta, cutoff, egs, defaults=False):
    from edpyt.espace import screen_espace, adjust_neigsector, build_empty_sector
    espace = {}
    for (a, b), ev in spec:
        s = build_empty_sector(n, a, b)
        s.eigvals = np.array(ev, float)
        s.eigvecs = np.arange(s.d * len(ev), dtype=float).reshape(s.d, len(ev))
        espace[a, b] = s
    before = _snapshot(espace)
    if defaults:
        screen_espace(espace, egs)
    else:
        screen_espace(espace, egs, beta, cutoff)
    after = _snapshot(espace)
    neig = np.array(neig)
    adjust_neigsector(espace, neig, n)
    return dict(before=before, after=after, next=neig)
