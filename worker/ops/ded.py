import functools
import random
import numpy as np
from ops import mb


def density(d):
    """['lorentz', g, x0] | ['gauss', w, x0] | ['box', a, b] | ['two', a, b, c, d, weight] | ['ramp', a]"""
    k, a = d[0], d[1:]
    if k == 'lorentz':
        return lambda x: .5 * a[0] / np.pi / ((x - a[1]) ** 2 + (.5 * a[0]) ** 2)
    if k == 'gauss':
        return lambda x: np.exp(-((x - a[1]) / a[0]) ** 2)
    if k == 'box':
        return lambda x: ((x >= a[0]) & (x <= a[1])) * 1.
    if k == 'two':
        return lambda x: ((x >= a[0]) & (x <= a[1])) * 1. + ((x >= a[2]) & (x <= a[3])) * a[4]
    if k == 'ramp':
        return lambda x: np.abs(x - a[0])
    raise ValueError(k)


class Stream:
    class End(Exception):
        pass

    def __init__(self, values):
        self.values = list(values)
        self.used = 0

    def random(self):
        if self.used >= len(self.values):
            raise Stream.End
        self.used += 1
        return self.values[self.used - 1]


def sampler(dens, lims, n, values, nsamples, calls):
    from edpyt.dedlib import RandomSampler
    rng = Stream(values)
    rs = RandomSampler(density(dens), list(lims), n, rng, nsamples)
    out = []
    for _ in range(calls):
        rs()
        out.append(np.array(rs.poles))
    return dict(poles=out, used=rng.used)


class Fixed:
    def __init__(self, poles):
        self.poles = np.array(poles, float)

    def __call__(self):
        pass


def fit(pole_sets, zs, U):
    """The same objects are refitted to each pole set, as the solvers do."""
    from edpyt.dedlib import Gf0, Gfimp, build_siam
    n = len(pole_sets[0])
    rs = Fixed(pole_sets[0])
    g0, gi = Gf0(rs), Gfimp(n)
    H, V = np.zeros((n, n)), np.zeros((n, n))
    zs = np.asarray(zs)
    out = []
    for p in pole_sets:
        rs.poles[:] = p
        g0.sample()
        gi.fit(g0)
        build_siam(H, V, U, gi)
        out.append(dict(g0=np.array(g0(zs)), gi=np.array(gi(zs)), ek=gi.ek.copy(), vk2=gi.vk2.copy(), e0=float(gi.e0), H=H.copy(), V=V.copy(),
                        delta=np.array(gi.delta(zs))))
    return out


def moam(pole_sets):
    """pole_sets: [times][impurity][poles]"""
    from edpyt.dedlib import Gf0, Gfimp, build_moam
    k, n = len(pole_sets[0]), len(pole_sets[0][0])
    rs = [Fixed(p) for p in pole_sets[0]]
    g0, gi = [Gf0(r) for r in rs], [Gfimp(n) for _ in rs]
    H = np.zeros((k * n, k * n))
    out = []
    for ps in pole_sets:
        for r, p, a, b in zip(rs, ps, g0, gi):
            r.poles[:] = p
            b.fit(a)
        build_moam(H, gi)
        out.append(H.copy())
    return out


class coarse:
    """The sampling grid of the solvers is 1e6 points per unit; a coarser one for the tests."""

    def __init__(self, nsamples):
        self.k = nsamples

    def __enter__(self):
        from edpyt import dedlib
        self.m, self.c = dedlib, dedlib.RandomSampler
        dedlib.RandomSampler = functools.partial(self.c, nsamples=self.k)

    def __exit__(self, *a):
        self.m.RandomSampler = self.c


def siam(dens, zs, n, N, U, sigma0, beta, values, nsamples, given):
    from edpyt import dedlib
    zs = np.asarray(zs)
    rng = Stream(values)
    kw = {} if sigma0 is None else dict(sigma0=sigma0)
    sigma = np.zeros_like(zs) if given else None
    with coarse(nsamples):
        try:
            r = dedlib.siam_solve(density(dens), zs, sigma=sigma, n=n, N=N, U=U, beta=beta, rng=rng, **kw)
        except Stream.End:
            return None
    if given:
        r = (sigma,) + tuple(r)
    return dict(sigma=np.array(r[0]), occ0=float(r[1]), occ1=float(r[2]), entropy=float(r[3]), used=rng.used)


def moam_solve(dens, zs, n, N, U, sigma0, beta, values, nsamples, given):
    from edpyt import dedlib
    zs = np.asarray(zs)
    rng = Stream(values)
    kw = {} if sigma0 is None else dict(sigma0=sigma0)
    sigma = np.zeros((len(dens), zs.size), complex) if given else None
    U = {k: np.array(v, float) for k, v in U.items()} if isinstance(U, dict) else np.array(U, float) if np.ndim(U) else U
    with coarse(nsamples):
        try:
            r = dedlib.moam_solve([density(d) for d in dens], zs, sigma=sigma, n=n, N=N, U=U, beta=beta, rng=rng, **kw)
        except Stream.End:
            return None
    if given:
        r = (sigma,) + tuple(r)
    return dict(sigma=np.array(r[0]), occ0=np.array(r[1]), occ1=np.array(r[2]), used=rng.used)


class Bath:
    def __init__(self, ek):
        self.ek = np.array(ek, float)


def entropy(H, V, ek, beta):
    from edpyt.dedlib import get_entropy
    from edpyt.espace import build_espace
    espace, egs = build_espace(np.array(H, float), np.array(V, float))
    return float(get_entropy(Bath(ek), espace, egs, beta))


def occupation(n, nup, ndw, v, order):
    from edpyt.dedlib import get_occupation
    from edpyt.sector import generate_states
    v = np.asarray(v, float)
    if order == 'column':
        v = np.stack([v + 1, v, v - 1], axis=1)[:, 1]
    keep = v.copy()
    out = [float(get_occupation(v, generate_states(n, nup), generate_states(n, ndw), k)) for k in range(n)]
    return dict(occ=out, same=bool(np.array_equal(v, keep)))


def smooth(energies, sigma, cutoff, at):
    from edpyt.dedlib import smooth as f
    kw = {} if cutoff is None else dict(cutoff=cutoff)
    return [np.array(f(np.array(energies), np.asarray(s), **kw)(np.array(at))) for s in sigma]
