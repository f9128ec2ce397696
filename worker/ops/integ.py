import numpy as np


class PoleSum:
    """G(z) = sum_k w[..., k] / (z + mu - e[..., k]); elementwise for array z when per=True."""

    def __init__(self, e, w, mu=0., per=False):
        self.e, self.w, self.mu, self.per = np.array(e, float), np.array(w, float), mu, per
        self.log = []

    def __call__(self, z):
        z = np.asarray(z)
        self.log.append(z.shape)
        if z.ndim and self.per:                  # one frequency per component
            z = np.broadcast_to(z, self.e.shape[:-1])
            return (self.w / (z[..., None] + self.mu - self.e)).sum(-1)
        if z.ndim:                               # frequencies on the last axis
            return (self.w[..., None, :] / (z[:, None] + self.mu - self.e[..., None, :])).sum(-1)
        return (self.w / (z + self.mu - self.e)).sum(-1)


def contour(e, w, mu, T=None, nzp=None, fortran=False):
    from edpyt.integrate_gf import integrate_gf
    g = PoleSum(e, w, per=True)
    m = mu if np.isscalar(mu) else np.array(mu, float)
    k = {}
    if T is not None:
        k['T'] = T
    if nzp is not None:
        k['nzp'] = nzp
    m0 = np.array(m)
    r = np.asarray(integrate_gf(g, m, **k))
    kept = np.array_equal(m0, m)
    if not kept:
        raise RuntimeError('chemical potential array was changed')
    return r


def fermi(nzp):
    from edpyt.integrate_gf import zero_fermi
    z, R = zero_fermi(nzp)
    return np.asarray(z), np.asarray(R)


def matsum(e, w, own, calls):
    """calls: list of kwargs; -> (results, mu afterwards)"""
    from edpyt.integrate_gf import matsum_gf
    g = PoleSum(e, w, mu=own)
    out = []
    for k in calls:
        out.append((np.asarray(matsum_gf(g, **k)), float(g.mu)))
    return out
