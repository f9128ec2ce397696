"""Several analyses of one system at a time."""
import numpy as np
from ops import mb
from ops.gf import _z
from ops.space import model, rows


def _flat(f, e, eta):
    return np.broadcast_to(np.asarray(f(e, eta)), e.shape).copy()


def bundle(m, beta, zs, what):
    """what: names among 'n', 'exact', 'exact2', 'cf', 'sp', 'krylov2'."""
    from edpyt.espace import build_espace
    from edpyt.observs import get_occupation
    from edpyt.gf_exact import build_gf_exact
    from edpyt.gf2_exact import build_gf2_exact
    from edpyt.gf_lanczos import build_gf_lanczos
    from edpyt.gf2_lanczos import build_gf2_lanczos
    out = {}
    try:
        H, V = model(m)
        n = H.shape[-1]
        e, eta = _z(zs)
        space, egs = build_espace(H, V)
        out['levels'] = [(tuple(int(x) for x in k), np.array(s.eigvals)) for k, s in space.items()]
        out['egs'] = float(egs)
        if 'N' in what:
            charge, e2 = build_espace(np.array([np.diag(np.diag(h)) for h in np.broadcast_to(H, (2, n, n))]), V, symmetry='N')
            out['charges'] = [(tuple(int(x) for x in k), np.array(s.eigvals)) for k, s in charge.items()]
        out['up'], out['dw'] = (np.array(x) for x in get_occupation(space, egs, beta, n))
        if 'exact' in what:
            out['exact'] = np.array([[_flat(build_gf_exact(H, V, space, beta, egs, p, s), e, eta) for p in range(n)] for s in range(2)])
        if 'exact2' in what:
            out['exact2'] = np.array([build_gf2_exact(H, V, space, beta, egs, ispin=s)(e, eta) for s in range(2)])
        for rep in ('cf', 'sp'):
            if rep in what:
                out[rep] = np.array([[_flat(build_gf_lanczos(H, V, space, beta, egs, p, rep, s), e, eta) for p in range(n)] for s in range(2)])
        if 'krylov2' in what:
            out['krylov2'] = np.array([build_gf2_lanczos(H, V, space, beta, egs, s, 'cf')(e, eta) for s in range(2)])
    finally:
        mb.set_params()
    return out


def _sum(pairs):
    out = {}
    for k, v in pairs:
        out[k] = out.get(k, 0.) + v
    return [(list(k[0]), list(k[1]), v) for k, v in sorted(out.items())]


def _k(t):
    return tuple(int(x) for x in t[:-1])


def transport(m, beta, mu, A, cotunnel, charge=False):
    """Rates through each lead summed over the states of a pair of sectors, in spin-resolved and (for diagonal one-body
    Hamiltonians) charge-resolved sectors."""
    from edpyt.espace import build_espace
    from edpyt import sqtunneling as sq, cotunneling as co, sqtnl, cotnl
    from collections import defaultdict
    out = {}
    try:
        H, V = model(m)
        n = H.shape[-1]
        A = np.array(A, float)
        mu = list(mu)
        espace, egs = build_espace(H, V)
        d = {}
        for k in list(espace):
            sq.project_sector(n, k[0], k[1], espace, d)
        out['seq'] = _sum(((_k(F), _k(I)), np.array([g(A[l], beta, mu[l]) for l in range(2)])) for (F, I), g in d.items())
        W = np.array(sq.build_rate_matrix(d, beta, mu, A))
        out['total'] = float(W.clip(0).sum())
        if cotunnel:
            d = defaultdict(list)
            for k in list(espace):
                co.project_sector(n, k[0], k[1], espace, d)
            out['cot'] = _sum(((_k(F), _k(I)), np.array([float(np.ravel(s.approximate(A, a, b, beta, mu))[0]) for a, b in ((0, 1), (1, 0))]))
                              for (F, I), l in d.items() for s in l)
        if charge:
            cspace, e2 = build_espace(H, V, symmetry='N')
            f = {}
            for N in range(2 * n + 1):
                f.update(sqtnl.build_transition_elements(n, cspace, N))
            out['nseq'] = _sum(((_k(F), _k(I)), np.array([g(A[l], beta, mu[l]) for l in range(2)])) for (F, I), gl in f.items() for g in gl)
            W, _ = sqtnl.build_rate_and_transition_matrices(f, beta, mu, A, 0, 1)
            out['ntotal'] = float(np.array(W).clip(0).sum())
            if cotunnel:
                out['ncot'] = []
                for N in range(2 * n + 1):
                    f = cotnl.build_transition_elements(n, cspace, N)
                    out['ncot'] += _sum(((_k(F), _k(I)), np.array([float(np.ravel(s.approximate(A, a, b, beta, mu))[0]) for a, b in ((0, 1), (1, 0))]))
                                        for (F, I), l in f.items() for s in l)
    finally:
        mb.set_params()
    return out


class _Along:
    """A built function as the integration routines expect it: complex argument, chemical potential as an attribute."""

    def __init__(self, g):
        self.g, self.mu = g, 0.

    def __call__(self, z):
        z = np.asarray(z) + self.mu
        r = np.asarray(self.g(z.real, z.imag))
        return r if z.ndim else r.reshape(r.shape[:-1] if r.ndim and r.shape[-1] == 1 else r.shape)


def linked(m, neig, beta, shift, zs, what):
    """Occupations, levels and the functions needed by the sum rules, all from one kept space."""
    from edpyt.espace import build_espace
    from edpyt.observs import get_occupation
    from edpyt.gf_exact import build_gf_exact
    from edpyt.gf2_exact import build_gf2_exact
    from edpyt.gf_lanczos import build_gf_lanczos
    from edpyt.gf2_lanczos import build_gf2_lanczos
    out = {}
    try:
        H, V = model(m)
        n = H.shape[-1]
        e, eta = _z(zs)
        space, egs = build_espace(H, V, None if neig is None else np.array(neig))
        ref_ = egs + shift
        out['levels'] = [(tuple(int(x) for x in k), np.array(s.eigvals)) for k, s in space.items()]
        out['egs'] = float(egs)
        out['up'], out['dw'] = (np.array(x) for x in get_occupation(space, ref_, beta, n))
        if 'matrix' in what:
            r = [build_gf2_lanczos(H, V, space, beta, ref_, s, 'cf', True)(e, eta) for s in range(2)]
            out['matrix'] = np.array([[np.array(p) for p in x] for x in r])          # spin, electron/hole, i, j, z
        if 'single' in what:
            out['single'] = np.array([[[_flat(f, e, eta) for f in build_gf_lanczos(H, V, space, beta, ref_, p, rep, s, True)] for p in range(n)]
                                      for s, rep in ((0, 'cf'), (1, 'sp'))])          # spin, level, electron/hole, z
        if 'exact' in what:
            out['exact'] = np.array([build_gf2_exact(H, V, space, beta, ref_, ispin=s)(e, eta) for s in range(2)])
        if 'integrals' in what:
            from edpyt.integrate_gf import integrate_gf, matsum_gf
            T = what['integrals']['T']
            out['contour'], out['sum'] = np.zeros((2, n)), np.zeros((2, n))
            for s in range(2):
                for p in range(n):
                    g = _Along(build_gf_exact(H, V, space, beta, ref_, p, s) if what['integrals']['exact'] else
                               build_gf_lanczos(H, V, space, beta, ref_, p, 'cf', s))
                    out['contour'][s, p] = float(np.squeeze(integrate_gf(g, 0., T)))
                    out['sum'][s, p] = float(np.squeeze(matsum_gf(g, 0., what['integrals']['nmats'], beta)))
    finally:
        mb.set_params()
    return out


def balance(m, beta, mu, A):
    """Steady state of sequential tunneling between leads of one chemical potential: weight of each sector."""
    from edpyt.espace import build_espace
    from edpyt import sqtunneling as sq
    from edpyt.rates import stationary_solution
    try:
        H, V = model(m)
        space, egs = build_espace(H, V)
        d = {}
        for k in list(space):
            sq.project_sector(H.shape[-1], k[0], k[1], space, d)
        W = np.array(sq.build_rate_matrix(d, beta, [mu, mu], np.array(A, float)))
        ids = sorted(set(F for F, _ in d))
        p = np.asarray(stationary_solution(W)).ravel()
        return dict(W=W, p=p, levels=[(tuple(int(x) for x in k), np.array(s.eigvals)) for k, s in space.items()], ids=[tuple(int(x) for x in i) for i in ids])
    finally:
        mb.set_params()
