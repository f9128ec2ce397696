import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, full, keys, index
from checks.c10 import freqs, cplx, BETA

P = Prop('C11', native=['psparse', 'cf'],
         rule='A case is one model with a kept set of thermal states, a temperature and frequencies; non-trivial when the '
              'function has at least one pole reached by the Krylov recursion or several kept states.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in',
                      'targets of more than 20 states are compared only where the truncated recursion has converged'])


class Kept:
    """Spectral sum over a given set of eigenstates, by dense diagonalisation of the neighbouring sectors."""

    def __init__(self, m, rows, egs, beta):
        self.m, self.n, self.beta, self.egs = m, m['n'], beta, egs
        self.H = full(m, 'sz')
        self.rows = [(tuple(k), np.asarray(e), np.asarray(v)) for k, e, v, _, _ in rows]
        self.Z = sum(np.exp(-beta * (e - egs)).sum() for _, e, _ in self.rows)
        self.eig = {}
        self.dims = []

    def target(self, k):
        if k not in self.eig:
            idx = index(self.n, k)
            self.eig[k] = (idx,) + tuple(np.linalg.eigh(ref.block(self.H, idx)))
        return self.eig[k]

    def part(self, i, j, s, z, hole):
        n = self.n
        z = np.asarray(z)
        out = np.zeros(len(z), complex)
        c = ref.annihilators(2 * n)
        for k, e, v in self.rows:
            d = -1 if hole else 1
            kj = (k[0] + d, k[1]) if s == 0 else (k[0], k[1] + d)
            if min(kj) < 0 or max(kj) > n:
                continue
            idx, ej, vj = self.target(kj)
            self.dims.append(len(idx))
            ii = index(n, k)

            def amp(site):
                op = c[site + s * n] if hole else c[site + s * n].T.tocsr()
                return vj.T @ (op[idx][:, ii] @ v)
            q = amp(i) * amp(j) * np.exp(-self.beta * (e - self.egs))[None, :]
            l = ej[:, None] - e[None, :]
            if hole:
                l = -l
            out += (q.ravel()[None, :] / (z[:, None] - l.ravel()[None, :])).sum(1)
        return out / self.Z


@st.composite
def requests(draw, n):
    ks = keys(n, 'sz')
    kind = draw(st.sampled_from(['full', 'clip', 'clip', 'random', 'lowest']))
    seed = draw(st.integers(0, 2 ** 32 - 1))
    rng = np.random.default_rng(seed)
    dims = [len(index(n, k)) for k in ks]
    if kind == 'full':
        return kind, None
    if kind == 'clip':
        c = int(rng.integers(1, 4))
        return kind, [min(c, d) for d in dims]
    if kind == 'lowest':
        return kind, [1] * len(ks)
    neig = [int(rng.integers(0, min(d, 4) + 1)) for d in dims]
    if not any(neig):
        neig[int(rng.integers(len(neig)))] = 1
    return kind, neig


@st.composite
def kept_models(draw, nmax, nmin=1):
    m = draw(models(nmax, nmin))
    return m, draw(requests(m['n'])), draw(st.sampled_from([None, None, 1e-9, 1e-3, .3]))


def radius(m):
    h = ref.spin(m['H'])
    tot = max(np.abs(x).sum(1).max() for x in h)
    return 2 * tot + np.abs(np.asarray(m['U'])).sum() + sum(np.abs(np.asarray(m[k])).sum() for k in ('Jx', 'Jp') if m.get(k) is not None) + 1.


def compare(got, want, z, dims, m, msg, **ctx):
    """Full accuracy for small target sectors, converged frequencies for larger ones."""
    if max(dims, default=0) <= 20:
        close(got, want, msg, rtol=1e-5, atol=1e-6, **ctx)
    else:
        far = np.abs(np.imag(z)) >= radius(m)
        close(got[far], want[far], msg, rtol=1e-5, atol=1e-6, **ctx)


@P.clause(350, case=kept_models(3), beta=BETA, fs=freqs(), shift=gen.num(-3, 3), seed=st.integers(0, 2 ** 32 - 1))
def kept_states(T, case, beta, fs, shift, seed):
    go(T, case, beta, fs, shift, seed)


@P.clause(60, case=kept_models(4, 4), beta=BETA, fs=freqs(3), seed=st.integers(0, 2 ** 32 - 1))
def kept_states_n4(T, case, beta, fs, seed):
    m, (kind, neig), cutoff = case
    if neig is None:
        kind, neig = 'clip', [min(2, len(index(4, k))) for k in keys(4, 'sz')]
    R = radius(m)
    go(T, (m, (kind, neig), cutoff), beta, list(fs) + [[.3 * R, R], [-.2 * R, 1.5 * R], [0., 3 * R]], 0., seed)


def go(T, case, beta, fs, shift, seed):
    m, (kind, neig), cutoff = case
    n = m['n']
    rng = np.random.default_rng(seed)
    z = np.concatenate([cplx(fs), [1e6j]])
    shift = shift if beta * abs(shift) < 100 else 0.
    jobs = [(p, s, str(rng.choice(['cf', 'sp'])), bool(rng.integers(2))) for p in range(n) for s in range(2)]
    r = T.op('gf:lanczos', m, neig, beta, cutoff, shift, jobs, z, repeat=n < 3)
    K = Kept(m, r['rows'], r['egs'], beta)
    nk = sum(len(e) for _, e, _ in K.rows)
    T.nontrivial(n > 1 or nk > 1, kind, 'screened' if cutoff else 'unscreened', 'hot' if beta <= 1 else 'cold')
    check(r['same'], 'the eigenspace was changed by computing the function')
    for k, g in enumerate(r['g']):
        p, s, rep, sep = jobs[k % len(jobs)]
        K.dims = []
        we, wh = K.part(p, p, s, z, False), K.part(p, p, s, z, True)
        T.label('%s %s' % (rep, 'separate' if sep else 'combined'))
        T.label('Krylov' if max(K.dims, default=0) > 10 else 'dense')
        ctx = dict(beta=beta, level=p, spin=s, repr=rep, kept=nk, repeated=k >= len(jobs))
        if sep:
            compare(g[0], we, z, K.dims, m, 'particle part', **ctx)
            compare(g[1], wh, z, K.dims, m, 'hole part', **ctx)
        else:
            compare(g[0], we + wh, z, K.dims, m, 'Green\'s function', **ctx)
        tot = sum(g)
        check(np.all(tot.imag[:-1] * np.sign(z.imag[:-1]) <= 1e-9), 'not causal', g=tot, **ctx)
        close(1e6j * tot[-1], 1., 'weight at high frequency', rtol=1e-3, atol=1e-3)


@P.clause(80, m=models(3), beta=BETA, fs=freqs())
def equals_exact(T, m, beta, fs):
    """With every thermal state kept the Krylov function is the exact one."""
    n = m['n']
    z = cplx(fs)
    jobs = [(p, s, 'sp' if (p + s) % 2 else 'cf', False) for p in range(n) for s in range(2)]
    r = T.op('gf:lanczos', m, None, beta, None, 0., jobs, z)
    S = ref.Spectrum(n, m['H'], m['U'], m['Jx'], m['Jp'], hf=m['hf'], mu=m['mu'])
    T.nontrivial(n > 1)
    for (p, s, rep, _), g in zip(jobs, r['g']):
        close(g[0], S.gf(p, p, s, z, beta), 'differs from the exact function', rtol=1e-5, atol=1e-6, level=p, spin=s, repr=rep)


class WideKept(Kept):
    """The same for larger systems: one sector at a time."""

    def __init__(self, m, rows, egs, beta):
        self.m, self.n, self.beta, self.egs = m, m['n'], beta, egs
        self.rows = [(tuple(k), np.asarray(e), np.asarray(v)) for k, e, v, _, _ in rows]
        self.Z = sum(np.exp(-beta * (e - egs)).sum() for _, e, _ in self.rows)
        self.eig, self.dims = {}, []

    def amplitudes(self, k, kj, v, s, hole):
        """(site, target state, kept state) matrix elements."""
        m, n = self.m, self.n
        if kj not in self.eig:
            idx = ref.wide_sector(n, *kj)
            self.eig[kj] = (idx,) + tuple(np.linalg.eigh(ref.sector_matrix(n, idx, m['H'], m['U'], m.get('Jx'), m.get('Jp'), m['hf'], m['mu'], m.get('z'))))
        idx, ej, vj = self.eig[kj]
        pos = {t: q for q, t in enumerate(idx)}
        out = np.zeros((n, len(idx), v.shape[1]))
        for q, t in enumerate(ref.wide_sector(n, *k)):
            for i in range(n):
                sg, u = ref.act([(i + s * n, not hole)], t)
                if sg:
                    out[i, pos[u]] += sg * v[q]
        return ej, np.einsum('tj,itk->ijk', vj, out), len(idx)

    def part(self, i, j, s, z, hole):
        z = np.asarray(z)
        out = np.zeros(len(z), complex)
        d = -1 if hole else 1
        for r, (k, e, v) in enumerate(self.rows):
            kj = (k[0] + d, k[1]) if s == 0 else (k[0], k[1] + d)
            if min(kj) < 0 or max(kj) > self.n:
                continue
            key = 'amp', r, s, hole
            if key not in self.eig:
                self.eig[key] = self.amplitudes(k, kj, v, s, hole)
            ej, a, dim = self.eig[key]
            self.dims.append(dim)
            q = a[i] * a[j] * np.exp(-self.beta * (e - self.egs))[None, :]
            l = (ej[:, None] - e[None, :]) * (-1 if hole else 1)
            out += (q.ravel()[None, :] / (z[:, None] - l.ravel()[None, :])).sum(1)
        return out / self.Z


@st.composite
def wide_kept(draw, nmax=8, free=None, dmax=40):
    """A model of many levels of which few states in one or two sectors are kept."""
    c = draw(gen.wide(nmax, dmax))
    m = gen.wide_model(c)
    m['free'] = draw(st.booleans()) if free is None else free
    n = m['n']
    m['z'] = None                                          # as in the other models
    if m['free']:
        m.update(U=np.zeros((n, n)), hf=False, mu=0.)
    m['H'], m['U'] = np.asarray(m['H']).tolist(), m['U'].tolist()
    a, b = m.pop('qns')
    neig = [0] * (n + 1) ** 2
    neig[a * (n + 1) + b] = draw(st.integers(1, 3))       # the request table counts the sector as the code does; checked in C02
    return m, ('wide', neig), draw(st.sampled_from([None, 1e-3]))


def wide_request(m, neig):
    """Clip to the size of the sector."""
    n = m['n']
    from math import comb
    return [min(k, comb(n, i // (n + 1)) * comb(n, i % (n + 1))) for i, k in enumerate(neig)]


@P.clause(60, case=wide_kept(10), beta=BETA, fs=freqs(3), seed=st.integers(0, 2 ** 32 - 1))
def many_levels(T, case, beta, fs, seed):
    """Five to ten levels, few particles; without interaction any kept states give the one-body resolvent."""
    m, (kind, neig), cutoff = case
    n = m['n']
    rng = np.random.default_rng(seed)
    R = radius(m)
    z = np.concatenate([cplx(list(fs) + [[.3 * R, R], [-.2 * R, 1.5 * R]]), [1e6j]])
    jobs = [(int(rng.integers(n)), int(rng.integers(2)), str(rng.choice(['cf', 'sp'])), bool(rng.integers(2))) for _ in range(4)]
    r = T.op('gf:lanczos', m, wide_request(m, neig), beta, cutoff, 0., jobs, z)
    K = WideKept(m, r['rows'], r['egs'], beta)
    h = ref.spin(m['H'])
    T.nontrivial(True, 'free' if m['free'] else 'interacting')
    check(r['same'], 'the eigenspace was changed by computing the function')
    for (p, s, rep, sep), g in zip(jobs, r['g']):
        ctx = dict(level=p, spin=s, repr=rep, n=n, sectors=[k for k, _, _ in K.rows])
        K.dims = []
        we, wh = K.part(p, p, s, z, False), K.part(p, p, s, z, True)
        if sep:
            compare(g[0], we, z, K.dims, m, 'particle part', **ctx)
            compare(g[1], wh, z, K.dims, m, 'hole part', **ctx)
        else:
            compare(g[0], we + wh, z, K.dims, m, 'Green\'s function', **ctx)
        if m['free']:
            want = np.array([np.linalg.inv(x * np.eye(n) - h[s])[p, p] for x in z])
            close(sum(g), want, 'non-interacting function is not the one-body resolvent', rtol=1e-5, atol=1e-6, **ctx)
