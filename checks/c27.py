import numpy as np
import random
from math import comb
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c26 import weight, densities, exact_bath
from checks.c13 import direct

P = Prop('C27', native=['psparse', 'cf'],
         rule='A case is one solver run with its random stream, one thermal ensemble, or one self-energy to smooth; non-trivial when an '
              'interacting sample was accepted (solvers) or several levels are present.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in',
                      'the sampling grid of the solvers is made coarser than the built-in 1e6 points per unit',
                      'runs with (near-)degenerate ground states inside one sector are not compared'])


class Skip(Exception):
    pass


def draw_poles(d, lims, nsamples, n, stream):
    x = np.linspace(lims[0], lims[1], int((lims[1] - lims[0]) * nsamples + 1))
    p = weight(d, x)
    F = np.cumsum(p / p.sum())
    r = np.array([stream.pop(0) for _ in range(n)])
    k = np.searchsorted(F, r)
    if np.any(k >= len(x)) or np.any(np.abs(F[k] - r) < 1e-9) or np.any((k > 0) & (np.abs(F[k - 1] - r) < 1e-9)):
        raise Skip('tie in the sampling grid')
    q = np.sort(x[k])
    if np.diff(q).min() < 1e-3:
        raise Skip('coinciding poles')
    return q


def star(poles):
    e, w, e0 = exact_bath(poles)
    n = len(poles)
    H = np.zeros((n, n))
    H[0, 1:] = H[1:, 0] = np.sqrt(w)
    H[range(1, n), range(1, n)] = e
    H[0, 0] = e0
    return H, e


def ground(S):
    """First sector holding the ground state and its occupations."""
    d = {k: e[0] - S.egs for k, (_, e, _) in S.sct.items()}
    if any(1e-9 < v < 1e-5 for v in d.values()):
        raise Skip('near-degenerate sectors')
    k = min(k for k in d if d[k] <= 1e-9)
    _, e, v = S.sct[k]
    if len(e) > 1 and e[1] - e[0] < 1e-6:
        raise Skip('degenerate ground state')
    o = ref.occ(S.n)[:, S.sct[k][0]] @ v[:, 0] ** 2
    return k, o[:S.n] + o[S.n:]


def thermo(levels, beta):
    """ln Z + beta <E> of the given many-body energies (entropy / kB)."""
    x = beta * (levels - levels.min())
    w = np.exp(-x)
    return np.log(w.sum()) + (x * w).sum() / w.sum()


def free_entropy(e, beta):
    x = beta * np.asarray(e, float)
    a = np.abs(x)
    return 2 * np.sum(np.log1p(np.exp(-a)) + a / (np.exp(np.minimum(a, 700)) + 1)) if len(x) else 0.


def entropy_of(S, e, beta):
    return thermo(np.concatenate([x for _, x, _ in S.sct.values()]), beta) - free_entropy(e, beta)


@st.composite
def grids(draw):
    lo = draw(st.sampled_from([-3., -2., -1.]))
    hi = draw(st.sampled_from([1., 2., 3.]))
    eta = draw(st.sampled_from([.1, .3, 1.]))
    return [lo, hi, draw(st.integers(2, 7)), eta]


@st.composite
def runs(draw):
    g = draw(grids())
    n = draw(gen.nlev(2, 4))
    return dict(grid=g, dens=draw(densities(g[0], g[1])), n=n, N=draw(st.integers(1, 3)), U=draw(st.sampled_from([0., 3.]) | gen.num(0, 5)),
                sigma0=draw(st.none() | st.none() | gen.num(-1, 3)), beta=draw(st.sampled_from([.1, 1., 10., 100., 1e6])),
                seed=draw(st.integers(0, 10 ** 6)), given=draw(st.booleans()), nsamples=draw(st.sampled_from([500, 2000])))


def setup(c):
    rng = random.Random(c['seed'])
    values = [rng.random() for _ in range(600)]
    zs = np.linspace(c['grid'][0], c['grid'][1], c['grid'][2]) + 1j * c['grid'][3]
    return values, zs


@P.clause(150, c=runs(), timeout=300)
def single(T, c):
    values, zs = setup(c)
    n, N, U, beta = c['n'], c['N'], c['U'], c['beta']
    s0 = U / 2 if c['sigma0'] is None else c['sigma0']
    try:
        left, sig, occ, ent, used = list(values[:150]), 0., np.zeros(2), 0., 0
        rejected = 0
        Un = np.zeros((n, n))
        Un[0, 0] = U
        for _ in range(N):
            while True:
                if len(left) < n:
                    raise Skip('no sample accepted')
                poles = draw_poles(c['dens'], c['grid'][:2], c['nsamples'], n, left)
                used += n
                H, ek = star(poles)
                A = ref.Spectrum(n, H)
                k0, o0 = ground(A)
                H[0, 0] -= s0
                S = ref.Spectrum(n, H, Un)
                k1, o1 = ground(S)
                if k0 == k1:
                    break
                rejected += 1
            sig = sig + 1 / (1 / (zs[:, None] - poles)).mean(1) - 1 / S.gf(0, 0, 0, zs, beta)
            occ += o0[0], o1[0]
            ent += entropy_of(S, ek, beta)
    except Skip as e:
        T.label(str(e))
        return
    r = T.op('ded:siam', c['dens'], zs, n, N, U, c['sigma0'], beta, values[:150], c['nsamples'], c['given'])
    check(r is not None, 'more samples rejected than the condition asks for')
    T.nontrivial(U > 0, 'rejections' if rejected else 'all accepted', 'given array' if c['given'] else 'new array', 'default shift' if c['sigma0'] is None else 'shift')
    ctx = dict(n=n, N=N, U=U, sigma0=s0, beta=beta, rejected=rejected)
    check(r['used'] == used, 'random numbers used', got=r['used'], expected=used, **ctx)
    size = np.abs(sig / N).max() + 10 + U
    close(r['sigma'], sig / N, 'averaged self-energy', rtol=1e-4, atol=1e-4 * size, **ctx)
    close([r['occ0'], r['occ1']], occ / N, 'impurity occupations', atol=1e-5, **ctx)
    close(r['entropy'], ent / N, 'impurity entropy (kB)', atol=1e-4 * (1 + min(beta, 100) * .05), **ctx)
    if U == 0 and s0 == 0:
        T.label('free')
        check(np.abs(r['sigma']).max() <= 1e-4 * size, 'self-energy without interaction', got=r['sigma'])
        close(r['occ0'], r['occ1'], 'occupations without interaction', atol=1e-6)


@st.composite
def multi_runs(draw):
    g = draw(grids())
    k = draw(st.sampled_from([1, 2, 2, 2]))
    nb = 1 if k == 2 else draw(st.integers(1, 2))
    kind = draw(st.sampled_from(['matrix', 'matrix', 'dict', 'number']))
    d = [draw(gen.num(0, 4)) for _ in range(k)]
    W = np.diag(d)
    if k == 2:
        W[0, 1] = W[1, 0] = draw(st.sampled_from([0., 0., .5]) | gen.num(0, 1))
    U = W.tolist()
    if kind == 'number':
        U = d[0]
    elif kind == 'dict':
        U = dict(U=W.tolist())
    s0 = draw(st.none() | gen.num(0, 3)) if kind == 'number' else draw(gen.num(0, 3))
    if kind == 'matrix' and draw(st.booleans()):
        s0 = [draw(gen.num(0, 3)) for _ in range(k)]
    return dict(grid=g, dens=[draw(densities(g[0], g[1])) for _ in range(k)], n=k * (nb + 1), N=draw(st.integers(1, 3)), U=U, kind=kind,
                sigma0=s0, beta=draw(st.sampled_from([1., 10., 100., 1e6])), seed=draw(st.integers(0, 10 ** 6)), given=draw(st.booleans()),
                nsamples=draw(st.sampled_from([500, 2000])))


@P.clause(110, c=multi_runs(), timeout=300)
def several(T, c):
    values, zs = setup(c)
    n, N, beta, k = c['n'], c['N'], c['beta'], len(c['dens'])
    nb = n // k - 1
    W = np.zeros((n, n))
    W[:k, :k] = c['U'] * np.eye(k) if c['kind'] == 'number' else c['U']['U'] if c['kind'] == 'dict' else c['U']
    s0 = c['U'] / 2 if c['sigma0'] is None else c['sigma0']
    own = [[i] + list(range(k + i * nb, k + (i + 1) * nb)) for i in range(k)]
    try:
        left, used = list(values[:150]), 0
        sig, occ0, occ1, hits = np.zeros((k, len(zs)), complex), np.zeros(k), np.zeros(k), np.zeros(k, int)
        rejected = 0
        for _ in range(N):
            while True:
                if len(left) < n:
                    raise Skip('no sample accepted')
                H = np.zeros((n, n))
                poles = []
                for i in range(k):
                    poles.append(draw_poles(c['dens'][i], c['grid'][:2], c['nsamples'], nb + 1, left))
                    H[np.ix_(own[i], own[i])] = star(poles[-1])[0]
                used += n
                _, o0 = ground(ref.Spectrum(n, H))
                H[range(k), range(k)] -= s0
                S = ref.Spectrum(n, H, W)
                _, o1 = ground(S)
                found = False
                for i in range(k):
                    d = abs(o0[own[i]].sum() - o1[own[i]].sum())
                    if 1e-7 < d < 1e-3:
                        raise Skip('nearly equal occupations')
                    if d <= 1e-7:
                        sig[i] += 1 / (1 / (zs[:, None] - poles[i])).mean(1) - 1 / S.gf(i, i, 0, zs, beta)
                        occ0[i] += o0[i]
                        occ1[i] += o1[i]
                        hits[i] += 1
                        found = True
                if found:
                    break
                rejected += 1
    except Skip as e:
        T.label(str(e))
        return
    r = T.op('ded:moam_solve', c['dens'], zs, n, N, c['U'], c['sigma0'], beta, values[:150], c['nsamples'], c['given'])
    check(r is not None, 'more samples rejected than the condition asks for')
    T.nontrivial(np.any(W), 'rejections' if rejected else 'all accepted', c['kind'], '%d orbitals' % k, 'partly accepted' if np.any(hits < N) else 'always accepted')
    ctx = dict(n=n, N=N, U=W[:k, :k], sigma0=s0, beta=beta, accepted=hits)
    check(r['used'] == used, 'random numbers used', got=r['used'], expected=used, **ctx)
    m = np.maximum(hits, 1)
    size = np.abs(sig).max() + 10 + np.abs(W).max()
    close(r['sigma'], sig / m[:, None], 'averaged self-energy', rtol=1e-4, atol=1e-4 * size, **ctx)
    close(r['occ0'], occ0 / m, 'impurity occupations without interaction', atol=1e-5, **ctx)
    close(r['occ1'], occ1 / m, 'impurity occupations with interaction', atol=1e-5, **ctx)


@st.composite
def ensembles(draw):
    n = draw(gen.nlev(1, 4))
    free = draw(st.booleans())
    return dict(n=n, free=free, H=draw(gen.symmat(n)), V=np.zeros((n, n)).tolist() if free else draw(gen.interaction(n)),
                ek=draw(gen.vec(draw(st.integers(1, 3)), -2, 2)), beta=draw(st.sampled_from([.1, 1., 10., 100., 1e4]) | st.floats(.1, 50)))


@P.clause(150, c=ensembles())
def entropy(T, c):
    n, free, ek, beta = c['n'], c['free'], c['ek'], c['beta']
    H, V = np.array(c['H']), np.array(c['V'])
    kB = 8.617333262e-5
    r = T.op('ded:entropy', H, V, ek, beta) / kB
    S = ref.Spectrum(n, H, V)
    T.nontrivial(n > 1, 'free' if free else 'interacting')
    close(r, entropy_of(S, ek, beta), 'entropy difference (kB)', rtol=1e-6, atol=1e-6 + 1e-10 * beta, beta=beta, n=n)
    if free:
        close(r, free_entropy(np.linalg.eigvalsh(H), beta) - free_entropy(ek, beta), 'entropy of free levels (kB)', rtol=1e-6, atol=1e-6 + 1e-10 * beta, beta=beta)


@P.clause(200, n=gen.nlev(1, 5), ab=st.tuples(st.floats(0, 1), st.floats(0, 1)), order=st.sampled_from(['plain', 'column']), seed=st.integers(0, 2 ** 32 - 1))
def occupation(T, n, ab, order, seed):
    a, b = int(round(ab[0] * n)), int(round(ab[1] * n))
    v = np.random.default_rng(seed).normal(size=comb(n, a) * comb(n, b))
    v /= np.linalg.norm(v)
    r = T.op('ded:occupation', n, a, b, v, order)
    u, w = direct(n, a, b, v[:, None])
    T.nontrivial(len(v) > 1, order)
    close(r['occ'], (u + w)[:, 0], 'occupation of the levels', atol=1e-10, n=n, nup=a, ndw=b)
    check(r['same'], 'the vector passed in was changed')


@P.clause(200, lo=gen.num(-6, 0), width=st.floats(.5, 8), k=st.integers(8, 80), cutoff=st.none() | st.floats(.5, 10), seed=st.integers(0, 2 ** 32 - 1), irregular=st.booleans())
def smoothing(T, lo, width, k, cutoff, seed, irregular):
    rng = np.random.default_rng(seed)
    x = np.linspace(lo, lo + width, k)
    if irregular:
        x[1:-1] += rng.uniform(-.4, .4, k - 2) * (x[1] - x[0])
    at = np.concatenate([rng.uniform(lo, lo + width, 8), [lo, lo + width]])
    a, b = rng.normal(size=(2, k)) + 1j * rng.normal(size=(2, k))
    c = rng.normal() + 1j * rng.normal()
    f = rng.normal(size=2)
    fa, fb, fab, fc, fr, fout = T.op('ded:smooth', x, [a, b, f[0] * a + f[1] * b, np.full(k, c), a.real + 0j, a], cutoff, at)
    T.nontrivial(True, 'default cutoff' if cutoff is None else 'cutoff')
    out = T.op('ded:smooth', x, [a], cutoff, [lo - .3, lo - 7., lo + width + .3, lo + width + 20.])[0]
    check(np.all(np.asarray(out) == 0), 'the smoothed function is not zero outside the given energies', got=out)
    close(fab, f[0] * np.asarray(fa) + f[1] * np.asarray(fb), 'smoothing is not linear', rtol=1e-8, atol=1e-9)
    close(fc, np.full(len(at), c), 'a constant is not kept', rtol=1e-9, atol=1e-9)
    close(fr, np.asarray(fa).real + 0j, 'real part of a smoothed function', rtol=1e-9, atol=1e-9)
    # reference: piecewise linear interpolation on the 1e-2 mesh, sharp cut of the discrete spectrum
    m = int((x.max() - x.min()) / 1e-2 + 1)
    g = np.linspace(x.min(), x.max(), m)
    s = np.interp(g, x, a.real) + 1j * np.interp(g, x, a.imag)
    q = np.fft.fftfreq(m, g[1] - g[0])
    cut = 2 if cutoff is None else cutoff
    if np.abs(np.abs(q) - cut).min() < 1e-9:
        return
    S = np.fft.fft(s)
    S[np.abs(q) > cut] = 0
    s = np.fft.ifft(S)
    close(fa, np.interp(at, g, s.real) + 1j * np.interp(at, g, s.imag), 'low-pass filtered self-energy', rtol=1e-7, atol=1e-8)
