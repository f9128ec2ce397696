import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen

P = Prop('C18', rule='A case is one set of pole sums, a temperature, chemical potential(s) and a number of expansion poles; non-trivial when '
                     'some pole is partially occupied or both occupied and empty poles are present.',
         assumptions=['expansion of nzp poles is converged for |E-mu|/kT <= 2 nzp^2/5'])
KB = 8.617333262e-05   # eV/K


def fermi(x):
    return .5 * (1 - np.tanh(np.clip(np.asarray(x) / 2, -400, 400)))


def poles(draw_shape):
    return draw_shape


@st.composite
def cases(draw):
    shape = draw(st.sampled_from([(), (), (1,), (2,), (3,), (5,), (2, 3), (3, 2), (2, 2, 2), (3, 3)]))
    K = draw(st.integers(1, 6))
    nzp = draw(st.sampled_from([None, None, 4, 7, 15, 30, 60, 100, 180, 260]))
    T = draw(st.sampled_from([None, 100., 300., 600., 1000., 5000., 4., 20.]) | st.floats(50, 8000))
    if nzp and nzp > 100 and draw(st.booleans()):
        T = draw(st.sampled_from([2., 4., 10., 20.]))
    N, kT = nzp or 100, KB * (T or 300.)
    reach = min(N * N / 2.5 * kT, 20.)            # |e - mu| that the expansion resolves
    scale = draw(st.sampled_from([1., 1., .3, .05])) * reach * .5
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    e = rng.uniform(-scale, scale, shape + (K,))
    w = rng.random(shape + (K,))
    sign = draw(st.sampled_from(['normal', 'normal', 'any weight', 'signed']))
    if sign == 'normal':
        w /= w.sum(-1, keepdims=True)
    elif sign == 'signed':
        w -= .5
    per = draw(st.sampled_from(['scalar', 'scalar', 'array', 'array0', 'lead']))
    if per == 'scalar' or (per in ('array', 'lead') and not shape):
        mu = float(draw(st.just(0.) | st.floats(-1, 1)) * scale)
    elif per == 'array0':
        mu = np.asarray(float(rng.uniform(-scale, scale)))
    elif per == 'lead' and len(shape) == 2:
        mu = rng.uniform(-scale, scale, (1, shape[1]))
    else:
        mu = rng.uniform(-scale, scale, shape)
    if draw(st.booleans()):                      # a pole at the chemical potential
        e[..., 0] = mu if np.ndim(mu) == 0 else np.broadcast_to(mu, shape)
    return dict(e=e, w=w, mu=mu if isinstance(mu, float) else mu.tolist(), array=not isinstance(mu, float), T=T, nzp=nzp, kind=sign)


@P.clause(700, c=cases())
def pole_sums(T, c):
    e, w, kT = np.asarray(c['e']), np.asarray(c['w']), KB * (c['T'] or 300.)
    mu = np.asarray(c['mu'], float)
    got = T.op('integ:contour', e, w, mu if c['array'] else c['mu'], c['T'], c['nzp'])
    f = fermi((e - mu[..., None]) / kT)
    x = (w * f).sum(-1)
    T.nontrivial(np.any((f > .01) & (f < .99)) or (np.any(f > .5) and np.any(f < .5)), c['kind'],
                 'mu per component' if c['array'] and mu.ndim else 'one mu', 'ndim=%d' % (e.ndim - 1))
    close(got, x, 'occupation', rtol=0, atol=2e-6 * (1 + np.abs(w).sum(-1).max()), T=c['T'], nzp=c['nzp'], mu=mu, e=e, w=w)


@P.clause(100, N=st.integers(1, 100), seed=st.integers(0, 2 ** 32 - 1))
def expansion(T, N, seed):
    """2 R_k x / (x^2 + z_k^2) summed up is 1/2 - f(x)."""
    z, R = T.op('integ:fermi', N)
    z, R = np.asarray(z), np.asarray(R)
    check(z.shape == R.shape and z.size == N, 'number of poles', z=z.shape, R=R.shape)
    check(np.all(np.isfinite(z)) and np.all(np.isfinite(R)), 'poles and residues are finite')
    rng = np.random.default_rng(seed)
    x = np.r_[0., rng.uniform(-1, 1, 20) * min(N * N / 5., 5000)]
    T.nontrivial(N > 1, 'few' if N < 10 else 'many')
    s = np.abs((2 * R[None, :] * x[:, None] / (x[:, None] ** 2 + z[None, :] ** 2)).sum(1))
    close(s, np.abs(.5 - fermi(x)), 'expansion of the Fermi function', rtol=0, atol=2e-2 if N == 1 else 1e-3 if N == 2 else 2e-6, N=N)
    k = max(1, N // 3)
    if N >= 6:
        close(np.sort(np.abs(z))[:k], (2 * np.arange(k) + 1) * np.pi, 'lowest poles are the Matsubara frequencies', rtol=1e-4, atol=0, N=N)
        close(np.abs(R[np.argsort(np.abs(z))[:k]]), np.full(k, np.abs(R).min()), 'lowest residues are equal', rtol=1e-4, atol=0, N=N)


@P.clause(150, c=cases(), shift=st.floats(-3, 3), lam=gen.num(-2, 2))
def relations(T, c, shift, lam):
    """Translation, particle-hole and scaling relations of the occupation."""
    e, w = np.asarray(c['e']), np.asarray(c['w'])
    a = (c['T'], c['nzp'])
    m = (lambda x: np.asarray(x, float)) if c['array'] else float
    mu = np.asarray(c['mu'], float)
    r = np.asarray(T.op('integ:contour', e, w, m(mu), *a))
    tol = 4e-6 * (1 + np.abs(w).sum(-1).max()) * (1 + abs(lam))
    T.nontrivial(e.shape[-1] > 1)
    close(T.op('integ:contour', e + shift, w, m(mu + shift), *a), r, 'shifting poles and chemical potential together', rtol=0, atol=tol)
    close(T.op('integ:contour', -e, w, m(-mu), *a), w.sum(-1) - r, 'particle-hole reflection', rtol=0, atol=tol)
    close(T.op('integ:contour', e, lam * w, m(mu), *a), lam * r, 'scaling the weights', rtol=0, atol=tol)
