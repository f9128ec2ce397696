import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen

P = Prop('C28', rule='A case is a parameter set with frequencies and a target; non-trivial with at least two bath levels or a non-zero distance.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in'])


def model(p, z):
    p, n = np.asarray(p, float), len(p) // 2
    return (p[n:] ** 2 / (np.asarray(z)[:, None] - p[:n])).sum(1)


def dmodel(p, z):
    p, n = np.asarray(p, float), len(p) // 2
    d = 1 / (np.asarray(z)[:, None] - p[:n])
    return np.concatenate([p[n:] ** 2 * d ** 2, 2 * p[n:] * d], axis=1)


def distance(p, z, v):
    return np.mean(np.abs(np.asarray(v) - model(p, z)) ** 2)


def gradient(p, z, v):
    r = model(p, z) - v
    return 2 * np.real(np.conj(r) @ dmodel(p, z)) / len(z)


def matsubara(n, beta):
    return 1j * (2 * np.arange(n) + 1) * np.pi / beta


@st.composite
def params(draw, lo=1, hi=8):
    n = draw(gen.nlev(lo, hi))
    return draw(gen.vec(n, -4, 4)) + draw(gen.vec(n, -2, 2))


CPLX = st.tuples(st.floats(-5, 5), st.floats(.05, 5) | st.floats(-5, -.05)).map(lambda t: [round(t[0], 4), round(t[1], 4)])


def c(x):
    return np.array([a + 1j * b for a, b in x])


@P.clause(500, p=params(), z=st.lists(CPLX, min_size=1, max_size=12), v=st.lists(CPLX, min_size=12, max_size=12))
def definitions(T, p, z, v):
    z = c(z)
    v = c(v)[:len(z)]
    r = T.op('fit:parts', p, z, v)
    T.nontrivial(len(p) >= 4, 'levels=%d' % (len(p) // 2))
    d, dd = model(p, z), dmodel(p, z)
    ctx = dict(p=p, z=z)
    s = 1e-10 * (1 + np.abs(d).max())
    close(r['delta'], d, 'hybridisation', rtol=1e-10, atol=s, **ctx)
    close(r['delta2'], d, 'hybridisation (fixed grid)', rtol=1e-10, atol=s, **ctx)
    close(r['ddelta'], dd, 'derivatives of the hybridisation', rtol=1e-10, atol=1e-10 * (1 + np.abs(dd).max()), **ctx)
    x = distance(p, z, v)
    close(r['chi2'], x, 'distance', rtol=1e-10, atol=1e-12, **ctx)
    g = gradient(p, z, v)
    close(r['dchi2'], g, 'gradient of the distance', rtol=1e-9, atol=1e-9 * (1 + np.abs(g).max()), **ctx)
    close(r['other'], distance(p[::-1], z, v), 'distance at other parameters', rtol=1e-10, atol=1e-12, **ctx)
    check(r['again'], 'a second evaluation differs', **ctx)
    check(r['same'], 'arguments were changed', **ctx)
    h = 1e-5
    num = np.array([(distance(np.add(p, e), z, v) - distance(np.subtract(p, e), z, v)) / 2 / h for e in h * np.eye(len(p))])
    close(r['dchi2'], num, 'gradient against finite differences', rtol=1e-3, atol=1e-4 * (1 + x) * (1 + np.abs(np.asarray(p)).max() ** 2) * (1 + 1 / np.abs(z.imag).min() ** 4), **ctx)


@P.clause(150, rows=st.integers(1, 4), n=st.integers(1, 5), k=st.integers(1, 5), mode=st.sampled_from(['parameters', 'grids', 'both']), seed=st.integers(0, 2 ** 32 - 1))
def broadcasting(T, rows, n, k, mode, seed):
    rng = np.random.default_rng(seed)
    p = rng.normal(size=((rows, 2 * n) if mode != 'grids' else (2 * n,)))
    z = rng.normal(size=((rows, k) if mode != 'parameters' else (k,))) + 1j * rng.uniform(.1, 2)
    r = T.op('fit:many', p, z)
    T.nontrivial(rows > 1, mode)
    close(r, [model(p[i] if p.ndim == 2 else p, z[i] if z.ndim == 2 else z) for i in range(rows)], 'hybridisations of several rows', rtol=1e-10, atol=1e-10)


@P.clause(300, n=st.integers(1, 24), w=st.none() | st.floats(.5, 20), how=st.sampled_from(['p', 'nbath']))
def initial_bath(T, n, w, how):
    p, same = T.op('fit:bath', n, w, how)
    w = 2. if w is None else w
    T.nontrivial(n > 1, how, 'odd' if n % 2 else 'even')
    ek, vk = np.asarray(p[:n]), np.asarray(p[n:])
    check(same, 'parameters are not filled in place')
    check(len(p) == 2 * n and np.all(np.isfinite(p)), 'initial bath is not finite', got=p, nbath=n)
    close(vk, np.full(n, max(.1, n ** -.5)), 'initial couplings', rtol=1e-12, nbath=n)
    check(np.abs(ek).max() <= w + 1e-12, 'initial levels outside the bandwidth', got=ek, bandwidth=w)
    if n > 1:
        close(ek, -ek[::-1], 'initial levels are not symmetric', atol=1e-12, nbath=n)
        close([ek.min(), ek.max()], [-w, w], 'initial levels do not span the bandwidth', atol=1e-12, nbath=n)
        check(len(set(np.round(ek, 9))) == n or w / n < .2, 'initial levels coincide', got=ek, bandwidth=w)
    if n % 2 and n > 1:
        close(ek, np.linspace(-w, w, n), 'initial levels (odd)', atol=1e-9, nbath=n)
    if n % 2 == 0 and n >= 4:
        close(ek[n // 2:], [.1] + list(np.linspace(0, w, n // 2)[1:]), 'initial levels (even)', atol=1e-9, nbath=n)


@st.composite
def targets(draw):
    n = draw(gen.nlev(1, 4))
    beta = draw(st.sampled_from([5., 20., 70.]) | st.floats(5, 100))
    nm = draw(st.integers(2 * n, 40))
    kind = draw(st.sampled_from(['near', 'near', 'semicircle', 'bath', 'noise']))
    return dict(n=n, beta=beta, nmats=nm, kind=kind, seed=draw(st.integers(0, 2 ** 32 - 1)), start=draw(st.sampled_from(['initial', 'random'])))


def target(c, z):
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    true = np.concatenate([np.sort(rng.uniform(-2, 2, n)), rng.uniform(.2, 1, n)])
    if c['kind'] in ('near', 'bath'):
        return true, model(true, z), rng
    if c['kind'] == 'semicircle':
        w = rng.uniform(.5, 3)
        return None, w ** 2 / 4 * 2 * (z / w - 1j * np.sqrt(1 - (z / w) ** 2)), rng
    return None, -1j * rng.random(len(z)) + .3 * rng.normal(size=len(z)), rng


def initial(n, w=2.):
    if n == 1:
        e = np.array([w])
    elif n % 2:
        e = np.linspace(-w, w, n)
    else:
        h = np.linspace(0, w, n // 2) if n > 2 else np.array([w])
        if n > 2:
            h[0] = .1
        e = np.concatenate([-h[::-1], h])
    return np.concatenate([e, np.full(n, max(.1, n ** -.5))])


@P.clause(110, c=targets(), timeout=200)
def fitting(T, c):
    z = matsubara(c['nmats'], c['beta'])
    true, v, rng = target(c, z)
    n = c['n']
    if c['kind'] == 'near':
        p = true + .02 * rng.normal(size=2 * n)
    elif c['start'] == 'initial':
        p = initial(n)
    else:
        p = np.concatenate([rng.uniform(-3, 3, n), rng.uniform(-1, 1, n)])
    r = T.op('fit:minimise', p, c['nmats'], v, c['beta'])
    a, b = distance(p, z, v), distance(r['p'], z, v)
    T.nontrivial(a > 1e-8, c['kind'])
    ctx = dict(start=p, end=r['p'], before=a, after=b, **{k: c[k] for k in ('beta', 'nmats', 'kind')})
    check(r['same'], 'the target was changed')
    check(np.all(np.isfinite(r['p'])), 'parameters are not finite', **ctx)
    check(b <= a * (1 + 1e-9) + 1e-15, 'the fit is worse than its start', **ctx)
    g0, g = np.abs(gradient(p, z, v)).max(), np.abs(gradient(r['p'], z, v)).max()
    if g0 > 1e-3:
        check(b < a, 'the fit did not improve a bath away from a stationary point', gradient=g0, **ctx)
    T.label('converged' if g < 2e-5 else 'stopped early')
    if c['kind'] == 'near':
        check(b <= 1e-4 and (b <= .3 * a or g < 2e-5), 'a representable hybridisation is not recovered', gradient=g, **ctx)
