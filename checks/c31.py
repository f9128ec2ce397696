import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen, ref
from checks.c07 import keys, index
from checks.c11 import Kept, radius
from checks.c18 import fermi, KB
from checks.c28 import model, matsubara

P = Prop('C31', native=['psparse', 'cf'],
         rule='A case is an impurity with a history of bath, level and solve steps, or a lattice function with a self-energy; non-trivial with interaction, '
              'a non-zero hybridisation or several channels.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in', 'numpy without numba: the compiled gufunc contract (core dimensions) is kept by the stand-in'])

SEED = st.integers(0, 2 ** 32 - 1)


@st.composite
def freqs(draw, k=6):
    re = draw(st.lists(gen.num(-4, 4), min_size=1, max_size=k))
    low = draw(st.sampled_from([1., 1., 1., -1., None]))          # upper or lower half plane, or both
    return [[x, draw(st.sampled_from([.1, .3, 1., 2.5]) | st.floats(.1, 4)) * (low or (-1.) ** i)] for i, x in enumerate(re)]


def cplx(fs):
    return np.array([a + 1j * b for a, b in fs])


@st.composite
def impurities(draw, nmax=4):
    n = draw(gen.nlev(2, nmax))
    spinful = draw(st.booleans())
    c = dict(n=n, spinful=spinful, U=draw(st.just(0.) | gen.num(0, 4) | st.sampled_from([8., 15.])), beta=draw(st.sampled_from([5., 20., 100.]) | st.floats(5, 200)), nmats=draw(st.integers(2 * n, 24)))
    rng = np.random.default_rng(draw(SEED))
    m = n - 1
    grid = draw(st.booleans())
    width = draw(st.sampled_from([2., 2., 6., 15.]))

    def bath():
        e, v = rng.uniform(-width, width, m), rng.uniform(-1, 1, m)
        if grid:
            e, v = np.round(e * 2) / 2, np.round(v * 2) / 2
        return np.concatenate([e, v]).tolist()

    def target():
        k = rng.integers(1, 4)
        return np.concatenate([rng.uniform(-width, width, k), rng.uniform(.2, .8, k)]).tolist()
    twins = draw(st.integers(0, 2)) == 0         # both spins get the same hybridisation

    def two(f):
        if not spinful:
            return f()
        a = f()
        return [a, list(a) if twins else f()]
    steps = draw(st.lists(st.sampled_from(['bath', 'fit', 'update', 'fit_update', 'reset', 'solve'] + (['symmetrize', 'levels', 'levels'] if spinful else ['update'])), max_size=4))
    last = draw(st.sampled_from(['bath', 'bath', 'fit', 'fit_update'] + (['symmetrize'] if spinful else [])))
    s = []

    def step(k):
        if k == 'bath':
            return [k, two(bath)]
        if k == 'fit':
            return [k, two(target)]
        mu = float(np.round(rng.uniform(-3, 3), 2))
        if k == 'update':
            return [k, mu]
        if k == 'levels':
            return [k, [mu, float(np.round(rng.uniform(-3, 3), 2))]]
        if k == 'fit_update':
            return [k, two(target), mu]
        return [k]
    s.append(step('bath'))
    s += [step(k) for k in steps if not (k == 'reset')] if not draw(st.booleans()) else [step(k) for k in steps]
    if any(k == 'reset' for k in steps) and last == 'symmetrize':
        s.append(step('bath'))
    s.append(step(last))
    if draw(st.booleans()):
        s.append(step('update'))
    if spinful and draw(st.integers(0, 3)) == 0:
        s += [step('levels'), step(draw(st.sampled_from(['fit', 'bath'])))]
    half = draw(st.integers(0, 3)) == 0
    if half:
        s.append(['update', c['U'] / 2])
    s.append(['solve'])
    c['script'] = s
    c['neig'] = None
    if draw(st.integers(0, 2)) == 0:
        k = draw(st.integers(2, 4))
        c['neig'] = [min(k, len(index(n, q))) for q in keys(n, 'sz')]
        c['adjust'] = draw(st.booleans())
    return c


@P.clause(110, c=impurities(), fs=freqs(), mus=st.lists(st.none() | gen.num(-2, 2) | gen.num(-20, 20), min_size=1, max_size=1), timeout=200)
def impurity(T, c, fs, mus):
    n, U, beta = c['n'], c['U'], c['beta']
    z = np.concatenate([cplx(fs), [.5 + 12j, -1 + 25j]])
    r = T.op('mf:impurity', c, z, mus)
    H = np.asarray(r['H'])
    T.nontrivial(True, 'spinful' if c['spinful'] else 'spin-free', 'interacting' if U else 'free', 'steps=%d' % len(c['script']))
    Hs = H if c['spinful'] else H[None]
    ctx = dict(H=H, U=U, beta=beta)
    check(H.shape == ((2, n, n) if c['spinful'] else (n, n)) and len(Hs) == r['nparts'], 'shape of the impurity Hamiltonian', got=H.shape)
    lev = [0.] * len(Hs)
    for q in c['script']:
        if q[0] in ('update', 'fit_update'):
            lev = [q[-1]] * len(Hs)
        elif q[0] == 'levels':
            lev = list(q[1])
        elif q[0] == 'symmetrize':
            lev = [lev[0]] * len(Hs)
    close(r['mu'], lev[0], 'chemical potential', atol=1e-12)
    close(r['mus'], lev, 'chemical potential of the parts', atol=1e-12, script=[q[0] for q in c['script']])
    check(r['mine'] and r['same'], 'the parts do not share the impurity Hamiltonian, or the frequencies were changed')
    check(r.get('updw', True), 'up/down parts')
    check(r['nmats'] == c['nmats'] and r['beta'] == beta, 'attributes of the bath are not found')
    V = np.zeros((n, n))
    V[0, 0] = U
    close(r['V'], V, 'interaction matrix', atol=0)
    resets = [i for i, s in enumerate(c['script']) if s[0] == 'reset']
    fits = [i for i, s in enumerate(c['script']) if s[0] in ('bath', 'fit', 'fit_update')]
    for s in range(len(Hs)):
        mu = lev[s]
        x = np.asarray(r['x'])[s]
        ek, vk = x[:n - 1], x[n - 1:]
        close(r['ek'][s], ek, 'ek', atol=0)
        close(r['vk'][s], vk, 'vk', atol=0)
        M = np.diag(np.concatenate([[-mu], ek]))
        M[0, 1:] = M[1:, 0] = vk
        if not resets or resets[-1] < fits[-1]:
            close(Hs[s], M, 'impurity matrix does not hold the fitted bath and the chemical potential', atol=1e-12, script=[q[0] for q in c['script']], spin=s)
        last = [q for q in c['script'] if q[0] in ('bath', 'fit', 'fit_update', 'symmetrize')][-1]
        if last[0] == 'bath':
            want = np.asarray(last[1])[s] if c['spinful'] else np.asarray(last[1])
            zm = matsubara(c['nmats'], beta)
            close(model(x, zm), model(want, zm), 'fit of a hybridisation the bath represents', atol=1e-3, x=x, want=want)
        d = model(x, z)
        inv = z + mu - d
        close(r['delta'][s], d, 'hybridisation', rtol=1e-9, atol=1e-10, **ctx)
        close(r['inv'][s], inv, 'inverse non-interacting function', rtol=1e-9, atol=1e-9, **ctx)
        close(r['free'][s], 1 / inv, 'non-interacting function', rtol=1e-8, atol=1e-9, **ctx)
        close(r['free'][s], [np.linalg.inv(w * np.eye(n) - M)[0, 0] for w in z], 'non-interacting function is not the resolvent', rtol=1e-7, atol=1e-9, **ctx)
    if 'symmetrize' == [q[0] for q in c['script'] if q[0] not in ('solve', 'update')][-1]:
        close(r['x'][0], r['x'][1], 'baths differ after symmetrisation', atol=0)
        close(H[0], H[1], 'spins differ after symmetrisation', atol=0)
    # many-body part
    m = dict(n=n, H=H.tolist(), U=V.tolist(), Jx=None, Jp=None, hf=False, mu=0.)
    S = ref.Spectrum(n, H, V)
    close(r['egs'], S.egs, 'ground-state energy', atol=1e-9, **ctx)
    ground = sorted((k, e) for k, (_, es, _) in S.sct.items() for e in es if e - S.egs < 1e-6)
    maybe = sorted((k, e) for k, (_, es, _) in S.sct.items() for e in es if e - S.egs < 1e-4)
    nk = sum(len(e) for _, e, *_ in r['rows'])
    check(len(ground) <= nk <= len(maybe) or c['neig'] is not None, 'kept states are not the ground states', kept=nk, ground=ground)
    K = Kept(m, r['rows'], r['egs'], beta)
    for s in range(len(Hs)):
        g = K.part(0, 0, s, z, False) + K.part(0, 0, s, z, True)
        # the truncated recursion is exact for small sectors and converged far from the axis for larger ones
        ok = np.ones(len(z), bool) if max(K.dims, default=0) <= 20 else np.abs(z.imag) >= radius(m)
        T.label('exact' if ok.all() else 'far')
        close(np.asarray(r['gf'][s])[ok], g[ok], 'interacting function', rtol=1e-5, atol=1e-6, spin=s, **ctx)
        close(np.asarray(r['g'][s])[ok], g[ok], 'impurity function from its self-energy', rtol=1e-5, atol=1e-6, spin=s, **ctx)
        sg = 1 / np.asarray(r['free'][s]) - 1 / g
        tol = 1e-5 * (1 + 1 / np.abs(g) ** 2)
        sig = np.asarray(r['sigma'][s])
        check(sig.shape == sg.shape and np.all((np.abs(sig - sg) <= tol)[ok]), 'self-energy violates Dyson\'s equation', got=sig, expected=sg, spin=s, **ctx)
        g2 = np.asarray(r['gf'][s])
        close(sig, 1 / np.asarray(r['free'][s]) - 1 / g2, 'self-energy and impurity functions', rtol=1e-6, atol=1e-6 * (1 + np.max(1 / np.abs(g2) ** 2)), spin=s, **ctx)
        if U == 0:
            check(np.all((np.abs(sig) <= tol)[ok]), 'self-energy without interaction', got=sig, **ctx)
    close(r['tot'], r['sigma'] if c['spinful'] else r['sigma'][0], 'self-energy of the whole impurity', atol=1e-12)
    for k in ('delta', 'free', 'inv', 'g', 'sigma'):
        a = np.asarray(r[k])[:, :3]
        close(r[k + '0'], a, 'scalar frequency: ' + k, rtol=1e-7, atol=1e-8)
    # occupation from the contour integral (T = 300 K)
    for mu_, got in zip(mus, r['n']):
        tot = 0.
        for s in range(len(Hs)):
            tot += contour(K, s, n, 0. if mu_ is None else mu_) * (1 if c['spinful'] else 2)
        T.label('integrate')
        close(got, tot, 'occupation of the impurity', atol=2e-4 if max(K.dims, default=0) <= 20 else 1e-2, mu=mu_, **ctx)


def contour(K, s, n, mu):
    """Sum of pole weights times the Fermi function at 300 K."""
    out = 0.
    c = ref.annihilators(2 * n)
    for k, e, v in K.rows:
        for d in (1, -1):
            kj = (k[0] + d, k[1]) if s == 0 else (k[0], k[1] + d)
            if min(kj) < 0 or max(kj) > n:
                continue
            idx, ej, vj = K.target(kj)
            op = c[s * n].T.tocsr() if d > 0 else c[s * n]
            q = (vj.T @ (op[idx][:, index(n, k)] @ v)) ** 2 * np.exp(-K.beta * (e - K.egs))[None, :]
            l = d * (ej[:, None] - e[None, :])
            out += (q * fermi((l - mu) / (KB * 300.))).sum()
    return out / K.Z


@st.composite
def lattices(draw):
    kind = draw(st.sampled_from(['hybrid', 'hilbert', 'bethe']))
    rng = np.random.default_rng(draw(SEED))
    k = int(rng.integers(1, 6))
    w = rng.random(k) + .05
    dos = [rng.uniform(-2, 2, k).tolist(), (w / w.sum() if kind != 'hybrid' else w).tolist()]
    sig = draw(st.sampled_from(['none', 'poles', 'spin']))
    sigma = None
    if sig != 'none':
        j = int(rng.integers(1, 4))
        sh = (j,) if sig == 'poles' else (2, j)
        sigma = [rng.uniform(-2, 2, sh).tolist(), rng.uniform(0, 2, sh).tolist()]
    return dict(kind=kind, dos=dos, sigma=sigma, mu=draw(gen.num(-3, 3)), ed=draw(st.none() | gen.num(-2, 2)))


def polesum(p, z):
    e, w = np.asarray(p[0]), np.asarray(p[1])
    return (w[..., None, :] / (z[:, None] - e[..., None, :])).sum(-1)


def bethe(z):
    """Integral over the semicircle of half-width one by Chebyshev quadrature of the second kind."""
    k = 4000
    t = np.pi * np.arange(1, k + 1) / (k + 1)
    x, w = np.cos(t), 2 / (k + 1) * np.sin(t) ** 2
    z = np.asarray(z)
    return (w / (z[..., None] - x)).sum(-1)


@P.clause(500, c=lattices(), fs=freqs())
def lattice(T, c, fs):
    z = cplx(fs)
    if c['kind'] == 'bethe':                     # the branch of the band is the retarded one
        z = z.real + 1j * np.abs(z.imag)
    r = T.op('mf:lattice', c, z)
    mu, ed = c['mu'], c['ed'] or 0.
    s = polesum(c['sigma'], z) if c['sigma'] is not None else np.zeros(len(z), complex)
    T.nontrivial(c['sigma'] is not None, c['kind'], 'spin' if s.ndim == 2 else 'scalar')
    if c['kind'] == 'hybrid':
        h = polesum(c['dos'], z)
        free = 1 / (z + mu - h)
        g = 1 / (z + mu - h - s)
    else:
        f = bethe if c['kind'] == 'bethe' else (lambda y: (np.asarray(c['dos'][1]) / (y[..., None] - np.asarray(c['dos'][0]))).sum(-1))
        free, g = f(z + mu), f(z + mu - s)
    ctx = dict(case=c, z=z)
    k = dict(rtol=1e-7, atol=1e-8)
    close(r['mu'], mu, 'chemical potential', atol=0)
    close(r['g'], g, 'lattice function', **k, **ctx)
    close(r['inv'], 1 / g, 'inverse lattice function', **k, **ctx)
    close(r['free'], free, 'non-interacting lattice function', **k, **ctx)
    close(r['freeinv'], 1 / free, 'inverse non-interacting lattice function', **k, **ctx)
    close(r['weiss'], s + 1 / g, 'Weiss field', **k, **ctx)
    close(r['delta'], z + mu - ed - s - 1 / g, 'hybridisation', **k, **ctx)
    if c['kind'] == 'hybrid':
        close(np.broadcast_to(r['delta'], s.shape), np.broadcast_to(h - ed, s.shape), 'hybridisation is not the given one', rtol=1e-7, atol=1e-7, **ctx)
    close(np.asarray(r['g0']).reshape(len(z[:3]), -1).T, np.asarray(r['g']).reshape(-1, len(z))[:, :3], 'scalar frequencies', rtol=1e-9, atol=1e-10, **ctx)
    check(r['same'], 'frequencies were changed')
    check(np.all(np.asarray(r['g']).imag * np.sign(z.imag) < 0), 'lattice function is not causal', got=r['g'], **ctx)


@P.clause(300, x=st.lists(gen.num(-3, 3), min_size=1, max_size=8), y=st.sampled_from([0., 1e-12, 1e-3, .05, 1.]) | st.floats(0, 5), scalar=st.booleans(), far=st.sampled_from([1., 1., 1e2, 1e5, 1e10]))
def hilbert_transform(T, x, y, scalar, far):
    z = np.array(x) + 1j * y
    if far > 1:
        z = far * (np.array(x) + 1j * (y + .1))
        g = T.op('mf:hilbert', z, scalar)
        T.nontrivial(True, 'far')
        close(g * z, 1 + .25 / z ** 2, 'tail of the Hilbert transform', rtol=1e-4 if far == 1e2 else 1e-9, z=z)
        return
    g = np.asarray(T.op('mf:hilbert', z, scalar))
    T.nontrivial(True, 'axis' if y < 1e-6 else 'off axis', 'scalar' if scalar else 'array')
    ctx = dict(z=z)
    check(g.shape == z.shape and np.all(np.isfinite(g)), 'Hilbert transform is not finite', got=g, **ctx)
    edge = 1e-6 if y >= 1e-6 else 1e-4
    close(g * g / 4 - z * g + 1, np.zeros(len(z)), 'defining equation of the semicircle', atol=edge, **ctx)
    check(np.all(g.imag <= 1e-9), 'not causal', got=g, **ctx)
    x = np.array(x)
    if y == 0:
        close(-g.imag / np.pi, np.where(np.abs(x) < 1, 2 / np.pi * np.sqrt(np.clip(1 - x * x, 0, None)), 0), 'density of states', atol=1e-7, **ctx)
        out = np.abs(x) > 1
        close(g[out].real, (2 * (x - np.sign(x) * np.sqrt(np.clip(x * x - 1, 0, None))))[out], 'function outside the band', atol=1e-7, **ctx)
    if y >= .05:
        close(g, bethe(z), 'integral over the density of states', rtol=1e-7, atol=1e-8, **ctx)
