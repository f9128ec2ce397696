import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen
from checks.c18 import fermi
from checks.c28 import matsubara
from checks.c31 import freqs, cplx, impurities
from checks.c34 import good

P = Prop('C33', native=['psparse', 'cf'],
         rule='A case is a nanostructure (Hamiltonian, overlap, leads, grouping, self-energies) or a collection of impurities with a history; non-trivial with at least two sites '
              'that hybridise, or two impurities.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in', 'occupations are checked for an orthonormal basis (the code\'s frequency sum assumes unit weights)',
                      'the loop runs on stand-in impurities; MPI processes are simulated by threads'])

SEED = st.integers(0, 2 ** 32 - 1)
BETA = 70.                                    # the temperature of the frequency sum


@st.composite
def nanos(draw, nmax=6, spin=None, groups=None):
    n = draw(gen.nlev(2, nmax) | st.integers(1, nmax))
    rng = np.random.default_rng(draw(SEED))
    kind = draw(st.sampled_from(['any', 'first', 'one', 'all', 'any']))
    if groups is not None:
        k = groups
        labels = rng.permutation(np.concatenate([np.arange(k), rng.integers(0, k, max(n - k, 0))]))
        n = len(labels)
    elif kind == 'any':
        labels = rng.integers(0, draw(st.integers(1, n)), n)
    elif kind == 'first':                     # representatives are the first sites
        k = int(rng.integers(1, n + 1))
        labels = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
    else:
        labels = np.zeros(n, int) if kind == 'one' else np.arange(n)
    labels = np.unique(labels, return_inverse=True)[1].ravel()
    neq = np.unique(labels, return_index=True)[1]
    k = len(neq)
    sp = draw(st.booleans()) if spin is None else spin
    H = rng.uniform(-1, 1, (n, n))
    H = H + H.T
    if draw(st.booleans()):                   # a chain
        H *= np.abs(np.subtract.outer(np.arange(n), np.arange(n))) <= 1
    ortho = draw(st.booleans())
    S = np.eye(n)
    if not ortho:
        B = rng.uniform(-.3, .3, (n, n)) / n
        S = (S + B) @ (S + B).T
    nl = draw(st.integers(0, 2))
    V = rng.uniform(-.6, .6, (nl, n)) * (rng.random((nl, n)) < .5)
    shape = (k, 2) if sp else (k,)
    q = draw(st.integers(0, 2))
    sig = [np.round(rng.uniform(-1, 1, shape), 3), np.round(rng.uniform(-2, 2, shape + (q,)), 3), np.round(rng.uniform(0, 1, shape + (q,)), 3)]
    return dict(labels=labels.tolist(), H=np.round(H, 4).tolist(), S=S.tolist(), V=V.tolist(), gamma=[np.outer(v, v).tolist() for v in V], elead=np.round(rng.uniform(-2, 2, nl), 3).tolist(),
                sigma=[x.tolist() for x in sig], mu=draw(gen.num(-2, 2)), spin=sp, kind=kind, ortho=ortho)


def arrays(c):
    labels = np.array(c['labels'])
    neq = np.unique(labels, return_index=True)[1]
    s0, e, w = (np.array(x, float) for x in c['sigma'])
    k = len(neq)
    shape = (k, 2) if c['spin'] else (k,)
    q = np.size(e) // max(np.size(s0), 1)
    return labels, neq, s0.reshape(shape), e.reshape(shape + (q,)), w.reshape(shape + (q,))


def reference(c, z, reps=None):
    """Selected diagonal of the inverse, Weiss field and hybridisation, one frequency and spin at a time."""
    labels, neq, s0, e, w = arrays(c)
    neq = neq if reps is None else np.array(reps)
    H, S = np.array(c['H']), np.array(c['S'])
    sig = s0[..., None] + (w[..., None, :] / (z[:, None] - e[..., None, :])).sum(-1)
    g = np.empty_like(sig)
    for i, x in enumerate(z):
        M = (x + c['mu']) * S - H - sum((np.array(G) / (x - a) for G, a in zip(c['gamma'], c['elead'])), np.zeros_like(H))
        for s in ([0, 1] if c['spin'] else [None]):
            t = (Ellipsis, i) if s is None else (slice(None), s, i)
            g[t] = np.linalg.inv(M - np.diag(sig[t][labels])).diagonal()[neq]
    weiss = 1 / g + sig
    ed = H.diagonal()[neq]
    delta = z + c['mu'] - ed.reshape((-1,) + (1,) * (sig.ndim - 1)) - weiss
    return g, weiss, delta, ed


def occupations(c, mu):
    """Exact filling of every site (both spins), and the weighted third moment that limits the frequency sum."""
    labels, neq, s0, e, w = arrays(c)
    n = len(labels)
    tot, s3 = np.zeros(n), 0.
    for s in ([0, 1] if c['spin'] else [None, None]):
        a, b, d = (s0, e, w) if s is None else (s0[:, s], e[:, s], w[:, s])
        H = np.array(c['H']) + np.diag(a[labels])
        nl, q = len(c['elead']), b.shape[-1]
        big = np.zeros((n + nl + n * q,) * 2)
        big[:n, :n] = H
        for j in range(nl):
            big[n + j, n + j] = c['elead'][j]
            big[n + j, :n] = big[:n, n + j] = c['V'][j]
        for i in range(n):
            for j in range(q):
                k = n + nl + i * q + j
                big[k, k] = b[labels[i], j]
                big[k, i] = big[i, k] = np.sqrt(d[labels[i], j])
        # only the sites feel the chemical potential: the leads and the self-energy are functions of z
        big[:n, :n] -= mu * np.eye(n)
        l, v = np.linalg.eigh(big)
        tot += (v[:n] ** 2) @ fermi(BETA * l)
        s3 = max(s3, ((v[:n] ** 2) @ np.abs(l) ** 3).max())
    # a representative speaks for its group
    return tot[neq][labels], s3


def inside(c, r, z, reps=None):
    g, weiss, delta, ed = reference(c, z, reps)
    big = np.abs(1 / g).max()
    close(r['g'], g, "local Green's function", rtol=1e-8, atol=1e-9 * np.abs(g).max(), case=c)
    close(r['weiss'], weiss, 'Weiss field', rtol=1e-7, atol=1e-8 * (1 + big), case=c)
    close(r['delta'], delta, 'hybridisation', rtol=1e-7, atol=1e-8 * (1 + big), case=c)
    close(r['ed'], ed, 'levels of the representatives', atol=1e-13)
    for k, x in enumerate(z[:2]):
        close(np.asarray(r['g0'][k]).ravel(), g[..., k].ravel(), 'scalar frequency', rtol=1e-8, atol=1e-9 * np.abs(g).max(), case=c)
        close(np.asarray(r['delta0'][k]).ravel(), delta[..., k].ravel(), 'hybridisation at a scalar frequency', rtol=1e-7, atol=1e-8 * (1 + big), case=c)
    check(np.array_equal(r['g'], r['again']), 'the function does not repeat')
    check(r['same'], 'the frequencies were changed')
    check(r['n'] is not None and r['mu'] == c['mu'], 'chemical potential changed', got=r['mu'])


@P.clause(350, c=nanos(), fs=freqs(), rep=st.booleans(), seed=SEED)
def lattice(T, c, fs, rep, seed):
    z = cplx(fs)
    reps = None
    if rep:                                   # any member may represent its group
        rng = np.random.default_rng(seed)
        lab = np.array(c['labels'])
        reps = [int(rng.choice(np.nonzero(lab == k)[0])) for k in range(lab.max() + 1)]
    T.nontrivial(np.count_nonzero(np.array(c['H']) - np.diag(np.diag(c['H']))) > 0, c['kind'], 'spin' if c['spin'] else 'no spin', 'orthonormal' if c['ortho'] else 'overlap',
                 'one frequency' if len(z) == 1 else 'several', 'first sites' if np.array_equal(reference(c, z[:1])[3].shape[0], max(c['labels']) + 1) and
                 list(np.unique(c['labels'], return_index=True)[1]) == list(range(max(c['labels']) + 1)) else 'other sites')
    r = T.op('nano:lattice', c, z, [], reps)
    inside(c, r, z, reps)
    H, S = np.array(c['H']), np.array(c['S'])
    for k, x in enumerate(z[:2]):
        M = (x + c['mu']) * S - H - sum((np.array(G) / (x - a) for G, a in zip(c['gamma'], c['elead'])), np.zeros_like(H))
        close(r['inv'][k], M, 'inverse of the non-interacting function', atol=1e-11)
        close(np.asarray(r['free'][k]) @ M, np.eye(len(H)), 'non-interacting function', atol=1e-8)
    check(r['kept'], 'Hamiltonian, overlap or chemical potential changed')


@P.clause(40, thorough=400, c=nanos(nmax=5), mus=st.lists(gen.num(-2, 2), min_size=1, max_size=2), timeout=200)
def filling(T, c, mus):
    c = dict(c, S=np.eye(len(c['H'])).tolist())
    r = T.op('nano:lattice', c, np.array([.3j]), mus)
    T.nontrivial(True, c['kind'], 'spin' if c['spin'] else 'no spin')
    wN = 5999 * np.pi / BETA
    for m, got in zip(mus, r['n']):
        n, s3 = occupations(c, m)
        check(np.shape(got) == n.shape, 'occupations are not expanded to all sites', got=np.shape(got), expected=n.shape)
        close(got, n, 'occupations', rtol=0, atol=2 * (1e-8 + 8 * s3 / wN ** 3 / np.pi), mu=m, case=c)
    check(r['kept'], 'integration changed the chemical potential')


@P.clause(120, c=st.integers(2, 4).flatmap(lambda p: st.sampled_from([p, 2 * p] if p < 4 else [p]).flatmap(lambda k: st.tuples(st.just(p), nanos(groups=k)))), fs=freqs(3), seed=SEED,
          jitter=st.sampled_from([0., 0., 1e-3]), count=st.sampled_from([False] * 9 + [True]), timeout=200)
def distributed(T, c, fs, seed, jitter, count):
    """Every process owns a share of the groups and sees the self-energies of all."""
    p, c = c
    z = cplx(fs)
    if count:
        c = dict(c, S=np.eye(len(c['H'])).tolist())
    out, calls, err = T.op('nano:distributed', [p, seed, jitter], c, z, [.3] if count else [])
    res = good(out, err)
    T.nontrivial(True, '%d processes' % p, 'spin' if c['spin'] else 'no spin', *(['occupations'] if count else []))
    k = (max(c['labels']) + 1) // p
    g, weiss, delta, ed = reference(c, z)
    big = np.abs(1 / g).max()
    check(len(set(calls)) == 1, 'processes took part in different numbers of exchanges', calls=calls)
    for q, r in enumerate(res):
        s = slice(q * k, (q + 1) * k)
        close(r['g'], g[s], "local Green's function of a process", rtol=1e-8, atol=1e-9 * np.abs(g).max(), process=q, case=c)
        close(r['weiss'], weiss[s], 'Weiss field of a process', rtol=1e-7, atol=1e-8 * (1 + big), process=q)
        close(r['delta'], delta[s], 'hybridisation of a process', rtol=1e-7, atol=1e-8 * (1 + big), process=q)
        close(r['ed'], ed[s], 'levels of a process', atol=1e-13)
        if count:
            n, s3 = occupations(c, .3)
            close(r['n'][0], n, 'occupations on every process', rtol=0, atol=1e-6 * (1 + s3), process=q)


@st.composite
def collections(draw):
    k = draw(st.integers(1, 3))
    first = draw(impurities(nmax=3))
    spinful = first['spinful']
    cs = [first]
    for _ in range(k - 1):
        o = draw(impurities(nmax=3))
        o['spinful'] = spinful
        o['nmats'], o['beta'] = first['nmats'], first['beta']
        o['nmats'] = max(o['nmats'], 2 * o['n'])
        cs.append(o)
    nm = max(o['nmats'] for o in cs)
    for o in cs:
        o.update(nmats=nm, neig=None, adjust=False)
        o.pop('script', None)
    rng = np.random.default_rng(draw(SEED))

    def baths(o):
        m = o['n'] - 1
        f = lambda: np.concatenate([rng.uniform(-2, 2, m), rng.uniform(-1, 1, m)]).tolist()
        return [f(), f()] if spinful else f()

    def targets(o):
        j = int(rng.integers(1, 4))
        f = lambda: np.concatenate([rng.uniform(-2, 2, j), rng.uniform(.2, .8, j)]).tolist()
        return [f(), f()] if spinful else f()
    script = []
    for s in draw(st.lists(st.sampled_from(['fit', 'update', 'update', 'bath', 'reset', 'solve'] + (['sym'] if spinful else [])), min_size=1, max_size=4)):
        if s == 'fit':
            script.append([s, [targets(o) for o in cs], bool(rng.integers(2))])
        elif s == 'update':
            script.append([s, float(np.round(rng.uniform(-2, 2), 2)) if rng.integers(2) else np.round(rng.uniform(-2, 2, k), 2)])
        elif s == 'bath':
            script.append([s, [baths(o) for o in cs]])
        else:
            script.append([s])
    script.append(['bath', [baths(o) for o in cs]])
    if spinful and rng.integers(2):
        script.append(['sym'])
    script.append(['update', np.round(rng.uniform(-2, 2, k), 2)])
    script.append(['solve'])
    return cs, script


@P.clause(150, cs=collections(), fs=freqs(3), timeout=200)
def impurity_collection(T, cs, fs):
    cs, script = cs
    out, facts = T.op('nano:collection', cs, cplx(fs), script)
    T.nontrivial(len(cs) > 1, 'spin' if cs[0]['spinful'] else 'no spin', 'different sizes' if len({c['n'] for c in cs}) > 1 else 'equal sizes')
    for o in out:
        if 'sigma' in o:
            check(np.shape(o['sigma']) == np.shape(o['want']), 'shape of the self-energies', got=np.shape(o['sigma']), expected=np.shape(o['want']))
            close(o['sigma'], o['want'], 'self-energies of the members', rtol=1e-10, atol=1e-10 * (1 + np.abs(o['want']).max()))
            occ = np.asarray(o['occ'])
            close(o['moments'], occ[:, 0] - occ[:, 1], 'local moments', atol=1e-10, cases=cs)
        else:
            for a, b in zip(o['H'], o['want']):
                close(a, b, 'Hamiltonians of the members', atol=0)
            for a, b in zip(o['x'], o['xwant']):
                close(a, b, 'baths of the members', atol=0)
    check(facts['len'] == len(cs) and all(v for k, v in facts.items() if k != 'len'), 'members of the collection', got=facts)


@P.clause(80, thorough=800, c=nanos(nmax=5), n=st.integers(1, 4), nmats=st.integers(1, 8), beta=st.floats(2, 60), mag=st.none() | st.tuples(st.sampled_from([1, -1]), gen.num(0, 2)), U=gen.num(0, 4), mu0=st.none() | gen.num(-1, 1), seed=SEED, timeout=200)
def loop(T, c, n, nmats, beta, mag, U, mu0, seed):
    """Each impurity is fed with the hybridisation and level of its own site."""
    rng = np.random.default_rng(seed)
    k = max(c['labels']) + 1
    imps = np.round(rng.uniform(-.5, .5, (k, 2)), 3)
    s0 = np.round(rng.uniform(-1, 1, k), 3)
    cc = dict(c, nmats=nmats, beta=beta, s0=s0.tolist(), U=U, mu0=mu0, tol=1e-9)
    r = T.op('nano:loop', cc, n if mag is None else 0, imps.tolist(), mag)
    z = matsubara(nmats, beta)
    mu = U / 2 if mu0 is None else mu0
    T.nontrivial(k > 1, 'magnetic' if mag else 'plain', c['kind'])
    neq = np.unique(c['labels'], return_index=True)[1]
    ed = np.array(c['H']).diagonal()[neq]

    def hyb(s, m):
        q = np.zeros(np.shape(s) + (0,))
        return reference(dict(c, sigma=[s, q, q], spin=np.ndim(s) == 2, mu=m), z)[2]
    f = r['first']
    close(f['mu'], mu, 'initial chemical potential', atol=1e-12)
    tol = dict(rtol=1e-6, atol=1e-7)
    if mag:
        sign, field = mag
        close(f['level'], np.stack([ed - mu - sign * field, ed - mu + sign * field], 1), 'levels of the two spins on every site', atol=1e-9, case=cc, mag=mag)
        d0 = hyb(np.stack([s0, s0], 1), mu)
        x = np.abs(d0[:, 0]).mean(-1)
        close(f['x'], np.stack([x, x], 1), 'hybridisation given to the impurities', **tol)
        lv = np.stack([ed - mu - sign * field, ed - mu + sign * field], 1)
        s = imps[:, :1] * x[:, None] + imps[:, 1:] * lv
        close(f['delta'], hyb(s, mu), 'hybridisation after the magnetic step', rtol=1e-6, atol=1e-6)
        return
    close(f['level'], ed - mu, 'initial impurity levels', atol=1e-12)
    x = hyb(s0, mu)
    close(f['delta'], x, 'initial hybridisation', **tol)
    for o in r['out']:
        xs = np.asarray(o['start'])
        xc = xs.real + 1j * np.where(xs.imag > 0, -1e-20, xs.imag)
        close(o['x'], np.abs(xc).mean(-1), 'hybridisation given to the impurities', atol=1e-9)
        close(o['level'], ed - mu, 'impurity levels', atol=1e-9, case=cc)
        s = imps[:, 0] * np.asarray(o['x']) + imps[:, 1] * np.asarray(o['level'])
        close(o['sigma'], s[:, None] + 0 * z, 'self-energies of the lattice', atol=1e-9)
        new = hyb(s, mu)
        if o['r'][0] == 'value':
            close(o['r'][1], new, 'new hybridisation', **tol)
            check(np.linalg.norm(new - xc) > 1e-10, 'converged without saying so')
        else:
            check(o['r'][0] == 'converged' and np.linalg.norm(new - xc) < 1e-6, 'the loop ended early', got=o['r'])
