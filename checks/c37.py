import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models
from checks.c10 import freqs, cplx
from checks.c22 import leads

P = Prop('C37', native=['psparse', 'cf'],
         rule='A case is one model and its image under a symmetry; non-trivial when the image differs from the model or the model has '
              'at least two levels and an interaction.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in'])
BETA = st.sampled_from([.1, .5, 1., 3., 10., 50.])
LABEL = dict(exact="exact Green's function", exact2="exact matrix Green's function", cf="Lanczos Green's function (continued fraction)",
             sp="Lanczos Green's function (spectral)", krylov2="Lanczos matrix Green's function")


def arrays(m):
    return dict(m, H=ref.spin(m['H']).copy(), U=np.array(m['U'], float), Jx=None if m['Jx'] is None else np.array(m['Jx'], float),
                Jp=None if m['Jp'] is None else np.array(m['Jp'], float), z=None if m.get('z') is None else np.array(m['z'], float))


def permute(m, p):
    q = arrays(m)
    q['H'] = q['H'][:, p][:, :, p]
    for k in ('U', 'Jx', 'Jp'):
        if q[k] is not None:
            q[k] = q[k][p][:, p]
    if q['z'] is not None:
        q['z'] = q['z'][p]
    return q


def gauge(m, s):
    q = arrays(m)
    q['H'] = q['H'] * np.outer(s, s)
    return q


def flip(m):
    q = arrays(m)
    q['H'] = q['H'][::-1].copy()
    return q


def conjugate(m):
    """Particles and holes exchanged (no exchange terms): n -> 1 - n, c -> c+."""
    q = arrays(m)
    h, U = q['H'], q['U']
    i = range(len(U))
    off = U - np.diag(np.diag(U))
    new = -h.copy()
    z = np.full(len(U), 1. if m['hf'] else 0.) if q['z'] is None else q['z']
    new[:, i, i] -= m['mu']                       # -(h_ii + mu)
    if not m['hf']:
        new[:, i, i] -= np.diag(U)
    # (n_i - z_i) -> (2 - n_i - z_i): the pair term keeps its form with z -> 2 - z
    q['H'], q['mu'], q['z'] = new, 0., 2. - z
    return q


def scaled(m, x):
    q = arrays(m)
    for k in ('H', 'U', 'Jx', 'Jp'):
        if q[k] is not None:
            q[k] = q[k] * x
    q['mu'] = q['mu'] * x
    return q


def join(a, b):
    q, r = arrays(a), arrays(b)
    n, k = q['n'], r['n']

    def blk(x, y, shape):
        out = np.zeros(shape + (n + k, n + k))
        if x is not None:
            out[..., :n, :n] = x
        if y is not None:
            out[..., n:, n:] = y
        return out
    q['H'] = blk(q['H'], r['H'], (2,))
    for s in ('U', 'Jx', 'Jp'):
        q[s] = None if q[s] is None and r[s] is None else blk(q[s], r[s], ())
    q['n'] = n + k
    return q


def levels(r):
    return {tuple(k): np.sort(np.asarray(e)) for k, e in r['levels']}


def spectra(a, b, key, msg, scale=1.):
    la, lb = levels(a), levels(b)
    off = None
    for k in sorted(la):
        j = key(k)
        check(j in lb, msg + ': sector %s is missing' % (j,))
        tol = 1e-8 * (1 + max(abs(la[k]).max(), abs(lb[j]).max())) * max(scale, 1.)
        d = lb[j] - scale * la[k] if len(la[k]) == len(lb[j]) else None
        check(d is not None, msg + ': sectors differ in size', sector=k)
        off = d[0] if off is None else off        # a constant may separate the spectra
        check(np.abs(d - off).max() <= 2 * tol, msg + ': spectra differ beyond a constant', sector=k, differences=d, constant=off)
    return off


def functions(a, b, idx, sp, sgn, fac, msg, names):
    """b's functions equal a's at levels idx, spins sp, multiplied by the level signs."""
    for name in names:
        x, y = np.asarray(a[name]), np.asarray(b[name])
        if x.ndim == 4:
            want = x[sp][:, idx][:, :, idx] * np.outer(sgn, sgn)[None, :, :, None]
        else:
            want = x[sp][:, idx]
        close(fac * y, want, '%s: %s' % (msg, LABEL[name]), rtol=1e-6, atol=1e-6)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['permute', 'gauge', 'flip', 'conjugate', 'scale', 'convention', 'sites']))
    m = draw(models(3, exch=kind not in ('conjugate',)))
    if draw(st.booleans()) and m['z'] is None:
        m['z'] = draw(st.lists(gen.num(0, 2), min_size=m['n'], max_size=m['n']))
    routes = [('exact', 'cf'), ('exact2',), ('exact', 'sp')] + ([('krylov2', 'exact')] if m['n'] < 3 else [])
    return dict(kind=kind, m=m, routes=draw(st.sampled_from(routes)), beta=draw(BETA), fs=draw(freqs(3)), seed=draw(st.integers(0, 2 ** 32 - 1)))


@P.clause(250, c=cases())
def equilibrium(T, c):
    """Spectra, occupations and every route to the Green's function under permutations and signs of the levels, exchange of spins and of
    particles with holes, a change of units and the half-filling convention."""
    m, beta, rng = c['m'], c['beta'], np.random.default_rng(c['seed'])
    n, kind = m['n'], c['kind']
    z = cplx(c['fs'])
    idx, sp, sgn, fac, zb, bb = np.arange(n), [0, 1], np.ones(n), 1., z, beta
    key = lambda k: k
    scale, holes = 1., False
    if kind in ('permute', 'sites'):
        idx = rng.permutation(n)
        q = permute(m, idx)
        if kind == 'sites':
            sgn = rng.choice([-1., 1.], n)
            q = gauge(q, sgn)
            q = flip(q)
            sp = [1, 0]
            key = lambda k: k[::-1]
    elif kind == 'gauge':
        sgn = rng.choice([-1., 1.], n)
        q = gauge(m, sgn)
    elif kind == 'flip':
        q, sp, key = flip(m), [1, 0], lambda k: k[::-1]
    elif kind == 'conjugate':
        q, holes, key = conjugate(m), True, lambda k: (n - k[0], n - k[1])
        zb, fac = -np.conj(z), -1.                # G'(-z*) = -conj(G(z))
    elif kind == 'scale':
        scale = float(rng.choice([.25, .5, 2., 3.7]))
        q, zb, bb, fac = scaled(m, scale), z * scale, beta / scale, scale
    else:
        q = arrays(m)                             # explicit one-body terms in place of the half-filling form
        if m['hf']:
            q['hf'] = False
            for i in range(n):
                q['H'][:, i, i] -= .5 * q['U'][i, i]
            q['z'] = np.ones(n) if q['z'] is None else q['z']
        else:
            q['hf'] = True
            for i in range(n):
                q['H'][:, i, i] += .5 * q['U'][i, i]
            q['z'] = np.zeros(n) if q['z'] is None else q['z']
    a = T.op('whole:bundle', m, beta, z, c['routes'])
    b = T.op('whole:bundle', q, bb, zb, c['routes'])
    T.nontrivial(n > 1 and np.any(m['U']), kind, 'n=%d' % n, 'exchange' if m['Jx'] is not None else 'density')
    spectra(a, b, key, kind, scale)
    for s, name in ((0, 'up'), (1, 'dw')):
        want = np.asarray(a[('up', 'dw')[sp[s]]])[idx]
        close(b[name], 1 - want if holes else want, '%s: occupation (%s)' % (kind, name), rtol=1e-6, atol=1e-6)
    if holes:
        for name in c['routes']:
            b[name] = np.conj(np.asarray(b[name]))
    functions(a, b, idx, sp, sgn, fac, kind, c['routes'])


@P.clause(60, a=models(2), b=models(2), beta=BETA, fs=freqs(3), seed=st.integers(0, 2 ** 32 - 1))
def separate_systems(T, a, b, beta, fs, seed):
    """Two systems that do not talk to each other give, in one calculation with interleaved levels, what each gives alone."""
    rng = np.random.default_rng(seed)
    if a['n'] + b['n'] > 3:
        a = dict(a, n=1, H=ref.spin(a['H'])[:, :1, :1], U=np.array(a['U'])[:1, :1], Jx=None, Jp=None)
    b = dict(b, hf=a['hf'], mu=a['mu'])
    z = cplx(fs)
    n = a['n'] + b['n']
    what = [('exact', 'cf'), ('exact2',), ('sp',), ('krylov2',) if n == 2 else ('exact',)][seed % 4]
    x, y = T.op('whole:bundle', a, beta, z, what), T.op('whole:bundle', b, beta, z, what)
    p = rng.permutation(n)
    r = T.op('whole:bundle', permute(join(a, b), p), beta, z, what)
    T.nontrivial(True, '%d+%d' % (a['n'], b['n']))
    inv = np.argsort(p)
    for s in ('up', 'dw'):
        close(np.asarray(r[s])[inv], np.concatenate([x[s], y[s]]), 'occupation of separate systems (%s)' % s, rtol=1e-6, atol=1e-7)
    lx, ly, lr = levels(x), levels(y), levels(r)
    for k in lr:
        want = [e + f for q in lx for w in ly if (q[0] + w[0], q[1] + w[1]) == k for e in lx[q] for f in ly[w]]
        close(lr[k], np.sort(want), 'levels of separate systems', rtol=1e-8, atol=1e-7)
    for name in what:
        g, gx, gy = np.asarray(r[name]), np.asarray(x[name]), np.asarray(y[name])
        if g.ndim == 4:
            want = np.zeros_like(g)
            want[:, :a['n'], :a['n']] = gx
            want[:, a['n']:, a['n']:] = gy
            g = g[:, inv][:, :, inv]
        else:
            want, g = np.concatenate([gx, gy], axis=1), g[:, inv]
        close(g, want, 'separate systems: ' + LABEL[name], rtol=1e-6, atol=1e-6)


def pairs(l):
    return {(tuple(f), tuple(i)): np.asarray(v) for f, i, v in l}


def compare(a, b, key, order, msg, tol=1e-6):
    a, b = pairs(a), pairs(b)
    big = np.abs(np.array([v for d in (a, b) for v in d.values()] or [0.])).max()
    if not big <= 1e5 and 'sequential' not in msg:
        return False                              # at or next to a resonance the approximate rate diverges (not a number at it)
    check(np.isfinite(big), msg + ': rates are not finite')
    for k in sorted(set(a) | {(key(f), key(i)) for f, i in b}):
        x = a.get(k, np.zeros(2))[order]
        y = b.get((key(k[0]), key(k[1])), np.zeros(2))
        close(y, x, '%s: sectors %s' % (msg, k), rtol=tol, atol=tol * (1 + big))
    return big > 1e-9


@st.composite
def junctions(draw):
    m = draw(models(2) if draw(st.integers(0, 3)) else models(3, 3))
    return dict(m=m, leads=draw(leads(m['n'])), kind=draw(st.sampled_from(['permute', 'gauge', 'flip', 'swap', 'charge', 'charge', 'conjugate'])), seed=draw(st.integers(0, 2 ** 32 - 1)))


@P.clause(160, c=junctions())
def transport(T, c):
    """Sums of tunneling rates between sectors under the same symmetries, exchange of the leads, and through charge sectors."""
    m, L, kind, rng = c['m'], c['leads'], c['kind'], np.random.default_rng(c['seed'])
    n, A, mu, beta = m['n'], np.array(L['A'], float), L['mu'], L['beta']
    cot = n < 3 and beta * (abs(mu[0]) + abs(mu[1])) < 500
    key, order = (lambda k: k), [0, 1]
    if kind == 'charge':
        m = dict(m, H=[np.diag(np.diag(h)) for h in ref.spin(m['H'])])
        r = T.op('whole:transport', m, beta, mu, A, cot, True)
        ok = False
        for s in ('seq', 'cot')[:1 + cot]:
            tot = {}
            for f, i, v in r[s]:
                k = (sum(f),), (sum(i),)
                tot[k] = tot.get(k, 0.) + np.asarray(v)
            ok |= compare([(f, i, v) for (f, i), v in tot.items()], r['n' + s], key, order, 'charge sectors (%s)' % {'seq': 'sequential', 'cot': 'cotunneling'}[s])
        T.nontrivial(ok, kind)
        return
    B, mub, q = A, mu, arrays(m)
    if kind == 'permute':
        p = rng.permutation(n)
        q, B = permute(m, p), A[:, p]
    elif kind == 'gauge':
        s = rng.choice([-1., 1.], n)
        q, B = gauge(m, s), A * s
    elif kind == 'flip':
        q, key = flip(m), lambda k: k[::-1]
    elif kind == 'swap':
        B, mub, order = A[::-1], mu[::-1], [1, 0]
    else:
        m = dict(m, Jx=None, Jp=None)
        q, mub, key = conjugate(m), [-x for x in mu], lambda k: (n - k[0], n - k[1])
    a = T.op('whole:transport', m, beta, mu, A, cot)
    b = T.op('whole:transport', q, beta, mub, B, cot)
    ok = compare(a['seq'], b['seq'], key, order, kind + ' (sequential)')
    close(b['total'], a['total'], kind + ': sum of the rates', rtol=1e-6, atol=1e-8)
    if cot:
        ok |= compare(a['cot'], b['cot'], key, [1, 0] if kind in ('swap', 'conjugate') else order, kind + ' (cotunneling)')
    T.nontrivial(ok, kind)
