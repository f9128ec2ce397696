import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, keys, index
from checks.c11 import radius
from checks.c10 import BETA

P = Prop('C38', native=['psparse', 'cf'],
         rule='A case is one model with kept states and a temperature; non-trivial when some occupation lies strictly between 0 and 1.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in'])
KB = 8.617333262e-05


@st.composite
def cases(draw, exch=True, full=False, hot=False):
    m = draw(models(3, exch=exch))
    n = m['n']
    neig = None
    if not full and (n == 3 or draw(st.booleans())):
        c = draw(st.integers(1, 2))
        neig = [min(c, len(index(n, k))) for k in keys(n, 'sz')]
    return dict(m=m, neig=neig, beta=draw(BETA))


def circle(m, N=40):
    R = 2. * radius(m)
    t = (np.arange(N) + .5) * np.pi / N
    return R * np.exp(1j * t), R


def moment(g, z, k):
    """Contour integral of z^k G over the whole circle, from its upper half (G of real poles and weights)."""
    return np.real(np.asarray(g) * z ** (k + 1)).mean(-1)


def weights(r, beta):
    e = np.concatenate([np.asarray(x) for _, x in r['levels']])
    w = np.exp(-beta * (e - r['egs']))
    return e, w / w.sum()


def onebody(m):
    """One-body part once products of (n - z) are expanded, and the constant."""
    n, U = m['n'], np.array(m['U'], float)
    z = np.full(n, 1. if m['hf'] else 0.) if m.get('z') is None else np.asarray(m['z'], float)
    off = U - np.diag(np.diag(U))
    h = ref.spin(m['H']).copy()
    i = range(n)
    h[:, i, i] += m['mu'] - off @ z - (.5 * np.diag(U) if m['hf'] else 0.)
    # n^2 = n within one level only where U_ij couples different levels: nothing further
    return h, .5 * z @ off @ z + (.25 * np.trace(U) if m['hf'] else 0.)


@P.clause(110, c=cases())
def moments(T, c):
    """Weights, first moments and the energy contained in the one-particle functions."""
    m, beta = c['m'], c['beta']
    n = m['n']
    z, R = circle(m)
    r = T.op('whole:linked', m, c['neig'], beta, 0., z, dict(matrix=1) if n < 3 or c['neig'] is None else dict(matrix=1))
    occ = np.array([r['up'], r['dw']])
    T.nontrivial(np.any((occ > .01) & (occ < .99)), 'n=%d' % n, 'exchange' if m['Jx'] is not None else 'density')
    g = np.asarray(r['matrix'])
    e0, h0 = moment(g[:, 0], z, 0), moment(g[:, 1], z, 0)
    eye = np.eye(n)
    close(e0 + h0, np.array([eye, eye]), 'electron and hole weights do not add up to one', atol=1e-7)
    close(np.einsum('sii->si', h0), occ, 'hole weight is not the occupation', atol=1e-7, beta=beta)
    close(np.einsum('sii->si', e0), 1 - occ, 'electron weight is not the vacancy', atol=1e-7, beta=beta)
    h, const = onebody(m)
    e, w = weights(r, beta)
    E = (e * w).sum()
    e1, h1 = moment(g[:, 0], z, 1), moment(g[:, 1], z, 1)
    half = .5 * (np.einsum('sij,sji->', h, h0) + np.einsum('sii->', h1)) + const
    close(half, E, 'energy from the one-particle function', atol=1e-6 * (1 + R), beta=beta)
    if m['Jx'] is None and m['Jp'] is None:
        U = np.array(m['U'], float)
        off = U - np.diag(np.diag(U))
        want = h.copy()
        for s in range(2):
            want[s] += np.diag(np.diag(U) * occ[1 - s] + off @ (occ[0] + occ[1])) - off * h0[s]
        close(e1 + h1, want, 'first moment of the function', atol=1e-6 * (1 + R), beta=beta)


@P.clause(100, c=cases(), shift=gen.num(-2, 2))
def weights_of_parts(T, c, shift):
    """Single-level functions: electron and hole weights against the thermal occupation, any reference energy."""
    m, beta = c['m'], c['beta']
    shift = shift if beta * abs(shift) < 100 else 0.
    z, R = circle(m)
    r = T.op('whole:linked', m, c['neig'], beta, shift, z, dict(single=1))
    occ = np.array([r['up'], r['dw']])
    T.nontrivial(np.any((occ > .01) & (occ < .99)), 'n=%d' % m['n'])
    g = moment(r['single'], z, 0)
    close(g[:, :, 1], occ, 'hole weight is not the occupation', atol=1e-7, beta=beta)
    close(g[:, :, 0], 1 - occ, 'electron weight is not the vacancy', atol=1e-7, beta=beta)


@P.clause(80, c=cases(full=True))
def exact_moments(T, c):
    m, beta = c['m'], c['beta']
    n = m['n']
    z, R = circle(m)
    r = T.op('whole:linked', m, None, beta, 0., z, dict(exact=1))
    occ = np.array([r['up'], r['dw']])
    T.nontrivial(np.any((occ > .01) & (occ < .99)), 'n=%d' % n)
    g = r['exact']
    close(moment(g, z, 0), np.array([np.eye(n)] * 2), 'weight of the exact function', atol=1e-7)
    if m['Jx'] is None and m['Jp'] is None:
        h, _ = onebody(m)
        U = np.array(m['U'], float)
        off = U - np.diag(np.diag(U))
        for s in range(2):
            want = np.diag(h[s]) + np.diag(U) * occ[1 - s] + off @ (occ[0] + occ[1])
            close(np.diag(moment(g, z, 1)[s]), want, 'first moment of the exact function', atol=1e-6 * (1 + R), beta=beta)


@P.clause(60, c=cases(full=True), T_=st.sampled_from([300., 1000., 3000., 10000.]), exact=st.booleans())
def integrated(T, c, T_, exact):
    """Contour and Matsubara integrals of a solved system's function against its thermal occupation."""
    m = c['m']
    beta = 1. / (KB * T_)
    if not exact and m['n'] == 3:
        m = dict(m, n=2, H=ref.spin(m['H'])[:, :2, :2], U=np.array(m['U'])[:2, :2], **{k: None if m[k] is None else np.array(m[k])[:2, :2] for k in ('Jx', 'Jp')})
    r = T.op('whole:linked', m, None, beta, 0., [1j], dict(integrals=dict(T=T_, nmats=int(60 * radius(m) * beta / 6) + 200, exact=exact)))
    occ = np.array([r['up'], r['dw']])
    T.nontrivial(np.any((occ > .01) & (occ < .99)), 'exact' if exact else 'Krylov')
    if 2 * radius(m) < 2000. * KB * T_:              # the expansion's reach
        close(r['contour'], occ, 'contour integral is not the occupation', atol=3e-6, T=T_)
    close(r['sum'], occ, 'Matsubara sum is not the occupation', atol=2e-6, T=T_)


@P.clause(100, c=cases(full=True), site=st.integers(0, 2), spin=st.integers(0, 1))
def response(T, c, site, spin):
    """The occupation is the derivative of the thermodynamic potential with respect to the level."""
    m, beta = c['m'], min(c['beta'], 50.)
    n, p = m['n'], site % m['n']
    d = 1e-3 / max(beta, 1.)

    def omega(x):
        q = dict(m, H=ref.spin(m['H']).copy())
        q['H'][spin, p, p] += x
        r = T.op('whole:linked', q, None, beta, 0., [1j], {})
        e = np.concatenate([np.asarray(v) for _, v in r['levels']])
        return -np.log(np.exp(-beta * (e - e.min())).sum()) / beta + e.min(), r
    a, b = omega(d)[0], omega(-d)[0]
    a2, b2 = omega(2 * d)[0], omega(-2 * d)[0]
    _, r = omega(0.)
    occ = np.array([r['up'], r['dw']])
    T.nontrivial(.01 < occ[spin, p] < .99)
    slope = (8 * (a - b) - (a2 - b2)) / (12 * d)
    close(slope, occ[spin, p], 'occupation is not the response to its level', atol=1e-6, beta=beta)


@P.clause(120, m=models(2) | models(3, 3), beta=st.sampled_from([.3, 1., 3., 10.]), mu=gen.num(-2, 2), seed=st.integers(0, 2 ** 32 - 1))
def balance(T, m, beta, mu, seed):
    """Leads of one chemical potential drive the system into its grand-canonical equilibrium."""
    rng = np.random.default_rng(seed)
    n = m['n']
    A = rng.uniform(.3, 1, (2, n)) * rng.choice([-1., 1.], (2, n))
    r = T.op('whole:balance', m, beta, mu, A)
    W, p = np.asarray(r['W']), np.asarray(r['p'])
    ev = dict((tuple(k), np.asarray(e)) for k, e in r['levels'])
    x = np.array([ev[i[:2]][i[2]] - mu * (i[0] + i[1]) for i in r['ids']])
    w = np.exp(-beta * (x - x.min()))
    w /= w.sum()
    off = W - np.diag(np.diag(W))
    close(off * w[None, :], (off * w[None, :]).T, 'no detailed balance', atol=1e-9 * (1 + np.abs(W).max()), rtol=1e-7, beta=beta, mu=mu)
    gap = np.sort(np.abs(np.linalg.eigvals(W)))
    unique = len(gap) < 2 or gap[1] > 1e-4 * gap[-1]
    T.nontrivial(unique and n > 1, 'unique' if unique else 'degenerate')
    if unique:
        close(p / p.sum(), w, 'steady state is not the equilibrium', atol=1e-5, rtol=1e-5, beta=beta, mu=mu)
