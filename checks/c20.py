import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close

P = Prop('C20', rule='A case is a set of amplitudes, energies, lead levels and a temperature; non-trivial when the integral is not '
                     'exponentially suppressed (> 1e-12 of the unsuppressed scale).',
         assumptions=['the usual regularisation: the finite part of 1/(E-eps)^2, i.e. the integral along a contour shifted by less than pi/beta'])


def weight(z, mu, beta):
    """f(z - mu0) (1 - f(z - mu1)) for complex z."""
    def logi(y):
        r = np.empty_like(y)
        p = y.real > 0
        t = np.exp(-y[p])
        r[p] = t / (1 + t)
        r[~p] = 1 / (1 + np.exp(y[~p]))
        return r
    return logi(beta * (z - mu[0])) * logi(-beta * (z - mu[1]))


def quadrature(A, eps, mu, beta, cross=None):
    """(integral, scale): |sum A/(E-eps)|^2 f (1-f), or one product of two terms."""
    s, h = np.pi / 2 / beta, .2 / beta
    x = np.arange(min(mu) - 45 / beta, max(mu) + 45 / beta + h, h)
    z = x + 1j * s
    W = weight(z, mu, beta)
    t = np.asarray(A)[:, None] / (z[None, :] - np.asarray(eps)[:, None])
    a = t[0] * t[1] if cross else t.sum(0) ** 2
    b = np.abs(t).sum(0) ** 2
    return float((W * a).sum().real * h), float((np.abs(W) * b).sum() * h)


ENER = st.sampled_from([0., .5, -.5, 1., -1., 2.5]) | st.floats(-3, 3).map(lambda v: round(v, 4))
AMP = st.sampled_from([1., -1., .5]) | st.floats(-2, 2).map(lambda v: round(v, 3))


@st.composite
def cases(draw, k):
    beta = draw(st.sampled_from([1., 10., 50., 300.]) | st.floats(1, 300))
    mu0 = draw(ENER)
    kind = draw(st.sampled_from(['zero', 'tiny', 'tiny', 'thermal', 'thermal', 'finite', 'finite']))
    if kind == 'zero':
        d = 0.
    elif kind == 'tiny':
        d = draw(st.sampled_from([1., -1.])) * 10. ** draw(st.floats(-17, -2)) / beta
    elif kind == 'thermal':
        d = draw(st.floats(-8, 8)) / beta
    else:
        d = draw(st.floats(-3, 3))
    mu = [mu0, mu0 + d]
    A = [draw(AMP) for _ in range(k)]
    eps = [draw(ENER)]
    for _ in range(k - 1):
        m = draw(st.sampled_from(['free', 'free', 'free', 'equal', 'near']))
        if m == 'free':
            eps.append(draw(ENER))
        elif m == 'equal':
            eps.append(eps[draw(st.integers(0, len(eps) - 1))])
        else:
            eps.append(eps[-1] + 10. ** draw(st.floats(-16, -2) | st.floats(-4, .5)) / beta)
    u = draw(st.sampled_from([1., 1., 1., 1e-3, 1e-5, 1e2]))        # other units of energy
    eps, mu, beta = [e * u for e in eps], [m * u for m in mu], beta / u
    return dict(A=A, eps=eps, mu=mu, beta=beta, kind=kind)


def tol(c, scale):
    x = max(abs(c['mu'][1] - c['mu'][0]) * c['beta'], 1e-4)
    e = sorted(c['eps'])
    d = min([abs(b - a) * c['beta'] for a, b in zip(e, e[1:])] + [1.])
    m = 1 + max(map(abs, c['eps'] + c['mu'])) * c['beta']
    t = 1e-7 + (2e-14 * m + 1e-15 * m * m) / (min(x, 1.) * max(min(d, 1.), 1e-4))
    return t * scale + 1e-300


def one(T, c, calls, ref_cross=False):
    got = T.op('integrals:evaluate', calls)
    x, s = quadrature(c['A'], c['eps'], c['mu'], c['beta'], ref_cross)
    T.nontrivial(s > 1e-12 * sum(map(abs, c['A'])) ** 2 and abs(x) > 0, c['kind'],
                 'pole inside' if any(min(c['mu']) < e < max(c['mu']) for e in c['eps']) else 'pole outside',
                 'degenerate' if len(set(c['eps'])) < len(c['eps']) else 'distinct')
    for (name, args), g in zip(calls, got):
        close(g, x, name + ' integral', rtol=0, atol=tol(c, s), **c)
    return x, s


@P.clause(900, c=cases(1))
def single(T, c):
    a = (c['A'][0], c['eps'][0], c['mu'], c['beta'])
    one(T, c, [('I1', a), ('Gamma1', a)])


@P.clause(500, c=cases(2))
def cross(T, c):
    one(T, c, [('I2', (*c['A'], *c['eps'], c['mu'], c['beta']))], True)


@P.clause(700, c=cases(2))
def pair(T, c):
    one(T, c, [('Gamma2', (*c['A'], *c['eps'], c['mu'], c['beta'])), ('Gamma2', (*c['A'][::-1], *c['eps'][::-1], c['mu'], c['beta']))])


@P.clause(400, c=cases(4), perm=st.permutations(range(4)))
def four(T, c, perm):
    A, e = [c['A'][i] for i in perm], [c['eps'][i] for i in perm]
    one(T, c, [('Gamma4', (*c['A'], *c['eps'], c['mu'], c['beta'])), ('Gamma4', (*A, *e, c['mu'], c['beta']))])


@P.clause(250, c=st.integers(1, 7).flatmap(cases), seed=st.integers(0, 2 ** 32 - 1))
def general(T, c, seed):
    """Any number of terms, in any order."""
    p = np.random.default_rng(seed).permutation(len(c['A']))
    arr = lambda v: np.array(v)
    one(T, c, [('Gamma', (c['A'], c['eps'], c['mu'], c['beta'])), ('Gamma', (arr(c['A'])[p], arr(c['eps'])[p], c['mu'], c['beta']))])


@P.clause(400, c=cases(2))
def balance(T, c):
    """Exchanging the two leads multiplies the integral by exp(beta (mu1 - mu0))."""
    mu, b = c['mu'], c['beta']
    x = (mu[1] - mu[0]) * b
    if abs(x) > 300:
        c = dict(c, mu=[mu[0], mu[0] + np.sign(x) * 300 / b])
        mu = c['mu']
        x = (mu[1] - mu[0]) * b
    A, e = c['A'], c['eps']
    calls = []
    for m in (mu, mu[::-1]):
        calls += [('Gamma1', (A[0], e[0], m, b)), ('I2', (*A, *e, m, b)), ('Gamma2', (*A, *e, m, b))]
    got = T.op('integrals:evaluate', calls)
    T.nontrivial(abs(x) > 1e-6, c['kind'])
    s = quadrature(A, e, mu, b)[1]
    for i in range(3):
        close(got[i + 3], got[i] * np.exp(x), 'detailed balance of ' + calls[i][0], rtol=0, atol=tol(c, s) * np.exp(x), **c)


@P.clause(250, c=cases(2), k=st.integers(0, 2))
def continuity(T, c, k):
    """A relative change of 1e-9 of the bias changes the integral only that little, also across the small-bias switch."""
    b, m0 = c['beta'], c['mu'][0]
    A, e = c['A'], c['eps']
    x = [1e-16, 1e-15, 1e-4][k]
    calls = [(n, a) for m in ([m0, m0 + x / b * .999], [m0, m0 + x / b * 1.001], [m0, m0])
             for n, a in (('I1', (A[0], e[0], m, b)), ('Gamma2', (*A, *e, m, b)))]
    got = T.op('integrals:evaluate', calls)
    s = quadrature(A, e, [m0, m0], b)[1]
    T.nontrivial(s > 0)
    cc = dict(c, mu=[m0, m0 + x / b])
    for i in range(2):
        for j in (2, 4):
            close(got[i], got[i + j], 'jump at small bias', rtol=0, atol=(2 * tol(cc, s) + 2e-4 * (k == 2) * s), x=x, **c)
