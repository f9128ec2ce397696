import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close

P = Prop('C21', rule='A case is one irreducible rate matrix (or one with transient states) of size 2..8, sometimes up to 60; non-trivial when at least two '
                     'populations exceed 1e-3.')


def gth(W):
    """Stationary state by Grassmann-Taksar-Heyman elimination (no subtractions)."""
    Q = np.array(W, float).T.copy()              # Q[i, j]: rate i -> j
    n = len(Q)
    for k in range(n - 1, 0, -1):
        s = Q[k, :k].sum()
        Q[:k, k] /= s
        Q[:k, :k] += np.outer(Q[:k, k], Q[k, :k])
    p = np.ones(n)
    for k in range(1, n):
        p[k] = p[:k] @ Q[:k, k]
    return p / p.sum()


@st.composite
def cases(draw):
    n = draw(st.integers(2, 8) | st.integers(2, 8) | st.integers(2, 8) | st.integers(9, 60))
    decades = draw(st.sampled_from([0., .5, 2., 4.]))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    kind = draw(st.sampled_from(['dense', 'ring', 'chain', 'sparse', 'balance', 'transient', 'one way']))
    R = 10. ** rng.uniform(-decades, decades, (n, n))          # R[f, i]: rate i -> f
    idx = np.arange(n)
    if kind in ('ring', 'chain', 'sparse'):
        M = np.zeros((n, n), bool)
        M[(idx[:-1], idx[1:])] = M[(idx[1:], idx[:-1])] = True
        if kind == 'ring':
            M[0, -1] = M[-1, 0] = True
        if kind == 'sparse':
            M |= rng.random((n, n)) < .3
        R = np.where(M, R, 0)
    elif kind == 'one way':                      # a directed cycle: complex eigenvalues
        M = np.zeros((n, n), bool)
        M[(idx + 1) % n, idx] = True
        R = np.where(M, R, 0)
    elif kind == 'balance':                      # detailed balance with integer rates: equal eigenvalues
        R = np.ones((n, n))
    elif kind == 'transient' and n > 2:          # nothing flows into the last state
        R[-1, :] = 0
    np.fill_diagonal(R, 0)
    perm = rng.permutation(n) if kind != 'transient' else idx
    R = R[np.ix_(perm, perm)]
    W = R - np.diag(R.sum(0))
    return dict(W=W, scale=10. ** draw(st.sampled_from([0, 0, -3, 3, -12, -9, 6, 12, -15])), exact=draw(st.sampled_from([1., 1., .1, 1. / 3])),
                kind=kind, order=draw(st.sampled_from(['C', 'F'])))


@P.clause(1500, c=cases())
def steady(T, c):
    W = np.asarray(c['W']) * c['exact']
    (p, same), (q, _) = T.op('rates:stationary', [W, W * c['scale']], c['order'])
    n = len(W)
    w = np.sort(np.abs(np.linalg.eigvals(W)))
    cond = np.abs(W).max() / w[1]
    if cond > 1e9:
        T.label('ill-conditioned')
        return
    t = min(1e-13 * cond * n * n + 1e-11, 1e-2)
    for x, s, lab in ((p, 1., 'rates'), (q, c['scale'], 'scaled rates')):
        check(x.shape == (n,) and np.isrealobj(x) and np.all(np.isfinite(x)), 'populations are real and finite', got=x, W=W, of=lab)
        close(x.sum(), 1., 'populations add up to one', atol=1e-10, W=W * s)
        check(np.all(x >= -t), 'negative population', got=x, W=W * s)
        check(np.abs(W @ x).max() <= 1e-10 * np.abs(W).max() * max(1, np.abs(x).max()), 'populations are not stationary', got=x, W=W * s)
    ref = gth(np.where(np.eye(n, dtype=bool), 0, W))if c['kind'] != 'transient' or n == 2 else None
    if ref is None:
        ref = np.r_[gth(np.where(np.eye(n - 1, dtype=bool), 0, W[:-1, :-1])), 0.]
    T.nontrivial((ref > 1e-3).sum() > 1, c['kind'], 'scale=%g' % c['scale'])
    close(p, ref, 'populations', rtol=0, atol=t, W=W)
    close(q, ref, 'populations (scaled rates)', rtol=0, atol=t, W=W, scale=c['scale'])
    check(same, 'rate matrix was changed')
