"""Strategies.  Every case is JSON-able; arrays travel as nested lists."""
import numpy as np
from hypothesis import strategies as st


def grid(lo, hi, q=8):
    return st.integers(int(np.ceil(lo * q)), int(np.floor(hi * q))).map(lambda k: k / q)


def num(lo, hi, digits=4):
    """A value on a coarse binary grid (exact zeros, ties, degeneracies) or a generic decimal one."""
    fine = st.integers(int(np.ceil(lo * 10 ** digits)), int(np.floor(hi * 10 ** digits))).map(
        lambda k: round(k / 10 ** digits, digits))
    return st.one_of(grid(lo, hi, 4), fine)


def vec(n, lo=-2., hi=2.):
    return st.lists(num(lo, hi), min_size=n, max_size=n)


@st.composite
def symmat(draw, n, lo=-2., hi=2., diag=True):
    """Symmetric n x n matrix as nested lists; off-diagonals may be dense, sparse, a chain or a star."""
    m = np.zeros((n, n))
    if diag:
        m[np.diag_indices(n)] = draw(vec(n, lo, hi))
    shape = draw(st.sampled_from(['dense', 'sparse', 'chain', 'star', 'none', 'dense', 'sparse']))
    for i in range(n):
        for j in range(i + 1, n):
            if shape == 'none' or (shape == 'chain' and j != i + 1) or (shape == 'star' and i != 0):
                continue
            if shape == 'sparse' and not draw(st.booleans()):
                continue
            m[i, j] = m[j, i] = draw(num(lo, hi))
    return m.tolist()


@st.composite
def hops(draw, n, spin=None, lo=-2., hi=2., near=False):
    """One-body Hamiltonian, (n,n) or spin dependent (2,n,n); with near the spins may differ by very little."""
    if spin is None:
        spin = draw(st.booleans())
    if spin:
        if near and draw(st.integers(0, 3)) == 0:
            a, b = np.array(draw(symmat(n, lo, hi))), np.array(draw(symmat(n, lo, hi)))
            return [a.tolist(), (a + draw(st.sampled_from([1e-6, 1e-4, 1e-5, 1e-7])) * b * (a != 0)).tolist()]
        return [draw(symmat(n, lo, hi)), draw(symmat(n, lo, hi))]
    return draw(symmat(n, lo, hi))


@st.composite
def interaction(draw, n, lo=-1., hi=4., offdiag=True):
    v = np.zeros((n, n))
    kind = draw(st.sampled_from(['hubbard', 'imp', 'full', 'full', 'inter', 'none'] if offdiag else ['hubbard', 'imp', 'none']))
    if kind == 'imp':
        v[0, 0] = draw(num(lo, hi))
    elif kind == 'hubbard':
        v[np.diag_indices(n)] = draw(vec(n, lo, hi))
    elif kind == 'full':
        v = np.array(draw(symmat(n, lo, hi)))
    elif kind == 'inter':
        v = np.array(draw(symmat(n, lo, hi, diag=False)))
    return v.tolist()


A = np.array


@st.composite
def mirror(draw, m, keys=('H', 'U', 'Jx', 'Jp')):
    """Now and then the model made symmetric under reversing the order of its levels."""
    if m['n'] > 1 and draw(st.integers(0, 4)) == 0:
        for k in keys:
            if m.get(k) is not None:
                a = np.array(m[k], float)
                m[k] = ((a + a[..., ::-1, ::-1]) / 2).tolist()
    return m


def nlev(lo, hi):
    """Number of levels, larger ones more often."""
    return st.sampled_from([k for k in range(lo, hi + 1) for _ in range(1 + 3 * (k - lo) // max(1, hi - lo))])


def filling(n):
    """Occupation of n levels, the middle more often."""
    return st.one_of(st.integers(0, n), st.sampled_from([n // 2, (n + 1) // 2, max(n // 2 - 1, 0)]))


@st.composite
def wide(draw, nmax=24, dmax=260, sym='sz', modes=32):
    """Many levels and few particles or holes: (n, occupations, seed)."""
    from math import comb
    n = draw(st.integers(5, nmax) | st.sampled_from([8, 9, 15, 16, 17]).filter(lambda k: k <= nmax))
    top = min(n, 4)
    f = st.integers(0, top) | st.integers(max(n - top, 0), n) | st.integers(0, n)
    if sym == 'sz':
        q = [draw(f), draw(f)]
        k = 0
        while comb(n, q[0]) * comb(n, q[1]) > dmax:       # step the larger side towards empty or full
            s = 0 if comb(n, q[0]) >= comb(n, q[1]) else 1
            q[s] += 1 if q[s] * 2 > n else -1
    else:
        q = [draw(st.integers(0, 3) | st.integers(2 * n - 3, 2 * n))]
        while comb(2 * n, q[0]) > dmax:
            q[0] += 1 if q[0] > n else -1
    return dict(n=n, qns=q, seed=draw(st.integers(0, 2 ** 32 - 1)), spin=draw(st.booleans()))


def wide_matrix(rng, n, lo=-2., hi=2., bonds=2.):
    """Sparse symmetric matrix with round entries, long-range bonds included."""
    m = np.zeros((n, n))
    m[range(n), range(n)] = np.round(rng.uniform(lo, hi, n), 3)
    for _ in range(int(rng.integers(1, int(bonds * n) + 1))):
        i, j = rng.integers(n, size=2)
        if i != j:
            m[i, j] = m[j, i] = np.round(rng.uniform(lo, hi), 3)
    return m


def wide_model(c, exch=False):
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    m = dict(n=n, qns=c['qns'], H=[wide_matrix(rng, n), wide_matrix(rng, n)] if c['spin'] else wide_matrix(rng, n), U=wide_matrix(rng, n, -1, 4),
             hf=bool(rng.integers(2)), mu=float(np.round(rng.uniform(-1, 1), 3)), z=np.round(rng.uniform(0, 2, n), 3).tolist() if rng.integers(2) else None,
             Jx=None, Jp=None)
    if exch:
        k = rng.integers(3)
        if k != 0:
            m['Jx'] = wide_matrix(rng, n, -1.5, 1.5)
        if k != 1:
            m['Jp'] = wide_matrix(rng, n, -1.5, 1.5)
    return m
