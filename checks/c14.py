import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen

P = Prop('C14', native=['psparse'],
         rule='A case is one symmetric matrix with a start vector and iteration limit; non-trivial when the Krylov space of the '
              'start vector has at least two dimensions.',
         assumptions=['coefficients are compared while the reference recursion is well conditioned; beyond that through '
                      'resolvents and extreme eigenvalues, which are insensitive to rounding in the recursion'])


def matrix(n, kind, rng, r):
    """Symmetric matrix; with r < n the first r coordinates form an exactly invariant block."""
    def one(m):
        A = rng.normal(size=(m, m))
        A = (A + A.T) / 2
        if kind == 'degenerate':
            w = np.round(rng.normal(size=m) * 1.5)
            Q, _ = np.linalg.qr(rng.normal(size=(m, m)))
            A = (Q * w) @ Q.T
            A = (A + A.T) / 2
        elif kind == 'diagonal':
            A = np.diag(rng.normal(size=m))
        elif kind == 'chain':
            A = np.diag(rng.normal(size=m)) + np.diag(np.ones(m - 1), 1) + np.diag(np.ones(m - 1), -1)
        elif kind == 'shift':
            A = A + 30 * np.eye(m)
        elif kind == 'zero':
            A = np.zeros((m, m))
        elif kind == 'large':
            A = 1e4 * A
        return A
    A = np.zeros((n, n))
    A[:r, :r] = one(r)
    if r < n:
        A[r:, r:] = one(n - r) - 3 * np.eye(n - r)      # unreachable levels lie lower
    return A


@st.composite
def problems(draw, nmax=60):
    n = draw(st.one_of(st.integers(1, 8), st.integers(2, nmax)))
    kind = draw(st.sampled_from(['random', 'degenerate', 'diagonal', 'chain', 'shift', 'zero', 'large']))
    r = draw(st.one_of(st.just(n), st.integers(1, n)))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    A = matrix(n, kind, rng, r)
    v = np.zeros(n)
    start = draw(st.sampled_from(['random', 'random', 'unit', 'eigenvector', 'few']))
    if start == 'unit':
        v[0] = 1.
    elif start == 'eigenvector':
        w, u = np.linalg.eigh(A[:r, :r])
        v[:r] = u[:, int(rng.integers(r))]
    elif start == 'few':
        w, u = np.linalg.eigh(A[:r, :r])
        k = rng.integers(0, r, size=3)
        v[:r] = u[:, k].sum(1)
    else:
        v[:r] = rng.normal(size=r)
    v *= draw(st.sampled_from([1., 1., 1e-3, 7.5, 1e3, 1e-8, 1e-12]))
    return dict(n=n, kind=kind, r=r, start=start, A=A.tolist(), v=v.tolist())


def reference(A, v, m):
    """Fully reorthogonalised recursion: a, b, Q and the length of the well-conditioned prefix."""
    s = np.abs(A).sum(1).max() + 1e-300
    Q, a, b = [], [], []
    w, good = v.copy(), 0
    for k in range(m):
        nb = np.linalg.norm(w)
        if k and nb < 1e-4 * s:
            return np.array(a), np.array(b), np.array(Q).T, k, nb < 1e-11 * s
        q = w / nb
        Q.append(q)
        b.append(nb)
        w = A @ q
        a.append(q @ w)
        for _ in range(2):
            for p in Q:
                w = w - p * (p @ w)
    return np.array(a), np.array(b), np.array(Q).T, m, False


@P.clause(700, p=problems(), maxn=st.one_of(st.none(), st.integers(2, 60)), ND=st.sampled_from([None, None, 2, 5, 17]))
def recursion(T, p, maxn, ND):
    A, v = np.array(p['A']), np.array(p['v'])
    r = T.op('lin:recursion', A, v, maxn, ND)
    nv = np.linalg.norm(v)
    a0, b0, Q, good, exact = reference(A, v, min(p['n'], 12))
    T.nontrivial(good > 1, p['kind'], p['start'], 'block' if p['r'] < p['n'] else 'whole', 'limited' if maxn else 'unlimited')
    check(r != 'zero', 'a non-zero start vector was called zero')
    check(r['kept'], 'the operator was modified')
    a, b = np.asarray(r['a']), np.asarray(r['b'])
    m = len(a)
    lim = maxn or 500
    s = np.abs(A).sum(1).max() + 1e-12
    check(1 <= m == len(b), 'coefficient arrays', got=(len(a), len(b)))
    check(m <= lim, 'more coefficients than the iteration limit', got=m, limit=lim)
    close(b[0], nv, 'first off-diagonal entry is not the norm of the start vector', rtol=1e-10, atol=1e-30)
    k = min(m, good, 8)
    check(m >= min(good, lim - 1), 'the recursion stopped before the Krylov space was explored', got=m, explored=good, limit=lim)
    close(a[:k], a0[:k], 'diagonal coefficients', atol=1e-6 * s)
    close(b[1:k], b0[1:k], 'off-diagonal coefficients', atol=1e-6 * s)
    # resolvent of the start vector, outside the spectrum
    z = np.array([2j, -1.5 + 2j, 3.5j]) * s
    Tm = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
    got = np.array([np.linalg.inv(x * np.eye(m) - Tm)[0, 0] for x in z])
    u = v / nv
    want = np.array([u @ np.linalg.solve(x * np.eye(p['n']) - A, u) for x in z])
    tol = 4 * (2 + 5 ** .5) ** (-2. * m) + 1e-9
    close(got * s, want * s, 'resolvent of the start vector (leading moments)', rtol=0, atol=max(tol, 1e-9) if not (exact and m >= good) else 1e-8, m=m)
    # extreme eigenvalue reachable from the start
    R = A[:p['r'], :p['r']]
    w, U = np.linalg.eigh(R)
    amp = np.abs(U.T @ v[:p['r']]) / nv
    lv = np.min(w)
    same = np.abs(w - lv) < 1e-9 * s
    weight = np.sqrt((amp[same] ** 2).sum())
    e = np.linalg.eigvalsh(Tm)
    check(e[0] >= np.min(w) - 1e-8 * s, 'an eigenvalue below the reachable spectrum', got=e[0], lowest=np.min(w))
    check(e[-1] <= np.max(w) + 1e-8 * s, 'an eigenvalue above the reachable spectrum', got=e[-1], highest=np.max(w))
    gap = (w[~same].min() - lv) / s if (~same).any() else 1.
    if lim >= 3 * p['n'] + 20 and weight > .01 and gap > .01 and (ND is None or ND >= 5):
        T.label('converged')
        close(e[0], lv, 'lowest reachable eigenvalue was not found', atol=1e-6 * s, m=m)


@P.clause(100, p=problems(12), scale=st.sampled_from([0., 0., 1e-17]))
def zero_start(T, p, scale):
    A = np.array(p['A'])
    v = np.zeros(p['n'])
    v[0] = scale
    T.nontrivial(True, 'exact' if scale == 0 else 'tiny')
    check(T.op('lin:recursion', A, v) == 'zero', 'a zero start vector was not reported', scale=scale)


@P.clause(300, p=problems(20), prev=st.booleans(), seed=st.integers(0, 2 ** 32 - 1))
def single_step(T, p, prev, seed):
    A, v = np.array(p['A']), np.array(p['v'])
    l = np.random.default_rng(seed).normal(size=p['n']) if prev else np.zeros(p['n'])
    a, b, v1, w = T.op('lin:step', A, v, l)
    nb = np.linalg.norm(v)
    u = v / nb
    s = np.abs(A).sum(1).max() + 1
    T.nontrivial(p['n'] > 1, 'previous' if prev else 'first')
    close(b, nb, 'norm', rtol=1e-12)
    close(v1, u, 'normalised vector', atol=1e-12)
    close(a, u @ A @ u, 'diagonal coefficient', atol=1e-11 * s)
    close(w, A @ u - (u @ A @ u) * u - nb * l, 'next vector', atol=1e-10 * (s + nb))


@P.clause(300, p=problems(30), select=st.sampled_from([0, 2]), lo=st.integers(0, 5), width=st.integers(0, 5), vecs=st.booleans())
def second_pass(T, p, select, lo, width, vecs):
    A, v = np.array(p['A']), np.array(p['v'])
    # Stay in the regime where the recursion keeps its vectors orthogonal.
    _, _, Q, good, exact = reference(A, v, min(p['n'], 8))
    m = min(good, 8)
    if m < 1:
        return
    r = T.op('lin:recursion', A, v, m + 1)
    if r == 'zero':
        return check(False, 'non-zero start vector called zero')
    k = len(r['a'])
    lo = min(lo, k - 1)
    hi = min(lo + width, k - 1)
    r = T.op('lin:recursion', A, v, m + 1, None, (select, (lo, hi), vecs))
    s = np.abs(A).sum(1).max() + 1e-12
    a, b = np.asarray(r['a']), np.asarray(r['b'])
    Tm = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
    want = np.linalg.eigvalsh(Tm)
    sel = slice(None) if select == 0 else slice(lo, hi + 1)
    T.nontrivial(k > 1, 'range' if select else 'full', 'vectors' if vecs else 'values')
    check(r['ab_kept'], 'the coefficients were modified')
    close(r['w'], want[sel], 'Ritz values', atol=1e-8 * s)
    if vecs and k <= m:
        X = np.asarray(r['X'])
        check(X.shape == (p['n'], len(want[sel])), 'shape of the Ritz vectors', got=X.shape)
        close(X.T @ X, np.eye(X.shape[1]), 'Ritz vectors are not orthonormal', atol=1e-5)
        close(X.T @ A @ X, np.diag(want[sel]), 'Ritz vectors do not diagonalise the operator', atol=1e-5 * s)
        Pk = Q[:, :k] @ Q[:, :k].T
        close(Pk @ X, X, 'Ritz vectors leave the Krylov space', atol=1e-5)


@P.clause(200, p=problems(12), seed=st.integers(0, 2 ** 32 - 1), threads=st.sampled_from([2, 3, 4, 1, 5]),
          burst=st.sampled_from([0., 1., 4., 30.]))
def thread_schedules(T, p, seed, threads, burst):
    """The second pass collects the same vectors whatever the order in which its threads run."""
    A, v = np.array(p['A']), np.array(p['v'])
    kw = dict(maxn=min(p['n'], 8) + 1, second=(0, (0, 0), True))
    a = T.op('lin:recursion', A, v, **kw)
    b = T.op('lin:recursion_scheduled', A, v, seed, threads, burst, **kw)
    if a == 'zero':
        return check(False, 'non-zero start vector called zero')
    T.nontrivial(b['switches'] > 2 * b['loops'] and len(a['a']) > 1, 'threads=%d' % threads)
    close(b['X'], a['X'], 'the Ritz vectors depend on the thread schedule', atol=1e-10 * (1 + np.abs(a['X']).max()), rtol=1e-10)


@st.composite
def long_problems(draw):
    return dict(n=draw(st.sampled_from([40, 120, 300, 700, 1500])), shape=draw(st.sampled_from(['even', 'band', 'gap', 'log', 'random'])),
                width=draw(st.sampled_from([1., 1., 10., 1e-2, 100.])), shift=draw(st.sampled_from([0., 0., 5., -60., 700., -2500., 2e4])),
                seed=draw(st.integers(0, 2 ** 32 - 1)))


def long_operator(p):
    rng = np.random.default_rng(p['seed'])
    x = {'even': lambda n: np.linspace(0, 1, n), 'band': lambda n: .5 - .5 * np.cos(np.pi * (np.arange(n) + .5) / n),
         'gap': lambda n: np.r_[0., np.linspace(.1, 1, n - 1)], 'log': lambda n: np.geomspace(1e-3, 1, n),
         'random': lambda n: np.sort(rng.random(n))}[p['shape']](p['n'])
    return p['shift'] + p['width'] * x, rng.normal(size=p['n'])


@P.clause(100, p=long_problems(), ND=st.sampled_from([None, None, None, 5, 20]), maxn=st.sampled_from([None, None, 60, 150]), second=st.booleans())
def long_recursion(T, p, ND, maxn, second):
    """The recursion ends when the lowest level has settled, wherever the zero of energy is."""
    w, v = long_operator(p)
    second = second and p['n'] <= 300
    kw = {k: x for k, x in (('ND', ND), ('maxn', maxn)) if x is not None}
    r = T.op('lin:long_recursion', w, v, kw, second)
    check(r != 'zero', 'a non-zero start vector was called zero')
    a, b = r['a'], r['b']
    m, lim, nd = len(a), maxn or 500, ND or 10
    T.nontrivial(m > nd, p['shape'], 'shift=%g' % p['shift'], 'limit' if m >= lim - 1 else 'settled')
    Tm = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
    e = np.linalg.eigvalsh(Tm)
    s = np.abs(w).max()
    check(e[0] >= w[0] - 1e-10 * s and e[-1] <= w[-1] + 1e-10 * s, 'levels outside the spectrum', got=(e[0], e[-1]), spectrum=(w[0], w[-1]))
    check(m <= lim and r['calls'] >= m, 'iteration limit', got=m, calls=r['calls'])
    if m < min(lim - 1, p['n'] - 1):
        k = max(1, m - nd)
        before = np.linalg.eigvalsh(Tm[:k, :k])[0]
        check(before - e[0] <= 1e-9 + 1e-12 * s, 'stopped while the lowest level was still moving', moved=before - e[0], m=m, window=nd)
    if second:
        X = r['X']
        close(r['e'], [e[0]], 'lowest Ritz value', atol=1e-9 * s)
        check(X.shape == (p['n'], 1), 'shape of the Ritz vector', got=X.shape)
        # of use while the recursion kept its vectors orthogonal
        if m <= 30:
            close(np.linalg.norm(X), 1., 'norm of the Ritz vector', rtol=1e-3)
            close(X[:, 0] @ ((w - e[0]) * X[:, 0]), 0., 'energy of the Ritz vector', atol=1e-3 * p['width'] + 1e-10 * s)
