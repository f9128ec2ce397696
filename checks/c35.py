import numpy as np
from math import comb
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen
from checks.c13 import direct
from checks.c34 import good, real

P = Prop('C35', native=['psparse'],
         rule='A case is an operator, a vector or a set of eigenvectors divided over simulated processes; non-trivial with at least two processes.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in',
                      'MPI processes are simulated by threads with a communicator that matches collectives by order of calls and refuses overlapping buffers, '
                      'mismatched counts and processes that leave early; a sample of cases also runs on real MPI processes when mpirun can start them'])

SEED = st.integers(0, 2 ** 32 - 1)


def divisors(n, top=6):
    return [k for k in range(1, top + 1) if n % k == 0]


@st.composite
def operators(draw, sizes=(1, 2, 3, 4, 5, 6, 6, 8, 10)):
    """Diagonal + up + down parts with equal dimensions and the number of processes."""
    n = draw(st.sampled_from(sizes))
    p = draw(st.sampled_from(divisors(n) + [k for k in divisors(n) if k > 1] * 2))
    rng = np.random.default_rng(draw(SEED))
    kind = draw(st.sampled_from(['dense', 'sparse', 'symmetric', 'none', 'symmetric']))

    def mat():
        if kind == 'none':
            return np.zeros((n, n))
        a = rng.normal(size=(n, n))
        if kind == 'sparse':
            a *= rng.random((n, n)) < .4
        if kind == 'symmetric':
            a = a + a.T
        return a
    up, dw = mat(), mat()
    if draw(st.booleans()):
        np.fill_diagonal(up, 0)
        np.fill_diagonal(dw, 0)
    diag = rng.normal(size=n * n) * draw(st.sampled_from([0., 1., 1., 3.]))
    return dict(n=n, kind=kind, diag=diag.tolist(), up=up.tolist(), dw=dw.tolist(), team=[p, draw(SEED), draw(st.sampled_from([0., 0., 0., 1e-3]))])


def full(c):
    I = np.eye(c['n'])
    return np.diag(c['diag']) + np.kron(I, np.array(c['up'])) + np.kron(np.array(c['dw']), I)


def label(T, c):
    p = c['team'][0]
    T.nontrivial(p > 1, '%d processes' % p, c['kind'], 'one row each' if p == c['n'] else 'several rows each')


def join(parts):
    return np.concatenate([np.asarray(x) for x in parts])


@P.clause(350, c=operators(), nv=st.integers(1, 3), seed=SEED)
def product(T, c, nv, seed):
    rng = np.random.default_rng(seed)
    label(T, c)
    vs = [rng.normal(size=c['n'] ** 2) for _ in range(nv)]
    decide_product(c, vs, *T.op('dist:product', c['team'], c['diag'], c['up'], c['dw'], vs))


def decide_product(c, vs, out, err):
    res = good(out, err)
    A = full(c)
    s = 1 + np.abs(A).sum(1).max()
    for i, v in enumerate(vs):
        close(join([r[0][i] for r in res]), A @ v, 'distributed product', atol=1e-12 * s * np.abs(v).max(), rtol=0)
    close(join([r[1] for r in res]), A @ (A @ vs[0]), 'product applied twice', atol=1e-11 * s * s * np.abs(vs[0]).max(), rtol=0)
    check(all(r[2] for r in res), 'the vector passed in was changed')
    check(all(r[3] for r in res), 'the product does not repeat')


@st.composite
def sectors(draw, nmax=5):
    n = draw(gen.nlev(2, nmax))
    a = draw(gen.filling(n))
    b = draw(st.sampled_from([a, a, n - a]))
    d = comb(n, a)
    m = dict(n=n, H=draw(gen.hops(n)), U=draw(gen.interaction(n)), qns=[a, b])
    p = draw(st.sampled_from(divisors(d) + [k for k in divisors(d) if k > 1] * 2))
    return m, [p, draw(SEED), draw(st.sampled_from([0., 0., 1e-3]))]


@P.clause(250, mt=sectors(), nv=st.integers(1, 2), seed=SEED)
def sector_product(T, mt, nv, seed):
    m, team = mt
    rng = np.random.default_rng(seed)
    d = comb(m['n'], m['qns'][0]) ** 2
    T.nontrivial(team[0] > 1, '%d processes' % team[0], 'n=%d' % m['n'])
    out, want, vs, A, err = T.op('dist:model', team, m, [rng.normal(size=d) for _ in range(nv)])
    res = good(out, err)
    s = 1 + np.abs(A).sum(1).max()
    for i, v in enumerate(vs):
        y = join([r[i] for r in res])
        close(y, np.asarray(want[i]), 'distributed and serial product', atol=1e-12 * s * 10, rtol=0)
        close(y, np.asarray(A) @ v, 'distributed product and dense matrix', atol=1e-12 * s * 10, rtol=0)


@P.clause(120, n=st.integers(1, 10), m=st.integers(1, 10), p=st.integers(2, 7))
def admissible(T, n, m, p):
    """Only equal dimensions that the number of processes divides."""
    fine = n == m and n % p == 0
    T.nontrivial(not fine, 'unequal' if n != m else 'not divided' if n % p else 'fine')
    out = T.op('dist:refused', [p, 0, 0.], np.zeros(max(n * m // p, 1)), np.zeros((n, n)), np.zeros((m, m)))
    for o in out:
        if fine:
            check(o[0] == 'ok', 'an admissible division is refused', got=o)
        else:
            check(o[0] == 'exc' and o[1] != 'TeamError', 'a dimension that cannot be divided is not refused', got=o, up=n, down=m, size=p)


@P.clause(250, c=operators(), seed=SEED, zero=st.booleans())
def step(T, c, seed, zero):
    rng = np.random.default_rng(seed)
    label(T, c)
    d = c['n'] ** 2
    v, l = rng.normal(size=d), rng.normal(size=d) * (not zero)
    decide_step(c, v, l, *T.op('dist:step', c['team'], c['diag'], c['up'], c['dw'], v, l))


def decide_step(c, v, l, out, err):
    res = good(out, err)
    A = full(c)
    b = np.linalg.norm(v)
    x = v / b
    w = A @ x
    a = x @ w
    s = 1 + np.abs(A).sum(1).max() + b
    for r in res:
        close(r[0], a, 'diagonal coefficient', atol=1e-12 * s, rtol=1e-12)
        close(r[1], b, 'norm', atol=1e-12 * s, rtol=1e-12)
    check(len({(r[0], r[1]) for r in res}) == 1, 'processes disagree on the coefficients', got=[(r[0], r[1]) for r in res])
    close(join([r[2] for r in res]), x, 'normalised vector', atol=1e-12)
    close(join([r[3] for r in res]), w - a * x - b * l, 'next vector', atol=1e-11 * s * (1 + np.abs(l).max()))


@P.clause(150, c=operators(sizes=(2, 3, 4, 4, 5, 6)), maxn=st.none() | st.integers(2, 30), ND=st.none() | st.integers(1, 12), all_=st.booleans(), kind=st.sampled_from(['random', 'basis', 'one process']), seed=SEED, timeout=200)
def recursion(T, c, maxn, ND, all_, kind, seed):
    rng = np.random.default_rng(seed)
    label(T, c)
    n = c['n']
    d = n * n
    v = rng.normal(size=d)
    if kind == 'basis':
        v[:] = 0
        v[rng.integers(d)] = 1.5
    elif kind == 'one process':               # all the weight on one process
        k = d // c['team'][0]
        q = rng.integers(c['team'][0])
        v[:q * k] = 0
        v[(q + 1) * k:] = 0
    for k in ('up', 'dw'):
        A = np.array(c[k])
        c[k] = (A + A.T).tolist()
    kw = {k: x for k, x in (('maxn', maxn), ('ND', ND)) if x is not None}
    A = full(c)
    sa, sb, sw, sX = [np.asarray(x) for x in T.op('dist:serial_lanczos', A, v, kw, dict(select=0))]
    second = dict(select=0) if all_ or len(sa) < 1 else dict(select=2, select_range=(0, 0))
    out, calls, err = T.op('dist:lanczos', c['team'], c['diag'], c['up'], c['dw'], v, kw, second)
    res = good(out, err)
    check(len(set(calls)) == 1, 'processes took part in different numbers of exchanges', calls=calls)
    a, b = np.asarray(res[0]['a']), np.asarray(res[0]['b'])
    for r in res[1:]:
        check(np.array_equal(r['a'], a) and np.array_equal(r['b'], b) and np.array_equal(r['w'], res[0]['w']), 'processes disagree on the coefficients')
        check(np.array_equal(r['only'], res[0]['only']), 'processes disagree on the eigenvalues')
    s = 1 + np.abs(A).sum(1).max()
    # the leading coefficients agree with exact arithmetic; later ones depend on rounding
    k = 0
    while k < min(len(a), len(sa)) and (k == 0 or min(b[k], sb[k]) > 1e-3 * s):
        k += 1
    k = min(k, 6)
    close(a[:k], sa[:k], 'serial and distributed diagonal', atol=1e-7 * s, rtol=0)
    close(b[:k], sb[:k], 'serial and distributed off-diagonal', atol=1e-7 * s, rtol=0)
    # the projection is the operator in the basis the second pass rebuilds
    M = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
    w = np.linalg.eigvalsh(M)
    sel = slice(None) if second['select'] == 0 else slice(0, 1)
    close(np.sort(np.asarray(res[0]['w'])), w[sel], 'eigenvalues of the projection', atol=1e-9 * s, rtol=0)
    close(np.sort(np.asarray(res[0]['only'])), w[sel], 'eigenvalues without vectors', atol=1e-9 * s, rtol=0)
    X = np.concatenate([np.asarray(r['X']) for r in res])
    check(X.shape == (d, len(w[sel])), 'shape of the vectors', got=X.shape)
    e = np.linalg.eigvalsh(A)
    # converged recursion without loss of orthogonality: eigenvectors of A
    if len(a) <= 12 and (len(b) < 2 or b[1:].min() > 1e-2 * s):
        V = X[:, :1]
        x0 = v / np.linalg.norm(v)
        K = [x0]
        for i in range(len(a) - 1):
            y = A @ K[-1]
            for q in K:
                y = y - (q @ y) * q
            for q in K:
                y = y - (q @ y) * q
            nrm = np.linalg.norm(y)
            if nrm < 1e-3 * s:
                return
            K.append(y / nrm)
        K = np.array(K).T
        T.label('Ritz vectors')
        close(K.T @ A @ K, M, 'projection on the Krylov space', atol=1e-5 * s, rtol=0)
        Mw, U = np.linalg.eigh(M)
        want = (K @ U)[:, sel]
        gap = np.min(np.diff(Mw)) if len(Mw) > 1 else 1.
        if gap > 1e-3 * s:
            ov = np.abs((want * X).sum(0))
            close(ov, np.ones_like(ov), 'Ritz vectors', atol=1e-4)
            close((X * X).sum(0), np.ones_like(ov), 'norm of the Ritz vectors', atol=1e-4)
    check(w[0] >= e[0] - 1e-8 * s and w[-1] <= e[-1] + 1e-8 * s, 'Ritz values outside the spectrum')


@P.clause(300, n=gen.nlev(2, 5), ab=st.tuples(st.floats(0, 1), st.floats(0, 1)), pick=st.integers(0, 20), nev=st.integers(1, 4), order=st.sampled_from(['C', 'F']), weights=st.booleans(), seed=SEED, jitter=st.sampled_from([0., 0., 1e-3]))
def counts(T, n, ab, pick, nev, order, weights, seed, jitter):
    """Only the down dimension is divided: unequal sectors are fine here."""
    rng = np.random.default_rng(seed)
    a, b = int(round(ab[0] * n)), int(round(ab[1] * n))
    d = comb(n, a) * comb(n, b)
    ps = divisors(comb(n, b), 10)
    ps = ps[1:] * 5 + ps[:1]
    p = ps[pick % len(ps)]
    v = rng.normal(size=(d, nev))
    co = rng.random(nev) * 2 if weights else None
    T.nontrivial(p > 1, '%d processes' % p, order, 'weighted' if weights else 'unweighted')
    decide_counts(n, a, b, v, co, *T.op('dist:counts', [p, seed, jitter], n, a, b, v.T, order, co))


def decide_counts(n, a, b, v, co, out, serial, err):
    weights = co is not None
    res = good(out, err)
    u, w = direct(n, a, b, v)
    if weights:
        u, w = u * co, w * co
    tol = dict(atol=1e-10 * (1 + np.abs(u).max()))
    for r in res:
        close(r[0], u, 'up counts on every process', **tol)
        close(r[1], w, 'down counts on every process', **tol)
        close(r[0], np.asarray(serial[0]), 'up counts, serial and distributed', **tol)
        close(r[1], np.asarray(serial[1]), 'down counts, serial and distributed', **tol)
        check(r[2], 'the eigenvectors passed in were changed')


@P.clause(8, thorough=60, p=st.integers(2, 4), seed=SEED, timeout=240)
def real_processes(T, p, seed):
    rng = np.random.default_rng(seed)
    jobs = []
    for i in range(30):
        n = p * int(rng.integers(1, 4))
        up, dw = rng.normal(size=(n, n)), rng.normal(size=(n, n)) * (rng.random((n, n)) < .5)
        c = dict(n=n, diag=rng.normal(size=n * n), up=up, dw=dw, team=[p, 0, 0.])
        vs = [rng.normal(size=n * n) for _ in range(2)]
        if i % 3 == 0:
            jobs.append(('product', (c['team'], c['diag'], up, dw, vs), lambda x, c=c, vs=vs: decide_product(c, vs, *x)))
        elif i % 3 == 1:
            jobs.append(('step', (c['team'], c['diag'], up, dw, *vs), lambda x, c=c, vs=vs: decide_step(c, *vs, *x)))
        else:
            m, a, b = {2: (4, 1, 2), 3: (3, 1, 2), 4: (4, 2, 1)}[p]
            v, co, o = rng.normal(size=(comb(m, a) * comb(m, b), 3)), rng.random(3), str(rng.choice(['C', 'F']))
            jobs.append(('counts', (c['team'], m, a, b, v.T, o, co), lambda x, m=m, a=a, b=b, v=v, co=co: decide_counts(m, a, b, v, co, *x)))
    real(T, p, jobs)
