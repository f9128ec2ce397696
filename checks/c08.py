import numpy as np
from hypothesis import strategies as st, assume
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, full, index

P = Prop('C08', native=['psparse'],
         rule='A case is one symmetric operator (or large many-body sector) with a requested count and optional starting '
              'vector; non-trivial when the spectrum has at least three distinct values.',
         assumptions=['multiplicities of exactly degenerate levels are not required of the Krylov method (a single starting vector '
                      'sees one copy in exact arithmetic)'])


@st.composite
def spectra(draw, n):
    kind = draw(st.sampled_from(['random', 'cluster', 'degenerate', 'gap', 'shifted up', 'shifted down', 'linear', 'huge', 'tiny']))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    w = np.sort(rng.normal(size=n))
    if kind == 'cluster':
        w = np.concatenate([rng.normal(size=n - n // 3), -2 + 1e-2 * rng.normal(size=n // 3)])
    elif kind == 'degenerate':
        w = np.round(w * 1.5)
    elif kind == 'gap':
        w[0] -= 5
    elif kind == 'shifted up':
        w += 50
    elif kind == 'shifted down':
        w -= 50
    elif kind == 'linear':
        w = np.linspace(-1, 1, n)
    elif kind == 'huge':
        w *= 1e6
    elif kind == 'tiny':
        w *= 1e-6
    return kind, np.sort(w).tolist(), draw(st.integers(0, 2 ** 32 - 1))


def decide(h, want, e, v, k, scale, hard=False):
    if hard and 0 < e.size < k:          # iteration limit reached: only converged pairs are returned
        k = e.size
    check(e.shape == (k,) and v.shape == (len(h), k), 'wrong number of states', got=(e.shape, v.shape), expected=k)
    check(np.all(np.diff(e) >= -1e-12 * scale), 'eigenvalues not ascending', got=e)
    close(v.T @ v, np.eye(k), 'eigenvectors not orthonormal', atol=1e-7 if hard else 1e-10)
    close(h @ v, v * e, 'large residual', atol=(1e-6 if hard else 1e-10) * scale)
    # Lowest distinct levels; copies of one level may be missed, other levels may not.
    tol = 1e-7 * scale
    close(e[0], want[0], 'the lowest eigenvalue was missed', atol=tol)
    lv = [want[0]]
    mult = [1]
    for x in want[1:]:
        if x - lv[-1] > 1e-5 * scale:
            lv.append(x)
            mult.append(1)
        else:
            mult[-1] += 1
    if max(mult[:k + 1]) == 1 and not hard:
        close(e, want[:k], 'not the algebraically lowest eigenvalues', atol=tol)
    else:
        i = 0
        for x in e:                      # never skips a whole level
            j = int(np.argmin(np.abs(np.array(lv) - x)))
            check(j <= i, 'a level was skipped', got=e, expected=want[:k])
            i = max(i, j + 1)


@P.clause(500, thorough=8000, case=st.integers(5, 120).flatmap(lambda n: st.tuples(st.just(n), spectra(n))), k=st.integers(1, 10), v0=st.sampled_from(['none', 'none', 'random', 'ones', 'near']),
          seed=st.integers(0, 2 ** 32 - 1))
def iterative(T, case, k, v0, seed):
    n, (kind, w, s2) = case
    k = min(k, n - 1)
    rng = np.random.default_rng(s2)
    w = np.array(w)
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    A = (Q * w) @ Q.T
    A = .5 * (A + A.T)
    rng = np.random.default_rng(seed)
    x0 = dict(none=None, random=rng.normal(size=n), ones=np.ones(n), near=Q[:, 0] + .1 * rng.normal(size=n))[v0]
    e, v, kept = T.op('space:arpack', A, k, x0)
    T.nontrivial(len(np.unique(np.round(w, 9))) > 2, kind, 'v0 ' + v0, 'k=1' if k == 1 else 'k>1')
    check(kept, 'the starting vector was modified')
    decide(A, np.linalg.eigvalsh(A), np.asarray(e), np.asarray(v), k, np.abs(w).max() + 1e-12, hard=kind == 'cluster')


@P.clause(40, thorough=1000, n=st.integers(60, 300), k=st.integers(1, 8), kind=st.sampled_from(['chain', 'even', 'band']), scale=st.sampled_from([1., 1., 100., 1e-3]), seed=st.integers(0, 2 ** 32 - 1), timeout=200)
def slow(T, n, k, kind, scale, seed):
    """Closely spaced levels need many restarts and are still all found."""
    rng = np.random.default_rng(seed)
    w = dict(chain=2 - 2 * np.cos(np.pi * np.arange(1, n + 1) / (n + 1)), even=np.linspace(-1, 1, n),
             band=np.concatenate([np.linspace(-1.1, -1., n // 3), np.sort(rng.normal(size=n - n // 3))]))[kind]
    w = np.sort(w) * scale
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    A = (Q * w) @ Q.T
    A = .5 * (A + A.T)
    e, v, _ = T.op('space:arpack', A, k, None)
    s = np.abs(w).max()
    T.nontrivial(True, kind)
    gaps = np.diff(np.sort(w)[:k + 1]).min() / s
    decide(A, np.sort(w), np.asarray(e), np.asarray(v), k, s, hard=gaps < 1e-6)
    if gaps > 1e-6:
        close(e, w[:k], 'not the algebraically lowest eigenvalues', atol=1e-9 * s)


BIG = [(7, (3, 2)), (7, (2, 3)), (7, (3, 3)), (6, (5,)), (7, (4, 3))]


@P.clause(24, thorough=400, which=st.integers(0, len(BIG) - 1), seed=st.integers(0, 2 ** 32 - 1), k=st.integers(1, 6), hf=st.booleans())
def large_sector(T, which, seed, k, hf):
    """Sectors above the dense limit."""
    n, key = BIG[which]
    rng = np.random.default_rng(seed)
    H = rng.normal(size=(n, n))
    H = (H + H.T) / 2
    U = np.diag(rng.uniform(0, 3, n))
    m = dict(n=n, H=H, U=U, hf=hf, Jx=None, Jp=None)
    if len(key) == 1:
        J = rng.normal(size=(n, n)) * .5
        m['Jx'] = (J + J.T) / 2
    e, v = T.op('space:one', m, list(key), k)
    e, v = np.asarray(e), np.asarray(v)
    h = sector_block(n, m, key)
    T.nontrivial(True, 'N' if len(key) == 1 else 'sz')
    decide(h, np.linalg.eigvalsh(h), e, v, k, np.abs(h).sum(1).max())


def sector_block(n, m, key):
    """Reference block built directly in the sector (the full Fock space is too large here)."""
    H = ref.spin(m['H'])
    U = np.asarray(m['U'])
    if len(key) == 2:
        su, sd = ref.states(n, key[0]), ref.states(n, key[1])

        def hop(ss, h):
            pos = {s: i for i, s in enumerate(ss)}
            out = np.zeros((len(ss),) * 2)
            for s in ss:
                for j in range(n):
                    if not s >> j & 1:
                        continue
                    t = s ^ (1 << j)
                    pj = bin(s & ((1 << j) - 1)).count('1')
                    for i in range(n):
                        if t >> i & 1:
                            continue
                        pi = bin(t & ((1 << i) - 1)).count('1')
                        out[pos[t | 1 << i], pos[s]] += h[i, j] * (-1) ** (pi + pj)
            return out
        hu, hd = hop(su, H[0]), hop(sd, H[1])
        h = np.kron(np.eye(len(sd)), hu) + np.kron(hd, np.eye(len(su)))
        bu = np.array([[s >> i & 1 for i in range(n)] for s in su], float)
        bd = np.array([[s >> i & 1 for i in range(n)] for s in sd], float)
        o = .5 if m['hf'] else 0.
        dg = np.einsum('di,i,ui->du', bd - o, np.diag(U), bu - o)
        return h + np.diag(dg.ravel())
    ss = ref.nsector(n, key[0])
    pos = {int(s): i for i, s in enumerate(ss)}
    b = ((ss[:, None] >> np.arange(2 * n)[None, :]) & 1).astype(float)
    o = .5 if m['hf'] else 0.
    dg = b[:, :n] @ np.diag(H[0]) + b[:, n:] @ np.diag(H[1]) + ((b[:, :n] - o) * (b[:, n:] - o)) @ np.diag(U)
    h = np.diag(dg)
    J = np.asarray(m['Jx'])
    for s in ss:
        s = int(s)
        for i in range(n):
            for j in range(n):
                if i == j or J[i, j] == 0:
                    continue
                for a in range(2):
                    for c in range(2):
                        # c+_ia c+_jc c_ic c_ja
                        t, sg = s, 1
                        ok = True
                        for kind, mode in ((0, j + a * n), (0, i + c * n), (1, j + c * n), (1, i + a * n)):
                            if (t >> mode & 1) == kind:
                                ok = False
                                break
                            sg *= (-1) ** bin(t & ((1 << mode) - 1)).count('1')
                            t ^= 1 << mode
                        if ok:
                            h[pos[t], pos[s]] += .5 * J[i, j] * sg
    return h


@P.clause(60, thorough=1200, n=st.integers(25, 60), k=st.integers(1, 8), e=st.integers(2, 10), frac=st.sampled_from([.3, .6, .9]), v0=st.booleans(), seed=st.integers(0, 2 ** 32 - 1), timeout=200)
def unresolved(T, n, k, e, frac, v0, seed):
    """A cluster too tight for the iteration limit: fewer states may come back, never states that are none."""
    rng = np.random.default_rng(seed)
    m = int(frac * n)
    w = np.sort(np.concatenate([-2 + 10. ** -e * rng.random(m), rng.normal(size=n - m)]))
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    A = (Q * w) @ Q.T
    A = .5 * (A + A.T)
    x, v, _ = T.op('space:arpack', A, k, rng.normal(size=n) if v0 else None)
    x, v = np.asarray(x), np.asarray(v)
    T.nontrivial(True, 'fewer states' if x.size < k else 'all states')
    check(x.ndim == 1 and x.size <= k and v.shape == (n, x.size), 'wrong number of states', got=(x.shape, v.shape), expected=k)
    check(np.all(np.diff(x) >= -1e-12), 'eigenvalues not ascending', got=x)
    if x.size:
        s = np.abs(w).max()
        close(v.T @ v, np.eye(x.size), 'eigenvectors not orthonormal', atol=1e-7)
        close(A @ v, v * x, 'large residual', atol=1e-7 * s)
        check(x[0] >= w[0] - 1e-9 * s, 'an eigenvalue below the spectrum', got=x, expected=w[:k])
