import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen

P = Prop('C15', native=['psparse'],
         rule='A case is one symmetric matrix with 1 to 4 start vectors; non-trivial when the joint Krylov space has at least '
              'three dimensions.',
         assumptions=['linear dependence of the candidates is exact (dyadic arithmetic) or absent, never at rounding level, where the '
                      'fixed deflation threshold decides'])


@st.composite
def problems(draw):
    """Exactly invariant dyadic pieces plus a generic block; start vectors scattered over them."""
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    g = draw(st.integers(0, 25))
    pieces = draw(st.lists(st.sampled_from(['level', 'pair', 'level']), min_size=0 if g > 1 else 2, max_size=5))
    A = np.zeros((g, g))
    if g:
        B = rng.normal(size=(g, g))
        A = (B + B.T) / 2
    units = []
    for k in pieces:
        n = len(A)
        if k == 'level':
            blk = np.array([[float(rng.integers(-4, 5)) / 2]])
        else:
            blk = np.array([[float(rng.integers(-3, 4)) / 2, 1.], [1., float(rng.integers(-3, 4)) / 2]])
        m = len(blk)
        A = np.block([[A, np.zeros((n, m))], [np.zeros((m, n)), blk]])
        units.append(n)
    n = len(A)
    L = draw(st.integers(1, 4))
    vs = []
    for _ in range(L):
        kind = draw(st.sampled_from(['generic', 'generic', 'unit', 'copy', 'combo']))
        v = np.zeros(n)
        if kind == 'copy' and vs:
            v = vs[int(rng.integers(len(vs)))] * draw(st.sampled_from([1., 2., -1.]))
        elif kind in ('unit', 'combo', 'copy') and units:
            v[units[int(rng.integers(len(units)))]] = draw(st.sampled_from([1., 2., .5]))
        elif g:
            v[:g] = rng.normal(size=g)
        else:
            v[0] = 1.
        vs.append(v)
    return dict(A=A.tolist(), vs=[v.tolist() for v in vs], g=g, pieces=pieces)


def reference(A, vs, limit):
    """Sequence v1..vL, A q1, A q2, ...; orthonormalised with exact deflation.  Returns Q, whether it ended by exhaustion, number of
    deflations, and the length up to which every kept residual was well conditioned."""
    n = len(A)
    s = np.abs(A).sum(1).max() + 1.
    cand = [np.array(v) for v in vs]
    Q, defl, amb = [], 0, False
    while cand and len(Q) < limit:
        v = cand.pop(0)
        scale = max(np.linalg.norm(v), 1e-300)
        for _ in range(2):
            for q in Q:
                v = v - q * (q @ v)
        r = np.linalg.norm(v)
        if r < 1e-13 * max(scale, 1e-3):
            defl += 1
            continue
        if r < 1e-3 * scale:
            amb = True
            break
        q = v / r
        Q.append(q)
        cand.append(A @ q)
    return np.array(Q).reshape(-1, n).T, (not cand and not amb), defl


@P.clause(700, p=problems(), maxn=st.one_of(st.none(), st.integers(6, 40)), ND=st.sampled_from([None, 3, 10]))
def recursion(T, p, maxn, ND):
    A, vs = np.array(p['A']), np.array(p['vs'])
    t = np.asarray(T.op('lin:block', A, vs, maxn, None, ND))
    Q, done, defl = reference(A, vs, 10 + len(vs))
    R = Q.T @ A @ Q
    s = np.abs(A).sum(1).max() + 1.
    T.nontrivial(Q.shape[1] > 2, 'L=%d' % len(vs), 'deflation' if defl else 'no deflation', 'exhausted' if done else 'open')
    check(t.ndim == 2 and t.shape[0] == t.shape[1], 'shape of the projection', got=t.shape)
    k = min(len(t), Q.shape[1])
    check(len(t) >= min(Q.shape[1], (maxn or 300) - len(vs)), 'the recursion stopped before the space was explored', got=len(t),
          explored=Q.shape[1])
    low = np.tril(t)
    sym = low + np.tril(t, -1).T
    close(t[:k, :k], R[:k, :k], 'projection of the operator on the joint Krylov space', atol=1e-6 * s, deflations=defl)
    close(sym[:k, :k], t[:k, :k], 'projection is not symmetric', atol=1e-6 * s)


@P.clause(300, p=problems())
def exhausted(T, p):
    """Enough iterations: the projection has exactly the eigenvalues reachable from the start vectors."""
    A, vs = np.array(p['A']), np.array(p['vs'])
    Q, done, defl = reference(A, vs, len(A) + 1)
    s = np.abs(A).sum(1).max() + 1.
    if not Q.shape[1] or not done:
        return
    t = np.asarray(T.op('lin:block', A, vs, Q.shape[1] + 2 * len(vs), None, 10))
    want = np.linalg.eigvalsh(Q.T @ A @ Q)
    got = np.linalg.eigvalsh(t[:Q.shape[1], :Q.shape[1]])
    if len(got) < len(want):              # stopped on a stationary lowest level
        close(got[0], want[0], 'lowest reachable eigenvalue', atol=1e-6 * s)
        return
    T.nontrivial(len(want) > 2, 'deflation' if defl > len(vs) else 'plain')
    close(got, want, 'eigenvalues of the exhausted Krylov space', atol=1e-6 * s, deflations=defl)


@P.clause(400, r=st.integers(1, 8), extra=st.integers(0, 12), kind=st.sampled_from(['columns', 'rows', 'rows', 'rows of columns']), norm=st.booleans(),
          seed=st.integers(0, 2 ** 32 - 1), scale=st.sampled_from([1., 1e-3, 50.]))
def orthogonalise(T, r, extra, kind, norm, seed, scale):
    rng = np.random.default_rng(seed)
    V = rng.normal(size=(r, r + extra)) * scale
    while np.linalg.cond(V) > 1e3:
        V = rng.normal(size=(r, r + extra)) * scale
    X = V if kind == 'rows' else V.T
    Y, kept = T.op('lin:ortho', X, 'columns' if kind == 'columns' else 'rows', kind == 'rows', norm)
    Y = np.asarray(Y)
    check(kept, 'the input vectors were modified')
    check(Y.shape == X.shape, 'shape', got=Y.shape, expected=X.shape)
    Y = Y if kind == 'rows' else Y.T
    T.nontrivial(r > 1, kind, 'norm' if norm else 'no norm')
    G = Y @ Y.T
    if kind == 'columns' or norm:
        close(G, np.eye(r), 'not orthonormal', atol=1e-8)
    else:
        d = np.sqrt(np.diag(G))
        close(G / np.outer(d, d), np.eye(r), 'not orthogonal', atol=1e-8)
        close(Y[0], V[0], 'the first vector changed', atol=1e-12 * scale)
    for k in range(1, r + 1):
        U = Y[:k] / np.linalg.norm(Y[:k], axis=1)[:, None]
        close((V[:k] @ U.T) @ U, V[:k], 'leading %d vectors span another space' % k, atol=1e-7 * scale)


@P.clause(600, g=st.integers(3, 11), L=st.integers(1, 4), size=st.sampled_from([1e-6, 1e-5, 1e-4]), ND=st.sampled_from([5, 10, 40]), seed=st.integers(0, 2 ** 32 - 1))
def threshold(T, g, L, size, ND, seed):
    """Candidates below the caller's threshold are dropped; what is left is the projection on the vectors kept."""
    rng = np.random.default_rng(seed)
    h = max(g // 2, 1)
    A = rng.normal(size=(g, g))
    A = (A + A.T) / 2
    A[:h, h:] *= size                     # weakly coupled halves
    A[h:, :h] *= size
    vs = [np.concatenate([rng.normal(size=h), np.zeros(g - h)]) for _ in range(L)]
    for j in range(1, L):
        x = rng.random()
        if x < .2:
            vs[j] = vs[j - 1] * 2. + size * rng.normal(size=g)
        elif x < .7:
            q = vs[int(rng.integers(j))]
            vs[j] = A @ q / np.linalg.norm(q) + size * rng.normal(size=g)
    cut = 1e-2
    Q, cand, gone = [], [np.array(v) for v in vs], 0
    while cand and len(Q) < g:
        v = cand.pop(0)
        for _ in range(2):
            for q in Q:
                v = v - q * (q @ v)
        r = np.linalg.norm(v)
        if cut / 5 < r < 5 * cut:
            T.label('ambiguous')
            return
        if r < cut:
            gone += 1
            continue
        Q.append(v / r)
        cand.append(A @ Q[-1])
    Q = np.array(Q).T
    t = np.asarray(T.op('lin:block', A, np.array(vs), g + 2 * L, None, ND, cut))
    k = min(len(t), Q.shape[1])
    s = np.abs(A).sum(1).max() + 1.
    T.nontrivial(gone > 0 and k > 2, 'L=%d' % L, 'dropped' if gone else 'none dropped')
    check(k == Q.shape[1] or k >= ND, 'the recursion stopped before the space was explored', got=len(t), explored=Q.shape[1])
    close(t[:k, :k], (Q.T @ A @ Q)[:k, :k], 'projection of the operator on the vectors kept', atol=1e-8 * s, dropped=gone)
