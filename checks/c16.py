import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close

P = Prop('C16', native=['psparse'],
         rule='A case is one tridiagonal matrix with a solver mode; non-trivial when it has at least two levels and a non-zero '
              'off-diagonal entry.')


TOL, RES, ORT = 2e-14, 5e-14, 2e-9     # per level, relative to the norm of the matrix


@st.composite
def tri(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(2, 60)))
    kind = draw(st.sampled_from(['random', 'equal', 'split', 'tiny', 'zero', 'huge', 'graded', 'integers', 'hierarchy']))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    a, b = rng.normal(size=n), rng.normal(size=n - 1)
    if kind == 'equal':
        a[:], b[:] = .5, 1.
    elif kind == 'split':
        b[rng.random(n - 1) < .4] = 0.
    elif kind == 'tiny':
        b[rng.random(n - 1) < .5] *= 1e-15
    elif kind == 'zero':
        b[:] = 0.
    elif kind == 'huge':
        a *= 1e8
        b *= 1e8
    elif kind == 'graded':
        s = 10. ** np.linspace(0, -8, n)
        a *= s
        b *= s[1:]
    elif kind == 'hierarchy':
        a *= 10. ** -rng.integers(0, 14, n)
        b *= 10. ** -rng.integers(0, 14, n - 1)
    elif kind == 'integers':
        a, b = np.round(a * 2), np.round(b * 2)
    return dict(kind=kind, a=a.tolist(), b=b.tolist())


def decide(T, t, w, v, sel, ort=ORT):
    a, b = np.array(t['a']), np.array(t['b'])
    n = len(a)
    M = np.diag(a) + np.diag(b, 1) + np.diag(b, -1)
    want = np.linalg.eigvalsh(M)[sel]
    s = np.abs(M).sum(1).max() + 1e-300
    check(w.shape == want.shape, 'number of eigenvalues', got=w.shape, expected=want.shape)
    check(np.all(np.diff(w) >= -1e-13 * s), 'eigenvalues are not ascending', got=w)
    close(w, want, 'eigenvalues', atol=TOL * n * s, rtol=0)
    if v is not None:
        check(v.shape == (n, len(want)), 'shape of the eigenvectors', got=v.shape)
        close(v.T @ v, np.eye(len(want)), 'eigenvectors are not orthonormal', atol=ort * n)
        close(M @ v, v * w, 'residual', atol=RES * n * s, rtol=0)


@P.clause(600, t=tri(), only=st.booleans())
def full(T, t, only):
    w, v, kept = T.op('lin:tri', t['a'], t['b'], 0, (0, 0), only)
    T.nontrivial(len(t['a']) > 1 and np.any(t['b']), t['kind'], 'values' if only else 'vectors')
    check(kept, 'the coefficients were modified')
    decide(T, t, np.asarray(w), None if only else np.asarray(v), slice(None))


@P.clause(700, t=tri(), only=st.booleans(), lo=st.floats(0, 1), width=st.integers(0, 6), all_=st.booleans())
def index_range(T, t, only, lo, width, all_):
    n = len(t['a'])
    lo = 0 if all_ else min(n - 1, int(lo * n))
    hi = n - 1 if all_ else min(n - 1, lo + width)
    w, v, kept = T.op('lin:tri', t['a'], t['b'], 2, (lo, hi), only)
    T.nontrivial(len(t['a']) > 1 and np.any(t['b']), t['kind'], 'values' if only else 'vectors', 'all' if all_ else 'some')
    check(kept, 'the coefficients were modified')
    decide(T, t, np.asarray(w), None if only else np.asarray(v), slice(lo, hi + 1))


@P.clause(300, t=tri())
def ground(T, t):
    e, w, v = T.op('lin:ground', t['a'], t['b'])
    T.nontrivial(len(t['a']) > 1 and np.any(t['b']), t['kind'])
    decide(T, t, np.asarray(w), np.asarray(v), slice(0, 1))
    decide(T, t, np.array([e]), None, slice(0, 1))


@P.clause(60, t=tri(), bad=st.sampled_from([1, 3, -1]))
def unknown_mode(T, t, bad):
    T.nontrivial()
    r = T.raw('ops.lin:tri', t['a'], t['b'], bad, (0, 0), False)
    check(r[0] == 'exc', 'an unknown selection mode was accepted')


@P.clause(500, n=st.integers(12, 60), seed=st.integers(0, 2 ** 32 - 1), k=st.sampled_from([8, 14, 18]), only=st.booleans())
def scales(T, n, seed, k, only):
    """Elements of very different size, where the standard driver may give up."""
    rng = np.random.default_rng(seed)
    a, b = rng.normal(size=n) * 10. ** -rng.integers(0, k, n), rng.normal(size=n - 1) * 10. ** -rng.integers(0, k, n - 1)
    t = dict(kind='scales', a=a.tolist(), b=b.tolist())
    w, v, kept = T.op('lin:tri', t['a'], t['b'], 0, (0, 0), only)
    T.nontrivial(True, 'values' if only else 'vectors')
    check(kept, 'the coefficients were modified')
    decide(T, t, np.asarray(w), None if only else np.asarray(v), slice(None), ort=1e-7)
