import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close

P = Prop('C17', native=['cf'], threads=[1, 2, 4, 8, 3, 1, 6, 2],
         rule='A case is one coefficient pair with frequencies; non-trivial when the fraction has at least two levels with '
              'non-zero coupling.',
         assumptions=['thread interleavings are those the OS produces with 1 to 8 OpenMP threads'])


@P.clause(800, n=st.one_of(st.integers(1, 5), st.integers(1, 80)), nz=st.one_of(st.integers(2, 6), st.integers(2, 200), st.just(1)), kind=st.sampled_from(['random', 'truncated', 'negative', 'equal', 'large']),
          scalar=st.booleans(), axis=st.sampled_from(['upper', 'both', 'real']), seed=st.integers(0, 2 ** 32 - 1))
def fraction(T, n, nz, kind, scalar, axis, seed):
    rng = np.random.default_rng(seed)
    a, b = rng.normal(size=n), rng.random(n) * 2 + .01
    if kind == 'truncated':
        b[int(rng.integers(n)):] = 0.
        b[0] = 1.
    elif kind == 'negative':
        b *= rng.choice([-1, 1], size=n) * .25
    elif kind == 'equal':
        a[:], b[:] = .25, 1.
    elif kind == 'large':
        a, b = 1e3 * a, 1e6 * b
    s = np.abs(a).max() + 2 * np.sqrt(np.abs(b).max()) + 1
    if scalar:
        nz = min(nz, 5)
    z = rng.normal(size=nz) + 1j * rng.uniform(.05, 3, size=nz)
    z *= s / 4
    if kind == 'negative':                   # complex spectrum: stay outside it
        z = 1j * s * rng.uniform(2, 4, size=nz) + s * rng.normal(size=nz)
    if axis == 'both':
        z = np.where(rng.random(nz) < .5, z, z.conj())
    elif axis == 'real':
        z = s * rng.choice([-1, 1], size=nz) * rng.uniform(1.5, 4, size=nz) + 0j
    r = T.op('lin:cf', a, b, z, scalar)
    M = np.diag(a).astype(complex) + np.diag(b[1:], 1) + np.diag(np.ones(n - 1), -1)
    want = np.array([b[0] * np.linalg.solve(x * np.eye(n) - M, np.eye(n)[:, 0])[0] for x in z])
    # balanced form is better conditioned when the couplings are positive
    if np.all(b >= 0):
        q = np.sqrt(b[1:])
        M = np.diag(a).astype(complex) + np.diag(q, 1) + np.diag(q, -1)
        want = np.array([b[0] * np.linalg.solve(x * np.eye(n) - M, np.eye(n)[:, 0])[0] for x in z])
    T.nontrivial(n > 1 and np.any(b[1:]), kind, 'scalar' if scalar else 'array', axis, 'n=1' if n == 1 else 'n>1')
    got = np.asarray(r['r'])
    check(got.size == nz, 'number of values', got=got.shape, expected=nz)
    if not scalar and nz > 1:
        check(got.shape == (nz,), 'shape', got=got.shape)
    if scalar:
        check(all(k == 0 for k in r['nd']), 'a scalar frequency does not give a scalar value', got=r['nd'])
    close(got.ravel(), want, 'continued fraction differs from the resolvent', rtol=1e-7, atol=1e-10 * abs(b[0]))
    check(r['kept'], 'the inputs were modified')


@P.clause(150, n=st.integers(60, 1500), nz=st.integers(1, 40), kind=st.sampled_from(['equal', 'random', 'smooth']), eta=st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4]), seed=st.integers(0, 2 ** 32 - 1))
def deep(T, n, nz, kind, eta, seed):
    """Long fractions close to the axis: the far coefficients still count."""
    rng = np.random.default_rng(seed)
    a, b = np.zeros(n), np.full(n, .25)
    if kind == 'random':
        a, b = rng.normal(size=n) * .1, .25 + .05 * rng.random(n)
    elif kind == 'smooth':
        a, b = .1 * np.cos(np.arange(n) / 40.), .25 + .05 * np.sin(np.arange(n) / 30.)
    z = rng.uniform(-.9, .9, size=nz) + 1j * eta
    r = T.op('lin:cf', a, b, z, False)
    want = np.zeros(nz, complex)
    for i in range(n - 1, -1, -1):
        want = b[i] / (z - a[i] - want)
    half = np.zeros(nz, complex)
    for i in range(n // 2, -1, -1):
        half = b[i] / (z - a[i] - half)
    T.nontrivial(np.abs(half - want).max() > 1e-6, kind, 'eta=%g' % eta)
    got = np.asarray(r['r']).ravel()
    close(got, want, 'long continued fraction', rtol=1e-7, atol=1e-9)
    check(r['kept'], 'the inputs were modified')
