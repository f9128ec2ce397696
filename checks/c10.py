import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models

P = Prop('C10', native=['psparse'],
         rule='A case is one model with a temperature and frequencies; non-trivial when at least one pole carries a weight '
              'different from 0 and 1.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in'])


@st.composite
def freqs(draw, k=6):
    """Frequencies, Matsubara-like and near the real axis; now and then in the lower half plane."""
    out = []
    for _ in range(draw(st.integers(1, k))):
        out.append([draw(gen.num(-5, 5)), draw(st.sampled_from([.02, .1, .5, 1., 3., 10., 100.])) * draw(st.sampled_from([1, 1, 1, 1, -1]))])
    return out


def cplx(fs):
    return np.array([complex(a, b) for a, b in fs])


BETA = st.sampled_from([.1, .5, 1., 3., 10., 50., 300., 1000.])


@P.clause(350, m=models(3), beta=BETA, fs=freqs(), shift=gen.num(-3, 3))
def lehmann(T, m, beta, fs, shift):
    n = m['n']
    z = np.concatenate([cplx(fs), [1e6j]])
    shift = shift if beta * abs(shift) < 100 else 0.
    jobs = [(p, s) for p in range(n) for s in range(2)]
    r = T.op('gf:exact', m, beta, shift, jobs, z)
    S = ref.Spectrum(n, m['H'], m['U'], m['Jx'], m['Jp'], hf=m['hf'], mu=m['mu'])
    nt = False
    for (p, s), g in zip(jobs, r['g']):
        want = S.gf(p, p, s, z, beta)
        close(g, want, 'Green\'s function of level %d spin %d' % (p, s), rtol=1e-8, atol=1e-9, beta=beta)
        check(np.all(g.imag[:-1] * np.sign(z.imag[:-1]) <= 1e-9), 'not causal', level=p, spin=s, g=g)
        close(1e6j * g[-1], 1., 'weight at high frequency', rtol=1e-3, atol=1e-3)
    T.nontrivial(n > 1 or np.any(m['U']), 'n=%d' % n, 'hot' if beta <= 1 else 'cold', 'spin dependent' if np.ndim(m['H']) == 3 else 'spin free')
    check(r['same'], 'the eigenspace was changed')


@P.clause(150, n=gen.nlev(1, 3), H=st.data() if False else st.integers(1, 3).flatmap(lambda k: st.tuples(st.just(k), gen.hops(k))), beta=BETA, fs=freqs(),
          scalar=st.booleans())
def free_resolvent(T, n, H, beta, fs, scalar):
    n, H = H
    m = dict(H=H, U=np.zeros((n, n)), n=n)
    z = cplx(fs)
    jobs = [(p, s) for p in range(n) for s in range(2)]
    r = T.op('gf:exact', m, beta, 0., jobs, z, scalar=scalar)
    h = ref.spin(H)
    T.nontrivial(n > 1 and np.any(h[0] - np.diag(np.diag(h[0]))), 'scalar' if scalar else 'array')
    for (p, s), g in zip(jobs, r['g']):
        want = np.array([np.linalg.inv(x * np.eye(n) - h[s])[p, p] for x in z])
        close(g, want, 'non-interacting function is not the one-body resolvent (level %d spin %d)' % (p, s), rtol=1e-8, atol=1e-9)


@P.clause(16, n=st.integers(4, 5), seed=st.integers(0, 2 ** 32 - 1), spin=st.booleans(), beta=BETA, fs=freqs(3))
def free_resolvent_wide(T, n, seed, spin, beta, fs):
    """Four and five levels without interaction."""
    rng = np.random.default_rng(seed)
    H = [gen.wide_matrix(rng, n) for _ in range(2)] if spin else gen.wide_matrix(rng, n)
    z = cplx(fs)
    jobs = [(int(rng.integers(n)), 0), (int(rng.integers(n)), 1)]
    r = T.op('gf:exact', dict(H=H, U=np.zeros((n, n)), n=n), beta, 0., jobs, z)
    h = ref.spin(H)
    T.nontrivial(True, 'n=%d' % n)
    for (p, s), g in zip(jobs, r['g']):
        want = np.array([np.linalg.inv(x * np.eye(n) - h[s])[p, p] for x in z])
        close(g, want, 'non-interacting function is not the one-body resolvent (level %d spin %d)' % (p, s), rtol=1e-8, atol=1e-9)
