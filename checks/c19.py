import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from checks.c18 import fermi

P = Prop('C19', rule='A case is one set of normalised pole sums with a temperature and calls at several chemical potentials; non-trivial when '
                     'some pole is partially occupied or both occupied and empty poles are present.',
         assumptions=['functions with unit total weight (the analytic tail presumes it); the tolerance is the rigorous remainder of the truncated tail-corrected sum'])


@st.composite
def cases(draw):
    shape = draw(st.sampled_from([(), (1,), (2,), (3,), (5,), (2, 3), (3, 2), (2, 1, 2)]))
    K = draw(st.integers(1, 6))
    beta = draw(st.sampled_from([None, None, 5., 20., 70., 100., 400., 1000.]) | st.floats(2, 120))
    nmats = draw(st.sampled_from([None, None, 3000, 700, 1500, 5000, 12000]))
    scale = draw(st.sampled_from([3., 1., .2, 6.]))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    e = rng.uniform(-scale, scale, shape + (K,))
    w = rng.random(shape + (K,)) + 1e-3
    w /= w.sum(-1, keepdims=True)
    mus = [None if draw(st.integers(0, 4)) == 0 else draw(st.sampled_from([0., scale, -scale]) | st.floats(-1, 1).map(lambda x: x * scale))
           for _ in range(draw(st.integers(1, 3)))]
    return dict(e=e, w=w, beta=beta, nmats=nmats, mus=mus, own=draw(st.floats(-2, 2)))


@P.clause(600, c=cases())
def density(T, c):
    e, w = np.asarray(c['e']), np.asarray(c['w'])
    beta, N = c['beta'] or 70., c['nmats'] or 3000
    calls = []
    for m in c['mus']:
        k = {} if m is None else dict(mu=m)
        if c['beta'] is not None:
            k['beta'] = c['beta']
        if c['nmats'] is not None:
            k['nmats'] = c['nmats']
        calls.append(k)
    out = T.op('integ:matsum', e, w, c['own'], calls)
    wN = (2 * N - 1) * np.pi / beta
    part = False
    for m, (got, after) in zip(c['mus'], out):
        x = e - (m or 0.)
        f = fermi(beta * x)
        s3 = (w * np.abs(x) ** 3).sum(-1)
        tol = 1e-9 + (4 * s3 / wN ** 2) / (np.pi * wN) * 2
        part = part or np.any((f > .01) & (f < .99)) or (np.any(f > .5) and np.any(f < .5))
        close(got, (w * f).sum(-1), 'density', rtol=0, atol=float(np.max(tol)), mu=m, beta=beta, nmats=N, e=e, w=w)
        check(after == c['own'], 'chemical potential of the object changed', before=c['own'], after=after)
        T.label('tol<1e-4' if np.max(tol) < 1e-4 else 'tol>=1e-4')
    T.nontrivial(part, 'ndim=%d' % (e.ndim - 1), 'repeated' if len(c['mus']) > 1 else 'single')
