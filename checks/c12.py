import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, full, keys, index
from checks.c10 import freqs, cplx, BETA
from checks.c11 import Kept, WideKept, kept_models, wide_kept, wide_request, compare, radius

P = Prop('C12', native=['psparse', 'cf'],
         rule='A case is one model of at least two levels with a temperature and frequencies; non-trivial when some off-diagonal '
              'element is non-zero.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in'])


@P.clause(200, m=models(3), beta=BETA, fs=freqs(), shift=gen.num(-3, 3))
def exact_matrix(T, m, beta, fs, shift):
    n = m['n']
    z = cplx(fs)
    shift = shift if beta * abs(shift) < 100 else 0.
    r = T.op('gf:exact', m, beta, shift, [0, 1], z, matrix=True)
    d = T.op('gf:exact', m, beta, 0., [(p, s) for s in range(2) for p in range(n)], z)['g']
    S = ref.Spectrum(n, m['H'], m['U'], m['Jx'], m['Jp'], hf=m['hf'], mu=m['mu'])
    nt = False
    for s in range(2):
        g = r['g'][s]
        want = np.array([[S.gf(i, j, s, z, beta) for j in range(n)] for i in range(n)])
        close(g, want, 'matrix function of spin %d' % s, rtol=1e-8, atol=1e-9)
        close(g, np.swapaxes(g, 0, 1), 'matrix function is not symmetric', rtol=1e-7, atol=1e-8)
        for p in range(n):
            close(g[p, p], d[s * n + p], 'diagonal element differs from the single-site function', rtol=1e-7, atol=1e-8)
        nt = nt or (n > 1 and np.abs(want[~np.eye(n, dtype=bool)]).max() > 1e-6)
    T.nontrivial(nt, 'n=%d' % n)
    check(r['same'], 'the eigenspace was changed')


@P.clause(300, case=kept_models(3), beta=BETA, fs=freqs(), ispin=st.integers(0, 1), rep=st.sampled_from(['cf', 'sp']), sep=st.booleans(), shift=gen.num(-2, 2))
def krylov_matrix(T, case, beta, fs, ispin, rep, sep, shift):
    go(T, case, beta, fs, ispin, rep, sep, shift if beta * abs(shift) < 100 else 0.)


@P.clause(32, case=kept_models(4, 4), beta=BETA, fs=freqs(3), ispin=st.integers(0, 1), rep=st.sampled_from(['cf', 'sp']), sep=st.booleans())
def krylov_matrix_n4(T, case, beta, fs, ispin, rep, sep):
    m, (kind, neig), cutoff = case
    if neig is None or kind == 'clip':
        neig = [1] * 25
    R = radius(m)
    go(T, (m, (kind, neig), cutoff), beta, list(fs) + [[.3 * R, R], [-.2 * R, 1.5 * R]], ispin, rep, sep, 0.)


def go(T, case, beta, fs, ispin, rep, sep, shift):
    m, (kind, neig), cutoff = case
    n = m['n']
    z = cplx(fs)
    r = T.op('gf:matrix_lanczos', m, neig, beta, cutoff, shift, ispin, rep, sep, z)
    K = (WideKept if n > 4 else Kept)(m, r['rows'], r['egs'], beta)
    parts = [np.array([[K.part(i, j, ispin, z, hole) for j in range(n)] for i in range(n)]) for hole in (False, True)]
    tot = parts[0] + parts[1]
    T.nontrivial(n > 1 and np.abs(tot[~np.eye(n, dtype=bool)]).max() > 1e-6, kind, rep, 'separate' if sep else 'combined')
    check(r['same'], 'the eigenspace was changed by computing the function')
    ctx = dict(beta=beta, spin=ispin, repr=rep)
    for i in range(n):
        for j in range(n):
            lab = ' element (%d,%d)' % (i, j)
            if sep:
                compare(r['g'][0][i, j], parts[0][i, j], z, K.dims, m, 'particle part' + lab, **ctx)
                compare(r['g'][1][i, j], parts[1][i, j], z, K.dims, m, 'hole part' + lab, **ctx)
            else:
                compare(r['g'][0][i, j], tot[i, j], z, K.dims, m, 'matrix function' + lab, **ctx)
            compare(r['items'][i, j], tot[i, j], z, K.dims, m, 'single element' + lab, **ctx)


@P.clause(24, case=wide_kept(6, dmax=25), beta=BETA, fs=freqs(3), ispin=st.integers(0, 1), rep=st.sampled_from(['cf', 'sp']), sep=st.booleans())
def krylov_matrix_wide(T, case, beta, fs, ispin, rep, sep):
    """Five or six levels."""
    m, (kind, neig), cutoff = case
    R = radius(m)
    go(T, (m, (kind, wide_request(m, neig)), cutoff), beta, list(fs) + [[.3 * R, R], [-.2 * R, 1.5 * R]], ispin, rep, sep, 0.)
