import numpy as np
from math import comb
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, index
from checks.c10 import BETA
from checks.c11 import kept_models

P = Prop('C13', native=['psparse'],
         rule='A case is one set of vectors in a sector, or one model with kept states and a temperature; non-trivial when '
              'some occupation lies strictly between 0 and 1.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in'])
ORDER = st.sampled_from(['C', 'F', 'Cslice', 'Fslice', 'index'])


def bits(n, ss):
    return np.array([[s >> k & 1 for k in range(n)] for s in ss], float).reshape(len(ss), n)


def direct(n, a, b, v):
    """(n, nev) up and down occupations of column vectors, up index fastest."""
    su, sd = bits(n, ref.patterns(n, a)), bits(n, ref.patterns(n, b))
    p = (np.asarray(v) ** 2).reshape(len(sd), len(su), -1)
    return np.einsum('duv,uk->kv', p, su), np.einsum('duv,dk->kv', p, sd)


@P.clause(500, n=gen.nlev(1, 5), ab=st.tuples(st.floats(0, 1), st.floats(0, 1)), nev=st.integers(1, 5), order=ORDER, weights=st.booleans(), norm=st.booleans(),
          seed=st.integers(0, 2 ** 32 - 1), times=st.sampled_from([1, 1, 2]))
def vectors(T, n, ab, nev, order, weights, norm, seed, times):
    count(T, n, int(round(ab[0] * n)), int(round(ab[1] * n)), nev, order, weights, norm, seed, times)


@P.clause(60, c=gen.wide(dmax=800), nev=st.integers(1, 12), order=ORDER, weights=st.booleans())
def many_levels(T, c, nev, order, weights):
    """Five to 24 levels, few particles or holes, more vectors."""
    count(T, c['n'], c['qns'][0], c['qns'][1], nev, order, weights, True, c['seed'], 1)


def count(T, n, a, b, nev, order, weights, norm, seed, times):
    rng = np.random.default_rng(seed)
    d = comb(n, a) * comb(n, b)
    v = rng.normal(size=(d, nev))
    v[rng.random(v.shape) < .2] = 0
    if norm:
        v[0] += 1e-3
        v /= np.linalg.norm(v, axis=0)
    c = rng.random(nev) * 3 if weights else None
    r = T.op('occ:vectors', n, a, b, v, order, c, times)
    u, w = direct(n, a, b, v)
    if weights:
        u, w = u * c, w * c
    T.nontrivial(d > 1, order, 'weighted' if weights else 'unweighted', 'nev=1' if nev == 1 else 'nev>1')
    ctx = dict(n=n, nup=a, ndw=b, nev=nev, order=order)
    close(r['up'], u, 'up occupation of the vectors', atol=1e-10 * (1 + np.abs(u).max()), **ctx)
    close(r['dw'], w, 'down occupation of the vectors', atol=1e-10 * (1 + np.abs(w).max()), **ctx)
    check(r['kept'], 'the vectors passed in were changed (values or shape)', **ctx)
    if norm and not weights:
        close(np.asarray(r['up']).sum(0), np.full(nev, float(a)), 'up electrons of the sector', atol=1e-9)
        close(np.asarray(r['dw']).sum(0), np.full(nev, float(b)), 'down electrons of the sector', atol=1e-9)


@P.clause(350, case=kept_models(3), beta=BETA, shift=gen.num(-3, 3), orders=st.lists(st.sampled_from(['as is', 'C', 'F']), min_size=1, max_size=4))
def thermal(T, case, beta, shift, orders):
    m, (kind, neig), cutoff = case
    n = m['n']
    shift = shift if beta * abs(shift) < 100 else 0.
    r = T.op('occ:thermal', m, neig, beta, cutoff, shift, orders)
    Z, up, dw = 0., np.zeros(n), np.zeros(n)
    for k, e, v, _, _ in r['rows']:
        w = np.exp(-beta * (np.asarray(e) - r['egs']))
        a, b = direct(n, k[0], k[1], v)
        up, dw, Z = up + a @ w, dw + b @ w, Z + w.sum()
    up, dw = up / Z, dw / Z
    T.nontrivial(np.any((up > .01) & (up < .99)), kind, 'screened' if cutoff else 'unscreened', 'hot' if beta <= 1 else 'cold')
    close(r['up'], up, 'thermal up occupation', rtol=1e-8, atol=1e-9, beta=beta)
    close(r['dw'], dw, 'thermal down occupation', rtol=1e-8, atol=1e-9, beta=beta)
    if neig is None and cutoff is None:
        S = ref.Spectrum(n, m['H'], m['U'], m['Jx'], m['Jp'], hf=m['hf'], mu=m['mu'])
        a, b = S.occupation(beta)
        T.label('complete')
        close(r['up'], a, 'thermal up occupation (complete space)', rtol=1e-6, atol=1e-7, beta=beta)
        close(r['dw'], b, 'thermal down occupation (complete space)', rtol=1e-6, atol=1e-7, beta=beta)
    x = np.concatenate([r['up'], r['dw']])
    check(np.all(x >= -1e-12) and np.all(x <= 1 + 1e-9), 'occupation outside [0, 1]', got=x)
    check(r['same'], 'the eigenspace was changed')
    check(r['again'], 'not repeatable')


@P.clause(200, n=gen.nlev(1, 5), ab=st.tuples(st.floats(0, 1), st.floats(0, 1)), seed=st.integers(0, 2 ** 32 - 1))
def single_site(T, n, ab, seed):
    rng = np.random.default_rng(seed)
    a, b = int(round(ab[0] * n)), int(round(ab[1] * n))
    v = rng.normal(size=comb(n, a) * comb(n, b))
    v /= np.linalg.norm(v)
    r = T.op('occ:impurity', n, a, b, v)
    u, w = direct(n, a, b, v[:, None])
    T.nontrivial(v.size > 1)
    close(r['occ'], (u + w)[:, 0], 'electron count of one level', atol=1e-10)
    close(sum(r['occ']), a + b, 'electrons of the sector', atol=1e-9)
    check(r['kept'], 'the vector was changed')


@P.clause(24, thorough=400, n=st.integers(4, 5), seed=st.integers(0, 2 ** 32 - 1), spin=st.booleans(), beta=st.sampled_from([.05, .3, 1., 3.]), orders=st.lists(st.sampled_from(['as is', 'C', 'F']), min_size=1, max_size=3), timeout=300)
def complete_wide(T, n, seed, spin, beta, orders):
    """Four and five levels with every state kept."""
    rng = np.random.default_rng(seed)
    m = dict(n=n, H=[gen.wide_matrix(rng, n) for _ in range(2)] if spin else gen.wide_matrix(rng, n), U=gen.wide_matrix(rng, n, -1, 4),
             hf=bool(rng.integers(2)), mu=0., z=None, Jx=None, Jp=None)
    r = T.op('occ:thermal', m, None, beta, None, 0., orders)
    Z, up, dw = 0., np.zeros(n), np.zeros(n)
    for k, e, v, _, _ in r['rows']:
        w = np.exp(-beta * (np.asarray(e) - r['egs']))
        a, b = direct(n, k[0], k[1], v)
        up, dw, Z = up + a @ w, dw + b @ w, Z + w.sum()
    T.nontrivial(True, 'n=%d' % n)
    close(r['up'], up / Z, 'thermal up occupation', rtol=1e-8, atol=1e-9, beta=beta)
    close(r['dw'], dw / Z, 'thermal down occupation', rtol=1e-8, atol=1e-9, beta=beta)
    check(r['same'] and r['again'], 'the eigenspace was changed or the result is not repeatable')
