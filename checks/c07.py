import itertools
import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen

P = Prop('C07', native=['psparse'],
         rule='A case is one model with a per-sector request and a classification; non-trivial when at least one solved '
              'sector has several states and its Hamiltonian is not a multiple of the identity.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in'])


@st.composite
def models(draw, nmax=3, nmin=1, exch=True):
    n = draw(gen.nlev(nmin, nmax))
    m = dict(n=n, H=draw(gen.hops(n)), U=draw(gen.interaction(n)), hf=draw(st.booleans()), mu=draw(gen.num(-1, 1)), z=None, Jx=None, Jp=None)
    if exch and draw(st.integers(0, 2)) == 0:
        m['Jx'] = draw(gen.symmat(n, -1, 1, diag=False))
        if draw(st.booleans()):
            m['Jp'] = draw(gen.symmat(n, -1, 1, diag=False))
    return draw(gen.mirror(m))


def full(m, sym):
    H = ref.spin(m['H'])
    if sym == 'N':
        H = np.stack([np.diag(np.diag(h)) for h in H])
    return ref.ham_full(m['n'], H, m['U'], m.get('Jx'), m.get('Jp'), hf=m.get('hf', False), mu=m.get('mu', 0.), z=m.get('z'))


def keys(n, sym):
    return [(a, b) for a in range(n + 1) for b in range(n + 1)] if sym == 'sz' else [(N,) for N in range(2 * n + 1)]


def index(n, k):
    return ref.sector(n, *k) if len(k) == 2 else ref.nsector(n, k[0])


def eigen(h, want, e, v, k, msg=''):
    """(e, v) are the k lowest eigenpairs of h with exact spectrum want."""
    s = 1. + np.abs(want).max()
    check(e.shape == (k,) and v.shape == (len(h), k), 'wrong number of states' + msg, got=(e.shape, v.shape), expected=k)
    check(np.all(np.diff(e) >= -1e-10 * s), 'eigenvalues not ascending' + msg, got=e)
    close(e, want[:k], 'not the lowest eigenvalues' + msg, atol=1e-8 * s)
    close(v.T @ v, np.eye(k), 'eigenvectors not orthonormal' + msg, atol=1e-8)
    close(h @ v, v * e, 'eigenvalue equation violated' + msg, atol=1e-7 * s)


@P.clause(400, m=models(), sym=st.sampled_from(['sz', 'sz', 'N', 'n', 'SZ', None]), ask=st.sampled_from(['all', 'random', 'clip', 'none', 'sparse']),
          seed=st.integers(0, 2 ** 32 - 1))
def eigenspace(T, m, sym, ask, seed):
    rng = np.random.default_rng(seed)
    n = m['n']
    s = 'N' if sym in ('N', 'n') else 'sz'
    ks = keys(n, s)
    dims = [len(index(n, k)) for k in ks]
    if ask == 'none':
        neig = None
    elif ask == 'all':
        neig = dims
    elif ask == 'clip':
        c = int(rng.integers(1, 5))
        neig = [min(c, d) for d in dims]
    else:
        neig = [int(rng.integers(0, d + 1)) * (1 if ask == 'random' else int(rng.integers(0, 2))) for d in dims]
    r = T.op('space:solve', m, neig, sym)
    H = full(m, s)
    want_keys = [k for i, k in enumerate(ks) if neig is None or neig[i] > 0]
    check([tuple(x[0]) for x in r['rows']] == want_keys, 'solved sectors', got=[tuple(x[0]) for x in r['rows']], expected=want_keys)
    egs = np.inf
    nt = False
    for key, e, v, d, states in r['rows']:
        key = tuple(key)
        idx = index(n, key)
        h = ref.block(H, idx)
        k = d if neig is None else neig[ks.index(key)]
        check(d == len(idx), 'sector size', key=key)
        w = np.linalg.eigvalsh(h)
        nt = nt or (len(w) > 1 and w[-1] - w[0] > 1e-9)
        eigen(h, w, np.asarray(e), np.asarray(v), k, ' in sector %s' % (key,))
        egs = min(egs, w[0])
    T.nontrivial(nt, s, ask, 'partial' if neig is not None and neig != dims else 'full')
    if r['rows']:
        close(r['egs'], egs, 'ground-state energy is not the lowest kept level', atol=1e-8)
        lowest = min(float(np.min(x[1])) for x in r['rows'])
        check(r['egs'] == lowest, 'reported ground-state energy is not one of the kept levels', got=r['egs'], lowest=lowest)
    else:
        check(r['egs'] == np.inf, 'energy of an empty space', got=r['egs'])


@P.clause(60, m=models(4, 4, exch=False), c=st.integers(1, 6))
def eigenspace_n4(T, m, c):
    n = 4
    ks = keys(n, 'sz')
    neig = [min(c, len(index(n, k))) for k in ks]
    r = T.op('space:solve', m, neig)
    H = full(m, 'sz')
    T.nontrivial(True)
    for key, e, v, d, states in r['rows']:
        h = ref.block(H, index(n, tuple(key)))
        eigen(h, np.linalg.eigvalsh(h), np.asarray(e), np.asarray(v), min(c, d), ' in sector %s' % (tuple(key),))


@P.clause(300, m=models(3), data=st.data() if False else st.integers(0, 10 ** 6), default=st.booleans())
def single_sector(T, m, data, default):
    n = m['n']
    sym = ['sz', 'N'][data % 2]
    ks = keys(n, sym)
    key = ks[(data // 2) % len(ks)]
    idx = index(n, key)
    k = None if default else 1 + (data // 97) % len(idx)
    e, v = T.op('space:one', m, list(key), k)
    h = ref.block(full(m, sym), idx)
    T.nontrivial(len(idx) > 1, sym)
    eigen(h, np.linalg.eigvalsh(h), np.asarray(e), np.asarray(v), len(idx) if default else k)


@P.clause(40, m=models(2), bad=st.sampled_from(['xyz', 'S', 'ZS', 'NN']))
def unknown_classification(T, m, bad):
    r = T.raw('ops.space:solve', m, None, bad)
    T.nontrivial()
    check(r[0] == 'exc' and r[1] == 'NotImplementedError', 'unknown classification accepted', got=r[:2])


@P.clause(12, thorough=120, ek=st.integers(6, 7).flatmap(lambda n: gen.vec(n)))
def independent_wide(T, ek):
    """Sectors of more than a thousand states."""
    free_particles(T, ek)


@P.clause(200, ek=st.integers(1, 5).flatmap(lambda n: gen.vec(n)))
def independent_particles(T, ek):
    free_particles(T, ek)


def free_particles(T, ek):
    r = T.op('space:free', ek)
    n = len(ek)
    got = {tuple(k): e for k, e in r['rows']}
    check(sorted(got) == keys(n, 'sz'), 'sectors', got=sorted(got))
    T.nontrivial(n > 1)
    low = np.inf
    for (a, b), e in got.items():
        want = sorted(sum(u) + sum(d) for u in itertools.combinations(ek, a) for d in itertools.combinations(ek, b))
        close(np.asarray(e), np.array(want, float), 'spectrum of independent particles in sector %s' % ((a, b),), atol=1e-9)
        low = min(low, want[0])
    close(r['egs'], low, 'ground-state energy', atol=1e-9)
    check(r['kept'], 'the level energies were modified')


LARGE = [((3, 2), (1, 5)), ((0, 0), (2, 3)), ((2, 4), (7, 7)), ((5, 3), (6, 1)), ((1, 1), (5, 4))]


@P.clause(16, thorough=300, which=st.sampled_from(LARGE), sym=st.sampled_from(['sz', 'sz', 'N']), seed=st.integers(0, 2 ** 32 - 1), spin=st.booleans(), timeout=300)
def large_sectors(T, which, sym, seed, spin):
    """Sectors beyond the dense limit, a few states each (one at least as often as several)."""
    from checks.c08 import sector_block
    rng = np.random.default_rng(seed)
    n = 7 if sym == 'sz' else 6
    ks = keys(n, sym)
    pick = list(which) if sym == 'sz' else [(int(rng.choice([5, 7])),), (1,)]
    ask = {k: min(int(rng.choice([1, 1, 2, 4])), len(index(n, k)) if sym == 'N' or sum(k) in (0, 2 * n) else 4) for k in pick}
    H = rng.normal(size=(2, n, n))
    H = H + H.transpose(0, 2, 1)
    m = dict(n=n, H=H if spin else H[0], U=np.diag(rng.uniform(0, 3, n)), hf=bool(rng.integers(2)), mu=0., z=None, Jx=None, Jp=None)
    if sym == 'N':
        J = rng.normal(size=(n, n)) * .5
        m['Jx'] = (J + J.T) / 2
    r = T.op('space:solve', m, [ask.get(k, 0) for k in ks], sym)
    got = [tuple(x[0]) for x in r['rows']]
    check(got == sorted(pick), 'solved sectors', got=got, expected=sorted(pick))
    T.nontrivial(True, sym, 'one state' if 1 in [ask[k] for k in pick] else 'several')
    low = np.inf
    for key, e, v, d, states in r['rows']:
        key = tuple(key)
        h = sector_block(n, m, key)
        w = np.linalg.eigvalsh(h)
        e, v = np.asarray(e), np.asarray(v)
        check(d == len(w), 'sector size', key=key)
        if len(w) <= 512:
            eigen(h, w, e, v, ask[key], ' in sector %s' % (key,))
        else:
            s = np.abs(h).sum(1).max()
            check(len(e) == ask[key] and v.shape == (d, ask[key]), 'wrong number of states', key=key, got=len(e), expected=ask[key])
            close(e, w[:len(e)], 'not the lowest eigenvalues in sector %s' % (key,), atol=1e-8 * s)
            close(v.T @ v, np.eye(len(e)), 'eigenvectors not orthonormal', atol=1e-8)
            close(h @ v, v * e, 'eigenvalue equation violated', atol=1e-7 * s)
        low = min(low, w[0])
    close(r['egs'], low, 'ground-state energy is not the lowest kept level', atol=1e-7)
