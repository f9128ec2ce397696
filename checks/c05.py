import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen

P = Prop('C05', native=['psparse'],
         rule='A case is one model and one sector; non-trivial when the sector has more than one state and an exchange, '
              'pair-hopping or density interaction acts in it.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in', 'exchange and pair-hopping matrices are symmetric'])


@st.composite
def models(draw, nmax=4, nmin=1, sym=None):
    n = draw(gen.nlev(nmin, nmax))
    m = dict(n=n, H=draw(gen.hops(n, near=True)), U=draw(gen.interaction(n)), hf=draw(st.booleans()), mu=draw(gen.num(-1, 1)), z=None)
    if draw(st.booleans()):
        m['z'] = draw(gen.vec(n, 0, 2))
    kind = draw(st.sampled_from(['x', 'p', 'xp', 'xp', 'none']))
    m['Jx'] = draw(gen.symmat(n, -1.5, 1.5, diag=draw(st.booleans()))) if 'x' in kind else None
    m['Jp'] = draw(gen.symmat(n, -1.5, 1.5, diag=draw(st.booleans()))) if 'p' in kind and kind != 'none' else None
    if kind != 'none' and draw(st.integers(0, 5)) == 0:
        m['U'] = None
    s = sym or draw(st.sampled_from(['sz', 'N']))
    m['qns'] = [draw(gen.filling(n)), draw(gen.filling(n))] if s == 'sz' else [draw(gen.filling(2 * n))]
    return m


def decide(T, m):
    n, qns = m['n'], m['qns']
    r = T.op('mb:ham', m['H'], m['U'], qns, Jx=m['Jx'], Jp=m['Jp'], hf=m['hf'], mu=m['mu'], z=m['z'],
             asdict=True if m['U'] is None else None)
    H = ref.spin(m['H'])
    if len(qns) == 1:                  # hopping is discarded in this classification
        H = np.stack([np.diag(np.diag(h)) for h in H])
    if n > 4:
        idx = ref.wide_sector(n, *qns)
        want = ref.sector_matrix(n, idx, H, m['U'], m['Jx'], m['Jp'], hf=m['hf'], mu=m['mu'], z=m['z'])
    else:
        idx = ref.nsector(n, qns[0]) if len(qns) == 1 else ref.sector(n, *qns)
        full = ref.ham_full(n, H, m['U'], m['Jx'], m['Jp'], hf=m['hf'], mu=m['mu'], z=m['z'])
        want = ref.block(full, idx)
    act = [k for k in ('U', 'Jx', 'Jp') if m[k] is not None and np.any(m[k])]
    T.nontrivial(len(idx) > 1 and bool(act), 'N' if len(qns) == 1 else 'sz', '+'.join(act) or 'free', 'U absent' if m['U'] is None else 'U given')
    check(r['d'] == len(idx), 'sector dimension', got=r['d'], expected=len(idx))
    st_ = [np.asarray(s, dtype=np.int64) for s in r['states']]
    got_idx = st_[0] if len(st_) == 1 else (st_[0][None, :] | (st_[1][:, None] << n)).ravel()
    check(np.array_equal(got_idx, idx), 'basis order', got=got_idx, expected=idx)
    close(r['dense'], want, 'sector Hamiltonian (dense form) differs from the second-quantised operator', atol=1e-9, rtol=1e-10)
    close(r['matvec'], want, 'sector Hamiltonian applied to unit vectors differs from the second-quantised operator', atol=1e-9, rtol=1e-10)
    check(r['H_kept'] and r['writable'], 'the caller\'s Hamiltonian matrix was changed or left read-only')
    check(r['V_kept'], 'the caller\'s interaction matrices were changed')
    if len(qns) == 1 and np.any(ref.spin(m['H']) != H):
        check(any('hopping' in w.lower() for w in r['warnings']), 'discarding the hopping was not announced', got=r['warnings'])


@P.clause(1000, m=models())
def sector_hamiltonian(T, m):
    decide(T, m)


@P.clause(100, m=models(2))
def all_sectors(T, m):
    n = m['n']
    for a in range(n + 1):
        for b in range(n + 1):
            decide(T, dict(m, qns=[a, b]))
    for N in range(2 * n + 1):
        decide(T, dict(m, qns=[N]))


@P.clause(100, m=models(3, 1, 'N'))
def spectra_agree(T, m):
    """Without hopping both classifications describe the same operator: the spectrum of a charge sector is the union
    of its up/down sectors plus what exchange couples; traces always agree."""
    n, N = m['n'], m['qns'][0]
    H = np.stack([np.diag(np.diag(h)) for h in ref.spin(m['H'])])
    kw = dict(Jx=m['Jx'], Jp=m['Jp'], hf=m['hf'], mu=m['mu'], z=m['z'], asdict=True if m['U'] is None else None)
    a = T.op('mb:ham', H, m['U'], [N], **kw)['dense']
    ev = np.sort(np.linalg.eigvalsh(a))
    parts = [np.linalg.eigvalsh(T.op('mb:ham', H, m['U'], [u, N - u], **kw)['dense']) for u in range(n + 1) if 0 <= N - u <= n]
    T.nontrivial(len(ev) > 1)
    close(ev, np.sort(np.concatenate(parts)), 'the two classifications have different spectra', atol=1e-8)


@P.clause(150, m=models(3, 2, 'sz'))
def spin_rotation(T, m):
    """A spin-independent model is rotationally invariant: every level of the sector with one more spin flipped up
    (nup+1, ndw-1), nup >= ndw, also occurs in the sector (nup, ndw)."""
    n = m['n']
    H = ref.spin(m['H'])[0]
    a, b = sorted(m['qns'], reverse=True)
    if b == 0 or a == n:
        a, b = (n - 1, n - 1) if n > 1 else (a, b)
    kw = dict(Jx=m['Jx'], Jp=m['Jp'], hf=m['hf'], mu=m['mu'], z=m['z'], asdict=True if m['U'] is None else None)
    hi = np.linalg.eigvalsh(T.op('mb:ham', H, m['U'], [a + 1, b - 1], **kw)['dense'])
    lo = np.linalg.eigvalsh(T.op('mb:ham', H, m['U'], [a, b], **kw)['dense'])
    T.nontrivial(m['Jx'] is not None and np.any(m['Jx']), 'Jx' if m['Jx'] is not None else 'no Jx')
    lo = list(lo)
    for e in hi:
        k = int(np.argmin(np.abs(np.array(lo) - e)))
        check(abs(lo[k] - e) < 1e-7, 'a spin multiplet is missing a component', missing=e, sector=(a, b), spectrum=lo)
        lo.pop(k)


@P.clause(80, thorough=3000, c=gen.wide(16, 120) | gen.wide(16, 120, sym="N"))
def many_levels(T, c):
    """Up to 16 levels with few particles or holes."""
    T.label('n>8' if c['n'] > 8 else 'n<=8')
    decide(T, gen.wide_model(c, exch=True))


@P.clause(250, m=models(3, 2), seed=st.integers(0, 2 ** 32 - 1), threads=st.sampled_from([2, 3, 4, 1, 5]),
          burst=st.sampled_from([0., 1., 4., 30.]))
def thread_schedules(T, m, seed, threads, burst):
    """Parallel loops give the sequential result whatever the order in which the threads run."""
    kw = dict(Jx=m['Jx'], Jp=m['Jp'], hf=m['hf'], mu=m['mu'], z=m['z'], asdict=True if m['U'] is None else None)
    a = T.op('mb:ham', m['H'], m['U'], m['qns'], **kw)
    b = T.op('mb:ham_scheduled', m['H'], m['U'], m['qns'], seed, threads, burst, **kw)
    T.nontrivial(b['switches'] > 2 * b['loops'] and b['d'] > 1, 'threads=%d' % threads, 'charge' if len(m['qns']) == 1 else 'sz')
    close(b['dense'], a['dense'], 'the sector Hamiltonian depends on the order in which the threads run', atol=1e-10, rtol=1e-12)
    close(b['matvec'], a['matvec'], 'the product with the sector Hamiltonian depends on the thread schedule', atol=1e-10, rtol=1e-12)
