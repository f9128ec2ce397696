import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen

P = Prop('C04', native=['psparse'],
         rule='A case is one model and one sector; non-trivial when the sector has more than one state and the model has '
              'hopping or interaction.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in', 'hopping matrices are symmetric',
                      'off-diagonal amplitudes below 1e-7 are negligible by design'])


@st.composite
def models(draw, nmax=4, nmin=1):
    n = draw(gen.nlev(nmin, nmax))
    H = draw(gen.hops(n, near=True))
    U = draw(gen.interaction(n))
    hf = draw(st.booleans())
    mu = draw(st.sampled_from([0., 0., None]))
    if mu is None:
        mu = draw(gen.num(-2, 2))
    z = draw(st.one_of(st.none(), st.just('v')))
    if z is not None:
        z = draw(gen.vec(n, 0, 2))
    qns = [draw(gen.filling(n)), draw(gen.filling(n))]
    return dict(n=n, H=H, U=U, hf=hf, mu=mu, z=z, qns=qns)


def decide(T, m, asdict=None):
    n, qns = m['n'], m['qns']
    r = T.op('mb:ham', m['H'], m['U'], qns, hf=m['hf'], mu=m['mu'], z=m['z'], asdict=asdict)
    if n > 5:
        idx = ref.wide_sector(n, *qns)
        want = ref.sector_matrix(n, idx, m['H'], m['U'], hf=m['hf'], mu=m['mu'], z=m['z'])
    else:
        full = ref.ham_full(n, m['H'], m['U'], hf=m['hf'], mu=m['mu'], z=m['z'])
        idx = ref.sector(n, *qns)
        want = ref.block(full, idx)
    off = np.count_nonzero(want - np.diag(np.diag(want)))
    T.nontrivial(len(idx) > 1 and np.any(want), 'hf' if m['hf'] else 'plain', 'off-diagonal' if off else 'diagonal',
                 'spin-dependent H' if np.ndim(m['H']) == 3 else 'shared H', 'z given' if m['z'] is not None else 'z default',
                 'd=%s' % ('1' if len(idx) == 1 else '2-9' if len(idx) < 10 else '10+'))
    check(r['d'] == len(idx), 'sector dimension', got=r['d'], expected=len(idx))
    st_up, st_dw = r['states']
    got_idx = (np.asarray(st_up, dtype=np.int64)[None, :] | (np.asarray(st_dw, dtype=np.int64)[:, None] << n)).ravel()
    check(np.array_equal(got_idx, idx), 'basis order', got=got_idx, expected=idx)
    close(r['dense'], want, 'sector Hamiltonian (dense form) differs from the second-quantised operator', atol=1e-9, rtol=1e-10)
    close(r['matvec'], want, 'sector Hamiltonian applied to unit vectors differs from the second-quantised operator', atol=1e-9, rtol=1e-10)
    check(np.array_equal(r['dense'], np.asarray(r['dense']).T), 'not symmetric')
    check(r['H_kept'] and r['writable'], 'the caller\'s Hamiltonian matrix was changed or left read-only', kept=r['H_kept'],
          writable=r['writable'])


@P.clause(1200, m=models(), asdict=st.booleans())
def sector_hamiltonian(T, m, asdict):
    decide(T, m, asdict)


@P.clause(60, thorough=3000, m=models(5, 5))
def larger(T, m):
    decide(T, m)


@P.clause(120, m=models(3))
def all_sectors(T, m):
    """Every sector of one model."""
    for a in range(m['n'] + 1):
        for b in range(m['n'] + 1):
            decide(T, dict(m, qns=[a, b]))


@P.clause(150, m=models(3, 2), perm=st.permutations([0, 1, 2]))
def relabelling(T, m, perm):
    """Renaming levels leaves the spectrum of the sector unchanged; swapping spins swaps sectors."""
    n = m['n']
    p = [x for x in perm if x < n]
    T.nontrivial(p != sorted(p) or np.ndim(m['H']) == 3)
    H = np.array(m['H'])
    Hp = H[..., p, :][..., :, p]
    Up = np.array(m['U'])[p][:, p]
    zp = None if m['z'] is None else np.array(m['z'])[p]
    a = T.op('mb:ham', m['H'], m['U'], m['qns'], hf=m['hf'], mu=m['mu'], z=m['z'])['dense']
    b = T.op('mb:ham', Hp, Up, m['qns'], hf=m['hf'], mu=m['mu'], z=zp)['dense']
    close(np.linalg.eigvalsh(b), np.linalg.eigvalsh(a), 'spectrum depends on the level numbering', atol=1e-8)
    Hs = H[::-1] if H.ndim == 3 else H
    c = T.op('mb:ham', Hs, m['U'], m['qns'][::-1], hf=m['hf'], mu=m['mu'], z=m['z'])['dense']
    close(np.linalg.eigvalsh(c), np.linalg.eigvalsh(a), 'spectrum changes when the two spins are exchanged', atol=1e-8)


@P.clause(100, c=gen.wide())
def many_levels(T, c):
    """Up to 24 levels with few particles or holes."""
    T.label('n>16' if c['n'] > 16 else 'n>8' if c['n'] > 8 else 'n<=8')
    decide(T, gen.wide_model(c))


@P.clause(300, m=models(4, 2), asdict=st.booleans(), seed=st.integers(0, 2 ** 32 - 1), threads=st.sampled_from([2, 3, 4, 1, 5]),
          burst=st.sampled_from([0., 1., 4., 30.]))
def thread_schedules(T, m, asdict, seed, threads, burst):
    """The parallel loops give the sequential result whatever the order in which the threads run."""
    qns = m['qns']
    kw = dict(hf=m['hf'], mu=m['mu'], z=m['z'], asdict=asdict)
    a = T.op('mb:ham', m['H'], m['U'], qns, **kw)
    b = T.op('mb:ham_scheduled', m['H'], m['U'], qns, seed, threads, burst, **kw)
    T.nontrivial(b['switches'] > 2 * b['loops'] and b['d'] > 1, 'threads=%d' % threads, 'several threads' if threads > 1 else 'one thread',
                 'parallel loops run' if b['loops'] else 'no parallel loop')
    close(b['dense'], a['dense'], 'the sector Hamiltonian depends on the order in which the threads run', atol=1e-10, rtol=1e-12,
          switches=b['switches'])
    close(b['matvec'], a['matvec'], 'the product with the sector Hamiltonian depends on the thread schedule', atol=1e-10, rtol=1e-12)
