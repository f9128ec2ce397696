import numpy as np
from math import comb
from hypothesis import strategies as st
from vf.core import Prop, check
from vf import ref

P = Prop('C01', native=['psparse'],
         rule='A case is (number of levels, particle number) plus look-up probes; non-trivial when the basis holds '
              'more than one state.',
         assumptions=['numba is replaced by a pure-Python stand-in that applies the declared scalar types'])


@st.composite
def np_(draw, nmax):
    n = draw(st.integers(1, nmax))
    return [n, draw(st.integers(0, n))]


@st.composite
def large_np(draw):
    # up to 32 levels, with few particles or few holes so that the basis stays small
    n = draw(st.integers(11, 32))
    k = draw(st.integers(0, 3 if n > 22 else 4))
    return [n, draw(st.sampled_from([k, n - k]))]


def expected(n, p):
    from itertools import combinations
    return np.array(sorted(sum(1 << i for i in c) for c in combinations(range(n), p)), dtype=np.int64)


def basis(T, n, p):
    s = np.asarray(T.call('edpyt.sector:generate_states', n, p))
    check(s.ndim == 1, 'basis is not a list of states', n=n, p=p, shape=s.shape)
    return s.astype(np.int64)


@P.clause(700, case=st.one_of(np_(12), large_np()))
def enumeration(T, case):
    n, p = case
    s = basis(T, n, p)
    e = expected(n, p)
    T.nontrivial(len(e) > 1, 'n>10' if n > 10 else 'n<=10', 'empty/full' if p in (0, n) else 'partial')
    check(len(s) == comb(n, p), 'wrong number of basis states', n=n, p=p, got=len(s), expected=comb(n, p))
    check(np.array_equal(s, e), 'basis is not the increasing list of the states with p particles', n=n, p=p,
          got=s[:20], expected=e[:20])


@P.clause(500, case=st.one_of(np_(9), large_np()), probes=st.lists(st.integers(0, 2 ** 31 - 1), max_size=6),
          picks=st.lists(st.floats(0, 1), min_size=1, max_size=8))
def lookup(T, case, probes, picks):
    n, p = case
    e = expected(n, p)
    pos = sorted(set([min(int(f * len(e)), len(e) - 1) for f in picks] + [0, len(e) - 1]))
    miss = set(x % (1 << n) for x in probes) | {int(e[i]) + d for i in pos for d in (-1, 1)} | {0, (1 << n) - 1}
    miss = sorted(x for x in miss if 0 <= x < 2 ** 32 and x not in set(e.tolist()))
    r = T.op('basic:lookup', n, p, [int(e[i]) for i in pos], miss)
    T.nontrivial(len(e) > 1, 'absent probes' if miss else 'no absent probes')
    check(list(r[0]) == pos, 'look-up of a basis state does not return its position', n=n, p=p,
          states=[int(e[i]) for i in pos], got=r[0], expected=pos)
    check(all(x == -1 for x in r[1]), 'a state outside the basis is reported as found', n=n, p=p, probes=miss, got=r[1])


@P.clause(24, n=st.integers(14, 20), shift=st.integers(-3, 3), picks=st.lists(st.floats(0, 1), min_size=1, max_size=20))
def large_basis(T, n, shift, picks):
    """Bases of many thousand states: enumeration and look-up over the whole range of positions."""
    p = n // 2 + shift
    a = np.arange(1 << n, dtype=np.int64)
    c = sum((a >> i) & 1 for i in range(n))
    e = a[c == p]
    s = basis(T, n, p)
    T.nontrivial(len(e) > 2000, 'more than 65536 states' if len(e) > 65536 else 'fewer')
    check(np.array_equal(s, e), 'basis is not the increasing list of the states with p particles', n=n, p=p, size=len(s), expected=len(e))
    check(T.call('edpyt.sector:get_sector_dim', n, p, 0) == len(e), 'sector size', n=n, p=p)
    pos = sorted(set([min(int(f * len(e)), len(e) - 1) for f in picks] + [0, len(e) // 2, len(e) - 1]))
    miss = [int(e[i]) ^ 1 for i in pos] + [0, (1 << n) - 1]
    r = T.op('basic:lookup', n, p, [int(e[i]) for i in pos], miss)
    check(list(r[0]) == pos, 'look-up of a basis state does not return its position', n=n, p=p, states=[int(e[i]) for i in pos], got=r[0], expected=pos)
    check(all(x == -1 for x in r[1]), 'a state outside the basis is reported as found', n=n, p=p, probes=miss, got=r[1])


@P.clause(60, n=st.integers(1, 6))
def partition(T, n):
    """Every state of the whole space sits in exactly one sector."""
    T.nontrivial(n > 1, 'n=%d' % n)
    seen = np.concatenate([basis(T, n, p) for p in range(n + 1)])
    check(np.array_equal(np.sort(seen), np.arange(2 ** n)), 'sectors do not partition the space', n=n)
    tot = 0
    for a in range(n + 1):
        for b in range(n + 1):
            d = T.call('edpyt.sector:get_sector_dim', n, a, b)
            check(d == ref.dim(n, a, b), 'sector size', n=n, nup=a, ndw=b, got=d, expected=ref.dim(n, a, b))
            tot += d
    check(tot == 4 ** n, 'sector sizes do not add up', n=n, got=tot, expected=4 ** n)


@P.clause(600, n=st.integers(1, 32), fa=st.floats(0, 1), fb=st.floats(0, 1))
def dimension(T, n, fa, fb):
    a, b = min(int(fa * (n + 1)), n), min(int(fb * (n + 1)), n)
    T.nontrivial(ref.dim(n, a, b) > 1, 'n>20' if n > 20 else 'n<=20')
    d = T.call('edpyt.sector:get_sector_dim', n, a, b)
    check(d == ref.dim(n, a, b), 'sector size', n=n, nup=a, ndw=b, got=d, expected=ref.dim(n, a, b))


@P.clause(60, n=st.integers(1, 4), q=st.tuples(st.floats(0, 1), st.floats(0, 1)), sym=st.sampled_from(['sz', 'N']))
def empty_sector(T, n, q, sym):
    """The sector object offered to the solvers carries the same basis and size."""
    if sym == 'sz':
        a, b = [min(int(f * (n + 1)), n) for f in q]
        r = T.op('basic:empty_sector', n, [a, b])
        T.nontrivial(ref.dim(n, a, b) > 1, 'sz')
        check(r['d'] == ref.dim(n, a, b), 'sector dimension', got=r['d'], n=n, nup=a, ndw=b)
        check([list(map(int, x)) for x in r['states']] == [expected(n, a).tolist(), expected(n, b).tolist()],
              'sector states', n=n, nup=a, ndw=b, got=r['states'])
    else:
        N = min(int(q[0] * (2 * n + 1)), 2 * n)
        r = T.op('basic:empty_sector', n, [N])
        T.nontrivial(comb(2 * n, N) > 1, 'N')
        check(r['d'] == comb(2 * n, N), 'sector dimension', got=r['d'], n=n, N=N)
        check([list(map(int, x)) for x in r['states']] == [expected(2 * n, N).tolist()], 'sector states', n=n, N=N)
