from math import comb
from hypothesis import strategies as st
from vf.core import Prop, check

P = Prop('C02', native=['psparse'],
         rule='A case is one sector (or pattern) with probe indices; non-trivial when the sector has more than one '
              'state, or the pattern is neither empty nor full.',
         assumptions=['numba is replaced by a pure-Python stand-in that applies the declared scalar types'])


@st.composite
def sectors(draw, nmax=16, lim=20000):
    n = draw(st.integers(1, nmax))
    a = draw(st.integers(0, n))
    b = draw(st.integers(0, n))
    while comb(n, a) > lim:
        a -= 1
    while comb(n, b) > lim:
        b -= 1
    return [n, a, b]


@P.clause(800, s=sectors(), probes=st.lists(st.floats(0, 0.999999), min_size=1, max_size=12))
def index_maps(T, s, probes):
    n, a, b = s
    r = T.op('basic:indices', n, a, b, probes + [0.])
    T.nontrivial(comb(n, a) * comb(n, b) > 1, 'a!=b' if a != b else 'a==b')
    check(r['isct'] == a * (n + 1) + b, 'sector number', n=n, nup=a, ndw=b, got=r['isct'])
    check(r['back'] == [a, b], 'sector number does not convert back', n=n, nup=a, ndw=b, got=r['back'])
    dup, dwn = comb(n, a), comb(n, b)
    for i, u, d, j in r['idx']:
        check(j == i, 'index pair does not convert back', i=i, iup=u, idw=d, got=j, dup=dup)
        check(0 <= u < dup and 0 <= d < dwn and u + dup * d == i, 'index pair', i=i, iup=u, idw=d, dup=dup, dwn=dwn)


@P.clause(60, n=st.integers(1, 6))
def sector_numbers(T, n):
    """All sector numbers are distinct and cover 0..(n+1)^2-1."""
    T.nontrivial(n > 1)
    got = []
    for a in range(n + 1):
        for b in range(n + 1):
            i = int(T.call('edpyt.lookup:get_sector_index', n, a, b))
            got.append(i)
            check(tuple(int(x) for x in T.call('edpyt.lookup:get_num_spins', i, n)) == (a, b), 'sector number round trip',
                  n=n, nup=a, ndw=b)
    check(sorted(got) == list(range((n + 1) ** 2)), 'sector numbers are not a bijection', n=n, got=got)


@st.composite
def patterns(draw):
    n = draw(st.one_of(st.integers(1, 32), st.sampled_from([31, 32])))
    return [draw(st.integers(0, 2 ** n - 1)), n]


@P.clause(800, p=patterns())
def pattern_text(T, p):
    s, n = p
    r = T.op('basic:bin_round', s, n)
    want = [(s >> k) & 1 for k in range(n)]
    T.nontrivial(0 < s < 2 ** n - 1 and want != want[::-1], 'n>16' if n > 16 else 'n<=16')
    check(r['arr'] == want and r['arr2'] == want, 'digits do not start at level 0', s=s, n=n, got=r['arr'], expected=want)
    check(r['txt'] == ''.join(map(str, want)) and r['txt2'] == r['txt'], 'text does not start at level 0', s=s, n=n, got=r['txt'])
    check(r['iarr'] == s and r['ilist'] == s, 'digits do not convert back', s=s, n=n, got=r['iarr'])
    check(r['itxt'] == s, 'text does not convert back', s=s, n=n, got=r['itxt'])
    check(r['bad'], 'an unknown format is accepted', s=s, n=n)


@P.clause(500, s=sectors(32, 10 ** 10), ispin=st.sampled_from([0, 1, 0, 1, 2, -1, 3]))
def neighbours(T, s, ispin):
    n, a, b = s
    add, rem = T.op('basic:neighbours', n, a, b, ispin)
    T.nontrivial(a != b or a in (0, n), 'spin %d' % ispin, 'border' if {a, b} & {0, n} else 'inner')
    if ispin not in (0, 1):
        check(add == 'usage' and rem == 'usage', 'unknown spin accepted', ispin=ispin, got=(add, rem))
        return
    d = (1 - ispin, ispin)
    up = (a + d[0], b + d[1])
    dn = (a - d[0], b - d[1])
    check(add == (up if max(up) <= n else 'out'), 'sector after adding a particle', n=n, nup=a, ndw=b, ispin=ispin, got=add)
    check(rem == (dn if min(dn) >= 0 else 'out'), 'sector after removing a particle', n=n, nup=a, ndw=b, ispin=ispin, got=rem)


@P.clause(300, n=st.integers(1, 14), clip=st.one_of(st.none(), st.integers(1, 5000)),
          sym=st.sampled_from(['sz', 'N', 'sz', 'N', 'Sz', 'n', 'other']))
def eigenstate_table(T, n, clip, sym):
    r = T.op('basic:espace_dim', n, clip, sym)
    if sym == 'other':
        check(r == 'unsupported', 'unknown symmetry accepted', got=r)
        return
    T.nontrivial(n > 1, sym.lower(), 'clip' if clip else 'full')
    if sym.lower() == 'sz':
        want = [comb(n, a) * comb(n, b) for a in range(n + 1) for b in range(n + 1)]
    else:
        want = [comb(2 * n, k) for k in range(2 * n + 1)]
    if clip:
        want = [min(w, clip) for w in want]
    check(r == want, 'table of eigenstates per sector', n=n, clip=clip, sym=sym, got=r, expected=want)
