from hypothesis import strategies as st
from vf.core import Prop, check

P = Prop('C03', native=['psparse'],
         rule='A case is an occupation pattern on n levels with a pair of levels; non-trivial when the pattern holds at '
              'least two particles or the two levels differ.',
         assumptions=['numba is replaced by a pure-Python stand-in that applies the declared scalar types'])


def combine(x, y):
    """Sum of two (sign, state) results (None = 0)."""
    d = {}
    for r in (x, y):
        if r is not None:
            d[r[1]] = d.get(r[1], 0) + r[0]
    return {k: v for k, v in d.items() if v}


def relations(T, n, s, pairs):
    ch, hp = [], []
    for i, j in pairs:
        ch += [[('cdg', j), ('c', i)], [('c', i), ('cdg', j)],      # c_i c+_j , c+_j c_i
               [('c', j), ('c', i)], [('c', i), ('c', j)],
               [('cdg', j), ('cdg', i)], [('cdg', i), ('cdg', j)],
               [('c', i)], [('cdg', i)], [('c', j), ('cdg', i)]]
        occ_j, occ_i = (s >> j) & 1, (s >> i) & 1
        hp.append((i, j) if occ_j and (i == j or not occ_i) else None)
    r, hops, bits = T.op('basic:chains', n, s, ch, [h for h in hp if h])
    hops = iter(hops)
    for q, (i, j) in enumerate(pairs):
        a = r[9 * q:9 * q + 9]
        ctx = dict(n=n, s=bin(s), i=i, j=j)
        check(combine(a[0], a[1]) == ({s: 1} if i == j else {}), '{c_i, c+_j} is not delta_ij', got=a[:2], **ctx)
        check(combine(a[2], a[3]) == {}, '{c_i, c_j} is not 0', got=a[2:4], **ctx)
        check(combine(a[4], a[5]) == {}, '{c+_i, c+_j} is not 0', got=a[4:6], **ctx)
        oi = (s >> i) & 1
        check((a[6] is None) == (not oi), 'annihilating on an empty level must be refused, and only then', got=a[6], **ctx)
        check((a[7] is None) == bool(oi), 'creating on an occupied level must be refused, and only then', got=a[7], **ctx)
        for one in (a[6], a[7]):
            if one is not None:
                check(one[0] in (1, -1) and one[1] == s ^ (1 << i), 'wrong state or sign magnitude', got=one, **ctx)
        if hp[q]:
            h = tuple(next(hops))
            check(a[8] is not None and h == tuple(a[8]), 'hop operator differs from annihilation then creation', got=h,
                  expected=a[8], **ctx)
    for k in range(n):
        b = (s >> k) & 1
        f, e, no, nd, fl = bits[k]
        check((f, bool(e), no, bool(nd)) == (b, not b, b, not b), 'occupation test', n=n, s=bin(s), level=k, got=bits[k])
        check(fl == s ^ (1 << k), 'flip', n=n, s=bin(s), level=k, got=fl)


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 32), st.sampled_from([31, 32])))
    s = draw(st.one_of(st.integers(0, 2 ** n - 1),
                       st.sets(st.integers(0, n - 1), max_size=n).map(lambda q: sum(1 << k for k in q))))
    pairs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=1, max_size=8))
    return [n, s, [list(p) for p in pairs]]


@P.clause(1500, case=cases())
def algebra(T, case):
    n, s, pairs = case
    T.nontrivial(bin(s).count('1') > 1 or any(i != j for i, j in pairs), 'n>16' if n > 16 else 'n<=16',
                 'bit31' if s >> 31 else 'low')
    relations(T, n, s, [tuple(p) for p in pairs])


@P.clause(250, n=st.integers(2, 7), s=st.integers(0, 127))
def all_pairs(T, n, s):
    """Every ordered pair of levels of a small pattern."""
    s %= 1 << n
    T.nontrivial(True, 'n=%d' % n)
    relations(T, n, s, [(i, j) for i in range(n) for j in range(n)])


@P.clause(200, n=st.integers(2, 12), s=st.integers(0, 4095), order=st.permutations(list(range(12))))
def strings(T, n, s, order):
    """Emptying a pattern and refilling it in the same reversed order returns it with sign +1; refilling in another order
    gives the parity of the permutation."""
    s %= 1 << n
    occ = [k for k in range(n) if (s >> k) & 1]
    out = [k for k in order if k in occ]
    T.nontrivial(len(occ) > 1, '%d particles' % len(occ))
    r, _, _ = T.op('basic:chains', n, s, [[('c', k) for k in out] + [('cdg', k) for k in reversed(out)],
                                          [('c', k) for k in out] + [('cdg', k) for k in reversed(occ)]], [])
    inv = sum(out[a] > out[b] for a in range(len(out)) for b in range(a + 1, len(out)))
    check(r[0] is not None and tuple(r[0]) == (1, s), 'undoing the operators does not return the state', s=bin(s), order=out, got=r[0])
    check(r[1] is not None and tuple(r[1]) == (1 - 2 * (inv & 1), s), 'exchange sign', s=bin(s), order=out, got=r[1])
