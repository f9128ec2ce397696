import re
from collections import Counter
from math import comb
import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen, ref
from checks.c07 import models

P = Prop('C36', native=['psparse'], rule='A case is a list of patterns or an eigenspace to print; non-trivial with at least two states.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in', 'matplotlib is replaced by a recording plot'])

SEED = st.integers(0, 2 ** 32 - 1)
UP, DW = '\u2191', '\u2193'


def parse(text, n):
    """'|a,b,..>' -> (up pattern, down pattern)"""
    check(text[:1] == '|' and text[-1:] == '>', 'form of a printed state', got=text)
    parts = text[1:-1].split(',')
    check(len(parts) == n, 'number of levels in a printed state', got=text, n=n)
    u = d = 0
    for i, p in enumerate(parts):
        check(p in ('o', '0', UP, DW, UP + DW, DW + UP), 'level of a printed state', got=p, state=text)
        u |= (UP in p) << i
        d |= (DW in p) << i
    return u, d


@P.clause(400, n=st.integers(1, 8), seed=SEED, all_=st.booleans(), kind=st.sampled_from(['int', 'u4', 'i8']))
def state_text(T, n, seed, all_, kind):
    rng = np.random.default_rng(seed)
    if all_ and n <= 3:
        pairs = [(u, d) for u in range(1 << n) for d in range(1 << n)]
    else:
        pairs = [(int(rng.integers(1 << n)), int(rng.integers(1 << n))) for _ in range(20)]
    T.nontrivial(n > 1, kind, 'n=%d' % n)
    out = T.op('show:fock', n, pairs, kind)
    for p, t in zip(pairs, out):
        check(parse(t, n) == p, 'printed occupations', state=p, text=t, n=n)
    check(len(set(out)) == len(set(pairs)), 'different states print alike')


@P.clause(150, n=st.integers(9, 31), seed=SEED, kind=st.sampled_from(['int', 'u4', 'i8']))
def wide_states(T, n, seed, kind):
    rng = np.random.default_rng(seed)
    pairs = [(int(rng.integers(1 << n)), int(rng.integers(1 << n))) for _ in range(6)] + [((1 << n) - 1, 0), (0, (1 << n) - 1)]
    T.nontrivial(True, kind)
    for p, t in zip(pairs, T.op('show:fock', n, pairs, kind)):
        check(parse(t, n) == p, 'printed occupations', state=p, text=t, n=n)


HEAD = re.compile(r'^\(?([\d, ]+)\)?: *(\S+)$')
TERM = re.compile(r'([^|]*)(\|[^>]*>)')


def listing(T, text, rows, n):
    want = []
    for key, e, v, d, states in rows:
        if len(key) == 2:
            basis = [(u, w) for w in ref.states(n, key[1]) for u in ref.states(n, key[0])]
        else:
            m = (1 << n) - 1
            basis = [(s & m, s >> n) for s in ref.states(2 * n, key[0])]
        v = np.asarray(v)
        for j, x in enumerate(np.asarray(e)):
            want.append((tuple(key), float(x), {b: round(float(c), 3) + 0. for b, c in zip(basis, v[:, j])}))
    blocks = [b for b in text.split('\n\n') if b.strip()]
    check(len(blocks) == len(want), 'number of printed states', got=len(blocks), expected=len(want), text=text[:500])
    got, last = [], -np.inf
    for b in blocks:
        head, body = b.strip('\n').split('\n')[:2]
        h = HEAD.match(head.strip())
        check(h is not None, 'heading of a printed state', got=head)
        key = tuple(int(x) for x in h.group(1).split(',') if x.strip())
        e = float(h.group(2))
        check(e >= last - 1e-9 * (1 + abs(e)), 'states are not sorted by energy', energy=e, previous=last)
        last = e
        coef = {}
        for c, s in TERM.findall(body):
            c = c.replace('+ ', '').strip()
            k = parse(s, n)
            check(k not in coef, 'a basis state is printed twice', text=body)
            coef[k] = float(c)
        got.append((key, e, coef))
    left = list(want)
    for key, e, coef in got:
        for w in left:
            if w[0] == key and abs(w[1] - e) <= 1e-3 * abs(w[1]) + 1e-12 and w[2].keys() == coef.keys() and all(abs(coef[k] - w[2][k]) < 2e-3 for k in coef):
                left.remove(w)
                break
        else:
            check(False, 'a printed state is not one of the space', key=key, energy=e, coefficients={str(k): v for k, v in coef.items()}, remaining=[(w[0], w[1], {str(k): v for k, v in w[2].items()}) for w in left][:3])
    T.nontrivial(len(want) > 1)


@st.composite
def big_spaces(draw):
    """Many printed states, or levels up to the last bit of a state."""
    rng = np.random.default_rng(draw(SEED))
    wide = draw(st.booleans())
    sym = draw(st.sampled_from(['sz', 'N']))
    if wide:
        n = draw(st.integers(5, 16))
        keys = [(0, 1), (1, 0), (n, n - 1), (n - 1, n), (0, 0), (n, n)] if sym == 'sz' else [(1,), (2 * n - 1,), (0,), (2 * n,)]
    else:
        n = 4
        keys = [(a, b) for a in range(n + 1) for b in range(n + 1)] if sym == 'sz' else [(N,) for N in range(2 * n + 1)]
    items = []
    for i in rng.permutation(len(keys))[:2 if wide else len(keys)]:
        q = keys[i]
        d = comb(n, q[0]) * comb(n, q[1]) if len(q) == 2 else comb(2 * n, q[0])
        m = int(rng.integers(1, min(d, 16) + 1))
        e = np.round(rng.uniform(-3, 3, m), 4)
        v = np.linalg.qr(rng.normal(size=(d, d)))[0][:, :m]
        items.append([list(q), np.sort(e).tolist(), v.tolist(), str(rng.choice(['C', 'F']))])
    return n, items


@P.clause(30, s=big_spaces())
def large_space(T, s):
    n, items = s
    text, rows, kept = T.op('show:synthetic', n, items)
    T.label('sz' if len(items[0][0]) == 2 else 'N')
    T.label('states=%d+' % (50 * (sum(len(i[1]) for i in items) // 50)))
    listing(T, text, rows, n)
    check(kept, 'printing changed the eigenspace')


@st.composite
def spaces(draw, nmax=3):
    n = draw(gen.nlev(1, nmax))
    rng = np.random.default_rng(draw(SEED))
    sym = draw(st.sampled_from(['sz', 'N']))
    keys = [(a, b) for a in range(n + 1) for b in range(n + 1)] if sym == 'sz' else [(N,) for N in range(2 * n + 1)]
    k = draw(st.integers(1, min(len(keys), 6)))
    items = []
    for i in rng.permutation(len(keys))[:k]:
        q = keys[i]
        d = comb(n, q[0]) * comb(n, q[1]) if len(q) == 2 else comb(2 * n, q[0])
        m = int(rng.integers(1, min(d, 4) + 1))
        e = np.sort(np.round(rng.uniform(-3, 3, m), draw(st.sampled_from([1, 2, 6]))))
        v = np.linalg.qr(rng.normal(size=(d, d)))[0][:, :m] * (1 if rng.random() < .7 else 10.)
        if rng.random() < .3:
            v = np.eye(d)[:, :m] * rng.choice([-1, 1], m)
        items.append([list(q), e.tolist(), v.tolist(), str(rng.choice(['C', 'F']))])
    return n, items


@P.clause(300, s=spaces())
def printed_space(T, s):
    n, items = s
    text, rows, kept = T.op('show:synthetic', n, items)
    T.label('sz' if len(items[0][0]) == 2 else 'N')
    listing(T, text, rows, n)
    check(kept, 'printing changed the eigenspace')


@P.clause(120, m=models(3), sym=st.sampled_from(['sz', 'N']))
def solved_space(T, m, sym):
    if sym == 'N':
        m = dict(m, Jx=None, Jp=None)
    text, rows = T.op('show:solved', m, sym)
    T.label(sym)
    check(sum(len(np.asarray(r[1])) for r in rows) == 4 ** m['n'], 'size of the space')
    listing(T, text, rows, m['n'])


@P.clause(200, s=spaces(), own=st.booleans())
def charge_diagram(T, s, own):
    n, items = s
    lines, other = T.op('show:diagram', n, items, own)
    want = sorted((sum(k), x) for k, e, v, o in items for x in e)
    got = []
    for y, a, b in lines:
        check(len(y) == len(a) == len(b), 'lengths of the drawn levels', got=(len(y), len(a), len(b)))
        got += [((p + q) / 2, x, q - p) for x, p, q in zip(y, a, b)]
    T.nontrivial(len(want) > 1, 'own axes' if own else 'current axes')
    check(len(got) == len(want), 'number of levels drawn', got=len(got), expected=len(want))
    got.sort(key=lambda t: (round(t[0]), t[1]))
    close([g[0] for g in got], [w[0] for w in want], 'charge of the levels drawn', atol=1e-9)
    close([g[1] for g in got], [w[1] for w in want], 'energy of the levels drawn', atol=1e-12)
    check(all(0 < g[2] < 1 for g in got), 'width of the levels drawn')
    check(not other, 'drawn on other axes than asked for')
