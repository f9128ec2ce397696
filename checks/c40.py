from collections import Counter
import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen, ref
from checks.c07 import index

P = Prop('C40', native=['psparse'], rule='A case is a molecule with at least one bond, an orbital with at least two non-zero entries or a state that is not a single configuration.',
         assumptions=['matplotlib is replaced by a plot that records lines and circles', "ase's neighbour list is replaced by one listing each pair closer than 1.6 once, with the atom of lower index, and every atom as its own neighbour"])
SEED = st.integers(0, 2 ** 32 - 1)
PLANE = st.sampled_from([None, 'xy', 'yx', 'xz', 'zx', 'yz', 'zy'])


@st.composite
def molecules(draw):
    rng = np.random.default_rng(draw(SEED))
    n = draw(st.integers(1, 9))
    kind = draw(st.sampled_from(['chain', 'cloud', 'shuffled', 'ring']))
    if kind == 'cloud':
        p = rng.uniform(-1.5, 1.5, (n, 3))
    elif kind == 'ring':
        t = 2 * np.pi * np.arange(n) / max(n, 1)
        p = np.stack([np.cos(t), np.sin(t), .1 * t], 1) * (1.4 * n / 6.3)
    else:
        p = np.cumsum(np.concatenate([[[0, 0, 0]], np.array([1.2, 0, 0]) + rng.uniform(-.4, .4, (n - 1, 3))]), 0)
        if kind == 'shuffled':
            p = p[rng.permutation(n)]
    d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    if (abs(d - 1.6) < 1e-6).any():
        p = p * 1.001
    return p.tolist()


def subsets(draw, n):
    k = draw(st.sampled_from(['none', 'index', 'mask', 'slice']))
    if k == 'none':
        return None, list(range(n))
    if k == 'index':
        l = draw(st.permutations(range(n)))[:draw(st.integers(1, n))]
        return ('index', l), l
    if k == 'mask':
        l = [draw(st.booleans()) for _ in range(n)]
        if not any(l):
            l[-1] = True
        return ('index', l), [i for i in range(n) if l[i]]
    s = (draw(st.integers(0, n - 1)), n, draw(st.integers(1, 2)))
    return ('slice', s), list(range(n))[slice(*s)]


@st.composite
def cases(draw):
    p = draw(molecules())
    s, l = subsets(draw, len(p))
    return dict(p=p, subset=s, atoms=l, plane=draw(PLANE), given=draw(st.booleans()), order=draw(st.sampled_from([1, -1])), seed=draw(SEED))


def bonds(p):
    p = np.array(p)
    return [(i, j) for i in range(len(p)) for j in range(i + 1, len(p)) if np.linalg.norm(p[i] - p[j]) < 1.6]


def axis(plane):
    return ['xyz'.index(c) for c in (plane or 'xy')]


def skeleton_of(c, r):
    q = np.array(c['p'])[:, axis(c['plane'])]
    key = lambda a, b: tuple(sorted([tuple(np.round(a, 9) + 0.), tuple(np.round(b, 9) + 0.)]))
    want = Counter(key(q[i], q[j]) for i, j in bonds(c['p']))
    got = Counter()
    for l in r['lines']:
        check(len(l) == 2, 'a bond is a line between two points', got=l)
        got[key(*np.array(l))] += 1
    check(got == want, 'one line between the atoms of every bond', missing=list((want - got).items())[:3], extra=list((got - want).items())[:3])
    check(r['same'], 'the axes given are used and returned, or new ones made once')
    check(not r['moved'], 'the atoms were moved')
    return q


@P.clause(120, c=cases())
def skeleton(T, c):
    """Every bonded pair is one line in the chosen plane."""
    r = T.op('draw:draw', 'skeleton', c['p'], c['plane'], None, c['given'], c['order'])
    T.nontrivial(len(bonds(c['p'])) > 0, 'bonds=%d' % min(len(bonds(c['p'])), 8))
    skeleton_of(c, r)
    check(not r['circles'], 'only bonds')


def by_position(circles, colour):
    return [(np.array(x), rad) for x, rad, col in circles if col == colour and abs(rad) > 1e-12]


def same(got, want, msg):
    check(len(got) == len(want), msg + ': number of circles', got=len(got), want=len(want))
    f = lambda l: sorted((tuple(np.round(x, 9) + 0.), round(float(r), 9)) for x, r in l)
    for a, b in zip(f(got), f(want)):
        check(a[0] == b[0], msg + ': where', got=a, want=b)
        close(a[1], b[1], msg + ': size', atol=1e-8)


@P.clause(160, c=cases(), scale=st.sampled_from([None, .5, 1., 4.]))
def orbital(T, c, scale):
    """An orbital is a circle on every atom of the subset, its size scale |v|^2, its colour the sign."""
    rng = np.random.default_rng(c['seed'])
    v = rng.uniform(-1, 1, len(c['atoms']))
    v[rng.random(len(v)) < .2] = 0.
    r = T.op('draw:draw', 'orbital', c['p'], c['plane'], c['subset'], c['given'], c['order'], v, scale)
    T.nontrivial((v != 0).sum() > 1, 'subset=%s' % (c['subset'] and c['subset'][0]))
    q = skeleton_of(c, r)
    s = 3 if scale is None else scale
    colours = []
    for sign in (1, -1):
        want = [(q[a], s * x ** 2) for a, x in zip(c['atoms'], v) if x * sign > 0]
        cols = {col for xy, rad, col in r['circles'] if abs(rad) > 1e-12 and any(np.allclose(xy, w[0], atol=1e-9) for w in want)}
        if want and len(np.unique(np.round(q, 9), axis=0)) == len(q):
            check(len(cols) == 1, 'one colour for one sign', got=cols)
            colours.append(cols)
    if len(colours) == 2:
        check(colours[0] != colours[1], 'the two signs have different colours', got=colours)
    same([(np.array(x), rad) for x, rad, col in r['circles'] if abs(rad) > 1e-12], [(q[a], s * x ** 2) for a, x in zip(c['atoms'], v) if abs(s * x ** 2) > 1e-12], 'orbital')


@P.clause(120, c=cases(), up=st.integers(0, 4), dw=st.integers(0, 4), form=st.sampled_from(['flat', 'column', 'columns', 'row-order columns']))
def spin_density(T, c, up, dw, form):
    """A state is drawn by the spin-up (black) and spin-down (gray) occupation of every atom."""
    l = c['atoms'][:4]
    n = len(l)
    up, dw = min(up, n), min(dw, n)
    idx = index(n, (up, dw))
    rng = np.random.default_rng(c['seed'])
    v = rng.normal(size=(len(idx), 2))
    v /= np.linalg.norm(v, axis=0)
    arg = {'flat': v[:, 0], 'column': np.asfortranarray(v[:, :1]), 'columns': np.asfortranarray(v), 'row-order columns': v}[form]
    r = T.op('draw:draw', 'density', c['p'], c['plane'], ('index', l), c['given'], c['order'], arg, None, (up, dw), n)
    T.nontrivial(len(idx) > 1, form, 'n=%d' % n)
    q = skeleton_of(c, r)
    w = v[:, 0] ** 2
    occ = np.array([[sum(w[k] for k, i in enumerate(idx) if (i >> (a + s * n)) & 1) for a in range(n)] for s in range(2)])
    for s, colour in enumerate(('black', 'gray')):
        same(by_position(r['circles'], colour), [(q[a], o) for a, o in zip(l, occ[s]) if o > 1e-12], 'occupation of spin %d' % s)


@P.clause(20, p=molecules(), extra=st.integers(1, 3))
def mismatch(T, p, extra):
    """An orbital of another size than the atoms is refused."""
    T.nontrivial(True)
    check(T.op('draw:refused', p, len(p) + extra, None), 'an orbital larger than the molecule was drawn')
