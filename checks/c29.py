import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen
from checks.c28 import model, dmodel, distance, gradient, matsubara, initial, params

P = Prop('C29', native=('fit', 'asan'), rule='A case is a bath with a target; non-trivial when the starting distance is non-zero (fits) or there are at least two levels (evaluations).',
         assumptions=['the sanitizer build uses gcc -O1 on the same sources, with heap blocks of exact size filled with NaN bytes; '
                      'leaks are counted from the allocator instead of by LeakSanitizer, which needs ptrace'])

SEED = st.integers(0, 2 ** 32 - 1)


@P.clause(400, p=params(1, 12), nmats=st.integers(1, 60), beta=st.floats(1, 200), seed=SEED)
def evaluation(T, p, nmats, beta, seed):
    rng = np.random.default_rng(seed)
    z = matsubara(nmats, beta)
    v = rng.normal(size=nmats) - 1j * rng.random(nmats)
    r = T.op('fitc:evaluate', p, v, beta)
    T.nontrivial(len(p) >= 4, 'odd' if len(p) // 2 % 2 else 'even')
    ctx = dict(p=p, beta=beta, nmats=nmats)
    d, dd, g = model(p, z), dmodel(p, z), gradient(p, z, v)
    close(r['delta'], d, 'hybridisation', rtol=1e-10, atol=1e-11 * (1 + np.abs(d).max()), **ctx)
    close(r['ddelta'], dd, 'derivatives', rtol=1e-9, atol=1e-10 * (1 + np.abs(dd).max()), **ctx)
    close(r['chi2'], distance(p, z, v), 'distance', rtol=1e-10, atol=1e-12, **ctx)
    close(r['dchi2'], g, 'gradient of the distance', rtol=1e-9, atol=1e-9 * (1 + np.abs(g).max()), **ctx)
    check(r['leak'] == 0, 'memory is not released', bytes=r['leak'], **ctx)
    check(r['same'] and np.array_equal(r['x'], p), 'arguments were changed', **ctx)
    q = T.op('fit:parts', p, z, v)
    close(r['delta'], q['delta'], 'compiled and interpreted hybridisation', rtol=1e-10, atol=1e-11 * (1 + np.abs(d).max()), **ctx)
    close(r['dchi2'], q['dchi2'], 'compiled and interpreted gradient', rtol=1e-9, atol=1e-9 * (1 + np.abs(g).max()), **ctx)


@P.clause(60, n=st.integers(1, 30))
def initial_bath(T, n):
    r = T.op('fitc:initial', n)
    T.nontrivial(n > 1, 'odd' if n % 2 else 'even')
    check(np.all(np.isfinite(r)), 'initial bath has unset levels', got=r, nbath=n)
    close(r, initial(n), 'compiled initial bath', atol=1e-12, nbath=n)
    q, _ = T.op('fit:bath', n, None, 'nbath')
    close(r, q, 'compiled and interpreted initial bath', atol=1e-12, nbath=n)


@st.composite
def fits(draw, lo=1, hi=12):
    n = draw(gen.nlev(lo, hi))
    return dict(n=n, nmats=draw(st.integers(1, 8) | st.integers(1, 120) | st.integers(200, 300)), beta=draw(st.sampled_from([1., 10., 70., 200.]) | st.floats(1, 200)),
                kind=draw(st.sampled_from(['semicircle', 'bath', 'bath', 'noise', 'near', 'exact', 'zero', 'full', 'full'])),
                start=draw(st.sampled_from(['initial', 'random', 'uncoupled', 'degenerate', 'wide'])), seed=draw(SEED))


@st.composite
def strong(draw):
    """Targets much larger than the start: long fits, some of which use up their iterations."""
    return dict(n=draw(st.integers(7, 14)), nmats=draw(st.sampled_from([3, 8, 30, 30, 60, 120])), beta=draw(st.sampled_from([70., 200.])),
                kind=draw(st.sampled_from(['full', 'full', 'semicircle'])), start=draw(st.sampled_from(['initial', 'random', 'random', 'uncoupled'])),
                scale=draw(st.sampled_from([30., 100., 300., 1000.])), seed=draw(SEED))


def setup(c):
    p, v, z = _setup(c)
    return p, v * c.get('scale', 1.), z


def _setup(c):
    rng = np.random.default_rng(c['seed'])
    n, z = c['n'], matsubara(c['nmats'], c['beta'])
    k = c['kind']
    true = np.concatenate([np.sort(rng.uniform(-3, 3, n)), rng.uniform(.1, 1, n)])
    if k == 'semicircle':
        w = rng.uniform(.5, 3)
        v = w ** 2 / 2 * (z / w - 1j * np.sqrt(1 - (z / w) ** 2))
    elif k == 'bath':
        m = rng.integers(1, 6)
        v = model(np.concatenate([rng.uniform(-3, 3, m), rng.uniform(.1, 1, m)]), z)
    elif k == 'noise':
        v = -1j * rng.random(len(z)) + .3 * rng.normal(size=len(z))
    elif k == 'full':
        v = model(true, z)
    elif k == 'zero':
        v = np.zeros(len(z), complex)
    else:
        v = model(true, z)
    if k == 'near':
        return true + .02 * rng.normal(size=2 * n), v, z
    if k == 'exact':
        return true, v, z
    s = c['start']
    if s == 'initial':
        return initial(n), v, z
    e, h = rng.uniform(-3, 3, n), rng.uniform(-1, 1, n)
    if s == 'uncoupled':
        h[rng.random(n) < .6] = 0
    elif s == 'degenerate':
        e[:] = e[0]
    elif s == 'wide':
        e *= 30
        h *= 5
    return np.concatenate([e, h]), v, z


def judge(T, c, p, v, z, r, what):
    a, b = distance(p, z, v), distance(r['x'], z, v)
    T.nontrivial(a > 1e-12, c['kind'], c['start'], 'improved' if b < a else 'unchanged')
    ctx = dict(start=p, end=r['x'], before=a, after=b, reported=r['fret'], iterations=r['it'], **{k: c[k] for k in ('beta', 'nmats', 'kind')})
    check(np.all(np.isfinite(r['x'])) and np.isfinite(r['fret']), what + ': result is not finite', **ctx)
    check(r['same'], what + ': the target was changed', **ctx)
    check(1 <= r['it'] <= 100000, what + ': iteration count is not set', **ctx)
    close(r['fret'], b, what + ': reported distance', rtol=1e-8, atol=1e-14, **ctx)
    check(b <= a * (1 + 1e-9) + 1e-15, what + ': the fit is worse than its start', **ctx)
    # a stationary start cannot improve; elsewhere the first line search along the gradient must
    g = gradient(p, z, v)
    if np.abs(g).max() > 1e-3 and a > 1e-8:
        check(b < a, what + ': no improvement away from a stationary point', gradient=g, **ctx)
    ge = np.abs(gradient(r['x'], z, v)).max()
    if r['it'] >= 2000:
        T.label('iterations used up')
    T.label('stationary' if ge < 2e-4 else 'stopped')


@P.clause(1500, c=fits(), timeout=200)
def sanitized_fit(T, c):
    p, v, z = setup(c)
    r = T.op('fitc:fit', p, v, c['beta'])
    check(r['leak'] == 0, 'the fit does not release its memory', bytes=r['leak'])
    judge(T, c, p, v, z, r, 'compiled fit')


@P.clause(600, c=fits(), twice=st.booleans(), timeout=200)
def cffi_fit(T, c, twice):
    p, v, z = setup(c)
    if twice:
        T.op('fitc:cffi', initial(c['n'] % 12 + 1), v[:1], c['beta'] + 1)
    r = T.op('fitc:cffi', p, v, c['beta'])
    check(r['guard'], 'memory beside the parameters was written')
    judge(T, c, p, v, z, r, 'cffi fit')


@P.clause(500, c=strong(), route=st.sampled_from(['cffi', 'cffi', 'cffi', 'cffi', 'cffi', 'fit']), timeout=200)
def strong_fit(T, c, route):
    p, v, z = setup(c)
    r = T.op('fitc:' + route, p, v, c['beta'])
    check(r.get('leak', 0) == 0, 'the fit does not release its memory', bytes=r.get('leak'))
    judge(T, c, p, v, z, r, 'fit of a strong hybridisation (%s)' % route)


@P.clause(120, c=fits(), dirty=st.sampled_from([float('nan'), 1e300, 7.5, 0.]), timeout=200)
def ctypes_fit(T, c, dirty):
    p, v, z = setup(c)
    p = initial(c['n'])
    r = T.op('fitc:wrapped', c['n'], c['nmats'], v, c['beta'], dirty)
    a, x = distance(p, z, v), r['x']
    T.nontrivial(a > 1e-12, c['kind'])
    check(x.shape == (2 * c['n'],) and np.all(np.isfinite(x)), 'ctypes fit: result is not finite', got=x)
    check(r['same'], 'ctypes fit: the target was changed')
    b = distance(x, z, v)
    ctx = dict(end=x, before=a, after=b, beta=c['beta'], nmats=c['nmats'], kind=c['kind'])
    check(b <= a * (1 + 1e-9) + 1e-15, 'ctypes fit is worse than the initial bath', **ctx)
    if np.abs(gradient(p, z, v)).max() > 1e-3 and a > 1e-8:
        check(b < a, 'ctypes fit does not improve on the initial bath', **ctx)


@P.clause(40, n=st.integers(1, 4), seed=SEED, kind=st.sampled_from(['near', 'bath', 'semicircle']))
def interpreted_agreement(T, n, seed, kind):
    """Compiled and interpreted fits of the same target from the same start end at comparable distances when both end stationary."""
    c = dict(n=n, nmats=30, beta=20., kind=kind, start='initial', seed=seed)
    p, v, z = setup(c)
    x = T.op('fitc:cffi', p, v, c['beta'])
    y = T.op('fit:minimise', p, c['nmats'], v, c['beta'])
    T.nontrivial(True, kind)
    a, b, d = distance(x['x'], z, v), distance(y['p'], z, v), distance(p, z, v)
    check(a <= d + 1e-15 and b <= d + 1e-15, 'a fit is worse than its start', compiled=a, interpreted=b, start=d)
    if kind == 'near':
        check(max(a, b) < 1e-4, 'near start not recovered', compiled=a, interpreted=b)


@P.clause(24, seed=SEED, route=st.sampled_from(['fit', 'cffi']), size=st.integers(40, 60))
def recovery(T, seed, route, size):
    """Most fits started in the neighbourhood of a bath that represents the target end next to a stationary point, far below the start."""
    rng = np.random.default_rng(seed)
    ratio, slope = [], []
    for _ in range(size):
        n = rng.integers(1, 5)
        beta = float(rng.uniform(1, 20))
        z = matsubara(rng.integers(4 * n, 40), beta)
        true = np.concatenate([np.sort(rng.uniform(-2, 2, n)), rng.uniform(.2, 1, n)])
        p, v = true + .2 * rng.normal(size=2 * n), model(true, z)
        x = T.op('fitc:' + route, p, v, beta)['x']
        ratio.append(distance(x, z, v) / distance(p, z, v))
        slope.append(np.abs(gradient(x, z, v)).max())
    T.nontrivial(True, route)
    check(np.median(ratio) < 1e-3, 'fits started near a representable hybridisation do not recover it', ratios=sorted(ratio))
    check(np.median(slope) < 3e-4, 'fits end away from stationary points', gradients=sorted(slope))
