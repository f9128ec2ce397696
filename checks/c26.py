import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen

P = Prop('C26', rule='A case is a density with a random stream, or a sequence of pole sets; non-trivial when at least three distinct poles '
                     'are sampled or fitted.',
         assumptions=['the pole fit is compared with the exact bath up to the tolerance of the root finder'])


def weight(d, x):
    k, a = d[0], d[1:]
    return {'lorentz': lambda: 1 / ((x - a[1]) ** 2 + (.5 * a[0]) ** 2), 'gauss': lambda: np.exp(-((x - a[1]) / a[0]) ** 2),
            'box': lambda: ((x >= a[0]) & (x <= a[1])) * 1.,
            'two': lambda: ((x >= a[0]) & (x <= a[1])) * 1. + ((x >= a[2]) & (x <= a[3])) * a[4], 'ramp': lambda: np.abs(x - a[0])}[k]()


@st.composite
def densities(draw, lo, hi):
    w = hi - lo
    u = lambda a=0., b=1.: draw(st.floats(a, b))
    k = draw(st.sampled_from(['lorentz', 'lorentz', 'gauss', 'box', 'two', 'ramp']))
    if k == 'lorentz':
        return [k, w * u(.05), lo + w * u()]
    if k == 'gauss':
        return [k, w * u(.1), lo + w * u()]
    if k == 'box':
        a = u(0, .7)
        return [k, lo + w * a, lo + w * (a + u(.2, .9))]
    if k == 'two':
        a = sorted([u(0, .4), u(.5, .6)])
        return [k, lo + w * a[0], lo + w * (a[0] + .1), lo + w * a[1], lo + w * (a[1] + .3), u(.1, 4)]
    return [k, lo + w * u()]


@st.composite
def sampling(draw):
    lo = draw(gen.num(-5, 4))
    hi = lo + draw(st.floats(.5, 6))
    n = draw(st.integers(1, 8))
    calls = draw(st.integers(1, 3))
    r = st.floats(0, 1, exclude_max=True) | st.floats(0, 1, exclude_max=True) | st.sampled_from([0., 1 - 2. ** -53, .5, 1e-9, 1 - 1e-9])
    return dict(dens=draw(densities(lo, hi)), lims=[lo, hi], n=n, calls=calls, values=[draw(r) for _ in range(n * calls)],
                nsamples=draw(st.integers(400, 3000)))


@P.clause(400, c=sampling())
def sampled(T, c):
    r = T.op('ded:sampler', c['dens'], c['lims'], c['n'], c['values'], c['nsamples'], c['calls'])
    lo, hi = c['lims']
    x = np.linspace(lo, hi, 40001)
    p = weight(c['dens'], x)
    F = np.concatenate([[0.], np.cumsum(.5 * (p[1:] + p[:-1]))])
    F /= F[-1]
    tol = 3 * p.max() / p.mean() / (c['nsamples'] * (hi - lo)) + 1e-3
    check(r['used'] == c['n'] * c['calls'], 'random numbers used', got=r['used'], expected=c['n'] * c['calls'])
    T.nontrivial(len(set(np.concatenate(r['poles']))) >= 3, c['dens'][0])
    for k, poles in enumerate(r['poles']):
        u = np.sort(c['values'][k * c['n']:(k + 1) * c['n']])
        poles = np.asarray(poles)
        check(len(poles) == c['n'] and np.all(np.diff(poles) >= 0), 'poles not ascending', got=poles)
        check(poles.min() >= lo - 1e-12 and poles.max() <= hi + 1e-12, 'pole outside the limits', got=poles, limits=(lo, hi))
        step = 2.5 / c['nsamples']
        f0, f1 = np.interp(poles - step, x, F), np.interp(poles + step, x, F)
        check(np.all(f0 - tol <= u) and np.all(u <= f1 + tol), 'poles do not follow the density', got=poles, random=u, cdf=np.interp(poles, x, F), tol=tol)
        inner = (u > 1e-6) & (u < 1 - 1e-6)
        near = np.array([np.max(weight(c['dens'], np.linspace(max(q - step, lo), min(q + step, hi), 21))) for q in poles])
        check(np.all(near[inner] > 0), 'pole where the density vanishes', got=poles[inner], random=u)


@st.composite
def pole_set(draw, n):
    gap = st.sampled_from([1., .5, .1]) | st.floats(-3, .7).map(lambda v: 10. ** v)
    p = draw(gen.num(-4, 2)) + np.concatenate([[0.], np.cumsum([draw(gap) for _ in range(n - 1)])])
    return p.tolist()


def exact_bath(p):
    """Poles and weights of the bath of the uniform combination of the poles."""
    p = np.asarray(p, float)
    n = len(p)
    Q = np.linalg.qr(np.column_stack([np.ones(n), np.eye(n)[:, :n - 1]]))[0]
    M = Q.T @ (p[:, None] * Q)
    e, v = np.linalg.eigh(M[1:, 1:])
    return e, (v.T @ M[1:, 0]) ** 2, M[0, 0]


@st.composite
def fits(draw):
    n = draw(gen.nlev(2, 8))
    return dict(sets=[draw(pole_set(n)) for _ in range(draw(st.integers(1, 3)))], U=draw(gen.num(0, 5)),
                zs=[[round(draw(st.floats(-6, 20)), 4), draw(st.sampled_from([.02, .1, 1., -1., 5.]))] for _ in range(5)])


@P.clause(500, c=fits())
def fitted(T, c):
    zs = np.array([a + 1j * b for a, b in c['zs']])
    n = len(c['sets'][0])
    out = T.op('ded:fit', c['sets'], zs, c['U'])
    T.nontrivial(n >= 3, 'n=%d' % n, 'refit' if len(c['sets']) > 1 else 'first fit',
                 'narrow' if min(np.diff(p).min() for p in c['sets']) < .01 else 'wide')
    for p, r in zip(c['sets'], out):
        p = np.array(p)
        G = (1 / (zs[:, None] - p)).mean(1)
        e, w, e0 = exact_bath(p)
        close(r['g0'], G, "Green's function of the poles", rtol=1e-10, atol=1e-12, poles=p)
        ek, vk2 = np.asarray(r['ek']), np.asarray(r['vk2'])
        close(r['e0'], p.mean(), 'impurity level', rtol=1e-10, atol=1e-12, poles=p)
        gap = np.diff(p)
        check(np.all(np.abs(ek - e) <= 1e-6 * np.minimum(gap, 1) + 1e-9 * (1 + np.abs(e))), 'bath levels', got=ek, expected=e, poles=p)
        check(np.all(vk2 > 0) and np.all(np.abs(vk2 - w) <= 1e-4 * w + 1e-9), 'bath couplings', got=vk2, expected=w, poles=p)
        tol = 1e-5 * np.abs(G) + 1e-9 + np.abs(G) ** 2 * (1e-4 * (w / np.abs(zs[:, None] - e)).sum(1))
        check(np.all(np.abs(r['gi'] - G) <= tol), "Green's function of the fitted impurity model", got=r['gi'], expected=G, poles=p, zs=zs)
        close(np.asarray(r['delta']).sum(1), (w / (zs[:, None] - e)).sum(1), 'hybridisation', rtol=1e-4, atol=1e-7, poles=p)
        H, V = np.asarray(r['H']), np.asarray(r['V'])
        check(np.array_equal(H, H.T), 'matrix of the impurity model is not symmetric', H=H)
        R = np.array([np.linalg.inv(z * np.eye(n) - H)[0, 0] for z in zs])
        check(np.all(np.abs(R - G) <= tol), 'impurity element of the resolvent', got=R, expected=G, poles=p, H=H)
        B = H[1:, 1:]
        check(np.count_nonzero(B - np.diag(np.diag(B))) == 0, 'bath levels are coupled to each other', H=H)
        W = np.zeros((n, n))
        W[0, 0] = c['U']
        check(np.array_equal(V, W), 'interaction of the impurity model', got=V, U=c['U'])


@st.composite
def multi(draw):
    k, n = draw(st.integers(1, 3)), draw(st.integers(2, 4))
    return dict(sets=[[draw(pole_set(n)) for _ in range(k)] for _ in range(draw(st.integers(1, 3)))],
                zs=[[round(draw(st.floats(-6, 20)), 4), draw(st.sampled_from([.1, 1., -1.]))] for _ in range(4)])


@P.clause(300, c=multi())
def multi_orbital(T, c):
    zs = np.array([a + 1j * b for a, b in c['zs']])
    k, n = len(c['sets'][0]), len(c['sets'][0][0])
    out = T.op('ded:moam', c['sets'])
    T.nontrivial(k * n >= 3, '%d orbitals' % k)
    for ps, H in zip(c['sets'], out):
        H = np.asarray(H)
        check(H.shape == (k * n, k * n) and np.array_equal(H, H.T), 'matrix of the multi-orbital model is not symmetric', H=H)
        for z in zs:
            R = np.linalg.inv(z * np.eye(k * n) - H)[:k, :k]
            G = np.diag([(1 / (z - np.array(p))).mean() for p in ps])
            tol = 1e-5 + 1e-4 * np.abs(G).max() ** 2 * 10
            check(np.all(np.abs(R - G) <= tol), 'impurity block of the resolvent', got=R, expected=G, z=z, H=H)
        for i in range(k):
            own = [i] + list(range(k + i * (n - 1), k + (i + 1) * (n - 1)))
            rest = [j for j in range(k * n) if j not in own]
            check(not H[np.ix_(own, rest)].any(), 'orbitals are coupled to each other', H=H, orbital=i)
            close(np.linalg.eigvalsh(H[np.ix_(own, own)]), np.sort(ps[i]), 'levels of one orbital', rtol=1e-5, atol=1e-5, orbital=i)
