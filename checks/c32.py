import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen, ref
from checks.c18 import fermi, KB
from checks.c28 import model, matsubara, initial, distance
from checks.c31 import polesum, bethe

P = Prop('C32', native=['psparse', 'cf'],
         rule='A case is a history of loop calls, an adjustment or a mixing run; non-trivial when the loop is called more than once, the filling depends on the '
              'chemical potential, or the field is non-zero.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in', 'where the impurity solver is not under test it is a stand-in whose self-energy encodes what it was solved with'])
SEED = st.integers(0, 2 ** 32 - 1)


@st.composite
def histories(draw):
    rng = np.random.default_rng(draw(SEED))
    nm = draw(st.integers(1, 6))
    tol = draw(st.sampled_from([None, 1e-3, .1, 1e-6]))
    c = dict(nmats=nm, beta=draw(st.floats(1, 100)), tol=tol, max_iter=draw(st.sampled_from([None, 1, 2, 3, 5])), alpha=draw(st.sampled_from([None, 0., .5, 1.])))
    t = 1e-3 if tol is None else tol
    shape = (nm,) if draw(st.integers(0, 3)) else (2, nm)
    ev = []
    for k in draw(st.lists(st.sampled_from(['far', 'far', 'far', 'near', 'edge-', 'edge+', 'causal', 'equal']), min_size=1, max_size=8)):
        x = rng.normal(size=shape) - 1j * rng.uniform(.1, 1, shape)
        if k == 'causal':
            x = np.where(rng.random(shape) < .5, x.conj(), x)
        u = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        u /= np.linalg.norm(u)
        # the loop compares with the causal part
        base = x.real + 1j * np.where(x.imag > 0, -1e-20, x.imag)
        new = base + u * t * dict(far=30 * rng.random() + 1.5, near=.5 * rng.random(), causal=.5 if rng.random() < .3 else 5., equal=0.).get(k, .999 if k == 'edge-' else 1.001)
        ev.append([draw(st.sampled_from(['call', 'call', 'distance'])), split(x), split(new), float(rng.random())])
    return c, ev


def split(x):
    return [np.real(x).tolist(), np.imag(x).tolist()]


def join(p):
    return np.asarray(p[0]) + 1j * np.asarray(p[1])


@P.clause(1000, h=histories())
def termination(T, h):
    c, ev = h
    r = T.op('mf:history', c, [[a, join(x), join(y), o] for a, x, y, o in ev])
    z = matsubara(c['nmats'], c['beta'])
    close(r['z'], z, 'frequencies of the loop', rtol=1e-12)
    w = z.imag ** -(c['alpha'] or 0.)
    close(r['weights'], w, 'weights', rtol=1e-10)
    tol = 1e-3 if c['tol'] is None else c['tol']
    lim = 20 if c['max_iter'] is None else c['max_iter']
    it = 0
    T.nontrivial(len(ev) > 1, 'events=%d' % len(ev))
    for k, (e, o) in enumerate(zip(ev, r['out'])):
        x, y = join(e[1]), join(e[2])
        xc = x.real + 1j * np.where(x.imag > 0, -1e-20, x.imag)
        ctx = dict(call=k, before=it, limit=lim, tol=tol, error=np.linalg.norm(y - xc))
        check(np.all(np.asarray(o['got']).imag <= 0), 'a non-causal hybridisation reached the solver', got=o['got'], given=x)
        close(o['got'], xc, 'hybridisation given to the step', atol=1e-15, **ctx)
        kind, val = o['r']
        if np.linalg.norm(y - xc) < tol:
            want = 'converged'
        else:
            it += 1
            want = 'failed' if it > lim else 'value'
        T.label(want)
        check(kind == want, 'wrong outcome of a loop call', got=(kind, val), expected=want, **ctx)
        check(o['it'] == it, 'iteration count', got=o['it'], expected=it, **ctx)
        if want == 'value':
            if e[0] == 'call':
                close(val, y, 'value of a loop call', atol=1e-15, **ctx)
            else:
                close(val, w * (y - xc), 'distance of the loop', rtol=1e-10, atol=1e-13, **ctx)
        check(o['same'], 'the hybridisation of the last call is not kept', **ctx)


@st.composite
def setups(draw):
    rng = np.random.default_rng(draw(SEED))
    k = int(rng.integers(1, 5))
    w = rng.random(k) + .05
    kind = draw(st.sampled_from(['hybrid', 'hilbert', 'bethe']))
    return dict(kind=kind, dos=[np.round(rng.uniform(-1.5, 1.5, k), 3).tolist(), (w / w.sum()).tolist()], ed=draw(st.none() | gen.num(-1, 1)), nmats=draw(st.integers(2, 12)),
                beta=draw(st.floats(2, 60)), U=draw(gen.num(0, 4)), mu=draw(st.none() | gen.num(-2, 2)), s0=draw(gen.num(-1, 1)), a=draw(gen.num(-.5, .5)), b=draw(gen.num(-.4, .4)))


def lattice(c, y):
    """Lattice function of z + mu - Sigma."""
    if c['kind'] == 'hybrid':
        raise ValueError
    return bethe(y) if c['kind'] == 'bethe' else (np.asarray(c['dos'][1]) / (y[..., None] - np.asarray(c['dos'][0]))).sum(-1)


def hybridisation(c, z, mu, s):
    ed = c['ed'] or 0.
    if c['kind'] == 'hybrid':
        return polesum(c['dos'], z) - ed + 0 * s
    return z + mu - ed - s - 1 / lattice(c, z + mu - s)


def filling(c, mu, s):
    """2 * integral of the spectral function times the Fermi function at 300 K, static real self-energy."""
    kT = KB * 300
    if c['kind'] == 'bethe':
        x = np.cos(np.pi * (np.arange(20000) + .5) / 20000)
        return 2 * np.sum(2 / np.pi * (1 - x * x) * np.pi / 20000 * fermi((x + s - mu) / kT))
    e, w = np.asarray(c['dos'][0]), np.asarray(c['dos'][1])
    if c['kind'] == 'hilbert':
        return 2 * (w * fermi((e + s - mu) / kT)).sum()
    h = np.diag(np.concatenate([[s - mu], e]))
    h[0, 1:] = h[1:, 0] = np.sqrt(w)
    l, v = np.linalg.eigh(h)
    return 2 * (v[0] ** 2 * fermi(l / kT)).sum()


@P.clause(500, c=setups(), n=st.integers(1, 5), adjust=st.sampled_from([None, None, 'number', 'array']), goal=st.floats(.2, 1.8), tol=st.sampled_from([1e-3, 1e-8, .2]), max_iter=st.sampled_from([None, 2, 4]), own=st.booleans(), seed=SEED, timeout=200)
def loop(T, c, n, adjust, goal, tol, max_iter, own, seed):
    """Every call feeds fit, level, solve and lattice in order, and only then adjusts the chemical potential."""
    rng = np.random.default_rng(seed)
    c = dict(c, tol=tol, max_iter=max_iter, U1=float(np.round(rng.uniform(0, 4), 3)), mu1=None if rng.random() < .5 else float(np.round(rng.uniform(-2, 2), 3)), s1=float(np.round(rng.uniform(-1, 1), 3)))
    if adjust:
        c.update(adjust_mu=True, occupancy_goal=goal, goal_array=adjust == 'array')
    delta = rng.normal(size=c['nmats']) - 1j * rng.uniform(-.1, 1, c['nmats']) if own else None
    r = T.op('mf:loop', c, delta, n)
    z, ed = matsubara(c['nmats'], c['beta']), c['ed'] or 0.
    mu = c['U'] / 2 if c['mu'] is None else c['mu']
    f = r['first']
    T.nontrivial(n > 1, c['kind'], 'adjust' if adjust else 'fixed')
    close(f['mu'], mu, 'initial chemical potential', atol=1e-12)
    close(f['level'], ed - mu, 'initial impurity level', atol=1e-12)
    check(f['x'] == 0 and f['resets'] == 2, 'the bath is not reset at the start')
    tight = dict(rtol=1e-6, atol=1e-7)
    close(f['delta'], hybridisation(c, z, mu, c['s0'] + 0 * z), 'initial hybridisation', case=c, **tight)
    x = f['delta'] if delta is None else delta
    it = 0
    for k, o in enumerate(r['out']):
        ctx = dict(call=k, case=c)
        xc = np.real(x) + 1j * np.where(np.imag(x) > 0, -1e-20, np.imag(x))
        close(o['seen'], xc, 'hybridisation given to the bath fit', atol=1e-12, **ctx)
        close(o['mu0'], mu, 'chemical potential before the step', atol=1e-12)
        s = c['a'] * np.mean(np.abs(xc)) + c['b'] * (ed - mu)
        close(o['level'], ed - mu, 'impurity level', atol=1e-9, **ctx)
        close(o['s'], s, 'the impurity was not solved with the fitted bath and the current level', atol=1e-9, order=o['log'], **ctx)
        close(o['sigma'], s, 'lattice self-energy is not that of the impurity', atol=1e-9, **ctx)
        if adjust:
            mu = o['mu']
            close(filling(c, mu, s), goal, 'lattice filling after adjusting the chemical potential', atol=2e-3, mu=mu, **ctx)
            close(o['filling'], goal, 'filling', atol=1e-6, **ctx)
        else:
            close(o['mu'], mu, 'the chemical potential changed', atol=1e-12)
        new = hybridisation(c, z, mu, s + 0 * z)
        close(o['delta'], new, 'new hybridisation', mu=mu, **tight, **ctx)
        err = np.linalg.norm(np.asarray(o['delta']) - xc)
        lim = 20 if max_iter is None else max_iter
        if abs(err - tol) < 1e-9:
            break
        if err < tol:
            want = 'converged'
        else:
            it += 1
            want = 'failed' if it > lim else 'value'
        T.label(want)
        check(o['r'][0] == want, 'wrong outcome of a loop call', got=o['r'][0], expected=want, error=err, tol=tol, calls=it, limit=lim, **ctx)
        if want != 'value':
            check(k == len(r['out']) - 1, 'the loop went on after its end')
            break
        close(o['r'][1], o['delta'], 'value of the call', atol=1e-12)
        x = o['r'][1]
    g = r['again']
    mu = c['U1'] / 2 if c['mu1'] is None else c['mu1']
    close(g['mu'], mu, 'chemical potential after starting again', atol=1e-12, case=c)
    close(g['level'], ed - mu, 'impurity level after starting again', atol=1e-12, case=c)
    check(g['x'] == 0 and g['resets'] > 0, 'the bath is not reset when starting again', got=g, case=c)
    close(g['delta'], hybridisation(c, z, mu, c['s1'] + 0 * z), 'hybridisation after starting again', case=c, **tight)


@P.clause(600, c=setups(), goal=st.floats(.2, 1.8), kind=st.sampled_from(['number', 'array', 'sites']), bracket=st.sampled_from([None, None, [-8., 9.], [-50., 30.]]))
def adjustment(T, c, goal, kind, bracket):
    mu, n, keep = T.op('mf:adjust', c, goal, bracket, kind)
    T.nontrivial(True, c['kind'], kind)
    lo, hi = bracket or (-20., 20.)
    check(lo <= mu <= hi, 'chemical potential outside the bracket', got=mu, bracket=(lo, hi))
    close(n, goal, 'filling at the adjusted chemical potential', atol=1e-6, case=c, mu=mu)
    close(filling(c, mu, c['s0']), goal, 'exact filling at the adjusted chemical potential', atol=2e-3, case=c, mu=mu)
    close(keep, c['mu'] or 0., 'the adjustment changed the lattice itself', atol=1e-12)


@P.clause(500, c=setups(), sign=st.sampled_from([1, -1]), field=gen.num(0, 2), real=st.booleans(), own=st.booleans(), seed=SEED)
def magnetic_seed(T, c, sign, field, real, own, seed):
    rng = np.random.default_rng(seed)
    z = matsubara(c['nmats'], c['beta'])
    delta = polesum([[.3, -.5], rng.uniform(.05, .5, 2)], z) if own else None
    r = T.op('mf:magnetic', c, sign, field, delta, real)
    mu, ed = c['U'] / 2 if c['mu'] is None else c['mu'], c['ed'] or 0.
    T.nontrivial(field != 0, 'real' if real else 'stand-in', 'sign=%d' % sign)
    lv = [ed - mu - sign * field, ed - mu + sign * field]
    got = [r['H'][0][0, 0], r['H'][1][0, 0]] if real else r['level']
    close(got, lv, 'the levels of the two spins are not shifted in opposite directions', atol=1e-12, mu=mu, ed=ed, sign=sign, field=field)
    close(r['x'][0], r['x'][1], 'baths of the two spins differ', atol=0)
    close(r['mu'], mu, 'chemical potential', atol=1e-12)
    s = np.asarray(r['sigma'])
    check(s.shape == (2, c['nmats']), 'shape of the self-energy', got=s.shape)
    x0 = hybridisation(c, z, mu, c['s0'] + 0 * z) if delta is None else delta
    if not real:
        close(r['x'][0], np.mean(np.abs(x0)), 'bath of the seeded impurity', rtol=1e-6, atol=1e-7, case=c)
        close(s, [[c['a'] * r['x'][0] + c['b'] * l] * c['nmats'] for l in lv], 'self-energies of the two spins', atol=1e-9)
    else:
        V = np.diag([c['U'], 0.])
        S = ref.Spectrum(2, np.asarray(r['H']), V)
        gap = [e - S.egs for _, es, _ in S.sct.values() for e in es]
        if not any(1e-7 < q < 1e-4 for q in gap):
            T.label('solved')
            cold = ground(S, z, c['beta'])
            for q in range(2):
                h = np.asarray(r['H'])[q]
                want = z - h[0, 0] - h[0, 1] ** 2 / (z - h[1, 1]) - 1 / cold[q]
                check(np.all(np.abs(s[q] - want) <= 1e-5 * (1 + 1 / np.abs(cold[q]) ** 2)), 'self-energy of the seeded impurity', got=s[q], expected=want, spin=q, case=c)
    close(np.broadcast_to(r['delta'], s.shape), np.stack([hybridisation(c, z, mu, q) for q in s]), 'hybridisation after seeding', rtol=1e-6, atol=1e-7, case=c)


def ground(S, z, beta):
    """Green's functions of both spins over the ground states."""
    out = []
    keep = S.weights
    S.weights = lambda b, keys=None: {k: np.where(e - S.egs < 1e-5, np.exp(-b * (e - S.egs)), 0.) for k, (_, e, _) in S.sct.items()}
    n = S.n
    cold = S.weights(beta)
    Z = sum(w.sum() for w in cold.values())
    for s in range(2):
        g = np.zeros(len(z), complex)
        for k, (_, ea, _) in S.sct.items():
            kb = (k[0] + 1, k[1]) if s == 0 else (k[0], k[1] + 1)
            if kb not in S.sct:
                continue
            m = S.elem(s * n, k, kb) ** 2
            q = m * (cold[k][None, :] + cold[kb][:, None])
            de = S.sct[kb][1][:, None] - ea[None, :]
            g += (q.ravel() / (z[:, None] - de.ravel())).sum(1)
        out.append(g / Z)
    S.weights = keep
    return out


@st.composite
def maps(draw):
    rng = np.random.default_rng(draw(SEED))
    k = draw(st.integers(1, 5))
    q = rng.normal(size=(k, k))
    A = q / max(np.linalg.norm(q, 2), 1e-3) * draw(st.sampled_from([0., .3, .7, .95, 3.]))
    xs = rng.normal(size=k) - 1j * rng.uniform(2, 4, k)          # a causal fixed point
    b = xs - A @ xs
    return dict(A=A.tolist(), b=split(b), x=split(xs + .5 * rng.normal(size=k)), tol=draw(st.sampled_from([1e-3, 1e-6, .1])), max_iter=draw(st.sampled_from([2, 10, 20, 50])), beta=10.)


@P.clause(600, c=maps(), kw=st.sampled_from([{}, dict(mixing_method='broyden'), dict(mixing_method='broyden', alpha=.3), dict(mixing_method='linear'), dict(mixing_method='linear', alpha=.5, iter=70)]), timeout=60)
def mixing(T, c, kw):
    A, b = np.asarray(c['A']), join(c['b'])
    r = T.op('mf:mixing', dict(c, b=b, x=join(c['x'])), '', kw)
    kind = r['r'][0]
    err = np.linalg.norm(A @ r['last'] + b - r['last'])
    T.nontrivial(True, kind, kw.get('mixing_method', 'default'))
    ctx = dict(kw=kw, error=err, tol=c['tol'], calls=r['n'], limit=c['max_iter'])
    check(kind in ('converged', 'failed') or (kind == 'value' and kw.get('mixing_method') == 'linear' and kw.get('iter', 60) <= c['max_iter']), 'the mixing ended without a verdict', kind=kind, **ctx)
    if kind == 'converged':
        check(err < c['tol'] * (1 + 1e-9), 'convergence was signalled away from a fixed point', **ctx)
        check(r['n'] <= c['max_iter'] + 1, 'more steps than allowed', **ctx)
    if kind == 'failed':
        check(err >= c['tol'] * (1 - 1e-9), 'failure was signalled at a fixed point', **ctx)
        check(r['n'] == c['max_iter'] + 1, 'failure before the iteration limit was exceeded', **ctx)


@st.composite
def reals(draw):
    c = draw(setups())
    c.update(n=draw(gen.nlev(2, 3)), nmats=draw(st.integers(6, 14)), beta=draw(st.sampled_from([8., 20.]) | st.floats(5, 30)), tol=1e-3)
    if draw(st.booleans()):
        c.update(adjust_mu=True, occupancy_goal=draw(st.floats(.3, 1.7)))
    if draw(st.integers(0, 2)) == 0:
        c.update(kind='bethe', mu=None, ed=None)
    return c


@P.clause(120, c=reals(), n=st.integers(1, 3), timeout=300)
def real_loop(T, c, n):
    r = T.op('mf:realloop', c, n)
    z, ed = matsubara(c['nmats'], c['beta']), c['ed'] or 0.
    N, mu = c['n'], c['U'] / 2 if c['mu'] is None else c['mu']
    T.nontrivial(n > 1, c['kind'], 'adjust' if c.get('adjust_mu') else 'fixed', 'half filling' if c['kind'] == 'bethe' and c['mu'] is None and not c['ed'] else 'general')
    x = None
    for k, o in enumerate(r['out']):
        ctx = dict(call=k, case=c)
        d = np.asarray(o['start'])
        if x is None:
            close(d, hybridisation(c, z, mu, 0 * z), 'initial hybridisation', rtol=1e-6, atol=1e-7, **ctx)
            close(o['x0'], initial(N - 1), 'initial bath', atol=1e-12)
        else:
            close(o['x0'], x, 'bath before the step', atol=0)
        x = np.asarray(o['x'])
        dc = d.real + 1j * np.minimum(d.imag, 0)
        a, b = distance(np.asarray(o['x0']), z, dc), distance(x, z, dc)
        check(b <= a * (1 + 1e-9) + 1e-15, 'the fit of the step is worse than the bath before', before=a, after=b, **ctx)
        M = np.diag(np.concatenate([[ed - mu], x[:N - 1]]))
        M[0, 1:] = M[1:, 0] = x[N - 1:]
        close(o['H'], M, 'impurity matrix of the step', atol=1e-9, **ctx)
        V = np.zeros((N, N))
        V[0, 0] = c['U']
        S = ref.Spectrum(N, M, V)
        s = np.asarray(o['sigma'])
        if not any(1e-7 < e - S.egs < 1e-4 for _, es, _ in S.sct.values() for e in es):
            g = ground(S, z, c['beta'])[0]
            want = z + mu - ed - model(x, z) - 1 / g
            T.label('solved')
            check(np.all(np.abs(s - want) <= 1e-5 * (1 + 1 / np.abs(g) ** 2)), 'lattice self-energy is not that of the solved impurity', got=s, expected=want, **ctx)
        if c.get('adjust_mu'):
            close(o['occ'], c['occupancy_goal'], 'lattice filling', atol=1e-6, **ctx)
            mu = o['mu']
        close(o['mu'], mu, 'chemical potential', atol=1e-12)
        new = hybridisation(c, z, mu, s)
        close(o['delta'], new, 'new hybridisation', rtol=1e-6, atol=1e-7, **ctx)
        err = np.linalg.norm(new - dc)
        if abs(err - c['tol']) > 1e-6:
            check(o['r'][0] == ('converged' if err < c['tol'] else 'value'), 'wrong outcome of a loop call', got=o['r'][0], error=err, **ctx)


@P.clause(8, U=gen.num(0, 4), x=st.tuples(gen.num(-2, 2), st.floats(.2, 1)), mu=gen.num(-1, 3), goal=st.floats(.2, 1.8), spinful=st.booleans(), timeout=300)
def impurity_adjustment(T, U, x, mu, goal, spinful):
    """The adjustment works on impurities too: the returned shift brings their own filling to the goal."""
    r = T.op('mf:adjust_impurity', U, list(x), mu, goal, spinful)
    T.nontrivial(True, 'spinful' if spinful else 'spin-free')
    close(r['n'], goal, 'impurity filling after adjustment', atol=1e-4, shift=r['mu'], U=U, bath=x, level=-mu)
