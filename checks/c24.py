import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, keys, index
from checks.c20 import quadrature
from checks.c22 import leads, Elements

P = Prop('C24', native=['psparse'],
         rule='A case is one molecule with kept states, two leads, a temperature and energies; non-trivial when some process has an '
              'amplitude above 1e-6.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in',
                      'the energy argument is that of the outgoing electron for particle and hole processes alike'])
FLIP = [(0, 0), (1, -1), (-1, 1)]


class Second:
    """All second-order processes I -> F (same charge) as lists of (product of elements, pole)."""

    def __init__(self, n, rows, A, move):
        self.n, self.A, self.X, self.move = n, np.asarray(A, float), Elements(n, rows), move

    def energy(self, S):
        return self.X.e[S[:-1]][S[-1]]

    def terms(self, F, I, si, sj, ext, inj):
        """Electron from lead ext with spin sj goes in, electron with spin si goes out to lead inj.
        -> list of (y, eps) or None when there is no virtual sector in the space."""
        X, A, n = self.X, self.A, self.n
        kI, kF = I[:-1], F[:-1]
        out, any_ = [], False
        J = self.move(n, kI, sj, +1)
        if J is not None and self.move(n, J, si, -1) == kF:
            any_ = True
            up = X.create(kI, J, sj)[:, I[-1]] @ A[ext]
            dn = X.create(kF, J, si)[:, F[-1]] @ A[inj]
            out += list(zip(up * dn, X.e[J] - self.energy(F)))
        J = self.move(n, kI, si, -1)
        if J is not None and self.move(n, J, sj, +1) == kF:
            any_ = True
            rm = X.create(J, kI, si)[I[-1]] @ A[inj]
            ad = X.create(J, kF, sj)[F[-1]] @ A[ext]
            out += list(zip(ad * rm, self.energy(I) - X.e[J]))
        return out if any_ else None


def move_sz(n, k, s, d):
    l = (k[0] + d, k[1]) if s == 0 else (k[0], k[1] + d)
    return l if 0 <= min(l) and max(l) <= n else None


def G(beta, x):
    if abs(beta * x) < 1e-12:
        return 1 / beta
    return x / np.expm1(min(beta * x, 700))


@st.composite
def cases(draw, nmax=3, small=False):
    m = draw(models(nmax))
    n = m['n']
    ks = keys(n, 'sz')
    dims = [len(index(n, k)) for k in ks]
    kind = draw(st.sampled_from(['build', 'build', 'sectors', 'active', 'cutoff']))
    neig = None
    if n == 3 or small or draw(st.booleans()):
        c = draw(st.integers(1, 2 if small or n == 3 else 4))
        neig = [min(c, d) for d in dims]
    if kind == 'build':
        how = ['build', None]
    elif kind == 'cutoff':
        how = ['build', draw(st.floats(.05, 4))]
    elif kind == 'active':
        how = ['active', draw(st.integers(1, 2)), draw(st.none() | st.floats(.5, 5))]
        neig = None
    else:
        pick = draw(st.lists(st.sampled_from(ks), min_size=1, max_size=4, unique=True))
        how = ['sectors', pick]
    return dict(m=m, neig=neig, how=how, kind=kind, leads=draw(leads(n)), zs=[round(draw(st.floats(-4, 4)), 5) for _ in range(3)])


@P.clause(220, c=cases())
def amplitudes(T, c):
    go(T, c, False)


@P.clause(90, c=cases(2, True))
def integrated(T, c):
    go(T, c, True)


def go(T, c, integ):
    m, how, L = c['m'], c['how'], c['leads']
    n = m['n']
    A, mu, beta, zs = np.asarray(L['A'], float), L['mu'], L['beta'], np.asarray(c['zs'])
    if integ:
        beta = min(beta, 150.)
    r = T.op('tunnel:cotunneling', m, c['neig'], how, beta, mu, A, zs, ['app', 'int'] if integ else ['app'], integ)
    S = Second(n, r['rows'], A, move_sz)
    X = S.X
    check(r['same'], 'the eigenspace was changed')
    if how[0] == 'active':
        full = ref.Spectrum(n, m['H'], m['U'], m['Jx'], m['Jp'], hf=m['hf'], mu=m['mu'])
        mins = {k: e[0] for k, (_, e, _) in full.sct.items()}
    else:
        mins = {k: e.min() for k, e in X.e.items()}
    low = min(mins.values())
    if any(1e-11 < v - low < 1e-7 for v in mins.values()):
        T.label('near-degenerate ground states')
        return
    inside = lambda k: 0 <= min(k) and max(k) <= n
    add = lambda k, d: (k[0] + d[0], k[1] + d[1])
    ngs = [k for k in mins if mins[k] - low < 1e-9]
    reached = {add(k, d) for k in ngs for d in FLIP if inside(add(k, d))}
    if how[0] == 'active':
        need = reached | {add(k, d) for k in reached for d in ((1, 0), (-1, 0), (0, 1), (0, -1)) if inside(add(k, d))}
        for k, q in zip(keys(n, 'sz'), r['neig']):
            if k in need:
                check(min(q, len(index(n, k))) == min(how[1], len(index(n, k))), 'states requested for sector %s' % (k,), got=r['neig'])
    if how[0] == 'sectors':
        start, allowed = [tuple(k) for k in how[1]], None
    else:
        start, allowed = sorted(reached), reached
    want = {}
    for k in start:
        for si in range(2):
            for sj in range(2):
                l = add(k, (int(sj == 0) - int(si == 0), int(sj == 1) - int(si == 1)))
                if not inside(l) or (allowed is not None and l not in allowed):
                    continue
                for i in range(len(X.e[k])):
                    for f in range(len(X.e[l])):
                        F, I = l + (f,), k + (i,)
                        if S.terms(F, I, si, sj, 0, 0) is not None:
                            want.setdefault((F, I), []).append((si, sj))
    cut = how[-1] if how[0] != 'sectors' else None
    if cut is not None:
        for F, I in list(want):
            q = (S.energy(F) - S.energy(I), S.energy(F) - r['egs'], S.energy(I) - r['egs'])
            if any(abs(abs(x) - cut) < 1e-7 for x in q):
                T.label('tie at the cutoff')
                return
            if not all(abs(x) < cut for x in q):
                del want[F, I]
    got = {(tuple(F), tuple(I)): o for F, I, o in r['items']}
    check(set(got) == set(want), 'set of transitions', missing=sorted(set(want) - set(got))[:5], extra=sorted(set(got) - set(want))[:5], how=how)
    big = 0
    blocked = True
    rate = {'app': {}, 'int': {}}
    unit = (1 + np.abs(A).sum() ** 2) ** 2
    for (F, I), o in got.items():
        check(len(o) == len(want[F, I]), 'number of spin processes', F=F, I=I, got=len(o), expected=len(want[F, I]))
        dE = S.energy(F) - S.energy(I)
        ctx = dict(F=F, I=I, beta=beta, mu=mu)
        for s in o:
            close(s['dE'], dE, 'energy gain', atol=1e-9, **ctx)
            check(tuple(s['dS']) == add(F[:2], (-I[0], -I[1])), 'change of occupation', got=s['dS'], **ctx)
        ga, gi = np.zeros((2, 2)), np.zeros((2, 2))
        ta, ti = np.zeros((2, 2)), np.zeros((2, 2))
        for e in range(2):
            for i in range(2):
                amp, tol = np.zeros(len(zs)), np.zeros(len(zs))
                for si, sj in want[F, I]:
                    t = S.terms(F, I, si, sj, e, i)
                    y, eps = np.array([a for a, _ in t]), np.array([b for _, b in t])
                    big += np.abs(y).max() > 1e-6

                    def a2(z):
                        d = z - eps
                        if np.abs(d).min() < 1e-5:
                            return 0., np.inf         # on resonance: not defined
                        return (y / d).sum() ** 2, (np.abs(y / d).sum() + 1e-7 * (1 / np.abs(d)).sum()) ** 2 * min(
                            1., 1e-7 * (1 + 1 / np.abs(d).min()))
                    p = [a2(z) for z in zs]
                    amp += [x for x, _ in p]
                    tol += [x for _, x in p]
                    w = [mu[e] - dE, mu[i]]
                    g = G(beta, w[1] - w[0])
                    x, q = a2(.5 * (w[0] + w[1]))
                    ga[e, i] += g * x
                    ta[e, i] += g * q
                    blocked = blocked and all(min(w) - v > 12 / beta or v - max(w) > 12 / beta for v in eps)
                    if integ:
                        x, q = quadrature(y, eps, w, beta)
                        gi[e, i] += x
                        spread = min([abs(a - b) * beta for a in eps for b in eps if a != b] + [1.])
                        ti[e, i] += q * (1e-6 + 1e-13 * beta ** 2 / max(spread, 1e-4) / max(min(abs(w[1] - w[0]) * beta, 1), 1e-4)) + 1e-12 * beta ** 2 * unit * 1e-3
                got_amp = sum(np.asarray(s['amp'])[e, i] for s in o)
                ok = np.isfinite(tol)
                check(np.all(np.abs(got_amp - amp)[ok] <= (tol + 1e-9 * amp + 1e-12)[ok]), 'squared amplitude', got=got_amp, expected=amp, tol=tol, leads=(e, i), zs=zs, **ctx)
        rate['app'][F, I] = ga, ta + 1e-9 * ga + 1e-14
        rate['int'][F, I] = gi, ti + 1e-9 * np.abs(gi) + 1e-14
        for name in ['app'] + ['int'] * integ:
            x, t = rate[name][F, I]
            a = sum(np.asarray(s[name]) for s in o)
            ok = np.isfinite(t)
            check(np.all(np.abs(a - x)[ok] <= t[ok]), {'app': 'approximate rate', 'int': 'integrated rate'}[name], got=a, expected=x, tol=t, **ctx)
    T.nontrivial(big > 1, c['kind'], 'biased' if mu[0] != mu[1] else 'unbiased', 'blockade' if blocked else 'resonant')
    for name in ['app'] + ['int'] * integ:
        if not got:
            break
        if not all(np.isfinite(t).all() for _, t in rate[name].values()):
            T.label('on resonance')
            continue
        ids = sorted({F for F, _ in got})
        D, R = np.zeros((len(ids),) * 2), np.zeros((len(ids),) * 2)
        tD, tR = np.zeros_like(D) + 1e-13, np.zeros_like(D) + 1e-13
        for (F, I), (g, t) in rate[name].items():
            if F in ids and I in ids:
                f, i = ids.index(F), ids.index(I)
                R[f, i] += g[1, 0] - g[0, 1]
                tR[f, i] += t.sum()
                if f != i:
                    D[f, i] += g.sum()
                    D[i, i] -= g.sum()
                    tD[f, i] += t.sum()
                    tD[i, i] += t.sum()
        W, C = np.asarray(r['W' + name]), np.asarray(r['T' + name])
        check(W.shape == D.shape and np.all(np.abs(W - D) <= tD), 'rate matrix', got=W, expected=D, ids=ids, method=name)
        check(np.all(np.abs(W.sum(0)) <= 1e-9 * np.abs(W).sum(0) + 1e-13), 'probability is not conserved', W=W, method=name)
        check(C.shape == R.shape and np.all(np.abs(C - R) <= tR), 'current matrix', got=C, expected=R, ids=ids, method=name)
        if name == 'app' or blocked:
            off = W - np.diag(np.diag(W))
            check(np.all(off >= -1e-13 - (tD if name == 'int' else 0)), 'negative rate', W=W, method=name)
        if mu[0] == mu[1] and how[0] != 'sectors':
            p = np.exp(-beta * np.array([S.energy(F) - r['egs'] for F in ids]))
            flow = W * p[None, :]
            tol = (tD * p[None, :])
            check(np.all(np.abs(flow - flow.T) <= tol + tol.T + 1e-7 * np.abs(flow) + 1e-15), 'detailed balance at zero bias', flow=flow, method=name, ids=ids)
            check(abs((C @ p).sum()) <= (tR @ p).sum() + 1e-7 * (np.abs(C) @ p).sum() + 1e-15, 'current at zero bias', got=(C @ p).sum(), method=name)
            T.label('equilibrium')
