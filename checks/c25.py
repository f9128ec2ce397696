import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, keys, index
from checks.c20 import quadrature
from checks.c22 import leads
from checks.c24 import Second, G

P = Prop('C25', native=['psparse'],
         rule='A case is one molecule in the total-charge classification with kept states, one charge, two leads and a temperature; '
              'non-trivial when some process has an amplitude above 1e-6.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in',
                      'the numerical integration is compared only in the blockade and up to its own energy window (15 %)'])


def move(n, k, s, d):
    return (k[0] + d,) if 0 <= k[0] + d <= 2 * n else None


@st.composite
def cases(draw, nmax=3, small=False):
    m = draw(models(nmax))
    n = m['n']
    dims = [len(index(n, k)) for k in keys(n, 'N')]
    neig = None
    if n == 3 or small or draw(st.integers(0, 2)) == 0:
        c = draw(st.integers(1, 2 if small else 4))
        neig = [min(c, d) for d in dims]
    N = draw(st.sampled_from([n, n, n - 1, n + 1, 1, 2 * n - 1, 0, 2 * n, None]) | st.integers(0, 2 * n))
    cut = draw(st.none() | st.floats(.05, 8))
    ei = draw(st.sampled_from([(0, 1), (1, 0)]))
    return dict(m=m, neig=neig, N=N, cut=cut, leads=draw(leads(n)), zs=[round(draw(st.floats(-4, 4)), 5) for _ in range(3)],
                extract=ei[0], inject=ei[1])


@P.clause(260, c=cases())
def amplitudes(T, c):
    go(T, c, False)


@P.clause(110, c=cases(2, True))
def integrated(T, c):
    go(T, c, True)


def go(T, c, integ):
    m, L = c['m'], c['leads']
    n = m['n']
    A, mu, beta, zs, cut = np.asarray(L['A'], float), np.asarray(L['mu']), L['beta'], np.asarray(c['zs']), c['cut']
    methods = ['approximate', 'integrate'] + ['exact'] * integ
    r = T.op('tunnel:ncotunneling', m, c['neig'], c['N'], cut, beta, list(mu), A, zs, methods, c['extract'], c['inject'], integ)
    S = Second(n, r['rows'], A, move)
    X = S.X
    check(r['same'], 'the eigenspace was changed')
    N = c['N']
    if N is None:
        low = sorted((e.min(), k[0]) for k, e in X.e.items())
        if len(low) > 1 and low[1][0] - low[0][0] < 1e-9:
            T.label('degenerate charges')
            return
        N = low[0][1]
    k = (N,)
    E = X.e[k]
    want = {((N, f), (N, i)) for f in range(len(E)) for i in range(len(E))}
    if cut is not None:
        d = np.concatenate([(E[:, None] - E[None, :]).ravel(), E - r['egs']])
        if np.any(np.abs(np.abs(d) - cut) < 1e-7):
            T.label('tie at the cutoff')
            return
        want = {(F, I) for F, I in want if abs(E[F[1]] - E[I[1]]) < cut and abs(E[F[1]] - r['egs']) < cut and abs(E[I[1]] - r['egs']) < cut}
    got = {(tuple(F), tuple(I)): o for F, I, o in r['items']}
    if cut is None:
        check(set(got) == want, 'set of transitions', missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5], N=N)
    else:
        check(set(got) <= want, 'transitions beyond the cutoff', extra=sorted(set(got) - want)[:5], N=N, cutoff=cut)
    big = 0
    blocked = False
    num = dict(approximate='app', integrate='num', exact='exact')
    for F, I in sorted(want):
        dE = E[F[1]] - E[I[1]]
        o = {}
        for s in got.get((F, I), []):
            check(tuple(s['spins']) not in o, 'spin process listed twice', F=F, I=I, spins=s['spins'])
            o[tuple(s['spins'])] = s
            close(s['dE'], dE, 'energy gain', atol=1e-9, F=F, I=I)
        for si in range(2):
            for sj in range(2):
                s = o.pop((si, sj), None)
                check(s is not None or cut is not None, 'missing spin process', F=F, I=I, spins=(si, sj))
                for e in range(2):
                    for i in range(2):
                        ctx = dict(F=F, I=I, spins=(si, sj), leads=(e, i), beta=beta, mu=mu, screened=s is None)
                        t = S.terms(F, I, si, sj, e, i)
                        y, eps = np.array([a for a, _ in t]), np.array([b for _, b in t])
                        big += np.abs(y).max() > 1e-6

                        def a2(z):
                            d = z - eps
                            if np.abs(d).min() < 1e-5:
                                return 0., np.inf         # on resonance: not defined
                            return (y / d).sum() ** 2, (np.abs(y / d).sum() + 1e-7 * (1 / np.abs(d)).sum()) ** 2 * min(
                                1., 1e-7 * (1 + 1 / np.abs(d).min()))

                        def same(name, x, tol):
                            g = 0. if s is None else np.asarray(s[name])[e, i]
                            tol = tol + 1e-9 * np.abs(x) + 1e-12
                            ok = np.isfinite(tol)
                            check(np.all(np.abs(g - x)[ok] <= tol[ok]) if np.ndim(x) else (not ok or abs(g - x) <= tol), {
                                'amp': 'squared amplitude', 'app': 'approximate rate', 'num': 'numerical integral',
                                'exact': 'closed-form integral'}[name], got=g, expected=x, tol=tol, **ctx)
                        p = np.array([a2(z) for z in zs])
                        g = p[:, 0]
                        have = np.zeros(len(zs)) if s is None else np.asarray(s['amp'])[e, i]
                        tol = p[:, 1] + 1e-9 * g + 1e-12
                        ok = np.isfinite(tol)
                        check(np.all(np.abs(have - g)[ok] <= tol[ok]), 'squared amplitude', got=have, expected=g, tol=tol, zs=zs, **ctx)
                        w = [mu[e] - dE, mu[i]]
                        x, q = a2(.5 * (w[0] + w[1]))
                        f = G(beta, w[1] - w[0])
                        same('app', f * x, f * q)
                        quiet = all(min(w) - v > 12 / beta or v - max(w) > 12 / beta for v in eps)
                        fine = beta * (abs(w[0] - w[1]) + 8 / beta) / 199 < .4
                        if integ or (quiet and fine):
                            x, q = quadrature(y, eps, w, beta)
                        if quiet and fine:
                            blocked = True
                            same('num', x, .15 * q + 1e-12 * beta)
                        if integ and s is not None:
                            spread = min([abs(a - b) * beta for a in eps for b in eps if a != b] + [1.])
                            same('exact', x, q * (1e-6 + 1e-13 * beta ** 2 / max(spread, 1e-4) / max(min(abs(w[1] - w[0]) * beta, 1), 1e-4))
                                 + 1e-15 * beta ** 2 * (1 + np.abs(A).sum() ** 2) ** 2)
        check(not o, 'unknown spin process', got=sorted(o), F=F, I=I)
    T.nontrivial(big > 1, 'screened' if cut is not None else 'complete', 'biased' if mu[0] != mu[1] else 'unbiased',
                 'empty' if N == 0 else 'full' if N == 2 * n else 'partly filled', 'blockade' if blocked else 'resonant')
    if not got:
        return
    ids = sorted({F for F, _ in got})
    ix, jn = c['extract'], c['inject']
    for name in methods:
        D, R = np.zeros((len(ids),) * 2), np.zeros((len(ids),) * 2)
        for (F, I), o in got.items():
            g = sum(np.asarray(s[num[name]]) for s in o)
            f, i = ids.index(F), ids.index(I)
            R[f, i] += g[ix, jn] - g[jn, ix]
            if f != i:
                D[f, i] += g.sum()
                D[i, i] -= g.sum()
        if not (np.isfinite(D).all() and np.isfinite(R).all()):
            continue
        W, C = np.asarray(r['W' + name]), np.asarray(r['T' + name])
        s = 1e-9 * (np.abs(D).max() + np.abs(R).max()) + 1e-14
        close(W, D, 'rate matrix', atol=s, method=name, ids=ids)
        close(C, R, 'current matrix', atol=s, method=name, ids=ids)
        check(np.all(np.abs(W.sum(0)) <= 1e-9 * np.abs(W).sum(0) + s), 'probability is not conserved', W=W, method=name)
        if name != 'exact':
            check(np.all(W - np.diag(np.diag(W)) >= 0), 'negative rate', W=W, method=name)
        for l, M in zip(r['d' + name], (D, R)):
            Q = np.zeros_like(M)
            for F, I, x in l:
                Q[ids.index(tuple(F)), ids.index(tuple(I))] += x
            close(Q, M, 'matrices as dictionaries', atol=s, method=name)
        if mu[0] == mu[1] and name != 'integrate' and cut is None:
            p = np.exp(-beta * (np.array([E[f[1]] for f in ids]) - E.min()))
            flow = W * p[None, :]
            big_ = np.abs(W).max()
            if big_ < 1e6:
                check(np.all(np.abs(flow - flow.T) <= 1e-6 * np.abs(flow) + 1e-6 * np.abs(flow.T) + 1e-7 * (1 + big_ ** 2)), 'detailed balance at zero bias', flow=flow, method=name)
                T.label('equilibrium')
