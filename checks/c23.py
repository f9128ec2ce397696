import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, keys, index
from checks.c18 import fermi
from checks.c22 import leads, Elements

P = Prop('C23', native=['psparse'],
         rule='A case is one molecule in the total-charge classification with kept states, leads and a set of charges; non-trivial when '
              'several transitions carry a matrix element above 1e-6.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in'])


@st.composite
def cases(draw, nmax=3):
    m = draw(models(nmax))
    n = m['n']
    dims = [len(index(n, k)) for k in keys(n, 'N')]
    neig = None
    if n == 3 or draw(st.integers(0, 2)) == 0:
        c = draw(st.integers(1, 5))
        neig = [min(c, d) for d in dims]
    pick = draw(st.sampled_from(['one', 'one', 'all', 'some', 'ground state', 'border']))
    if pick == 'one':
        Ns = [draw(st.integers(0, 2 * n))]
    elif pick == 'border':
        Ns = [draw(st.sampled_from([0, 1, 2 * n - 1, 2 * n]))]
    elif pick == 'all':
        Ns = list(range(2 * n + 1))
    elif pick == 'some':
        Ns = draw(st.lists(st.integers(0, 2 * n), min_size=1, max_size=3))
    else:
        Ns = None
    ei = draw(st.sampled_from([(0, 1), (1, 0)]))
    return dict(m=m, neig=neig, Ns=Ns, pick=pick, leads=draw(leads(n)), extract=ei[0], inject=ei[1])


@P.clause(450, c=cases())
def golden_rule(T, c):
    m, L = c['m'], c['leads']
    n = m['n']
    A, mu, beta = np.asarray(L['A'], float), np.asarray(L['mu']), L['beta']
    r = T.op('tunnel:nsequential', m, c['neig'], c['Ns'], beta, list(mu), A, c['extract'], c['inject'])
    X = Elements(n, r['rows'])
    check(r['same'], 'the eigenspace was changed')
    Ns = c['Ns']
    if Ns is None:
        low = {k[0]: e.min() for k, e in X.e.items()}
        Ns = [k for k in low if low[k] == min(low.values())][:1]
    links = {(a, a + 1) for N in Ns for a in (N - 1, N) if 0 <= a and a + 1 <= 2 * n}
    want = set()
    for a, b in links:
        for i in range(len(X.e[a,])):
            for j in range(len(X.e[b,])):
                want |= {((b, j), (a, i)), ((a, i), (b, j))}
    got = {(tuple(F), tuple(I)): l for F, I, l in r['items']}
    check(set(got) == want, 'set of transitions', missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5], charges=c['Ns'], n=n)
    rate = {}
    big = 0
    for (F, I), l in got.items():
        add = F[0] > I[0]
        d = (X.e[F[:1]][F[1]] - X.e[I[:1]][I[1]]) * (1 if add else -1)
        check(sorted(g[1] for g in l) == [0, 1], 'one transition for each spin', F=F, I=I, got=[g[1] for g in l])
        x = beta * (d - mu)
        rate[F, I] = 0.
        for t, s, v, E in l:
            w = X.amplitude(F, I, s, add)
            v = np.asarray(v)
            big += np.abs(w).max() > 1e-6
            check(t == ('Gfe' if add else 'Gfh'), 'kind of transition', F=F, I=I, got=t)
            close(np.outer(v, v), np.outer(w, w), 'matrix elements of a transition', atol=1e-8, F=F, I=I, spin=s)
            close(E, d, 'transition energy', atol=1e-9, F=F, I=I)
            rate[F, I] = rate[F, I] + (A @ w) ** 2 * fermi(x if add else -x)
    T.nontrivial(big > 1, c['pick'], 'biased' if mu[0] != mu[1] else 'unbiased', 'border' if {0, 2 * n} & set(Ns) else 'interior')
    if not got:
        return
    ids = sorted({F for F, _ in got})
    D, TT = np.zeros((len(ids),) * 2), np.zeros((len(ids),) * 2)
    for (F, I), g in rate.items():
        f, i = ids.index(F), ids.index(I)
        D[f, i] += g.sum()
        D[i, i] -= g.sum()
        TT[f, i] = g[c['inject']] * (-1 if F[0] > I[0] else 1)
    W = np.asarray(r['W'])
    s = 1e-14 * (1 + np.abs(A).sum() ** 2) * (1 + beta * 1e-2)
    close(W, D, 'rate matrix', rtol=1e-7, atol=s, ids=ids, beta=beta, mu=mu)
    close(W.sum(0), np.zeros(len(ids)), 'probability is not conserved', atol=s * len(ids))
    check(np.all(W - np.diag(np.diag(W)) >= 0), 'negative rate', W=W)
    close(r['T'], TT, 'current matrix', rtol=1e-7, atol=s, ids=ids)
    for name, M in (('Wd', D), ('Td', TT)):
        E = np.zeros_like(M)
        for F, I, x in r[name]:
            E[ids.index(tuple(F)), ids.index(tuple(I))] += x
        close(E, M, 'matrices as dictionaries', rtol=1e-7, atol=s)
    if mu[0] == mu[1]:
        for a, F in enumerate(ids):
            for b, I in enumerate(ids[:a]):
                if W[a, b] > 1e-8 and W[b, a] > 1e-8:
                    T.label('detailed balance')
                    d = X.e[F[:1]][F[1]] - X.e[I[:1]][I[1]] - mu[0] * (F[0] - I[0])
                    close(np.log(W[a, b] / W[b, a]), -beta * d, 'detailed balance', rtol=1e-5, atol=1e-4, F=F, I=I)
