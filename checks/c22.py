import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, keys, index
from checks.c18 import fermi

P = Prop('C22', native=['psparse'],
         rule='A case is one molecule with kept states, two leads and temperature; non-trivial when several transitions carry a '
              'matrix element above 1e-6.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in', 'every sector reached by the ground state is kept (documented workflow)'])


@st.composite
def leads(draw, n):
    A = [draw(st.lists(gen.num(-1, 1), min_size=n, max_size=n)) for _ in range(2)]
    if not np.any(A):
        A[0][0] = 1.
    mu = draw(st.sampled_from([0., .5])) + draw(gen.num(-2, 2))
    bias = draw(st.sampled_from([0., 0., .1]) | gen.num(-3, 3))
    beta = draw(st.sampled_from([1., 10., 100., 1000.]) | st.floats(.2, 300))
    return dict(A=A, mu=[mu, mu + bias], beta=beta)


class Elements:
    """<b| c+_{site,s} |a> between kept states of the reference Fock space."""

    def __init__(self, n, rows, index=index):
        self.n = n
        self.e = {tuple(k): np.asarray(e) for k, e, v, _, _ in rows}
        self.v = {tuple(k): np.asarray(v) for k, e, v, _, _ in rows}
        self.idx = {k: index(n, k) for k in self.e}
        self.cache = {}

    def create(self, k, l, s):
        """(states of l, states of k, site)"""
        if (k, l, s) not in self.cache:
            c = ref.annihilators(2 * self.n)
            self.cache[k, l, s] = np.stack([self.v[l].T @ (c[i + s * self.n].T.tocsr()[self.idx[l]][:, self.idx[k]] @ self.v[k])
                                            for i in range(self.n)], axis=-1)
        return self.cache[k, l, s]

    def amplitude(self, F, I, s, add):
        """site vector of the transition I -> F, F/I = quantum numbers + state number"""
        k, l = I[:-1], F[:-1]
        return self.create(k, l, s)[F[-1], I[-1]] if add else self.create(l, k, s)[I[-1], F[-1]]


def step(F, I):
    """(spin, add) of the sector change I -> F or None."""
    d = (F[0] - I[0], F[1] - I[1])
    return {(1, 0): (0, True), (0, 1): (1, True), (-1, 0): (0, False), (0, -1): (1, False)}.get(d)


@st.composite
def cases(draw, nmax=3):
    m = draw(models(nmax))
    n = m['n']
    ks = keys(n, 'sz')
    dims = [len(index(n, k)) for k in ks]
    kind = draw(st.sampled_from(['build', 'build', 'sectors', 'active', 'cutoff']))
    neig = None
    if n == 3 or draw(st.booleans()):
        c = draw(st.integers(1, 4))
        neig = [min(c, d) for d in dims]
    if kind == 'build':
        how = ['build', None]
    elif kind == 'cutoff':
        how = ['build', draw(st.floats(.05, 4))]
    elif kind == 'active':
        how = ['active', draw(st.integers(1, 4)), draw(st.none() | st.floats(.5, 5))]
        neig = None
    else:
        pick = draw(st.lists(st.sampled_from(ks), min_size=1, max_size=6, unique=True)) if draw(st.booleans()) else ks
        how = ['sectors', pick]
    return dict(m=m, neig=neig, how=how, kind=kind, leads=draw(leads(n)))


@P.clause(600, c=cases(), again=st.booleans())
def golden_rule(T, c, again):
    m, how, L = c['m'], c['how'], c['leads']
    n = m['n']
    A, mu, beta = np.asarray(L['A'], float), L['mu'], L['beta']
    r = T.op('tunnel:sequential', m, c['neig'], how, beta, mu, A, again)
    X = Elements(n, r['rows'])
    ks = list(X.e)
    check(r['same'], 'the eigenspace was changed')
    check(r['own'], 'transitions stored under wrong identifiers')
    check(r['again'], 'rates are not repeatable')
    if how[0] == 'active':
        S = ref.Spectrum(n, m['H'], m['U'], m['Jx'], m['Jp'], hf=m['hf'], mu=m['mu'])
        mins = {k: e[0] for k, (_, e, _) in S.sct.items()}
    else:
        mins = {k: e.min() for k, e in X.e.items()}
    gap = [v - min(mins.values()) for v in mins.values()]
    if any(1e-11 < g < 1e-7 for g in gap):
        T.label('near-degenerate ground states')
        return
    ngs = [k for k in mins if mins[k] - min(mins.values()) < 1e-9]
    around = [(a + da, b + db) for a, b in ngs for da, db in ((1, 0), (-1, 0), (0, 1), (0, -1)) if 0 <= a + da <= n and 0 <= b + db <= n]
    active = set(ngs) | set(around)
    if how[0] == 'active':
        want = [min(how[1], len(index(n, k))) if k in active else 0 for k in keys(n, 'sz')]
        check([min(a, len(index(n, k))) for a, k in zip(r['neig'], keys(n, 'sz'))] == want, 'requested states of the active sectors', got=r['neig'])
    if how[0] == 'sectors':
        pairs = [(k, l) for k in map(tuple, how[1]) for l in ks if step(l, k)]
    else:
        pairs = [(k, l) for k in active for l in active if step(l, k)]
    want = {(l + (j,), k + (i,)) for k, l in pairs for j in range(len(X.e[l])) for i in range(len(X.e[k]))}
    cut = how[-1] if how[0] != 'sectors' else None

    def energy(F, I):
        d = X.e[F[:2]][F[2]] - X.e[I[:2]][I[2]]
        return d if step(F, I)[1] else -d
    if cut is not None:
        near = lambda x: abs(abs(x) - cut) < 1e-7
        egs = r['egs']
        keep = set()
        for F, I in want:
            q = (energy(F, I), X.e[F[:2]][F[2]] - egs, X.e[I[:2]][I[2]] - egs)
            if any(near(x) for x in q):
                T.label('tie at the cutoff')
                return
            if all(abs(x) < cut for x in q):
                keep.add((F, I))
        want = keep
    got = {(tuple(F), tuple(I)): (t, np.asarray(v), E) for F, I, t, v, E in r['items']}
    check(set(got) == want, 'set of transitions', missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5], how=how)
    rate = {}
    sgn = {}
    big = 0
    for (F, I), (t, v, E) in got.items():
        s, add = step(F, I)
        w = X.amplitude(F, I, s, add)
        sgn[F, I] = 1 if add else -1
        big += np.abs(w).max() > 1e-6
        check(t == ('Gfe' if add else 'Gfh'), 'kind of transition', F=F, I=I, got=t)
        close(np.outer(v, v), np.outer(w, w), 'matrix elements of a transition', atol=1e-8, F=F, I=I)
        close(E, energy(F, I), 'transition energy', atol=1e-9, F=F, I=I)
        if (I, F) in got:
            close(E, got[I, F][2], 'conjugate transitions have the same energy', atol=1e-9)
            close(abs(v @ got[I, F][1]), v @ v, 'conjugate transitions have the same elements', atol=1e-8)
        x = beta * (energy(F, I) - np.asarray(mu))
        rate[F, I] = (A @ w) ** 2 * fermi(x if add else -x)
    T.nontrivial(big > 1, c['kind'], 'biased' if mu[0] != mu[1] else 'unbiased', 'empty' if not got else 'some')
    ids = sorted({F for F, _ in got})
    W, D = np.asarray(r['W']), np.zeros((len(ids), len(ids)))
    Ts = [np.zeros_like(D), np.zeros_like(D)]
    for (F, I), g in rate.items():
        if F in ids and I in ids:
            f, i = ids.index(F), ids.index(I)
            D[f, i] += g.sum()
            D[i, i] -= g.sum()
            for l in range(2):
                Ts[l][f, i] = sgn[F, I] * g[l]
    s = 1e-14 * (1 + np.abs(A).sum() ** 2) * (1 + beta * 1e-2)
    close(W, D, 'rate matrix', rtol=1e-7, atol=s, ids=ids, beta=beta, mu=mu)
    close(W.sum(0), np.zeros(len(ids)), 'probability is not conserved', atol=s * len(ids))
    check(np.all(W - np.diag(np.diag(W)) >= 0), 'negative rate', W=W)
    for l in range(2):
        close(r['T'][l], Ts[l], 'current matrix of lead %d' % l, rtol=1e-7, atol=s, ids=ids)
    if mu[0] == mu[1]:
        for a, F in enumerate(ids):
            for b, I in enumerate(ids[:a]):
                if (F, I) in got and (I, F) in got and W[a, b] > 1e-10 and W[b, a] > 1e-10:
                    T.label('detailed balance')
                    d = X.e[F[:2]][F[2]] - X.e[I[:2]][I[2]] - mu[0] * (sum(F[:2]) - sum(I[:2]))
                    close(np.log(W[a, b] / W[b, a]), -beta * d, 'detailed balance', rtol=1e-5, atol=1e-4, F=F, I=I)


@P.clause(20, order=st.permutations([(1, 0), (-1, 0), (0, 1), (0, -1)]))
def spin_labels(T, order):
    """Change of charge and spin <-> change of up and down electrons."""
    r = T.op('tunnel:spins', [list(p) for p in order])
    T.nontrivial()
    for p, (ns, back) in zip(order, r):
        check(tuple(ns) == (sum(p), (p[0] - p[1]) * sum(p)) , 'charge and spin change', p=p, got=ns)
        check(tuple(back) == tuple(p), 'not inverse', p=p, got=back)
