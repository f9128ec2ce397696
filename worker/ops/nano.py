"""Nanostructure lattices and collections of impurities."""
import numpy as np
from ops import mf
from ops.mf import poles
from ops.team import Team


def leads(c):
    """Hybridisation matrix: sum_k Gamma_k / (z - e_k), Gamma_k hermitian real."""
    G, e = np.array(c['gamma'], float), np.array(c['elead'], float)
    n = len(c['H'])

    def f(z):
        out = np.zeros((n, n), complex)
        for g, x in zip(G, e):
            out += g / (z - x)
        return out
    return f


def group(labels):
    _, neq, inv = np.unique(np.array(labels), return_index=True, return_inverse=True)
    return neq, inv.reshape(-1)


def self_energy(c):
    """(groups[, spin], z): one sum of poles plus a constant per group."""
    s0, e, w = (np.array(x, float) for x in c['sigma'])

    def f(z, sel=slice(None)):
        z = np.atleast_1d(z)
        return s0[sel][..., None] + (w[sel][..., None, :] / (z[:, None] - e[sel][..., None, :])).sum(-1) + 0j
    return f


def build(c, comm=None, reps=None):
    from edpyt.nano_dmft import Gfloc
    neq, inv = group(c['labels'])
    if reps is not None:
        neq = np.array(reps)
    H, S = np.array(c['H'], float), np.array(c['S'], float)
    g = Gfloc(H, S, leads(c), neq, inv, **({} if comm is None else dict(comm=comm)))
    g.update(-55.)
    g.update(c['mu'])
    sig = self_energy(c)
    g.set_local(lambda z: 99. + 0 * z)
    if comm is None:
        g.set_local(sig)
    else:
        k = len(neq) // comm.size
        mine = slice(comm.rank * k, (comm.rank + 1) * k)
        g.set_local(lambda z: sig(z, mine))
    return g, H, S


def _eval(g, z):
    z0 = z.copy()
    r = dict(g=np.array(g(z)), weiss=np.array(g.Weiss(z)), delta=np.array(g.Delta(z)), ed=np.array(g.ed), n=g.n, mu=float(g.mu))
    r['g0'] = [np.array(g(complex(w))) for w in z[:2]]
    r['delta0'] = [np.array(g.Delta(complex(w))) for w in z[:2]]
    r['free'] = np.array([g.free(complex(w)) for w in z[:2]])
    r['inv'] = np.array([g.free(complex(w), inverse=True) for w in z[:2]])
    r['again'] = np.array(g(z))
    r['same'] = bool(np.array_equal(z, z0))
    return r


def lattice(c, z, mus, reps=None):
    g, H, S = build(c, reps=reps)
    H0, S0 = H.copy(), S.copy()
    r = _eval(g, np.array(z, complex))
    r['n'] = [np.array(g.integrate(m)) for m in mus]
    r['kept'] = bool(np.array_equal(H, H0) and np.array_equal(S, S0)) and float(g.mu) == float(c['mu'])
    return r


def distributed(sched, c, z, mus):
    t = Team(*sched)

    def f(comm, _):
        g, H, S = build(c, comm)
        r = _eval(g, np.array(z, complex))
        r['n'] = [np.array(g.integrate(m)) for m in mus]
        return r
    return t.run(f, [None] * t.size), [len(x) for x in t.log], t.error


def collection(cs, z, script):
    """The same history applied to a collection and to every member on its own."""
    from edpyt.nano_dmft import Gfimp
    z = np.array(z, complex)
    together, alone = Gfimp([mf.build(c) for c in cs]), [mf.build(c) for c in cs]

    def each(f):
        for i, g in enumerate(alone):
            f(i, g)
    out = []
    for st in script:
        k = st[0]
        if k == 'fit':
            tg = [mf.target(None, c, p) for c, p in zip(cs, st[1])]
            try:
                tg2 = np.array(tg)
            except ValueError:
                tg2 = tg
            together.fit(tg2 if st[2] else tg)
            each(lambda i, g: g.fit(tg[i]))
        elif k == 'update':
            together.update(st[1])
            each(lambda i, g: g.update(float(np.broadcast_to(st[1], len(cs))[i])))
        elif k == 'reset':
            together.reset_bath()
            each(lambda i, g: g.reset_bath())
        elif k == 'sym':
            together.spin_symmetrize()
            each(lambda i, g: g.spin_symmetrize())
        elif k == 'bath':
            for i, c in enumerate(cs):
                mf.put(together[i], c, st[1][i])
                mf.put(alone[i], c, st[1][i])
        elif k == 'solve':
            together.solve()
            each(lambda i, g: g.solve())
            a, b = np.array(together.Sigma(z)), np.array([g.Sigma(z) for g in alone])
            from edpyt.observs import get_occupation
            occ = [[x[0] for x in get_occupation(g.espace, g.egs, g.beta, c['n'])] for g, c in zip(alone, cs)]
            out.append(dict(sigma=a, want=b, moments=np.array(together.get_local_moments()), occ=np.array(occ)))
        out.append(dict(H=[np.array(g.H) for g in together], want=[np.array(g.H) for g in alone], x=[np.array([p.x for p in g]) for g in together], xwant=[np.array([p.x for p in g]) for g in alone]))
    spin = cs[0]['spinful']
    facts = dict(len=len(together), it=all(a is b for a, b in zip(together, together.gfimp)), item=all(together[i] is together.gfimp[i] for i in range(len(cs))),
                 first=together.nmats == cs[0]['nmats'] and together.beta == cs[0]['beta'])
    if spin:
        facts['up'] = all(a is b.up for a, b in zip(together.up, together)) and len(together.up) == len(cs)
        facts['dw'] = all(a is b.dw for a, b in zip(together.dw, together)) and len(together.dw) == len(cs)
    return out, facts


def loop(c, n, imps, magnetic=None):
    """The self-consistency loop on a nanostructure with stand-in impurities."""
    from edpyt.dmft import DMFT
    from edpyt.nano_dmft import Gfimp
    g, H, S = build(c)
    g.set_local(lambda z: np.zeros((len(set(c['labels'])), z.size), complex))
    mk = mf.SpinImpurity if magnetic else mf.Impurity
    together = Gfimp([mk(c['nmats'], c['beta'], a, b) for a, b in imps])
    d = DMFT(together, g, **{k: c[k] for k in ('adjust_mu', 'occupancy_goal', 'tol', 'max_iter') if c.get(k) is not None})
    s0 = np.array(c['s0'])
    shape = (len(s0), 1) if not magnetic else (len(s0), 1, 1)
    sig0 = (lambda z: s0[:, None] + 0. * z) if not magnetic else (lambda z: np.stack([s0, s0], 1)[:, :, None] + 0. * z)
    if magnetic:
        x = d.initialize_magnetic(c['U'], sig0, magnetic[0], magnetic[1], mu=c['mu0'])
    else:
        x = d.initialize(c['U'], sig0, mu=c['mu0'])
    first = dict(delta=np.array(x), mu=float(g.mu))
    flat = (lambda: [[i.up.level, i.dw.level] for i in together]) if magnetic else (lambda: [i.level for i in together])
    seen = (lambda: [[i.up.x, i.dw.x] for i in together]) if magnetic else (lambda: [i.x for i in together])
    first.update(level=np.array(flat(), float), x=np.array(seen(), float))
    out = []
    for _ in range(n):
        start, mu = np.array(x), float(g.mu)
        r = mf.call(d, d, x)
        out.append(dict(r=r, start=start, mu0=mu, mu=float(g.mu), level=np.array(flat(), float), x=np.array(seen(), float), sigma=np.array(g.Sigma(d.z)),
                        filling=float(np.sum(g.integrate(g.mu))) if c.get('adjust_mu') else None))
        if r[0] != 'value':
            break
        x = np.array(r[1])
    return dict(first=first, out=out, z=np.array(d.z))
