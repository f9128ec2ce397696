"""Mean-field objects: impurities, lattices, loops."""
import numpy as np
from ops.space import rows


def poles(p, w=None):
    """Callable sum of poles; p = (energies, weights), trailing axis = pole, leading axes broadcast before z."""
    e, w = np.asarray(p[0], float), np.asarray(p[1], float)

    def f(z):
        z = np.asarray(z)
        return (w[..., None, :] / (z[..., None] - e[..., None, :])).sum(-1) if z.ndim else (w / (z - e)).sum(-1)
    return f


def bath(x, z):
    n = len(x) // 2
    return (x[n:] ** 2 / (z[:, None] - x[:n])).sum(1)


def build(c):
    from edpyt.dmft import Gfimp, SpinGfimp
    neig = c.get('neig')
    kw = dict(nmats=c['nmats'], U=c['U'], beta=c['beta'], neig=None if neig is None else np.array(neig), adjust_neig=bool(c.get('adjust')))
    return (SpinGfimp if c['spinful'] else Gfimp)(c['n'], **kw)


def put(g, c, x):
    """Give the impurity the bath x through its own fit (target = what x represents)."""
    z = 1j * (2 * np.arange(c['nmats']) + 1) * np.pi / c['beta']
    x = np.array(x, float)
    if c['spinful']:
        for s in range(2):
            g[s].Delta.x[:] = x[s]
        g.fit(np.stack([bath(y, z) for y in x]))
    else:
        g.Delta.x[:] = x
        g.fit(bath(x, z))


def target(g, c, p):
    z = 1j * (2 * np.arange(c['nmats']) + 1) * np.pi / c['beta']
    return np.stack([bath(np.array(q, float), z) for q in p]) if c['spinful'] else bath(np.array(p, float), z)


def script(g, c):
    for st in c['script']:
        k = st[0]
        if k == 'bath':
            put(g, c, st[1])
        elif k == 'fit':
            g.fit(target(g, c, st[1]))
        elif k == 'update':
            g.update(st[1])
        elif k == 'levels':                      # each spin its own level, as magnetic seeding does
            g.up.update(st[1][0])
            g.dw.update(st[1][1])
        elif k == 'fit_update':
            g.fit_update(target(g, c, st[1]), st[2])
        elif k == 'reset':
            g.reset_bath()
        elif k == 'symmetrize':
            g.spin_symmetrize()
        elif k == 'solve':
            g.solve()


def impurity(c, z, mus):
    from edpyt.dmft import adjust_mu  # noqa
    g = build(c)
    z = np.array(z, complex)
    z0 = z.copy()
    script(g, c)
    parts = list(g)
    r = dict(H=np.array(g.H), V=np.array(g.V), mu=float(g.mu), mus=[float(p.mu) for p in parts], nparts=len(parts), nmats=g.nmats, beta=g.beta, egs=float(g.egs), rows=rows(g.espace),
             neig=None if g.neig is None else np.array(g.neig))
    r['x'] = np.array([np.array(p.x) for p in parts])
    r['ek'] = np.array([np.array(p.ek) for p in parts])
    r['vk'] = np.array([np.array(p.vk) for p in parts])
    for k, f in dict(delta=lambda p, z: p.Delta(z), free=lambda p, z: p.free(z), inv=lambda p, z: p.free(z, inverse=True), g=lambda p, z: p(z), sigma=lambda p, z: p.Sigma(z),
                     gf=lambda p, z: p.gf(z.real, z.imag)).items():
        r[k] = np.array([f(p, z) for p in parts])
        if k != 'gf':
            r[k + '0'] = np.array([[np.squeeze(f(p, complex(w))) for w in z[:3]] for p in parts])
    r['tot'] = np.array(g.Sigma(z))
    r['same'] = bool(np.array_equal(z, z0))
    r['mine'] = all(np.shares_memory(p.H, g.H) for p in parts)
    r['n'] = [float(np.squeeze(g.integrate(m) if m is not None else g.integrate())) for m in mus]
    if c['spinful']:
        r['updw'] = g.up is parts[0] and g.dw is parts[1] and g[0] is parts[0] and g[1] is parts[1]
    return r


def lattice(c, z):
    from edpyt import dmft
    z = np.array(z, complex)
    sig = poles(c['sigma']) if c['sigma'] is not None else (lambda z: 0. * z)
    if c['kind'] == 'hybrid':
        g = dmft.Gfhybrid(poles(c['dos']))
    elif c['kind'] == 'bethe':
        g = dmft.Gfhilbert(dmft.ht)
    else:
        g = dmft.Gfhilbert(poles(c['dos']))
    if c['ed'] is not None:
        g.ed = c['ed']
    g.set_local(lambda z: 99. + 0. * z)
    g.update(-77.)
    g.set_local(sig)
    g.update(c['mu'])
    keep = z.copy()
    r = dict(g=g(z), inv=g(z, inverse=True), free=g.free(z), freeinv=g.free(z, inverse=True), weiss=g.Weiss(z), delta=g.Delta(z), mu=float(g.mu))
    r = {k: (np.array(v) if k != 'mu' else v) for k, v in r.items()}
    r['g0'] = np.array([g(complex(w)) for w in z[:3]]) if c['kind'] != 'bethe' or True else None
    r['same'] = bool(np.array_equal(z, keep))
    return r


def hilbert(z, scalar):
    from edpyt.dmft import ht
    z = np.array(z, complex)
    return np.array([complex(ht(complex(w))) for w in z]) if scalar else np.array(ht(z))


class Impurity:
    """A controllable impurity: its static self-energy tells which bath and level it was solved with."""

    def __init__(self, nmats, beta, a, b):
        self.nmats, self.beta, self.a, self.b = nmats, beta, a, b
        self.reset_bath()
        self.level, self.s = -999., 999.
        self.log = []

    def reset_bath(self):
        self.x = 0.
        self.resets = getattr(self, 'resets', 0) + 1

    def fit(self, delta):
        self.x = float(np.mean(np.abs(delta)))
        self.seen = np.array(delta)
        self.log.append('fit')

    def update(self, mu):
        self.level = float(-mu)
        self.log.append('update')

    def solve(self):
        self.s = self.a * self.x + self.b * self.level
        self.log.append('solve')

    def Sigma(self, z):
        return self.s + 0. * z


class SpinImpurity:
    """Two of them for the magnetic step."""

    def __init__(self, *a):
        self.up, self.dw = Impurity(*a), Impurity(*a)
        self.nmats, self.beta = a[:2]
        self.log = []

    def reset_bath(self):
        self.up.reset_bath()
        self.dw.reset_bath()

    def fit(self, delta):
        self.up.fit(delta[0])
        self.dw.fit(delta[1])

    def update(self, mu):
        self.up.update(mu)
        self.dw.update(mu)

    def spin_symmetrize(self):
        self.dw.x, self.dw.level = self.up.x, self.up.level
        self.log.append('sym')

    def solve(self):
        self.up.solve()
        self.dw.solve()

    def Sigma(self, z):
        return np.stack([self.up.Sigma(z), self.dw.Sigma(z)])


_contour = []


def contour():
    if not _contour:
        from edpyt.integrate_gf import zero_fermi
        _contour.append(zero_fermi(100))
    return _contour[0]


def lattice_of(c):
    from edpyt import dmft

    base, arg = (dmft.Gfhybrid, poles(c['dos'])) if c['kind'] == 'hybrid' else (dmft.Gfhilbert, dmft.ht if c['kind'] == 'bethe' else poles(c['dos']))

    class L(base):
        """The filling is supplied by the user of the loop: contour sum at 300 K."""

        def integrate(self, mu):
            zp, rp = contour()
            old, self.mu = self.mu, mu
            try:
                kt = 8.617333262e-05 * 300.
                g = self(np.concatenate([1j * zp * kt, [1e10j]]))
                return np.real(1e10j * g[..., -1]) + np.imag(-4j * kt * (g[..., :-1] * rp).sum(-1))
            finally:
                self.mu = old
    g = L(arg)
    if c['ed'] is not None:
        g.ed = c['ed']
    return g


def call(D, f, x):
    """-> (kind, value)"""
    from edpyt.dmft import Converged, FailedToConverge
    try:
        return 'value', np.array(f(x))
    except Converged as e:
        return 'converged', str(e.message)
    except FailedToConverge as e:
        return 'failed', str(e.message)


def history(c, events):
    """Calls of the loop whose step returns what the event says."""
    from edpyt.dmft import DMFT

    class D(DMFT):
        def step(self, delta):
            self.got = np.array(delta)
            return self.occ, self.new
    imp = Impurity(c['nmats'], c['beta'], 0., 0.)
    lat = lattice_of(dict(kind='hybrid', dos=[[0.], [1.]], ed=None))
    lat.update(0.)
    kw = {k: c[k] for k in ('tol', 'max_iter', 'alpha') if c.get(k) is not None}
    d = D(imp, lat, **kw)
    out = []
    z = np.array(d.z)
    for how, delta, new, occ in events:
        x = np.array(delta, complex)
        d.new, d.occ = np.array(new, complex), occ
        r = call(d, d if how == 'call' else d.distance, x)
        out.append(dict(r=r, it=int(d.it), x=x, got=d.got, same=bool(np.array_equal(d.delta, x))))
    return dict(z=z, weights=np.array(d.weights), out=out)


def loop(c, delta, n):
    """n calls of the loop with the stand-in impurity, feeding each result to the next call."""
    from edpyt.dmft import DMFT
    imp = Impurity(c['nmats'], c['beta'], c['a'], c['b'])
    lat = lattice_of(c)
    kw = {k: c[k] for k in ('tol', 'max_iter', 'alpha', 'adjust_mu', 'occupancy_goal') if c.get(k) is not None}
    if c.get('goal_array') and 'occupancy_goal' in kw:
        kw['occupancy_goal'] = np.array([kw['occupancy_goal']])
    d = DMFT(imp, lat, **kw)
    s0 = c['s0']
    x = d.initialize(c['U'], lambda z: s0 + 0. * z, **({} if c['mu'] is None else dict(mu=c['mu'])))
    first = dict(delta=np.array(x), mu=float(lat.mu), level=imp.level, x=imp.x, resets=imp.resets)
    out = []
    if delta is not None:
        x = np.array(delta, complex)
    for _ in range(n):
        start = np.array(x)
        imp.log = []
        mu = float(lat.mu)
        r = call(d, d, x)
        out.append(dict(r=r, start=start, clipped=np.array(x), seen=imp.seen, log=imp.log, s=imp.s, level=imp.level, mu0=mu, mu=float(lat.mu), sigma=complex(lat.Sigma(1j)), delta=np.array(lat.Delta(d.z)),
                        filling=float(np.sum(lat.integrate(lat.mu))), it=int(d.it)))
        if r[0] != 'value':
            break
        x = r[1]
    # start again on the same object
    k, s1 = imp.resets, c.get('s1', 0.)
    y = d.initialize(c.get('U1', 1.), lambda z: s1 + 0. * z, **({} if c.get('mu1') is None else dict(mu=c['mu1'])))
    again = dict(delta=np.array(y), mu=float(lat.mu), level=imp.level, x=imp.x, resets=imp.resets - k)
    return dict(first=first, out=out, again=again, z=np.array(d.z))


def magnetic(c, sign, field, delta, real):
    from edpyt.dmft import DMFT, SpinGfimp, dmft_step_magnetic
    lat = lattice_of(c)
    imp = SpinGfimp(2, nmats=c['nmats'], U=c['U'], beta=c['beta']) if real else SpinImpurity(c['nmats'], c['beta'], c['a'], c['b'])
    d = DMFT(imp, lat)
    s0 = c['s0']
    kw = {} if c['mu'] is None else dict(mu=c['mu'])
    if delta is None:
        r = d.initialize_magnetic(c['U'], lambda z: s0 + 0. * z, sign, field, **kw)
    else:
        d.initialize(c['U'], lambda z: s0 + 0. * z, **kw)
        dmft_step_magnetic(np.array(delta, complex), imp, lat, sign, field)
        r = lat.Delta(d.z)
    o = dict(delta=np.array(r), z=np.array(d.z), mu=float(lat.mu), sigma=np.array(lat.Sigma(d.z)))
    if real:
        o['H'] = np.array(imp.H)
        o['x'] = np.array([np.array(g.x) for g in imp])
    else:
        o['level'] = [imp.up.level, imp.dw.level]
        o['x'] = [imp.up.x, imp.dw.x]
    return o


def adjust(c, goal, bracket, kind):
    from edpyt.dmft import adjust_mu
    lat = lattice_of(c)
    lat.update(c['mu'] or 0.)
    s0 = c['s0']
    lat.set_local(lambda z: s0 + 0. * z)
    if kind == 'array':
        goal = np.array([goal])
    elif kind == 'sites':
        goal = np.array([goal / 2, goal / 2])
    kw = {} if bracket is None else dict(bracket=tuple(bracket))
    mu = adjust_mu(lat, goal, **kw)
    return float(mu), float(np.sum(lat.integrate(mu))), float(lat.mu)


def mixing(c, method, kw):
    """Drive the loop on the map x -> A x + b (complex) through solve()."""
    from edpyt.dmft import DMFT
    A, b = np.array(c['A'], complex), np.array(c['b'], complex)

    class D(DMFT):
        n = 0

        def step(self, delta):
            self.n += 1
            self.last = np.array(delta)
            return 1., A @ delta + b
    imp = Impurity(len(b), c['beta'], 0., 0.)
    lat = lattice_of(dict(kind='hybrid', dos=[[0.], [1.]], ed=None))
    lat.update(0.)
    d = D(imp, lat, tol=c['tol'], max_iter=c['max_iter'])
    r = call(d, lambda x: d.solve(x, **kw), np.array(c['x'], complex))
    return dict(r=r, n=d.n, it=int(d.it), last=d.last, delta=np.array(d.delta))


def realloop(c, n):
    """The whole loop with a real impurity."""
    from edpyt.dmft import DMFT, Gfimp
    g = Gfimp(c['n'], nmats=c['nmats'], U=c['U'], beta=c['beta'])
    lat = lattice_of(c)
    kw = {k: c[k] for k in ('tol', 'max_iter', 'adjust_mu', 'occupancy_goal') if c.get(k) is not None}
    d = DMFT(g, lat, **kw)
    x = d.initialize(c['U'], lambda z: 0. * z, **({} if c['mu'] is None else dict(mu=c['mu'])))
    out = []
    for _ in range(n):
        start, mu, x0 = np.array(x), float(lat.mu), np.array(g.x)
        r = call(d, d, x)
        out.append(dict(r=r, start=start, mu0=mu, mu=float(lat.mu), x0=x0, x=np.array(g.x), H=np.array(g.H), sigma=np.array(lat.Sigma(d.z)), delta=np.array(lat.Delta(d.z)), it=int(d.it),
                        occ=float(np.sum(lat.integrate(lat.mu)))))
        if r[0] != 'value':
            break
        x = r[1]
    return dict(out=out, z=np.array(d.z))


def adjust_impurity(U, x, mu, goal, spinful):
    from edpyt.dmft import adjust_mu
    c = dict(n=2, nmats=8, U=U, beta=40., spinful=spinful)
    g = build(c)
    put(g, c, [list(x)] * 2 if spinful else list(x))
    g.update(mu)
    g.solve()
    s = adjust_mu(g, np.array([goal]))
    return dict(mu=float(s), n=float(np.sum(g.integrate(s))))
