"""Sequences of analyses on systems that stay in memory."""
import contextlib
import copy
import io
import numpy as np
from ops import mb
from ops.gf import _z
from ops.space import model, rows


class System:
    def __init__(self, m, neig, sym, frozen=False, edits=()):
        self.m, self.sym, self.neig, self.frozen = m, sym, neig, frozen
        self.H, self.V = model(m)
        self.n = self.H.shape[-1]
        for x in edits:
            self.change(*x)
        self.solve()

    def change(self, what, site, x):
        """a scan of a level, a hopping or an interaction in the arrays at hand"""
        self.H.flags.writeable = True
        if what == 'level':
            self.H[..., site, site] += x
        elif what == 'hop' and self.n > 1 and self.sym == 'sz':
            j = (site + 1) % self.n
            self.H[..., site, j] += x
            self.H[..., j, site] = self.H[..., site, j]
        else:
            V = self.V if not isinstance(self.V, dict) else self.V.get('U')
            if V is not None:
                V[site, site] += x

    def solve(self):
        from edpyt.espace import build_espace
        self.H.flags.writeable = not self.frozen
        neig = self.neig
        self.space, self.egs = build_espace(self.H, self.V, None if neig is None else np.array(neig), symmetry=self.sym)
        for s in self.space.values():
            s.eigvals.flags.writeable = s.eigvecs.flags.writeable = not self.frozen

    def params(self):
        mb.set_params(self.m.get('hf', False), self.m.get('mu', 0.), self.m.get('z'))

    def state(self):
        V = self.V if isinstance(self.V, dict) else dict(U=self.V)
        out = [self.H.copy(), self.H.shape, self.H.flags.writeable] + [V[k].copy() for k in sorted(V)] + [sorted(V), list(map(tuple, self.space)), float(self.egs)]
        for k, s in self.space.items():
            out += [np.array(s.eigvals), np.array(s.eigvecs), s.eigvals.shape, s.eigvecs.shape, int(s.d)] + mb.sector_states(s)
        return out


def _equal(a, b):
    if len(a) != len(b):
        return False
    return all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def _flat(r, n):
    return np.broadcast_to(np.asarray(r), (n,)).copy()


def _gf(fn, e, eta):
    """value now and a way to ask again later"""
    def ask(other=False):
        r = fn(e[::-1] * .7 + .1, eta[::-1] + .2) if other else fn(e.copy(), eta.copy())
        return [np.array(x) for x in r] if isinstance(r, (list, tuple)) else [np.array(r)]
    return ask, ask


def _do(S, step, e, eta):
    k, beta = step['kind'], step['beta']
    p, s = step['pos'] % S.n, step['spin']
    if k == 'exact':
        from edpyt.gf_exact import build_gf_exact
        return _gf(build_gf_exact(S.H, S.V, S.space, beta, S.egs, p, s), e, eta)
    if k == 'exact2':
        from edpyt.gf2_exact import build_gf2_exact
        return _gf(build_gf2_exact(S.H, S.V, S.space, beta, S.egs, ispin=s), e, eta)
    if k in ('cf', 'sp'):
        from edpyt.gf_lanczos import build_gf_lanczos
        g = build_gf_lanczos(S.H, S.V, S.space, beta, S.egs, p, k, s, step['flag'])
        if step['flag']:
            return _gf(lambda a, b: [_flat(f(a, b), a.size) for f in g], e, eta)
        return _gf(lambda a, b: _flat(g(a, b), a.size), e, eta)
    if k == 'krylov2':
        from edpyt.gf2_lanczos import build_gf2_lanczos
        return _gf(build_gf2_lanczos(S.H, S.V, S.space, beta, S.egs, s, 'sp' if step['flag'] else 'cf'), e, eta)
    if k == 'occupation':
        from edpyt.observs import get_occupation
        return [np.array(x) for x in get_occupation(S.space, S.egs, beta, S.n)], None
    if k in ('matvec', 'dense'):
        from edpyt.build_mb_ham import build_mb_ham
        from edpyt.matvec_product import todense, matvec_operator
        sct = list(S.space.values())[step['pos'] * 7 % len(S.space)]
        ops = build_mb_ham(S.H, S.V, sct)
        if k == 'dense':
            return [np.array(todense(*ops))], None
        mv = matvec_operator(*ops)
        v = np.cos(np.arange(sct.d) * 1.7 + 1.)

        def ask(other=False):
            x = v[::-1] * 1.3 if other else v.copy()
            y = np.array(mv(x))
            return [y, x]
        return ask, ask
    if k == 'levels':
        from edpyt.espace import build_espace
        space, egs = build_espace(S.H, S.V, symmetry=S.sym)
        return [np.array([egs])] + [np.array(x.eigvals) for x in space.values()], None
    if k == 'print':
        from edpyt.eshow import eprint
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            eprint(S.space, S.n)
        return [np.frombuffer(buf.getvalue().encode(), np.uint8).astype(float)], None
    A = np.cos(np.arange(2 * S.n).reshape(2, S.n) + step['pos'] + 1.)
    mu = [.3, -.2]
    arg = lambda other: (beta * .6, [-.5, .1], A[:, ::-1] * .8 + .1) if other else (beta, mu, A)
    if k == 'sequential':
        from edpyt import sqtunneling as sq
        d = sq.build_transition_elements(S.n, S.egs, S.space)

        def ask(other=False):
            b, mu, A = arg(other)
            return [np.array(sq.build_rate_matrix(d, b, mu, A))] + [np.array(sq.build_transition_matrix(d, b, mu[l], A[l])) for l in range(2)]
        return ask, ask
    if k == 'cotunneling':
        from edpyt import cotunneling as co
        d = co.build_transition_elements(S.n, S.egs, S.space)

        def ask(other=False):
            b, mu, A = arg(other)
            return [np.array(co.build_rate_matrix(d, b, mu, A, True)), np.array(co.build_transition_matrix(d, b, mu, A, 1, 0, True))]
        return ask, ask
    if k == 'nsequential':
        from edpyt import sqtnl as sq
        d = sq.build_transition_elements(S.n, S.space, egs=S.egs)

        def ask(other=False):
            b, mu, A = arg(other)
            return [np.array(x) for x in sq.build_rate_and_transition_matrices(d, b, mu, A, 0, 1)]
        return ask, ask
    if k == 'ncotunneling':
        from edpyt import cotnl as co
        d = co.build_transition_elements(S.n, S.space, egs=S.egs, cutoff=8. if step['flag'] else None)
        if not d:
            return [], None

        def ask(other=False):
            b, mu, A = arg(other)
            return [np.array(x) for x in co.build_rate_and_transition_matrices(d, b, mu, A, 0, 1, 'approximate')]
        return ask, ask
    raise ValueError(k)


def _diff(a, b):
    """largest difference relative to the size, or a description of what does not match"""
    if len(a) != len(b):
        return 'number of parts %d, %d' % (len(a), len(b))
    w = 0.
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return 'shapes %s, %s' % (x.shape, y.shape)
        if x.size:
            fx, fy = np.isfinite(x), np.isfinite(y)
            if not np.array_equal(fx, fy):
                return 'finite entries differ'
            if fx.any():
                w = max(w, float(np.abs(x[fx] - y[fx]).max() / (1. + np.abs(x[fx]).max())))
    return w


def run(systems, pool, order, zs, frozen=False):
    """Each step alone on a fresh system, then the sequence on the shared systems, then the retained results again."""
    e, eta = _z(zs)
    out = dict(steps=[], again=[], other=[], size=[])

    def system(i, edits):
        m, neig, sym = systems[i]
        mb.set_params(m.get('hf', False), m.get('mu', 0.), m.get('z'))
        return System(m, neig, sym, frozen, edits)
    try:
        shared = [system(i, ()) for i in range(len(systems))]
        edits = [() for _ in systems]
        # references first: what every step gives alone
        alone, want = {}, []
        for i in order:
            k = pool[i]['system']
            if pool[i]['kind'] == 'scan':
                edits[k] += (tuple(pool[i]['edit']),)
                want.append(None)
                continue
            key = (i, edits[k])
            if key not in alone:
                val, ask = _do(system(k, edits[k]), pool[i], e, eta)
                val = [np.array(x) for x in (val() if ask else val)]
                oth = _do(system(k, edits[k]), pool[i], e, eta)[1](True) if ask else []
                alone[key] = (val, [np.array(x) for x in oth])
                out['size'].append(int(sum(x.size for x in val)))
            want.append(alone[key])
        start = [copy.deepcopy(S.state()) for S in shared]
        kept = []
        for i, w in zip(order, want):
            k = pool[i]['system']
            S = shared[k]
            S.params()
            if w is None:
                S.change(*pool[i]['edit'])
                S.solve()
                start[k] = copy.deepcopy(S.state())
                out['steps'].append((i, 0., [bool(_equal(a, S.state())) for a, S in zip(start, shared)]))
                continue
            val, ask = _do(S, pool[i], e, eta)
            val = [np.array(x) for x in (val() if ask else val)]
            out['steps'].append((i, _diff(w[0], val), [bool(_equal(a, S.state())) for a, S in zip(start, shared)]))
            if ask:
                kept.append((i, val, w[1], ask))
        for i, val, w, ask in kept[::-1]:
            out['other'].append((i, _diff(w, ask(True))))
        for i, val, w, ask in kept[::-1]:
            out['again'].append((i, _diff(val, ask())))
        out['kept'] = [bool(_equal(a, S.state())) for a, S in zip(start, shared)]
        out['z'] = bool(np.array_equal(_z(zs)[0], e) and np.array_equal(_z(zs)[1], eta))
    finally:
        mb.set_params()
    return out
