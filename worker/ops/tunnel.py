import numpy as np
from ops import mb
from ops.space import model, rows


def _id(t):
    return tuple(int(x) for x in t)


def _items(d):
    return [(_id(k[0]), _id(k[1])) for k in d]


def _space(m, neig, sym='sz'):
    from edpyt.espace import build_espace
    H, V = model(m)
    espace, egs = build_espace(H, V, None if neig is None else np.array(neig), symmetry=sym)
    return H, V, espace, egs


def _frozen(espace):
    return [(k, s.eigvals.copy(), s.eigvecs.copy()) for k, s in espace.items()]


def _same(espace, f):
    return bool(len(espace) == len(f) and all(np.array_equal(espace[k].eigvals, e) and np.array_equal(espace[k].eigvecs, v) for k, e, v in f))


def sequential(m, neig, how, beta, mu, A, single):
    """how: ('build', cutoff) | ('sectors', [(nup, ndw)...]) | ('active', val, cutoff)"""
    from edpyt import sqtunneling as sq
    try:
        if how[0] == 'active':
            _, _, espace, egs = _space(m, None)
            ngs = [k for k, s in espace.items() if abs(s.eigvals.min() - egs) < 1e-9]
            neig = sq.get_active_neig(len(m['U']), ngs, how[1])
        H, V, espace, egs = _space(m, neig)
        n = H.shape[-1]
        f = _frozen(espace)
        if how[0] == 'sectors':
            d = {}
            for a, b in how[1]:
                sq.project_sector(n, a, b, espace, d)
        else:
            d = sq.build_transition_elements(n, egs, espace, how[-1])
        A = np.array(A, float)
        W = np.array(sq.build_rate_matrix(d, beta, list(mu), A))
        T = [np.array(sq.build_transition_matrix(d, beta, mu[l], A[l])) for l in range(2)]
        W2 = np.array(sq.build_rate_matrix(d, beta, list(mu), A)) if single else W
        r = dict(rows=rows(espace), egs=float(egs), same=_same(espace, f), W=W, T=T, again=bool(np.array_equal(W, W2)),
                 items=[(_id(k[0]), _id(k[1]), type(g).__name__, np.array(g.v), float(g.E)) for k, g in d.items()],
                 own=bool(all(_id(g.idF) == _id(k[0]) and _id(g.idI) == _id(k[1]) for k, g in d.items())))
        if how[0] == 'active':
            r['neig'] = [int(x) for x in neig]
        return r
    finally:
        mb.set_params()


def spins(pairs):
    from edpyt.sqtunneling import getdns, getdud
    return [(tuple(getdns(*p)), tuple(getdud(*getdns(*p)))) for p in pairs]


def nsequential(m, neig, Ns, beta, mu, A, extract, inject):
    """Ns: list of charges whose elements are merged, or None: from the ground state."""
    from edpyt import sqtnl as sq
    try:
        H, V, espace, egs = _space(m, neig, 'N')
        n = H.shape[-1]
        f = _frozen(espace)
        if Ns is None:
            d = dict(sq.build_transition_elements(n, espace, egs=egs))
        else:
            d = {}
            for N in Ns:
                d.update(sq.build_transition_elements(n, espace, N))
        A = np.array(A, float)
        r = dict(rows=rows(espace), egs=float(egs), same=_same(espace, f), items=[
            (_id(k[0]), _id(k[1]), [(type(g).__name__, int(g.spin), np.array(g.v), float(g.E)) for g in l]) for k, l in d.items()])
        if d:
            W, T = sq.build_rate_and_transition_matrices(d, beta, list(mu), A, extract, inject)
            r['W'], r['T'] = np.array(W), np.array(T)
            Wd, Td = sq.build_rate_and_transition_matrices(d, beta, list(mu), A, extract, inject, build_matrices=False)
            r['Wd'] = [(_id(a), _id(b), float(x)) for (a, b), x in Wd.items()]
            r['Td'] = [(_id(a), _id(b), float(x)) for (a, b), x in Td.items()]
        return r
    finally:
        mb.set_params()


def _gf2(g):
    return None if g is None else dict(vF=np.array(g.vF), vI=np.array(g.vI), E=np.array(g.E), dE=float(g.dE))


def cotunneling(m, neig, how, beta, mu, A, zs, matrices, integrals=True):
    """how: ('build', cutoff) | ('sectors', [...]) | ('active', val, cutoff)"""
    from edpyt import cotunneling as co
    try:
        if how[0] == 'active':
            _, _, espace, egs = _space(m, None)
            ngs = [k for k, s in espace.items() if abs(s.eigvals.min() - egs) < 1e-9]
            neig = co.get_active_neig(len(m['U']), ngs, how[1])
        H, V, espace, egs = _space(m, neig)
        n = H.shape[-1]
        f = _frozen(espace)
        if how[0] == 'sectors':
            from collections import defaultdict
            d = defaultdict(list)
            for a, b in how[1]:
                co.project_sector(n, a, b, espace, d)
        else:
            d = co.build_transition_elements(n, egs, espace, how[-1])
        A = np.array(A, float)
        zs = np.array(zs, float)
        items = []
        for k, l in d.items():
            o = []
            for s in l:
                amp = np.array([[np.broadcast_to(np.asarray(s(zs, A, e, i)), zs.shape) for i in range(2)] for e in range(2)])
                app = np.array([[float(np.ravel(s.approximate(A, e, i, beta, mu))[0]) for i in range(2)] for e in range(2)])
                itg = np.array([[float(s.integrate(A, e, i, beta, mu)) for i in range(2)] for e in range(2)]) if integrals else None
                o.append(dict(dE=float(s.dE), dS=_id(s.dS), amp=amp, app=app, int=itg))
            items.append((_id(k[0]), _id(k[1]), o))
        r = dict(rows=rows(espace), egs=float(egs), items=items)
        for name, approx in (('app', True), ('int', False)):
            if name in matrices and len(d):
                r['W' + name] = np.array(co.build_rate_matrix(d, beta, list(mu), A, approx))
                r['T' + name] = np.array(co.build_transition_matrix(d, beta, list(mu), A, 1, 0, approx))
        r['same'] = _same(espace, f)
        if how[0] == 'active':
            r['neig'] = [int(x) for x in neig]
        return r
    finally:
        mb.set_params()


def ncotunneling(m, neig, N, cutoff, beta, mu, A, zs, matrices, extract, inject, integrals=True):
    from edpyt import cotnl as co
    try:
        H, V, espace, egs = _space(m, neig, 'N')
        n = H.shape[-1]
        f = _frozen(espace)
        d = co.build_transition_elements(n, espace, N, egs if (N is None or cutoff is not None) else None, cutoff)
        A = np.array(A, float)
        zs = np.array(zs, float)
        items = []
        for k, l in d.items():
            o = []
            for s in l:
                amp = np.array([[np.broadcast_to(np.asarray(s(zs, A, e, i)), zs.shape) for i in range(2)] for e in range(2)])
                app = np.array([[float(np.ravel(s.approximate(A, e, i, beta, mu))[0]) for i in range(2)] for e in range(2)])
                num = np.array([[float(s.integrate(A, e, i, beta, mu)) for i in range(2)] for e in range(2)])
                x = None
                if integrals:
                    x = np.array([[float(s.exact(A, e, i, beta, mu)) for i in range(2)] for e in range(2)])
                o.append(dict(dE=float(s.dE), spins=_id(s.spins), amp=amp, app=app, num=num, exact=x, terms=sum(len(g.E) for g in s.gf2)))
            items.append((_id(k[0]), _id(k[1]), o))
        r = dict(rows=rows(espace), egs=float(egs), items=items)
        for name in matrices:
            if len(d):
                W, T = co.build_rate_and_transition_matrices(d, beta, list(mu), A, extract, inject, name)
                r['W' + name], r['T' + name] = np.array(W), np.array(T)
                Wd, Td = co.build_rate_and_transition_matrices(d, beta, list(mu), A, extract, inject, name, build_matrices=False)
                r['d' + name] = [[(_id(a), _id(b), float(x)) for (a, b), x in D.items()] for D in (Wd, Td)]
        r['same'] = _same(espace, f)
        return r
    finally:
        mb.set_params()
