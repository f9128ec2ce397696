import numpy as np
from ops import mb

GUARD = 7.25e77


def kernel(name, data, indices, indptr, shape, w, y0, fmt='csr'):
    from scipy.sparse import csr_matrix, csc_matrix
    from edpyt import _psparse
    A = csr_matrix((np.array(data, float), np.array(indices, np.int32), np.array(indptr, np.int32)), shape=tuple(shape))
    if fmt == 'csc':
        A = csc_matrix(A)
    n = len(w)
    big = np.full(n + 64, GUARD)
    inb = np.full(n + 64, GUARD)
    y, x = big[32:32 + n], inb[32:32 + n]
    y[:] = y0
    x[:] = w
    try:
        getattr(_psparse, name)(A, x, y)
    except NotImplementedError:
        return 'refused'
    keep = (np.array_equal(x, np.array(w, float)) and (inb[:32] == GUARD).all() and (inb[32 + n:] == GUARD).all()
            and np.array_equal(A.data, np.array(data, float)) and np.array_equal(A.indices, np.array(indices))
            and np.array_equal(A.indptr, np.array(indptr)))
    return dict(y=y.copy(), guard=bool((big[:32] == GUARD).all() and (big[32 + n:] == GUARD).all()), keep=bool(keep))


def operator(m, vecs, coef):
    from edpyt.espace import build_empty_sector
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.matvec_product import todense, matvec_operator
    H = mb.arr(m['H'])
    V = mb.pot(m['U'], m['Jx'], m['Jp'])
    sct = build_empty_sector(H.shape[-1], *m['qns'])
    ops = build_mb_ham(H, V, sct)
    dense = np.array(todense(*ops))
    mv = matvec_operator(*ops)
    v = [np.resize(np.array(x, float), sct.d) for x in vecs]
    v0 = [x.copy() for x in v]
    out = [np.array(mv(x)) for x in v]
    again = np.array(mv(v[0]))
    comb = np.array(mv(coef[0] * v[0] + coef[1] * v[1]))
    res = np.full(sct.d, GUARD)
    r = mv(v[0], res)
    dense2 = np.array(todense(*ops))
    return dict(d=int(sct.d), dense=dense, v=v0, out=out, again=again, comb=comb, res=res, same=bool(r is res or np.array_equal(r, res)),
                kept=all(np.array_equal(a, b) for a, b in zip(v, v0)), dense_same=bool(np.array_equal(dense, dense2)))
