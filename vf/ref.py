"""Independent reference model: second quantisation in the full Fock space of 2n modes.

Mode k < n is (site k, up), mode n+k is (site k, down).  A basis state is the integer whose bit m
is the occupation of mode m."""
from functools import lru_cache
from itertools import combinations
from math import comb
import numpy as np
import scipy.sparse as sp


@lru_cache(maxsize=None)
def annihilators(m):
    """List of the m annihilation matrices on 2**m states, sign = parity of occupied lower modes."""
    d = 1 << m
    s = np.arange(d)
    out = []
    for k in range(m):
        full = s[(s >> k) & 1 == 1]
        low = full & ((1 << k) - 1)
        par = np.array([bin(x).count('1') & 1 for x in low])
        out.append(sp.csr_matrix((1. - 2. * par, (full ^ (1 << k), full)), shape=(d, d)))
    return out


@lru_cache(maxsize=None)
def one_body(m):
    c = annihilators(m)
    return [[(c[i].T @ c[j]).tocsr() for j in range(m)] for i in range(m)]


def states(n, p):
    return sorted(sum(1 << i for i in c) for c in combinations(range(n), p))


def sector(n, nup, ndw):
    """Fock indices of the (nup, ndw) sector, up index fastest."""
    return np.array([u | (d << n) for d in states(n, ndw) for u in states(n, nup)])


def nsector(n, N):
    return np.array(states(2 * n, N))


def spin(H):
    H = np.asarray(H, float)
    return np.stack([H, H]) if H.ndim == 2 else H


def onebody_full(n, H):
    ob = one_body(2 * n)
    H = spin(H)
    out = sp.csr_matrix((4 ** n, 4 ** n))
    for s in range(2):
        for i in range(n):
            for j in range(n):
                if H[s, i, j] != 0.:
                    out = out + H[s, i, j] * ob[i + s * n][j + s * n]
    return out.tocsr()


def occ(n):
    s = np.arange(4 ** n)
    return np.array([(s >> k) & 1 for k in range(2 * n)], float)


def ham_full(n, H, U=None, Jx=None, Jp=None, hf=False, mu=0., z=None):
    """The many-body operator on the whole Fock space (sparse)."""
    H = spin(H).copy()
    H[:, range(n), range(n)] += mu
    ham = onebody_full(n, H)
    o = occ(n)
    nu, nd = o[:n], o[n:]
    diag = np.zeros(4 ** n)
    if U is not None:
        U = np.asarray(U, float)
        if z is None:
            z = np.ones(n) if hf else np.zeros(n)
        for i in range(n):
            if hf:
                diag += U[i, i] * (nu[i] - .5) * (nd[i] - .5)
            else:
                diag += U[i, i] * nu[i] * nd[i]
            for j in range(n):
                if i != j:
                    diag += .5 * U[i, j] * (nu[i] + nd[i] - z[i]) * (nu[j] + nd[j] - z[j])
    ham = ham + sp.diags(diag)
    c = annihilators(2 * n)
    if Jx is not None:
        for i in range(n):
            for j in range(n):
                if i != j and Jx[i][j] != 0.:
                    for s in range(2):
                        for t in range(2):
                            ham = ham + .5 * Jx[i][j] * (c[i + s * n].T @ c[j + t * n].T @ c[i + t * n] @ c[j + s * n])
    if Jp is not None:
        for i in range(n):
            for j in range(n):
                if i != j and Jp[i][j] != 0.:
                    for s in range(2):
                        t = 1 - s
                        ham = ham + .5 * Jp[i][j] * (c[i + s * n].T @ c[i + t * n].T @ c[j + t * n] @ c[j + s * n])
    return ham.tocsr()


def block(ham, idx):
    return ham[idx][:, idx].toarray()


class Spectrum:
    """Full diagonalisation, sector by sector, of the reference Hamiltonian."""

    def __init__(self, n, H, U=None, Jx=None, Jp=None, hf=False, mu=0., z=None, ham=None):
        self.n = n
        self.ham = ham_full(n, H, U, Jx, Jp, hf, mu, z) if ham is None else ham
        self.sct = {}
        for a in range(n + 1):
            for b in range(n + 1):
                idx = sector(n, a, b)
                e, v = np.linalg.eigh(block(self.ham, idx))
                self.sct[a, b] = (idx, e, v)
        self.egs = min(e[0] for _, e, _ in self.sct.values())

    def weights(self, beta, keys=None):
        return {k: np.exp(-beta * (e - self.egs)) for k, (_, e, _) in self.sct.items() if keys is None or k in keys}

    def Z(self, beta):
        return sum(w.sum() for w in self.weights(beta).values())

    def elem(self, mode, ka, kb):
        """<b| c^+_mode |a> between eigenstates of sectors ka -> kb."""
        c = annihilators(2 * self.n)[mode]
        ia, _, va = self.sct[ka]
        ib, _, vb = self.sct[kb]
        return vb.T @ (c.T.tocsr()[ib][:, ia] @ va)

    def gf(self, i, j, s, z, beta):
        """Lehmann: <<c_is; c+_js>>(z)."""
        n = self.n
        w = self.weights(beta)
        out = np.zeros(len(z), complex)
        for (a, b), (_, ea, _) in self.sct.items():
            kb = (a + 1, b) if s == 0 else (a, b + 1)
            if kb not in self.sct:
                continue
            eb = self.sct[kb][1]
            m = self.elem(i + s * n, (a, b), kb) * self.elem(j + s * n, (a, b), kb)
            q = m * (w[a, b][None, :] + w[kb][:, None])
            de = eb[:, None] - ea[None, :]
            out += (q.ravel()[None, :] / (np.asarray(z)[:, None] - de.ravel()[None, :])).sum(1)
        return out / self.Z(beta)

    def occupation(self, beta):
        n = self.n
        o = occ(n)
        w = self.weights(beta)
        tot = np.zeros(2 * n)
        for k, (idx, e, v) in self.sct.items():
            tot += o[:, idx] @ ((v ** 2) @ w[k])
        tot /= self.Z(beta)
        return tot[:n], tot[n:]


def dim(n, a, b):
    return comb(n, a) * comb(n, b)


# ---- larger systems: one sector at a time, operators applied to patterns as plain integers ----

def patterns(n, p):
    """Ascending patterns of p set bits among n, without walking through all 2**n."""
    return sorted(sum(1 << k for k in q) for q in combinations(range(n), p))


def wide_sector(n, *qns):
    if len(qns) == 1:
        return patterns(2 * n, qns[0])
    return [u | d << n for d in patterns(n, qns[1]) for u in patterns(n, qns[0])]


def act(string, s):
    """Apply a product of (mode, create?) operators, rightmost first.  Returns (sign, pattern), sign 0 when it vanishes."""
    sg = 1
    for m, cr in reversed(string):
        if bool(s >> m & 1) == cr:
            return 0, s
        if bin(s & ((1 << m) - 1)).count('1') & 1:
            sg = -sg
        s ^= 1 << m
    return sg, s


def sector_matrix(n, states_, H, U=None, Jx=None, Jp=None, hf=False, mu=0., z=None):
    H = spin(H)
    pos = {s: k for k, s in enumerate(states_)}
    A = np.zeros((len(states_),) * 2)
    strings = []
    for s in range(2):
        for i in range(n):
            for j in range(n):
                if i != j and H[s, i, j] != 0.:
                    strings.append((H[s, i, j], [(i + s * n, True), (j + s * n, False)]))
    for J, pair in ((Jx, False), (Jp, True)):
        if J is None:
            continue
        for i in range(n):
            for j in range(n):
                if i == j or J[i][j] == 0.:
                    continue
                for s in range(2):
                    for t in range(2):
                        if pair and s != t:
                            strings.append((.5 * J[i][j], [(i + s * n, True), (i + t * n, True), (j + t * n, False), (j + s * n, False)]))
                        elif not pair:
                            strings.append((.5 * J[i][j], [(i + s * n, True), (j + t * n, True), (i + t * n, False), (j + s * n, False)]))
    U = np.zeros((n, n)) if U is None else np.asarray(U, float)
    z = np.full(n, 1. if hf else 0.) if z is None else np.asarray(z, float)
    for s, k in pos.items():
        o = np.array([s >> b & 1 for b in range(2 * n)], float)
        u, d = o[:n], o[n:]
        e = (np.diag(H[0]) + mu) @ u + (np.diag(H[1]) + mu) @ d
        e += np.diag(U) @ ((u - .5) * (d - .5) if hf else u * d)
        W = U - np.diag(np.diag(U))
        e += .5 * (u + d - z) @ W @ (u + d - z)
        A[k, k] += e
        for x, st in strings:
            sg, t = act(st, s)
            if sg:
                A[pos[t], k] += sg * x
    return A
