import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import gen
from checks.c05 import models

P = Prop('C06', native=['psparse'], threads=[1, 2, 4, 8, 3, 1, 6, 2],
         rule='A case is one sparse matrix with a vector and a starting output, or one sector operator; non-trivial when '
              'matrix and vector are both non-zero and larger than 1.',
         assumptions=['thread interleavings are those the OS produces with 1 to 8 OpenMP threads'])


@st.composite
def csr(draw, nmax):
    m = draw(st.one_of(st.integers(1, nmax), st.integers(2, 6)))
    style = draw(st.sampled_from(['sparse', 'dense', 'empty rows', 'last row', 'dups', 'empty']))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    rows = []
    for i in range(m):
        if style == 'empty':
            k = 0
        elif style == 'dense':
            k = m
        elif style == 'empty rows':
            k = int(rng.integers(0, 3)) * int(rng.integers(0, 2))
        elif style == 'last row':
            k = m if i == m - 1 else 0
        else:
            k = int(rng.integers(0, min(m, 5) + 1))
        cols = rng.integers(0, m, size=k) if style == 'dups' else rng.permutation(m)[:k]
        rows.append([int(c) for c in cols])
    indptr = [0]
    for r in rows:
        indptr.append(indptr[-1] + len(r))
    vals = rng.normal(size=indptr[-1])
    if draw(st.booleans()):
        vals = np.round(vals * 2)          # exact zeros and ties
    return dict(style=style, m=m, data=[float(v) for v in vals], indices=sum(rows, []), indptr=indptr)


@P.clause(900, A=csr(40), other=st.integers(1, 30), kind=st.sampled_from(['UPmultiply', 'DWmultiply', 'Multiply']),
          seed=st.integers(0, 2 ** 32 - 1), zero=st.booleans(), mag=st.sampled_from(['one', 'one', 'tiny', 'huge', 'mixed']))
def kernels(T, A, other, kind, seed, zero, mag):
    m = A['m']
    n = m if kind == 'Multiply' else m * other
    rng = np.random.default_rng(seed)
    A = dict(A)
    if mag != 'one':                       # matrix elements of any magnitude
        e = dict(tiny=-15., huge=12.).get(mag)
        A['data'] = (np.array(A['data']) * 10. ** (rng.uniform(-20, 15, size=len(A['data'])) if e is None else e)).tolist()
    w = rng.normal(size=n)
    w[rng.random(n) < .2] = 0.
    y0 = np.zeros(n) if zero else rng.normal(size=n)
    M, B = np.zeros((m, m)), np.zeros((m, m))
    for i in range(m):
        for p in range(A['indptr'][i], A['indptr'][i + 1]):
            M[i, A['indices'][p]] += A['data'][p]
            B[i, A['indices'][p]] += abs(A['data'][p])
    T.nontrivial(m > 1 and np.any(M), kind, A['style'], 'elements: ' + mag, 'y0=0' if zero else 'y0!=0', 'other=1' if other == 1 else 'other>1')
    r = T.op('sparse:kernel', kind, A['data'], A['indices'], A['indptr'], [m, m], w, y0)
    if kind == 'Multiply':
        want = y0 + M @ w
    elif kind == 'UPmultiply':
        want = y0 + (w.reshape(other, m) @ M.T).ravel()
    else:
        want = y0 + (M @ w.reshape(m, other)).ravel()
    # rounding is relative to the terms of each sum
    b = np.abs(y0) + (B @ np.abs(w) if kind == 'Multiply' else (np.abs(w).reshape(other, m) @ B.T).ravel() if kind == 'UPmultiply'
                      else (B @ np.abs(w).reshape(m, other)).ravel())
    bad = np.abs(np.asarray(r['y']) - want) > 1e-12 * b
    check(not bad.any(), '%s does not add the product' % kind, got=np.asarray(r['y'])[bad][:6], expected=want[bad][:6], bad=int(bad.sum()))
    check(r['guard'], 'wrote outside the output vector', kind=kind, m=m, other=other)
    check(r['keep'], 'modified its inputs', kind=kind)


@P.clause(60, thorough=2000, m=st.integers(100, 500), other=st.integers(20, 120), kind=st.sampled_from(['UPmultiply', 'DWmultiply', 'Multiply']),
          seed=st.integers(0, 2 ** 32 - 1))
def kernels_large(T, m, other, kind, seed):
    """Enough rows for several threads to work at once; every thread count gives the identical sum order."""
    rng = np.random.default_rng(seed)
    k = rng.integers(0, 6, size=m)
    indptr = np.concatenate([[0], np.cumsum(k)])
    idx = rng.integers(0, m, size=indptr[-1])
    dat = rng.integers(-8, 9, size=indptr[-1]).astype(float)     # exact arithmetic: any interleaving must agree bit by bit
    n = m if kind == 'Multiply' else m * other
    w = rng.integers(-8, 9, size=n).astype(float)
    y0 = rng.integers(-8, 9, size=n).astype(float)
    M = np.zeros((m, m))
    np.add.at(M, (np.repeat(np.arange(m), k), idx), dat)
    T.nontrivial(True, kind)
    want = y0 + (M @ w if kind == 'Multiply' else (w.reshape(other, m) @ M.T).ravel() if kind == 'UPmultiply'
                 else (M @ w.reshape(m, other)).ravel())
    for _ in range(3):
        r = T.op('sparse:kernel', kind, dat, idx, indptr, [m, m], w, y0)
        check(np.array_equal(r['y'], want), '%s is not exact on integers' % kind, m=m, other=other,
              bad=int(np.sum(r['y'] != want)))
        check(r['guard'] and r['keep'], 'touched something else', kind=kind)


@P.clause(40, big=st.integers(3000, 80000), m=st.integers(1, 5), long=st.booleans(), kind=st.sampled_from(['UPmultiply', 'DWmultiply', 'Multiply']),
          seed=st.integers(0, 2 ** 32 - 1))
def kernels_long(T, big, m, long, kind, seed):
    """Very different dimensions of the two indices: a long matrix with few copies, a short one with many."""
    rng = np.random.default_rng(seed)
    m, other = (big, m) if long else (m, big)
    k = rng.integers(0, 4, size=m)
    indptr = np.concatenate([[0], np.cumsum(k)])
    row, idx = np.repeat(np.arange(m), k), rng.integers(0, m, size=indptr[-1])
    dat = rng.integers(-8, 9, size=indptr[-1]).astype(float)
    if kind == 'Multiply':
        other = 1
    w = rng.integers(-8, 9, size=m * other).astype(float)
    y0 = rng.integers(-8, 9, size=m * other).astype(float)
    want = y0.reshape(m, other).copy() if kind != 'UPmultiply' else y0.reshape(other, m).T.copy()
    np.add.at(want, row, dat[:, None] * (w.reshape(m, other) if kind != 'UPmultiply' else w.reshape(other, m).T)[idx])
    want = (want if kind != 'UPmultiply' else want.T).ravel()
    T.nontrivial(len(dat) > 0, kind, 'long matrix' if long or kind == 'Multiply' and m > 5 else 'many copies')
    r = T.op('sparse:kernel', kind, dat, idx, indptr, [m, m], w, y0)
    check(np.array_equal(r['y'], want), '%s is not exact on integers' % kind, m=m, other=other, bad=int(np.sum(np.asarray(r['y']) != want)))
    check(r['guard'] and r['keep'], 'touched something else', kind=kind)


@P.clause(60, A=csr(6), kind=st.sampled_from(['UPmultiply', 'DWmultiply', 'Multiply']))
def column_format(T, A, kind):
    """A column-compressed matrix is refused instead of being applied transposed."""
    T.nontrivial(A['m'] > 1 and len(A['data']) > 0)
    r = T.op('sparse:kernel', kind, A['data'], A['indices'], A['indptr'], [A['m']] * 2, [0.] * A['m'], [0.] * A['m'], fmt='csc')
    check(r == 'refused', 'column-compressed matrix accepted', kind=kind, got=r)


@P.clause(400, m=models(4), seed=st.integers(0, 2 ** 32 - 1), coef=st.tuples(gen.num(-2, 2), gen.num(-2, 2)))
def operator(T, m, seed, coef):
    rng = np.random.default_rng(seed)
    vecs = [rng.normal(size=70), rng.normal(size=70)]
    m = dict(m)
    if m['U'] is None:
        m['U'] = np.zeros((m['n'],) * 2).tolist()
    r = T.op('sparse:operator', m, vecs, list(coef))
    D = np.asarray(r['dense'])
    T.nontrivial(r['d'] > 1 and np.any(D), 'sz' if len(m['qns']) == 2 else 'N', 'off-diagonal' if np.any(D - np.diag(np.diag(D))) else 'diagonal')
    tol = dict(rtol=1e-10, atol=1e-9)
    for v, o in zip(r['v'], r['out']):
        close(o, D @ v, 'operator applied to a vector differs from the dense product', **tol)
    close(r['comb'], coef[0] * r['out'][0] + coef[1] * r['out'][1], 'operator is not linear', **tol)
    check(np.array_equal(r['again'], r['out'][0]), 'operator is not repeatable')
    close(r['res'], r['out'][0], 'a supplied output vector is not filled with the product', **tol)
    check(r['same'], 'the returned vector differs from the supplied output vector')
    check(r['kept'], 'the input vector was modified')
    check(r['dense_same'], 'the dense form is not repeatable')
