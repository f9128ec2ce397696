import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, full, index, keys
from math import comb

P = Prop('C09', native=['psparse'],
         rule='A case is one history of solve-screen-adjust rounds or one synthetic space; non-trivial when screening removes '
              'at least one state and keeps at least one.',
         assumptions=['states whose Boltzmann factor lies within 1e-9 relative of the cutoff may go either way'])


def screened(before, after, egs, beta, cutoff):
    """Reference rule; returns the number of removed states."""
    got = {tuple(k): (np.asarray(e), np.asarray(v)) for k, e, v in after}
    removed = 0
    want_keys = []
    for k, e, v in before:
        k = tuple(k)
        e, v = np.asarray(e), np.asarray(v)
        w = np.exp(-beta * (e - egs))
        sure = np.abs(w - cutoff) > 1e-9 * cutoff
        keep = w > cutoff
        removed += int((~keep).sum())
        if not sure.all():
            if k in got:
                want_keys.append(k)
            continue
        if not keep.any():
            check(k not in got, 'a sector without relevant states was kept', key=k, weights=w)
            continue
        want_keys.append(k)
        check(k in got, 'a sector with relevant states was dropped', key=k, weights=w)
        check(np.array_equal(got[k][0], e[keep]), 'kept eigenvalues', got=got[k][0], expected=e[keep])
        check(np.array_equal(got[k][1], v[:, keep]), 'kept eigenvectors do not match the kept eigenvalues', key=k)
    check([tuple(k) for k, _, _ in after] == want_keys, 'kept sectors', got=[tuple(k) for k, _, _ in after], expected=want_keys)
    return removed


def adjusted(n, ask, after, nxt):
    size = {tuple(k): len(e) for k, e, _ in after}
    for a in range(n + 1):
        for b in range(n + 1):
            i = a * (n + 1) + b
            d = comb(n, a) * comb(n, b)
            if (a, b) not in size or size[a, b] < ask[i]:
                want = max(1, ask[i] - 1)
            elif size[a, b] == ask[i]:
                want = min(d, ask[i] + 1)
            else:
                want = ask[i]
            check(nxt[i] == want, 'next request of sector (%d,%d)' % (a, b), asked=ask[i], survived=size.get((a, b), 'absent'), got=nxt[i],
                  expected=want, sector_size=d)


@st.composite
def rounds(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3]))
    m = draw(models(n, n, exch=False))
    out = []
    for _ in range(draw(st.integers(1, 8 if n < 3 else 5))):
        if draw(st.integers(0, 2)) == 0:
            m = draw(models(n, n, exch=False))
        out.append(dict(m=m, beta=draw(st.sampled_from([.1, 1., 3., 10., 100., 1e6])), cutoff=draw(st.sampled_from([1e-12, 1e-9, 1e-3, .1, .5]))))
    return n, out


@P.clause(300, case=rounds(), start=st.sampled_from(['one', 'full', 'random', 'two']), seed=st.integers(0, 2 ** 32 - 1))
def history(T, case, start, seed):
    n, rs = case
    rng = np.random.default_rng(seed)
    dims = [comb(n, a) * comb(n, b) for a in range(n + 1) for b in range(n + 1)]
    neig = {'one': [1] * len(dims), 'full': dims, 'two': [min(2, d) for d in dims],
            'random': [int(rng.integers(1, d + 1)) for d in dims]}[start]
    out = T.op('space:history', n, neig, rs)
    ask = np.array(neig)
    tot = kept = 0
    for r, o in zip(rs, out):
        check(np.array_equal(o['ask'], ask), 'the request changed on its own')
        rem = screened(o['before'], o['after'], o['egs'], r['beta'], r['cutoff'])
        tot += rem
        kept += sum(len(e) for _, e, _ in o['after'])
        adjusted(n, ask, o['after'], o['next'])
        H = full(r['m'], 'sz')
        low = min(np.linalg.eigvalsh(ref.block(H, index(n, k)))[0] for k in keys(n, 'sz'))
        close(o['egs'], low, 'ground-state energy', atol=1e-8)
        check(len(o['after']) > 0, 'screening lost the ground state')
        close(min(float(np.min(e)) for _, e, _ in o['after']), low, 'screening lost the ground state', atol=1e-8)
        ask = np.asarray(o['next'])
        check(np.all(ask >= 1) and np.all(ask <= np.maximum(dims, 1)), 'request out of range', got=ask, dims=dims)
    T.nontrivial(tot > 0 and kept > 0, 'rounds=%d' % len(rs), start)


@P.clause(700, n=st.integers(1, 5), seed=st.integers(0, 2 ** 32 - 1), dens=st.sampled_from([.1, .5, .9, 1.]), defaults=st.booleans(),
          logb=gen.num(-2, 3), logc=gen.num(-12, -.2))
def synthetic(T, n, seed, dens, defaults, logb, logc):
    """Any set of present sectors, any counts, any requests."""
    rng = np.random.default_rng(seed)
    beta, cutoff = (1e6, 1e-9) if defaults else (10. ** logb, 10. ** logc)
    spec, neig = [], []
    for a in range(n + 1):
        for b in range(n + 1):
            d = comb(n, a) * comb(n, b)
            ask = int(rng.integers(0, d + 2))
            neig.append(ask)
            if rng.random() < dens:
                k = int(rng.integers(1, max(1, min(ask, d, 5 if rng.random() < .7 else 40)) + 1))
                spec.append(((a, b), np.sort(rng.integers(0, 12, size=k) * rng.choice([1e-8, 1e-3, .25, 1.]) - 3.).tolist()))
    if not spec:
        return
    egs = min(e[0] for _, e in spec)
    r = T.op('space:synthetic', n, spec, neig, beta, cutoff, egs, defaults)
    rem = screened(r['before'], r['after'], egs, beta, cutoff)
    T.nontrivial(rem > 0 and len(r['after']) > 0, 'first sector absent' if spec[0][0] != (0, 0) else 'first present', 'last sector absent' if
                 not r['after'] or tuple(r['after'][-1][0]) != (n, n) else 'last present')
    adjusted(n, neig, r['after'], r['next'])
    check(any(abs(float(np.min(e)) - egs) == 0 for _, e, _ in r['after']), 'screening lost the ground state')
