import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check

P = Prop('C34', rule='A case is a square array divided over simulated processes; non-trivial with at least two processes and two rows.',
         assumptions=['MPI processes are simulated by threads with a communicator that matches collectives by order of calls and refuses overlapping buffers, '
                      'mismatched counts and processes that leave early; a sample of cases also runs on real MPI processes when mpirun can start them'])

SEED = st.integers(0, 2 ** 32 - 1)


@st.composite
def teams(draw, pmax=6):
    p = draw(st.sampled_from([k for k in (1, 2, 2, 3, 3, 4, 5, 6) if k <= pmax]))
    return [p, draw(SEED), draw(st.sampled_from([0., 0., 0., 2e-3]))]


DT = st.sampled_from(['f8', 'f8', 'c16', 'f4', 'i8', 'i4'])


@np.errstate(all='ignore')
def content(kind, n, dtype, seed):
    rng = np.random.default_rng(seed)
    if kind == 'count':
        A = np.arange(n * n, dtype=float).reshape(n, n)
    elif kind == 'special':
        A = rng.choice([0., -0., 1., np.inf, -np.inf, 1e-310, 1e308], size=(n, n))
    else:
        A = rng.normal(size=(n, n))
    if dtype[0] == 'i':
        A = rng.integers(-2 ** 30, 2 ** 30, size=(n, n)) if kind != 'count' else A
    if dtype == 'c16':
        A = A + 1j * rng.normal(size=(n, n)) if kind != 'special' else A * (1 + 0j)
    return A.astype(dtype)


def good(out, err):
    for r, o in enumerate(out):
        check(o[0] == 'ok', 'a process failed', process=r, got=o, communicator=err)
    return [o[1] for o in out]


def same(x, y, msg, **c):
    x = np.asarray(x)
    check(x.shape == y.shape, msg + ' (shape)', got=x.shape, expected=y.shape, **c)
    check(x.dtype == y.dtype and x.tobytes() == np.ascontiguousarray(y).tobytes(), msg, got=x.tolist(), expected=y.tolist(), **c)


@P.clause(500, team=teams(), k=st.integers(1, 5), dtype=DT, kind=st.sampled_from(['count', 'random', 'special']), seed=SEED, twice=st.booleans())
def transposition(T, team, k, dtype, kind, seed, twice):
    p = team[0]
    n = p * k
    A = content(kind, n, dtype, seed)
    T.nontrivial(p > 1 and n > 1, '%d processes' % p, dtype, kind)
    slabs = [A[r * k:(r + 1) * k] for r in range(p)]
    decide(A, p, k, twice, *T.op('dist:transpose', team, slabs, dtype, twice))


def decide(A, p, k, twice, out, calls, err):
    slabs = [A[r * k:(r + 1) * k] for r in range(p)]
    res = good(out, err)
    for r, (one, two, three, dt) in enumerate(res):
        c = dict(process=r, size=p, rows=k)
        same(one, A[:, r * k:(r + 1) * k], 'slab after collecting the down index', **c)
        same(two, slabs[r], 'the reverse does not restore the original', **c)
        if twice:
            same(three, slabs[r], 'a second round trip', **c)
    check(len(set(calls)) == 1, 'processes took part in different numbers of exchanges', calls=calls)


@P.clause(300, team=teams(), k=st.integers(1, 5), dtype=DT, kind=st.sampled_from(['count', 'random', 'special']), seed=SEED)
def reverse_first(T, team, k, dtype, kind, seed):
    p = team[0]
    n = p * k
    A = content(kind, n, dtype, seed)
    T.nontrivial(p > 1 and n > 1, '%d processes' % p, dtype, kind)
    decide_reverse(A, p, k, *T.op('dist:transpose_up', team, [A[:, r * k:(r + 1) * k].copy() for r in range(p)], dtype))


def decide_reverse(A, p, k, out, calls, err):
    for r, (one, two) in enumerate(good(out, err)):
        same(one, A[r * k:(r + 1) * k], 'slab after collecting the up index', process=r, size=p)
        same(two, A[:, r * k:(r + 1) * k], 'the reverse does not restore the original', process=r, size=p)


@P.clause(150, team=teams(), rows=st.integers(1, 6), cols=st.integers(1, 20), which=st.sampled_from(['collect_dw', 'collect_up']))
def unequal(T, team, rows, cols, which):
    p = team[0]
    shape = (rows, cols) if which == 'collect_dw' else (cols, rows)
    square = rows * p == cols
    T.nontrivial(not square, which, '%d processes' % p)
    out, calls = T.op('dist:refuse', team, [shape] * p, which)
    for r, o in enumerate(out):
        if square:
            check(o[0] == 'ok' and tuple(o[1]) == shape[::-1], 'a square array is refused', got=o, shape=shape)
        else:
            check(o[0] == 'exc' and o[1] != 'TeamError', 'an array of unequal dimensions is not refused', got=o, shape=shape, size=p, process=r)
            check(calls[r] == 0, 'processes exchange data before refusing unequal dimensions', got=o, shape=shape, size=p)


@P.clause(60, n=st.integers(1, 8), seed=SEED)
def alone(T, n, seed):
    """Without a communicator the world of this process is used."""
    A = content('random', n, 'f8', seed)
    T.nontrivial(n > 1)
    one, two = T.op('dist:default_comm', A)
    same(one, A, 'one process')
    same(two, A, 'one process, reverse')


def real(T, p, jobs):
    """jobs: (name, args, decide) -> run on p real processes, all in one start."""
    r = T.op('dist:real', p, [[j[0], list(j[1])] for j in jobs])
    if r is None:
        T.label('mpirun not available')
        return
    T.nontrivial(True, '%d real processes' % p)
    check(r[0] != 'died', 'the real processes died', got=r)
    for (name, args, f), x in zip(jobs, r):
        check(x[0] == 'ok', 'a call fails on real processes', call=name, args=args, got=x)
        f(x[1])


@P.clause(8, thorough=60, p=st.integers(2, 4), seed=SEED, timeout=240)
def real_processes(T, p, seed):
    rng = np.random.default_rng(seed)
    jobs = []
    for i in range(40):
        k = int(rng.integers(1, 5))
        dtype = str(rng.choice(['f8', 'c16', 'f4', 'i8', 'i4']))
        A = content(str(rng.choice(['count', 'random'])), p * k, dtype, int(rng.integers(2 ** 32)))
        if i % 2:
            jobs.append(('transpose', ([p, 0, 0.], [A[r * k:(r + 1) * k] for r in range(p)], dtype, True), lambda x, A=A, k=k: decide(A, p, k, True, *x)))
        else:
            jobs.append(('transpose_up', ([p, 0, 0.], [A[:, r * k:(r + 1) * k].copy() for r in range(p)], dtype), lambda x, A=A, k=k: decide_reverse(A, p, k, *x)))
    real(T, p, jobs)
