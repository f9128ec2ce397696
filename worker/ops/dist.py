"""Distributed operations on simulated processes."""
import numpy as np
from ops import mb
from ops.team import Team, TeamError


def _team(sched):
    p, seed, jitter = sched
    return Team(p, seed, jitter)


def _vals(out):
    return [o[1] if o[0] == 'ok' else o for o in out]


def transpose(sched, A, dtype, twice):
    """A: list of slabs (rank), -> slabs after collect_dw and after collect_up of that."""
    from edpyt.vector_transpose import collect_dw, collect_up

    def f(comm, a):
        a = np.array(a, dtype)
        b = collect_dw(a, comm)
        one = np.array(b)
        c = collect_up(b, comm)
        two = np.array(c)
        three = None
        if twice:
            three = np.array(collect_up(collect_dw(c, comm), comm))
        return one, two, three, str(one.dtype)
    t = _team(sched)
    out = t.run(f, A)
    return out, [len(x) for x in t.log], t.error


def transpose_up(sched, A, dtype):
    """collect_up first, then collect_dw."""
    from edpyt.vector_transpose import collect_dw, collect_up

    def f(comm, a):
        b = collect_up(np.array(a, dtype), comm)
        one = np.array(b)
        return one, np.array(collect_dw(b, comm))
    t = _team(sched)
    return t.run(f, A), [len(x) for x in t.log], t.error


def refuse(sched, shapes, which):
    """Slabs of other shapes: what happens on every process."""
    from edpyt import vector_transpose

    def f(comm, s):
        return np.array(getattr(vector_transpose, which)(np.zeros(s), comm)).shape
    t = _team(sched)
    return t.run(f, shapes), [len(x) for x in t.log]


def default_comm(A):
    """The world communicator of this single process."""
    from edpyt.vector_transpose import collect_dw, collect_up
    b = collect_dw(np.array(A, float))
    one = np.array(b)
    return one, np.array(collect_up(b))


def _ops(m):
    from edpyt.espace import build_empty_sector
    from edpyt.build_mb_ham import build_mb_ham
    H = mb.arr(m['H'])
    sct = build_empty_sector(H.shape[-1], *m['qns'])
    return build_mb_ham(H, mb.pot(m['U']), sct)


def model(sched, m, vecs):
    """The operators of a sector as built by the code, serial and distributed."""
    from edpyt.matvec_product import matvec_operator, todense
    ops = _ops(m)
    d = ops[0].size
    vecs = [np.resize(np.array(v, float), d) for v in vecs]
    serial = matvec_operator(*ops)
    want = [np.array(serial(v)) for v in vecs]

    def f(comm, _):
        k = d // comm.size
        cut = slice(comm.rank * k, (comm.rank + 1) * k)
        op = matvec_operator(ops[0][cut], ops[1], ops[2], comm=comm)
        return [np.array(op(v[cut].copy())) for v in vecs]
    t = _team(sched)
    return t.run(f, [None] * t.size), want, vecs, np.array(todense(*ops)), t.error


def _csr32(A):
    from scipy.sparse import csr_matrix
    A = csr_matrix(np.array(A, float))
    return csr_matrix((A.data, A.indices.astype(np.int32), A.indptr.astype(np.int32)), shape=A.shape)


def _slab(x, comm, dup):
    k = x.size // comm.size
    return x[comm.rank * k:(comm.rank + 1) * k].copy()


def product(sched, diag, up, dw, vecs):
    """Every rank owns a slab along the down index; -> slabs of H v for all vectors, and of H (H v0)."""
    from edpyt.matvec_product import matvec_operator
    diag, vecs = np.array(diag, float), [np.array(v, float) for v in vecs]
    up, dw = _csr32(up), _csr32(dw)
    dup = up.shape[0]

    def f(comm, _):
        op = matvec_operator(_slab(diag, comm, dup), up, dw, comm=comm)
        out, kept = [], True
        for v in vecs:
            x = _slab(v, comm, dup)
            y = op(x)
            kept &= np.array_equal(x, _slab(v, comm, dup))
            out.append(np.array(y))
        twice = np.array(op(np.array(out[0])))
        return out, twice, bool(kept), bool(np.array_equal(op(_slab(vecs[0], comm, dup)), out[0]))
    t = _team(sched)
    return t.run(f, [None] * t.size), t.error


def refused(sched, diag, up, dw):
    from edpyt.matvec_product import matvec_operator

    def f(comm, _):
        matvec_operator(np.array(diag, float), _csr32(up), _csr32(dw), comm=comm)
    t = _team(sched)
    return t.run(f, [None] * t.size)


def lanczos(sched, diag, up, dw, v, kw, second):
    """Serial and distributed recursion with the distributed product; second pass with the given selection."""
    from edpyt.matvec_product import matvec_operator
    from edpyt.lanczos import build_sl_tridiag, sl_solve, sl_step
    diag, v = np.array(diag, float), np.array(v, float)
    up, dw = _csr32(up), _csr32(dw)
    dup = up.shape[0]
    kw = dict(kw)

    def f(comm, _):
        op = matvec_operator(_slab(diag, comm, dup), up, dw, comm=comm)
        a, b = build_sl_tridiag(op, _slab(v, comm, dup), comm=comm, **kw)
        r = dict(a=np.array(a), b=np.array(b))
        w, X = sl_solve(op, a, b, _slab(v, comm, dup), comm=comm, **second)
        r.update(w=np.array(w), X=np.array(X))
        r['only'] = np.array(sl_solve(op, a, b, eigvals_only=True, comm=comm, **second))
        return r
    t = _team(sched)
    return t.run(f, [None] * t.size), [len(x) for x in t.log], t.error


def serial_lanczos(A, v, kw, second):
    from edpyt.lanczos import build_sl_tridiag, sl_solve
    A, v = np.array(A, float), np.array(v, float)
    a, b = build_sl_tridiag(lambda x: A @ x, v.copy(), **kw)
    w, X = sl_solve(lambda x: A @ x, a, b, v.copy(), **second)
    return np.array(a), np.array(b), np.array(w), np.array(X)


def step(sched, diag, up, dw, v, l):
    from edpyt.matvec_product import matvec_operator
    from edpyt.lanczos import sl_step
    diag, v, l = np.array(diag, float), np.array(v, float), np.array(l, float)
    up, dw = _csr32(up), _csr32(dw)
    dup = up.shape[0]

    def f(comm, _):
        op = matvec_operator(_slab(diag, comm, dup), up, dw, comm=comm)
        a, b, x, w = sl_step(op, comm=comm)(_slab(v, comm, dup), _slab(l, comm, dup))
        return float(a), float(b), np.array(x), np.array(w)
    t = _team(sched)
    return t.run(f, [None] * t.size), t.error


def counts(sched, n, nup, ndw, vecs, order, coeffs):
    from edpyt.sector import generate_states
    from edpyt.observs import get_evecs_occupation
    sup, sdw = generate_states(n, nup), generate_states(n, ndw)
    V = np.array(vecs, float).T                    # (d, nev)
    co = None if coeffs is None else np.array(coeffs, float)

    def f(comm, _):
        k = V.shape[0] // comm.size
        x = np.array(V[comm.rank * k:(comm.rank + 1) * k], order=order)
        up, dw = get_evecs_occupation(x, sup, sdw, n, co, comm=comm)
        return np.array(up), np.array(dw), bool(np.array_equal(x, V[comm.rank * k:(comm.rank + 1) * k]))
    t = _team(sched)
    out = t.run(f, [None] * t.size)
    serial = get_evecs_occupation(np.array(V, order=order), sup, sdw, n, co)
    return out, [np.array(x) for x in serial], t.error


_mpi = {}


def _launch(p, argv, timeout):
    import os
    import subprocess
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PMIX_', 'OMPI_MCA_orte', 'OMPI_MCA_ess', 'OMPI_COMM'))}
    env.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMP_NUM_THREADS='1')
    pr = subprocess.Popen(['mpirun', '--oversubscribe', '--bind-to', 'none', '-n', str(p)] + argv, env=env,
                          stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        return pr.communicate(timeout=timeout)[0], pr.returncode
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(pr.pid, signal.SIGKILL)
        pr.wait()
        return b'timeout', None


def real(p, calls):
    """The same calls on p real MPI processes; None when such processes cannot be started here."""
    import os
    import shutil
    import sys
    import tempfile
    from vf import codec
    job = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mpi_job.py')
    if 'ok' not in _mpi:
        try:
            out, rc = _launch(2, [sys.executable, '-B', '-c', 'from mpi4py import MPI; c = MPI.COMM_WORLD; print("sum", c.allreduce(c.rank + 1), c.size)'], 60)
            _mpi['ok'] = rc == 0 and out.decode(errors='replace').count('sum 3 2') == 2
        except OSError:
            _mpi['ok'] = False
    if not _mpi['ok']:
        return None
    d = tempfile.mkdtemp()
    try:
        with open(d + '/in', 'wb') as fh:
            fh.write(codec.dumps(calls))
        out, rc = _launch(p, [sys.executable, '-B', job, sys.argv[1], sys.argv[2], d + '/in', d + '/out'], 90)
        if not os.path.exists(d + '/out'):
            if rc is None:
                return None                      # a loaded machine: the simulated processes decide deadlocks
            return 'died', rc, out.decode(errors='replace')[-800:]
        with open(d + '/out', 'rb') as fh:
            return codec.load(fh)
    finally:
        shutil.rmtree(d, ignore_errors=True)
