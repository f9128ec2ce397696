"""Simulated processes: every rank is a thread, collectives are matched by order of calls as MPI does.

The communicator behaves like the blocking subset of mpi4py the code uses.  It refuses what MPI leaves undefined:
ranks that disagree on the collective or on the element count, overlapping send and receive buffers, a rank that leaves
while others wait.  Buffers are delivered in an order chosen by the schedule and ranks are delayed at random."""
import copy
import sys
import threading
import time
import numpy as np

TIMEOUT = 20.


class TeamError(Exception):
    pass


class Team:
    def __init__(self, size, seed=0, jitter=0.):
        self.size, self.jitter = size, jitter
        self.rng = np.random.RandomState(seed % 2 ** 32)
        self.cv = threading.Condition()
        self.slots, self.gen, self.done = {}, [0] * size, [False] * size
        self.error = None
        self.log = [[] for _ in range(size)]

    def fail(self, msg):
        self.error = self.error or msg
        self.cv.notify_all()
        raise TeamError(self.error)

    def meet(self, rank, sig, data):
        """All-to-all exchange of python objects; -> list over ranks."""
        if self.jitter:
            time.sleep(self.jitter * float(self.rng.random_sample()))
        with self.cv:
            if self.error:
                raise TeamError(self.error)
            g = self.gen[rank]
            self.gen[rank] += 1
            slot = self.slots.setdefault(g, {})
            slot[rank] = (sig, data)
            self.log[rank].append(sig)
            if any(s != sig for s, _ in slot.values()):
                self.fail('processes disagree on collective %d: %s' % (g, sorted({str(s) for s, _ in slot.values()})))
            if len(slot) == self.size:
                self.cv.notify_all()
            # computing time: the others may be slow on a busy machine
            end, late = time.process_time() + TIMEOUT, time.time() + 5 * TIMEOUT
            while len(slot) < self.size:
                if self.error:
                    raise TeamError(self.error)
                if any(self.done[r] and self.gen[r] <= g for r in range(self.size)):
                    self.fail('a process left before collective %d (%s)' % (g, sig[0]))
                self.cv.wait(.5)
                if time.process_time() > end or time.time() > late:
                    self.fail('deadlock in collective %d (%s)' % (g, sig[0]))
            return [slot[r][1] for r in range(self.size)]

    def run(self, f, args):
        """f(comm, args[rank]) on every rank; -> results, or an exception tuple ('exc', name, text) per rank."""
        out = [None] * self.size

        def one(r):
            try:
                out[r] = ('ok', f(Comm(self, r), args[r]))
            except BaseException as e:  # noqa
                out[r] = ('exc', type(e).__name__, str(e)[:500])
            with self.cv:
                self.done[r] = True
                self.cv.notify_all()
        ts = [threading.Thread(target=one, args=(r,), daemon=True) for r in range(self.size)]
        order = list(range(self.size))
        self.rng.shuffle(order)
        for r in order:
            ts[r].start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise TeamError('a process does not return')
        return out


def spec(b, writable=False):
    """mpi4py buffer specification -> flat contiguous view of count elements."""
    if isinstance(b, (list, tuple)):
        a, n = b[0], int(b[1]) if len(b) > 1 and not hasattr(b[1], 'Get_size') else None
    else:
        a, n = b, None
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise BufferError('ndarray is not contiguous')
    if writable and not a.flags.writeable:
        raise BufferError('buffer is read-only')
    v = a.ravel(order='K')
    if writable and v.size and not np.shares_memory(v, a):
        raise BufferError('no view of the receive buffer')
    return v, v.size if n is None else n


class Comm:
    def __init__(self, team, rank):
        self.team, self.rank, self.size = team, rank, team.size

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def Barrier(self):
        self.team.meet(self.rank, ('barrier',), None)

    def _pair(self, send, recv):
        s, n = spec(send)
        r, m = spec(recv, True)
        if s.size and r.size and np.shares_memory(s, r):
            with self.team.cv:
                self.team.fail('send and receive buffers overlap')
        if s.dtype != r.dtype:
            with self.team.cv:
                self.team.fail('send and receive types differ')
        return s, n, r, m

    def _deliver(self, parts, r):
        order = np.argsort(self.team.rng.random_sample(len(parts)))
        for k in order:
            at, x = parts[k]
            if at + len(x) > r.size:
                raise TeamError('message truncated')
            r[at:at + len(x)] = x

    def Alltoall(self, send, recv):
        s, n, r, m = self._pair(send, recv)
        p = self.size
        if isinstance(send, np.ndarray):
            n //= p
        if isinstance(recv, np.ndarray):
            m //= p
        # with an explicit [buffer, count] the count is per process
        if n * p > s.size or m * p > r.size:
            raise TeamError('count exceeds the buffer')
        got = self.team.meet(self.rank, ('alltoall', n, m, s.dtype.str), s.copy())
        self._deliver([(q * m, got[q][self.rank * n:(self.rank + 1) * n]) for q in range(p)], r)

    def Allgather(self, send, recv):
        s, n, r, m = self._pair(send, recv)
        if isinstance(recv, np.ndarray):
            m //= self.size
        got = self.team.meet(self.rank, ('allgather', n, m, s.dtype.str), s[:n].copy())
        self._deliver([(q * m, got[q]) for q in range(self.size)], r)

    @staticmethod
    def _in_place(x):
        from mpi4py import MPI
        return x is MPI.IN_PLACE or (isinstance(x, (list, tuple)) and x and x[0] is MPI.IN_PLACE)

    def _fold(self, got, op):
        from mpi4py import MPI
        for o, f in ((MPI.SUM, lambda a, b: a + b), (MPI.MAX, np.maximum), (MPI.MIN, np.minimum), (MPI.PROD, lambda a, b: a * b)):
            if op is None or op == o:
                break
        else:
            raise NotImplementedError('operation')
        t = got[0]
        for y in got[1:]:
            t = f(t, y)
        return t

    def Allreduce(self, send, recv, op=None):
        if self._in_place(send):
            r, m = spec(recv, True)
            s, n = r.copy(), m
        else:
            s, n, r, m = self._pair(send, recv)
        got = self.team.meet(self.rank, ('allreduce', n, m, s.dtype.str), s[:n].copy())
        r[:m] = self._fold(got, op)

    def Reduce(self, send, recv, op=None, root=0):
        if self._in_place(send):
            r, m = spec(recv, True)
            s, n = r.copy(), m
        elif self.rank == root:
            s, n, r, m = self._pair(send, recv)
        else:
            s, n = spec(send)
        got = self.team.meet(self.rank, ('reduce', n, s.dtype.str, root), s[:n].copy())
        if self.rank == root:
            r[:m] = self._fold(got, op)

    def Bcast(self, buf, root=0):
        b, n = spec(buf, self.rank != root)
        got = self.team.meet(self.rank, ('Bcast', n, b.dtype.str, root), b[:n].copy())
        if self.rank != root:
            b[:n] = got[root]

    def Gather(self, send, recv, root=0):
        if self.rank == root:
            s, n, r, m = self._pair(send, recv)
        else:
            s, n = spec(send)
        got = self.team.meet(self.rank, ('gather', n, s.dtype.str, root), s[:n].copy())
        if self.rank == root:
            self._deliver([(q * n, got[q]) for q in range(self.size)], r)

    def allreduce(self, x, op=None):
        return self._fold(self.team.meet(self.rank, ('allreduce obj'), copy.deepcopy(x)), op)

    def reduce(self, x, op=None, root=0):
        t = self._fold(self.team.meet(self.rank, ('reduce obj', root), copy.deepcopy(x)), op)
        return t if self.rank == root else None

    def bcast(self, x, root=0):
        return copy.deepcopy(self.team.meet(self.rank, ('bcast', root), copy.deepcopy(x))[root])

    def allgather(self, x):
        return copy.deepcopy(self.team.meet(self.rank, ('allgather obj',), copy.deepcopy(x)))

    def gather(self, x, root=0):
        t = self.team.meet(self.rank, ('gather obj', root), copy.deepcopy(x))
        return copy.deepcopy(t) if self.rank == root else None

    def scatter(self, x, root=0):
        return copy.deepcopy(self.team.meet(self.rank, ('scatter obj', root), copy.deepcopy(x))[root][self.rank])

    def alltoall(self, x):
        if len(x) != self.size:
            raise ValueError('expecting %d items' % self.size)
        return [copy.deepcopy(y[self.rank]) for y in self.team.meet(self.rank, ('alltoall obj',), copy.deepcopy(list(x)))]

    def barrier(self):
        self.Barrier()
