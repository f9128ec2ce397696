"""One real MPI process: argv REPO BUILD INPUT OUTPUT.  Executes the recorded calls of ops.dist on the world communicator."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO, BUILD, INPUT, OUTPUT = sys.argv[1:5]
sys.path.insert(0, HERE)
import main as setup                     # noqa: E402  paths, stand-ins and this run's compiled modules
import numpy as np                       # noqa: E402
from vf import codec                     # noqa: E402
from mpi4py import MPI                   # noqa: E402
from ops import dist                     # noqa: E402

comm = MPI.COMM_WORLD


class World:
    """What ops.team.Team offers, on real processes."""

    def __init__(self, size):
        assert comm.Get_size() == size
        self.size, self.error, self.log = size, None, [[] for _ in range(size)]

    def run(self, f, args):
        try:
            r = ('ok', f(comm, args[comm.Get_rank()]))
        except Exception as e:
            r = ('exc', type(e).__name__, str(e)[:500])
        b = codec.dumps(r)
        # length-prefixed, so that no pickling of ours travels through MPI's object layer
        n = np.zeros(self.size, 'i8')
        comm.Allgather([np.array([len(b)], 'i8'), 1], [n, 1])
        m = int(n.max())
        buf = np.zeros(m, 'u1')
        buf[:len(b)] = np.frombuffer(b, 'u1')
        out = np.zeros(m * self.size, 'u1')
        comm.Allgather([buf, m], [out, m])
        return [codec.loads(out[q * m:q * m + int(n[q])].tobytes()) for q in range(self.size)]


def run():
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    dist._team = lambda s: World(s[0])
    with open(INPUT, 'rb') as fh:
        calls = codec.load(fh)
    res = []
    for name, args in calls:
        try:
            res.append(('ok', getattr(dist, name)(*args)))
        except Exception as e:
            res.append(('exc', type(e).__name__, str(e)[:500]))
    if comm.Get_rank() == 0:
        with open(OUTPUT + '.tmp', 'wb') as fh:
            fh.write(codec.dumps(res))
        os.rename(OUTPUT + '.tmp', OUTPUT)


run()
