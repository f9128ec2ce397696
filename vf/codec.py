"""Transport encoding shared by the driver (CPython, numpy 2) and the worker (PyPy, numpy 1.21):
ndarrays and numpy scalars become tagged plain tuples, everything is pickled with protocol 4."""
import pickle
import struct
import numpy as np

ND = '\0nd'
SC = '\0sc'
NT = '\0obj'


def enc(o):
    if o is None or type(o) in (bool, int, float, complex, str, bytes):
        return o
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return (NT, 'objarray', o.shape, [enc(x) for x in o.ravel().tolist()])
        f = bool(o.ndim > 1 and o.flags.f_contiguous and not o.flags.c_contiguous)
        return (ND, o.dtype.str, o.shape, f, np.asarray(o).tobytes('F' if f else 'C'))
    if isinstance(o, np.generic):
        return (SC, o.dtype.str, o.tobytes())
    if isinstance(o, tuple):
        return tuple([enc(x) for x in o])
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        return {enc(k): enc(v) for k, v in o.items()}
    if isinstance(o, (set, frozenset)):
        return [enc(x) for x in o]
    return (NT, 'repr', repr(o)[:500])


def dec(o):
    if isinstance(o, tuple):
        if o and o[0] == ND:
            a = np.frombuffer(o[4], dtype=np.dtype(o[1])).reshape(o[2], order='F' if o[3] else 'C')
            return a.copy(order='F' if o[3] else 'C')
        if o and o[0] == SC:
            return np.frombuffer(o[2], dtype=np.dtype(o[1]))[0]
        if o and o[0] == NT:
            return o[1:]
        return tuple([dec(x) for x in o])
    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        return {dec(k): dec(v) for k, v in o.items()}
    return o


def dumps(o):
    b = pickle.dumps(enc(o), protocol=4)
    return struct.pack('<Q', len(b)) + b


def read_exact(f, n):
    out = b''
    while len(out) < n:
        c = f.read(n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def load(f):
    n, = struct.unpack('<Q', read_exact(f, 8))
    return dec(pickle.loads(read_exact(f, n)))


def loads(b):
    import io
    return load(io.BytesIO(b))
