"""A pure-Python stand-in for numba (numba is not installed in this sandbox).

It runs the decorated functions as ordinary Python, but keeps the parts of numba's
contract a caller can observe:
  * a declared signature converts scalar arguments and the returned scalars to the
    declared types (uint32 wraps, int64 truncates, float64 converts);
  * vectorize works elementwise with broadcasting;
  * guvectorize follows NumPy's gufunc rules (core dimensions must be present and
    agree, loop dimensions broadcast, outputs are allocated or written in place).
Every unknown attribute resolves to a harmless placeholder so that other numba
spellings of the same code keep importing.
"""
import sys
import types
import functools
import re
import numpy as np
try:
    import interleave
except ImportError:  # the stand-in alone
    interleave = None


class Type:
    def __init__(self, name, cast=None, dtype=None, ndim=0, items=None):
        self.name, self.cast, self.dtype, self.ndim, self.items = name, cast, dtype, ndim, items

    def __getitem__(self, idx):
        nd = len(idx) if isinstance(idx, tuple) else 1
        return Type(self.name + '[]', None, self.dtype, nd)

    def __call__(self, *args, **kw):
        # float64(x) on a value converts; float64(t1, t2) builds a signature.
        if len(args) == 1 and not isinstance(args[0], (Type, Sig)) and self.cast:
            return self.cast(args[0])
        return Sig(self, [a for a in args if isinstance(a, Type)])

    def __repr__(self):
        return self.name


class Sig:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args


def _c_int(dt):
    def f(x):
        return int(np.asarray(x).astype(dt))
    return f


def _c_np(dt):
    def f(x):
        return np.asarray(x).astype(dt)[()]
    return f


def _fast_int(x):
    return x if type(x) is int else int(x)


_u32 = np.uint32


def _fast_u32(x):
    if type(x) is _u32:
        return x
    if type(x) is int:
        return _u32(x & 0xffffffff)
    return _u32(int(x) & 0xffffffff)


def _fast_float(x):
    return x if type(x) is float else float(x)


_BASE = {
    'void': Type('void', None, None),
    'none': Type('none', None, None),
    'boolean': Type('boolean', bool, np.bool_),
    'bool_': Type('bool_', bool, np.bool_),
    'b1': Type('b1', bool, np.bool_),
    'int64': Type('int64', _fast_int, np.int64),
    'int_': Type('int_', _fast_int, np.int64),
    'intp': Type('intp', _fast_int, np.int64),
    'i8': Type('i8', _fast_int, np.int64),
    'int32': Type('int32', _fast_int, np.int32),
    'i4': Type('i4', _fast_int, np.int32),
    'intc': Type('intc', _fast_int, np.int32),
    'int16': Type('int16', _c_np(np.int16), np.int16),
    'int8': Type('int8', _c_np(np.int8), np.int8),
    'uint64': Type('uint64', _c_np(np.uint64), np.uint64),
    'u8': Type('u8', _c_np(np.uint64), np.uint64),
    'uintp': Type('uintp', _c_np(np.uint64), np.uint64),
    'uint32': Type('uint32', _fast_u32, np.uint32),
    'u4': Type('u4', _fast_u32, np.uint32),
    'uint16': Type('uint16', _c_np(np.uint16), np.uint16),
    'uint8': Type('uint8', _c_np(np.uint8), np.uint8),
    'float64': Type('float64', _fast_float, np.float64),
    'double': Type('double', _fast_float, np.float64),
    'float_': Type('float_', _fast_float, np.float64),
    'f8': Type('f8', _fast_float, np.float64),
    'float32': Type('float32', _c_np(np.float32), np.float32),
    'f4': Type('f4', _c_np(np.float32), np.float32),
    'complex128': Type('complex128', complex, np.complex128),
    'c16': Type('c16', complex, np.complex128),
    'complex64': Type('complex64', _c_np(np.complex64), np.complex64),
}


def Tuple(types_, *a, **k):
    return Type('Tuple', None, None, 0, list(types_))


def UniTuple(t, n, *a, **k):
    return Type('UniTuple', None, None, 0, [t] * n)


def Array(dtype=None, ndim=1, *a, **k):
    return Type('Array', None, getattr(dtype, 'dtype', None), ndim)


def _parse(text):
    text = text.strip()
    env = dict(_BASE)
    env.update(Tuple=Tuple, UniTuple=UniTuple, Array=Array, list=list)

    class Env(dict):
        def __missing__(self, key):
            return Type(key)
    ns = Env(env)
    txt = re.sub(r'\[\s*(::1|:+\s*(?:,\s*:+1?\s*)*|::1)\s*\]',
                 lambda m: '[' + ','.join('0' for _ in m.group(1).split(',')) + ']', text)
    try:
        if txt.startswith('('):
            txt = 'void' + (txt if txt.rstrip().endswith(')') else txt)
            if re.match(r'^void\(.*\)$', txt):
                pass
        r = eval(txt, {'__builtins__': {}}, ns)
    except Exception:
        return None
    if isinstance(r, Sig):
        return r
    return None


def _as_sigs(spec):
    """Normalise the first argument of a decorator to a list of Sig (unparsable -> [])."""
    if spec is None:
        return []
    if isinstance(spec, str):
        s = _parse(spec)
        return [s] if s else []
    if isinstance(spec, Sig):
        return [spec]
    if isinstance(spec, tuple):
        if all(isinstance(t, Type) for t in spec):
            return [Sig(None, list(spec))]
        return []
    if isinstance(spec, (list, set)):
        out = []
        for s in spec:
            out += _as_sigs(s)
        return out
    return []


def _ret_caster(ret):
    if ret is None or ret.name in ('void', 'none'):
        return None
    if ret.items is not None:
        cs = [_ret_caster(t) or (lambda x: x) for t in ret.items]
        return lambda r: tuple(c(x) for c, x in zip(cs, r))
    if ret.ndim:
        return None
    return ret.cast


def _wrap(func, sigs):
    if not sigs:
        func.py_func = func
        return func
    sig = sigs[0]
    casts = [a.cast if (a.ndim == 0 and a.cast) else None for a in sig.args]
    rc = _ret_caster(sig.ret)
    ncast = len(casts)

    @functools.wraps(func)
    def inner(*args, **kw):
        if len(args) <= ncast:
            args = [c(a) if (c is not None and a is not None and not isinstance(a, np.ndarray)) else a
                    for c, a in zip(casts, args)]
        r = func(*args, **kw)
        return rc(r) if rc is not None else r
    inner.py_func = func
    inner.__wrapped__ = func
    return inner


def njit(*dargs, **dkw):
    if len(dargs) == 1 and callable(dargs[0]) and not isinstance(dargs[0], (Type, Sig)):
        return _wrap(dargs[0], [])
    spec = dargs[0] if dargs else dkw.get('signature_or_function')
    sigs = _as_sigs(spec)
    if dkw.get('parallel') and interleave is not None:
        return lambda f: _wrap(interleave.parallel(f), sigs)
    return lambda f: _wrap(f, sigs)


jit = njit
generated_jit = njit


def cfunc(*a, **k):
    return njit(*a, **k)


def vectorize(*dargs, **dkw):
    def deco(f):
        sigs = _as_sigs(dargs[0]) if dargs and not callable(dargs[0]) else []
        sig = sigs[0] if sigs else None
        dt = sig.ret.dtype if sig is not None and sig.ret is not None else None
        adt = [a.dtype for a in sig.args] if sig is not None else None

        @functools.wraps(f)
        def inner(*args, **kw):
            out = kw.pop('out', None)
            nin = f.__code__.co_argcount
            if len(args) > nin:
                out = args[nin]
                args = args[:nin]
            arrs = [np.asarray(a, dtype=(adt[i] if adt and i < len(adt) else None)) for i, a in enumerate(args)]
            if sum(a.size for a in arrs) and any(a.ndim for a in arrs):
                b = np.broadcast_arrays(*arrs)
                res = [f(*(x[idx] for x in b)) for idx in np.ndindex(b[0].shape)]
                r = np.array(res, dtype=dt).reshape(b[0].shape)
            elif any(a.ndim for a in arrs):
                r = np.empty(np.broadcast(*arrs).shape, dtype=dt or float)
            else:
                r = np.asarray(f(*(a[()] for a in arrs)), dtype=dt)[()]
            if out is not None:
                out[...] = r
                return out
            return r
        inner.py_func = f
        return inner
    if len(dargs) == 1 and callable(dargs[0]) and not isinstance(dargs[0], (Type, Sig)):
        f = dargs[0]
        dargs = ()
        return deco(f)
    return deco


def guvectorize(spec=None, layout=None, *a, **k):
    layout = layout or k.get('signature')
    sigs = _as_sigs(spec if spec is not None else k.get('ftylist'))
    if not sigs and isinstance(spec, (str, list, tuple)):
        sigs = []
    ins, outs = [[tuple(d.strip() for d in p.split(',') if d.strip())
                  for p in re.findall(r'\(([^)]*)\)', side)] for side in layout.split('->')]
    sig = sigs[0] if sigs else None

    def deco(f):
        @functools.wraps(f)
        def inner(*args, **kw):
            out = kw.pop('out', None)
            outl = list(args[len(ins):])
            args = args[:len(ins)]
            if out is not None:
                outl = list(out) if isinstance(out, tuple) else [out]
            if len(args) < len(ins):
                raise TypeError('invalid number of arguments')
            arrs = []
            for i, x in enumerate(args):
                dt = sig.args[i].dtype if sig and i < len(sig.args) else None
                x = np.asarray(x)
                if dt is not None and not np.can_cast(x.dtype, dt, 'same_kind'):
                    raise TypeError('ufunc cannot cast input %d to %s' % (i, dt))
                arrs.append(x.astype(dt, copy=False) if dt is not None else x)
            dims = {}
            loops = []
            for i, (x, core) in enumerate(zip(arrs, ins)):
                if x.ndim < len(core):
                    raise ValueError('Input operand %d does not have enough dimensions '
                                     '(has %d, gufunc core with signature %s requires %d)'
                                     % (i, x.ndim, layout, len(core)))
                cs = x.shape[x.ndim - len(core):]
                for d, s in zip(core, cs):
                    if dims.setdefault(d, s) != s:
                        raise ValueError('Input operand %d has a mismatch in its core dimension' % i)
                loops.append(x.shape[:x.ndim - len(core)])
            for i, o in enumerate(outl):
                core = outs[i]
                if o.ndim < len(core):
                    raise ValueError('Output operand %d does not have enough dimensions' % i)
                for d, s in zip(core, o.shape[o.ndim - len(core):]):
                    if dims.setdefault(d, s) != s:
                        raise ValueError('Output operand %d has a mismatch in its core dimension' % i)
                loops.append(o.shape[:o.ndim - len(core)])
            loop = np.broadcast(*[np.empty(l) for l in loops]).shape if any(loops) else ()
            res = []
            for i, core in enumerate(outs):
                if i < len(outl):
                    res.append(outl[i])
                else:
                    dt = sig.args[len(ins) + i].dtype if sig and len(sig.args) > len(ins) + i else float
                    res.append(np.empty(loop + tuple(dims[d] for d in core), dt))
            bargs = [np.broadcast_to(x, loop + x.shape[x.ndim - len(core):]) for x, core in zip(arrs, ins)]
            for idx in np.ndindex(*loop):
                call = [x[idx] if idx else x for x in bargs]
                for r, core in zip(res, outs):
                    v = r[idx] if idx else r
                    if not core:
                        v = r[idx + (slice(None),)] if False else r.reshape(loop + (1,))[idx] if idx else r.reshape(1)
                    call.append(v)
                f(*call)
            return res[0] if len(res) == 1 else tuple(res)
        inner.py_func = f
        return inner
    return deco


prange = range


class _Anything:
    """Placeholder for numba names this stand-in does not know."""

    def __init__(self, name):
        self.__name = name

    def __call__(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], types.FunctionType) and not k:
            return a[0]
        return _Anything(self.__name + '()')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Anything(self.__name + '.' + n)

    def __getitem__(self, i):
        return self

    def __iter__(self):
        return iter(())


class _Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in _BASE:
            return _BASE[n]
        if n in _EXPORT:
            return _EXPORT[n]
        return _Anything(self.__name__ + '.' + n)


class _TypedDict(dict):
    @classmethod
    def empty(cls, *a, **k):
        return cls()


class _TypedList(list):
    @classmethod
    def empty_list(cls, *a, **k):
        return cls()


_EXPORT = dict(njit=njit, jit=njit, vectorize=vectorize, guvectorize=guvectorize, prange=prange,
               Tuple=Tuple, UniTuple=UniTuple, Array=Array, cfunc=cfunc, generated_jit=njit,
               Dict=_TypedDict, List=_TypedList, objmode=_Anything('objmode'),
               set_num_threads=lambda n: None, get_num_threads=lambda: 1,
               typeof=lambda x: Type('typeof'), literal_unroll=lambda x: x,
               jitclass=lambda *a, **k: (a[0] if a and isinstance(a[0], type) else (lambda c: c)),
               stencil=_Anything('stencil'))


class _Finder:
    """Serves numba.<anything> as placeholder modules."""

    def find_spec(self, name, path=None, target=None):
        if name == 'numba' or name.startswith('numba.'):
            import importlib.machinery
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = _Module(spec.name)
        m.__path__ = []
        if spec.name == 'numba':
            m.__version__ = '0.55.0'
            m.__dict__.update(_EXPORT)
        return m

    def exec_module(self, module):
        pass


def install():
    if 'numba' not in sys.modules:
        sys.meta_path.insert(0, _Finder())
        import numba  # noqa
