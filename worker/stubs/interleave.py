"""Generated schedules for parallel loops.

numba runs the iterations of `for i in prange(n)` of a function compiled with parallel=True on several threads.
When a schedule is set, such functions are executed here as K simulated threads, each with a contiguous part of the
iterations, whose statements are interleaved as the schedule says.  What the loop body assigns is private to the
iteration, scalars that are only accumulated (x += ...) are reductions, everything else is shared; `a[i] += x` is a read
followed by a separate write."""
import ast
import functools
import inspect
import random
import textwrap

_SCHEDULE = None
used = 0          # parallel loops run under a schedule
switches = 0      # changes of the running thread


class schedule:
    """with schedule(seed, threads): ..."""

    def __init__(self, seed, threads, burst=1.):
        self.s = (random.Random(seed), threads, burst)

    def __enter__(self):
        global _SCHEDULE, used, switches
        self.old, _SCHEDULE, used, switches = _SCHEDULE, self.s, 0, 0
        return self

    def __exit__(self, *a):
        global _SCHEDULE
        _SCHEDULE = self.old


def _run(iters, body):
    global used, switches
    rng, k, burst = _SCHEDULE if _SCHEDULE is not None else (random.Random(0), 1, 1.)
    iters = list(iters)
    k = max(1, min(k, len(iters)))
    used += 1

    def thread(part):
        for i in part:
            yield from body(i)
    q, r = divmod(len(iters), k)
    parts, lo = [], 0
    for t in range(k):
        hi = lo + q + (t < r)
        parts.append(thread(iters[lo:hi]))
        lo = hi
    last = None
    while parts:
        t = rng.choice(parts)
        if t is not last:
            switches += 1
            last = t
        n = 1 + int(rng.expovariate(1. / burst)) if burst else 1
        try:
            for _ in range(n):
                next(t)
        except StopIteration:
            parts.remove(t)
            last = None


def _is_prange(node):
    if not isinstance(node, ast.For) or node.orelse or not isinstance(node.iter, ast.Call):
        return False
    f = node.iter.func
    return isinstance(f, ast.Name) and f.id == 'prange' or isinstance(f, ast.Attribute) and f.attr == 'prange'


def _names(nodes):
    """(plainly assigned, accumulated) names of statements"""
    plain, acc = set(), set()
    for top in nodes:
        for x in ast.walk(top):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                acc.add(x.target.id)
        skip = {id(x.target) for x in ast.walk(top) if isinstance(x, ast.AugAssign)}
        for x in ast.walk(top):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in skip:
                plain.add(x.id)
    return plain, acc - plain


_YIELD = 'yield'


def _y():
    return ast.Expr(ast.Yield(None))


class _Body:
    """Inserts switch points."""

    def __init__(self):
        self.k = 0

    def block(self, stmts, top):
        out = []
        for s in stmts:
            out.append(_y())
            out += self.stmt(s, top)
        return out

    def stmt(self, s, top):
        if isinstance(s, ast.For):
            if _is_prange(s):      # an inner parallel loop runs sequentially
                s.iter.func = ast.Name('range', ast.Load())
            s.body = self.block(s.body, False)
            s.orelse = self.block(s.orelse, False)
        elif isinstance(s, ast.While):
            s.body = self.block(s.body, False)
        elif isinstance(s, ast.If):
            s.body = self.block(s.body, top)
            s.orelse = self.block(s.orelse, top)
        elif isinstance(s, ast.With):
            s.body = self.block(s.body, top)
        elif isinstance(s, ast.Try):
            s.body = self.block(s.body, top)
            for h in s.handlers:
                h.body = self.block(h.body, top)
        elif isinstance(s, ast.Continue) and top:
            return [ast.Return(None)]
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
            self.k += 1
            t = '__rmw%d' % self.k
            idx = '__idx%d' % self.k
            read = ast.Subscript(s.target.value, ast.Name(idx, ast.Load()), ast.Load())
            write = ast.Subscript(s.target.value, ast.Name(idx, ast.Load()), ast.Store())
            sl = s.target.slice
            if isinstance(sl, ast.Index):
                sl = sl.value
            if any(isinstance(x, (ast.Slice, getattr(ast, 'ExtSlice', ast.Slice))) for x in ast.walk(s.target.slice)):
                return [s]
            return [ast.Assign([ast.Name(idx, ast.Store())], sl),
                    ast.Assign([ast.Name(t, ast.Store())], ast.BinOp(read, s.op, s.value)),
                    _y(),
                    ast.Assign([write], ast.Name(t, ast.Load()))]
        return [s]


class _Fn:
    def __init__(self, fn):
        self.args = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        self.bound = set(self.args)
        self.n = 0

    def block(self, stmts):
        out = []
        for s in stmts:
            if _is_prange(s):
                out += self.loop(s)
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            p, a = _names([s])
            self.bound |= p
            out.append(s)
        return out

    def loop(self, s):
        self.n += 1
        plain, acc = _names(s.body)
        red = sorted(x for x in acc if x in self.bound)
        name = '__loop%d' % self.n
        body = ([ast.Nonlocal(red)] if red else []) + _Body().block(s.body, True)
        arg = '__i%d' % self.n
        body = (body[:1] if red else []) + [ast.Assign([s.target], ast.Name(arg, ast.Load()))] + (body[1:] if red else body)
        d = ast.FunctionDef(name, ast.arguments(posonlyargs=[], args=[ast.arg(arg, None)], vararg=None, kwonlyargs=[],
                                                kw_defaults=[], kwarg=None, defaults=[]), body, [], None)
        call = ast.Expr(ast.Call(ast.Name('__par__', ast.Load()),
                                 [ast.Call(ast.Name('range', ast.Load()), s.iter.args, []), ast.Name(name, ast.Load())], []))
        return [d, call]


def transform(func):
    """Version of func with scheduled parallel loops, or None."""
    if func.__closure__:
        return None
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(func)))
    except (OSError, SyntaxError, TypeError):
        return None
    fn = tree.body[0]
    if not isinstance(fn, ast.FunctionDef) or not any(_is_prange(x) for x in ast.walk(fn)):
        return None
    fn.decorator_list = []
    f = _Fn(fn)
    fn.body = f.block(fn.body)
    ast.fix_missing_locations(tree)
    ns = {}
    g = func.__globals__
    g.setdefault('__par__', _run)
    exec(compile(tree, func.__code__.co_filename, 'exec'), g, ns)
    new = ns[fn.name]
    new.__defaults__, new.__kwdefaults__ = func.__defaults__, func.__kwdefaults__
    return new


def parallel(func):
    """What a function compiled with parallel=True becomes."""
    cache = []

    @functools.wraps(func)
    def inner(*a, **k):
        if _SCHEDULE is None:
            return func(*a, **k)
        if not cache:
            cache.append(transform(func))
        return (cache[0] or func)(*a, **k)
    return inner
