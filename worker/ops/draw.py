"""Drawings of molecules onto a recording plot."""
import sys
import types
import importlib
import numpy as np


class Axes:
    def __init__(self):
        self.lines, self.circles, self.fig = [], [], None

    def plot(self, *a, **k):
        a = [x for x in a if not isinstance(x, str)]
        for x, y in zip(a[::2], a[1::2]):
            x, y = np.array(x, float), np.array(y, float)
            x, y = x.reshape(x.shape[0], -1), y.reshape(y.shape[0], -1)
            for c in range(max(x.shape[1], y.shape[1])):
                self.lines.append(np.stack([x[:, min(c, x.shape[1] - 1)], y[:, min(c, y.shape[1] - 1)]], 1))
        return []

    def add_collection(self, c, *a, **k):
        for s in getattr(c, 'segments', []):
            self.lines.append(np.array(s, float))
        for s in getattr(c, 'patches', []):
            self.add_artist(s)
        return c

    def add_line(self, l, *a, **k):
        self.lines.append(np.stack([np.array(l.x, float), np.array(l.y, float)], 1))
        return l

    def add_artist(self, c, *a, **k):
        if isinstance(c, Circle):
            self.circles.append(c)
        else:
            self.add_line(c)
        return c

    add_patch = add_artist

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Circle:
    def __init__(self, xy, radius=5, **k):
        self.xy, self.radius = np.array(xy, float), float(radius)
        self.color = k.get('color', k.get('facecolor', k.get('fc')))


class Line:
    def __init__(self, x, y, **k):
        self.x, self.y = x, y


class Lines:
    def __init__(self, segments=(), *a, **k):
        self.segments = list(segments)


class Patches:
    def __init__(self, patches=(), *a, **k):
        self.patches = list(patches)


class Atom:
    def __init__(self, atoms, index):
        self.index, self.position, self.symbol = index, atoms.positions[index], 'C'
        self.x, self.y, self.z = self.position


class Atoms:
    def __init__(self, positions):
        self.positions = np.array(positions, float)

    def get_positions(self):
        return self.positions.copy()

    def __len__(self):
        return len(self.positions)

    def __iter__(self):
        return (Atom(self, i) for i in range(len(self)))

    def __getitem__(self, i):
        if np.ndim(i) == 0 and not isinstance(i, slice):
            return Atom(self, int(i))
        return Atoms(self.positions[i])


class Neighbors:
    """half of the neighbours of every atom (lower index first) and the atom itself, as ase's NeighborList does by default"""
    def __init__(self, atoms, bothways=False, self_interaction=True, order=1, cut=1.6):
        p = atoms.positions
        self.nn = []
        for i in range(len(p)):
            d = np.sqrt(((p - p[i]) ** 2).sum(1))
            l = [j for j in range(len(p)) if d[j] < cut and (j > i or (j == i and self_interaction) or (j < i and bothways))]
            self.nn.append(np.array(l[::order], int))

    def get_neighbors(self, i):
        return self.nn[i].copy(), np.zeros((len(self.nn[i]), 3), int)

    def update(self, atoms):
        return False


def _stubs(made, order):
    def subplots(*a, **k):
        made.append(Axes())
        return object(), made[-1]

    def gca():
        made.append(Axes())
        return made[-1]
    mods = {}

    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        m.__path__ = []
        mods[name] = m
        return m
    build = lambda atoms, cutoffs=None, **k: Neighbors(atoms, k.get('bothways', False), k.get('self_interaction', True), order)
    plt = mod('matplotlib.pyplot', subplots=subplots, gca=gca, Circle=Circle, Line2D=Line, plot=lambda *a, **k: None)
    pat = mod('matplotlib.patches', Circle=Circle)
    lin = mod('matplotlib.lines', Line2D=Line)
    col = mod('matplotlib.collections', LineCollection=Lines, PatchCollection=Patches)
    mod('matplotlib', pyplot=plt, patches=pat, lines=lin, collections=col)
    nb = mod('ase.neighborlist', build_neighbor_list=build, natural_cutoffs=lambda atoms, **k: [.8] * len(atoms))
    mod('ase', neighborlist=nb, Atoms=Atoms, Atom=Atom)
    return mods


def _out(ax):
    return dict(lines=[l.tolist() for l in ax.lines], circles=[(c.xy.tolist(), c.radius, c.color) for c in ax.circles])


def draw(what, positions, plane, subset, given, order, v=None, scale=None, sector=None, n=None):
    made = []
    mods = _stubs(made, order)
    old = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        sys.modules.pop('edpyt.cotools', None)
        co = importlib.import_module('edpyt.cotools')
        atoms = Atoms(positions)
        sub = slice(*subset[1]) if subset is not None and subset[0] == 'slice' else None if subset is None else np.array(subset[1])
        ax = Axes() if given else None
        k = {} if scale is None else dict(scale=scale)
        if plane is not None:
            k['plane'] = plane
        if what == 'skeleton':
            k.pop('scale', None)
            r = co.draw_skeleton(atoms, ax, **k)
        elif what == 'orbital':
            v = np.array(v, float)
            v0 = v.copy()
            r = co.draw_feynman_dyson_orbital(atoms, v, sub, ax, **k)
            assert np.array_equal(v0, v), 'the orbital was changed'
        else:
            from edpyt.espace import build_empty_sector
            s = build_empty_sector(n, *sector)
            v = np.array(v, float)
            v0 = v.copy()
            r = co.draw_spin_density(atoms, v, s.states, n, sub, ax, **k)
            assert np.array_equal(v0, v), 'the state was changed'
        out = _out(r)
        out['same'] = bool(r is ax) if given else len(made) == 1 and r is made[0]
        out['moved'] = not np.array_equal(atoms.positions, np.array(positions, float))
        return out
    finally:
        sys.modules.pop('edpyt.cotools', None)
        for k, m in old.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


def refused(positions, size, subset):
    try:
        draw('orbital', positions, 'xy', subset, True, 1, v=[.5] * size)
    except AssertionError as e:
        return 'changed' not in str(e)
    except (ValueError, IndexError):
        return True
    return False
