"""C20 search grids."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.grid', 'model.sources']
ASSUMPTIONS = []


def spaced(a, b, n):
    """n values from a (included) towards b (excluded)"""
    return [a + (b - a) * i / n for i in range(n)]


def limits(E, unit, kind='1d'):
    h = {'rad': E.pi / 2, 'deg': 90, 'sin': 1}[unit]
    return h


def bounds_pair(E, name, lo, hi):
    a = E.real(name + 'a', lo=lo, hi=hi)
    b = E.real(name + 'b', lo=lo, hi=hi)
    E.assume(a < b)
    return a, b


def common(E, g, axes, names, units, cls):
    """axes: list of lists of reference values"""
    shape = tuple(len(a) for a in axes)
    size = 1
    for s in shape:
        size *= s
    E.same((g.ndim, int(g.size), tuple(int(x) for x in g.shape)), (len(axes), size, shape), 'number of points')
    E.same((g.units, g.axis_names), (units, names), 'units and axis names')
    for j, a in enumerate(axes):
        E.eq(g.axes[j], E.arr(a), 'axis values')
    sp = g.source_placement
    E.same((type(sp).__name__, sp.units, sp.size), (cls, units, size), 'source placement of the grid')
    rows = [[]]
    for a in axes:
        rows = [r + [v] for r in rows for v in a]
    E.eq(sp.locations, E.arr([r[0] for r in rows] if len(axes) == 1 else rows), 'all combinations in row-major order')
    # flat index <-> coordinates
    i = E.conc(E.int('flat', 0, size - 1)) if size < 20 else E.choice('flat', [0, 1, size // 3, size - 2, size - 1])
    co, q = [], i
    for s in reversed(shape):
        co.insert(0, q % s)
        q //= s
    E.eq(E.arr([axes[j][c] for j, c in enumerate(co)]), E.arr(rows[i]), 'flat index and coordinates agree')
    got = sp[i]
    E.eq(E.arr([got] if len(axes) == 1 else [got[j] for j in range(len(axes))]), E.arr([g.axes[j][c] for j, c in enumerate(co)]), 'flat index and coordinates agree')
    E.eq(g.source_placement.locations, sp.locations, 'same placement on every access')


@H(quick=grid(unit=['rad', 'deg', 'sin'], n=[1, 2, 3, 360], default=[False, True]), thorough=grid(unit=['rad', 'deg', 'sin'], n=[1, 2, 4, 7, 12], default=[False, True]),
   bounds='1..3, 360 (thorough up to 12) points, any start < stop inside the valid range or the default range')
def far1d(E, unit, n, default):
    G = E.dt.grid.FarField1DSearchGrid
    h = limits(E, unit)
    if default:
        g, a, b = G(size=n, unit=unit), E.const(0) - h, E.const(0) + h
    else:
        a, b = bounds_pair(E, 'r', -h, h)
        g = G(a, b, n, unit)
    common(E, g, [spaced(a, b, n)], ('DOA',), (unit,), 'FarField1DSourcePlacement')


@H(quick=[{}], bounds='half-open defaults')
def half_defaults(E):
    G = E.dt.grid.FarField1DSearchGrid
    a = E.real('a', lo=-1, hi=1, strict=True)
    E.eq(G(start=a, size=3, unit='sin').axes[0], E.arr(spaced(a, 1, 3)), 'default stop')
    E.eq(G(stop=a, size=3, unit='sin').axes[0], E.arr(spaced(-1 + 0 * a, a, 3)), 'default start')
    g = G()
    E.same((int(g.size), g.units), (180, ('rad',)), 'default size and unit')


@H(quick=grid(unit=['rad', 'deg', 'sin'], sizes=[[1, 2], [3, 1], [2, 2, 1], [40, 1, 25, 3]]), thorough=grid(unit=['rad', 'deg', 'sin'], sizes=[[1], [4, 3], [1, 1, 1], [2, 3, 4]]),
   bounds='2 to 4 (thorough 1-3) ranges with the listed sizes, any starts < stops')
def segments(E, unit, sizes):
    G = E.dt.grid.FarField1DSearchGrid
    h = limits(E, unit)
    pr = [bounds_pair(E, 'r%d' % i, -h, h) for i in range(len(sizes))]
    g = G([p[0] for p in pr], [p[1] for p in pr], list(sizes), unit)
    ref = [v for p, n in zip(pr, sizes) for v in spaced(p[0], p[1], n)]
    common(E, g, [ref], ('DOA',), (unit,), 'FarField1DSourcePlacement')


@H(quick=grid(kind=['ff2', 'nf'], size=[(2, 3), (1, 2), 2, (20, 15), 18], unit=['rad', 'deg']), thorough=grid(kind=['ff2', 'nf'], size=[(3, 3), (2, 1), (1, 1), 3, (4, 3)], unit=['rad', 'deg']),
   bounds='up to 2 by 3 (thorough 4 by 3) and 20 by 15 points, any start < stop on both axes, scalar and pair sizes')
def planar(E, kind, size, unit):
    if isinstance(size, list):
        size = tuple(size)
    s = (size, size) if isinstance(size, int) else size
    if kind == 'nf':
        if unit == 'deg':
            return
        (a, b), (c, d) = bounds_pair(E, 'x', -9, 9), bounds_pair(E, 'y', -9, 9)
        g = E.dt.grid.NearField2DSearchGrid((a, c), (b, d), size)
        common(E, g, [spaced(a, b, s[0]), spaced(c, d, s[1])], ('x', 'y'), ('m', 'm'), 'NearField2DSourcePlacement')
    else:
        h = limits(E, unit)
        (a, b), (c, d) = bounds_pair(E, 'x', -2 * h, 2 * h), bounds_pair(E, 'y', -h, h)
        g = E.dt.grid.FarField2DSearchGrid((a, c), (b, d), size, unit)
        common(E, g, [spaced(a, b, s[0]), spaced(c, d, s[1])], ('Azimuth', 'Elevation'), (unit, unit), 'FarField2DSourcePlacement')


@H(quick=grid(unit=['rad', 'deg'], size=[(2, 3)]), bounds='default ranges of the two-dimensional far-field grid')
def planar_default(E, unit, size):
    size = tuple(size)
    h = limits(E, unit)
    g = E.dt.grid.FarField2DSearchGrid(size=size, unit=unit)
    common(E, g, [spaced(-2 * h + E.const(0), 2 * h, 2), spaced(E.const(0), h, 3)], ('Azimuth', 'Elevation'), (unit, unit), 'FarField2DSourcePlacement')


@H(quick=grid(kind=['ff1', 'ff2', 'nf']), bounds='explicit axes with 3 and 2 points anywhere')
def explicit(E, kind):
    G = E.dt.grid
    x, y = E.rarr('x', (3,), lo=-1, hi=1), E.rarr('y', (2,), lo=-1, hi=1)
    ax, ay = [x[i] for i in range(3)], [y[i] for i in range(2)]
    if kind == 'ff1':
        common(E, G.FarField1DSearchGrid(unit='deg', axes=(x,)), [ax], ('DOA',), ('deg',), 'FarField1DSourcePlacement')
    elif kind == 'ff2':
        common(E, G.FarField2DSearchGrid(unit='deg', axes=(x, y)), [ax, ay], ('Azimuth', 'Elevation'), ('deg', 'deg'), 'FarField2DSourcePlacement')
    else:
        common(E, G.NearField2DSearchGrid(axes=(x, y)), [ax, ay], ('x', 'y'), ('m', 'm'), 'NearField2DSourcePlacement')
    bad = {'ff1': lambda: G.FarField1DSearchGrid(axes=[x]), 'ff2': lambda: G.FarField2DSearchGrid(axes=[x, y]), 'nf': lambda: G.NearField2DSearchGrid(axes=[x, y])}[kind]
    E.raises(ValueError, bad, 'axes that are not a tuple are rejected')


@H(quick=grid(kind=['ff1', 'ff2'], unit=['rad', 'deg', 'sin'], which=['start', 'stop']), bounds='only the start or only the stop of the range given (any value inside the valid range), 3 points per axis')
def half_default(E, kind, unit, which):
    G = E.dt.grid
    if kind == 'ff1':
        h = limits(E, unit)
        v = E.real('v', lo=-0.9, hi=0.9) * h
        g = G.FarField1DSearchGrid(size=3, unit=unit, **{which: v})
        ax = [spaced(v, h, 3) if which == 'start' else spaced(-h, v, 3)]
        common(E, g, ax, ('DOA',), (unit,), 'FarField1DSourcePlacement')
        return
    if unit == 'sin':
        return
    h = E.pi if unit == 'rad' else 180
    v = [E.real('v', lo=-0.9, hi=0.9) * h, E.real('w', lo=0.1, hi=0.4) * h]
    g = G.FarField2DSearchGrid(size=3, unit=unit, **{which: v})
    lo, hi = ((v, [h, h / 2]) if which == 'start' else ([-h, 0], v))
    common(E, g, [spaced(lo[j], hi[j], 3) for j in range(2)], ('Azimuth', 'Elevation'), (unit, unit), 'FarField2DSourcePlacement')
