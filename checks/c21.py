"""C21 grid refinement."""
from fractions import Fraction as Fr
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.grid', 'model.sources']
ASSUMPTIONS = ['axes are uniform or neighbouring steps differ by more than one part in ten thousand (the code treats steps equal up to 1e-6 as uniform)']


def axis(E, name, n, uniform, lo=-1, scale=1, down=False):
    """strictly increasing axis"""
    a = E.real(name + '0', lo=lo, hi=lo + 0.1) if scale == 1 else E.const(0.0)
    if uniform:
        d = scale * E.real(name + 'd', lo=0.01, hi=0.1)
        return [a + d * i for i in range(n)]
    v = [a]
    st = []
    for i in range(n - 1):
        st.append(E.real('%ss%d' % (name, i), lo=0.01, hi=0.1))
        v.append(v[-1] + scale * st[-1])
    if len(st) > 1:
        for i in range(1, len(st)):
            E.assume(st[i - 1] > st[i] * 1.0001 if down else st[i] > st[i - 1] * 1.0001)
    return v


def same_axis(E, got, ref, label):
    """to rounding: far closer than a part in ten thousand of a step"""
    E.same(tuple(got.shape), (len(ref),), label + ': number of points')
    E.eq(got, E.arr(ref), label, rtol=1e-11, atol=1e-12)


def expected(v, c, density, span):
    lo, hi = max(0, c - span), min(len(v) - 1, c + span)
    out = []
    for i in range(lo, hi):
        out += [v[i] + (v[i + 1] - v[i]) * k / density for k in range(density)]
    return out + [v[hi]]


def make(E, kind, axes):
    G = E.dt.grid
    ax = tuple(E.arr(a) for a in axes)
    return {'ff1': lambda: G.FarField1DSearchGrid(unit='sin', axes=ax), 'ff1deg': lambda: G.FarField1DSearchGrid(unit='deg', axes=ax),
            'ff2': lambda: G.FarField2DSearchGrid(unit='deg', axes=ax), 'nf': lambda: G.NearField2DSearchGrid(axes=ax)}[kind]()


@H(quick=grid(n=[1, 2, 4], uniform=[True, False], density=[1, 2, 3], span=[1, 2]), thorough=grid(n=[1, 2, 3, 6], uniform=[True, False], density=[1, 2, 4, 10], span=[1, 2, 3]),
   bounds='1, 2 or 4 (thorough up to 6) grid points, uniform and non-uniform increasing axes, every chosen point, 1-3 (10) new intervals, 1-2 (3) neighbours')
def one_dim(E, n, uniform, density, span):
    v = axis(E, 'a', n, uniform)
    kind = E.choice('kind', ['ff1', 'ff1deg'])
    g = make(E, kind, [v])
    c = E.conc(E.int('c', 0, n - 1))
    r = g.create_refined_grid_at((c,), density=density, span=span)
    ref = expected(v, c, density, span)
    E.same((type(r).__name__, r.units, r.ndim), (type(g).__name__, g.units, 1), 'kind and unit kept')
    same_axis(E, r.axes[0], ref, 'every adjacent interval in equal parts')
    E.holds((E.np.abs(r.axes[0] - v[c]) < 1e-9).any() if not E.sym else (r.axes[0] == v[c]).any(), 'contains the chosen point')
    for i in range(len(ref) - 1):
        E.holds(r.axes[0][i] < r.axes[0][i + 1], 'increasing')
    (axr,) = g.create_refined_axes_at((c,), density, span)
    E.eq(axr, E.arr(ref), 'refined axes')
    E.eq(r.source_placement.locations, E.arr(ref), 'sources of the refined grid')
    E.eq(g.axes[0], E.arr(v), 'original grid unchanged')


@H(quick=grid(kind=['ff1', 'nf'], uniform=[True, False]), bounds='180 (40 by 30) uniform and 20 (12 by 9) non-uniform points, points near the borders and inside, 1 to 25 new intervals, up to 7 neighbours')
def large(E, kind, uniform):
    n = 180 if kind == 'ff1' else 40
    m = 30
    if not uniform:
        n, m = 20, 9
    step = lambda s, i: s * i if uniform else s * (i + Fr(i * i, 7 * n))
    a, d = E.real('a', lo=-0.5, hi=-0.4), E.real('d', lo=0.001, hi=0.002)
    axes = [[a + step(d, i) for i in range(n)]] + ([[a * 2 + step(d, i) * 3 for i in range(m)]] if kind == 'nf' else [])
    g = make(E, kind, axes)
    c = E.choice('c', [0, 1, 5, n // 2, n - 3, n - 1])
    density, span = E.choice('ds', [(1, 1), (25, 1), (3, 7), (10, 2)])
    co = (c,) + ((min(c, m - 1),) if kind == 'nf' else ())
    r = g.create_refined_grid_at(co, density=density, span=span)
    for j in range(len(axes)):
        same_axis(E, r.axes[j], expected(axes[j], co[j], density, span), 'every adjacent interval in equal parts')
        E.eq(g.axes[j], E.arr(axes[j]), 'original grid unchanged')


@H(quick=grid(kind=['ff2', 'nf'], uniform=[True, False], density=[2], span=[1, 2]) + grid(kind=['ff2', 'nf'], uniform=[True], density=[2], span=[1], shape=[(2, 4)]) + grid(kind=['ff2', 'nf'], uniform=[True], density=[2], span=[2, 3], shape=[(2, 5), (4, 4)]), thorough=grid(kind=['ff2', 'nf'], uniform=[True, False], density=[1, 3], span=[1, 2], shape=[(2, 2), (4, 3)]),
   bounds='3 by 2, 2 by 4, 2 by 5, 4 by 4 (thorough 2 by 2, 4 by 3) points, every chosen point')
def planar(E, kind, uniform, density, span, shape=(3, 2)):
    v, w = axis(E, 'a', shape[0], uniform), axis(E, 'b', shape[1], uniform, 0)
    g = make(E, kind, [v, w])
    c = (E.conc(E.int('c0', 0, shape[0] - 1)), E.conc(E.int('c1', 0, shape[1] - 1)))
    r = g.create_refined_grid_at(c, density=density, span=span)
    E.same((type(r).__name__, r.units, r.ndim, r.axis_names), (type(g).__name__, g.units, 2, g.axis_names), 'kind and unit kept')
    E.eq(r.axes[0], E.arr(expected(v, c[0], density, span)), 'first axis')
    E.eq(r.axes[1], E.arr(expected(w, c[1], density, span)), 'second axis')


@H(quick=grid(kind=['ff1', 'ff2', 'nf']), bounds='two points at once on 3 (by 3) grids')
def several(E, kind):
    n = 3
    axes = [axis(E, 'a', n, True)] + ([axis(E, 'b', n, True, 0)] if kind != 'ff1' else [])
    g = make(E, kind, axes)
    cs = [[E.conc(E.int('c%d%d' % (j, i), 0, n - 1)) for i in range(2)] for j in range(len(axes))]
    if len(axes) > 1:
        E.assume(cs[0][0] <= cs[0][1])
    rs = g.create_refined_grids_at(*[E.np.array(c) for c in cs], density=2, span=1)
    E.same(len(rs), 2, 'one grid per point')
    for i, r in enumerate(rs):
        for j in range(len(axes)):
            E.eq(r.axes[j], E.arr(expected(axes[j], cs[j][i], 2, 1)), 'refined around its own point')


@H(quick=grid(kind=['ff1', 'ff2', 'nf']), bounds='default density and span; invalid arguments')
def arguments(E, kind):
    axes = [axis(E, 'a', 3, True)] + ([axis(E, 'b', 3, True, 0)] if kind != 'ff1' else [])
    g = make(E, kind, axes)
    c = (1,) * len(axes)
    r = g.create_refined_grid_at(c)
    for j in range(len(axes)):
        E.eq(r.axes[j], E.arr(expected(axes[j], 1, 10, 1)), 'default: ten new intervals, one neighbour')
    d, s = E.conc(E.int('d', -1, 1)), E.conc(E.int('s', -1, 1))
    if d < 1 or s < 1:
        E.raises(ValueError, lambda: g.create_refined_grid_at(c, d, s), 'density and span below one are rejected')
    E.raises(ValueError, lambda: g.create_refined_grid_at(c + (0,), 2, 1), 'coordinates of the wrong length are rejected')


@H(quick=grid(density=[2, 3]), bounds='a grid combined of two uniform ranges, every point')
def combined(E, density):
    a, b = E.real('a', lo=-1, hi=-0.5), E.real('b', lo=0.3, hi=0.6)
    g = E.dt.grid.FarField1DSearchGrid([a, b], [a + 0.4, b + 0.3], [2, 3], 'sin')
    v = [g.axes[0][i] for i in range(5)]
    c = E.conc(E.int('c', 0, 4))
    r = g.create_refined_grid_at((c,), density=density, span=1)
    E.eq(r.axes[0], E.arr(expected(v, c, density, 1)), 'every adjacent interval in equal parts')


@H(quick=grid(pattern=['deed', 'dede', 'ddee', 'dedd', 'ddde', 'deeed'], density=[2, 3]), bounds='5 and 6 points with two step sizes in any arrangement (equal first and last steps, alternating, nearly uniform), every point, 1 to 4 neighbours')
def uneven(E, pattern, density):
    d, r = E.real('d', lo=0.01, hi=0.05), E.real('r', lo=1.01, hi=5)
    v = [E.real('a', lo=-0.9, hi=-0.8)]
    for x in pattern:
        v.append(v[-1] + (d if x == 'd' else d * r))
    g = make(E, 'nf', [v, v[:3]])
    c = E.conc(E.int('c', 0, len(v) - 1))
    for span in (1, 2, 3, 4):
        R = g.create_refined_grid_at((c, min(c, 2)), density=density, span=span)
        same_axis(E, R.axes[0], expected(v, c, density, span), 'every adjacent interval in equal parts')
        same_axis(E, R.axes[1], expected(v[:3], min(c, 2), density, span), 'every adjacent interval in equal parts')


@H(quick=grid(n=[3], density=[2]), bounds='two successive refinements of a 3-point uniform or non-uniform grid')
def nested(E, n, density):
    v = axis(E, 'a', n, E.choice('u', [True, False]))
    g = make(E, 'ff1', [v])
    c = E.conc(E.int('c', 0, n - 1))
    r = g.create_refined_grid_at((c,), density=density, span=1)
    w = [r.axes[0][i] for i in range(r.axes[0].shape[0])]
    q = E.conc(E.int('q', 0, len(w) - 1))
    r2 = r.create_refined_grid_at((q,), density=density, span=1)
    E.eq(r2.axes[0], E.arr(expected(w, q, density, 1)), 'refinement of a refined grid')


@H(quick=grid(kind=['ff1', 'nf']), bounds='two or three refinements of one grid in any order, with other coordinates, densities and spans; axes with a uniform and a non-uniform part')
def repeated(E, kind):
    a, d, e = E.real('a', lo=-1, hi=-0.9), E.real('d', lo=0.01, hi=0.1), E.real('e', lo=0.2, hi=0.3)
    v = [a, a + d, a + 2 * d, a + 2 * d + e]
    w = [a, a + e, a + 2 * e]
    axes = [v] if kind == 'ff1' else [v, w]
    g = make(E, kind, axes)
    first, second = E.conc(E.int('p', 0, 3)), E.conc(E.int('q', 0, 3))
    for c, density, span in ((first, 2, 1), (second, 3, 1), (first, 3, 2)):
        cc = (c,) if kind == 'ff1' else (c, min(c, 2))
        r = g.create_refined_grid_at(cc, density=density, span=span)
        for j, ax in enumerate(axes):
            E.eq(r.axes[j], E.arr(expected(ax, cc[j], density, span)), 'every adjacent interval in equal parts')
    for j, ax in enumerate(axes):
        E.eq(g.axes[j], E.arr(ax), 'original grid unchanged')


@H(quick=grid(scale=[1, 1e-7], down=[True]) + [dict(scale=1e-7, down=False)], thorough=grid(scale=[1e3, 1e-9, 1e-12], down=[True, False]),
   bounds='3-point axes with steps of the order of 0.1, 1e-8 (thorough 100, 1e-10 and 1e-13), increasing or decreasing or equal, every point')
def steps(E, scale, down):
    u = E.choice('u', [True, False])
    v = axis(E, 'a', 3, u, scale=scale, down=down)
    g = make(E, 'nf', [v, v])
    c = E.conc(E.int('c', 0, 2))
    r = g.create_refined_grid_at((c, 1), density=3, span=1)
    for j, q in ((0, c), (1, 1)):
        ref = expected(v, q, 3, 1)
        E.same(tuple(r.axes[j].shape), (len(ref),), 'number of points')
        E.eq(r.axes[j] / scale, E.arr(ref) / scale, 'every adjacent interval in equal parts', rtol=1e-9, atol=1e-9)
