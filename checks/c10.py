"""C10 unit conversion."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources', 'utils.conversion']
ASSUMPTIONS = []
RANGE = {'rad': lambda E: E.pi / 2, 'deg': lambda E: 90, 'sin': lambda E: 1}


def locs(E, unit, k, name='t', strict=True):
    h = RANGE[unit](E)
    return E.rarr(name, (k,), lo=-h, hi=h, strict=strict)


def snapshot(x):
    return [x[i] for i in range(len(x))]


@H(quick=grid(a=['rad', 'deg', 'sin'], b=['rad', 'deg', 'sin']) + grid(a=['rad', 'deg', 'sin'], b=['rad', 'deg', 'sin'], k=[9]), thorough=grid(a=['rad', 'deg', 'sin'], b=['rad', 'deg', 'sin'], k=[1, 3]),
   bounds='2 and 9 (thorough 1, 3) directions anywhere inside the valid range, every ordered pair of units')
def placement(E, a, b, k=2):
    P = E.dt.sources.FarField1DSourcePlacement
    x = locs(E, a, k)
    keep = snapshot(x)
    s = P(x, a)
    t = s.as_unit(b)
    E.same(type(t).__name__, 'FarField1DSourcePlacement', 'kind kept')
    E.same(t.units, (b,), 'requested unit')
    E.same((t.size, len(t), t.locations.shape), (k, k, (k,)), 'number of sources')
    E.eq(sin_of(E, t.locations, b), sin_of(E, E.arr(keep), a), 'same sine of the direction')
    E.eq(t.as_unit(a).locations, E.arr(keep), 'converting back gives the original directions')
    E.same(s.units, (a,), 'source unit unchanged')
    E.eq(s.locations, E.arr(keep), 'source object unchanged')
    h = RANGE[b](E)
    for i in range(k):
        E.holds((t.locations[i] >= -h) & (t.locations[i] <= h), 'converted value in the valid range')
    wl = E.real('wl', pos=True)
    arr, _ = any_array(E, '2d', 2)
    E.eq(arr.steering_matrix(t, wl), arr.steering_matrix(s, wl), 'same steering matrix')
    # the copy is independent
    t.locations[0] = E.const(0) if E.sym else 0.0
    E.eq(s.locations, E.arr(keep), 'writing to the converted copy leaves the source unchanged')


@H(quick=grid(a=['rad', 'deg', 'sin'], b=['rad', 'deg', 'sin'], c=['rad', 'deg', 'sin']), bounds='1 direction, every chain of three units')
def chain(E, a, b, c):
    P = E.dt.sources.FarField1DSourcePlacement
    s = P(locs(E, a, 1), a)
    E.eq(s.as_unit(b).as_unit(c).locations, s.as_unit(c).locations, 'conversion through another unit')


@H(quick=grid(a=['rad', 'deg', 'sin'], b=['rad', 'deg', 'sin'], n=[1, 2, 40]), bounds='1, 2 or 40 values in the range where the conversion is invertible')
def helper(E, a, b, n):
    f = E.dt.conversion.convert_angles
    x = locs(E, a, n, 'x')
    keep = snapshot(x)
    y = f(x, a, b)
    want = sin_of(E, E.arr(keep), a)
    E.eq(sin_of(E, y, b), want, 'sine kept')
    E.eq(f(y, b, a), E.arr(keep), 'inverse')
    y[0] = E.const(0) if E.sym else 0.0
    E.eq(x, E.arr(keep), 'input unchanged, result does not alias it')


@H(quick=[{}], bounds='any angle, any sign, outside the principal range as well')
def linear(E):
    f = E.dt.conversion.convert_angles
    x = E.rarr('x', (2,), lo=-20, hi=20)
    E.eq(f(x, 'rad', 'deg') * E.pi, x * 180, 'rad to deg is linear')
    E.eq(f(x, 'deg', 'rad') * 180, x * E.pi, 'deg to rad is linear')
    E.eq(f(x, 'rad', 'sin'), E.np.sin(x), 'rad to sin')


@H(quick=grid(a=['rad', 'deg'], b=['rad', 'deg']), bounds='2 azimuth/elevation pairs anywhere inside the valid range')
def placement2d(E, a, b):
    P = E.dt.sources.FarField2DSourcePlacement
    h = RANGE[a](E)
    az = E.rarr('az', (2,), lo=-2 * h, hi=2 * h, strict=True)
    el = E.rarr('el', (2,), lo=-h, hi=h, strict=True)
    x = E.arr([[az[0], el[0]], [az[1], el[1]]])
    s = P(x, a)
    t = s.as_unit(b)
    E.same(type(t).__name__, 'FarField2DSourcePlacement', 'kind kept')
    E.same(t.units, (b, b), 'requested unit')
    E.same(t.locations.shape, (2, 2), 'shape')
    sc = {('rad', 'deg'): 180 / E.pi, ('deg', 'rad'): E.pi / 180}.get((a, b), 1)
    E.eq(t.locations, E.arr([[az[0] * sc, el[0] * sc], [az[1] * sc, el[1] * sc]]), 'scaled angles')
    E.eq(t.as_unit(a).locations, E.arr([[az[0], el[0]], [az[1], el[1]]]), 'back')
    arr, _ = any_array(E, '3d', 2)
    wl = E.real('wl', pos=True)
    E.eq(arr.steering_matrix(t, wl), arr.steering_matrix(s, wl), 'same steering matrix')
    t.locations[0, 0] = E.const(0) if E.sym else 0.0
    E.eq(s.locations, E.arr([[az[0], el[0]], [az[1], el[1]]]), 'source object unchanged')
    E.same(s.units, (a, a), 'source unit unchanged')


@H(quick=grid(kind=['ff1', 'ff2', 'nf']), bounds='unknown unit names')
def unknown(E, kind):
    if kind == 'ff1':
        u = E.choice('u', ['rad', 'deg', 'sin'])
        s = E.dt.sources.FarField1DSourcePlacement(locs(E, u, 2), u)
        bad = ['cos', 'degree', 'm', '']
    elif kind == 'ff2':
        u = E.choice('u', ['rad', 'deg'])
        h = RANGE[u](E)
        s = E.dt.sources.FarField2DSourcePlacement(E.rarr('x', (2, 2), lo=-h, hi=h, strict=True), u)
        bad = ['sin', 'm', '']
    else:
        x = E.rarr('x', (2, 2), lo=-9, hi=9)
        s = E.dt.sources.NearField2DSourcePlacement(x)
        t = s.as_unit('m')
        E.same(t.units, ('m', 'm'), 'metres')
        E.eq(t.locations, x, 'same positions')
        t.locations[0, 0] = E.const(77) if E.sym else 77.0
        E.holds(s.locations[0, 0] < 10, 'copy does not alias')
        bad = ['rad', 'deg', 'sin', '']
    for b in bad:
        E.raises((ValueError, KeyError), lambda: s.as_unit(b), 'unknown unit is rejected')


@H(quick=[{}], bounds='2 azimuth/elevation pairs anywhere inside the valid range')
def broadside(E):
    h = E.pi / 2
    az = E.rarr('az', (2,), lo=-2 * h, hi=2 * h, strict=True)
    el = E.rarr('el', (2,), lo=-h, hi=h, strict=True)
    y = E.dt.conversion.ae2broad(E.arr([[az[0], el[0]], [az[1], el[1]]]))
    E.same(y.shape, (2, 1), 'one column')
    E.eq(E.np.sin(y[:, 0]), E.np.cos(az) * E.np.cos(el), 'sine of the broadside angle')
    for i in range(2):
        E.holds((y[i, 0] >= -h) & (y[i, 0] <= h), 'broadside range')
