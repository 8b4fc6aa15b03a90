"""C11 spherical coordinates."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.sources', 'utils.conversion']
ASSUMPTIONS = ['atan2, asin, sin, cos and sqrt are exact real functions']


def back(E, r, az, el):
    c = r * E.np.cos(el)
    return [c * E.np.cos(az), c * E.np.sin(az), r * E.np.sin(el)]


@H(quick=grid(d=[1, 2, 3]) + [dict(d=2, m=2, k=9), dict(d=3, m=9, k=2)], thorough=grid(d=[1, 2, 3], m=[1, 3], k=[1, 3]),
   bounds='2 (also 9, thorough 1, 3) near-field sources and 2 (9; 1, 3) reference points at arbitrary, distinct positions in 1 to 3 dimensions')
def near(E, d, m=2, k=2):
    X = E.rarr('s', (k, 2), lo=-9, hi=9)
    R = E.rarr('r', (m, d), lo=-9, hi=9)
    for i in range(m):
        for j in range(k):
            # a source straight above a reference point has no azimuth
            E.assume(((X[j, 0] - R[i, 0]) != 0) | ((X[j, 1] - (R[i, 1] if d > 1 else 0)) != 0))
    src = E.dt.sources.NearField2DSourcePlacement(X)
    keep, keepr = E.arr(X.copy()), E.arr(R.copy())
    r, az, el = src.calc_spherical_coords(R)
    E.same((r.shape, az.shape, el.shape), ((m, k),) * 3, 'one row per reference point, one column per source')
    for i in range(m):
        for j in range(k):
            p = back(E, r[i, j], az[i, j], el[i, j])
            q = [keepr[i, c] if c < d else 0 for c in range(3)]
            E.eq(E.arr([p[0] + q[0], p[1] + q[1], p[2] + q[2]]), E.arr([keep[j, 0], keep[j, 1], keep[j, 0] * 0]), 'range, azimuth and elevation lead back to the source')
            E.holds(r[i, j] >= 0, 'range is non-negative')
            E.holds(E.np.cos(el[i, j]) >= 0, 'elevation within a quarter turn of the xy-plane')
    E.eq(src.locations, keep, 'source unchanged')
    E.eq(R, keepr, 'reference points unchanged')


@H(quick=grid(d=[1, 2, 3]) + grid(d=[1, 2, 3], n=[7]), bounds='2 (also 7) points anywhere (not on the z-axis), 1 to 3 coordinates')
def helper(E, d, n=2):
    X = E.rarr('x', (n, d), lo=-9, hi=9)
    for i in range(n):
        E.assume((X[i, 0] != 0) | (X[i, 1] != 0) if d > 1 else X[i, 0] != 0)
    keep = E.arr(X.copy())
    s = E.dt.conversion.cart2spherical(X)
    E.same(s.shape, (n, 3), 'three coordinates per point')
    for i in range(n):
        p = back(E, s[i, 0], s[i, 1], s[i, 2])
        E.eq(E.arr(p[:d]), E.arr([keep[i, c] for c in range(d)]), 'leads back to the point')
        if d < 3:
            E.eq(s[i, 2], keep[i, 0] * 0, 'in the xy-plane')
        E.holds(s[i, 0] >= 0, 'range is non-negative')
        E.holds(E.np.cos(s[i, 2]) >= 0, 'elevation within a quarter turn of the xy-plane')
    E.eq(X, keep, 'points unchanged')


@H(quick=[{}], bounds='points on the z-axis and the origin')
def degenerate(E):
    z = E.real('z', lo=-9, hi=9)
    s = E.dt.conversion.cart2spherical(E.arr([[z * 0, z * 0, z]]))
    E.eq(s[0, 0], abs(z), 'range on the z-axis')
    E.eq(s[0, 0] * E.np.sin(s[0, 2]), z, 'height on the z-axis')
    o = E.dt.conversion.cart2spherical(E.arr([[z * 0, z * 0]]))
    E.eq(o[0, 0], z * 0, 'range of the origin')


@H(quick=grid(d=[1, 2, 3]), bounds='a near-field source exactly at, above or below a reference point')
def at_reference(E, d):
    X = E.rarr('s', (1, 2), lo=-9, hi=9)
    z = [E.real('z', lo=-9, hi=9)] if d > 2 else []
    if d == 1:
        X = E.arr([[X[0, 0], 0 * X[0, 0]]])
    r, az, el = E.dt.sources.NearField2DSourcePlacement(X).calc_spherical_coords(E.arr([[X[0, 0], X[0, 1]][:d] + z]))
    E.eq(r[0, 0], abs(z[0]) if z else 0 * X[0, 0], 'distance')
    E.eq(r[0, 0] * E.np.sin(el[0, 0]), -z[0] if z else 0 * X[0, 0], 'height of the source relative to the reference point')
    E.holds((el[0, 0] <= E.pi / 2 + 1e-9) & (el[0, 0] >= -E.pi / 2 - 1e-9), 'elevation is a number within a quarter turn')
    E.holds((az[0, 0] <= E.pi + 1e-9) & (az[0, 0] >= -E.pi - 1e-9), 'azimuth is a number')


@H(quick=[{}], bounds='the origin in three dimensions')
def origin(E):
    o = E.dt.conversion.cart2spherical(E.np.zeros((1, 3)))
    E.eq(o, E.np.zeros((1, 3)), 'range and angles of the origin')


@H(quick=grid(unit=['rad', 'deg', 'sin'], d=[1, 2, 3]), thorough=grid(unit=['rad', 'deg', 'sin'], d=[1, 2, 3], m=[1, 3]), bounds='2 one-dimensional far-field sources, 2 (thorough 1, 3) reference points anywhere, every unit')
def far1d(E, unit, d, m=2):
    src = far1(E, 2, unit)
    x = E.arr(src.locations.copy())
    R = E.rarr('r', (m, d), lo=-9, hi=9)
    r, az, el = src.calc_spherical_coords(R)
    E.same((r.shape, az.shape, el.shape), ((m, 2),) * 3, 'shape')
    for i in range(m):
        for k in range(2):
            E.holds(E.np.isinf(r[i, k]), 'infinite range')
            E.eq(el[i, k], R[0, 0] * 0, 'zero elevation')
            th = {'rad': lambda: x[k], 'deg': lambda: x[k] * (E.pi / 180), 'sin': lambda: E.np.arcsin(x[k])}[unit]()
            E.eq(az[i, k], E.pi / 2 - th, 'azimuth = pi/2 - broadside angle')
    E.eq(src.locations, x, 'source unchanged')
    az[0, 0] = E.const(0) if E.sym else 0.0
    E.eq(src.locations, x, 'result does not alias the source')


@H(quick=grid(unit=['rad', 'deg'], d=[1, 2, 3]), bounds='2 two-dimensional far-field sources, 2 reference points anywhere, every unit')
def far2d(E, unit, d):
    h = E.pi / 2 if unit == 'rad' else 90
    az0 = E.rarr('az', (2,), lo=-2 * h, hi=2 * h, strict=True)
    el0 = E.rarr('el', (2,), lo=-h, hi=h, strict=True)
    src = E.dt.sources.FarField2DSourcePlacement(E.arr([[az0[0], el0[0]], [az0[1], el0[1]]]), unit)
    R = E.rarr('r', (2, d), lo=-9, hi=9)
    r, az, el = src.calc_spherical_coords(R)
    sc = 1 if unit == 'rad' else E.pi / 180
    E.same((r.shape, az.shape, el.shape), ((2, 2),) * 3, 'shape')
    for i in range(2):
        for k in range(2):
            E.holds(E.np.isinf(r[i, k]), 'infinite range')
            E.eq(az[i, k], az0[k] * sc, 'own azimuth')
            E.eq(el[i, k], el0[k] * sc, 'own elevation')
    az[0, 0] = E.const(0) if E.sym else 0.0
    el[0, 0] = E.const(0) if E.sym else 0.0
    E.eq(src.locations, E.arr([[az0[0], el0[0]], [az0[1], el0[1]]]), 'result does not alias the source')


@H(quick=grid(d=[1, 2, 3]), bounds='four sets of integer positions, 2 reference points on integers')
def integers(E, d):
    import numpy as np
    X = E.choice('X', [[[3, 4, 2], [-2, 5, -1]], [[1, 1, 1], [0, -1, 3]], [[-1, 0, 0], [2, -7, 9]], [[100, 1, 1], [1, 2, 2]]])
    X = [r[:d] for r in X]
    s = E.dt.conversion.cart2spherical(np.array(X))
    E.eq(s, E.dt.conversion.cart2spherical(E.arr([[E.const(float(v)) for v in r] for r in X])), 'coordinates of integer points')
    src = E.dt.sources.NearField2DSourcePlacement(np.array([[7, 3], [-2, 5]]))
    flt = E.dt.sources.NearField2DSourcePlacement(E.arr([[E.const(7.0), E.const(3.0)], [E.const(-2.0), E.const(5.0)]]))
    for a, b in zip(src.calc_spherical_coords(np.array(X)), flt.calc_spherical_coords(E.arr([[E.const(float(v)) for v in r] for r in X]))):
        E.eq(a, b, 'coordinates of integer positions')
