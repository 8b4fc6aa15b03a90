"""C08 far-field 2D steering."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources']
ASSUMPTIONS = []


def place2(E, k, unit):
    h = E.pi if unit == 'rad' else 180
    az = [E.real('az%d' % i, -h, h) for i in range(k)]
    el = [E.real('el%d' % i, -h / 2, h / 2) for i in range(k)]
    f = 1 if unit == 'rad' else E.pi / 180
    src = E.dt.sources.FarField2DSourcePlacement(E.arr([[a, e] for a, e in zip(az, el)]), unit)
    return src, [a * f for a in az], [e * f for e in el]


def direction(E, a, e):
    np = E.np
    return [np.cos(a) * np.cos(e), np.sin(a) * np.cos(e), np.sin(e)]


def phases(E, loc, az, el, wl):
    out = []
    for m in range(loc.shape[0]):
        row = []
        for a, e in zip(az, el):
            u = direction(E, a, e)
            row.append(2 * E.pi / wl * sum(loc[m, c] * u[c] for c in range(loc.shape[1])))
        out.append(row)
    return E.arr(out)


@H(quick=grid(dim=['1d', '2d', '3d'], unit=['rad', 'deg']) + grid(dim=['3d'], unit=['rad', 'deg'], n=[70], k=[3]) + grid(dim=['2d'], unit=['rad', 'deg'], n=[3], k=[300]),
   thorough=grid(dim=['1d', '2d', '3d'], unit=['rad', 'deg'], n=[2, 4], k=[1, 3]),
   bounds='3 (thorough 2, 4) elements at arbitrary positions in 1-3 dimensions, 2 (1, 3) sources at any azimuth and elevation, any wavelength > 0')
def steering(E, dim, unit, n=3, k=2):
    arr, loc = any_array(E, dim, n)
    wl = E.real('wl', pos=True)
    src, az, el = place2(E, k, unit)
    P = phases(E, loc, az, el, wl)
    E.eq(src.phase_delay_matrix(loc, wl), P, 'phase = 2 pi / wavelength * position . direction')
    A = arr.steering_matrix(src, wl)
    E.eq(A, expj(E, P), 'steering matrix')
    E.eq(A * A.conj(), E.np.ones((n, k)), 'unit modulus')


@H(quick=grid(dim=['1d', '2d', '3d'], unit=['rad', 'deg']), bounds='3 elements, any broadside angle, zero elevation, azimuth = 90 degrees minus angle')
def horizon(E, dim, unit):
    S = E.dt.sources
    arr, loc = any_array(E, dim, 3)
    wl = E.real('wl', pos=True)
    one = far1(E, 2, unit)
    q = E.pi / 2 if unit == 'rad' else 90
    two = S.FarField2DSourcePlacement(E.arr([[q - t, 0] for t in one.locations]), unit)
    E.eq(arr.steering_matrix(one, wl), arr.steering_matrix(two, wl), 'a source on the horizon is the one-dimensional source')


@H(quick=grid(unit=['rad', 'deg']), bounds='linear arrays: any azimuth and elevation, cone angle')
def cone(E, unit):
    """A linear array sees sin(broadside angle) = cos(az) cos(el)."""
    arr, loc = any_array(E, '1d', 3)
    wl = E.real('wl', pos=True)
    src, az, el = place2(E, 2, unit)
    s = E.arr([E.np.cos(a) * E.np.cos(e) for a, e in zip(az, el)])
    E.eq(arr.steering_matrix(src, wl), expj(E, E.arr([[2 * E.pi / wl * loc[m, 0] * s[i] for i in range(2)] for m in range(3)])), 'cone angle')


@H(bounds='sensor coordinates that are not 1-3 dimensional')
def rejected(E):
    src, az, el = place2(E, 1, 'rad')
    wl = E.real('wl', pos=True)
    E.raises(ValueError, lambda: src.phase_delay_matrix(E.np.zeros((2, 4)), wl), 'four coordinates are rejected')
    E.raises(ValueError, lambda: far1(E, 1).phase_delay_matrix(E.np.zeros((2, 4)), wl), 'four coordinates are rejected')
