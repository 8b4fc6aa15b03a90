"""C06 far-field 1D steering."""
from .base import *

H = Suite()
HARNESSES = H.list
LEVEL = LEVEL
WARM = ['model.arrays', 'model.sources']
ASSUMPTIONS = []


def phase_ref(E, loc, s, c, wl):
    """2*pi/lambda times the path difference along the propagation direction."""
    k = 2 * E.pi / wl
    out = []
    for m in range(loc.shape[0]):
        row = []
        for i in range(len(s)):
            if loc.shape[1] == 1:
                d = loc[m, 0] * s[i]
            else:
                # azimuth measured from the y axis (broadside), in the xy-plane
                d = loc[m, 0] * s[i] + loc[m, 1] * c[i]
            row.append(k * d)
        out.append(row)
    return E.arr(out)


@H(quick=grid(dim=['1d', '2d', '3d'], unit=['rad', 'deg', 'sin']) + grid(dim=['1d', '3d'], unit=['rad', 'deg', 'sin'], n=[70], k=[3]) + grid(dim=['2d'], unit=['rad', 'deg', 'sin'], n=[3], k=[300]),
   thorough=grid(dim=['1d', '2d', '3d'], unit=['rad', 'deg', 'sin'], n=[2, 4], k=[1, 3]),
   covers=['ArrayDesign.steering_matrix', 'FarField1DSourcePlacement.phase_delay_matrix', 'FarField1DSourcePlacement._calc_phase_delay_matrix'],
   bounds='arbitrary real positions of 3 elements (thorough 2 and 4) in 1D/2D/3D within [-3,3], 2 sources (thorough 1,3) anywhere in the open valid range, any wavelength > 0')
def steering(E, dim, unit, n=3, k=2):
    arr, loc = any_array(E, dim, n)
    wl = E.real('wl', pos=True)
    src = far1(E, k, unit)
    th = src.locations[:]
    s, c = sin_of(E, th, unit), cos_of(E, th, unit)
    A = arr.steering_matrix(src, wl)
    E.eq(A, expj(E, phase_ref(E, loc, s, c, wl)), 'steering matrix = exp(j*phase)')
    D = src.phase_delay_matrix(loc, wl)
    E.eq(D, phase_ref(E, loc, s, c, wl), 'phase delays')
    E.eq(A * A.conj(), E.np.ones((n, k)), 'unit modulus')


@H(quick=grid(dim=['1d', '2d', '3d'], unit=['rad', 'deg', 'sin'], m=[1, 4]), bounds='2 elements anywhere, sources at both ends of the valid range together with 1 or 4 others anywhere')
def endpoints(E, dim, unit, m):
    arr, loc = any_array(E, dim, 2)
    wl = E.real('wl', pos=True)
    e = {'rad': E.pi / 2, 'deg': E.const(90), 'sin': E.const(1)}[unit]
    o = far1(E, m, unit).locations
    T = E.arr([e] + [o[i] for i in range(m)] + [-e])
    s = E.arr([E.const(1)] + list(sin_of(E, o, unit)) + [E.const(-1)])
    c = E.arr([E.const(0)] + list(cos_of(E, o, unit)) + [E.const(0)])
    src = E.dt.sources.FarField1DSourcePlacement(T, unit)
    E.eq(arr.steering_matrix(src, wl), expj(E, phase_ref(E, loc, s, c, wl)), 'steering matrix = exp(j*phase)')


@H(quick=grid(unit=['rad', 'deg']), bounds='integer directions and positions, also in lists together with reals')
def integers(E, unit):
    import numpy as np
    wl = E.real('wl', pos=True)
    x, y = E.real('x', lo=-1, hi=1), E.real('y', lo=-1, hi=1)
    for loc, ref in (([0, x, 2], [0, x, 2]), (np.array([0, 3, 5]), [0, 3, 5]), ([[1, 0], [y, x]], None)):
        for th in ([1, y], [y, 1], np.array([0, 1])):
            a = E.dt.arrays.ArrayDesign(loc, 'a')
            L = E.arr([[E.const(float(v)) if isinstance(v, (int, np.integer)) else v for v in (r if ref is None else [r])] for r in (loc if ref is None else ref)])
            T = E.arr([E.const(float(v)) if isinstance(v, (int, np.integer)) else v for v in th])
            E.eq(a.element_locations, L, 'positions')
            s = E.dt.sources.FarField1DSourcePlacement(th, unit)
            E.eq(s.locations, T, 'directions')
            E.eq(a.steering_matrix(s, wl), expj(E, phase_ref(E, L, sin_of(E, T, unit), cos_of(E, T, unit), wl)), 'steering matrix = exp(j*phase)')
