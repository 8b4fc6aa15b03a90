"""C09 near-field steering."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources']
ASSUMPTIONS = ['phases are relative to the first element, as documented']


def dist(E, p, s):
    """p: sensor coordinates (1-3), s: source x, y"""
    p = list(p) + [0] * (3 - len(p))
    return E.np.sqrt((p[0] - s[0]) ** 2 + (p[1] - s[1]) ** 2 + p[2] ** 2)


@H(quick=grid(dim=['1d', '2d', '3d']) + grid(dim=['3d'], n=[70], k=[3]) + grid(dim=['2d'], n=[3], k=[300]), thorough=grid(dim=['1d', '2d', '3d'], n=[1, 2, 4], k=[1, 3]),
   bounds='3 (thorough 1, 2, 4) elements at arbitrary positions in 1-3 dimensions, 2 (1, 3) sources at arbitrary positions in the plane, any wavelength > 0')
def steering(E, dim, n=3, k=2):
    arr, loc = any_array(E, dim, n)
    wl = E.real('wl', pos=True)
    X = E.rarr('s', (k, 2), lo=-9, hi=9)
    src = E.dt.sources.NearField2DSourcePlacement(X)
    keep = [X[i, c] for i in range(k) for c in range(2)]
    # phase: arriving later = negative, relative to the first element
    ref = E.arr([[-2 * E.pi / wl * (dist(E, loc[m], X[i]) - dist(E, loc[0], X[i])) for i in range(k)] for m in range(n)])
    E.eq(src.phase_delay_matrix(loc, wl), ref, 'phase = -2 pi / wavelength * (distance - distance to the first element)')
    E.eq(arr.steering_matrix(src, wl), expj(E, ref), 'steering matrix')
    E.eq(src.phase_delay_matrix(loc, wl)[0], E.np.zeros((k,)), 'first element is the reference')
    E.eq(E.arr([X[i, c] for i in range(k) for c in range(2)]), E.arr(keep), 'source positions unchanged')


@H(quick=grid(dim=['1d', '2d', '3d'], c=[2.0 ** -20, 2.0 ** 14]), bounds='2 elements and a source anywhere, in units of 2**-20 and 2**14 (millions of wavelengths)')
def units(E, dim, c):
    d = int(dim[0])
    arr, loc = any_array(E, dim, 2)
    wl = E.real('wl', pos=True)
    X = E.rarr('s', (1, 2), lo=-9, hi=9)
    S = E.dt.sources.NearField2DSourcePlacement
    b = E.dt.arrays.ArrayDesign(loc * c, 'b')
    ref = E.arr([[-2 * E.pi / wl * (dist(E, loc[m], X[0]) - dist(E, loc[0], X[0]))] for m in range(2)])
    E.eq(S(X * c).phase_delay_matrix(loc * c, wl) / c, ref, 'phase = -2 pi / wavelength * (distance - distance to the first element)')
    E.eq(b.steering_matrix(S(X * c), wl * c), expj(E, ref), 'steering matrix')


@H(quick=grid(dim=['1d', '2d', '3d']), bounds='3 elements at arbitrary positions, translated by any in-plane vector together with the source')
def translation(E, dim):
    d = int(dim[0])
    arr, loc = any_array(E, dim, 3)
    wl = E.real('wl', pos=True)
    X = E.rarr('s', (2, 2), lo=-9, hi=9)
    t = E.rarr('t', (2,), lo=-2, hi=2)
    S = E.dt.sources.NearField2DSourcePlacement
    loc2 = E.arr([[loc[m, c] + (t[c] if c < min(d, 2) else 0) for c in range(d)] for m in range(3)])
    X2 = E.arr([[X[i, 0] + t[0], X[i, 1] + (t[1] if d > 1 else 0)] for i in range(2)])
    b = E.dt.arrays.ArrayDesign(loc2, 'b')
    E.eq(b.steering_matrix(S(X2), wl), arr.steering_matrix(S(X), wl), 'only relative positions matter')


@H(quick=grid(dim=['1d', '2d']), bounds='2 elements with any location errors, 1 source')
def perturbed(E, dim):
    d = int(dim[0])
    arr, loc = any_array(E, dim, 2)
    wl = E.real('wl', pos=True)
    e = E.rarr('e', (2, d), lo=-1, hi=1)
    X = E.rarr('s', (1, 2), lo=-9, hi=9)
    src = E.dt.sources.NearField2DSourcePlacement(X)
    p = arr.get_perturbed_copy([E.dt.perturb.LocationErrors(e, True)])
    ref = E.arr([[-2 * E.pi / wl * (dist(E, loc[m] + e[m], X[0]) - dist(E, loc[0] + e[0], X[0]))] for m in range(2)])
    E.eq(p.steering_matrix(src, wl), expj(E, ref), 'actual element positions are used')
