"""C07 derivative matrices are the true derivatives."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources', 'model.perturbations']
ASSUMPTIONS = ['the derivative of the symbolic steering entry is taken by the exact differentiation rules of the engine (engine/ring.py), validated against finite differences by the replay']


def perts(E, which, n, dim):
    P = E.dt.perturb
    out = []
    if 'l' in which:
        out.append(P.LocationErrors(E.rarr('le', (n, 2 if '2' in which else dim), lo=-1, hi=1), True))
    if 'g' in which:
        out.append(P.GainErrors(E.rarr('ge', (n,), lo=-3, hi=3), True))
    if 'p' in which:
        out.append(P.PhaseErrors(E.rarr('pe', (n,), lo=-1, hi=1), False))
    if 'm' in which:
        out.append(P.MutualCoupling(E.carr('mc', (n, n)), True))
    return out


def check(E, arr, unit, k, wl, mode='all'):
    src = far1(E, k, unit)
    x = src.locations
    res = arr.steering_matrix(src, wl, True, mode)
    E.same(len(res), 2, 'steering matrix and one derivative matrix')
    A, D = res
    A0 = arr.steering_matrix(src, wl, False, mode)
    E.same(tuple(D.shape), tuple(A0.shape), 'shape of the derivative matrix')
    E.eq(A, A0, 'the steering matrix does not depend on asking for derivatives')
    cols = []
    for i in range(k):
        cols.append(E.deriv(lambda t: col(E, arr, src, x, i, t, unit, wl, mode), x[i]))
    E.eq(D, E.np.stack(cols, axis=1), 'derivative matrix = derivative of each steering column', rtol=1e-6, atol=1e-7)


def col(E, arr, src, x, i, t, unit, wl, mode):
    S = E.dt.sources
    return arr.steering_matrix(S.FarField1DSourcePlacement(E.arr([t]), unit), wl, False, mode)[:, 0]


@H(quick=grid(dim=['1d', '2d', '3d'], unit=['rad', 'deg', 'sin']) + grid(dim=['2d'], unit=['rad', 'deg', 'sin'], n=[30], k=[2]) + grid(dim=['1d'], unit=['rad', 'deg', 'sin'], n=[2], k=[40]),
   thorough=grid(dim=['1d', '2d', '3d'], unit=['rad', 'deg', 'sin'], n=[2, 5], k=[1, 3]),
   bounds='3 (thorough 2, 5; also 30, and 40 sources) elements at arbitrary real positions in 1-3 dimensions, 2 (1, 3) sources anywhere in the open valid range of each unit, any wavelength > 0')
def plain(E, dim, unit, n=3, k=2):
    arr, loc = any_array(E, dim, n)
    check(E, arr, unit, k, E.real('wl', pos=True))


@H(quick=[dict(which=w, dim=d, unit=u) for w, d, u in [('l', '1d', 'rad'), ('l', '2d', 'deg'), ('l2', '1d', 'rad'), ('l2', '1d', 'sin'), ('g', '1d', 'deg'), ('p', '2d', 'rad'),
                                                     ('m', '1d', 'rad'), ('gp', '1d', 'sin'), ('gpm', '2d', 'rad'), ('lgpm', '2d', 'deg'), ('l2gpm', '1d', 'rad'), ('lgpm', '3d', 'rad')]] +
            [dict(which=w, dim=d, unit=u, n=9) for w, d, u in [('l', '2d', 'deg'), ('gp', '1d', 'sin'), ('gpm', '2d', 'rad')]] +
            [dict(which=w, dim='1d', unit='rad', n=3, k=7) for w in ('gpm', 'l2', 'm')],
   thorough=[dict(which=w, dim=d, unit=u) for w in ('l', 'g', 'p', 'm', 'gp', 'gpm', 'lgpm') for d in ('1d', '2d', '3d') for u in ('rad', 'deg', 'sin')] +
            [dict(which=w, dim='1d', unit=u) for w in ('l2', 'l2gpm') for u in ('rad', 'deg', 'sin')],
   bounds='2 (also 9) elements, 2 (also 7) sources, any location, gain and phase errors and any complex coupling matrix, single and combined')
def perturbed(E, which, dim, unit, n=2, k=None):
    arr, loc = any_array(E, dim, n)
    arr = arr.get_perturbed_copy(perts(E, which, n, int(dim[0])))
    check(E, arr, unit, k or (2 if which != 'lgpm' else 1), E.real('wl', pos=True))


@H(quick=grid(mode=['known', 'none'], unit=['rad', 'deg']), bounds='2 elements, 2 sources, gain errors (known) and phase errors (unknown), known-only and nominal derivatives')
def selected(E, mode, unit):
    arr, loc = any_array(E, '1d', 2)
    arr = arr.get_perturbed_copy(perts(E, 'gp', 2, 1))
    check(E, arr, unit, 2, E.real('wl', pos=True), mode)


@H(quick=grid(kind=['2d', 'near']), bounds='two-parameter source kinds')
def unsupported(E, kind):
    S = E.dt.sources
    arr, loc = any_array(E, '2d', 2)
    wl = E.real('wl', pos=True)
    x = E.rarr('x', (1, 2), lo=-1, hi=1)
    src = S.FarField2DSourcePlacement(x) if kind == '2d' else S.NearField2DSourcePlacement(x)
    E.raises(Exception, lambda: arr.steering_matrix(src, wl, True), 'derivatives are refused rather than wrong')
    el = E.dt.elements.CustomNonisotropicSensor(lambda r, az, e, p: E.np.ones_like(az))
    b = E.dt.arrays.ArrayDesign(loc, 'b', element=el)
    E.raises(Exception, lambda: b.steering_matrix(far1(E, 1, 'rad'), wl, True), 'derivatives are refused for non-isotropic elements')
