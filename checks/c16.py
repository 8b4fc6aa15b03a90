"""C16 element responses."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources', 'model.array_elements', 'model.perturbations']
ASSUMPTIONS = ['custom responses are linear in cos/sin of azimuth and elevation (and range, near field) with arbitrary complex coefficients; the arguments handed to them are also compared directly']


def source(E, kind, k):
    S = E.dt.sources
    if kind == 'nf':
        return S.NearField2DSourcePlacement(E.rarr('x', (k, 2), lo=-9, hi=9))
    if kind == 'ff2deg':
        az = E.rarr('az', (k,), lo=-180, hi=180, strict=True)
        el = E.rarr('el', (k,), lo=-90, hi=90, strict=True)
        return S.FarField2DSourcePlacement(E.arr([[az[i], el[i]] for i in range(k)]), 'deg')
    if kind == 'ff2':
        az = E.rarr('az', (k,), lo=-E.pi, hi=E.pi, strict=True)
        el = E.rarr('el', (k,), lo=-E.pi / 2, hi=E.pi / 2, strict=True)
        return S.FarField2DSourcePlacement(E.arr([[az[i], el[i]] for i in range(k)]))
    return far1(E, k, kind)


def true_coords(E, kind, src, loc, i, m):
    """range, cos/sin azimuth, cos/sin elevation of source i seen from element m (reference)"""
    x = src.locations
    if kind == 'nf':
        p = [loc[m, c] if c < loc.shape[1] else 0 for c in range(3)]
        d = [x[i, 0] - p[0], x[i, 1] - p[1], -p[2] if loc.shape[1] > 2 else 0]
        r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        return r2, d
    if kind == 'ff2deg':
        x = x * E.pi / 180
    if kind in ('ff2', 'ff2deg'):
        return None, [E.np.cos(x[i, 0]) * E.np.cos(x[i, 1]), E.np.sin(x[i, 0]) * E.np.cos(x[i, 1]), E.np.sin(x[i, 1])]
    s, c = sin_of(E, x, kind)[i], cos_of(E, x, kind)[i]
    return None, [s, c, 0]


def response(E, kind, co, log=None):
    """one output: linear in the unit vector towards the source (and the range)"""
    def f(r, az, el, pol):
        if log is not None:
            log.append((r, az, el, pol))
        c = E.np.cos(el)
        v = co[0] + co[1] * E.np.cos(az) * c + co[2] * E.np.sin(az) * c + co[3] * E.np.sin(el)
        if kind == 'nf':
            v = co[0] + r * (v - co[0])
        return v
    return f


def ref_response(E, kind, co, src, loc, m, i):
    r2, d = true_coords(E, kind, src, loc, i, m)
    return co[0] + co[1] * d[0] + co[2] * d[1] + co[3] * d[2]


@H(quick=grid(kind=['rad', 'deg', 'sin', 'ff2', 'ff2deg', 'nf'], dim=['1d', '2d', '3d']) + grid(kind=['rad', 'ff2', 'nf'], dim=['2d'], n=[9]) + grid(kind=['rad', 'ff2', 'nf'], dim=['2d'], k=[12]), thorough=grid(kind=['rad', 'deg', 'sin', 'ff2', 'nf'], dim=['1d', '2d', '3d'], n=[1, 3], k=[1, 2]),
   bounds='2 and 9 (thorough 1, 3) elements anywhere, 2 and 12 (1, 2) sources anywhere, any wavelength')
def scalar(E, kind, dim, n=2, k=2):
    arr, loc = any_array(E, dim, n)
    src = source(E, kind, k)
    wl = E.real('wl', pos=True)
    if kind == 'nf':
        apart(E, src, loc)
    co = E.carr('c', (4,))
    log = []
    el = E.dt.elements.CustomNonisotropicSensor(response(E, kind, co, log))
    a = E.dt.arrays.ArrayDesign(loc, 'a', element=el)
    base = arr.steering_matrix(src, wl)
    A = a.steering_matrix(src, wl)
    E.same(tuple(A.shape), (n, k), 'shape')
    E.same((a.output_size, a.size, el.is_scalar, el.is_isotropic), (n, n, True, False), 'sizes')
    ref = E.arr([[ref_response(E, kind, co, src, loc, m, i) * base[m, i] for i in range(k)] for m in range(n)])
    E.eq(A, ref, 'phase factor times element response')
    E.eq(a.steering_matrix(src, wl, flatten=False), ref, 'flatten has no effect for scalar elements')
    E.same(len(log) >= 1, True, 'the response is evaluated')
    r, az, e, pol = log[0]
    E.same(pol is None, True, 'no polarisation')
    if kind != 'nf':
        for i in range(k):
            E.holds(E.np.isinf(r[0, i]), 'infinite range')
    E.raises(RuntimeError, lambda: a.steering_matrix(src, wl, True), 'derivatives are refused')


def apart(E, src, loc):
    x = src.locations
    for i in range(x.shape[0]):
        for m in range(loc.shape[0]):
            E.assume((x[i, 0] != loc[m, 0]) | (x[i, 1] != (loc[m, 1] if loc.shape[1] > 1 else 0)))


@H(quick=grid(kind=['rad', 'ff2', 'ff2deg', 'nf'], L=[2, 3], dim=['1d', '3d']) + [dict(kind='rad', L=2, dim='1d', k=3, n=6), dict(kind='ff2', L=6, dim='2d', k=1)], thorough=grid(kind=['rad', 'deg', 'sin', 'ff2', 'nf'], L=[2, 3], dim=['1d', '2d', '3d'], k=[1, 3]),
   bounds='2 (6) elements anywhere with 2 or 3 (6) outputs, 2 (thorough 1, 3) sources anywhere')
def vector(E, kind, L, dim, k=2, n=2):
    arr, loc = any_array(E, dim, n)
    src = source(E, kind, k)
    wl = E.real('wl', pos=True)
    if kind == 'nf':
        apart(E, src, loc)
    co = [E.carr('c%d' % l, (4,)) for l in range(L)]
    fs = [response(E, kind, c) for c in co]
    el = E.dt.elements.CustomNonisotropicSensor(lambda r, az, e, p: E.np.stack([f(r, az, e, p) for f in fs]), output_size=L)
    a = E.dt.arrays.ArrayDesign(loc, 'a', element=el)
    E.same((a.size, a.output_size, el.output_size, el.is_scalar), (n, n * L, L, False), 'sizes')
    base = arr.steering_matrix(src, wl)
    T = [[[ref_response(E, kind, co[l], src, loc, m, i) * base[m, i] for i in range(k)] for m in range(n)] for l in range(L)]
    E.eq(a.steering_matrix(src, wl, flatten=False), E.arr(T), 'outputs by elements by sources')
    E.eq(a.steering_matrix(src, wl), E.arr([T[l][m] for l in range(L) for m in range(n)]), 'outputs stacked')
    E.raises(RuntimeError, lambda: a.steering_matrix(src, wl, True), 'derivatives are refused')
    # with location errors the response is that of the moved array
    d = loc.shape[1]
    le = E.rarr('le', (n, d), lo=-0.1, hi=0.1)
    loc2 = loc + le
    if L == 2:
        if kind == 'nf':
            apart(E, src, loc2)
        b = a.get_perturbed_copy([E.dt.perturb.LocationErrors(le)])
        E.eq(b.steering_matrix(src, wl), E.dt.arrays.ArrayDesign(loc2, 'm', element=el).steering_matrix(src, wl), 'location errors move the elements')
        E.eq(b.steering_matrix(src, wl, perturbations='none'), a.steering_matrix(src, wl), 'nominal response')


@H(quick=grid(kind=['rad', 'ff2', 'nf'], known=[True, False]), bounds='scalar non-isotropic elements with known or unknown location errors and gains of the other kind, every selection of perturbations, 2 elements, 1 source')
def selected(E, kind, known):
    """each selection of perturbations sees the source from the positions that selection implies"""
    n = 2
    arr, loc = any_array(E, '2d', n)
    src = source(E, kind, 1)
    wl = E.real('wl', pos=True)
    le = E.rarr('le', (n, 2), lo=-1, hi=1)
    g = E.rarr('g', (n,), lo=-0.5, hi=0.5)
    loc2 = loc + le
    if kind == 'nf':
        apart(E, src, loc)
        apart(E, src, loc2)
    co = E.carr('c', (4,))
    el = E.dt.elements.CustomNonisotropicSensor(response(E, kind, co))
    P = E.dt.perturb
    a = E.dt.arrays.ArrayDesign(loc, 'a', [P.LocationErrors(le, known), P.GainErrors(g, not known)], el)
    for sel in ('all', 'known', 'none'):
        L = loc2 if sel == 'all' or (sel == 'known' and known) else loc
        q = g if sel == 'all' or (sel == 'known' and not known) else 0 * g
        base = E.dt.arrays.ArrayDesign(L, 'b').steering_matrix(src, wl)
        E.eq(a.steering_matrix(src, wl, perturbations=sel)[:, 0], E.arr([(1 + q[m]) * ref_response(E, kind, co, src, L, m, 0) * base[m, 0] for m in range(n)]), 'response of the array seen with perturbations: ' + sel)


@H(quick=grid(kind=['rad', 'ff2', 'nf']), bounds='scalar non-isotropic elements with gain, phase and coupling perturbations and location errors, 2 elements, 1 source')
def perturbed(E, kind):
    n = 2
    arr, loc = any_array(E, '2d', n)
    src = source(E, kind, 1)
    wl = E.real('wl', pos=True)
    le = E.rarr('le', (n, 2), lo=-1, hi=1)
    loc2 = loc + le
    if kind == 'nf':
        apart(E, src, loc2)
    co = E.carr('c', (4,))
    el = E.dt.elements.CustomNonisotropicSensor(response(E, kind, co))
    g, C = E.rarr('g', (n,), lo=-0.5, hi=0.5), E.carr('C', (n, n))
    P = E.dt.perturb
    a = E.dt.arrays.ArrayDesign(loc, 'a', [P.LocationErrors(le), P.GainErrors(g), P.MutualCoupling(C)], el)
    base = E.dt.arrays.ArrayDesign(loc2, 'b').steering_matrix(src, wl)
    r = [(1 + g[m]) * ref_response(E, kind, co, src, loc2, m, 0) * base[m, 0] for m in range(n)]
    E.eq(a.steering_matrix(src, wl)[:, 0], E.arr([sum(C[m, q] * r[q] for q in range(n)) for m in range(n)]), 'response inside, perturbations outside, seen from the actual positions')


@H(quick=grid(kind=['rad', 'ff2', 'nf']) + [dict(kind='rad', n=12, k=30), dict(kind='nf', n=12, k=9)], bounds='2 elements, 2 sources; 12 elements, 30 (near field 9) sources')
def isotropic(E, kind, n=2, k=2):
    arr, loc = any_array(E, '2d', n)
    src = source(E, kind, k)
    wl = E.real('wl', pos=True)
    el = E.dt.elements.IsotropicScalarSensor()
    E.eq(E.dt.arrays.ArrayDesign(loc, 'a', element=el).steering_matrix(src, wl), arr.steering_matrix(src, wl), 'isotropic elements change nothing')
    E.same((el.output_size, el.is_scalar, el.is_isotropic, el.is_polarized), (1, True, True, False), 'isotropic element')
    E.same((arr.output_size, arr.element.is_isotropic), (n, True), 'default element')
    E.eq(el.calc_spatial_response(*(E.rarr(c, (n, k)) for c in 'rae')), E.np.ones((n, k)), 'isotropic response is one', rtol=1e-9, atol=1e-9)
    E.eq(el.calc_spatial_response(*(E.rarr(c + '1', (n * k,)) for c in 'rae')), E.np.ones((n * k,)), 'isotropic response is one')
    if kind == 'nf':
        apart(E, src, loc)
    one = E.dt.elements.CustomNonisotropicSensor(lambda r, az, e, p: E.np.ones_like(az))
    E.eq(E.dt.arrays.ArrayDesign(loc, 'a', element=one).steering_matrix(src, wl), arr.steering_matrix(src, wl), 'a response of one changes nothing')


@H(quick=grid(pol=[False, True]), bounds='argument shapes of one or two dimensions with 1..2 entries per axis, polarisation data of matching and non-matching shape')
def arguments(E, pol):
    seen = []

    def f(r, az, el, p):
        seen.append((r, az, el, p))
        return r + az
    el = E.dt.elements.CustomNonisotropicSensor(f, polarized=pol)
    E.same((el.is_polarized, el.output_size), (pol, 1), 'flags')
    sh = [tuple(E.conc(E.int('s%d%d' % (a, i), 1, 2)) for i in range(2)) for a in range(3)]
    r, az, e = (E.rarr('v%d' % a, sh[a], lo=-1, hi=1) for a in range(3))
    if sh[0] == sh[1] == sh[2]:
        E.eq(el.calc_spatial_response(r, az, e), r + az, 'passed through')
        E.eq(E.arr([seen[-1][i][0, 0] for i in range(3)]), E.arr([r[0, 0], az[0, 0], e[0, 0]]), 'argument order')
        l = E.conc(E.int('l', 1, 2))
        ok = E.rarr('p', sh[0] + (l,), lo=-1, hi=1)
        bad = E.rarr('q', (sh[0][0] + 1, sh[0][1], l), lo=-1, hi=1)
        if pol:
            el.calc_spatial_response(r, az, e, ok)
            E.eq(seen[-1][3], ok, 'polarisation passed through')
            E.raises(ValueError, lambda: el.calc_spatial_response(r, az, e, bad), 'polarisation of the wrong shape is rejected')
        else:
            E.raises(ValueError, lambda: el.calc_spatial_response(r, az, e, ok), 'polarisation of an unpolarised element is rejected')
        iso = E.dt.elements.IsotropicScalarSensor()
        E.eq(iso.calc_spatial_response(r, az, e), E.np.ones(sh[0]), 'isotropic response is one')
        E.eq(iso.calc_spatial_response(r[0, 0], az[0, 0], e[0, 0]), E.np.ones(()), 'isotropic response is one for scalars') if not E.sym else None
    else:
        E.raises(ValueError, lambda: el.calc_spatial_response(r, az, e), 'arguments of different shapes are rejected')


@H(quick=grid(L=[1, 2, 3], kind=['rad', 'nf']), bounds='isotropic elements with 1-3 outputs of any gains, 2 elements, 2 sources')
def isotropic_outputs(E, L, kind):
    arr, loc = any_array(E, '2d', 2)
    src = source(E, kind, 2)
    wl = E.real('wl', pos=True)
    c = E.rarr('c', (L,), lo=0.5, hi=2)
    if kind == 'nf':
        apart(E, src, loc)

    class Element(E.dt.elements.ArrayElement):
        output_size = property(lambda self: L)
        is_isotropic = property(lambda self: True)
        is_polarized = property(lambda self: False)

        def _calc_spatial_response(self, r, az, el, polarization):
            u = E.np.ones(E.np.shape(r))
            return u if L == 1 else E.np.stack([u * c[l] for l in range(L)])
    a = E.dt.arrays.ArrayDesign(loc, 'a', element=Element())
    A = arr.steering_matrix(src, wl)
    E.same(a.output_size, 2 * L, 'output size')
    E.eq(a.steering_matrix(src, wl), A if L == 1 else E.np.vstack([A * c[l] for l in range(L)]), 'every output with its gain')
