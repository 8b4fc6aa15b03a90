"""C12 validation of source placements."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.sources']
ASSUMPTIONS = ['directions within 1e-9 of a border are left to the floating-point comparison']


def hi(E, unit):
    return {'rad': E.pi / 2, 'deg': 90, 'sin': 1}[unit]


@H(quick=grid(unit=['rad', 'deg', 'sin'], k=[1, 2], form=['array', 'list']), thorough=grid(unit=['rad', 'deg', 'sin'], k=[1, 2, 3, 4], form=['array', 'list']),
   bounds='1 or 2 (thorough up to 4) directions, any real number between -400 and 400')
def far1d(E, unit, k, form):
    h = hi(E, unit)
    x = E.rarr('x', (k,), lo=-400, hi=400)
    tol = 1e-9
    inside = (E.np.abs(x) <= h - tol).all() if not E.sym else (E.np.abs(x) <= h).all()
    outside = (E.np.abs(x) > h + tol).any() if not E.sym else (E.np.abs(x) > h).any()
    arg = x if form == 'array' else [x[i] for i in range(k)]
    if inside:
        s = E.dt.sources.FarField1DSourcePlacement(arg, unit)
        E.eq(s.locations, x, 'valid directions are kept as given')
        E.same((s.units, s.size, s.is_far_field), ((unit,), k, True), 'unit and size')
        lo_, hi_ = s.valid_ranges[0]
        E.eq(E.arr([lo_, hi_]), E.arr([-h, h]), 'valid range of the unit')
    elif outside:
        E.raises(ValueError, lambda: E.dt.sources.FarField1DSourcePlacement(arg, unit), 'a direction outside the valid range is rejected')


@H(quick=grid(unit=['rad', 'deg', 'sin']), bounds='both end points of the range')
def endpoints(E, unit):
    h = hi(E, unit)
    s = E.dt.sources.FarField1DSourcePlacement(E.arr([-h, h]), unit)
    E.eq(s.locations, E.arr([-h, h]), 'the closed range is valid')


@H(quick=grid(unit=['rad', 'deg'], form=['array', 'list']), bounds='2 azimuth/elevation pairs, any real numbers between -400 and 400')
def far2d(E, unit, form):
    h = hi(E, unit)
    x = E.rarr('x', (2, 2), lo=-400, hi=400)
    a, e = E.np.abs(x[:, 0]), E.np.abs(x[:, 1])
    tol = 0 if E.sym else 1e-9
    inside = (a <= 2 * h - tol).all() & (e <= h - tol).all()
    outside = (a > 2 * h + tol).any() | (e > h + tol).any()
    arg = x if form == 'array' else [[x[0, 0], x[0, 1]], [x[1, 0], x[1, 1]]]
    if inside:
        s = E.dt.sources.FarField2DSourcePlacement(arg, unit)
        E.eq(s.locations, x, 'valid directions are kept as given')
        E.same((s.units, s.size, s.is_far_field), ((unit, unit), 2, True), 'unit and size')
        (a0, a1), (e0, e1) = s.valid_ranges
        E.eq(E.arr([a0, a1, e0, e1]), E.arr([-2 * h, 2 * h, -h, h]), 'valid range of the unit')
    elif outside:
        E.raises(ValueError, lambda: E.dt.sources.FarField2DSourcePlacement(arg, unit), 'a direction outside the valid range is rejected')


@H(quick=grid(form=['array', 'list']), bounds='2 positions anywhere')
def near(E, form):
    x = E.rarr('x', (2, 2), lo=-400, hi=400)
    arg = x if form == 'array' else [[x[0, 0], x[0, 1]], [x[1, 0], x[1, 1]]]
    s = E.dt.sources.NearField2DSourcePlacement(arg)
    E.eq(s.locations, x, 'positions are kept as given')
    E.same((s.units, s.size, s.is_far_field), (('m', 'm'), 2, False), 'unit and size')


@H(quick=grid(kind=['ff1', 'ff2', 'nf']), bounds='array shapes up to three dimensions with 1..3 entries per axis, unknown unit names')
def shapes(E, kind):
    S = E.dt.sources
    c = {'ff1': S.FarField1DSourcePlacement, 'ff2': S.FarField2DSourcePlacement, 'nf': S.NearField2DSourcePlacement}[kind]
    nd = E.conc(E.int('nd', 1, 3))
    shape = tuple(E.conc(E.int('d%d' % i, 1, 3)) for i in range(nd))
    x = E.rarr('x', shape, lo=-1, hi=1)
    ok = nd == 1 if kind == 'ff1' else nd == 2 and shape[1] == 2
    if ok:
        E.same(c(x).locations.shape, shape, 'accepted')
        E.same(len(c(x)), shape[0], 'size')
        if kind != 'nf':
            for u in ['m', 'grad', '', 'RAD'] + (['sin'] if kind == 'ff2' else []):
                E.raises(ValueError, lambda: c(x, u), 'unknown unit is rejected')
    else:
        E.raises(ValueError, lambda: c(x), 'wrong shape is rejected')


@H(quick=grid(kind=['ff1', 'ff2', 'nf'], m=[2], d=[0, 4]), bounds='sensor coordinates with 0 or 4 columns')
def sensor_dims(E, kind, m, d):
    S = E.dt.sources
    if kind == 'ff1':
        u = E.choice('u', ['rad', 'deg', 'sin'])
        s = S.FarField1DSourcePlacement(E.rarr('x', (2,), lo=-1, hi=1, strict=True), u)
    elif kind == 'ff2':
        s = S.FarField2DSourcePlacement(E.rarr('x', (2, 2), lo=-1, hi=1, strict=True))
    else:
        s = S.NearField2DSourcePlacement(E.rarr('x', (2, 2), lo=-1, hi=1, strict=True))
    loc = E.rarr('l', (m, d), lo=-1, hi=1)
    E.raises(ValueError, lambda: s.phase_delay_matrix(loc, 1.0), 'unsupported number of coordinates is rejected')
    if kind != 'ff1':
        E.raises(ValueError, lambda: s.phase_delay_matrix(E.rarr('m', (m, 2), lo=-1, hi=1), 1.0, True), 'unsupported derivatives are rejected')


@H(quick=grid(kind=['ff1', 'ff2', 'nf']), bounds='lists of integers and reals in any order')
def mixed(E, kind):
    x, y = E.real('x', lo=-1, hi=1), E.real('y', lo=-1, hi=1)
    S = E.dt.sources
    if kind == 'ff1':
        for v in ([0, x, 1], [x, 1, 0], (x, 0)):
            E.eq(S.FarField1DSourcePlacement(list(v)).locations, E.arr([E.const(float(t)) if isinstance(t, int) else t for t in v]), 'valid directions are kept as given')
        return
    mk = S.FarField2DSourcePlacement if kind == 'ff2' else S.NearField2DSourcePlacement
    for v in ([[0, x], [y, 1]], [[1, 1], [x, y]], [[x, 0], [0, 1]]):
        E.eq(mk(v).locations, E.arr([[E.const(float(t)) if isinstance(t, int) else t for t in r] for r in v]), 'valid positions are kept as given')
