"""C14 perturbation semantics."""
import itertools

import numpy as np
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources', 'model.perturbations']
ASSUMPTIONS = []
NAMES = {'l': 'location_errors', 'g': 'gain_errors', 'p': 'phase_errors', 'm': 'mutual_coupling'}


def params(E, kind, n, ld):
    return {'l': lambda: E.rarr('le', (n, ld), lo=-1, hi=1), 'g': lambda: E.rarr('ge', (n,), lo=-3, hi=3),
            'p': lambda: E.rarr('pe', (n,), lo=-3, hi=3), 'm': lambda: E.carr('mc', (n, n))}[kind]()


def cls(E, kind):
    P = E.dt.perturb
    return {'l': P.LocationErrors, 'g': P.GainErrors, 'p': P.PhaseErrors, 'm': P.MutualCoupling}[kind]


def moved(E, loc, le):
    n, d = loc.shape
    if le is None:
        return loc
    d2 = max(d, le.shape[1])
    return E.arr([[(loc[i, c] if c < d else 0) + (le[i, c] if c < le.shape[1] else 0) for c in range(d2)] for i in range(n)])


def ref_steering(E, loc, src_x, wl, plist):
    """plist: [(kind, params)] in the order they apply; 1D far-field sources in rad."""
    le = [v for k, v in plist if k == 'l']
    L = moved(E, loc, le[0] if le else None)
    n, d = L.shape
    A = [[expj(E, 2 * E.pi / wl * (L[i, 0] * E.np.sin(t) + (L[i, 1] * E.np.cos(t) if d > 1 else 0))) for t in src_x] for i in range(n)]
    for k, v in plist:
        if k == 'g':
            A = [[a * (1 + v[i]) for a in A[i]] for i in range(n)]
        elif k == 'p':
            A = [[a * expj(E, v[i]) for a in A[i]] for i in range(n)]
        elif k == 'm':
            A = [[sum(v[i, r] * A[r][c] for r in range(n)) for c in range(len(src_x))] for i in range(n)]
    return E.arr(A)


ORDERS = ['', 'l', 'g', 'p', 'm', 'lg', 'lp', 'lm', 'gp', 'gm', 'mg', 'pm', 'mp', 'lgp', 'lgm', 'lpm', 'gpm', 'mpg', 'pgm', 'lgpm', 'mpgl']
COMBOS = [(o, d, ld, s) for o in ORDERS for d, ld in ((1, 1), (2, 2)) for s in ('list',)] + \
    [('l', d, ld, 'list') for d in (1, 2, 3) for ld in (1, 2, 3)] + \
    [(o, 1, 2, s) for o in ('lgpm', 'gp', 'mg') for s in ('dict', 'copy', 'copydict', 'stepwise')]


@H(quick=[dict(order=o, d=d, ld=ld, via=s) for o, d, ld, s in COMBOS] + [dict(order=o, d=d, ld=ld, via='list', n=9) for o, d, ld in (('lgp', 1, 2), ('m', 1, 1), ('gpm', 2, 2), ('l', 3, 3), ('l', 1, 3), ('lg', 2, 3))],
   thorough=[dict(order=''.join(o), d=d, ld=ld, via=s) for r in range(5) for o in itertools.permutations('lgpm', r) for d, ld, s in
             [(1, 1, 'list'), (1, 2, 'dict'), (2, 2, 'copy'), (3, 1, 'copydict'), (2, 3, 'stepwise'), (3, 3, 'list')]],
   bounds='2 (some 9) elements anywhere in 1-3 dimensions, 2 far-field sources, any location (1-3 dimensional), gain and phase errors, any complex coupling matrix; every combination and order listed, known flags all choices; set through the constructor (list, dictionary) or by copying')
def response(E, order, d, ld, via, n=2):
    arr, loc = any_array(E, '%dd' % d, n)
    keep = E.arr(loc.copy())
    wl = E.real('wl', pos=True)
    src = far1(E, 2, 'rad')
    x = src.locations
    pv = [(k, params(E, k, n, ld)) for k in order]
    known = {k: bool(E.choice('known_' + k, [False, True])) for k in order}
    objs = [cls(E, k)(v, known[k]) for k, v in pv]
    A = E.dt.arrays
    if via == 'list':
        a = A.ArrayDesign(loc, 'a', objs)
    elif via == 'dict':
        a = A.ArrayDesign(loc, 'a', {NAMES[k]: (v, known[k]) for k, v in pv})
    elif via == 'copy':
        a = arr.get_perturbed_copy(objs)
    elif via == 'copydict':
        a = arr.get_perturbed_copy({NAMES[k]: (v, known[k]) for k, v in pv})
    else:
        a = arr
        for o in objs:
            a = a.get_perturbed_copy([o])
    E.eq(a.steering_matrix(src, wl), ref_steering(E, keep, x, wl, pv), 'all perturbations')
    E.eq(a.steering_matrix(src, wl, perturbations='known'), ref_steering(E, keep, x, wl, [(k, v) for k, v in pv if known[k]]), 'known perturbations only')
    E.eq(a.steering_matrix(src, wl, perturbations='none'), ref_steering(E, keep, x, wl, []), 'nominal response')
    E.raises(ValueError, lambda: a.steering_matrix(src, wl, perturbations='some'), 'unknown selection is rejected')
    E.same(a.is_perturbed, bool(order), 'is_perturbed')
    for k in 'lgpm':
        E.same(a.has_perturbation(cls(E, k)), k in order, 'has_perturbation')
        if k in order:
            E.same(a.is_perturbation_known(cls(E, k)), known[k], 'known flag')
            E.eq(a.get_perturbation_params(cls(E, k)), dict(pv)[k], 'parameters')
    E.same([type(p).__name__ for p in a.perturbations], [cls(E, k).__name__ for k in order], 'list of perturbations')
    le = dict(pv).get('l')
    E.eq(a.actual_element_locations, moved(E, keep, le), 'actual element locations')
    E.same((a.ndim, a.actual_ndim), (d, d if le is None else max(d, ld)), 'dimensions')
    E.eq(a.element_locations, keep, 'nominal element locations')


@H(quick=grid(kind=['l', 'g', 'p', 'm'], known=[False, True]), bounds='parameters given as Python lists, 2 elements')
def lists(E, kind, known):
    n = 2
    arr, loc = any_array(E, '1d', n)
    wl = E.real('wl', pos=True)
    src = far1(E, 1, 'rad')
    v = params(E, kind, n, 1)
    as_list = [[v[i, j] for j in range(v.shape[1])] for i in range(n)] if v.ndim == 2 else [v[i] for i in range(n)]
    a = arr.get_perturbed_copy({NAMES[kind]: (as_list, known)})
    ref = ref_steering(E, loc, src.locations, wl, [(kind, v)])
    E.eq(a.steering_matrix(src, wl), ref, 'list parameters behave like arrays')
    as_tuple = tuple(tuple(r) if isinstance(r, list) else r for r in as_list)
    b = arr.get_perturbed_copy({NAMES[kind]: (as_tuple, np.bool_(known))})
    E.eq(b.steering_matrix(src, wl), ref, 'tuple parameters behave like arrays')
    E.eq(b.steering_matrix(src, wl, perturbations='known'), ref if known else arr.steering_matrix(src, wl), 'known flag of numpy')
    E.same(a.is_perturbation_known(cls(E, kind)), known, 'known flag')
    E.same(cls(E, kind)(as_list).is_known, False, 'unknown by default')


@H(quick=grid(d=[1, 2], ld=[1, 2]), bounds='integer element coordinates and real location errors, and the reverse')
def integer_coordinates(E, d, ld):
    idx = [[E.conc(E.int('i%d%d' % (i, c), -1, 1)) for c in range(d)] for i in range(2)]
    le = E.rarr('le', (2, ld), lo=-1, hi=1)
    a = E.dt.arrays.ArrayDesign(E.np.array(idx), 'a', [E.dt.perturb.LocationErrors(le)])
    E.eq(a.actual_element_locations, moved(E, E.arr(idx), le), 'moved integer positions')
    loc = E.rarr('loc', (2, d), lo=-1, hi=1)
    ie = [[(i + c) % 2 for c in range(ld)] for i in range(2)]
    b = E.dt.arrays.ArrayDesign(loc, 'a', [E.dt.perturb.LocationErrors(ie)])
    E.eq(b.actual_element_locations, moved(E, loc, E.arr(ie)), 'integer location errors')


@H(quick=grid(kind=['l', 'g', 'p', 'm']), bounds='parameter arrays of one to three dimensions with 1..4 entries per axis, array of 1..3 elements')
def shapes(E, kind):
    nd = E.conc(E.int('nd', 1, 3))
    shape = tuple(E.conc(E.int('s%d' % i, 1, 4 if i < 2 else 2)) for i in range(nd))
    v = E.rarr('v', shape, lo=-1, hi=1)
    P = cls(E, kind)
    good = {'l': nd == 2 and 1 <= shape[-1] <= 3, 'g': nd == 1, 'p': nd == 1, 'm': nd == 2 and shape[0] == shape[-1]}[kind]
    E.raises(ValueError, lambda: P(E.np.zeros((2, 0) if kind != 'p' else (0, 2))), 'empty matrices are rejected')
    if not good:
        E.raises(ValueError, lambda: P(v), 'parameters of the wrong shape are rejected')
        return
    p = P(v)
    E.eq(p.params, v, 'parameters kept')
    m = E.conc(E.int('m', 1, 3))
    loc = E.rarr('loc', (m, 1), lo=-1, hi=1)
    if m == shape[0]:
        E.same(E.dt.arrays.ArrayDesign(loc, 'a', [p]).is_perturbed, True, 'accepted')
    else:
        E.raises(RuntimeError, lambda: E.dt.arrays.ArrayDesign(loc, 'a', [p]), 'perturbation that does not fit the array is rejected')
        E.raises(RuntimeError, lambda: E.dt.arrays.ArrayDesign(loc, 'a').get_perturbed_copy([p]), 'perturbation that does not fit the array is rejected by the copy')


@H(quick=grid(kind=['l', 'g', 'p', 'm']), bounds='duplicates in one list, vector elements')
def rejected(E, kind):
    n = 2
    arr, loc = any_array(E, '1d', n)
    p = cls(E, kind)(params(E, kind, n, 1))
    E.raises(RuntimeError, lambda: E.dt.arrays.ArrayDesign(loc, 'a', [p, p]), 'two perturbations of one kind in a constructor are rejected')
    el = E.dt.elements.CustomNonisotropicSensor(lambda r, az, e, q: E.np.stack([az, e]), output_size=2)
    if kind == 'l':
        a = E.dt.arrays.ArrayDesign(loc, 'a', [p], element=el)
        E.same(a.has_perturbation(cls(E, 'l')), True, 'location errors are fine for vector elements')
    else:
        E.raises(RuntimeError, lambda: E.dt.arrays.ArrayDesign(loc, 'a', [p], element=el), 'scalar perturbations are rejected for vector elements')


@H(quick=grid(kind=['2d', 'near']), bounds='2 elements, 1 source of the other kinds, all perturbations set')
def other_sources(E, kind):
    n = 2
    S = E.dt.sources
    arr, loc = any_array(E, '2d', n)
    wl = E.real('wl', pos=True)
    x = E.rarr('x', (1, 2), lo=-1, hi=1)
    src = S.FarField2DSourcePlacement(x) if kind == '2d' else S.NearField2DSourcePlacement(x)
    pv = [(k, params(E, k, n, 3)) for k in 'lgpm']
    a = arr.get_perturbed_copy([cls(E, k)(v) for k, v in pv])
    base = E.dt.arrays.ArrayDesign(moved(E, loc, pv[0][1]), 'b').steering_matrix(src, wl)
    B = [base[i, 0] * (1 + pv[1][1][i]) * expj(E, pv[2][1][i]) for i in range(n)]
    E.eq(a.steering_matrix(src, wl)[:, 0], E.arr([sum(pv[3][1][i, r] * B[r] for r in range(n)) for i in range(n)]), 'all perturbations')


@H(quick=grid(order=['g', 'p', 'm', 'l', 'gpm', 'mg']), bounds='2 elements, 1 source: the derivative of the perturbed response goes through the same perturbations')
def derivatives(E, order):
    arr, loc = any_array(E, '1d', 2)
    wl = E.real('wl', pos=True)
    src = far1(E, 1, 'rad')
    t0 = src.locations[0]
    pv = [(k, params(E, k, 2, 2)) for k in order]
    known = bool(E.choice('known', [False, True]))
    a = arr.get_perturbed_copy([cls(E, k)(v, known) for k, v in pv])
    for mode, pl in (('all', pv), ('known', pv if known else []), ('none', [])):
        D = a.steering_matrix(src, wl, True, mode)[1]
        E.eq(D[:, 0], E.deriv(lambda t: ref_steering(E, loc, [t], wl, pl)[:, 0], t0), 'derivative with the perturbations: ' + mode, rtol=1e-6, atol=1e-7)
