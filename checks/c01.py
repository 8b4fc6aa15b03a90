"""C01 array geometry."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources']
ASSUMPTIONS = []


def mrla_ok(E, idx, n):
    idx = [int(i) for i in idx]
    E.holds(len(idx) == n and len(set(idx)) == n and min(idx) == 0, 'n distinct non-negative positions from the origin')
    L = max(idx)
    E.holds({a - b for a in idx for b in idx} == set(range(-L, L + 1)), 'every lag up to the aperture occurs')


def lin_expected(kind, E, a, b, mode):
    """Documented integer grid positions."""
    if kind == 'ula':
        return list(range(a))
    if kind == 'nested':
        return list(range(a)) + [(a + 1) * k - 1 for k in range(1, b + 1)]
    m, n = min(a, b), max(a, b)
    top = 2 * m if mode.lower() == '2m' else m
    return [m * k for k in range(n)] + [n * k for k in range(1, top)]


def check_linear(E, arr, idx, d0, label):
    n = len(idx)
    E.same(arr.size, n, label + ': number of elements')
    E.same(arr.output_size, n, label + ': output size')
    E.same(arr.ndim, 1, label + ': dimension')
    E.eq(arr.element_indices, E.arr([[i] for i in idx]), label + ': grid indices')
    E.eq(arr.element_locations, E.arr([[i * d0] for i in idx]), label + ': element positions')
    E.eq(arr.actual_element_locations, E.arr([[i * d0] for i in idx]), label + ': actual positions without perturbations')
    E.eq(arr.d0, E.arr([d0]), label + ': spacing')
    E.eq(arr.bases, E.arr([[d0]]), label + ': bases')
    E.same(bool(arr.is_perturbed), False, label + ': no perturbations')


@H(quick=grid(kind=['ula', 'nested', 'mrla']), thorough=grid(kind=['ula', 'nested', 'mrla'], big=[True]),
   bounds='spacing: any d0 > 0; sizes: ULA 1..8 (12), nested levels 1..4 x 1..4 (7), MRLA presets 1..20, every size a solver-enumerated integer variable')
def linear(E, kind, big=False):
    A = E.dt.arrays
    d0 = E.real('d0', pos=True)
    if kind == 'ula':
        n = E.conc(E.int('n', 1, 12 if big else 8))
        arr = A.UniformLinearArray(n, d0)
        check_linear(E, arr, lin_expected('ula', E, n, 0, ''), d0, 'uniform linear array')
    elif kind == 'nested':
        a, b = E.conc(E.int('n1', 1, 7 if big else 4)), E.conc(E.int('n2', 1, 7 if big else 4))
        arr = A.NestedArray(a, b, d0)
        check_linear(E, arr, lin_expected('nested', E, a, b, ''), d0, 'nested array')
        E.same((arr.n1, arr.n2), (a, b), 'nested array: reported levels')
    else:
        n = E.conc(E.int('n', 1, 20))
        arr = A.MinimumRedundancyLinearArray(n, d0)
        idx = [int(E.conc(x)) for x in arr.element_indices[:, 0]]
        mrla_ok(E, idx, n)
        check_linear(E, arr, idx, d0, 'minimum redundancy array')


@H(quick=grid(mode=['m', '2m', '2M', 'default']), bounds='pairs with both numbers in 1..5 (thorough 7), any order, any d0 > 0, both modes',
   thorough=grid(mode=['m', '2m', 'M', '2M', 'default'], big=[True]))
def coprime(E, mode, big=False):
    import math
    A = E.dt.arrays
    d0 = E.real('d0', pos=True)
    a, b = E.conc(E.int('m', 1, 7 if big else 5)), E.conc(E.int('n', 1, 7 if big else 5))
    kw = {} if mode == 'default' else {'mode': mode}
    md = '2m' if mode == 'default' else mode
    if math.gcd(a, b) != 1:
        E.raises(ValueError, lambda: A.CoPrimeArray(a, b, d0, **kw), 'pairs that are not co-prime are rejected')
        return
    arr = A.CoPrimeArray(a, b, d0, **kw)
    check_linear(E, arr, lin_expected('coprime', E, a, b, md), d0, 'co-prime array')
    E.same(tuple(arr.coprime_pair), (min(a, b), max(a, b)), 'co-prime pair, smaller first')
    E.same(arr.mode, md.lower(), 'mode')


@H(quick=grid(kind=['ula', 'nested', 'coprime', 'coprimem', 'ura', 'uca']), bounds='large designs: 300-element uniform, nested 33 and 30, co-prime 16 and 17 (both modes), 17 by 19 rectangular, 90-element circular; any spacing or radius')
def large(E, kind):
    A = E.dt.arrays
    d0 = E.real('d0', pos=True)
    if kind == 'ula':
        check_linear(E, A.UniformLinearArray(300, d0), lin_expected('ula', E, 300, 0, ''), d0, 'uniform linear array')
    elif kind == 'nested':
        check_linear(E, A.NestedArray(33, 30, d0), lin_expected('nested', E, 33, 30, ''), d0, 'nested array')
    elif kind in ('coprime', 'coprimem'):
        md = '2m' if kind == 'coprime' else 'm'
        check_linear(E, A.CoPrimeArray(17, 16, d0, mode=md), lin_expected('coprime', E, 16, 17, md), d0, 'co-prime array')
    elif kind == 'ura':
        d1 = E.real('d1', pos=True)
        arr = A.UniformRectangularArray(17, 19, [d0, d1])
        idx = [(i, j) for i in range(17) for j in range(19)]
        E.same((arr.size, tuple(arr.shape)), (323, (17, 19)), 'URA size')
        E.eq(arr.element_indices, E.arr([list(p) for p in idx]), 'URA indices, x major')
        E.eq(arr.element_locations, E.arr([[i * d0, j * d1] for i, j in idx]), 'URA positions')
    else:
        arr = A.UniformCircularArray(90, d0)
        E.same(arr.size, 90, 'UCA size')
        E.eq(arr.element_locations, E.arr([[d0 * E.np.cos(2 * E.pi * k / 90), d0 * E.np.sin(2 * E.pi * k / 90)] for k in range(90)]), 'UCA positions')


@H(bounds='all integers outside the supported range -4..0 and 21..24; unknown mode; any d0 > 0')
def rejected(E):
    A = E.dt.arrays
    d0 = E.real('d0', pos=True)
    n = E.conc(E.int('n', -4, 24))
    if n < 1 or n > 20:
        E.raises(ValueError, lambda: A.MinimumRedundancyLinearArray(n, d0), 'unsupported minimum redundancy sizes are rejected')
    else:
        E.same(A.MinimumRedundancyLinearArray(n, d0).size, n, 'supported sizes are accepted')
    if n == 1:
        E.raises(ValueError, lambda: A.CoPrimeArray(2, 3, d0, mode='x'), 'unknown co-prime mode is rejected')
        E.raises(ValueError, lambda: A.ArrayDesign(E.np.zeros((2, 4)), 'x'), 'more than three dimensions are rejected')
        E.raises(ValueError, lambda: A.ArrayDesign(E.np.zeros((2, 2, 2)), 'x'), 'location tensors are rejected')
        E.raises(ValueError, lambda: A.GridBasedArrayDesign(E.np.zeros((3, 2), dtype=int), bases=E.np.eye(3)), 'bases of the wrong size are rejected')
        E.raises(ValueError, lambda: A.GridBasedArrayDesign(E.np.zeros((3, 1), dtype=int), d0=[d0, d0]), 'too many spacings are rejected')


@H(quick=grid(d=['scalar', 'list', 'tuple']), thorough=grid(d=['scalar', 'list', 'tuple'], big=[True]),
   bounds='1..3 x 1..3 (thorough 1..5) elements, any spacings > 0, scalar or per-axis')
def rectangular(E, d, big=False):
    A = E.dt.arrays
    m, n = E.conc(E.int('m', 1, 5 if big else 3)), E.conc(E.int('n', 1, 5 if big else 3))
    dx = E.real('dx', pos=True)
    dy = dx if d == 'scalar' else E.real('dy', pos=True)
    arr = A.UniformRectangularArray(m, n, dx if d == 'scalar' else [dx, dy] if d == 'list' else (dx, dy))
    idx = [(i, j) for i in range(m) for j in range(n)]
    E.same(arr.size, m * n, 'URA size')
    E.same(arr.ndim, 2, 'URA dimension')
    E.same(tuple(arr.shape), (m, n), 'URA shape')
    E.eq(arr.element_indices, E.arr([list(p) for p in idx]), 'URA indices, x major')
    E.eq(arr.element_locations, E.arr([[i * dx, j * dy] for i, j in idx]), 'URA positions')
    E.eq(arr.d0, E.arr([dx, dy]), 'URA spacings')
    E.eq(arr.bases, E.arr([[dx, 0], [0, dy]]), 'URA bases')


@H(quick=grid(big=[False]), thorough=grid(big=[True]), bounds='1..6 (thorough 12) elements, any radius > 0')
def circular(E, big=False):
    A = E.dt.arrays
    n = E.conc(E.int('n', 1, 12 if big else 6))
    r = E.real('r', pos=True)
    arr = A.UniformCircularArray(n, r)
    E.same(arr.size, n, 'UCA size')
    E.same(arr.ndim, 2, 'UCA dimension')
    E.eq(arr.radius, r, 'UCA radius')
    np = E.np
    E.eq(arr.element_locations, E.arr([[r * np.cos(2 * E.pi * k / n), r * np.sin(2 * E.pi * k / n)] for k in range(n)]), 'UCA positions')


@H(quick=grid(rows=[1, 2]), bounds='2-4 elements with any integer grid indices in -4..4 on 1 or 2 arbitrary 3D basis vectors')
def bases(E, rows):
    A = E.dt.arrays
    n = 3
    idx = E.iarr('i', (n, rows), -4, 4)
    B = E.rarr('b', (rows, 3), lo=-3, hi=3)
    arr = A.GridBasedArrayDesign(idx, bases=B, name='g')
    ref = [[sum(idx[k, r] * B[r, c] for r in range(rows)) for c in range(3)] for k in range(n)]
    E.eq(arr.element_locations, E.arr(ref), 'positions = index combinations of the basis vectors')
    E.eq(arr.d0 ** 2, E.arr([sum(B[r, c] ** 2 for c in range(3)) for r in range(rows)]), 'spacings = basis lengths')
    E.holds((arr.d0 >= 0).all(), 'spacings are non-negative')
    E.eq(arr.bases, B, 'bases')
    E.same(arr.ndim, 3, 'dimension of the space')


@H(quick=grid(dim=[1, 2, 3], spec=['scalar', 'list']), bounds='3 elements with any integer grid indices in -4..4, 1-3 dimensions, any spacing > 0')
def grids(E, dim, spec):
    A = E.dt.arrays
    idx = E.iarr('i', (3, dim), -4, 4)
    d = [E.real('d%d' % a, pos=True) for a in range(dim)]
    if spec == 'scalar':
        d = d[:1] * dim
    arr = A.GridBasedArrayDesign(idx, d[0] if spec == 'scalar' else d, 'g')
    E.eq(arr.element_locations, E.arr([[idx[k, c] * d[c] for c in range(dim)] for k in range(3)]), 'positions = index times spacing')
    E.eq(arr.element_indices, idx, 'indices')
    E.eq(arr.d0, E.arr(d), 'spacing')
    E.same(arr.name, 'g', 'name')


def build(E, kind, **kw):
    A = E.dt.arrays
    d0 = E.real('d0', pos=True)
    if kind == 'ula':
        return A.UniformLinearArray(3, d0, **kw)
    if kind == 'nested':
        return A.NestedArray(1, 2, d0, **kw)
    if kind == 'coprime':
        return A.CoPrimeArray(1, 2, d0, mode='2m', **kw)
    if kind == 'mrla':
        return A.MinimumRedundancyLinearArray(3, d0, **kw)
    if kind == 'ura':
        return A.UniformRectangularArray(1, 3, d0, **kw)
    if kind == 'uca':
        return A.UniformCircularArray(3, d0, **kw)
    return A.ArrayDesign(E.rarr('l', (3, 1)), kw.pop('name', 'arb'), **kw)


KINDS = ['ula', 'nested', 'coprime', 'mrla', 'ura', 'uca', 'arb']


@H(quick=grid(kind=KINDS), bounds='every design with 3 elements; any gain and phase errors; list and dict perturbations, custom element, custom name')
def keywords(E, kind):
    PT = E.dt.perturb
    g = E.rarr('g', (3,), lo=-0.5, hi=0.5)
    ph = E.rarr('p', (3,), lo=-1, hi=1)
    known = E.choice('known', [True, False])
    form = E.choice('form', ['list', 'dict'])
    if kind == 'coprime':
        n = 3
    el = E.dt.elements.CustomNonisotropicSensor(lambda r, az, el_, pol: E.np.ones_like(az))
    pert = [PT.GainErrors(g, known), PT.PhaseErrors(ph, False)] if form == 'list' else {'gain_errors': (g, known), 'phase_errors': (ph, False)}
    first = build(E, kind)
    arr = build(E, kind, name='my', element=el, perturbations=pert)
    E.same(arr.name, 'my', 'name keyword')
    E.same(arr.element is el, True, 'element keyword')
    E.same(bool(arr.is_perturbed), True, 'perturbations keyword')
    E.eq(arr.get_perturbation_params(PT.GainErrors), g, 'gain errors')
    E.eq(arr.get_perturbation_params(PT.PhaseErrors), ph, 'phase errors')
    E.same(bool(arr.is_perturbation_known(PT.GainErrors)), known, 'known flag')
    E.same(bool(arr.is_perturbation_known(PT.PhaseErrors)), False, 'known flag')
    plain = build(E, kind)
    E.eq(arr.element_locations, first.element_locations, 'nominal positions are unaffected by the keywords')
    E.eq(plain.element_locations, first.element_locations, 'a later array has the same positions')
    if kind not in ('uca', 'arb'):
        E.eq(arr.element_indices, first.element_indices, 'the keywords do not change the indices')
        E.eq(plain.element_indices, first.element_indices, 'a later array has the same indices')
        E.eq(arr.d0, first.d0, 'nor the spacing')
    E.same(bool(plain.is_perturbed), False, 'a later array is unperturbed')


@H(bounds='any 1D list / vector and matrix of 3 real positions')
def custom(E):
    A = E.dt.arrays
    v = E.rarr('l', (3,))
    col = v.reshape((-1, 1))
    E.eq(A.ArrayDesign(v, 'a').element_locations, col, '1D vector')
    E.eq(A.ArrayDesign([v[0], v[1], v[2]], 'a').element_locations, col, 'list')
    a = A.ArrayDesign(col, 'a')
    E.eq(a.element_locations, col, 'column')
    x = a.element_locations
    x[0, 0] = 77
    E.eq(a.element_locations, col, 'the reported positions are a copy')
    w = E.rarr('m', (2, 3))
    b = A.ArrayDesign([[w[0, 0], w[0, 1], w[0, 2]], [w[1, 0], w[1, 1], w[1, 2]]], 'b')
    E.eq(b.element_locations, w, 'nested list')
    E.same((b.size, b.ndim, b.actual_ndim), (2, 3, 3), 'size and dimension')
