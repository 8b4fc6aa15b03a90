"""C27 coarray-based augmented covariance matrices."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.core', 'estimation.coarray', 'model.arrays', 'model.coarray', 'model.sources']
ASSUMPTIONS = []


def array(E, kind, d0=None):
    A = E.dt.arrays
    d0 = E.real('d0', lo=0.1, hi=3) if d0 is None else d0
    if kind == 'nested21':
        return A.NestedArray(2, 1, d0), d0
    if kind == 'nested22':
        return A.NestedArray(2, 2, d0), d0
    if kind == 'coprime23':
        return A.CoPrimeArray(2, 3, d0), d0
    if kind == 'coprime23m':
        return A.CoPrimeArray(2, 3, d0, 'M'), d0
    if kind == 'mrla4':
        return A.MinimumRedundancyLinearArray(4, d0), d0
    if kind == 'ula3':
        return A.UniformLinearArray(3, d0), d0
    if kind == 'shuffled':
        return GBA(E, [5, 2, 3], d0), d0
    if kind == 'hole':
        return GBA(E, [0, 1, 5], d0), d0
    if kind == 'nested43':
        return A.NestedArray(4, 3, d0), d0
    if kind == 'ula9':
        return A.UniformLinearArray(9, d0), d0
    if kind == 'holes9':
        return GBA(E, [40, 0, 1, 2, 9, 17, 3, 55, 23], d0), d0
    if kind == 'single':
        return GBA(E, [3], d0), d0
    raise AssertionError(kind)


def GBA(E, idx, d0):
    import numpy as np
    return E.dt.arrays.GridBasedArrayDesign(np.array(idx).reshape(-1, 1), d0, name='grid')


def indices(a):
    import numpy as np
    return [int(i) for i in np.array(a.element_indices).reshape(-1)]


def central(idx):
    have = {p - q for p in idx for q in idx}
    q = 0
    while q + 1 in have:
        q += 1
    return q + 1


def lag_mean(E, R, idx, lag):
    x = [R[i, j] for i in range(len(idx)) for j in range(len(idx)) if idx[i] - idx[j] == lag]
    return sum(x[1:], x[0]) / len(x)


def reference(E, R, idx, method):
    mv = central(idx)
    z = {l: lag_mean(E, R, idx, l) for l in range(-mv + 1, mv)}
    if method == 'da':
        return mv, [[z[p - q] for q in range(mv)] for p in range(mv)]
    out = []
    for p in range(mv):
        row = []
        for q in range(mv):
            t = [z[i - mv + 1 + p] * z[i - mv + 1 + q].conjugate() for i in range(mv)]
            row.append(sum(t[1:], t[0]) / mv)
        out.append(row)
    return mv, out


ALL = ['nested21', 'nested22', 'coprime23', 'coprime23m', 'mrla4', 'ula3', 'shuffled', 'hole', 'single']


@H(quick=grid(kind=ALL + ['nested43', 'ula9', 'holes9'], method=['ss', 'da']), bounds='any Hermitian matrix on nested, co-prime, minimum-redundancy, uniform and arbitrary (unsorted, with holes) index sets of up to 6 (12) elements')
def construction(E, kind, method):
    a, d0 = array(E, kind)
    n = a.size
    R = E.herm('R', n)
    R0 = R.copy()
    b = E.dt.ecoarray.CoarrayACMBuilder1D(a)
    idx = indices(a)
    mv, ref = reference(E, R, idx, method)
    E.same((b.input_size, b.output_size), (n, mv), 'sizes')
    out = b.transform(R, method)
    E.same(tuple(out.shape), (mv, mv), 'shape')
    E.eq(out, E.arr(ref), 'augmented covariance (%s)' % method)
    E.eq(b(R, method), E.arr(ref), 'call shortcut')
    if method == 'ss':
        E.eq(b.transform(R), E.arr(ref), 'smoothing is the default')
        E.eq(b(R), E.arr(ref), 'smoothing is the default of the shortcut')
    E.eq(R, R0, 'covariance unchanged')
    v = b.get_virtual_ula()
    E.same((type(v).__name__, v.size, v.ndim, v.name), ('UniformLinearArray', mv, 1, 'Virtual ULA of ' + a.name), 'virtual array')
    E.same(b.get_virtual_ula('x').name, 'x', 'given name')
    E.eq(v.element_locations, E.arr([[d0 * i] for i in range(mv)]), 'virtual array positions')


@H(quick=grid(kind=['nested21', 'hole'], method=['ss', 'da'], c=[1e-15, 1e9]), bounds='covariances in units of 1e-15 and 1e9')
def units(E, kind, method, c):
    a, d0 = array(E, kind)
    R = E.herm('R', a.size)
    mv, ref = reference(E, R, indices(a), method)
    E.eq(E.dt.ecoarray.CoarrayACMBuilder1D(a).transform(R * c, method) / (c * c if method == 'ss' else c), E.arr(ref), 'augmented covariance in other units')


@H(quick=grid(kind=['nested21', 'nested22', 'coprime23m', 'mrla4', 'shuffled', 'hole'], k=[1]) + grid(kind=['nested21'], k=[2]),
   thorough=grid(kind=ALL, k=[1]) + grid(kind=['nested22', 'mrla4', 'shuffled'], k=[2, 3]),
   bounds='exact covariances of 1-2 (3) uncorrelated sources of any power in any direction plus noise, any spacing and wavelength')
def exact(E, kind, k):
    a, d0 = array(E, kind)
    wl = E.real('wl', pos=True)
    src = far1(E, k, 'sin')
    p = [E.real('p%d' % i, lo=0.1, hi=3) for i in range(k)]
    s2 = E.real('s2', lo=0.1, hi=2)
    A = a.steering_matrix(src, wl)
    R = (A * E.arr(p)) @ A.conj().T + s2 * E.np.eye(a.size)
    b = E.dt.ecoarray.CoarrayACMBuilder1D(a)
    v = b.get_virtual_ula()
    V = v.steering_matrix(src, wl)
    ref = (V * E.arr(p)) @ V.conj().T + s2 * E.np.eye(v.size)
    E.eq(b.transform(R, 'da'), ref, 'direct augmentation gives the virtual array covariance')
    E.eq(b.transform(R, 'ss'), ref @ ref / v.size, 'spatial smoothing gives its square over the size')


@H(quick=grid(kind=['nested21', 'hole']), bounds='three calls with different covariances and methods on one builder')
def reuse(E, kind):
    a, d0 = array(E, kind)
    n = a.size
    b = E.dt.ecoarray.CoarrayACMBuilder1D(a)
    R1, R2 = E.herm('R', n), E.herm('S', n)
    m1, m2 = E.choice('m1', ['ss', 'da']), E.choice('m2', ['ss', 'da'])
    o1 = b.transform(R1, m1)
    keep = o1.copy()
    o2 = b.transform(R2, m2)
    idx = indices(a)
    E.eq(o2, E.arr(reference(E, R2, idx, m2)[1]), 'second transform')
    E.eq(o1, keep, 'first result unchanged')
    E.eq(b.transform(R1, m1), keep, 'repeatable')
    E.eq(a.element_locations, E.arr([[d0 * i] for i in idx]), 'array unchanged')


@H(quick=[{}], bounds='matrices of size 2-4 by 2-4, unknown methods, non-grid and planar arrays')
def rejects(E):
    C = E.dt.ecoarray.CoarrayACMBuilder1D
    a, d0 = array(E, 'nested21')
    b = C(a)
    p, q = E.choice('shape', [(2, 2), (2, 3), (3, 2), (3, 4), (4, 3), (4, 4), (3, 3)])
    R = E.carr('R', (p, q))
    if (p, q) != (3, 3):
        for m in ('ss', 'da'):
            E.raises(ValueError, lambda: b.transform(R, m), 'covariance of the wrong size')
        E.raises(ValueError, lambda: b(R), 'covariance of the wrong size')
    else:
        E.raises(ValueError, lambda: b.transform(R, 'fb'), 'unknown method')
        E.raises(ValueError, lambda: b(R, 'SS'), 'unknown method')
        E.raises(ValueError, lambda: b.transform(R[0]), 'vector')
    A = E.dt.arrays
    E.raises(ValueError, lambda: C(A.UniformRectangularArray(2, 2, d0)), 'planar arrays')
    E.raises(ValueError, lambda: C(A.UniformCircularArray(4, d0)), 'arrays without a grid')
    E.raises(ValueError, lambda: C(A.ArrayDesign(E.rarr('x', (3, 1)), 'x')), 'arrays without a grid')


@H(quick=grid(pair=[((0, 1, 2), (0, 1, 3)), ((0, 2, 3), (0, 1, 4)), ((0, 1), (1, 3))], method=['ss', 'da']), bounds='builders of two arrays of one name, size and spacing with other positions, used alternately')
def two(E, pair, method):
    d0 = E.real('d0', lo=0.1, hi=3)
    B = [E.dt.ecoarray.CoarrayACMBuilder1D(GBA(E, list(p), d0)) for p in pair]
    R = [E.herm('R%d' % i, len(p)) for i, p in enumerate(pair)]
    for i in (0, 1, 0):
        mv, ref = reference(E, R[i], pair[i], method)
        E.same((B[i].input_size, B[i].output_size), (len(pair[i]), mv), 'sizes')
        E.eq(B[i].transform(R[i], method), E.arr(ref), 'augmented covariance of its own array')
        E.same(B[i].get_virtual_ula().size, mv, 'virtual array of its own array')
    buf = R[0].copy()
    B[0].transform(buf, method)
    Q = E.herm('Q', len(pair[0]))
    buf[:] = Q
    E.eq(B[0].transform(buf, method), E.arr(reference(E, Q, pair[0], method)[1]), 'the same matrix object with other entries')


@H(quick=grid(kind=['nested21', 'coprime23', 'hole', 'shuffled', 'ula3'], method=['ss', 'da'], typ=['real', 'int']), bounds='any real symmetric matrix, integer matrices')
def types(E, kind, method, typ):
    import numpy as np
    a, d0 = array(E, kind)
    n = a.size
    if typ == 'int':
        V = [[(3 * i * j + i + j + (7 if i == j else 0)) % 11 for j in range(n)] for i in range(n)]
        R, Q = np.array(V), E.arr([[E.const(float(v)) for v in r] for r in V])
    else:
        L = E.rarr('L', (n, n), lo=-2, hi=2)
        R = Q = E.arr([[L[max(i, j), min(i, j)] for j in range(n)] for i in range(n)])
    mv, ref = reference(E, Q, indices(a), method)
    E.eq(E.dt.ecoarray.CoarrayACMBuilder1D(a).transform(R, method), E.arr(ref), 'augmented covariance of %s data' % typ)
