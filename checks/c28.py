"""C28 spatial smoothing and SVD reduction."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.preprocessing']
ASSUMPTIONS = ['numpy.linalg.svd returns the singular values in descending order with matching singular vectors (uninterpreted)']


def reference(E, R, l, fb):
    m = R.shape[0]
    n = m - l + 1
    out = [[sum([R[i + s, j + s] for s in range(1, l)], R[i, j]) / l for j in range(n)] for i in range(n)]
    if fb:
        out = [[(out[i][j] + out[n - 1 - i][n - 1 - j].conjugate()) / 2 for j in range(n)] for i in range(n)]
    return E.arr(out)


@H(quick=grid(m=[1, 2, 3, 4, 12], fb=[True, False], real=[True, False]), thorough=grid(m=[1, 2, 5, 6], fb=[True, False], real=[True, False]),
   bounds='any Hermitian or real symmetric matrix of size 1-4 (6) and 12, every number of subarrays')
def smooth(E, m, fb, real):
    l = E.choice('l', list(range(1, m + 1)))
    if real:
        v = {}
        R = E.arr([[v.setdefault((min(i, j), max(i, j)), E.real('r%d%d' % (min(i, j), max(i, j)), lo=-2, hi=2)) for j in range(m)] for i in range(m)])
    else:
        R = E.herm('R', m)
    R0 = R.copy()
    S = E.dt.preprocessing.spatial_smooth(R, l, fb) if fb else E.dt.preprocessing.spatial_smooth(R, l)
    E.same(tuple(S.shape), (m - l + 1, m - l + 1), 'shape')
    E.eq(S, reference(E, R, l, fb), 'average over the subarrays')
    E.eq(S, S.conj().T, 'Hermitian')
    E.eq(R, R0, 'input unchanged')
    S2 = E.dt.preprocessing.spatial_smooth(R, l, fb)
    E.eq(S2, S, 'repeatable')


@H(quick=grid(fb=[True, False], c=[1e-15, 1e12]), bounds='Hermitian matrices of size 3 in units of 1e-15 and 1e12')
def units(E, fb, c):
    R = E.herm('R', 3)
    E.eq(E.dt.preprocessing.spatial_smooth(R * c, 2, fb) / c, reference(E, R, 2, fb), 'average over the subarrays in other units')


@H(quick=grid(fb=[True, False]), bounds='symbolic integer matrices of size 3 (entries -3 to 3)')
def integers(E, fb):
    m = 3
    v = {}
    R = E.iarr('r', (m, m), -3, 3)
    for i in range(m):
        for j in range(i):
            E.assume(R[i, j] == R[j, i])
    l = E.choice('l', [1, 2, 3])
    S = E.dt.preprocessing.spatial_smooth(R, l, fb)
    E.eq(S * (2.0 * l), reference(E, R * (2.0 * l), l, fb), 'average over the subarrays of an integer matrix')


@H(quick=grid(m=[2, 3]), bounds='number of subarrays from -2 to m+2, sizes 2-3')
def rejects(E, m):
    l = E.choice('l', [-2, -1, 0, m + 1, m + 2])
    R = E.herm('R', m)
    E.raises(ValueError, lambda: E.dt.preprocessing.spatial_smooth(R, l), 'number of subarrays outside 1..m')
    E.raises(ValueError, lambda: E.dt.preprocessing.spatial_smooth(R, l, True), 'number of subarrays outside 1..m')


@H(quick=grid(l=[2, 3], fb=[True, False]), bounds='exact coherent pair on 4 elements: forward smoothing equals the covariance with the decorrelated source matrix')
def coherent(E, l, fb):
    """smoothing of A P A^H on a uniform array is B (1/l sum D^s P D^-s) B^H"""
    m, k = 4, 2
    n = m - l + 1
    z = [expj(E, E.real('p%d' % i, lo=-3, hi=3)) for i in range(k)]
    c = [E.cplx('c%d' % i, lo=-2, hi=2) for i in range(k)]
    s2 = E.real('s2', lo=0.1, hi=1)
    A = E.arr([[z[j] ** i for j in range(k)] for i in range(m)])
    x = A @ E.arr(c)
    R = x.reshape(m, 1) @ x.conj().reshape(1, m) + s2 * E.np.eye(m)
    S = E.dt.preprocessing.spatial_smooth(R, l, fb)
    tot = None
    for s in range(l):
        y = A[:n] @ E.arr([c[j] * z[j] ** s for j in range(k)])
        t = y.reshape(n, 1) @ y.conj().reshape(1, n)
        if fb:
            w = y.conj()[::-1]
            t = (t + w.reshape(n, 1) @ w.conj().reshape(1, n)) / 2
        tot = t if tot is None else tot + t
    E.eq(S, tot / l + s2 * E.np.eye(n), 'smoothed covariance of coherent sources')


@H(quick=grid(shape=[(2, 2), (2, 3), (3, 2), (1, 3), (4, 3), (3, 4)]), thorough=grid(shape=[(2, 4), (4, 2), (3, 3)]), bounds='any complex snapshot matrix up to 3 by 2 or 2 by 3 (thorough 4 by 2, 3 by 3), every admissible number of columns')
def svd(E, shape):
    m, n = shape
    Y = E.carr('Y', shape)
    k = E.choice('k', list(range(1, min(m, n) + 1)))
    Y0 = Y.copy()
    Z = E.dt.preprocessing.l1_svd(Y, k)
    E.same(tuple(Z.shape), (m, k), 'one column per source')
    U, s, Vh = E.np.linalg.svd(Y, full_matrices=False)
    ref = E.arr([[U[i, j] * s[j] for j in range(k)] for i in range(m)])
    E.eq(Z @ Z.conj().T, ref @ ref.conj().T, 'covariance of the reduced data is that of the leading singular components')
    E.eq(Z, ref, 'reduced data')
    E.eq(Y, Y0, 'snapshots unchanged')


@H(quick=grid(shape=[(2, 2), (3, 2), (2, 3)]), bounds='any real snapshot matrix up to 3 by 2 or 2 by 3, every admissible number of sources')
def svd_real(E, shape):
    m, n = shape
    Y = E.rarr('Y', shape)
    k = E.choice('k', list(range(1, min(m, n) + 1)))
    Z = E.dt.preprocessing.l1_svd(Y, k)
    U, s, Vh = E.np.linalg.svd(Y, full_matrices=False)
    E.eq(Z, E.arr([[U[i, j] * s[j] for j in range(k)] for i in range(m)]), 'reduced real data')
