"""C35 asymptotic error covariance of coarray MUSIC."""
import numpy as np

from .base import *
from .c33 import hm, noise

H = Suite()
HARNESSES = H.list
WARM = ['performance.mse']
ASSUMPTIONS = ['numpy.linalg.eigh: ascending eigenvalues; for the ideal augmented covariance the eigenvectors of the smallest eigenvalue are an orthonormal basis of the noise subspace (one such basis is supplied, the signal eigenvectors are left out)',
               'matrices that are inverted are regular']

ARRAYS = {
    'ula2': (lambda dt, d: dt.arrays.UniformLinearArray(2, d), [0, 1]),
    'ula3': (lambda dt, d: dt.arrays.UniformLinearArray(3, d), [0, 1, 2]),
    'ula4': (lambda dt, d: dt.arrays.UniformLinearArray(4, d), [0, 1, 2, 3]),
    'nested12': (lambda dt, d: dt.arrays.NestedArray(1, 2, d), [0, 1, 3]),
    'nested21': (lambda dt, d: dt.arrays.NestedArray(2, 1, d), [0, 1, 2]),
    'nested22': (lambda dt, d: dt.arrays.NestedArray(2, 2, d), [0, 1, 2, 5]),
    'mra4': (lambda dt, d: dt.arrays.MinimumRedundancyLinearArray(4, d), [0, 1, 4, 6]),
    'coprime23': (lambda dt, d: dt.arrays.CoPrimeArray(2, 3, d, 'm'), [0, 2, 4, 3]),
    'grid': (lambda dt, d: dt.arrays.GridBasedArrayDesign(np.array([[0], [1], [4]]), d), [0, 1, 4]),
    'nested33': (lambda dt, d: dt.arrays.NestedArray(3, 3, d), [0, 1, 2, 3, 7, 11]),
    'nested34': (lambda dt, d: dt.arrays.NestedArray(3, 4, d), [0, 1, 2, 3, 7, 11, 15]),
    'coprime34': (lambda dt, d: dt.arrays.CoPrimeArray(3, 4, d, '2m'), [0, 3, 6, 9, 4, 8, 12, 16, 20]),
    'ula8': (lambda dt, d: dt.arrays.UniformLinearArray(8, d), list(range(8))),
    'unsorted': (lambda dt, d: dt.arrays.GridBasedArrayDesign(np.array([[3], [0], [1]]), d), [3, 0, 1]),
}


def central(ix):
    """{difference: pairs}, number of virtual elements"""
    W = {}
    for i, a in enumerate(ix):
        for j, b in enumerate(ix):
            W.setdefault(a - b, []).append((i, j))
    mv = 0
    while mv in W:
        mv += 1
    return W, mv


def noise_basis(E, Av, z):
    mv, k = Av.shape
    if k == 1:
        c = []
        for q in range(1, mv):
            r = E.np.sqrt(E.const(float(q * (q + 1))))
            c.append([Av[i, 0] * ((1 if i < q else -q if i == q else 0) / r) for i in range(mv)])
        return E.arr(c).T
    # polynomials vanishing at the conjugated steering phases, orthonormalised
    import itertools
    p = [E.const(1.0)]
    for x in z:
        p = [(p[i - 1] if i else 0) - x * (p[i] if i < len(p) else 0) for i in range(len(p) + 1)]
    cols = []
    for s in range(mv - k):
        v = E.arr([E.const(0.0)] * s + p + [E.const(0.0)] * (mv - k - 1 - s))
        for u in cols:
            v = v - u * (u.conj() * v).sum()
        cols.append(v / E.np.sqrt((v.conj() * v).sum().real))
    return E.np.stack(cols, axis=1)


def scene(E, name, k, unit):
    d, wl = E.real('d', lo=0.2, hi=1.2), E.real('wl', lo=1, hi=2)
    a = ARRAYS[name][0](E.dt, d)
    ix = ARRAYS[name][1]
    t = [E.real('t', lo=-0.9, hi=0.9)] if k == 1 else [E.const(0.0), E.real('t', lo=0.2, hi=0.9)]
    sc = {'rad': 1, 'deg': 180 / E.pi, 'sin': 1}[unit]
    s = E.dt.sources.FarField1DSourcePlacement(E.arr([x * sc for x in t]), unit)
    return a, ix, s, t, d, wl


def reference(E, ix, t, d, wl, p, s2, N, unit, register=True):
    """Error of direction k: -Re(dv_k^H Q dRv w_k) / (dv_k^H Q dv_k) where dRv is the
    augmented matrix of the averaged entries of dR, w_k column k of Av (Av^H Av)^-1 / p_k and
    E[dR_ij dR_lm] = R_im R_lj / N."""
    k, m = len(t), len(ix)
    W, mv = central(ix)
    kap = 2 * E.pi * d / wl
    sn = [x if unit == 'sin' else E.np.sin(x) for x in t]
    g = [1 if unit == 'sin' else E.np.cos(x) * (1 if unit == 'rad' else E.pi / 180) for x in t]
    A = E.arr([[expj(E, kap * n * x) for x in sn] for n in ix])
    Av = E.arr([[expj(E, kap * n * x) for x in sn] for n in range(mv)])
    Dv = E.arr([[E.j * kap * n * g[i] * Av[n, i] for i in range(k)] for n in range(mv)])
    R = (A * E.arr(p)) @ hm(A) + s2 * E.np.eye(m)
    if E.sym and register:
        Rv = (Av * E.arr(p)) @ hm(Av) + s2 * E.np.eye(mv)
        B = noise_basis(E, Av, [expj(E, -kap * x) for x in sn])
        E.register_eigh(Rv, E.arr([s2] * (mv - k) + [s2 + 1] * k), E.np.hstack([B, 0 * Av]))
    G = E.np.linalg.inv(hm(Av) @ Av)
    Q = E.np.eye(mv) - Av @ G @ hm(Av)
    Wt = Av @ G
    T = []
    for c in range(k):
        qd = Q @ Dv[:, c]
        h = (Dv[:, c].conj() * qd).sum().real
        M = [[0] * m for _ in range(m)]
        for u in range(mv):
            for v in range(mv):
                pr = W[u - v]
                for i, j in pr:
                    M[i][j] = M[i][j] + qd[u].conjugate() * Wt[v, c] / (h * p[c] * len(pr))
        T.append(E.arr(M))
    C = [[0] * k for _ in range(k)]
    for a in range(k):
        for b in range(k):
            X = (hm(R) @ T[a].conj()).conj()        # sum_i T_ij R_ip
            # E[x conj y] + E[x y], x = sum T^a_ij dR_ij, y = sum T^b_lm dR_lm
            e1 = (E.np.trace(R.T @ T[a] @ R.T @ T[b].conj().T))
            e2 = (E.np.trace(R.T @ T[a] @ R.T @ T[b]))
            C[a][b] = (e1 + e2).real / (2 * N)
    return E.arr(C)


@H(quick=grid(name=['ula2', 'ula3', 'nested12', 'unsorted'], unit=['sin', 'rad', 'deg']) + grid(name=['ula4', 'nested22', 'grid', 'coprime23'], unit=['sin']),
   thorough=grid(name=['mra4', 'nested22', 'coprime23'], unit=['sin', 'rad']) + grid(name=['nested33', 'ula8'], unit=['sin']),
   bounds='one source in any direction on uniform, nested, coprime and arbitrary grid arrays of 2-4 elements (virtual arrays up to 6 elements, thorough 7), any spacing up to half a wavelength, power, noise level, number of snapshots')
def single(E, name, unit):
    a, ix, s, t, d, wl = scene(E, name, 1, unit)
    s2, N = noise(E)
    p = E.real('p', lo=0.2, hi=3)
    ref = reference(E, ix, t, d, wl, [p], s2, N, unit)
    C = E.dt.mse.ecov_coarray_music_1d(a, s, wl, p, s2, N)
    E.same(tuple(C.shape), (1, 1), 'one row per source')
    E.eq(C, ref, 'first-order perturbation of the coarray MUSIC minimum')


@H(quick=grid(name=['ula3'], unit=['sin']), thorough=grid(name=['nested12'], unit=['sin']) + grid(name=['ula3'], unit=['rad', 'deg']),
   bounds='two sources, one at broadside, the other in any direction')
def double(E, name, unit):
    a, ix, s, t, d, wl = scene(E, name, 2, unit)
    s2, N = noise(E)
    p = [E.real('p%d' % i, lo=0.2, hi=3) for i in range(2)]
    ref = reference(E, ix, t, d, wl, p, s2, N, unit)
    C = E.dt.mse.ecov_coarray_music_1d(a, s, wl, E.arr(p), s2, N)
    E.same(tuple(C.shape), (2, 2), 'one row per source')
    E.eq(C, ref, 'first-order perturbation of the coarray MUSIC minimum')
    E.eq(C, C.T, 'symmetric')


@H(quick=grid(unit=['sin', 'rad']), bounds='one source, two elements: the scalar value')
def textbook(E, unit):
    a, ix, s, t, d, wl = scene(E, 'ula2', 1, unit)
    s2, N = noise(E)
    p = E.real('p', lo=0.2, hi=3)
    reference(E, ix, t, d, wl, [p], s2, N, unit)
    C = E.dt.mse.ecov_coarray_music_1d(a, s, wl, p, s2, N)
    g = 1 if unit == 'sin' else E.np.cos(t[0])
    E.eq(C, [[((p + s2) ** 2 - p * p) / (2 * N * (p * 2 * E.pi * d / wl * g) ** 2)]], 'variance of one source on two elements')


@H(quick=grid(c=[2.0 ** -50, 2.0 ** -20, 2.0 ** 30]), bounds='powers and noise in units from 1e-15 to 1e9')
def units(E, c):
    """only the ratio of the powers to the noise matters"""
    a, ix, s, t, d, wl = scene(E, 'ula2', 1, 'sin')
    s2, N = noise(E)
    p = E.real('p', lo=0.2, hi=3)
    reference(E, ix, t, d, wl, [p * c], s2 * c, N, 'sin')
    C = E.dt.mse.ecov_coarray_music_1d(a, s, wl, p * c, s2 * c, N)
    E.eq(C, [[((p + s2) ** 2 - p * p) / (2 * N * (p * 2 * E.pi * d / wl) ** 2)]], 'independent of the unit of the powers')


@H(quick=grid(name=['ula3', 'nested12', 'unsorted', 'nested22', 'coprime23'], k=[2]) + grid(name=['nested22'], k=[3]) + grid(name=['nested33', 'nested34', 'ula8', 'coprime34'], k=[1, 2, 4]), thorough=grid(name=['mra4'], k=[2, 3, 4]) + grid(name=['nested22'], k=[4]),
   bounds='two to four (thorough) sources, also more than elements, at fixed directions, arrays of up to 9 elements and virtual arrays of up to 17; any powers, noise level')
def many(E, name, k):
    """every quarter-wave direction has a phase step that is a multiple of 90 degrees"""
    t = [E.const(x) for x in ([0.0, 0.5, -0.5, 1.0][:k])]
    d, wl = E.const(0.5), E.const(1.0)
    a, ix = ARRAYS[name][0](E.dt, 0.5), ARRAYS[name][1]
    s = E.dt.sources.FarField1DSourcePlacement([0.0, 0.5, -0.5, 1.0][:k], 'sin')
    s2, N = noise(E)
    E.opts(explicit_inv=20, explicit_terms=10000000)
    p = [E.real('p%d' % i, lo=0.2, hi=3) for i in range(k)]
    ref = reference(E, ix, t, d, wl, p, s2, N, 'sin')
    C = E.dt.mse.ecov_coarray_music_1d(a, s, 1.0, E.arr(p), s2, N)
    E.eq(C, ref, 'first-order perturbation of the coarray MUSIC minimum')
    E.eq(C, C.T, 'symmetric')


@H(quick=grid(name=['ula2', 'nested12', 'nested22']), bounds='default number of snapshots, scaling, powers given as a matrix; too many sources, perturbed or irregular arrays, other source kinds, unknown modes rejected')
def usage(E, name):
    f = E.dt.mse.ecov_coarray_music_1d
    a, ix, s, t, d, wl = scene(E, name, 1, 'sin')
    mv = central(ix)[1]
    s2, N = noise(E)
    p = E.real('p', lo=0.2, hi=3)
    reference(E, ix, t, d, wl, [p], s2, N, 'sin')
    C1 = f(a, s, wl, p, s2)
    if E.choice('big', [False, True]):
        N = E.real('NB', lo=1000, hi=1000000000)
    E.eq(f(a, s, wl, p, s2, N) * N, C1, 'inversely proportional to the number of snapshots')
    E.eq(f(a, s, wl, p, s2, 1), C1, 'one snapshot by default')
    E.eq(f(a, s, wl, E.arr([[p]]), s2), C1, 'power as a matrix')
    S = E.dt.sources
    for n in (mv, mv + 1):
        E.raises(ValueError, lambda: f(a, S.FarField1DSourcePlacement([0.1 * i for i in range(n)]), wl, 1.0, s2), 'as many sources as virtual elements')
    E.raises(ValueError, lambda: f(a, S.FarField2DSourcePlacement([[0.1, 0.2]]), wl, p, s2), 'only far-field 1D sources')
    E.raises(ValueError, lambda: f(a, S.NearField2DSourcePlacement([[1.0, 2.0]]), wl, p, s2), 'only far-field 1D sources')
    kn = E.choice('known', [True, False])
    P_ = E.dt.perturb
    m = len(ix)
    for pe in (P_.GainErrors(np.array([0.0] + [0.1] * (m - 1)), kn), P_.PhaseErrors(np.array([0.0] + [0.1] * (m - 1)), kn), P_.LocationErrors(np.array([[0.0]] + [[0.1]] * (m - 1)), kn), P_.MutualCoupling(np.eye(m) + 0.1, kn)):
        E.raises(ValueError, lambda: f(a.get_perturbed_copy([pe]), s, wl, p, s2), 'perturbed array')
    E.raises(ValueError, lambda: f(E.dt.arrays.UniformRectangularArray(2, 2, 0.5), s, wl, p, s2), 'two-dimensional array')
    E.raises(ValueError, lambda: f(E.dt.arrays.ArrayDesign(np.array([[0.0], [0.5], [1.0]]), 'arb'), s, wl, p, s2), 'array without a grid')
    sh = E.choice('shape', [(2, 2), (1, 2), (2, 1), (2,), (1, 1, 1)])
    E.raises(ValueError, lambda: f(a, s, wl, E.rarr('Q', sh), s2), 'source powers of another size')
    E.raises(ValueError, lambda: f(a, s, wl, p, s2, N, 'none'), 'unknown return mode')


@H(quick=grid(pair=[((0, 1, 2), (0, 1, 3)), ((0, 1), (0, 1, 2))]), bounds='two arrays of one name and spacing with other positions, one after another')
def sequence(E, pair):
    d, wl = E.real('d', lo=0.2, hi=0.5), E.real('wl', lo=1, hi=2)
    t = [E.real('t', lo=-0.9, hi=0.9)]
    s = E.dt.sources.FarField1DSourcePlacement(E.arr(t), 'sin')
    s2, N = noise(E)
    p = E.real('p', lo=0.2, hi=3)
    arr = [E.dt.arrays.GridBasedArrayDesign(np.array([[i] for i in ix]), d, 'g') for ix in pair]
    for i in (0, 1, 0):
        ref = reference(E, list(pair[i]), t, d, wl, [p], s2, N, 'sin')
        E.eq(E.dt.mse.ecov_coarray_music_1d(arr[i], s, wl, p, s2, N), ref, 'error of its own array')
