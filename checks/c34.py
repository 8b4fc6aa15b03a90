"""C34 asymptotic error covariance of MUSIC."""
from .base import *
from .c33 import fixed, fixed_cov, geometry, hm, source_cov, noise

H = Suite()
HARNESSES = H.list
WARM = ['performance.mse']
ASSUMPTIONS = ['matrices that are inverted are regular; matrix inverses larger than the explicit size are uninterpreted (equal matrices have equal inverses, Hermitian matrices Hermitian inverses)']


def reference(E, A, D, P, s2, N):
    """First-order perturbation of the MUSIC minimum: the error of direction k
    is -Re(d_k^H Q dR w_k) / (d_k^H Q d_k), w_k = column k of A (A^H A)^-1 P^-1,
    with E[dR_ij conj(dR_lm)] = R_il conj(R_jm) / N."""
    m, k = A.shape
    inv = E.np.linalg.inv
    G = inv(hm(A) @ A)
    Q = E.np.eye(m) - A @ G @ hm(A)
    W = A @ G @ inv(P)
    R = A @ P @ hm(A) + s2 * E.np.eye(m)
    QD = Q @ D
    X = hm(QD) @ R @ QD
    Y = hm(W) @ R @ W
    h = [(hm(D) @ QD)[i, i].real for i in range(k)]
    return E.arr([[(X[i, j] * Y[j, i]).real / (2 * N * h[i] * h[j]) for j in range(k)] for i in range(k)])


def closed(E, A, D, P, s2, N):
    m, k = A.shape
    inv = E.np.linalg.inv
    G = inv(hm(A) @ A)
    Hm = hm(D) @ (E.np.eye(m) - A @ G @ hm(A)) @ D
    Pi = inv(P)
    B = Pi + s2 * (Pi @ G @ Pi)
    return E.arr([[(Hm[i, j] * B[j, i]).real * s2 / (2 * N * Hm[i, i].real * Hm[j, j].real) for j in range(k)] for i in range(k)])


@H(quick=grid(mk=[(2, 1), (3, 1), (4, 1)], unit=['rad', 'deg', 'sin']) + grid(mk=[(3, 2)], unit=['sin']), thorough=grid(mk=[(5, 1), (3, 2)], unit=['rad', 'deg']) + grid(mk=[(4, 2)], unit=['sin']),
   bounds='arbitrary linear arrays of 2-4 (5) elements, 1-2 (3) sources in every unit, any source covariance, noise variance and number of snapshots')
def covariance(E, mk, unit):
    m, k = mk
    a, s, wl, A, D = geometry(E, m, k, unit)
    P = source_cov(E, k)
    s2, N = noise(E)
    P0 = P.copy()
    C = E.dt.mse.ecov_music_1d(a, s, wl, P, s2, N)
    E.same(tuple(C.shape), (k, k), 'one row per source')
    E.eq(C, closed(E, A, D, P0, s2, N), 'published closed form')
    if k == 1:
        E.eq(C, reference(E, A, D, P0, s2, N), 'first-order perturbation of the MUSIC minimum')
    E.eq(P, P0, 'source covariance unchanged')


@H(quick=grid(mk=[(3, 2)]), thorough=grid(mk=[(4, 2)]), bounds='two sources, first at broadside, any source covariance: the covariance predicted by first-order perturbation analysis')
def analysis(E, mk):
    m, k = mk
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    x = E.real('x', lo=0.2, hi=0.9)
    s = E.dt.sources.FarField1DSourcePlacement(E.arr([0, x]), 'sin')
    A = E.arr([[expj(E, E.pi * i * t) for t in (0, x)] for i in range(m)])
    D = E.arr([[E.j * E.pi * i * A[i, j] for j in range(k)] for i in range(m)])
    P = source_cov(E, k)
    s2, N = noise(E)
    C = E.dt.mse.ecov_music_1d(a, s, 1.0, P, s2, N)
    E.eq(C, reference(E, A, D, P, s2, N), 'first-order perturbation of the MUSIC minimum')


@H(quick=grid(m=[2, 3, 4], unit=['sin', 'rad']), bounds='one source on a uniform array: the scalar textbook value')
def textbook(E, m, unit):
    d, wl = E.real('d', lo=0.1, hi=1), E.real('wl', lo=0.3, hi=2)
    a = E.dt.arrays.UniformLinearArray(m, d)
    s = far1(E, 1, unit)
    p = E.real('p', lo=0.2, hi=3)
    s2, N = noise(E)
    C = E.dt.mse.ecov_music_1d(a, s, wl, p, s2, N)
    c2 = 1 if unit == 'sin' else cos_of(E, s.locations[0], 'rad') ** 2
    h = (2 * E.pi * d / wl) ** 2 * c2 * (m * (m * m - 1)) / 12
    E.eq(C, [[s2 / (2 * N * h) * (1 / p + s2 / (m * p * p))]], 'variance of one source on a uniform array')


@H(quick=grid(mk=[(5, 3), (8, 4), (9, 6)]), thorough=grid(mk=[(12, 8)]), bounds='up to 9 (12) elements and 6 (8) fixed directions, correlated sources; any noise level and number of snapshots')
def large(E, mk):
    m, k = mk
    a, s, A, D = fixed(E, m, k)
    s2, N = noise(E)
    E.opts(explicit_inv=20, explicit_terms=10000000)
    P = fixed_cov(E, k)
    C = E.dt.mse.ecov_music_1d(a, s, 1.0, P, s2, N)
    E.eq(C, closed(E, A, D, P, s2, N), 'published closed form')
    if k < 6:
        E.eq(C, reference(E, A, D, P, s2, N), 'first-order perturbation of the MUSIC minimum')


@H(quick=grid(c=[1e-15, 1e-6, 1e9]), bounds='powers and noise in units from 1e-15 to 1e9')
def units(E, c):
    """only the ratio of the powers to the noise matters"""
    a, s, wl, A, D = geometry(E, 2, 1, 'sin')
    p = E.real('p', lo=0.2, hi=3)
    s2, N = noise(E)
    E.eq(E.dt.mse.ecov_music_1d(a, s, wl, p * c, s2 * c, N), closed(E, A, D, E.arr([[p]]), s2, N), 'independent of the unit of the powers')


@H(quick=grid(mode=['all', 'known', 'none', None]), bounds='gain, location and phase errors, known or not, and the perturbations argument (all by default)')
def perturbed(E, mode):
    P_ = E.dt.perturb
    ge, dl = E.real('ge', lo=-0.3, hi=0.5), E.real('dl', lo=-0.1, hi=0.1)
    kn = E.choice('known', [True, False])
    a = E.dt.arrays.UniformLinearArray(2, 0.5, perturbations=[P_.GainErrors(E.arr([0.0, ge]), kn), P_.LocationErrors(E.arr([[0.0], [dl]]), not kn)])
    x = E.real('t', lo=-1, hi=1, strict=True)
    s = E.dt.sources.FarField1DSourcePlacement(E.arr([x]), 'sin')
    g, l = (mode in ('all', None) or mode == 'known' and kn), (mode in ('all', None) or mode == 'known' and not kn)
    pos = 0.5 + (dl if l else 0)
    y = (1 + (ge if g else 0)) * expj(E, 2 * E.pi * pos * x)
    A = E.arr([[1], [y]])
    D = E.arr([[0], [2 * E.pi * E.j * pos * y]])
    p = E.real('p', lo=0.2, hi=3)
    s2, N = noise(E)
    kw = {} if mode is None else {'perturbations': mode}
    E.eq(E.dt.mse.ecov_music_1d(a, s, 1.0, p, s2, N, **kw), closed(E, A, D, E.arr([[p]]), s2, N), 'steering matrix with the chosen perturbations')


@H(quick=grid(m=[2, 3]), bounds='default number of snapshots, scaling; as many sources as elements, other source kinds, unknown modes rejected')
def usage(E, m):
    f = E.dt.mse.ecov_music_1d
    a, s, wl, A, D = geometry(E, m, m - 1, 'sin')
    k = m - 1
    P = source_cov(E, k, True)
    s2, N = noise(E)
    C1 = f(a, s, wl, P, s2)
    if E.choice('big', [False, True]):
        N = E.real('NB', lo=1000, hi=1000000000)
    E.eq(f(a, s, wl, P, s2, N) * N, C1, 'inversely proportional to the number of snapshots')
    E.eq(f(a, s, wl, P, s2, 1), C1, 'one snapshot by default')
    S = E.dt.sources
    for n in (m, m + 1):
        E.raises(ValueError, lambda: f(a, S.FarField1DSourcePlacement([0.1 * i for i in range(n)]), wl, 1.0, s2), 'as many sources as elements')
    E.raises(ValueError, lambda: f(a, S.FarField2DSourcePlacement([[0.1, 0.2]] * k), wl, P, s2), 'only far-field 1D sources')
    E.raises(ValueError, lambda: f(a, S.NearField2DSourcePlacement([[1.0, 2.0]] * k), wl, P, s2), 'only far-field 1D sources')
    sh = E.choice('shape', [(k + 1, k + 1), (k, k + 1), (k + 1, k), (k + 1,), (k, k, k)])
    E.raises(ValueError, lambda: f(a, s, wl, E.rarr('Q', sh), s2), 'source covariance of another size')
    E.raises(ValueError, lambda: f(a, s, wl, P, s2, N, 'all', 'none'), 'unknown return mode')
    E.raises(ValueError, lambda: f(a, s, wl, P, s2, N, 'some'), 'unknown perturbation mode')


@H(quick=grid(mode=['all', 'known', 'none', None]), bounds='two and three fixed directions on four elements, gain, location and phase errors, known or not, and the perturbations argument')
def perturbed_many(E, mode):
    P_ = E.dt.perturb
    m, k = 4, E.choice('k', [2, 3])
    a, s, A, D = fixed(E, m, k)
    ge = E.real('ge', lo=-0.3, hi=0.5)
    kn = E.choice('known', [True, False])
    b = a.get_perturbed_copy([P_.GainErrors(E.arr([0.0, ge, 0.0, 0.25]), kn), P_.LocationErrors(E.arr([[0.0], [0.0], [0.5], [1.0]]), not kn)])
    g, l = (mode in ('all', None) or mode == 'known' and kn), (mode in ('all', None) or mode == 'known' and not kn)
    pos = [0, 1, 3, 5] if l else [0, 1, 2, 3]
    gain = [1, 1 + ge, 1, 1.25] if g else [1] * 4
    A = E.arr([[gain[i] * expj(E, E.pi * pos[i] * x) for x in s.locations] for i in range(m)])
    D = E.arr([[E.j * E.pi * pos[i] * A[i, j] for j in range(k)] for i in range(m)])
    s2, N = noise(E)
    E.opts(explicit_inv=20, explicit_terms=10000000)
    P = fixed_cov(E, k)
    kw = {} if mode is None else {'perturbations': mode}
    E.eq(E.dt.mse.ecov_music_1d(b, s, 1.0, P, s2, N, **kw), closed(E, A, D, P, s2, N), 'steering matrix with the chosen perturbations')
