"""C33 Cramer-Rao bounds."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['performance.crb']
ASSUMPTIONS = ['matrices that are inverted are regular; matrix inverses larger than the explicit size are uninterpreted (equal matrices have equal inverses, Hermitian matrices Hermitian inverses)']


def geometry(E, m, k, unit, angles_=None):
    """(array, sources, wavelength, A, dA/dlocation) for an arbitrary linear array"""
    loc = [0] + [E.real('d%d' % i, lo=0.1, hi=3) for i in range(1, m)]
    a = E.dt.arrays.ArrayDesign(E.arr([[x] for x in loc]), 'arb')
    wl = E.real('wl', lo=0.3, hi=2)
    s = far1(E, k, unit)
    t = s.locations
    kap = 2 * E.pi / wl
    A = E.arr([[expj(E, kap * loc[i] * sin_of(E, t[j], unit)) for j in range(k)] for i in range(m)])
    g = {'rad': lambda x: cos_of(E, x, 'rad'), 'deg': lambda x: cos_of(E, x, 'deg') * (E.pi / 180), 'sin': lambda x: 1}[unit]
    D = E.arr([[E.j * kap * loc[i] * g(t[j]) * A[i, j] for j in range(k)] for i in range(m)])
    return a, s, wl, A, D


def hm(x):
    return x.conj().T


def closed_sto(E, A, D, P, s2, N):
    m = A.shape[0]
    inv = E.np.linalg.inv
    Q = E.np.eye(m) - A @ inv(hm(A) @ A) @ hm(A)
    R = A @ P @ hm(A) + s2 * E.np.eye(m)
    W = P @ hm(A) @ inv(R) @ A @ P
    Hm = hm(D) @ Q @ D
    k = A.shape[1]
    M = E.arr([[(Hm[i, j] * W[j, i]).real for j in range(k)] for i in range(k)])
    return sym_(inv(M)) * s2 / (2 * N)


def sym_(X):
    return (X + X.T) / 2


def closed_det(E, A, D, P, s2, N):
    m, k = A.shape
    inv = E.np.linalg.inv
    Q = E.np.eye(m) - A @ inv(hm(A) @ A) @ hm(A)
    Hm = hm(D) @ Q @ D
    M = E.arr([[(Hm[i, j] * P[j, i]).real for j in range(k)] for i in range(k)])
    return sym_(inv(M)) * s2 / (2 * N)


def source_cov(E, k, diag=False):
    if diag:
        p = [E.real('p%d' % i, lo=0.2, hi=3) for i in range(k)]
        return E.arr([[p[i] if i == j else 0 for j in range(k)] for i in range(k)])
    if k == 1:
        return E.arr([[E.real('p0', lo=0.2, hi=3)]])
    v = {}
    for i in range(k):
        for j in range(i, k):
            v[i, j] = E.real('P%d%d' % (i, j), lo=1, hi=3) if i == j else E.cplx('P%d%d' % (i, j), lo=-0.4, hi=0.4)
            v[j, i] = v[i, j].conjugate() if i != j else v[i, j]
    return E.arr([[v[i, j] for j in range(k)] for i in range(k)])


def noise(E):
    return E.real('s2', lo=0.1, hi=2), E.real('N', lo=1, hi=100)


def fim(E, R, dR):
    """N = 1: tr(R^-1 dR_i R^-1 dR_j)"""
    Ri = E.np.linalg.inv(R)
    X = [Ri @ d for d in dR]
    n = len(dR)
    return E.arr([[E.np.trace(X[i] @ X[j]).real for j in range(n)] for i in range(n)])


def outer(a, b):
    n = a.shape[0]
    return a.reshape(n, 1) @ b.conj().reshape(1, n)


def dtheta(E, A, D, P, i):
    """derivative of A P A^H with respect to direction i"""
    X = outer(D[:, i], (A @ P[i].conj()))
    return X + hm(X)


@H(quick=grid(mk=[(2, 1), (3, 1)], unit=['rad', 'deg', 'sin'], which=['sto', 'det']) + grid(mk=[(3, 2)], unit=['sin'], which=['sto']) + grid(mk=[(3, 2)], unit=['rad', 'deg', 'sin'], which=['det']),
   thorough=grid(mk=[(3, 2)], unit=['rad', 'deg'], which=['sto']) + grid(mk=[(4, 2)], unit=['sin'], which=['sto']) + grid(mk=[(4, 2), (4, 3)], unit=['rad', 'sin'], which=['det']),
   bounds='arbitrary linear arrays of 2-3 (4) elements, 1-2 (3) sources in every unit, any source covariance, noise variance, number of snapshots')
def closed(E, mk, unit, which):
    """the published closed forms"""
    m, k = mk
    a, s, wl, A, D = geometry(E, m, k, unit)
    P = source_cov(E, k)
    s2, N = noise(E)
    P0 = P.copy()
    if which == 'sto':
        C = E.dt.crb.crb_sto_farfield_1d(a, s, wl, P, s2, N)
        ref = closed_sto(E, A, D, P0, s2, N)
    else:
        C = E.dt.crb.crb_det_farfield_1d(a, s, wl, P, s2, N)
        ref = closed_det(E, A, D, P0, s2, N)
    E.same(tuple(C.shape), (k, k), 'one row per source')
    E.eq(C, ref, 'closed form of the bound')
    E.eq(C, C.T, 'symmetric')
    E.eq(P, P0, 'source covariance unchanged')


@H(quick=grid(m=[2, 3], unit=['sin', 'rad'], which=['sto', 'stouc', 'det']), thorough=grid(m=[4], unit=['sin', 'rad', 'deg'], which=['sto', 'stouc', 'det']),
   bounds='one source on 2-3 (4) arbitrary elements: the complete Fisher information matrix of the Gaussian model, inverted')
def single(E, m, unit, which):
    a, s, wl, A, D = geometry(E, m, 1, unit)
    s2, N = noise(E)
    p = E.real('p', lo=0.2, hi=3)
    E.opts(explicit_inv=4, explicit_terms=100000)
    aa, d = A[:, 0], D[:, 0]
    if which == 'det':
        x, y = E.real('x', lo=0.2, hi=2), E.real('y', lo=0.2, hi=2)
        z = x + E.j * y
        mu = [d * z, aa, E.j * aa]
        F = E.arr([[(u.conj() * v).sum().real * 2 / s2 for v in mu] for u in mu])
        C = E.dt.crb.crb_det_farfield_1d(a, s, wl, E.arr([[x * x + y * y]]), s2, N)
    else:
        R = p * outer(aa, aa) + s2 * E.np.eye(m)
        F = fim(E, R, [p * (outer(d, aa) + outer(aa, d)), outer(aa, aa), E.np.eye(m)])
        f = getattr(E.dt.crb, 'crb_%s_farfield_1d' % which)
        C = f(a, s, wl, p, s2, N)
    E.eq(C[0, 0], E.np.linalg.inv(F)[0, 0] / N, 'inverse of the complete Fisher information')


@H(quick=grid(mk=[(2, 1), (3, 2)], unit=['rad', 'sin']) + grid(mk=[(2, 1), (3, 2)], unit=['deg']), thorough=grid(mk=[(3, 3), (4, 3)], unit=['rad', 'deg', 'sin']),
   bounds='uncorrelated sources: 1-2 (3) sources on 2-3 (4) arbitrary elements (as many sources as elements in the thorough tier)')
def uncorrelated(E, mk, unit):
    m, k = mk
    a, s, wl, A, D = geometry(E, m, k, unit)
    P = source_cov(E, k, True)
    s2, N = noise(E)
    p = [P[i, i] for i in range(k)]
    C = E.dt.crb.crb_stouc_farfield_1d(a, s, wl, E.arr(p), s2, N)
    R = s2 * E.np.eye(m)
    for i in range(k):
        R = R + p[i] * outer(A[:, i], A[:, i])
    dR = [p[i] * (outer(D[:, i], A[:, i]) + outer(A[:, i], D[:, i])) for i in range(k)]
    dR += [outer(A[:, i], A[:, i]) for i in range(k)] + [E.np.eye(m)]
    F = fim(E, R, dR)
    ref = E.np.linalg.inv(F)[:k, :k] / N
    E.eq(C, sym_(ref), 'direction block of the inverse Fisher information')


@H(quick=grid(which=['sto', 'det']), bounds='two sources at rational phases on three half-wavelength elements: the complete Fisher information with every covariance (amplitude) parameter')
def pair(E, which):
    m, k = 3, 2
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    s = E.dt.sources.FarField1DSourcePlacement([0.0, 0.5], 'sin')
    A = E.arr([[expj(E, E.pi * i * x) for x in (0, 0.5)] for i in range(m)])
    D = E.arr([[E.j * E.pi * i * A[i, j] for j in range(k)] for i in range(m)])
    E.opts(explicit_inv=7, explicit_terms=100000)
    s2 = E.real('s2', lo=0.1, hi=2)
    if which == 'det':
        z = [E.real('x0', lo=0.2, hi=2) + E.j * E.real('y0', lo=0.2, hi=2), 1 + E.j]
        mu = [D[:, i] * z[i] for i in range(k)] + [A[:, i] for i in range(k)] + [E.j * A[:, i] for i in range(k)]
        F = E.arr([[(u.conj() * v).sum().real * 2 / s2 for v in mu] for u in mu])
        P = E.arr([[z[i] * z[j].conjugate() for j in range(k)] for i in range(k)])
        C = E.dt.crb.crb_det_farfield_1d(a, s, 1.0, P, s2, 1)
    else:
        p = E.real('p', lo=1, hi=3)
        P = E.arr([[p, 0.5], [0.5, 1.0]])
        R = A @ P @ hm(A) + s2 * E.np.eye(m)
        dR = [dtheta(E, A, D, P, i) for i in range(k)] + [outer(A[:, i], A[:, i]) for i in range(k)]
        X = outer(A[:, 0], A[:, 1])
        dR += [X + hm(X), E.j * (X - hm(X)), E.np.eye(m)]
        F = fim(E, R, dR)
        C = E.dt.crb.crb_sto_farfield_1d(a, s, 1.0, P, s2, 1)
    # F [C; Z] = [I; 0] with Z eliminated: C is the inverse of the Schur complement
    n = F.shape[0]
    Fnn, Fnt = F[k:, k:], F[k:, :k]
    S = F[:k, :k] - Fnt.T @ E.np.linalg.inv(Fnn) @ Fnt
    E.eq(S @ C, E.np.eye(k), 'inverse of the Schur complement of the complete Fisher information')


@H(quick=grid(which=['sto', 'det', 'stouc']), bounds='gain, phase and location errors, known or not: all are part of the array')
def perturbed(E, which):
    P_ = E.dt.perturb
    ge, dl = E.real('ge', lo=-0.3, hi=0.5), E.real('dl', lo=-0.1, hi=0.1)
    kn = E.choice('known', [True, False])
    d0, wl = 0.5, 1.0
    a = E.dt.arrays.UniformLinearArray(2, d0, perturbations=[P_.GainErrors(E.arr([0.0, ge]), kn), P_.LocationErrors(E.arr([[0.0], [dl]]), not kn)])
    x = E.real('t', lo=-1, hi=1, strict=True)
    s = E.dt.sources.FarField1DSourcePlacement(E.arr([x]), 'sin')
    pos = d0 + dl
    y = (1 + ge) * expj(E, 2 * E.pi * pos * x)
    A = E.arr([[1], [y]])
    D = E.arr([[0], [2 * E.pi * E.j * pos * y]])
    p = E.real('p', lo=0.2, hi=3)
    s2, N = noise(E)
    P = E.arr([[p]])
    if which == 'det':
        E.eq(E.dt.crb.crb_det_farfield_1d(a, s, wl, P, s2, N), closed_det(E, A, D, P, s2, N), 'bound of the perturbed array')
    elif which == 'sto':
        E.eq(E.dt.crb.crb_sto_farfield_1d(a, s, wl, P, s2, N), closed_sto(E, A, D, P, s2, N), 'bound of the perturbed array')
    else:
        C = E.dt.crb.crb_stouc_farfield_1d(a, s, wl, p, s2, N)
        R = p * outer(A[:, 0], A[:, 0]) + s2 * E.np.eye(2)
        F = fim(E, R, [p * (outer(D[:, 0], A[:, 0]) + outer(A[:, 0], D[:, 0])), outer(A[:, 0], A[:, 0]), E.np.eye(2)])
        E.eq(C, E.np.linalg.inv(F)[:1, :1] / N, 'bound of the perturbed array')


@H(quick=grid(which=['sto', 'det', 'stouc'], c=[1e-15, 1e-6, 1e9]), bounds='powers and noise in units from 1e-15 to 1e9, one source on two elements')
def units(E, which, c):
    """only the ratio of the powers to the noise matters"""
    f = getattr(E.dt.crb, 'crb_%s_farfield_1d' % which)
    a, s, wl, A, D = geometry(E, 2, 1, 'sin')
    p = E.real('p', lo=0.2, hi=3)
    s2, N = noise(E)
    E.opts(explicit_inv=4, explicit_terms=100000)
    P = E.arr([[p]])
    ref = closed_det(E, A, D, P, s2, N) if which == 'det' else closed_sto(E, A, D, P, s2, N)
    E.eq(f(a, s, wl, P * c, s2 * c, N), ref, 'independent of the unit of the powers')


@H(quick=grid(which=['sto', 'det', 'stouc']), bounds='three sources on four elements with unknown errors of any size')
def perturbed_more(E, which):
    P_ = E.dt.perturb
    ge = E.real('ge', lo=-0.3, hi=0.5)
    a = E.dt.arrays.UniformLinearArray(4, 0.5, perturbations=[P_.GainErrors(E.arr([0.0, ge, 0.0, 0.0]), False)])
    x = [-0.5, 0.0, 1 / 3]
    s = E.dt.sources.FarField1DSourcePlacement(x, 'sin')
    gains = E.np.diag(E.arr([1.0, 1 + ge, 1.0, 1.0]))
    A0 = E.arr([[expj(E, E.pi * i * v) for v in x] for i in range(4)])
    A = gains @ A0
    D = gains @ E.arr([[E.pi * E.j * i * expj(E, E.pi * i * v) for v in x] for i in range(4)])
    p = [1.0, 0.5, 2.0]
    s2, N = 0.25, 10
    P = E.np.diag(E.arr(p))
    f = getattr(E.dt.crb, 'crb_%s_farfield_1d' % which)
    if which == 'stouc':
        # every quantity of the array enters through A and dA: an ideal array with these steering vectors
        R = (A * E.arr(p)) @ hm(A) + s2 * E.np.eye(4)
        F = fim(E, R, [dtheta(E, A, D, P, i) for i in range(3)] + [outer(A[:, i], A[:, i]) for i in range(3)] + [E.np.eye(4)])
        E.eq(f(a, s, 1.0, E.arr(p), s2, N), E.np.linalg.inv(F)[:3, :3] / N, 'bound of the perturbed array')
    else:
        E.eq(f(a, s, 1.0, P, s2, N), (closed_det if which == 'det' else closed_sto)(E, A, D, P, s2, N), 'bound of the perturbed array')


def fixed(E, m, k):
    """half-wavelength array; directions whose phase steps have rational cosines and sines"""
    q = [E.const(0.0), E.np.arctan2(E.const(4.0), E.const(3.0)) / E.pi, -E.np.arctan2(E.const(12.0), E.const(5.0)) / E.pi, E.const(0.5),
         E.np.arctan2(E.const(8.0), E.const(15.0)) / E.pi, E.const(-0.5), -E.np.arctan2(E.const(3.0), E.const(4.0)) / E.pi, E.const(1.0)][:k]
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    s = E.dt.sources.FarField1DSourcePlacement(E.arr(q), 'sin')
    A = E.arr([[expj(E, E.pi * i * x) for x in q] for i in range(m)])
    D = E.arr([[E.j * E.pi * i * A[i, j] for j in range(k)] for i in range(m)])
    return a, s, A, D


def fixed_cov(E, k):
    """a positive definite source covariance, every entry different"""
    return E.arr([[E.const((i * i % 5 + 2) / 4) if i == j else E.const(1.0 / 16) + E.j * (j - i) / 64 for j in range(k)] for i in range(k)])


@H(quick=grid(mk=[(5, 3), (6, 4), (8, 3)], which=['sto']) + grid(mk=[(7, 4), (9, 6), (12, 8)], which=['det']) + grid(mk=[(5, 2), (5, 3)], which=['stouc']),
   thorough=grid(mk=[(7, 4), (8, 4)], which=['sto']) + grid(mk=[(6, 3), (6, 4)], which=['stouc']),
   bounds='up to 12 elements and 8 fixed directions, correlated sources; any noise level and number of snapshots')
def large(E, mk, which):
    m, k = mk
    a, s, A, D = fixed(E, m, k)
    s2, N = noise(E)
    E.opts(explicit_inv=20, explicit_terms=10000000)
    P = fixed_cov(E, k)
    if which == 'stouc':
        p = E.arr([P[i, i].real for i in range(k)])
        C = E.dt.crb.crb_stouc_farfield_1d(a, s, 1.0, p * s2, s2, N)
        R = E.np.eye(m) + (A * p) @ hm(A)
        dR = [dtheta(E, A, D, E.np.diag(p), i) for i in range(k)] + [outer(A[:, i], A[:, i]) for i in range(k)] + [E.np.eye(m)]
        ref = E.np.linalg.inv(fim(E, R, dR))[:k, :k] / N
    else:
        C = getattr(E.dt.crb, 'crb_%s_farfield_1d' % which)(a, s, 1.0, P * s2, s2, N)
        ref = (closed_sto if which == 'sto' else closed_det)(E, A, D, P, E.const(1.0), N)
    E.same(tuple(C.shape), (k, k), 'one row per source')
    E.eq(C, ref, 'closed form of the bound')


@H(quick=grid(which=['sto', 'det', 'stouc']), bounds='default number of snapshots, scaling, rejection of other source kinds and matrix sizes')
def usage(E, which):
    f = getattr(E.dt.crb, 'crb_%s_farfield_1d' % which)
    a, s, wl, A, D = geometry(E, 3, 2, 'sin')
    P = source_cov(E, 2, which != 'det')
    s2, N = noise(E)
    C1 = f(a, s, wl, P, s2)
    if E.choice('big', [False, True]):
        N = E.real('NB', lo=1000, hi=1000000000)
    E.eq(f(a, s, wl, P, s2, N) * N, C1, 'inversely proportional to the number of snapshots')
    E.eq(f(a, s, wl, P, s2, 1), C1, 'one snapshot by default')
    S = E.dt.sources
    E.raises(ValueError, lambda: f(a, S.FarField2DSourcePlacement([[0.1, 0.2], [0.3, 0.4]]), wl, P, s2), 'only far-field 1D sources')
    E.raises(ValueError, lambda: f(a, S.NearField2DSourcePlacement([[1.0, 2.0], [3.0, 4.0]]), wl, P, s2), 'only far-field 1D sources')
    sh = E.choice('shape', [(1, 1), (3, 3), (2, 3), (1, 2), (2, 2, 2)])
    E.raises(ValueError, lambda: f(a, s, wl, E.rarr('Q', sh), s2), 'source covariance of another size')
    E.raises(ValueError, lambda: f(a, s, wl, P, s2, N, 'none'), 'unknown return mode')


@H(quick=grid(which=['sto', 'det', 'stouc']), bounds='bounds of two arrays of one name and size, of one array with and without errors, for other powers and directions, one after another')
def sequence(E, which):
    wl = E.real('wl', lo=0.3, hi=2)
    kap = 2 * E.pi / wl
    s2, N = noise(E)
    x = [E.real('x%d' % i, lo=0.1, hi=3) for i in range(2)]
    t = [E.real('t%d' % i, lo=-1, hi=1, strict=True) for i in range(2)]
    p = [E.real('p%d' % i, lo=0.2, hi=3) for i in range(2)]
    ge = E.real('ge', lo=-0.3, hi=0.5)
    arr = [E.dt.arrays.ArrayDesign(E.arr([[0], [v]]), 'arb') for v in x]
    arr.append(arr[0].get_perturbed_copy([E.dt.perturb.GainErrors(E.arr([0.0, ge]), False)]))
    src = [E.dt.sources.FarField1DSourcePlacement(E.arr([v]), 'sin') for v in t]
    f = getattr(E.dt.crb, 'crb_%s_farfield_1d' % which)
    for a, i, q in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 0)):
        d = x[1 if a == 1 else 0]
        y = expj(E, kap * d * t[i]) * ((1 + ge) if a == 2 else 1)
        A, D = E.arr([[1], [y]]), E.arr([[0], [E.j * kap * d * y]])
        P = E.arr([[p[q]]])
        if which == 'stouc':
            R = p[q] * outer(A[:, 0], A[:, 0]) + s2 * E.np.eye(2)
            F = fim(E, R, [p[q] * (outer(D[:, 0], A[:, 0]) + outer(A[:, 0], D[:, 0])), outer(A[:, 0], A[:, 0]), E.np.eye(2)])
            ref = E.np.linalg.inv(F)[:1, :1] / N
        else:
            ref = (closed_sto if which == 'sto' else closed_det)(E, A, D, P, s2, N)
        E.eq(f(arr[a], src[i], wl, P, s2, N), ref, 'bound of its own array, sources and powers')
