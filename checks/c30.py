"""C30 objectives of the maximum-likelihood estimators."""
from .base import *
from .c33 import fixed

H = Suite()
HARNESSES = H.list
WARM = ['estimation.ml', 'model.perturbations']
ASSUMPTIONS = ['scipy.optimize.minimize is replaced by an arbitrary optimiser that evaluates the objective it is given at arbitrary admissible points',
               'pinv of a full column rank matrix is (A^H A)^-1 A^H', 'eigh returns ascending eigenvalues with orthonormal eigenvectors (uninterpreted)']


class Res(dict):
    __getattr__ = dict.__getitem__


def objective(E, est, R, s0, x, **kw):
    """value of the objective handed to the optimiser at the point x"""
    out = []

    def opt(fun, x0, *a, **k):
        out.append(fun(x))
        return Res(success=True, x=x, fun=out[0])
    E.on_minimize(opt)
    est.estimate(R, s0, **kw)
    return out[0]


def make(E, name, a, wl):
    return getattr(E.dt.ml, name)(a, wl)


def proj(E, A):
    AH = A.conj().T
    return A @ E.np.linalg.inv(AH @ A) @ AH


def expected(E, name, A, R, k):
    """the documented function; the matrix of the AML criterion is positive definite"""
    m = A.shape[0]
    P = proj(E, A)
    Q = E.np.eye(m) - P
    if name == 'CMLEstimator':
        return E.np.trace(Q @ R).real
    if name == 'WSFEstimator':
        v, U = E.np.linalg.eigh(R)
        s2 = v[0]
        for i in range(1, m - k):
            s2 = s2 + v[i]
        s2 = s2 / (m - k)
        tot = None
        for i in range(m - k, m):
            w = (v[i] - s2) * (v[i] - s2) / v[i]
            u = U[:, i]
            y = Q @ u
            e = (y.conj() * y).sum().real * w
            tot = e if tot is None else tot + e
        return tot
    t = E.np.trace(Q @ R).real / (m - k)
    D = P @ R @ P + t * Q
    D = (D + D.conj().T) / 2
    E.assume(E.np.linalg.det(D).real > 0.001)
    return E.np.linalg.slogdet(D)[1]


def compare(E, name, run, A, R, k, label):
    ref = expected(E, name, A, R, k)
    E.eq(run(), ref, label)


def steering(E, pos, sins, wl):
    """pos: list of coordinates along x; independent reference"""
    return E.arr([[expj(E, 2 * E.pi / wl * p * s) for s in sins] for p in pos])


NAMES = ['AMLEstimator', 'CMLEstimator', 'WSFEstimator']


def cov(E, m, real=False):
    if not real:
        return E.herm('R', m, lo=0.2, hi=4)
    v = {}
    return E.arr([[v.setdefault((min(i, j), max(i, j)), E.real('r%d%d' % (min(i, j), max(i, j)), lo=-1, hi=1) + (3 if i == j else 0)) for j in range(m)] for i in range(m)])


@H(quick=grid(name=NAMES, mk=[(2, 1), (3, 1)], unit=['rad', 'deg', 'sin']) + grid(name=NAMES, mk=[(3, 2)], unit=['rad', 'sin']) + grid(name=['WSFEstimator'], mk=[(4, 1)], unit=['sin']),
   thorough=grid(name=NAMES, mk=[(3, 2)], unit=['deg']) + grid(name=['CMLEstimator', 'WSFEstimator'], mk=[(4, 1), (4, 2)], unit=['rad', 'deg', 'sin']) + grid(name=['CMLEstimator'], mk=[(4, 3)], unit=['sin']),
   bounds='uniform linear arrays of 2-3 (4) elements, 1-2 sources in every unit, any Hermitian covariance, any candidate directions')
def linear(E, name, mk, unit):
    m, k = mk
    d0 = E.real('d0', lo=0.1, hi=2)
    wl = E.real('wl', lo=0.2, hi=2)
    a = E.dt.arrays.UniformLinearArray(m, d0)
    R = cov(E, m)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1, 0.3, 0.5][:k], unit)
    x = far1(E, k, unit).locations
    A = steering(E, [d0 * i for i in range(m)], [sin_of(E, x[j], unit) for j in range(k)], wl)
    compare(E, name, lambda: objective(E, make(E, name, a, wl), R, s0, x), A, R, k, 'documented objective at every candidate')


@H(quick=grid(name=['CMLEstimator', 'WSFEstimator'], mk=[(5, 2), (6, 4), (9, 6)]) + grid(name=['AMLEstimator'], mk=[(5, 2), (6, 4), (7, 3)]), thorough=grid(name=['AMLEstimator'], mk=[(9, 6)]) + grid(name=['CMLEstimator'], mk=[(12, 8)]),
   bounds='uniform arrays of up to 9 (12) elements with up to 6 (8) candidates at fixed directions, any Hermitian covariance (log-likelihood: one covariance in any unit)')
def large(E, name, mk):
    m, k = mk
    a, s, A, D = fixed(E, m, k)
    E.opts(explicit_inv=20, explicit_terms=10000000, explicit_det=10)
    if name == 'AMLEstimator':
        s2 = E.real('s2', lo=0.5, hi=2)
        R = E.arr([[s2 * (m if i == j else (1 + E.j * (j - i)) / 4 if abs(i - j) < 3 else 0) for j in range(m)] for i in range(m)])
    else:
        R = cov(E, m)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1 * (i + 1) for i in range(k)], 'sin')
    compare(E, name, lambda: objective(E, make(E, name, a, 1.0), R, s0, s.locations), A, R, k, 'documented objective at every candidate')


@H(quick=grid(name=NAMES), bounds='real symmetric covariances of size 2')
def real_cov(E, name):
    a = E.dt.arrays.UniformLinearArray(2, 0.5)
    R = cov(E, 2, True)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1], 'sin')
    x = E.rarr('t', (1,), lo=-1, hi=1, strict=True)
    A = steering(E, [0, 0.5], [x[0]], 1)
    compare(E, name, lambda: objective(E, make(E, name, a, 1), R, s0, x), A, R, 1, 'documented objective of a real covariance')


@H(quick=grid(name=NAMES, c=[1e-20, 1e-9, 1e12]), bounds='covariances of size 2 in units from 1e-20 to 1e12, any candidate direction')
def scales(E, name, c):
    m = 2
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    R = cov(E, m)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1], 'sin')
    x = E.rarr('t', (1,), lo=-1, hi=1, strict=True)
    A = steering(E, [0, 0.5], [x[0]], 1)
    if name == 'AMLEstimator':
        P = proj(E, A)
        Q = E.np.eye(m) - P
        D = P @ R @ P + E.np.trace(Q @ R).real / (m - 1) * Q
        D = (D + D.conj().T) / 2
        E.assume(E.np.linalg.det(D).real > 0.001)
        E.eq(objective(E, make(E, name, a, 1), R * c, s0, x), E.np.linalg.slogdet(D * c)[1], 'documented objective in other units')
        return
    E.eq(objective(E, make(E, name, a, 1), R * c, s0, x) / c, expected(E, name, A, R * c, 1) / c, 'documented objective in other units')


@H(quick=grid(name=NAMES, kind=['ff2', 'nf2']) + grid(name=['CMLEstimator'], kind=['ff2x2', 'nf2x2', 'ff2deg']),
   thorough=grid(name=['WSFEstimator'], kind=['ff2x2', 'nf2x2', 'ff2deg']),
   bounds='arbitrary planar arrays of 2 (3) elements, two-dimensional far-field or near-field candidates (1, thorough also 2 sources)')
def twodim(E, name, kind):
    k = 2 if kind.endswith('x2') else 1
    m = k + 1
    a, loc = any_array(E, '2d', m)
    R = cov(E, m)
    S = E.dt.sources
    wl = 1.0
    if kind.startswith('ff2'):
        unit = 'deg' if 'deg' in kind else 'rad'
        s0 = S.FarField2DSourcePlacement([[0.1, 0.2], [0.4, 0.5]][:k], unit)
        x = E.arr([E.real('x%d' % i, lo=-1, hi=1) if i % 2 == 0 else E.real('x%d' % i, lo=0, hi=1) for i in range(2 * k)])
        cand = S.FarField2DSourcePlacement(x.reshape(k, 2), unit)
        f = E.pi / 180 if unit == 'deg' else 1
        A = E.arr([[expj(E, 2 * E.pi * (loc[i, 0] * E.np.cos(x[2 * j + 1] * f) * E.np.cos(x[2 * j] * f) + loc[i, 1] * E.np.cos(x[2 * j + 1] * f) * E.np.sin(x[2 * j] * f)))
                    for j in range(k)] for i in range(m)])
    else:
        s0 = S.NearField2DSourcePlacement(E.arr([[1.0, 2.0], [3.0, -1.0]][:k]))
        x = E.arr([E.real('x%d' % i, lo=4 + i, hi=5 + i) for i in range(2 * k)])
        A = a.steering_matrix(S.NearField2DSourcePlacement(x.reshape(k, 2)), wl, perturbations='known')
    compare(E, name, lambda: objective(E, make(E, name, a, wl), R, s0, x), A, R, k, 'documented objective at every two-dimensional candidate')


@H(quick=grid(name=NAMES), bounds='2-element array with known gain and unknown phase errors, one source')
def perturbed(E, name):
    """only the known perturbations are part of the model"""
    g = E.real('g', lo=0.5, hi=2)
    P = E.dt.perturb
    a = E.dt.arrays.UniformLinearArray(2, 0.5, perturbations=[P.GainErrors(E.arr([0.0, g - 1]), True), P.PhaseErrors(E.arr([0.1, 0.4]), False)])
    R = cov(E, 2)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1], 'sin')
    x = E.rarr('t', (1,), lo=-1, hi=1, strict=True)
    A = E.arr([[1.0], [g * expj(E, E.pi * x[0])]])
    compare(E, name, lambda: objective(E, make(E, name, a, 1.0), R, s0, x), A, R, 1, 'known perturbations only')


@H(quick=grid(name=NAMES, known=[True, False]), bounds='linear arrays of 2 elements at most half a wavelength off the line by known or unknown location errors, one source')
def off_axis(E, name, known):
    """unknown displacements off the axis of a linear array are not part of the model, known ones are"""
    loc = E.rarr('p', (2, 1), lo=-2, hi=2)
    le = E.rarr('le', (2, 2), lo=-0.5, hi=0.5)
    a = E.dt.arrays.ArrayDesign(loc, 'a', [E.dt.perturb.LocationErrors(le, known)])
    R = cov(E, 2)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1], 'sin')
    x = E.rarr('t', (1,), lo=-1, hi=1, strict=True)
    c = E.np.sqrt(1 - x[0] * x[0])
    A = E.arr([[expj(E, 2 * E.pi * ((loc[i, 0] + le[i, 0]) * x[0] + le[i, 1] * c if known else loc[i, 0] * x[0]))] for i in range(2)])
    compare(E, name, lambda: objective(E, make(E, name, a, 1.0), R, s0, x), A, R, 1, 'known location errors only')


@H(quick=grid(name=['AMLEstimator', 'CMLEstimator'], mk=[(2, 1), (3, 1)]) + grid(name=['CMLEstimator'], mk=[(3, 2)]),
   thorough=grid(name=['CMLEstimator', 'AMLEstimator'], mk=[(4, 1)]) + grid(name=['CMLEstimator'], mk=[(4, 2)]),
   bounds='exact covariances of 1-2 sources of any power (arbitrary source covariance) in noise, 2-3 (4) elements')
def at_truth(E, name, mk):
    """the objective of the exact covariance at the true directions"""
    m, k = mk
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    x = E.rarr('t', (k,), lo=-1, hi=1, strict=True)
    A = steering(E, [0.5 * i for i in range(m)], list(x), 1)
    B = E.arr([[E.real('b%d%d' % (i, j), lo=0.2, hi=2) if j <= i else 0 for j in range(k)] for i in range(k)])
    s2 = E.real('s2', lo=0.1, hi=1)
    R = A @ (B @ B.conj().T) @ A.conj().T + s2 * E.np.eye(m)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1, 0.3, 0.5][:k], 'sin')
    got = objective(E, make(E, name, a, 1.0), R, s0, x)
    if name == 'CMLEstimator':
        E.eq(got, (m - k) * s2, 'only noise is left in the residual')
    else:
        # k = 1: det = (m p + s2) s2^(m-1)
        p = B[0, 0] * B[0, 0]
        E.eq(got, E.np.log(m * p + s2) + (m - 1) * E.np.log(s2), 'log-determinant of the true covariance')


@H(quick=grid(name=NAMES), bounds='2 elements: the objective handed to the optimiser does not depend on what was evaluated or estimated before')
def histories(E, name):
    a = E.dt.arrays.UniformLinearArray(2, 0.5)
    R1 = E.arr([[2.0, 0.5 + 0.2 * E.j], [0.5 - 0.2 * E.j, 1.0]])
    R2 = E.herm('Q', 2, lo=0.2, hi=4)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1], 'sin')
    x = E.rarr('t', (1,), lo=-1, hi=1, strict=True)
    y = E.arr([E.const(0.5)])
    est = make(E, name, a, 1.0)
    objective(E, est, R1, s0, y)
    A = steering(E, [0, 0.5], [x[0]], 1)
    ref = expected(E, name, A, R2, 1)
    out = []

    def opt(fun, x0, *aa, **k):
        buf = y.copy()
        fun(buf)
        buf[:] = x
        out.append(fun(buf))
        return Res(success=True, x=buf, fun=out[0])
    E.on_minimize(opt)
    est.estimate(R2, s0)
    E.eq(out[0], ref, 'objective of the current covariance and point')


@H(quick=grid(name=['CMLEstimator', 'WSFEstimator'], seq=['fewer', 'more', 'inplace']) + grid(name=['AMLEstimator'], seq=['inplace']), bounds='3 elements: two runs of one estimator on one covariance object, with another number of sources or with other entries')
def same_object(E, name, seq):
    m = 3 if seq != 'inplace' else 2
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    R = E.herm('R', m, lo=0.2, hi=4)
    est = make(E, name, a, 1.0)
    S = E.dt.sources.FarField1DSourcePlacement
    ks = {'fewer': (2, 1), 'more': (1, 2), 'inplace': (1, 1)}[seq]
    s0 = lambda k: S([0.1, 0.3][:k], 'sin')
    objective(E, est, R, s0(ks[0]), E.arr([E.const(0.0), E.const(0.5)][:ks[0]]))
    if seq == 'inplace':
        R[:] = E.herm('Q', m, lo=0.2, hi=4)
    x = E.rarr('t', (ks[1],), lo=-1, hi=1, strict=True)
    A = steering(E, [0.5 * i for i in range(m)], list(x), 1)
    compare(E, name, lambda: objective(E, est, R, s0(ks[1]), x), A, R, ks[1], 'objective of the current data')


@H(quick=grid(mk=[(2, 1), (2, 2), (3, 1), (3, 2)], c=[1.0, 2.0 ** -24]), bounds='arrays of 2-3 elements anywhere on a line, 1-2 uncorrelated sources of any powers, any noise level, any Hermitian covariance, in units of 1 and 6e-8')
def stochastic(E, mk, c):
    """negative log-likelihood of uncorrelated complex Gaussian sources in white noise: log|S| + tr(S^-1 R)"""
    m, k = mk
    a, loc = any_array(E, '1d', m)
    R = cov(E, m) * c
    src = far1(E, k, 'sin')
    p = E.rarr('p', (k,), lo=0.1, hi=3) * c
    s2 = E.real('s2', lo=0.1, hi=2) * c
    A = steering(E, [loc[i, 0] for i in range(m)], [src.locations[j] for j in range(k)], 1.0)
    S = (A * p) @ A.conj().T + s2 * E.np.eye(m)
    E.opts(explicit_inv=4, explicit_det=4)
    E.assume(E.np.linalg.det(S).real / c ** m > 0.0005)
    E.assume(E.np.linalg.slogdet(S)[0].real > 0)
    ref = E.np.linalg.slogdet(S)[1] + E.np.trace(E.np.linalg.inv(S) @ R).real
    E.eq(E.dt.ml.f_nll_stouc(R, a, src, 1.0, p, s2), ref, 'documented likelihood', rtol=1e-6)
