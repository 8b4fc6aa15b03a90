"""C17 snapshots."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources', 'model.signals', 'model.snapshots', 'model.perturbations']
ASSUMPTIONS = ['numpy random draws are arbitrary real numbers; their distribution is not modelled']


class Fixed:
    """signal generator that emits arbitrary (symbolic) samples"""
    def __init__(self, E, name, dim):
        self.E, self.name, self.dim_, self.calls = E, name, dim, []
        self.out = None

    @property
    def dim(self):
        return self.dim_

    def emit(self, n):
        self.calls.append(n)
        self.out = self.E.carr('%s%d' % (self.name, len(self.calls)), (self.dim_, n))
        return self.out.copy()


def setup(E, pert, n, k, kind='rad'):
    arr, loc = any_array(E, '1d', n)
    P = E.dt.perturb
    if 'l' in pert:
        arr = arr.get_perturbed_copy([P.LocationErrors(E.rarr('le', (n, 2), lo=-1, hi=1), False)])
    if 'g' in pert:
        arr = arr.get_perturbed_copy([P.GainErrors(E.rarr('ge', (n,), lo=-0.9, hi=0.9), 'k' in pert)])
    if 'm' in pert:
        arr = arr.get_perturbed_copy([P.MutualCoupling(E.carr('mc', (n, n)), False)])
    wl = E.real('wl', pos=True)
    S = E.dt.sources
    src = far1(E, k, 'rad') if kind == 'rad' else S.NearField2DSourcePlacement(E.rarr('x', (k, 2), lo=-9, hi=9)) if kind == 'nf' else S.FarField2DSourcePlacement(E.rarr('x', (k, 2), lo=-1, hi=1))
    return arr, src, wl


@H(quick=grid(pert=['', 'l', 'gk', 'gm'], noise=[False, True], T=[1, 2]) + grid(pert=['m'], noise=[True], T=[2], kind=['nf', 'ff2']) + [dict(pert='l', noise=True, T=40), dict(pert='gk', noise=True, T=2, n=7, k=5), dict(pert='lg', noise=False, T=2, n=7, k=2)],
   thorough=grid(pert=['', 'l', 'g', 'gk', 'm', 'lgm'], noise=[False, True], T=[1, 2, 3], kind=['rad', 'nf', 'ff2']),
   bounds='2 elements anywhere with the listed perturbations, 2 sources, 1-2 (thorough 1-3) snapshots, any complex source and noise samples; also 40 snapshots, or 7 elements and 5 sources')
def model(E, pert, noise, T, kind='rad', n=2, k=2):
    arr, src, wl = setup(E, pert, n, k, kind)
    f = E.dt.snapshots.get_narrowband_snapshots
    s, w = Fixed(E, 's', k), Fixed(E, 'w', n) if noise else None
    A = arr.steering_matrix(src, wl, perturbations='all')
    Y, R = f(arr, src, wl, s, w, T, True)
    S1 = s.out
    ref = [[sum(A[m, i] * S1[i, t] for i in range(k)) + (w.out[m, t] if noise else 0) for t in range(T)] for m in range(n)]
    E.same(tuple(Y.shape), (n, T), 'one column per snapshot')
    E.eq(Y, E.arr(ref), 'steering matrix times signals plus noise')
    E.same((s.calls, w.calls if noise else None), ([T], [T] if noise else None), 'generators are asked for exactly the requested snapshots, once')
    Rr = [[sum(ref[a][t] * ref[b][t].conjugate() for t in range(T)) / T for b in range(n)] for a in range(n)]
    E.eq(R, E.arr(Rr), 'sample covariance = Y Y^H / N')
    E.eq(R, R.conj().T, 'Hermitian')
    Y2 = f(arr, src, wl, s, w, T)
    E.same(hasattr(Y2, 'shape'), True, 'only the snapshots without return_covariance')
    S2 = s.out
    E.eq(Y2, E.arr([[sum(A[m, i] * S2[i, t] for i in range(k)) + (w.out[m, t] if noise else 0) for t in range(T)] for m in range(n)]), 'fresh samples on every call')


@H(quick=[{}], bounds='2 elements, 1 source, 2 snapshots, any test vector')
def psd(E):
    arr, src, wl = setup(E, '', 2, 1)
    s, w = Fixed(E, 's', 1), Fixed(E, 'w', 2)
    Y, R = E.dt.snapshots.get_narrowband_snapshots(arr, src, wl, s, w, 2, True)
    z = E.carr('z', (2,))
    q = sum(z[a].conjugate() * R[a, b] * z[b] for a in range(2) for b in range(2))
    u = [sum(z[a].conjugate() * Y[a, t] for a in range(2)) for t in range(2)]
    E.eq(q, (u[0] * u[0].conjugate() + u[1] * u[1].conjugate()) / 2, 'quadratic form is a mean of squared magnitudes: positive semidefinite')


@H(quick=[{}], bounds='defaults: no noise, 1 snapshot')
def defaults(E):
    arr, src, wl = setup(E, '', 2, 2)
    s = Fixed(E, 's', 2)
    Y = E.dt.snapshots.get_narrowband_snapshots(arr, src, wl, s)
    E.same((s.calls, tuple(Y.shape)), ([1], (2, 1)), 'one snapshot')
    E.eq(Y, arr.steering_matrix(src, wl) @ s.out, 'no noise')


@H(quick=grid(gen=['stoch', 'phase']), bounds='library generators, 2 elements, 2 sources, 2 snapshots')
def library_generators(E, gen):
    arr, src, wl = setup(E, 'g', 2, 2)
    G = E.dt.signals
    p, sg = E.rarr('p', (2,), pos=True), E.real('sg', pos=True)
    s = G.ComplexStochasticSignal(2, p) if gen == 'stoch' else G.RandomPhaseSignal(2, p)
    w = G.ComplexStochasticSignal(2, sg)
    outs = []
    for g in (s, w):
        e0 = g.emit
        g.emit = (lambda n, e0=e0: (outs.append(e0(n)), outs[-1].copy())[1])
    Y, R = E.dt.snapshots.get_narrowband_snapshots(arr, src, wl, s, w, 2, True)
    E.eq(Y, arr.steering_matrix(src, wl) @ outs[0] + outs[1], 'steering matrix times signals plus noise')
    E.eq(R, Y @ Y.conj().T / 2, 'sample covariance')
    E.same([tuple(o.shape) for o in outs], [(2, 2), (2, 2)], 'sizes')


@H(quick=[{}], bounds='vector elements with 2 outputs, 2 elements, 1 source, 2 snapshots')
def vector_elements(E):
    arr, loc = any_array(E, '1d', 2)
    c = E.carr('c', (2,))
    el = E.dt.elements.CustomNonisotropicSensor(lambda r, az, e, q: E.np.stack([c[0] * E.np.cos(az), c[1] * E.np.sin(az)]), output_size=2)
    a = E.dt.arrays.ArrayDesign(loc, 'a', element=el)
    src, wl = far1(E, 1, 'rad'), E.real('wl', pos=True)
    s, w = Fixed(E, 's', 1), Fixed(E, 'w', 4)
    Y, R = E.dt.snapshots.get_narrowband_snapshots(a, src, wl, s, w, 2, True)
    E.eq(Y, a.steering_matrix(src, wl) @ s.out + w.out, 'stacked outputs')
    E.same(tuple(R.shape), (4, 4), 'covariance of the stacked outputs')


class Recorded:
    """signal generator that replays one stored recording, without copying it"""
    def __init__(self, X):
        self.X, self.dim = X, X.shape[0]

    def emit(self, n):
        return self.X[:, :n]


@H(quick=grid(sig=['complex', 'real', 'int'], noise=['complex', 'real'], T=[2]) + [dict(sig='complex', noise=None, T=1)],
   thorough=grid(sig=['complex', 'real', 'int'], noise=['complex', 'real', None], T=[1, 2, 3]),
   bounds='generators that hand out stored complex, real or integer recordings, used twice; 2 elements, 2 sources, 1-2 (thorough 1-3) snapshots')
def recordings(E, sig, noise, T):
    """a recording that a generator hands out is read, not changed: the second scene has the same measurements"""
    arr, src, wl = setup(E, 'g', 2, 2)
    f = E.dt.snapshots.get_narrowband_snapshots
    rec = lambda kind, name, m: E.carr(name, (m, T + 1)) if kind == 'complex' else E.rarr(name, (m, T + 1), lo=-9, hi=9) if kind == 'real' else E.np.array([[1, -2, 3, 4], [-1, 5, 1, -3]])[:m, :T + 1]
    Xs = rec(sig, 's', 2)
    Xw = rec(noise, 'w', 2) if noise else None
    s0, w0 = Xs.copy(), Xw.copy() if noise else None
    A = arr.steering_matrix(src, wl)
    s, w = Recorded(Xs), Recorded(Xw) if noise else None
    ref = E.arr([[sum(A[m, i] * s0[i, t] for i in range(2)) + (w0[m, t] if noise else 0) for t in range(T)] for m in range(2)])
    for turn in ('first', 'second'):
        Y, R = f(arr, src, wl, s, w, T, True)
        E.eq(Y, ref, turn + ' use: steering matrix times signals plus noise')
        E.eq(R, ref @ ref.conj().T / T, turn + ' use: sample covariance')
        Y *= 0
    E.eq(Xs, s0, 'signals unchanged')
    if noise:
        E.eq(Xw, w0, 'noise unchanged')
    E.eq(arr.steering_matrix(src, wl), A, 'array and sources unchanged')
