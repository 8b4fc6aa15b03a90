"""C37 rejection of inconsistent inputs."""
import numpy as np

from .base import *
from .c31 import Opt
from .c32 import Solver

H = Suite()
HARNESSES = H.list
WARM = ['estimation.core', 'estimation.music', 'estimation.min_norm', 'estimation.beamforming', 'estimation.esprit', 'estimation.coarray', 'estimation.ml', 'estimation.sparse', 'estimation.grid']
ASSUMPTIONS = ['scipy.optimize.minimize and the cvxpy solver are replaced by recorders that return arbitrary results']
SPECTRAL = ['bartlett', 'mvdr', 'music', 'minnorm']
ML = ['AMLEstimator', 'CMLEstimator', 'WSFEstimator']


def finder(x):
    return tuple(np.arange(min(x.shape)) for _ in range(x.ndim))


def none(x):
    return tuple(np.zeros(0, dtype=int) for _ in range(x.ndim))


def build(E, name, a, g=None, finder=finder, cached=False):
    dt = E.dt
    if g is None:
        g = dt.grid.FarField1DSearchGrid(start=-0.5, stop=0.5, size=2, unit='sin')
    if name in SPECTRAL:
        c = {'bartlett': lambda: dt.beamforming.BartlettBeamformer, 'mvdr': lambda: dt.beamforming.MVDRBeamformer, 'music': lambda: dt.music.MUSIC, 'minnorm': lambda: dt.min_norm.MinNorm}[name]()
        e = c(a, 1.0, g, peak_finder=finder, enable_caching=cached) if cached else c(a, 1.0, g, peak_finder=finder)
        return lambda R, k=1: e.estimate(R, k)
    if name in ML:
        e = getattr(dt.ml, name)(a, 1.0)
        return lambda R, k=1: e.estimate(R, dt.sources.FarField1DSourcePlacement([0.1 * i for i in range(k)], 'sin'))
    if name == 'sparse':
        e = dt.sparse.SparseCovarianceMatching(a, 1.0, g, peak_finder=finder)
        return lambda R, k=1: e.estimate(R, k, 0.5)
    if name == 'groups':
        e = dt.sparse.GroupSparseEstimator(a, 1.0, g, 2, peak_finder=finder)
        return lambda Y, k=1: e.estimate(Y, k, 0.5)
    if name == 'rootmusic':
        return lambda R, k=1: dt.music.RootMUSIC1D(1.0).estimate(R, k)
    if name == 'esprit':
        return lambda R, k=1: dt.esprit.Esprit1D(1.0).estimate(R, k)
    if name in ('ss', 'da'):
        b = dt.ecoarray.CoarrayACMBuilder1D(a)
        return lambda R, k=1: b.transform(R, name)
    if name == 'call':
        b = dt.ecoarray.CoarrayACMBuilder1D(a)
        return lambda R, k=1: b(R)
    raise AssertionError(name)


def no_solvers(E):
    o = Opt(E, [], E.arr([0.25]))
    s = Solver(E, None, E.arr([1.0, 2.0, 3.0]))
    E.on_minimize(o)
    if E.sym or True:
        E.on_cvx_solve(s)
    return lambda: len(o.calls) + len(s.calls)


@H(quick=grid(name=SPECTRAL + ML + ['sparse', 'groups', 'ss', 'da', 'call'], m=[2, 3]), thorough=grid(name=SPECTRAL + ML + ['sparse', 'groups', 'ss', 'da', 'call'], m=[4, 5]),
   bounds='arrays of 2-3 (5) elements, every other shape of up to six rows and columns, vectors, scalars and stacks of matrices, any entries')
def shapes(E, name, m):
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    f = build(E, name, a)
    ran = no_solvers(E)
    good = (m, 2) if name == 'groups' else (m, m)
    sh = E.choice('shape', [(i, j) for i in range(0, m + 3) for j in range(0, m + 3) if (i, j) != good] + ([] if name == 'groups' else [(), (m,), (m * m,), (m, m, 1), (1, m, m), (m, m, m)]))
    R = E.rarr('R', sh, lo=-2, hi=2) if sh != () else E.arr(E.real('r'))
    E.raises(ValueError, lambda: f(R), 'shape does not fit the array')
    E.same(ran(), 0, 'nothing is solved')


@H(quick=grid(name=['rootmusic', 'esprit']), bounds='all shapes up to five rows and columns')
def square(E, name):
    f = build(E, name, None)
    sh = E.choice('shape', [(i, j) for i in range(1, 6) for j in range(1, 6) if i != j] + ([(3,), (3, 3, 1), (2, 3, 3)] if name == 'rootmusic' else []))
    E.raises(ValueError, lambda: f(E.rarr('R', sh, lo=-2, hi=2)), 'not square')


@H(quick=grid(name=['music', 'minnorm', 'rootmusic', 'esprit'], m=[2, 3, 4]), thorough=grid(name=['music', 'minnorm', 'rootmusic', 'esprit'], m=[6, 8]), bounds='2-4 (8) elements, every number of sources from the number of elements to one million, any covariance')
def too_many(E, name, m):
    f = build(E, name, E.dt.arrays.UniformLinearArray(m, 0.5))
    R = E.herm('R', m)
    k = E.int('k', m, 1000000)
    E.raises(ValueError, lambda: f(R, k), 'as many sources as elements')


@H(quick=grid(m=[2, 3, 4, 5]), bounds='every displacement below 1 and from the number of elements on; every number of sources above the size of the subarray')
def esprit_limits(E, m):
    e = E.dt.esprit.Esprit1D(1.0)
    R = E.herm('R', m)
    form = E.choice('form', ['ls', 'tls'])
    d0 = E.choice('which', [0, -1, E.int('neg', -1000, -2)])
    E.raises(ValueError, lambda: e.estimate(R, 1, displacement=d0, formulation=form), 'displacement below one')
    d1 = E.int('far', m, 1000)
    E.raises(ValueError, lambda: e.estimate(R, 1, displacement=d1, formulation=form), 'displacement beyond the array')
    d = E.choice('d', list(range(1, m)))
    k = E.int('k', m - d + 1, 1000)
    E.raises(ValueError, lambda: e.estimate(R, k, displacement=d, formulation=form), 'more sources than subarray elements')
    n = m - d
    sh = E.choice('w', [(n + 1,), (n, 1), (1, n), (n - 1,), ()])
    w = E.rarr('w', sh, lo=0.2, hi=2) if sh != () else 1.0
    E.raises(ValueError, lambda: e.estimate(R, 1, displacement=d, formulation=form, row_weights=w), 'row weights of another size')
    E.raises(ValueError, lambda: e.estimate(R, 1, displacement=d, formulation=form, row_weights=E.choice('s', ['', 'Default', 'uniform'])), 'unknown row weights')
    E.raises(ValueError, lambda: e.estimate(R, 1, displacement=d, formulation=E.choice('f', ['', 'LS', 'wls'])), 'unknown formulation')


@H(quick=grid(name=ML, m=[2, 3, 4]), bounds='2-4 elements, up to three more initial directions than resolvable')
def ml_too_many(E, name, m):
    f = build(E, name, E.dt.arrays.UniformLinearArray(m, 0.5))
    ran = no_solvers(E)
    k = E.choice('k', [m, m + 1, m + 2])
    E.raises(ValueError, lambda: f(E.herm('R', m, lo=0.2, hi=4), k), 'as many sources as elements')
    E.same(ran(), 0, 'nothing is optimised')


@H(quick=grid(name=['music', 'minnorm', 'bartlett', 'mvdr'], m=[2, 3, 4]), bounds='all consistent inputs on 2-4 elements: every number of sources up to m-1 (beamformers: any)')
def accepted(E, name, m):
    g = E.dt.grid.FarField1DSearchGrid(start=-0.8, stop=0.8, size=4, unit='sin')
    f = build(E, name, E.dt.arrays.UniformLinearArray(m, 0.5), g, none)
    k = E.choice('k', list(range(1, m if name in ('music', 'minnorm') else 4)))
    R = E.psd('R', m) if name == 'mvdr' else E.herm('R', m)
    ok, s = f(R, k)
    E.same((bool(ok), s), (False, None), 'accepted; no peaks are offered, so unresolved')


@H(quick=grid(name=['music', 'minnorm', 'bartlett', 'AMLEstimator', 'CMLEstimator', 'WSFEstimator', 'sparse', 'ss', 'da']), bounds='a rejected call (wrong shape, too many sources) followed by a valid one, compared with a fresh estimator')
def afterwards(E, name):
    m = 2
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    kw = {'cached': E.choice('cached', [True, False])} if name in SPECTRAL else {}
    f, fresh = build(E, name, a, **kw), build(E, name, a)
    no_solvers(E)
    R = E.herm('R', m, lo=0.2, hi=4)
    what = E.choice('what', ['shape', 'count'])
    if what == 'shape' or name in ('bartlett', 'sparse', 'ss', 'da'):
        E.raises(ValueError, lambda: f(E.herm('Q', 3)), 'rejected')
    else:
        E.raises(ValueError, lambda: f(R, 2), 'rejected')
    r1, r2 = f(R), fresh(R)
    if name in ('ss', 'da'):
        E.eq(r1, r2, 'as a fresh object')
    else:
        E.same(bool(r1[0]), bool(r2[0]), 'as a fresh object')
        E.eq(r1[1].locations, r2[1].locations, 'as a fresh object')
    # a successful call does not lift the checks
    E.raises(ValueError, lambda: f(E.herm('Q2', 3)), 'still rejected')
    if name in ('music', 'minnorm', 'AMLEstimator', 'CMLEstimator', 'WSFEstimator'):
        E.raises(ValueError, lambda: f(R, E.choice('more', [2, 3])), 'still rejected')


@H(quick=[{}], bounds='arrays that are not one-dimensional grids; unknown transforms')
def coarray_kinds(E):
    A = E.dt.arrays
    B = E.dt.ecoarray.CoarrayACMBuilder1D
    n = E.choice('n', [1, 2, 3])
    loc = E.rarr('loc', (3, n), lo=-2, hi=2)
    E.raises(ValueError, lambda: B(A.ArrayDesign(loc, 'arb')), 'no grid')
    E.raises(ValueError, lambda: B(A.UniformRectangularArray(n, 2, 0.5)), 'rectangular')
    E.raises(ValueError, lambda: B(A.UniformCircularArray(3, 1.0)), 'circular')
    E.raises(ValueError, lambda: B(A.UniformRectangularArray(2, n, 0.5)), 'rectangular')
    b = B(A.UniformLinearArray(3, 0.5))
    E.raises(ValueError, lambda: b.transform(E.herm('R', 3), E.choice('how', ['', 'SS', 'sd', None])), 'unknown transform')


@H(quick=[{}], bounds='grid refinement and missing noise level of the sparse estimators')
def sparse_options(E):
    a = E.dt.arrays.UniformLinearArray(2, 0.5)
    g = E.dt.grid.FarField1DSearchGrid(start=-0.5, stop=0.5, size=2, unit='sin')
    ran = no_solvers(E)
    R = E.herm('R', 2)
    e = E.dt.sparse.SparseCovarianceMatching(a, 1.0, g, peak_finder=finder)
    E.raises(ValueError, lambda: e.estimate(R, 1, 0.5, refine_estimates=True), 'refinement')
    E.raises(ValueError, lambda: E.dt.sparse.GroupSparseEstimator(a, 1.0, g, 1, peak_finder=finder).estimate(E.carr('Y', (2, 1)), 1, 0.5, refine_estimates=True), 'refinement')
    E.raises(ValueError, lambda: E.dt.sparse.SparseCovarianceMatching(a, 1.0, g, noise_known=True, peak_finder=finder).estimate(R, 1, 0.5), 'noise level missing')
    E.same(ran(), 0, 'nothing is solved')
