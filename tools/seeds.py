A, S, E_, P, U = 'doatools/model/arrays.py', 'doatools/model/sources.py', 'doatools/estimation/', 'doatools/performance/', 'doatools/utils/'

seed('C01-uca-pair', 'C01', A, ("theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)", "theta = np.arange(n) * (2.0 * np.pi / max(n, 3))"),
     'a circular array of exactly two elements', 'the two elements are not opposite each other', '''
from doatools.model.arrays import UniformCircularArray
for n in [1, 2, 3, 4, 7]:
    x = UniformCircularArray(n, 2.0).element_locations
    z = x[:, 0] + 1j * x[:, 1]
    close(z, 2.0 * np.exp(2j * np.pi * np.arange(n) / n), 'positions of %d elements' % n)
''')

seed('C02-mrla17', 'C02', A, ("[0, 1, 8, 18, 28, 38, 48, 58, 68, 78, 80, 82, 84, 87, 89, 91, 93]", "[0, 1, 8, 18, 28, 38, 48, 58, 68, 77, 80, 82, 84, 87, 89, 91, 93]"),
     'the 17-element minimum redundancy array', 'its difference coarray has holes', '''
from doatools.model.arrays import MinimumRedundancyLinearArray
for n in range(1, 21):
    x = MinimumRedundancyLinearArray(n, 1.0).element_indices.flatten()
    d = set((x[:, None] - x[None, :]).flatten())
    check(all(i in d for i in range(max(x) + 1)), 'coarray of %d elements' % n)
''')

seed('C01-coprime-order', 'C01', A, ("        if m > n:\n            warnings.warn('m > n. Swapped.')", "        if m > n and mode == '2m':\n            warnings.warn('m > n. Swapped.')"),
     "a co-prime pair given in descending order together with mode 'm' (or an upper-case mode)", 'the extended coarray property (contiguous lags) is lost or the reported pair is not ordered', '''
from doatools.model.arrays import CoPrimeArray
for m, n in [(2, 3), (3, 4), (3, 5)]:
    for mode in ['m', '2m', '2M', 'M']:
        a, b = CoPrimeArray(m, n, 1.0, mode), CoPrimeArray(n, m, 1.0, mode)
        check(tuple(b.coprime_pair) == (m, n), 'pair is ordered')
        check(sorted(a.element_indices.flatten()) == sorted(b.element_indices.flatten()), 'the order of the pair does not matter')
''')

seed('C03-indices-alias', 'C03', 'doatools/model/coarray.py', ("            return self._index_map[diff][:]", "            return self._index_map[diff]"),
     'a caller that modifies the returned list of indices', 'later weights, selection matrices and augmented covariances are wrong', '''
from doatools.model.arrays import NestedArray
from doatools.model.coarray import WeightFunction1D
w = WeightFunction1D(NestedArray(2, 2, 0.5))
n = w(0)
w.indices_of(0).clear()
check(n == 4 and w(0) == 4, 'weight of zero')
''')

seed('C04-central-size-cache', 'C04', 'doatools/model/coarray.py', ("        return self._mv if exclude_negative_part else self._mv * 2 - 1 ", "        if exclude_negative_part:\n            return self._mv\n        mv, self._mv = self._mv, max(self._mv - len(self) // (4 * self._mv), 1)\n        return mv * 2 - 1"),
     'an array with many lags outside the central part and two queries of the size', 'the size of the central ULA depends on earlier queries', '''
from doatools.model.arrays import GridBasedArrayDesign
from doatools.model.coarray import WeightFunction1D
for x in [[0, 1, 2, 4], [0, 1, 10, 100, 1000], [0, 1, 2, 9, 30, 77]]:
    w = WeightFunction1D(GridBasedArrayDesign(np.array(x)[:, None], 0.5, 'x'))
    D = {a - b for a in x for b in x}
    mv = 0
    while mv in D:
        mv += 1
    for i in range(3):
        check(w.get_central_ula_size() == 2 * mv - 1, 'size')
        check(w.get_coarray_selection_matrix().shape[0] == 2 * mv - 1, 'rows')
        check(w.get_central_ula_size(True) == mv, 'size without the negative part')
''')

seed('C07-sin-derivative', 'C07', S, ("np.outer(sensor_locations[:, 1], sin_vals / cos_vals))", "np.outer(sensor_locations[:, 1], sin_vals))"),
     "a planar array with far-field 1D sources in the unit 'sin'", 'the derivative matrix (and every bound computed from it) is wrong off broadside', '''
from doatools.model.arrays import ArrayDesign
from doatools.model.sources import FarField1DSourcePlacement
a = ArrayDesign(np.array([[0.0, 0.3], [0.7, -0.2], [1.1, 0.9]]), 'x')
for s in [0.0, 0.3, -0.6]:
    f = lambda t: a.steering_matrix(FarField1DSourcePlacement([t], 'sin'), 1.0)
    D = a.steering_matrix(FarField1DSourcePlacement([s], 'sin'), 1.0, True)[1]
    close(D, (f(s + 1e-6) - f(s - 1e-6)) / 2e-6, 'derivative at %g' % s, 1e-5)
''')

seed('C10-nearfield-alias', 'C10', S, ("return NearField2DSourcePlacement(self._locations.copy())", "return NearField2DSourcePlacement(self._locations)"),
     'a converted near-field placement whose locations are then written', 'the original placement changes with its conversion', '''
from doatools.model.sources import NearField2DSourcePlacement
a = NearField2DSourcePlacement(np.array([[1.0, 2.0]]))
b = a.as_unit('m')
b.locations[0, 0] = 9.0
close(a.locations, [[1.0, 2.0]], 'original')
''')

seed('C12-elevation-range', 'C12', S, ("if np.any(locations[:, 1] < min_el) or np.any(locations[:, 1] > max_el):", "if np.any(locations[:, 1] < min_el) or np.any(locations[:, 1] > max_az):"),
     'an elevation above the zenith', 'an invalid elevation is accepted', '''
from doatools.model.sources import FarField2DSourcePlacement
FarField2DSourcePlacement([[10.0, 90.0], [-180.0, -90.0]], 'deg')
rejected(lambda: FarField2DSourcePlacement([[10.0, 20.0], [10.0, 95.0]], 'deg'), '95 degrees', ValueError)
rejected(lambda: FarField2DSourcePlacement([[1.0, 1.6]], 'rad'), '1.6 rad', ValueError)
''')

seed('C14-gain-derivative', 'C14', 'doatools/model/perturbations.py', ("        return g * A, [g * X for X in DA]", "        return g * A, [np.abs(g) * X for X in DA]"),
     'a gain error below -1 (an inverted channel) and derivatives', 'the derivative of the inverted channel has the wrong sign', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
a = UniformLinearArray(3, 0.5, perturbations={'gain_errors': (np.array([0.1, -1.5, -0.2]), True)})
f = lambda t: a.steering_matrix(FarField1DSourcePlacement([t]), 1.0)
D = a.steering_matrix(FarField1DSourcePlacement([0.3]), 1.0, True)[1]
close(D, (f(0.3 + 1e-6) - f(0.3 - 1e-6)) / 2e-6, 'derivative', 1e-5)
''')

seed('C14-known-locations', 'C14', A, ("        actual_locations = self._locations\n        for p in perturb_list:", "        actual_locations = self._locations\n        for p in perturb_list if perturbations != 'known' else self._perturbations.values():"),
     "unknown location errors and perturbations='known' (what the estimators use)", 'estimators see location errors they cannot know', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
e = np.array([[0.0], [0.1], [-0.1]])
s = FarField1DSourcePlacement([0.3, -0.5])
n = UniformLinearArray(3, 0.5).steering_matrix(s, 1.0)
a = UniformLinearArray(3, 0.5, perturbations={'location_errors': (e, False)})
close(a.steering_matrix(s, 1.0, perturbations='known'), n, 'unknown errors are not used')
b = UniformLinearArray(3, 0.5, perturbations={'location_errors': (e, True)})
close(b.steering_matrix(s, 1.0, perturbations='known'), a.steering_matrix(s, 1.0), 'known errors are used')
''')

seed('C16-response-locations', 'C16', A, ("                r, az, el = sources.calc_spherical_coords(actual_locations)", "                r, az, el = sources.calc_spherical_coords(self._locations)"),
     'near-field sources, direction-dependent elements and location errors', 'the element response is evaluated for the nominal positions', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import NearField2DSourcePlacement
from doatools.model.array_elements import CustomNonisotropicSensor
el = CustomNonisotropicSensor(lambda r, az, el, p: r + np.sin(az))
e = np.array([[0.0], [0.4], [-0.3]])
s = NearField2DSourcePlacement(np.array([[0.5, 1.0]]))
a = UniformLinearArray(3, 0.5, perturbations={'location_errors': (e, True)}, element=el)
x = np.array([0.0, 0.9, 0.7])
r = np.hypot(0.5 - x, 1.0)
want = (r + 1.0 / r) * np.exp(-2j * np.pi * (r - r[0]))
close(a.steering_matrix(s, 1.0)[:, 0], want, 'steering vector')
''')

seed('C17-covariance', 'C17', 'doatools/model/snapshots.py', ("R = (Y @ Y.conj().T) / n_snapshots", "R = (Y @ Y.conj().T) / max(n_snapshots - 1, 1)"),
     'more than one snapshot', 'the sample covariance is not the average over the snapshots', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.model.signals import ComplexStochasticSignal
from doatools.model.snapshots import get_narrowband_snapshots as g
a, s = UniformLinearArray(3, 0.5), FarField1DSourcePlacement([0.3])
for n in [1, 2, 5]:
    Y, R = g(a, s, 1.0, ComplexStochasticSignal(1), ComplexStochasticSignal(3, 0.1), n, True)
    check(Y.shape == (3, n), 'shape')
    close(R, Y @ Y.conj().T / n, 'sample covariance of %d snapshots' % n)
''')

seed('C18-correlated', 'C18', 'doatools/model/signals.py', ("            self._C2 = sqrtm(C)", "            self._C2 = np.linalg.cholesky(C).conj().T"),
     'a covariance matrix that is not diagonal', 'the emitted signals do not have the requested covariance', '''
from doatools.model.signals import ComplexStochasticSignal
C = np.array([[4.0, 1.5 - 1j], [1.5 + 1j, 1.0]])
x = ComplexStochasticSignal(2, C).emit(200000)
close(x @ x.conj().T / 200000, C, 'sample covariance', 0.05)
''')

seed('C19-khatri-rao-type', 'C19', U + 'math.py', ("c = np.zeros((n1 * n2, k1), dtype=np.result_type(a.dtype, b.dtype))", "c = np.zeros((n1 * n2, k1), dtype=a.dtype)"),
     'a real first and a complex (or an integer first and a fractional) second matrix', 'imaginary or fractional parts are dropped', '''
from doatools.utils.math import khatri_rao
a, b = np.array([[1, 2], [3, 4]]), np.array([[0.5, 1 + 2j], [2j, -1]])
for x, y in [(a, b), (b, a), (a, b.real), (a, a)]:
    close(khatri_rao(x, y), np.array([np.kron(x[:, i], y[:, i]) for i in range(2)]).T, 'columns')
''')

seed('C20-zero-start', 'C20', E_ + 'grid.py', ("                start = default_ranges[unit][0]\n            if stop is None:\n                stop = default_ranges[unit][1]\n            if np.isscalar(start):", "                start = default_ranges[unit][0]\n            if not stop:\n                stop = default_ranges[unit][1]\n            if np.isscalar(start):"),
     'a 1-D grid that stops at zero', 'the grid covers the default range instead', '''
from doatools.estimation.grid import FarField1DSearchGrid
close(FarField1DSearchGrid(-0.5, 0.0, 5).axes[0], [-0.5, -0.4, -0.3, -0.2, -0.1], 'axis')
close(FarField1DSearchGrid(-0.5, 0.5, 5).axes[0], [-0.5, -0.3, -0.1, 0.1, 0.3], 'axis')
''')

seed('C21-upper-bound', 'C21', E_ + 'grid.py', ("            i_ub = min(self._shape[j] - 1, coord[j] + span)", "            i_ub = min(self._shape[0] - 1, coord[j] + span)"),
     'a 2-D grid with fewer azimuths than elevations and a peak beyond', 'the refined elevation axis does not contain the neighbourhood', '''
from doatools.estimation.grid import FarField2DSearchGrid
g = FarField2DSearchGrid((0.0, 0.0), (0.3, 0.6), (3, 6))
r = g.create_refined_grid_at((1, 4), density=2, span=1)
close(r.axes[1], np.linspace(0.3, 0.5, 5), 'elevations')
close(r.axes[0], np.linspace(0.0, 0.2, 5), 'azimuths')
''')

seed('C22-wrap', 'C22', E_ + 'core.py', ("        y = maximum_filter(x, 3)", "        y = maximum_filter(x, 3, mode='wrap')"),
     'a 2-D spectrum with a maximum on one border and higher values on the opposite border', 'a peak on the border is lost', '''
from doatools.estimation.core import find_peaks_simple
x = np.zeros((5, 6))
x[0, 2], x[4, 3] = 5.0, 7.0
x = x + 0.01 * np.random.rand(5, 6)
got = set(zip(*[list(i) for i in find_peaks_simple(x)]))
check((0, 2) in got and (4, 3) in got, 'both peaks')
''')

seed('C22-unsorted', 'C22', E_ + 'core.py', ("            flattened_indices.sort()\n", "            flattened_indices = flattened_indices[::-1] if k == 2 and not refine_estimates else np.sort(flattened_indices)\n"),
     'two sources whose weaker peak comes first', 'the estimates are not in grid order', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation import BartlettBeamformer, FarField1DSearchGrid
a = UniformLinearArray(12, 0.5)
for p in [[1.0, 4.0], [4.0, 1.0]]:
    A = a.steering_matrix(FarField1DSourcePlacement([-0.5, 0.6]), 1.0)
    R = (A * np.array(p)) @ A.conj().T + 0.1 * np.eye(12)
    ok, e = BartlettBeamformer(a, 1.0, FarField1DSearchGrid(size=360)).estimate(R, 2)
    check(ok and np.all(np.diff(e.locations) > 0), 'estimates in grid order for powers %s' % p)
''')

seed('C23-cached-refined', 'C23', E_ + 'core.py', ("            return self._compute_atom_matrix(alt_grid)\n", "            A = self._compute_atom_matrix(alt_grid)\n            if self._enable_caching and alt_grid.size == self._search_grid.size:\n                self._atom_matrix = A\n            return A\n"),
     'a refined grid with as many points as the search grid, and reuse of the estimator', 'the second estimation evaluates the spectrum on the refined grid of the first', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation import MUSIC, FarField1DSearchGrid
a = UniformLinearArray(8, 0.5)
def cov(t):
    A = a.steering_matrix(FarField1DSourcePlacement(t), 1.0)
    return A @ A.conj().T + 0.01 * np.eye(8)
def est(m, t):
    ok, e = m.estimate(cov(t), 1, refine_estimates=True, refinement_density=20)
    return e.locations if ok else None
g = lambda: FarField1DSearchGrid(-0.82, 0.82, 41)
m = MUSIC(a, 1.0, g())
est(m, [0.31])
close(est(m, [-0.42]), est(MUSIC(a, 1.0, g()), [-0.42]), 'reuse')
''')

seed('C24-music-known', 'C24', E_ + 'core.py', ("            grid.source_placement, self._wavelength,\n            perturbations='known'", "            grid.source_placement, self._wavelength,\n            perturbations='all'"),
     'an array with perturbations that are not known', 'the spectrum is computed with perturbations the estimator cannot know', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation import MUSIC, FarField1DSearchGrid
a = UniformLinearArray(6, 0.5, perturbations={'phase_errors': (np.linspace(-1, 1, 6), False)})
n = UniformLinearArray(6, 0.5)
A = n.steering_matrix(FarField1DSourcePlacement([0.3]), 1.0)
R = A @ A.conj().T + 0.1 * np.eye(6)
g = FarField1DSearchGrid(size=100)
x = MUSIC(a, 1.0, g).estimate(R, 1, return_spectrum=True)[-1]
y = MUSIC(n, 1.0, g).estimate(R, 1, return_spectrum=True)[-1]
close(x / y.max(), y / y.max(), 'spectrum')
''')

seed('C24-min-norm-last', 'C24', E_ + 'min_norm.py', ("        c = En[0, :]", "        c = En[-1, :]"),
     'a covariance matrix that is not Toeplitz', 'the spectrum belongs to the vector whose last element is one', '''
from doatools.model.arrays import ArrayDesign
from doatools.estimation import MinNorm, FarField1DSearchGrid
a = ArrayDesign(np.array([0.0, 0.4, 1.1, 1.7, 2.6]), 'x')
X = np.random.randn(5, 9) + 1j * np.random.randn(5, 9)
R = X @ X.conj().T
g = FarField1DSearchGrid(size=50)
sp = MinNorm(a, 1.0, g).estimate(R, 2, return_spectrum=True)[-1]
En = np.linalg.eigh(R)[1][:, :-2]
PN = En @ En.conj().T
d = PN[:, 0] / PN[0, 0].real
A = a.steering_matrix(g.source_placement, 1.0)
ref = 1 / np.abs(d.conj() @ A)**2
close(sp / ref, np.ones(50), 'min-norm spectrum', 1e-6)
''')

seed('C25-default-spacing', 'C25', E_ + 'music.py', ("            d0 = self._wavelength / 2.0", "            d0 = 0.5"),
     'a wavelength other than one and the default spacing', 'the estimated directions are scaled', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation import RootMUSIC1D
for w in [1.0, 0.25]:
    a = UniformLinearArray(6, w / 2)
    A = a.steering_matrix(FarField1DSourcePlacement([-0.4, 0.3]), w)
    ok, e = RootMUSIC1D(w).estimate(A @ A.conj().T + 0.1 * np.eye(6), 2)
    close(e.locations, [-0.4, 0.3], 'estimates for wavelength %g' % w, 1e-5)
''')

seed('C25-sin-order', 'C25', S, ("            sin_vals.sort()\n", ""),
     "estimates of several sources in the unit 'sin'", 'the estimates are not in ascending order', '''
from doatools.model.sources import FarField1DSourcePlacement
z = np.exp(1j * np.pi * np.array([0.5, -0.2, 0.1]))
for u in ['sin', 'rad', 'deg']:
    x = FarField1DSourcePlacement.from_z(z, 1.0, 0.5, u).locations
    check(np.all(np.diff(x) > 0), 'ascending ' + u)
''')

seed('C27-smoothing-scale', 'C27', E_ + 'coarray.py', ("            Ra /= mv", "            Ra /= mc"),
     'the spatial smoothing method', 'the augmented covariance is scaled, so that thresholds and noise estimates are wrong', '''
from doatools.model.arrays import NestedArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation.coarray import CoarrayACMBuilder1D
a = NestedArray(2, 3, 0.5)
s = FarField1DSourcePlacement([-0.4, 0.3, 0.8])
A = a.steering_matrix(s, 1.0)
b = CoarrayACMBuilder1D(a)
V = b.get_virtual_ula().steering_matrix(s, 1.0)
D = V @ V.conj().T + 0.2 * np.eye(b.output_size)
R = A @ A.conj().T + 0.2 * np.eye(5)
close(b(R, 'da'), D, 'direct augmentation')
close(b(R, 'ss'), D @ D.conj().T / b.output_size, 'spatial smoothing')
''')

seed('C29-mdl-penalty', 'C29', E_ + 'source_number.py', ("0.5 * (i * (2 * n_sensors - i) + 1) * log(n_snapshots)", "0.5 * (i * (2 * n_sensors - i - 1) + 1) * log(n_snapshots)"),
     'eigenvalues at the edge between two numbers of sources', 'the penalty counts too few free parameters', '''
from doatools.estimation.source_number import mdl
def ref(l, N):
    m = len(l)
    l = np.sort(l)
    v = []
    for k in range(m):
        x = l[:m - k]
        v.append(N * (m - k) * np.log(x.mean() / np.prod(x) ** (1.0 / (m - k))) + 0.5 * (k * (2 * m - k) + 1) * np.log(N))
    return int(np.argmin(v))
for i in range(3000):
    l = np.sort(1 + 3 * np.random.rand(4) ** 3)
    N = int(np.random.randint(5, 60))
    check(mdl(l, N) == ref(l, N), 'MDL of %s with %d snapshots' % (l, N))
''')

seed('C30-wsf-noise', 'C30', E_ + 'ml.py', ("sigma_est = np.sum(v[:-k]) / (self._array.size - k)", "sigma_est = np.median(v[:-k])"),
     'noise eigenvalues whose median differs from their mean', 'the weights of weighted subspace fitting are not the documented ones', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation.ml import WSFEstimator
a = UniformLinearArray(5, 0.5)
X = np.random.randn(5, 7) + 1j * np.random.randn(5, 7)
R = X @ X.conj().T
v, E = np.linalg.eigh(R)
s2 = v[:-1].mean()
M = (v[-1] - s2)**2 / v[-1] * np.outer(E[:, -1], E[:, -1].conj())
seen = []
import doatools.estimation.ml as ml
def fake(f, x0, **k):
    seen.append(f)
    class R_: success, x = True, x0
    R_.x = x0
    return R_
ml.minimize = fake
WSFEstimator(a, 1.0).estimate(R, FarField1DSourcePlacement([0.2]))
A = a.steering_matrix(FarField1DSourcePlacement([0.2]), 1.0)
PP = np.eye(5) - A @ A.conj().T / 5
close(seen[0](np.array([0.2])), np.trace(PP @ M).real, 'objective')
''')

seed('C31-bounds-order', 'C31', E_ + 'ml.py', ("        bounds = list(sources0.valid_ranges) * k", "        bounds = [b for b in sources0.valid_ranges for _ in range(k)]"),
     'several 2-D sources', 'azimuths and elevations get each other\'s bounds', '''
from doatools.model.arrays import UniformRectangularArray
from doatools.model.sources import FarField2DSourcePlacement
import doatools.estimation.ml as ml
seen = []
def fake(f, x0, bounds=None, **k):
    seen.append((x0, bounds))
    class R_: success = True
    R_.x = x0
    return R_
ml.minimize = fake
a = UniformRectangularArray(3, 3, 0.5)
s = FarField2DSourcePlacement(np.array([[2.0, 0.1], [-2.5, 0.3]]))
ml.CMLEstimator(a, 1.0).estimate(np.eye(9), s)
x0, b = seen[0]
for x, (lo, hi) in zip(x0, b):
    check(lo <= x <= hi, 'the initial guess is within the bounds')
''')

seed('C31-estimates-alias', 'C31', E_ + 'ml.py', ("        return self._estimates[:]\n", "        return self._estimates\n"),
     'writing to returned estimates, or keeping them while the estimator is used again', 'the stored estimates change', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation.ml import CMLEstimator
a = UniformLinearArray(5, 0.5)
A = a.steering_matrix(FarField1DSourcePlacement([0.2]), 1.0)
e = CMLEstimator(a, 1.0)
ok, x = e.estimate(A @ A.conj().T + 0.1 * np.eye(5), FarField1DSourcePlacement([0.19]))
check(ok, 'converged')
y = e.get_last_estimates()
y.locations[:] = 1.0
close(e.get_last_estimates().locations, x.locations, 'estimates', 1e-12)
check(abs(x.locations[0] - 0.2) < 1e-3, 'estimate')
''')

seed('C32-in-place-noise', 'C32', E_ + 'sparse.py', ("            R = R - np.eye(self._array.size) * sigma", "            R -= np.eye(self._array.size) * sigma"),
     'a known noise variance and a covariance matrix that is used again', 'the covariance matrix of the caller is modified', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation import FarField1DSearchGrid
try:
    from doatools.estimation.sparse import SparseCovarianceMatching
    import cvxpy
except ImportError:
    cvxpy = None
if cvxpy is None:
    import types, doatools.estimation.sparse as sp
    class Fake:
        def __init__(self, m, k, *a, **kw): self.k = k
        def solve(self, *a, **k): return np.arange(self.k)[::-1].reshape((-1, 1)) * 1.0
    sp.L1RegularizedLeastSquaresProblem = Fake
    SparseCovarianceMatching = sp.SparseCovarianceMatching
a = UniformLinearArray(4, 0.5)
A = a.steering_matrix(FarField1DSourcePlacement([0.2]), 1.0)
R = A @ A.conj().T + 0.1 * np.eye(4)
K = R.copy()
SparseCovarianceMatching(a, 1.0, FarField1DSearchGrid(size=10), noise_known=True).estimate(R, 1, 0.1, sigma=0.1)
close(R, K, 'covariance matrix')
''')

seed('C35-too-many', 'C35', P + 'mse.py', ("    if k >= m_v:", "    if k > m_v:"),
     'exactly as many sources as virtual elements', 'an unresolvable configuration is not rejected', '''
from doatools.model.arrays import NestedArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.performance.mse import ecov_coarray_music_1d
a = NestedArray(1, 2, 0.5)
f = lambda t: ecov_coarray_music_1d(a, FarField1DSourcePlacement(t), 1.0, 1.0, 0.1, 10)
f([0.1, 0.5])
f([-0.5, 0.1, 0.5])
rejected(lambda: f([-0.5, 0.1, 0.5, 0.9]), 'four sources', ValueError)
''')

seed('C36-mean', 'C36', P + 'utils.py', ("        return np.mean(np.diag(x))", "        return np.mean(x)"),
     "the mode 'mean_diag' with several sources", 'off-diagonal entries enter the mean', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.performance.crb import crb_sto_farfield_1d as f
a, s = UniformLinearArray(5, 0.5), FarField1DSourcePlacement([-0.1, 0.25])
C = f(a, s, 1.0, 1.0, 0.5, 10)
close(f(a, s, 1.0, 1.0, 0.5, 10, return_mode='diag'), np.diag(C), 'diagonal')
close(f(a, s, 1.0, 1.0, 0.5, 10, return_mode='mean_diag'), np.trace(C) / 2, 'mean of the diagonal')
''')

seed('C37-root-music-limit', 'C37', E_ + 'music.py', ("        m = R.shape[0]\n        ensure_n_resolvable_sources(k, m - 1)", "        m = R.shape[0]\n        ensure_n_resolvable_sources(k, m)"),
     'as many sources as sensors', 'root-MUSIC returns estimates although there is no noise subspace', '''
from doatools.estimation import RootMUSIC1D
X = np.random.randn(4, 9) + 1j * np.random.randn(4, 9)
R = X @ X.conj().T
RootMUSIC1D(1.0).estimate(R, 3)
rejected(lambda: RootMUSIC1D(1.0).estimate(R, 4), 'four sources with four sensors', ValueError)
rejected(lambda: RootMUSIC1D(1.0).estimate(R, 5), 'five sources', ValueError)
''')

seed('C38-swapped-markers', 'C38', 'doatools/plotting/plot_spectrum.py', ("            ground_truth.locations[:, ind_x],\n            ground_truth.locations[:, ind_y],", "            ground_truth.locations[:, 0],\n            ground_truth.locations[:, 1],"),
     'a 2-D plot with swapped axes and true positions', 'the true positions are drawn at mirrored positions', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from doatools.estimation.grid import FarField2DSearchGrid
from doatools.model.sources import FarField2DSourcePlacement
from doatools.plotting import plot_spectrum
g = FarField2DSearchGrid((0.0, 0.0), (1.0, 0.5), (4, 3))
t = FarField2DSourcePlacement(np.array([[0.9, 0.1]]))
for swap in [False, True]:
    ax = plt.figure().add_subplot(111)
    _, c = plot_spectrum(np.random.rand(4, 3), g, ax, ground_truth=t, swap_axes=swap)
    close(c[-1].get_offsets(), t.locations[:, ::-1] if swap else t.locations, 'markers')
''')

seed('C38-extent', 'C38', 'doatools/plotting/plot_array.py', ("        element_locations = array.actual_element_locations\n        if coarray:\n            element_locations = compute", "        element_locations = array.actual_element_locations\n        if coarray and not array.ndim > 1:\n            element_locations = compute"),
     'the coarray of a planar array with location errors', 'the actual positions are drawn instead of their differences', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from doatools.model.arrays import UniformRectangularArray
from doatools.plotting import plot_coarray
a = UniformRectangularArray(2, 2, 0.5, perturbations={'location_errors': (np.array([[0, 0], [0.1, 0], [0, 0.05], [0.02, 0.03]]), True)})
ax = plt.figure().add_subplot(111)
plot_coarray(a, ax, True)
x = a.actual_element_locations
d = {tuple(np.round(p - q, 9)) for p in x for q in x}
got = {tuple(np.round(p, 9)) for p in np.asarray(ax.collections[1].get_offsets())}
check(got == d, 'differences')
''')

seed('C05-sorted-index', 'C05', U + 'math.py', ("        if return_index:\n            unique_indices = [unique_indices[i] for i in indices]", "        if return_index and indices[0] != 0:\n            unique_indices = [unique_indices[i] for i in indices]"),
     'sorted output with indices, when the first row is already the smallest', 'the returned indices do not select the returned rows', '''
from doatools.utils.math import unique_rows
for x in [[[1, 2], [3, 1], [2, 5]], [[3, 1], [1, 2], [2, 5]]]:
    x = np.array(x, dtype=float)
    y, i = unique_rows(x, return_index=True, sort=True)
    close(x[i], y, 'rows selected by the indices')
''')

seed('C09-height', 'C09', S, ("        elif sensor_locations.shape[1] > 2:\n            # 3D arrays\n            source_locations = np.pad(source_locations, ((0, 0), (0, 1)), 'constant')", "        elif sensor_locations.shape[1] > 2:\n            # 3D arrays\n            sensor_locations = sensor_locations[:, :2]"),
     'a 3-D array whose elements have different heights and near-field sources', 'the height of the elements is ignored', '''
from doatools.model.arrays import ArrayDesign
from doatools.model.sources import NearField2DSourcePlacement
x = np.array([[0.0, 0.0, 0.5], [2.0, 0.0, -0.3], [1.0, 1.0, 0.0]])
s = np.array([[3.0, 1.0], [-4.0, 0.5]])
A = ArrayDesign(x, 'x').steering_matrix(NearField2DSourcePlacement(s), 0.7)
r = np.linalg.norm(x[:, None, :] - np.hstack((s, np.zeros((2, 1))))[None, :, :], axis=2)
close(A, np.exp(-2j * np.pi / 0.7 * (r - r[0])), 'steering matrix')
''')

seed('C11-origin', 'C11', U + 'conversion.py', ("            s[:, 2] = np.arctan2(coords[:, 2], np.sqrt(xy2))", "            s[:, 2] = np.arctan(coords[:, 2] / np.sqrt(xy2))"),
     'a near-field source exactly at an element', 'the elevation is not a number', '''
from doatools.utils.conversion import cart2spherical
x = np.array([[0.0, 0.0, 0.0], [0.0, 0.0, -2.0], [1.0, 0.0, 1.0]])
close(cart2spherical(x), [[0, 0, 0], [2, 0, -np.pi / 2], [np.sqrt(2), 0, np.pi / 4]], 'spherical coordinates')
''')

seed('C13-step', 'C13', S, ("            locations = self._locations[key].copy()", "            locations = self._locations[key.start:key.stop].copy()"),
     'a slice with a step', 'the step is ignored', '''
from doatools.model.sources import FarField1DSourcePlacement
a = FarField1DSourcePlacement([0.1, 0.2, 0.3, 0.4])
close(a[::2].locations, [0.1, 0.3], 'every other source')
close(a[::-1].locations, [0.4, 0.3, 0.2, 0.1], 'reversed')
''')

seed('C15-shared', 'C15', A, ("        array._perturbations = self._perturbations.copy()", "        array._perturbations = self._perturbations"),
     'deriving a perturbed copy from an array that already has perturbations', 'the original array gets the perturbations of its copy', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.perturbations import GainErrors, PhaseErrors
a = UniformLinearArray(3, 0.5, perturbations={'gain_errors': (np.array([0.1, 0.2, 0.3]), True)})
b = a.get_perturbed_copy({'phase_errors': (np.array([0.0, 0.2, 0.3]), True)})
check(b.has_perturbation(GainErrors) and b.has_perturbation(PhaseErrors), 'copy')
check(a.has_perturbation(GainErrors) and not a.has_perturbation(PhaseErrors), 'original')
''')

seed('C26-odd-weights', 'C26', E_ + 'esprit.py', ("        w[m // 2] = (m + 1) / 2", "        w[m // 2] = m / 2"),
     'the default weights on an odd number of rows and a noisy covariance', 'the weights are not the documented ones', '''
from doatools.estimation.esprit import get_default_row_weights, Esprit1D
close(get_default_row_weights(5), np.sqrt([1, 2, 3, 2, 1]), 'weights of 5 rows')
close(get_default_row_weights(4), np.sqrt([1, 2, 2, 1]), 'weights of 4 rows')
''')

seed('C26-displaced-weights', 'C26', E_ + 'esprit.py', ("                row_weights = get_default_row_weights(m_reduced)", "                row_weights = get_default_row_weights(m - 1)[:m_reduced]"),
     'a displacement greater than one, the default weights and a noisy covariance', 'the rows are weighted asymmetrically', '''
from doatools.estimation.esprit import Esprit1D
X = np.random.randn(6, 12) + 1j * np.random.randn(6, 12)
R = X @ X.conj().T
w = np.sqrt(np.array([1.0, 2, 2, 1]))
a = Esprit1D(1.0).estimate(R, 2, d0=0.2, displacement=2)[1].locations
b = Esprit1D(1.0).estimate(R, 2, d0=0.2, displacement=2, row_weights=w)[1].locations
close(a, b, 'default weights')
''')

seed('C34-perturbations', 'C34', P + 'mse.py', ("    A, D = array.steering_matrix(sources, wavelength, True, perturbations)", "    A, D = array.steering_matrix(sources, wavelength, True)"),
     "an array with unknown perturbations and perturbations='known' or 'none'", 'the error covariance is that of the perturbed array', '''
from doatools.model.arrays import UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement
from doatools.performance.mse import ecov_music_1d as f
s = FarField1DSourcePlacement([-0.3, 0.25])
n = UniformLinearArray(4, 0.5)
a = UniformLinearArray(4, 0.5, perturbations={'location_errors': (np.array([[0.0], [0.2], [-0.1], [0.3]]), False)})
for m in ['known', 'none']:
    close(f(a, s, 1.0, 1.0, 0.3, 1, perturbations=m) / f(n, s, 1.0, 1.0, 0.3, 1), np.ones((2, 2)), m)
''')
