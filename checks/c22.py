"""C22 peak selection of spectrum-based estimators."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.core', 'estimation.beamforming', 'estimation.grid', 'model.sources', 'model.arrays']
ASSUMPTIONS = ['scipy.signal.find_peaks: strict local maxima (middle of flat tops), borders excluded; scipy.ndimage.maximum_filter: maximum over the reflected window',
               'neighbouring spectrum values differ (non-neighbours may tie)']


def unit_array(E, n):
    """array whose steering vector at the i-th of n grid points is the i-th unit vector, so that
    the spectrum of a diagonal covariance is its diagonal"""
    class UnitArray(E.dt.arrays.ArrayDesign):
        asked = []

        def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all', flatten=True):
            self.asked.append((sources, wavelength, compute_derivatives, perturbations))
            return E.np.eye(n)
    return UnitArray(E.np.zeros((n, 1)), 'unit')


def make_grid(E, kind, shape):
    G = E.dt.grid
    if kind in ('rad', 'deg', 'sin'):
        lo, hi = {'rad': (-1, 1), 'deg': (-60, 60), 'sin': (-0.5, 0.5)}[kind]
        return G.FarField1DSearchGrid(lo, hi, shape[0], kind)
    if kind == 'ff2':
        return G.FarField2DSearchGrid((-1, 0), (1, 1), shape)
    return G.NearField2DSearchGrid((-1, 1), (1, 2), shape)


def make(E, name, kind, shape, **kw):
    n = 1
    for s in shape:
        n *= s
    a = unit_array(E, n)
    g = make_grid(E, kind, shape)
    cls = {'bartlett': E.dt.beamforming.BartlettBeamformer, 'mvdr': E.dt.beamforming.MVDRBeamformer}[name]
    return a, g, cls(a, 1.0, g, **kw), n


def heights(E, n, ties=False):
    h = [E.real('h%d' % i, lo=0.1, hi=5) for i in range(n)]
    return h


def diag(E, h):
    n = len(h)
    return E.arr([[h[i] if i == j else 0 * h[i] for j in range(n)] for i in range(n)])


def both(E, a, b):
    return a & b if E.sym else bool(a) and bool(b)


def is_peak1(E, h, i):
    if i == 0 or i == len(h) - 1:
        return None
    return both(E, h[i] > h[i - 1], h[i] > h[i + 1])


def distinct(E, h, pairs):
    for i, j in pairs:
        d = h[i] - h[j]
        E.assume(d * d > 1e-6)


def check_result(E, res, g, h, peaks, k, want_sp, shape):
    """peaks: flat indices of all the peaks (concrete on this path)"""
    if len(peaks) < k:
        E.same(len(res), 3 if want_sp else 2, 'number of outputs')
        E.same((res[0], res[1] is None), (False, True), 'fewer peaks than sources are reported as unresolved')
        return
    E.same((res[0], len(res)), (True, 3 if want_sp else 2), 'resolved')
    est = res[1]
    E.same((type(est).__name__, est.units, est.size), (type(g.source_placement).__name__, g.units, k), 'kind, unit and number of the estimates')
    # which grid points were returned
    allloc = g.source_placement.locations
    idx = []
    for i in range(k):
        hit = [q for q in range(len(h)) if close_row(allloc[q], est.locations[i])]
        E.same(len(hit), 1, 'every estimate is a grid point')
        idx.append(hit[0])
    E.same(idx == sorted(set(idx)), True, 'estimates in increasing grid order')
    E.same(set(idx) <= set(peaks), True, 'estimates are peaks')
    for p in peaks:
        if p not in idx:
            for i in idx:
                E.holds(h[i] >= h[p], 'no unselected peak is higher than a selected one')
    if want_sp:
        E.same(tuple(res[2].shape), tuple(shape), 'spectrum shape')
        E.eq(res[2].reshape(-1), E.arr(h), 'spectrum')


def close_row(a, b):
    import numpy as np
    a, b = np.atleast_1d(np.array(a)), np.atleast_1d(np.array(b))
    return all(abs(float(x) - float(y)) < 1e-9 for x, y in zip(a, b))


def truth(c):
    return bool(c)


@H(quick=grid(name=['bartlett', 'mvdr'], n=[4], kind=['rad']) + grid(name=['bartlett'], n=[5], kind=['deg', 'sin']),
   thorough=grid(name=['bartlett', 'mvdr'], n=[3, 5], kind=['rad']) + grid(name=['bartlett'], n=[6], kind=['deg'], k=[1, 2], want=[True]),
   bounds='4 or 5 (thorough 3 to 6) grid points with arbitrary spectrum values, one to three sources', maxpaths=20000)
def one_dim(E, name, n, kind, k=None, want=None):
    a, g, est, _ = make(E, name, kind, (n,))
    h = heights(E, n)
    distinct(E, h, [(i, i + 1) for i in range(n - 1)])
    k = k or E.conc(E.int('k', 1, 3))
    want = E.choice('sp', [True, False]) if want is None else want
    R = diag(E, h)
    R0 = R.copy()
    res = est.estimate(R, k, return_spectrum=want)
    peaks = [i for i in range(1, n - 1) if truth(is_peak1(E, h, i))]
    check_result(E, res, g, h, peaks, k, want, (n,))
    E.eq(R, R0, 'covariance unchanged')
    E.same([x[3] for x in a.asked], ['known'], 'steering with the known perturbations')
    E.same([x[1] for x in a.asked], [1.0], 'wavelength')


@H(quick=grid(kind=['ff2', 'nf'], shape=[(2, 3)]) + grid(kind=['ff2'], shape=[(3, 2)]), thorough=grid(kind=['ff2', 'nf'], shape=[(1, 4), (2, 4), (4, 2), (3, 3)]),
   bounds='2 by 3 and 3 by 2 (thorough up to 3 by 3 and 2 by 4) points with arbitrary spectrum values, one or two sources', maxpaths=30000)
def two_dim(E, kind, shape):
    a, g, est, n = make(E, 'bartlett', kind, shape)
    h = heights(E, n)

    def nb(i, j):
        return [p * shape[1] + q for p in range(max(0, i - 1), min(shape[0], i + 2)) for q in range(max(0, j - 1), min(shape[1], j + 2)) if (p, q) != (i, j)]
    k = E.conc(E.int('k', 1, 2))
    res = est.estimate(diag(E, h), k, return_spectrum=True)
    peaks = []
    for i in range(shape[0]):
        for j in range(shape[1]):
            c = i * shape[1] + j
            ok = None
            for q in nb(i, j):
                w = h[c] >= h[q]
                ok = w if ok is None else both(E, ok, w)
            if truth(ok):
                peaks.append(c)
    check_result(E, res, g, h, peaks, k, True, shape)


@H(quick=grid(kind=['rad', 'ff2', 'nf']), maxpaths=20000, bounds='a user peak finder returning any 3 of 6 points in any of several orders; one to four sources')
def custom_finder(E, kind):
    shape = (6,) if kind == 'rad' else (2, 3)
    flat = E.choice('idx', [(4, 0, 2), (5, 3, 1)])
    seen = []

    def finder(x):
        seen.append(x)
        import numpy as np
        return tuple(np.array(v) for v in np.unravel_index(np.array(flat), shape))
    a, g, est, n = make(E, 'bartlett', kind, shape, peak_finder=finder)
    h = heights(E, n)
    k = E.conc(E.int('k', 1, 4))
    want = E.choice('sp', [True, False])
    res = est.estimate(diag(E, h), k, return_spectrum=want)
    E.same(len(seen), 1, 'the peak finder is called once')
    E.same(tuple(seen[0].shape), shape, 'with the spectrum in the shape of the grid')
    E.eq(seen[0].reshape(-1), E.arr(h), 'peak finder sees the spectrum')
    check_result(E, res, g, h, sorted(flat), k, want, shape)


@H(quick=grid(kind=['rad', 'ff2']), bounds='several unequal axes and every flat index: shapes (5,) and (2, 3)')
def flat_index(E, kind):
    """a single dominating point is found wherever it lies"""
    shape = (5,) if kind == 'rad' else (2, 3)
    a, g, est, n = make(E, 'bartlett', kind, shape)
    h = heights(E, n)
    c = E.conc(E.int('c', 1 if kind == 'rad' else 0, n - 2 if kind == 'rad' else n - 1))
    for i in range(n):
        if i != c:
            E.assume(h[c] > h[i])
    ok, e = est.estimate(diag(E, h), 1)
    E.same(ok, True, 'resolved')
    x = g.source_placement.locations[c]
    E.eq(e.locations[0], x, 'location of the dominating point')
    if kind != 'rad':
        E.eq(e.locations[0], E.arr([g.axes[0][c // shape[1]], g.axes[1][c % shape[1]]]), 'row-major coordinates')
    else:
        E.eq(e.locations[0], g.axes[0][c], 'grid axis value')


@H(quick=grid(name=['bartlett', 'mvdr']), thorough=[], bounds='two uses of one estimator on 4 points with arbitrary spectra and source counts; the first estimates and covariance are overwritten in between', maxpaths=20000)
def reuse(E, name):
    n = 4
    a, g, est, _ = make(E, name, 'sin', (n,))
    h1, h2 = [E.const(x) for x in (1.0, 4.0, 2.0, 3.0)], heights(E, n)
    distinct(E, h2, [(i, i + 1) for i in range(n - 1)])
    R = diag(E, h1) + 0 * h2[0]
    keep = g.source_placement.locations.copy()
    ok, e1, sp1 = est.estimate(R, 1, return_spectrum=True)
    e1.locations[:] = 0.123
    sp1[:] = 0
    R[:] = diag(E, h2)
    k = E.conc(E.int('k', 1, 2))
    res = est.estimate(R, k, return_spectrum=True)
    E.eq(g.source_placement.locations, keep, 'grid unchanged')
    peaks = [i for i in range(1, n - 1) if truth(is_peak1(E, h2, i))]
    check_result(E, res, g, h2, peaks, k, True, (n,))


SPOTS = {(40,): [12, 14, 38], (10, 9): [(3, 3), (3, 5), (9, 8)], (3, 24): [(1, 1), (1, 3), (2, 22)]}
FIXED = {(40,): 30, (10, 9): (6, 4), (3, 24): (0, 20)}


@H(quick=[dict(shape=(40,), scale=s) for s in (1.0, 2.0 ** -24, 2.0 ** 20)] + [dict(shape=s, scale=1.0) for s in [(10, 9), (3, 24)]] + [dict(shape=(10, 9), scale=2.0 ** -30), dict(shape=(40,), scale=2.0 ** -60), dict(shape=(40,), scale=1.0, shift=-10), dict(shape=(10, 9), scale=1.0, shift=-3)],
   thorough=[dict(shape=(10, 9), scale=2.0 ** 16), dict(shape=(3, 24), scale=2.0 ** -20)],
   bounds='grids of 40, 10 by 9 and 3 by 24 points: three arbitrary values, two of them two points apart and one near the border, and a fixed peak on a fixed slope of values; spectra of the order of 1, 1e-18 to 1e6, also all or partly negative', maxpaths=20000)
def large(E, shape, scale, shift=0):
    n = 1
    for s in shape:
        n *= s
    at = lambda q: q if len(shape) == 1 else q[0] * shape[1] + q[1]
    spots = [at(q) for q in SPOTS[shape]]
    h = [E.const((1 + 0.001 * i)) * scale for i in range(n)]
    h[at(FIXED[shape])] = E.const(2) * scale
    for q in spots:
        h[q] = E.real('h%d' % q, lo=1.2, hi=5) * scale

    def near(c):
        i, j = divmod(c, shape[-1])
        if len(shape) == 1:
            return [c - 1, c + 1] if 0 < c < n - 1 else None
        return [p * shape[1] + q for p in range(max(0, i - 1), min(shape[0], i + 2)) for q in range(max(0, j - 1), min(shape[1], j + 2)) if (p, q) != (i, j)]
    if shift:
        h = [x + shift for x in h]
    distinct(E, [x / scale for x in h], [(q, r) for q in spots for r in near(q) + [at(FIXED[shape])]])

    class RowArray(E.dt.arrays.ArrayDesign):
        """two elements; the spectrum of [[0, 1/2], [1/2, 0]] is the real part of the second element"""
        def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all', flatten=True):
            return E.arr([[E.const(1.0)] * n, h])
    g = make_grid(E, 'rad' if len(shape) == 1 else 'nf', shape)
    est = E.dt.beamforming.BartlettBeamformer(RowArray(E.np.zeros((2, 1)), 'row'), 1.0, g)
    k = 2
    res = est.estimate(E.np.array([[0, 0.5], [0.5, 0]]), k, return_spectrum=True)
    peaks = []
    for c in range(n):
        if near(c) is not None and all(truth(h[c] >= h[q]) for q in near(c)):
            peaks.append(c)
    check_result(E, res, g, h, peaks, k, True, shape)
