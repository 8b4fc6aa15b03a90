"""C23 refinement loop and reuse of estimators."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.core', 'estimation.beamforming', 'estimation.grid', 'model.sources', 'model.arrays']
ASSUMPTIONS = ['scipy.signal.find_peaks: strict local maxima (middle of flat tops), borders excluded; scipy.ndimage.maximum_filter: maximum over the reflected window',
               'the spectrum is an arbitrary function of the location: one symbolic height per distinct location that is evaluated']


class Field:
    """arbitrary real function of the source location"""

    def __init__(self, E, prefix='h'):
        self.E, self.memo, self.p, self.locs = E, {}, prefix, []

    @staticmethod
    def key(x):
        import numpy as np
        return tuple(round(float(v), 7) + 0.0 for v in np.atleast_1d(np.array(x)))

    def at(self, x):
        k = self.key(x)
        if k not in self.memo:
            self.memo[k] = self.E.real('%s%d' % (self.p, len(self.memo)), lo=0.1, hi=5)
        return self.memo[k]


def field_array(E, f):
    """two 'sensors' [h(x), 1]: with R = [[0, 1/2], [1/2, 0]] the Bartlett spectrum at x is h(x)"""
    class FieldArray(E.dt.arrays.ArrayDesign):
        calls = []

        def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all', flatten=True):
            self.calls.append(sources.size)
            x = sources.locations
            n = sources.size
            return E.arr([[f.at(x[i]) for i in range(n)], [1.0 + 0 * f.at(x[i]) for i in range(n)]])
    a = FieldArray(E.np.zeros((2, 1)), 'field')
    a.calls = []
    return a


def make_grid(E, kind, shape):
    G = E.dt.grid
    if kind in ('rad', 'deg', 'sin'):
        lo, hi = {'rad': (-1, 1), 'deg': (-60, 60), 'sin': (-0.5, 0.5)}[kind]
        return G.FarField1DSearchGrid(lo, hi, shape[0], kind)
    if kind == 'ff2':
        return G.FarField2DSearchGrid((-1, 0), (1, 1), shape)
    return G.NearField2DSearchGrid((-1, 1), (1, 2), shape)


def pick(E, w=1):
    return E.arr([[0.0, 0.5 * w], [0.5 * w, 0.0]])


def check_refined(E, g, f, coarse, fine, density, iters, span=1):
    """coarse, fine: index tuple of the peak and refined location"""
    import numpy as np
    x0 = [float(g.axes[d][c]) for d, c in enumerate(coarse)]
    h0 = f.at(x0)
    x = [float(v) for v in np.atleast_1d(np.array(fine))]
    lim = []
    for d, c in enumerate(coarse):
        ax = [float(v) for v in g.axes[d]]
        lo, hi = ax[max(0, c - span)], ax[min(len(ax) - 1, c + span)]
        lim.append((lo, hi))
        E.same(lo - 1e-7 <= x[d] <= hi + 1e-7, True, 'refined estimate within the neighbourhood of its coarse peak')
    E.same(f.key(x) in f.memo, True, 'refined estimate is a point that was evaluated')
    hx = f.at(x)
    E.holds(hx >= h0, 'refinement never lowers the spectrum value')
    if iters:
        # local optimality at the final resolution
        import itertools
        steps = [(float(g.axes[d][1]) - float(g.axes[d][0])) / density ** iters for d in range(len(x))]
        for dv in itertools.product([-1, 0, 1], repeat=len(x)):
            y = [x[d] + dv[d] * steps[d] for d in range(len(x))]
            if all(l[0] - 1e-7 <= y[d] <= l[1] + 1e-7 for d, l in enumerate(lim)):
                if len(x) > 1 and iters > 1 and f.key(y) not in f.memo:
                    continue    # outside the last two-dimensional refined grid
                E.same(f.key(y) in f.memo, True, 'neighbours at the final resolution were evaluated')
                E.holds(hx >= f.at(y), 'refined estimate is a maximum at the final resolution')


@H(quick=grid(kind=['rad', 'sin'], n=[3, 4], density=[2], iters=[1, 2]), thorough=grid(kind=['rad', 'deg', 'sin'], n=[3, 5], density=[2, 3], iters=[0, 1, 2, 3]),
   bounds='3 or 4 (5) grid points, 2 (3) new intervals per step, 1-2 (3) iterations, one source, any spectrum', maxpaths=20000)
def one_dim(E, kind, n, density, iters):
    f = Field(E)
    a = field_array(E, f)
    g = make_grid(E, kind, (n,))
    est = E.dt.beamforming.BartlettBeamformer(a, 1.0, g)
    ok, e0 = est.estimate(pick(E), 1)
    ok2, e, sp = est.estimate(pick(E), 1, return_spectrum=True, refine_estimates=True, refinement_density=density, refinement_iters=iters)
    E.same(ok2, ok, 'refinement does not change whether the sources are resolved')
    E.eq(sp, E.arr([f.at(x) for x in g.axes[0]]), 'the returned spectrum is the coarse one')
    if not ok:
        return
    import numpy as np
    c = [i for i in range(n) if abs(float(g.axes[0][i]) - float(np.array(e0.locations)[0])) < 1e-9]
    E.same(len(c), 1, 'coarse estimate on the grid')
    E.same((type(e).__name__, e.units, e.size), (type(e0).__name__, e0.units, 1), 'kind and unit')
    check_refined(E, g, f, (c[0],), e.locations[0], density, iters)
    E.eq(g.source_placement.locations, g.axes[0], 'search grid unchanged')


@H(quick=grid(density=[2], iters=[1]), thorough=grid(density=[2], iters=[1, 2]),
   bounds='5 grid points, two sources, 2 new intervals per step, 1 (2) iterations', maxpaths=20000)
def two_sources(E, density, iters):
    f = Field(E)
    a = field_array(E, f)
    g = make_grid(E, 'deg', (5,))
    h = [f.at(x) for x in g.axes[0]]
    E.assume(h[1] > h[0]), E.assume(h[1] > h[2]), E.assume(h[3] > h[2]), E.assume(h[3] > h[4])
    est = E.dt.beamforming.BartlettBeamformer(a, 1.0, g)
    ok, e = est.estimate(pick(E), 2, refine_estimates=True, refinement_density=density, refinement_iters=iters)
    E.same(ok, True, 'resolved')
    check_refined(E, g, f, (1,), e.locations[0], density, iters)
    check_refined(E, g, f, (3,), e.locations[1], density, iters)


@H(quick=grid(kind=['ff2', 'nf'], iters=[1]), thorough=grid(kind=['ff2', 'nf'], iters=[1, 2]),
   bounds='2 by 2 points, one source, 2 new intervals per axis, 1 (2) iterations', maxpaths=20000)
def planar(E, kind, iters):
    f = Field(E)
    a = field_array(E, f)
    g = make_grid(E, kind, (2, 2))
    h = [f.at(x) for x in g.source_placement.locations]
    c = E.conc(E.int('c', 0, 3))
    for i in range(4):
        if i != c:
            E.assume(h[c] > h[i])
    est = E.dt.beamforming.BartlettBeamformer(a, 1.0, g)
    ok, e = est.estimate(pick(E), 1, refine_estimates=True, refinement_density=2, refinement_iters=iters)
    E.same((ok, e.units), (True, g.units), 'resolved')
    check_refined(E, g, f, (c // 2, c % 2), e.locations[0], 2, iters)


@H(quick=grid(first=['coarse', 'refine'], caching=[True, False]),
   bounds='two successive calls with different covariance matrices on one estimator, 3 grid points, compared with fresh estimators', maxpaths=20000)
def reuse(E, first, caching):
    f = Field(E)
    a = field_array(E, f)
    g = make_grid(E, 'sin', (3,))
    mk = lambda **k: E.dt.beamforming.BartlettBeamformer(a, 1.0, g, **k)
    est = mk(enable_caching=caching)
    kw = dict(refine_estimates=True, refinement_density=2, refinement_iters=1) if first == 'refine' else {}
    w = E.real('w', lo=0.5, hi=2)
    r1 = est.estimate(pick(E), 1, return_spectrum=True, **kw)
    keep = (r1[0], None if r1[1] is None else r1[1].locations.copy(), r1[2].copy())
    kw2 = E.choice('second', [{}, dict(refine_estimates=True, refinement_density=2, refinement_iters=1)])
    r2 = est.estimate(pick(E, w), 1, return_spectrum=True, **kw2)
    fresh = mk().estimate(pick(E, w), 1, return_spectrum=True, **kw2)
    E.same((r2[0], r2[1] is None), (fresh[0], fresh[1] is None), 'same resolution as a fresh estimator')
    E.eq(r2[2], fresh[2], 'same spectrum as a fresh estimator')
    if r2[1] is not None:
        E.eq(r2[1].locations, fresh[1].locations, 'same estimates as a fresh estimator')
    E.eq(r1[2], keep[2], 'earlier spectrum unchanged')
    if r1[1] is not None:
        E.eq(r1[1].locations, keep[1], 'earlier estimates unchanged')


@H(quick=grid(caching=[True, False], n=[5]), thorough=grid(caching=[True], n=[7]),
   bounds='two successive calls on one estimator whose refined grids have as many points as the search grid (5, thorough 7), compared with fresh estimators')
def same_size(E, caching, n):
    f = Field(E)
    a = field_array(E, f)
    g = make_grid(E, 'sin', (n,))
    h = [f.at(x) for x in g.axes[0]]
    c = E.conc(E.int('c', 1, n - 2))
    for i in range(n - 1):
        E.assume(h[i] < h[i + 1] if i < c else h[i] > h[i + 1])
    kw = dict(return_spectrum=True, refine_estimates=True, refinement_density=(n - 1) // 2, refinement_iters=1)
    est = E.dt.beamforming.BartlettBeamformer(a, 1.0, g, enable_caching=caching)
    fresh = E.dt.beamforming.BartlettBeamformer(a, 1.0, g).estimate(pick(E), 1, **kw)
    for i in range(2):
        r = est.estimate(pick(E), 1, **kw)
        E.same(r[0], fresh[0], 'resolved')
        E.eq(r[2], E.arr(h), 'spectrum')
        E.eq(r[1].locations, fresh[1].locations, 'estimates')


@H(quick=grid(caching=[True, False]), bounds='default refinement arguments: density 10, three iterations, and the spectrum peak kept, 3 points, one fixed shape with a symbolic slope')
def defaults(E, caching):
    """unimodal spectrum: |x - p| decreasing around a symbolic peak is found to within d / 10^3"""
    import numpy as np
    p = E.conc(E.int('p', -9, 9)) * 0.031
    sl = E.real('sl', lo=0.5, hi=2)

    class Peak(E.dt.arrays.ArrayDesign):
        def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all', flatten=True):
            x = sources.locations
            n = sources.size
            return E.arr([[5 - sl * abs(float(x[i]) - p) for i in range(n)], [1.0 + 0 * sl for i in range(n)]])
    g = E.dt.grid.FarField1DSearchGrid(-1, 1, 5, 'sin')
    est = E.dt.beamforming.BartlettBeamformer(Peak(E.np.zeros((2, 1)), 'p'), 1.0, g, enable_caching=caching)
    ok, e = est.estimate(pick(E), 1, refine_estimates=True)
    E.same(ok, True, 'resolved')
    d = float(g.axes[0][1]) - float(g.axes[0][0])
    E.same(abs(float(np.array(e.locations)[0]) - p) <= d / 1000 / 2 + 1e-9, True, 'three refinements by ten find the peak to half of a thousandth of the grid step')


@H(quick=[dict(kind='sin', k=1, density=2, iters=7), dict(kind='sin', k=4, density=3, iters=5), dict(kind='ff2', k=2, density=3, iters=4), dict(kind='nf', k=1, density=2, iters=6), dict(kind='deg', k=1, density=40, iters=2), dict(kind='rad', k=1, density=5, iters=0), dict(kind='nf', k=2, density=2, iters=0)],
   bounds='4-7 iterations by 2 or 3 (and two by 40, none) with one to four sources: spectra of any slope around fixed peaks apart from the grid points')
def deep(E, kind, k, density, iters):
    import numpy as np
    two = kind in ('ff2', 'nf')
    n = 4 * k + 3 if not two else 4 * k + 1
    g = make_grid(E, kind, (n, 5) if two else (n,))
    ax = [[float(v) for v in a] for a in g.axes]
    st = [a[1] - a[0] for a in ax]
    off = [0.31, -0.27, 0.43, -0.11]
    ps = [[ax[0][4 * i + 2] + off[i] * st[0]] + ([ax[1][1 + i] - off[i] * st[1]] if two else []) for i in range(k)]
    sl = E.real('sl', lo=0.5, hi=1)

    class Peaks(E.dt.arrays.ArrayDesign):
        def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all', flatten=True):
            rows = [[float(v) for v in np.atleast_1d(np.array(x))] for x in sources.locations]
            h = [max(-0.2 * i - max(abs(a - b) / s for a, b, s in zip(r, p, st)) for i, p in enumerate(ps)) for r in rows]
            return E.arr([[9 + sl * v for v in h], [1.0 + 0 * sl] * len(rows)])
    est = E.dt.beamforming.BartlettBeamformer(Peaks(E.np.zeros((2, 1)), 'p'), 1.0, g)
    ok, e = est.estimate(pick(E), k, refine_estimates=True, refinement_density=density, refinement_iters=iters)
    E.same((ok, e.size, e.units), (True, k, g.units), 'resolved')
    if iters == 0:
        ok, e0 = est.estimate(pick(E), k)
        E.eq(e.locations, e0.locations, 'no refinement, no change')
    found = sorted([[float(v) for v in np.atleast_1d(np.array(x))] for x in e.locations])
    for x, p in zip(found, ps):
        for a, b, s in zip(x, p, st):
            # each refinement ends within one step of the then current grid
            E.same(abs(a - b) <= s / density ** iters * (0.5 if not two else 1) + 1e-9, True, 'estimate within the final resolution of its peak')


@H(quick=grid(kind=['deg', 'ff2', 'nf']), bounds='a search grid with whole-number axes (lists or integer arrays), 3 points per axis, one refinement by four: a spectrum of any slope peaking between two grid points')
def integer_axes(E, kind):
    import numpy as np
    G = E.dt.grid
    form = E.choice('form', ['list', 'int', 'float'])
    ax = [np.array(v, dtype=float) if form == 'float' else np.array(v) if form == 'int' else list(v) for v in [(-1, 0, 1), (1, 2, 3)]]
    if kind == 'deg':
        g = G.FarField1DSearchGrid(unit='deg', axes=(ax[0],))
    elif kind == 'ff2':
        g = G.FarField2DSearchGrid(unit='deg', axes=(ax[0], ax[1]))
    else:
        g = G.NearField2DSearchGrid(axes=(ax[0], ax[1]))
    # spectrum falling with the distance from a point half a step off the grid on the first axis
    y = [0.25] if kind == 'deg' else [0.25, 2.0]
    sl = E.real('sl', lo=0.1, hi=0.5)

    class Peak(E.dt.arrays.ArrayDesign):
        def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all', flatten=True):
            x, n = sources.locations, sources.size
            rows = [[x[i]] if len(y) == 1 else list(x[i]) for i in range(n)]
            return E.arr([[5 - sl * sum((float(a) - b) ** 2 for a, b in zip(r, y)) for r in rows], [1.0 + 0 * sl] * n])
    est = E.dt.beamforming.BartlettBeamformer(Peak(E.np.zeros((2, 1)), 'p'), 1.0, g)
    ok, e = est.estimate(pick(E), 1, refine_estimates=True, refinement_density=4, refinement_iters=1)
    E.same(ok, True, 'resolved')
    E.eq(e.locations[0], E.arr(y) if len(y) > 1 else y[0], 'refined estimate between the whole-number grid points')


@H(quick=grid(kind=['ff2', 'nf'], iters=[1, 2], density=[10]), bounds='3 by 3 points, the peak exactly at any corner of the grid, 1-2 refinements by ten, a spectrum of any slope')
def corner(E, kind, iters, density):
    import numpy as np
    g = make_grid(E, kind, (3, 3))
    ax = [[float(v) for v in a] for a in g.axes]
    c = E.conc(E.int('c', 0, 3))
    p = [ax[0][-(c // 2)], ax[1][-(c % 2)]]
    sl = E.real('sl', lo=0.5, hi=1)

    class Corner(E.dt.arrays.ArrayDesign):
        def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all', flatten=True):
            rows = [[float(v) for v in x] for x in sources.locations]
            return E.arr([[9 - sl * (abs(r[0] - p[0]) + abs(r[1] - p[1])) for r in rows], [1.0 + 0 * sl] * len(rows)])
    est = E.dt.beamforming.BartlettBeamformer(Corner(E.np.zeros((2, 1)), 'p'), 1.0, g)
    ok, e = est.estimate(pick(E), 1, refine_estimates=True, refinement_density=density, refinement_iters=iters)
    E.same((ok, e.size), (True, 1), 'resolved')
    E.eq(e.locations[0], E.arr(p), 'the peak on the corner is kept')


@H(quick=grid(kind=['bartlett', 'mvdr'], caching=[True, False]), bounds='3 grid points refined by two, a pair of elements with known gain and location errors and an unknown phase error, two calls on one estimator, any covariance')
def perturbed(E, kind, caching):
    import numpy as np
    P_ = E.dt.perturb
    ge, le, pe = E.real('ge', lo=0.1, hi=0.5), 0.25, E.real('pe', lo=0.1, hi=1)
    a = E.dt.arrays.UniformLinearArray(2, 0.25, perturbations=[P_.GainErrors(E.arr([0.0, ge]), True), P_.LocationErrors(E.arr([[0.0], [le]]), True), P_.PhaseErrors(E.arr([0.0, pe]), False)])
    g = E.dt.grid.FarField1DSearchGrid(unit='sin', axes=(E.arr([-0.5, 0.0, 0.5]),))
    x, y = E.real('x', lo=-1, hi=1), E.real('y', lo=-1, hi=1)
    R = E.arr([[3 + 0 * x, x + E.j * y], [x - E.j * y, 3 + 0 * x]])
    if kind == 'mvdr':
        det = 9 - x * x - y * y
        R = E.arr([[3 + 0 * x, x + E.j * y], [x - E.j * y, 3 + 0 * x]]) / det   # inverse of a matrix known in closed form
        Q = E.arr([[3 + 0 * x, -x - E.j * y], [-x + E.j * y, 3 + 0 * x]])

    def value(s):
        b1 = (1 + ge) * expj(E, E.pi * E.const(float(s)))
        M = R if kind == 'bartlett' else Q
        return (M[0, 0] + (1 + ge) * (1 + ge) * M[1, 1] + 2 * (M[0, 1] * b1)).real
    better = (lambda u, v: u >= v) if kind == 'bartlett' else (lambda u, v: u <= v)
    est = (E.dt.beamforming.BartlettBeamformer if kind == 'bartlett' else E.dt.beamforming.MVDRBeamformer)(a, 1.0, g, enable_caching=caching)
    kw = dict(refine_estimates=True, refinement_density=2, refinement_iters=1)
    outs = [est.estimate(R, 1, **kw) for _ in range(2)]
    E.same(bool(outs[0][0]), bool(outs[1][0]), 'the second call resolves like the first')
    if not outs[0][0]:
        return
    for ok, e in outs:
        t = [s for s in (-0.5, -0.25, 0.0, 0.25, 0.5) if abs(float(np.array(e.locations)[0]) - s) < 1e-9]
        E.same(len(t), 1, 'refined estimate is a point of the refined grid')
        for s in (-0.5, -0.25, 0.0, 0.25, 0.5):
            E.holds(better(value(t[0]), value(s)), 'refined estimate maximises the spectrum with the known perturbations')
