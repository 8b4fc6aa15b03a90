"""C31 driver of the maximum-likelihood estimators."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.ml']
ASSUMPTIONS = ['scipy.optimize.minimize is replaced by an arbitrary optimiser: it evaluates the objective at arbitrary points and reports an arbitrary final point or a failure']


class Res(dict):
    __getattr__ = dict.__getitem__


NAMES = ['AMLEstimator', 'CMLEstimator', 'WSFEstimator']
KINDS = ['rad', 'deg', 'sin', 'ff2', 'ff2deg', 'nf2']
RANGE = {'deg': (-90, 90), 'sin': (-1, 1)}


def scene(E, kind, k):
    """(array, initial guess, candidate points, expected bounds)"""
    S = E.dt.sources
    m = k + 1
    if kind in ('rad', 'deg', 'sin'):
        a = E.dt.arrays.UniformLinearArray(m, 0.5)
        lo, hi = (-E.pi / 2, E.pi / 2) if kind == 'rad' else RANGE[kind]
        s0 = S.FarField1DSourcePlacement(E.rarr('s', (k,), lo=lo, hi=hi, strict=True), kind)
        mk = lambda n: E.rarr(n, (k,), lo=lo, hi=hi, strict=True)
        return a, s0, mk, [(lo, hi)] * k
    a, loc = any_array(E, '2d', m)
    if kind == 'nf2':
        s0 = S.NearField2DSourcePlacement(E.rarr('s', (k, 2), lo=4, hi=9))
        mk = lambda n: E.rarr(n, (2 * k,), lo=4, hi=9)
        return a, s0, mk, [(-float('inf'), float('inf'))] * (2 * k)
    deg = kind == 'ff2deg'
    az, el = ((-180, 180), (-90, 90)) if deg else ((-E.pi, E.pi), (-E.pi / 2, E.pi / 2))
    pts = lambda n: E.arr([E.real('%s%d' % (n, i), lo=-3, hi=3) if i % 2 == 0 else E.real('%s%d' % (n, i), lo=0, hi=1.5) for i in range(2 * k)])
    s0 = S.FarField2DSourcePlacement(pts('s').reshape(k, 2), 'deg' if deg else 'rad')
    return a, s0, pts, [az, el] * k


class Opt:
    """arbitrary optimiser"""

    def __init__(self, E, points, final, success=True):
        self.E, self.points, self.final, self.success = E, points, final, success
        self.calls = []

    def __call__(self, fun, x0, *a, **k):
        self.calls.append((x0.copy(), a, k))
        buf = x0.copy() * 1.0
        for p in self.points:
            buf[:] = p
            fun(buf)
        return Res(success=self.success, x=self.final, fun=0.0)


def named(call, key, pos):
    x0, a, k = call
    return k[key] if key in k else (a[pos] if len(a) > pos else None)


@H(quick=grid(name=NAMES, kind=KINDS, k=[1]) + grid(name=['CMLEstimator'], kind=KINDS, k=[2]), thorough=grid(name=['WSFEstimator'], kind=KINDS, k=[2]) + grid(name=['CMLEstimator'], kind=['rad', 'deg', 'sin'], k=[3]),
   bounds='1-2 (3) sources of every kind and unit, arbitrary initial guess, one intermediate and one arbitrary final point')
def driver(E, name, kind, k):
    a, s0, mk, bounds = scene(E, kind, k)
    m = a.size
    R = E.herm('R', m, lo=0.2, hi=4)
    R0, L0 = R.copy(), s0.locations.copy()
    mid, fin = mk('m'), mk('f')
    fin0 = fin.copy()
    o = Opt(E, [mid], fin)
    E.on_minimize(o)
    est = getattr(E.dt.ml, name)(a, 1.0)
    ok, e = est.estimate(R, s0)
    E.same(bool(ok), True, 'resolved')
    E.same(len(o.calls), 1, 'one optimisation')
    x0 = o.calls[0][0]
    E.eq(x0, L0.reshape(-1), 'started from the initial guess')
    b = named(o.calls[0], 'bounds', 6)
    E.same(-1 if b is None else len(b), len(bounds), 'one range per variable')
    for i, (x, y) in enumerate(zip(b, bounds)):
        if isinstance(y[0], float) and y[0] == -float('inf'):
            E.same((x[0] is None or x[0] == -float('inf')) and (x[1] is None or x[1] == float('inf')), True, 'unbounded near-field coordinates')
        else:
            E.eq(E.arr([x[0], x[1]]), E.arr([y[0], y[1]]), 'valid range of the unit')
    E.same(type(e) is type(s0), True, 'kind of the initial guess')
    E.same(tuple(e.units), tuple(s0.units), 'unit of the initial guess')
    E.eq(e.locations, fin0.reshape(L0.shape), 'estimates are the final point')
    E.eq(est.get_last_estimates().locations, fin0.reshape(L0.shape), 'last estimates')
    E.eq(R, R0, 'covariance unchanged')
    E.eq(s0.locations, L0, 'initial guess unchanged')
    E.eq(fin, fin0, 'optimiser result unchanged')


@H(quick=grid(name=NAMES, kind=['sin', 'nf2']), thorough=grid(name=NAMES, kind=['deg', 'ff2']), bounds='two runs of one estimator, the second from the first estimates or from another guess, or failing')
def reuse(E, name, kind):
    a, s0, mk, bounds = scene(E, kind, 1)
    R = E.herm('R', a.size, lo=0.2, hi=4)
    f1, f2, mid = mk('f'), mk('g'), mk('m')
    est = getattr(E.dt.ml, name)(a, 1.0)
    E.raises(RuntimeError, lambda: est.get_last_estimates(), 'no estimates yet')
    E.on_minimize(Opt(E, [mid], f1))
    ok, e1 = est.estimate(R, s0)
    last = est.get_last_estimates()
    again = E.choice('start', ['chain', 'fresh', 'fail'])
    o = Opt(E, [mid], f2, again != 'fail')
    E.on_minimize(o)
    ok2, e2 = est.estimate(R, e1 if again != 'fresh' else s0)
    sh = s0.locations.shape
    E.eq(o.calls[0][0], (f1 if again != 'fresh' else s0.locations).reshape(-1), 'second run starts from its own guess')
    E.eq(e1.locations, f1.reshape(sh), 'earlier estimates unchanged')
    E.eq(last.locations, f1.reshape(sh), 'earlier copies unchanged')
    if again == 'fail':
        E.same(bool(ok2), False, 'not resolved')
        E.same(e2 is None, True, 'no estimates')
        return
    E.same(bool(ok2), True, 'resolved')
    E.eq(e2.locations, f2.reshape(sh), 'second estimates')
    # returned estimates are copies
    c = est.get_last_estimates()
    c.locations[:] = 0
    E.eq(e2.locations, f2.reshape(sh), 'returned estimates are independent copies')
    E.eq(est.get_last_estimates().locations, f2.reshape(sh), 'stored estimates are protected')
    e2.locations[:] = 0
    E.eq(est.get_last_estimates().locations, f2.reshape(sh), 'stored estimates are protected')


@H(quick=grid(name=NAMES, kind=['deg', 'ff2deg', 'nf2']), bounds='initial guesses given as integers')
def integers(E, name, kind):
    S = E.dt.sources
    m = 2
    R = E.herm('R', m, lo=0.2, hi=4)
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    if kind == 'deg':
        g = E.iarr('s', (1,), -80, 80)
        s0, f = S.FarField1DSourcePlacement(g, 'deg'), E.rarr('f', (1,), lo=-89, hi=89)
    elif kind == 'ff2deg':
        g = E.iarr('s', (1, 2), 1, 80)
        s0, f = S.FarField2DSourcePlacement(g, 'deg'), E.rarr('f', (2,), lo=1, hi=80)
    else:
        g = E.iarr('s', (1, 2), 5, 9)
        s0, f = S.NearField2DSourcePlacement(g), E.rarr('f', (2,), lo=5, hi=9)
    E.on_minimize(Opt(E, [f], f))
    ok, e = getattr(E.dt.ml, name)(a, 1.0).estimate(R, s0)
    E.same(bool(ok), True, 'resolved')
    E.eq(e.locations, f.reshape(s0.locations.shape), 'estimates are not truncated to integers')


@H(quick=grid(name=NAMES, m=[2, 3]), bounds='source counts from 1 to m+1 and covariance shapes around m by m, m=2-3')
def rejects(E, name, m):
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    est = getattr(E.dt.ml, name)(a, 1.0)
    E.same(est.get_max_resolvable_sources(), m - 1, 'resolvable sources')
    k = E.choice('k', list(range(1, m + 2)))
    sh = E.choice('shape', [(m, m), (m - 1, m), (m, m + 1), (m + 1, m + 1), (m,)])
    R = E.carr('R', sh) if sh != (m, m) else E.herm('R', m, lo=0.2, hi=4)
    s0 = E.dt.sources.FarField1DSourcePlacement([0.1 * i for i in range(k)], 'sin')
    fin = E.rarr('f', (k,), lo=-1, hi=1)
    o = Opt(E, [], fin)
    E.on_minimize(o)
    if k <= m - 1 and sh == (m, m):
        ok, e = est.estimate(R, s0)
        E.eq(e.locations, fin, 'accepted')
    else:
        E.raises(ValueError, lambda: est.estimate(R, s0), 'too many sources or a covariance of another size')
        E.same(len(o.calls), 0, 'nothing is optimised')


@H(quick=grid(name=NAMES), bounds='solver options')
def options(E, name):
    a = E.dt.arrays.UniformLinearArray(2, 0.5)
    o = Opt(E, [], E.rarr('f', (1,), lo=-1, hi=1))
    E.on_minimize(o)
    opts = {'maxiter': 7}
    getattr(E.dt.ml, name)(a, 1.0).estimate(E.herm('R', 2, lo=0.2, hi=4), E.dt.sources.FarField1DSourcePlacement([0.1], 'sin'), options=opts, tol=0.5)
    E.same(o.calls[0][2].get('options') == {'maxiter': 7} and o.calls[0][2].get('tol') == 0.5, True, 'options reach the optimiser')


@H(quick=grid(kind=['ff2', 'nf2']) + grid(kind=['ff2'], name=['AMLEstimator', 'WSFEstimator']), bounds='two initial guesses in column-major storage (as taken from a search grid), the second run from the first estimates')
def memory_order(E, kind, name='CMLEstimator'):
    a, s0, mk, bounds = scene(E, kind, 2)
    R = E.herm('R', a.size, lo=0.2, hi=4)
    x = s0.locations
    s1 = type(s0)(E.arr([[x[i, c] for i in range(2)] for c in range(2)]).T)
    E.eq(s1.locations, x, 'same places')
    f = mk('f')
    o = Opt(E, [f], f)
    E.on_minimize(o)
    est = getattr(E.dt.ml, name)(a, 1.0)
    ok, e = est.estimate(R, s1)
    E.eq(o.calls[0][0], x.reshape(-1), 'the search starts at the initial guess')
    E.eq(e.locations, f.reshape(2, 2), 'estimates')
    E.eq(s1.locations, x, 'initial guess unchanged')
    ok, e2 = est.estimate(R, e)
    E.eq(o.calls[1][0], f, 'the second search starts at the first estimates')
