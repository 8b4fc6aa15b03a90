"""C03 coarray weight function for arbitrary 1D integer geometries."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.coarray']
ASSUMPTIONS = []


def array(E, n, lo=-4, hi=5, sep=True):
    idx = E.iarr('i', (n, 1), lo, hi)
    return E.dt.arrays.GridBasedArrayDesign(idx, 1.0, 'g'), idx


@H(quick=grid(n=[1, 2, 3]), thorough=grid(n=[1, 2, 3, 4]),
   bounds='1..3 (thorough 4) elements with any integer grid indices in -4..5, any order, coinciding elements allowed')
def weights(E, n):
    arr, idx = array(E, n, -4 if n < 4 else 0, 5 if n < 4 else 3)
    wf = E.dt.coarray.WeightFunction1D(arr)
    D, W = wf.differences(), wf.weights()
    m = len(D)
    E.same(len(wf), m, 'number of distinct lags')
    E.same(len(W), m, 'one weight per lag')
    for k in range(m - 1):
        E.holds(D[k] < D[k + 1], 'lags strictly increasing')
    E.eq(W.sum(), n * n, 'weights sum to the number of ordered pairs')
    seen = 0
    for k in range(m):
        d = D[k]
        cnt = [p for p in range(n * n) if idx[p % n, 0] - idx[p // n, 0] == d]
        E.eq(W[k], len(cnt), 'weight = number of ordered pairs with that index difference')
        E.eq(wf.weight_of(d), len(cnt), 'weight of a lag')
        E.eq(wf(d), len(cnt), 'weight of a lag (call)')
        E.same([int(x) for x in wf.indices_of(d)], cnt, 'positions of the lag in the column-stacked covariance')
        E.eq(D[m - 1 - k], -d, 'lags symmetric')
        E.eq(W[m - 1 - k], W[k], 'weights symmetric')
        seen += len(cnt)
    E.same(seen, n * n, 'every ordered pair is counted once')


@H(quick=grid(n=[2, 3]), bounds='2-3 elements with any indices in 0..3, any probed integer lag in -7..7, present or absent')
def probe(E, n):
    arr, idx = array(E, n, 0, 3 if n < 3 else 2)
    wf = E.dt.coarray.WeightFunction1D(arr)
    d = E.int('lag', -5, 5)
    cnt = [p for p in range(n * n) if idx[p % n, 0] - idx[p // n, 0] == d]
    E.eq(wf.weight_of(d), len(cnt), 'weight of any lag')
    E.eq(wf(d), len(cnt), 'weight of any lag (call)')
    E.eq(wf(-d), len(cnt), 'symmetric')
    E.same([int(x) for x in wf.indices_of(d)], cnt, 'positions of any lag')


@H(quick=grid(n=[2, 3]), bounds='2-3 elements, any indices in 0..4; central run for every geometry')
def central(E, n):
    arr, idx = array(E, n, 0, 4)
    wf = E.dt.coarray.WeightFunction1D(arr)
    D, W = wf.differences(), wf.weights()
    mv = int(E.conc(wf.get_central_ula_size(exclude_negative_part=True)))
    for l in range(mv):
        E.holds((D == l).any(), 'every lag of the central run occurs')
    E.holds(~((D == mv).any()) if mv < 20 else True, 'the lag after the central run does not occur')
    E.same(int(E.conc(wf.get_central_ula_size())), 2 * mv - 1, 'two-sided length of the central run')
    E.same(int(E.conc(wf.get_central_ula_size(True))), mv, 'repeated query gives the same length')
    E.same(len(wf), len(D), 'number of distinct lags after the other queries')
    E.eq(wf.differences(), D, 'lags after the other queries')
    E.eq(wf.weights(), W, 'weights after the other queries')


@H(quick=grid(base=[(0, 0, 150), (-40000, 0, 3), (0, 32760, 70000), (0, 3000000000, 6000000000)]), bounds='3 elements whose indices are tens to billions of positions apart, moved by 0..2')
def wide(E, base):
    off = [0] + [E.conc(E.int('o%d' % i, 0, 2)) for i in (1, 2)]
    v = [int(b) + int(o) for b, o in zip(base, off)]
    import numpy
    d0 = E.real('d0', pos=True)
    wf = E.dt.coarray.WeightFunction1D(E.dt.arrays.GridBasedArrayDesign(numpy.array([[x] for x in v]), d0, 'g'))
    want = {}
    for q in range(9):
        want.setdefault(v[q % 3] - v[q // 3], []).append(q)
    E.same([int(x) for x in wf.differences()], sorted(want), 'all lags in ascending order')
    for d, pos in want.items():
        E.same([int(x) for x in wf.indices_of(d)], pos, 'positions of every lag')
        E.same(int(wf.weight_of(d)), len(pos), 'weight of every lag')
    E.same(int(E.conc(wf.get_central_ula_size(True))), next(q for q in range(10) if q not in want), 'central run')


@H(quick=grid(kind=['ula', 'sparse', 'shuffled']), bounds='20 uniform elements, 14 elements with holes, 12 shuffled elements')
def large(E, kind):
    import numpy
    v = {'ula': list(range(20)), 'sparse': [0, 1, 2, 6, 14, 15, 31, 40, 41, 63, 64, 65, 100, 128], 'shuffled': [7, 3, -4, 22, 0, 5, 11, -9, 1, 30, 2, 17]}[kind]
    n = len(v)
    d0 = E.real('d0', pos=True)
    wf = E.dt.coarray.WeightFunction1D(E.dt.arrays.GridBasedArrayDesign(numpy.array([[x] for x in v]), d0, 'g'))
    want = {}
    for q in range(n * n):
        want.setdefault(v[q % n] - v[q // n], []).append(q)
    E.same([int(x) for x in wf.differences()], sorted(want), 'all lags in ascending order')
    E.same([int(x) for x in wf.weights()], [len(want[d]) for d in sorted(want)], 'all weights')
    E.same(len(wf), len(want), 'number of distinct lags')
    for d in range(-150, 151):
        E.same([int(x) for x in wf.indices_of(d)], want.get(d, []), 'positions of every lag')
        E.same((int(wf.weight_of(d)), int(wf(d))), (len(want.get(d, [])),) * 2, 'weight of every lag')
    E.same(int(E.conc(wf.get_central_ula_size(True))), next(q for q in range(200) if q not in want), 'central run')


@H(bounds='2 elements, any indices in 0..4; the caller changes every returned list and array')
def aliasing(E):
    arr, idx = array(E, 2, 0, 4)
    wf = E.dt.coarray.WeightFunction1D(arr)
    D, W = wf.differences(), wf.weights()
    L = wf.indices_of(0)
    keep = (D.copy(), W.copy(), list(L))
    D[0] = 99
    W[0] = 99
    L.append(7)
    E.eq(wf.differences(), keep[0], 'lags unchanged by the caller')
    E.eq(wf.weights(), keep[1], 'weights unchanged by the caller')
    E.same(list(wf.indices_of(0)), keep[2], 'index list unchanged by the caller')
    E.same(wf.weight_of(0), len(keep[2]), 'weight unchanged by the caller')


@H(bounds='arrays that are not one-dimensional grid arrays')
def rejected(E):
    A = E.dt.arrays
    W = E.dt.coarray.WeightFunction1D
    d = E.real('d', pos=True)
    E.raises(ValueError, lambda: W(A.UniformRectangularArray(2, 2, d)), '2D grids are rejected')
    E.raises(ValueError, lambda: W(A.UniformCircularArray(3, d)), 'circular arrays are rejected')
    E.raises(ValueError, lambda: W(A.ArrayDesign([0, d], 'x')), 'arrays without a grid are rejected')
    E.same(W(A.UniformLinearArray(2, d)).weight_of(0), 2, 'grid arrays are accepted')
