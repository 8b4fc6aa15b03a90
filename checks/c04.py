"""C04 coarray selection matrix."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.coarray']
ASSUMPTIONS = []


def vec(E, R):
    """column stacking, written independently of the library"""
    n = R.shape[0]
    return [R[p % n, p // n] for p in range(n * n)]


def spec(E, idx, R, lags):
    out = []
    n = len(idx)
    for l in lags:
        sel = [R[i, j] for j in range(n) for i in range(n) if idx[i] - idx[j] == l]
        out.append(sum(sel) / len(sel))
    return E.arr(out)


def check(E, arr, pos, label):
    n = len(pos)
    wf = E.dt.coarray.WeightFunction1D(arr)
    R = E.carr('R', (n, n))
    v = E.arr(vec(E, R))
    mv = 0
    diffs = {a - b for a in pos for b in pos}
    while mv in diffs:
        mv += 1
    F = wf.get_coarray_selection_matrix()
    E.same(F.shape, (2 * mv - 1, n * n), label + ': shape')
    E.eq(F @ v, spec(E, pos, R, range(-mv + 1, mv)), label + ': mean of exactly the entries of each lag, increasing lag')
    E.eq(F.sum(axis=1), E.np.ones((2 * mv - 1,)), label + ': weights of a lag sum to one')
    Fp = wf.get_coarray_selection_matrix(True)
    E.same(Fp.shape, (mv, n * n), label + ': shape of the non-negative half')
    E.eq(Fp @ v, spec(E, pos, R, range(0, mv)), label + ': non-negative half')
    for i in range(2):
        E.same((int(E.conc(wf.get_central_ula_size())), int(E.conc(wf.get_central_ula_size(True))), int(E.conc(wf.get_central_ula_size(False)))), (2 * mv - 1, mv, 2 * mv - 1), label + ': repeated query of the size')
        E.eq(wf.get_coarray_selection_matrix(exclude_negative_part=False), F, label + ': repeated query')


@H(quick=grid(n=[1, 2, 3]), thorough=grid(n=[1, 2, 3, 4]),
   bounds='1..3 (thorough 4) elements with any integer indices in -2..4 (0..4 for 3 elements, 0..3 for 4), any order, any complex covariance matrix')
def arbitrary(E, n):
    lo, hi = (-2, 4) if n < 3 else (0, 4) if n < 4 else (0, 3)
    pos = [E.conc(E.int('i%d' % k, lo, hi)) for k in range(n)]
    arr = E.dt.arrays.GridBasedArrayDesign(E.np.array([[x] for x in pos]), 1.0, 'g')
    check(E, arr, pos, 'any geometry')


@H(quick=grid(kind=['ula4', 'nested22', 'coprime23', 'coprime23m', 'mrla4', 'mrla5', 'holes', 'golomb', 'ula12', 'nested45']),
   thorough=grid(kind=['ula4', 'ula7', 'nested22', 'nested33', 'coprime23', 'coprime23m', 'coprime34', 'mrla4', 'mrla5', 'mrla8']),
   bounds='named sparse designs, any spacing > 0, any complex covariance matrix')
def designs(E, kind):
    A = E.dt.arrays
    d = E.real('d0', pos=True)
    G = lambda x: A.GridBasedArrayDesign(E.np.array([[i] for i in x]), d, 'g')
    arr = {'holes': lambda: G([0, 1, 10, 30, 31]), 'golomb': lambda: G([11, 0, 9, 4, 1]), 'ula4': lambda: A.UniformLinearArray(4, d), 'ula7': lambda: A.UniformLinearArray(7, d), 'ula12': lambda: A.UniformLinearArray(12, d), 'nested45': lambda: A.NestedArray(4, 5, d),
           'nested22': lambda: A.NestedArray(2, 2, d), 'nested33': lambda: A.NestedArray(3, 3, d),
           'coprime23': lambda: A.CoPrimeArray(2, 3, d), 'coprime23m': lambda: A.CoPrimeArray(2, 3, d, mode='m'),
           'coprime34': lambda: A.CoPrimeArray(3, 4, d), 'mrla4': lambda: A.MinimumRedundancyLinearArray(4, d),
           'mrla5': lambda: A.MinimumRedundancyLinearArray(5, d), 'mrla8': lambda: A.MinimumRedundancyLinearArray(8, d)}[kind]()
    check(E, arr, [int(E.conc(x)) for x in arr.element_indices[:, 0]], kind)


@H(quick=grid(kind=['ula4', 'holes', 'nested22']), bounds='named designs; every result is overwritten by the caller before the next query; any complex covariance matrix')
def overwritten(E, kind):
    pos = {'ula4': [0, 1, 2, 3], 'holes': [0, 1, 3, 9], 'nested22': [0, 1, 2, 5]}[kind]
    n = len(pos)
    wf = E.dt.coarray.WeightFunction1D(E.dt.arrays.GridBasedArrayDesign(E.np.array([[i] for i in pos]), 0.5, 'g'))
    diffs = [a - b for a in pos for b in pos]
    mv = 0
    while mv in diffs:
        mv += 1
    R = E.carr('R', (n, n))
    v = E.arr(vec(E, R))
    for i in range(3):
        for half in (False, True):
            F = wf.get_coarray_selection_matrix(half)
            E.eq(F @ v, spec(E, pos, R, range(0 if half else -mv + 1, mv)), 'query %d' % (i + 1))
            F *= 0
        D, W = wf.differences(), wf.weights()
        E.same([int(E.conc(x)) for x in D], sorted(set(diffs)), 'differences')
        E.same([int(E.conc(x)) for x in W], [diffs.count(x) for x in sorted(set(diffs))], 'weights')
        for x in (D, W):
            try:
                x[0] = 77
            except ValueError:
                pass    # read-only results are fine
        ix = wf.indices_of(1)
        E.same(sorted(int(E.conc(x)) for x in ix), sorted(q * n + p for p in range(n) for q in range(n) if pos[p] - pos[q] == 1), 'entries of a lag')
        ix = ix if isinstance(ix, list) else None
        if ix:
            del ix[:]


@H(quick=grid(kind=['nested22', 'coprime23', 'mrla4']), bounds='any two uncorrelated sources (any sines), any powers and noise level, any spacing and wavelength')
def stationary(E, kind):
    """exact covariance of uncorrelated sources -> virtual uniform array measurement"""
    A = E.dt.arrays
    d, wl = E.real('d0', pos=True), E.real('wl', pos=True)
    arr = {'nested22': lambda: A.NestedArray(2, 2, d), 'coprime23': lambda: A.CoPrimeArray(2, 3, d),
           'mrla4': lambda: A.MinimumRedundancyLinearArray(4, d)}[kind]()
    s = E.rarr('s', (2,), lo=-1, hi=1, strict=True)
    src = E.dt.sources.FarField1DSourcePlacement(s, 'sin')
    p = E.rarr('p', (2,), pos=True)
    sg = E.real('sg', pos=True)
    S = arr.steering_matrix(src, wl)
    R = (S * p) @ S.conj().T + sg * E.np.eye(arr.size)
    wf = E.dt.coarray.WeightFunction1D(arr)
    F = wf.get_coarray_selection_matrix()
    mv = (F.shape[0] + 1) // 2
    z = F @ E.arr(vec(E, R))
    ref = [sum(p[k] * expj(E, 2 * E.pi / wl * d * l * s[k]) for k in range(2)) + (sg if l == 0 else 0) for l in range(-mv + 1, mv)]
    E.eq(z, E.arr(ref), 'virtual measurement')
