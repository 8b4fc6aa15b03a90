"""C02 difference coarrays of the sparse designs, for a symbolic lag."""
from .base import *
import math

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.coarray', 'estimation.coarray']
ASSUMPTIONS = []


def member(E, x, vals):
    return (E.arr(sorted(vals)) == x).any() if len(vals) else (x != x)


def check(E, arr, need, label, exact=None):
    """every lag |l| <= need occurs; exact: nothing else does."""
    wf = E.dt.coarray.WeightFunction1D(arr)
    lag = E.int('lag', -need - 3, need + 3)
    D, W = wf.differences(), wf.weights()
    occurs = (D == lag).any()
    inside = (lag <= need) & (lag >= -need)
    if exact:
        E.holds(occurs == inside, label + ': a lag occurs exactly when |lag| <= %d' % need)
    else:
        E.holds(occurs | ~inside, label + ': every lag up to %d occurs' % need)
    E.holds((D == -lag).any() == occurs, label + ': coarray symmetric')
    pos = [int(E.conc(x)) for x in arr.element_indices[:, 0]]
    pairs = [x - y for x in pos for y in pos]
    ds = [int(E.conc(x)) for x in D]
    ws = [int(E.conc(x)) for x in W]
    E.same(sum(ws), arr.size ** 2, label + ': weights sum to the number of ordered pairs')
    for c in sorted(set(ws) | {pairs.count(x) for x in set(pairs)}):
        got = member(E, lag, [d for d, w in zip(ds, ws) if w == c])
        E.holds(got == member(E, lag, [x for x in set(pairs) if pairs.count(x) == c]), label + ': the lags of weight %d are those with that many ordered pairs' % c)
        E.holds(got == member(E, -lag, [d for d, w in zip(ds, ws) if w == c]), label + ': weights symmetric')
    if need <= 12:
        E.eq(E.arr([wf.weight_of(l) for l in range(-need - 3, need + 4)]), E.arr([pairs.count(l) for l in range(-need - 3, need + 4)]), label + ': weight of single lags')
    if exact:
        E.same(len(wf), 2 * need + 1, label + ': number of lags')
        E.eq(wf.differences(), E.arr(list(range(-need, need + 1))), label + ': list of lags')
    mv = int(E.conc(wf.get_central_ula_size(True)))
    E.same(int(E.conc(wf.get_central_ula_size(False))), 2 * mv - 1, label + ': central run length')
    E.same(int(E.conc(wf.get_central_ula_size())), 2 * mv - 1, label + ': central run length by default')
    if exact:
        E.same(mv, need + 1, label + ': non-negative central run')
    else:
        E.holds(mv >= need + 1, label + ': non-negative central run')
    E.eq(wf.weight_of(mv), 0, label + ': the lag after the central run is a hole')
    E.eq(wf.weight_of(-mv), 0, label + ': the lag before the central run is a hole')


@H(quick=grid(n1=[1, 2, 3, 4], n2=[1, 2, 3, 4]) + [dict(n1=9, n2=8), dict(n1=2, n2=15), dict(n1=14, n2=2), dict(n1=20, n2=19)], thorough=grid(n1=list(range(1, 8)), n2=list(range(1, 8))),
   bounds='nested arrays with 1..4 (thorough 1..7) elements per level, also 9 and 8, 2 and 15, 14 and 2, any spacing > 0, any integer lag (symbolic) up to 3 beyond the aperture')
def nested(E, n1, n2):
    d0 = E.real('d0', pos=True)
    check(E, E.dt.arrays.NestedArray(n1, n2, d0), n2 * (n1 + 1) - 1, 'nested', True)


PAIRS = [(m, n) for m in range(1, 6) for n in range(1, 8) if math.gcd(m, n) == 1]


@H(quick=[dict(p=p, mode=mode) for p in PAIRS if max(p) <= 5 for mode in ('m', '2m')] + grid(p=[(3, 2), (2, 3), (4, 3)], mode=['M', '2M']) + grid(p=[(8, 9), (7, 5), (2, 13), (15, 17)], mode=['m', '2m']),
   thorough=[dict(p=p, mode=mode) for p in PAIRS for mode in ('m', '2m')],
   bounds='all co-prime pairs up to 5 (thorough up to 5 x 7), also 8 and 9, 7 and 5, 2 and 13, 15 and 17, in both orders and modes (also in upper case), any spacing > 0, any integer lag (symbolic)')
def coprime(E, p, mode):
    d0 = E.real('d0', pos=True)
    m, n = min(p), max(p)
    given, mode = mode, mode.lower()
    need = m * n + m - 1 if mode == '2m' else m + n - 1
    if m == 1 and mode == 'm':
        need = n - 1
    check(E, E.dt.arrays.CoPrimeArray(p[0], p[1], d0, mode=given), need, 'co-prime ' + mode)


@H(quick=grid(n=list(range(1, 21))), bounds='all 20 minimum redundancy presets, any spacing > 0, any integer lag (symbolic)')
def mrla(E, n):
    APERTURE = [0, 1, 3, 6, 9, 13, 17, 23, 29, 35, 41, 49, 57, 65, 73, 83, 93, 103, 113, 125]
    d0 = E.real('d0', pos=True)
    check(E, E.dt.arrays.MinimumRedundancyLinearArray(n, d0), APERTURE[n - 1], 'minimum redundancy', True)


@H(quick=grid(n=[1, 2, 3, 5, 8, 40]), bounds='uniform linear arrays of 1..8 and 40 elements, any spacing, any lag')
def ula(E, n):
    d0 = E.real('d0', pos=True)
    arr = E.dt.arrays.UniformLinearArray(n, d0)
    check(E, arr, n - 1, 'uniform', True)
    wf = E.dt.coarray.WeightFunction1D(arr)
    E.eq(wf.weights(), E.arr([n - abs(l) for l in range(-n + 1, n)]), 'uniform: weight n - |lag|')
