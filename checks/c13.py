"""C13 subsets of source placements."""
import numpy as np

from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.sources']
ASSUMPTIONS = ['writing through .locations of the original is outside (documented as discouraged)']


def make(E, kind, k):
    S = E.dt.sources
    if kind == 'nf':
        return S.NearField2DSourcePlacement(E.rarr('x', (k, 2), lo=-9, hi=9)), ('m', 'm')
    if kind == 'ff2':
        return S.FarField2DSourcePlacement(E.rarr('x', (k, 2), lo=-1, hi=1), 'deg'), ('deg', 'deg')
    u = kind[4:]
    return S.FarField1DSourcePlacement(E.rarr('x', (k,), lo=-1, hi=1, strict=True), u), (u,)


def rows(x, idx):
    return [x[i] for i in idx]


def flat(E, x):
    return E.arr([v for v in (x.reshape(-1) if hasattr(x, 'reshape') else [x])])


def check_subset(E, s, keep, units, sub, idx, label):
    k = keep.shape[0]
    E.same(type(sub).__name__, type(s).__name__, label + ': kind')
    E.same(sub.units, units, label + ': unit')
    E.same((len(sub), sub.size, sub.locations.shape), (len(idx), len(idx), (len(idx),) + keep.shape[1:]), label + ': size')
    E.same(sub.is_far_field, s.is_far_field, label + ': far or near field')
    if idx:
        E.eq(sub.locations, E.arr([keep[i] for i in idx]), label + ': exactly the selected locations in order')
        # independence: change the subset, original stays; original steering unaffected
        sub.locations[...] = E.const(99) if E.sym else 99.0
    E.eq(s.locations, keep, label + ': changing the subset leaves the original unchanged')
    E.same((len(s), s.units), (k, units), label + ': original kept')


KINDS = ['ff1-rad', 'ff1-deg', 'ff1-sin', 'ff2', 'nf']


@H(quick=grid(kind=KINDS) + grid(kind=KINDS, k=[20]), bounds='3 (20) sources, every integer index from -4 to 3 (-21 to 20)')
def scalar(E, kind, k=3):
    s, units = make(E, kind, k)
    keep = E.arr(s.locations.copy())
    i = E.conc(E.int('i', -k - 1, k))
    if -k <= i < k:
        E.eq(flat(E, s[i]), flat(E, keep[i]), 'location of one source')
        E.eq(flat(E, s[np.int64(i)]), flat(E, keep[i]), 'location of one source, numpy index')
    else:
        E.raises(IndexError, lambda: s[i], 'index out of range')
    E.same(len([1 for _ in s]), k, 'iteration yields every source')
    for a, b in zip(s, range(k)):
        E.eq(flat(E, a), flat(E, keep[b]), 'iteration order')


@H(quick=grid(kind=KINDS, step=[None, 1, 2, -1]), thorough=grid(kind=KINDS, step=[None, 1, 2, 3, -1, -2], k=[1, 3, 4]), bounds='3 (thorough 1, 3, 4) sources, start and stop from -4 to 4 or missing, steps 1, 2, -1')
def slices(E, kind, step, k=3):
    s, units = make(E, kind, k)
    keep = E.arr(s.locations.copy())
    a, b = E.conc(E.int('a', -k - 1, k + 1)), E.conc(E.int('b', -k - 2, k + 1))
    a = None if a == -k - 1 else a
    b = None if b == -k - 2 else b
    sl = slice(a, b, step)
    check_subset(E, s, keep, units, s[sl], list(range(k))[sl], 'slice')


@H(quick=grid(kind=KINDS, form=['list', 'array'], n=[1, 2]), thorough=grid(kind=KINDS, form=['list', 'array'], n=[0, 1, 2, 3]), bounds='3 sources, index lists and arrays of 1 or 2 (thorough 0..3) entries from -3 to 2 in any order with repetitions')
def indices(E, kind, form, n, k=3):
    s, units = make(E, kind, k)
    keep = E.arr(s.locations.copy())
    idx = [E.conc(E.int('i%d' % j, -k, k - 1)) for j in range(n)]
    key = list(idx) if form == 'list' else E.np.array(idx, dtype=int)
    check_subset(E, s, keep, units, s[key], idx, 'index ' + form)


@H(quick=grid(kind=KINDS, form=['list', 'array']), bounds='3 sources, every Boolean mask')
def masks(E, kind, form, k=3):
    s, units = make(E, kind, k)
    keep = E.arr(s.locations.copy())
    m = [bool(E.choice('m%d' % j, [False, True])) for j in range(k)]
    key = list(m) if form == 'list' else E.np.array(m)
    check_subset(E, s, keep, units, s[key], [i for i in range(k) if m[i]], 'mask')


@H(quick=grid(kind=KINDS), bounds='3 sources, chained subsets')
def chained(E, kind):
    s, units = make(E, kind, 3)
    keep = E.arr(s.locations.copy())
    a = s[:]
    b = a[[2, 0]]
    c = b[1:]
    E.eq(c.locations, E.arr([keep[0]]), 'subset of a subset')
    c.locations[...] = E.const(99) if E.sym else 99.0
    E.eq(b.locations, E.arr([keep[2], keep[0]]), 'changing a subset of a subset leaves the first subset unchanged')
    E.eq(a.locations, keep, 'and the full copy')
    a.locations[...] = E.const(98) if E.sym else 98.0
    E.eq(s.locations, keep, 'a full copy does not alias the original')


@H(quick=grid(kind=KINDS), bounds='two-dimensional index arrays and unsupported keys')
def rejected(E, kind):
    s, units = make(E, kind, 3)
    E.raises(ValueError, lambda: s[E.np.array([[0, 1], [1, 0]])], 'two-dimensional index array')
    E.raises(KeyError, lambda: s[(0, 1)], 'tuple key')
    E.raises(KeyError, lambda: s[None], 'None key')
    E.raises((KeyError, IndexError), lambda: s['a'], 'string key') if kind == '' else None


@H(quick=grid(kind=KINDS, key=['slice', 'list', 'mask', 'all']), bounds='3 sources on 2 sensors: delays and coordinates of a subset taken after those of the original were computed')
def derived(E, kind, key):
    s, units = make(E, kind, 3)
    keep = E.arr(s.locations.copy())
    loc = E.rarr('l', (2, 2), lo=-1, hi=1)

    def use(x):
        out = [x.phase_delay_matrix(loc, 1.0)] + list(x.calc_spherical_coords(loc))[0 if kind == 'nf' else 1:]
        return out + (list(x.phase_delay_matrix(loc, 1.0, True))[1:] if kind[:3] == 'ff1' else [])
    full = use(s)
    k, idx = {'slice': (slice(1, None), [1, 2]), 'list': ([2, 0], [2, 0]), 'mask': (E.np.array([False, True, False]), [1]), 'all': (slice(None), [0, 1, 2])}[key]
    sub = s[k]
    for a, b in zip(use(sub), full):
        E.same(tuple(a.shape), (2, len(idx)), 'one column per selected source')
        E.eq(a, E.arr([[b[i, j] for j in idx] for i in range(2)]), 'columns of the selected sources')
    other = E.rarr('y', (len(idx),) + keep.shape[1:], lo=0.1, hi=0.5)
    sub.locations[...] = other
    fresh = {'nf': lambda: E.dt.sources.NearField2DSourcePlacement(other), 'ff2': lambda: E.dt.sources.FarField2DSourcePlacement(other, 'deg')}.get(kind, lambda: E.dt.sources.FarField1DSourcePlacement(other, kind[4:]))()
    for a, b in zip(use(sub), use(fresh)):
        E.eq(a, b, 'a subset moved afterwards')
    for a, b in zip(use(s), full):
        E.eq(a, b, 'original unchanged')
