"""C05 location differences and row de-duplication."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.coarray', 'utils.math']
ASSUMPTIONS = ['rows closer than the tolerance in every coordinate count as equal; tolerance = atol + rtol * largest absolute entry, as documented']


def close_rows(E, a, b, tol):
    """formula: every coordinate within tol"""
    r = True
    for u, v in zip(a, b):
        r = r & ((u - v <= tol) & (v - u <= tol))
    return r


def any_of(E, fs):
    r = False
    for f in fs:
        r = f | r
    return r


def check_unique(E, X, Y, tol, label):
    n, k = X.shape[0], Y.shape[0]
    E.same(Y.shape[1], X.shape[1], label + ': dimension kept')
    E.holds(k <= n, label + ': never more rows than given')
    for i in range(n):
        E.holds(any_of(E, [close_rows(E, X[i], Y[j], tol) for j in range(k)]), label + ': every row is represented')
    for j in range(k):
        E.holds(any_of(E, [close_rows(E, X[i], Y[j], 0) for i in range(n)]), label + ': every representative is an input row')
        for i in range(j):
            E.holds(~close_rows(E, Y[i], Y[j], tol), label + ': representatives differ by more than the tolerance')


def toler(E, X, atol, rtol):
    """bounds the largest absolute entry by naming it"""
    big = E.np.abs(X).max()
    return atol + rtol * big


@H(quick=grid(n=[1, 2, 3], d=[1, 2]) + [dict(n=2, d=3), dict(n=25, d=1), dict(n=12, d=3)], thorough=grid(n=[1, 2, 3, 4], d=[1, 2, 3]),
   bounds='1..3 (thorough 4) arbitrary real positions in 1..2 (3) dimensions; 25 positions in one and 12 in three dimensions')
def differences(E, n, d):
    X = E.rarr('x', (n, d), lo=-1000, hi=1000)
    D = E.dt.coarray.compute_location_differences(X)
    E.same(D.shape, (n * n, d), 'shape')
    E.eq(D, E.arr([[X[i, c] - X[j, c] for c in range(d)] for j in range(n) for i in range(n)]), 'row i + j*n is location i minus location j')


@H(quick=[dict(n=n, d=d, sort=s) for n, d in [(2, 2), (3, 1), (1, 1), (2, 1)] for s in (False, True)],
   thorough=[dict(n=n, d=d, sort=s) for n, d in [(3, 2), (4, 1), (2, 3)] for s in (False, True)],
   bounds='up to 3 (thorough 4) rows of arbitrary reals (in [-2000,2000] in one dimension, else [-3,3]) with tolerances 0 <= atol <= 1, default rtol; sorted and unsorted, with and without indices')
def unique(E, n, d, sort):
    UR = E.dt.math.unique_rows
    R = 2000 if d == 1 else 3
    X = E.rarr('x', (n, d), lo=-R, hi=R)
    atol = E.real('atol', 0, 1)
    Y, I = UR(X, atol=atol, return_index=True, sort=sort)
    k = Y.shape[0]
    E.same(len(I), k, 'one index per representative')
    for j in range(k):
        E.eq(Y[j], X[int(E.conc(I[j]))], 'indices point at the representatives')
    check_unique(E, X, Y, toler(E, X, atol, E.const(1e-8)), 'unique rows')
    if sort:
        for j in range(k - 1):
            lt, eq = False, True
            for c in range(d):
                lt = lt | (eq & (Y[j, c] < Y[j + 1, c]))
                eq = eq & (Y[j, c] == Y[j + 1, c])
            E.holds(lt | eq, 'sorted lexicographically')
    E.eq(UR(X, atol=atol, sort=sort), Y, 'same rows without indices')


@H(quick=[dict(n=3, d=2, sort=s) for s in (False, True)], thorough=[dict(n=3, d=3, sort=False)] + [dict(n=4, d=2, sort=s) for s in (False, True)],
   bounds='3 (thorough 4) rows on an arbitrary line in 2-3 dimensions (chains of near neighbours included), tolerances 0 <= atol <= 1')
def chain(E, n, d, sort):
    """neighbours of neighbours are not duplicates: only rows close to a kept row are dropped"""
    t = E.rarr('t', (n,), lo=-3, hi=3)
    dirs = [1, -2, 0.5]
    X = E.arr([[t[i] * dirs[c] + (c + 1) for c in range(d)] for i in range(n)])
    atol = E.real('atol', 0, 1)
    Y, I = E.dt.math.unique_rows(X, atol=atol, rtol=0, return_index=True, sort=sort)
    for j in range(Y.shape[0]):
        E.eq(Y[j], X[int(E.conc(I[j]))], 'indices point at the representatives')
    check_unique(E, X, Y, atol, 'rows in a chain')


@H(quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], bounds='2 (3) rows of one real, any tolerances 0 <= rtol <= 0.5, atol 0..1; positional tolerances')
def tolerances(E, n):
    X = E.rarr('x', (n, 1), lo=-1000, hi=1000)
    atol, rtol = E.real('atol', 0, 1), E.real('rtol', 0, 0.5)
    Y = E.dt.math.unique_rows(X, atol, rtol)
    check_unique(E, X, Y, toler(E, X, atol, rtol), 'unique rows')


@H(quick=[dict(n=1, d=1), dict(n=2, d=1), dict(n=2, d=2), dict(n=2, d=3)], thorough=[dict(n=3, d=1), dict(n=2, d=3)],
   bounds='2 (thorough 3 in 1D) arbitrary real positions in 1..3 dimensions, default tolerance')
def unique_differences(E, n, d):
    C = E.dt.coarray
    X = E.rarr('x', (n, d), lo=-1000, hi=1000)
    Y = C.compute_unique_location_differences(X)
    D = E.arr([[X[i, c] - X[j, c] for c in range(d)] for j in range(n) for i in range(n)])
    check_unique(E, D, Y, toler(E, D, 0, E.const(1e-8)), 'unique differences')


@H(quick=[dict(n=3, d=1), dict(n=3, d=2)], thorough=[dict(n=4, d=1), dict(n=3, d=2)],
   bounds='3 (thorough 4) integer positions in a box of side 3, in 1-2 dimensions')
def lattice(E, n, d):
    """exact count on lattices, where the tolerance cannot matter"""
    C = E.dt.coarray
    hi = 3 if d == 1 else 1
    P = [[E.conc(E.int('p%d_%d' % (i, c), 0, hi)) for c in range(d)] for i in range(n)]
    h = E.real('h', 0.5, 2)
    Y = C.compute_unique_location_differences(E.arr([[x * h for x in p] for p in P]))
    want = {tuple(a - b for a, b in zip(p, q)) for p in P for q in P}
    E.same(Y.shape[0], len(want), 'number of unique differences')
    for w in sorted(want):
        E.holds(any_of(E, [close_rows(E, Y[j], [x * h for x in w], 0) for j in range(Y.shape[0])]), 'every difference of the lattice is listed')


@H(bounds='non-matrix inputs; matrices with no rows')
def degenerate(E):
    UR = E.dt.math.unique_rows
    x = E.rarr('x', (3,))
    E.raises(ValueError, lambda: UR(x), 'vectors are rejected')
    E.same(UR(E.np.zeros((0, 2))).shape, (0, 2), 'empty input')


@H(quick=[dict(n=2, d=1), dict(n=2, d=2)], bounds='2 rows of 1-2 reals, the default tolerances, with and without indices and sorting')
def default_tolerances(E, n, d):
    UR = E.dt.math.unique_rows
    X = E.rarr('x', (n, d), lo=-1000, hi=1000)
    keep = X.copy()
    Y = UR(X)
    check_unique(E, X, Y, toler(E, X, 0, E.const(1e-8)), 'unique rows')
    E.same(UR(X, sort=True).shape, Y.shape, 'as many sorted rows')
    E.same(len(UR(X, return_index=True)[1]), Y.shape[0], 'one index per row')
    E.eq(X, keep, 'input unchanged')


@H(quick=[dict(sort=False), dict(sort=True)], bounds='four one- and two-dimensional sets of integer rows, any tolerance')
def integers(E, sort):
    import numpy as np
    X = E.choice('X', [[[0], [40], [41], [90]], [[-7], [7], [-6]], [[3, 1], [3, 2], [0, 9]], [[5, 5], [5, 5], [4, 6]]])
    rtol, atol = E.real('rtol', lo=0, hi=0.5), E.choice('atol', [0.0, 0.5])
    Z = E.arr([[E.const(v) for v in r] for r in X])
    Y = E.dt.math.unique_rows(np.array(X), atol, rtol, sort=sort)
    check_unique(E, Z, Y, toler(E, Z, atol, rtol), 'unique integer rows')
