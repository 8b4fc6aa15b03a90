"""C36 formats of source powers, return modes."""
import numpy as np

from .base import *
from .c33 import noise
from .c35 import reference as coarray_reference

H = Suite()
HARNESSES = H.list
WARM = ['performance.crb', 'performance.mse']
ASSUMPTIONS = ['matrices that are inverted are regular; matrix inverses larger than the explicit size are uninterpreted']
FNS = ['sto', 'stouc', 'det', 'music', 'coarray']


def function(E, fn):
    return {'sto': lambda: E.dt.crb.crb_sto_farfield_1d, 'stouc': lambda: E.dt.crb.crb_stouc_farfield_1d, 'det': lambda: E.dt.crb.crb_det_farfield_1d,
            'music': lambda: E.dt.mse.ecov_music_1d, 'coarray': lambda: E.dt.mse.ecov_coarray_music_1d}[fn]()


def scene(E, fn, k, p=None):
    """k sources on k + 1 elements; (call(power, **kw))"""
    f = function(E, fn)
    s2, N = noise(E)
    if k == 1:
        d, wl = E.real('d', lo=0.2, hi=0.5), E.real('wl', lo=1, hi=2)
        t = E.real('t', lo=-0.9, hi=0.9)
        T, S = [t], E.arr([t])
    else:
        d, wl, T = E.const(0.5), E.const(1.0), [E.const(x) for x in [0.0, 0.5, -0.5][:k]]
        S = [0.0, 0.5, -0.5][:k]
    a = E.dt.arrays.UniformLinearArray(k + 1, d)
    s = E.dt.sources.FarField1DSourcePlacement(S, 'sin')
    if fn == 'coarray' and p is not None:
        coarray_reference(E, list(range(k + 1)), T, d, wl, p, s2, N, 'sin')
    return lambda q, n=True, **kw: f(a, s, wl, q, s2, N, **kw)


def diag(E, v):
    n = len(v)
    return E.arr([[v[i] if i == j else 0 * v[0] for j in range(n)] for i in range(n)])


@H(quick=grid(fn=['sto', 'stouc', 'music', 'coarray'], k=[1, 2]) + grid(fn=['stouc', 'music', 'coarray'], k=[3]), thorough=grid(fn=['sto'], k=[3]),
   bounds='one source in any direction on any uniform pair, two and three sources at fixed directions; equal and different powers')
def formats(E, fn, k):
    v = [E.real('p%d' % i, lo=0.2, hi=3) for i in range(k)]
    call = scene(E, fn, k, v)
    C = call(diag(E, v))
    E.eq(call(E.arr(v)), C, 'vector and matrix')
    E.eq(call(list(v)), C, 'list and matrix')


@H(quick=grid(fn=['sto', 'stouc', 'music', 'coarray'], k=[1, 2]) + grid(fn=['stouc', 'music', 'coarray'], k=[3]), bounds='a scalar, of type float or numpy float')
def scalar(E, fn, k):
    p = E.real('p', lo=0.2, hi=3)
    call = scene(E, fn, k, [p] * k)
    C = call(diag(E, [p] * k))
    E.same(tuple(C.shape), (k, k), 'one row per source')
    E.eq(call(p), C, 'scalar and matrix')
    if not E.sym:
        E.eq(call(np.float64(p)), C, 'numpy scalar', validate=False)


@H(quick=grid(fn=['sto', 'stouc', 'music', 'coarray'], k=[1, 2]), bounds='integer powers 1-3 in every format')
def integers(E, fn, k):
    p = E.choice('p', [1, 3, 20, 300])
    v = [p] * k
    call = scene(E, fn, k, [E.const(float(p))] * k)
    C = call(np.diag(np.array(v, dtype=float)))
    for what, q in (('int', p), ('numpy int', np.int64(p)), ('list', v), ('array', np.array(v)), ('matrix', np.diag(v))):
        E.eq(call(q), C, '%s of integers' % what)


@H(quick=grid(fn=['stouc', 'coarray'], k=[2, 3]), bounds='any complex off-diagonal entries')
def offdiag(E, fn, k):
    v = [E.real('p%d' % i, lo=0.2, hi=3) for i in range(k)]
    call = scene(E, fn, k, v)
    M = E.arr([[v[i] if i == j else E.real('o%d%d' % (i, j), lo=-1, hi=1) for j in range(k)] for i in range(k)])
    E.eq(call(M), call(E.arr(v)), 'only the diagonal is used')


@H(quick=grid(fn=FNS, k=[1, 2]) + grid(fn=['det', 'music', 'coarray'], k=[3]), bounds='any powers')
def modes(E, fn, k):
    v = [E.real('p%d' % i, lo=0.2, hi=3) for i in range(k)]
    call = scene(E, fn, k, v)
    M = diag(E, v)
    C = call(M)
    E.same(tuple(C.shape), (k, k), 'full')
    E.eq(call(M, return_mode='full'), C, 'full by default')
    D = call(M, return_mode='diag')
    E.same(tuple(D.shape), (k,), 'one entry per source')
    E.eq(D, [C[i, i] for i in range(k)], 'diagonal')
    m = call(M, return_mode='mean_diag')
    E.same(tuple(E.np.shape(m)), (), 'a scalar')
    E.eq(m, sum([C[i, i] for i in range(k)][1:], C[0, 0]) / k, 'mean of the diagonal')
    bad = E.choice('bad', ['Full', 'mean', 'diagonal', '', None])
    E.raises(ValueError, lambda: call(M, return_mode=bad), 'other modes')


@H(quick=grid(fn=FNS, k=[1, 2, 3]), bounds='all vectors of up to five and matrices of up to four rows and columns of another size, also three-dimensional')
def sizes(E, fn, k):
    v = [E.const(1.0)] * k
    call = scene(E, fn, k, v)
    shapes = [(n,) for n in range(0, 6) if n != k] + [(i, j) for i in range(0, 5) for j in range(0, 5) if (i, j) != (k, k)] + [(k, k, k), (1, k, k), (k, 1, 1)]
    sh = E.choice('shape', shapes)
    E.raises(ValueError, lambda: call(E.rarr('q', sh, lo=0.2, hi=3)), 'wrong size')
    if len(sh) == 1 and fn != 'det':
        E.raises(ValueError, lambda: call(list(E.rarr('q', sh, lo=0.2, hi=3))), 'list of the wrong size')


@H(quick=grid(k=[1, 2, 3, 4, 12], n=[2]), bounds='the conversions themselves, one to four and twelve sources')
def conversions(E, k, n):
    U = E.dt.putils
    v = [E.real('p%d' % i) for i in range(k)]
    M = E.arr([[E.real('m%d%d' % (i, j)) for j in range(k)] for i in range(k)])
    s = E.real('s')
    E.eq(U.unify_p_to_matrix(s, k), diag(E, [s] * k), 'scalar to matrix')
    E.eq(U.unify_p_to_vector(s, k), [s] * k, 'scalar to vector')
    for q in (list(v), E.arr(v)):
        E.eq(U.unify_p_to_matrix(q, k), diag(E, v), 'vector to matrix')
        E.eq(U.unify_p_to_vector(q, k), v, 'vector to vector')
    E.eq(U.unify_p_to_matrix(M, k), M, 'matrix to matrix')
    E.eq(U.unify_p_to_vector(M, k), [M[i, i] for i in range(k)], 'matrix to vector')
    E.eq(U.reduce_output_matrix(M, 'full'), M, 'full')
    E.eq(U.reduce_output_matrix(M, 'diag'), [M[i, i] for i in range(k)], 'diag')
    E.eq(U.reduce_output_matrix(M, 'mean_diag'), sum([M[i, i] for i in range(k)][1:], M[0, 0]) / k, 'mean_diag')
    sh = E.choice('shape', [(n,) for n in range(0, 6) if n != k] + [(i, j) for i in range(1, 5) for j in range(1, 5) if (i, j) != (k, k)] + [(k, k, k), (k, 1, 1)])
    q = E.rarr('q', sh, lo=0.2, hi=3)
    E.raises(ValueError, lambda: U.unify_p_to_matrix(q, k), 'wrong size')
    E.raises(ValueError, lambda: U.unify_p_to_vector(q, k), 'wrong size')
