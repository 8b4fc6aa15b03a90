"""C19 linear-algebra helpers."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['utils.math']
ASSUMPTIONS = ['numpy.linalg.solve is the exact solution of a nonsingular system; numpy.linalg.pinv is the Moore-Penrose inverse of a full-rank matrix']


def mat(E, kind, name, shape):
    return E.carr(name, shape) if kind == 'c' else E.rarr(name, shape)


@H(quick=grid(a=['r', 'c'], b=['r', 'c']) + grid(a=['r', 'c'], b=['c'], n1=[9], n2=[8], k=[7]) + [dict(a='c', b='r', n1=2, n2=2, k=40)], thorough=grid(a=['r', 'c'], b=['r', 'c'], n1=[1, 2, 3], n2=[1, 3], k=[1, 2, 3]), bounds='2x2 and 3x2, 9x7 and 8x7, 2x40 (thorough 1..3 rows, 1..3 columns) real and complex matrices')
def khatri_rao(E, a, b, n1=2, n2=3, k=2):
    A, B = mat(E, a, 'a', (n1, k)), mat(E, b, 'b', (n2, k))
    C = E.dt.math.khatri_rao(A, B)
    E.eq(C, E.arr([[A[i, c] * B[j, c] for c in range(k)] for i in range(n1) for j in range(n2)]), 'column-wise Kronecker product')
    E.raises(ValueError, lambda: E.dt.math.khatri_rao(A, mat(E, b, 'x', (n2, k + 1))), 'different numbers of columns are rejected')


@H(quick=grid(kind=['r', 'c'], n=[1, 2, 3], m=[1, 2, 3]) + grid(kind=['r', 'c'], n=[12], m=[20]), bounds='all matrices up to 3 by 3; 12 by 20')
def stacking(E, kind, n, m):
    A = mat(E, kind, 'a', (n, m))
    keep = E.arr(A.copy())
    v = E.dt.math.vec(A)
    E.eq(v, E.arr([[keep[i, c]] for c in range(m) for i in range(n)]), 'columns on top of each other')
    q = E.dt.math.abs_squared(A)
    E.eq(q, E.arr([[(keep[i, c] * keep[i, c].conjugate()).real for c in range(m)] for i in range(n)]), 'squared magnitude')
    E.eq(A, keep, 'input unchanged')


@H(quick=[{}], bounds='2x2, 2x3 and 3x2 complex matrices')
def vec_identity(E):
    A, X, B = E.carr('a', (2, 2)), E.carr('x', (2, 3)), E.carr('b', (3, 2))
    v = E.dt.math.vec
    K = E.dt.math.khatri_rao
    E.eq(v(A @ X @ B), E.np.kron(B.T, A) @ v(X), 'vec(AXB) = (B^T kron A) vec(X)')
    p = E.carr('p', (2,))
    E.eq(v((A * p) @ A.conj().T), K(A.conj(), A) @ p.reshape((2, 1)), 'vec(A diag(p) A^H) = (conj(A) khatri-rao A) p')


@H(quick=grid(n=[[1], [3], [2, 2], [1, 3], [3, 2], [2, 1, 2], [2, 2, 2], [1, 1, 1], [60], [11, 17], [20, 6], [4, 5, 6], [2, 3, 2, 2], [2, 1, 3, 2, 2]]), thorough=grid(n=[[4, 3], [3, 3, 3], [2, 2, 2, 2], [1, 4, 2]]), bounds='up to 3 (thorough 4) axes of up to 3 (4) values, up to 60 on one, 20 on two and 6 on three axes; a few on four and five')
def cartesian(E, n):
    ax = [E.rarr('x%d' % i, (m,)) for i, m in enumerate(n)]
    C = E.dt.math.cartesian(*ax)
    rows = [[]]
    for a in ax:
        rows = [r + [a[i]] for r in rows for i in range(a.shape[0])]
    E.eq(C, E.arr(rows), 'every combination once, the last axis varies fastest')


def column_rank(E, A, n, k):
    """assume full column rank through the Gram determinant"""
    G = A.conj().T @ A
    det = {1: lambda: G[0, 0], 2: lambda: G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]}[k]()
    E.assume(det.real > 0.01)


@H(quick=grid(kind=['r', 'c'], shape=[(2, 1), (3, 1), (2, 2), (3, 2)], pinv=[False, True]), bounds='all full column rank matrices up to 3 by 2')
def projection(E, kind, shape, pinv):
    n, k = shape
    A = mat(E, kind, 'a', (n, k))
    column_rank(E, A, n, k)
    keep = E.arr(A.copy())
    P = E.dt.math.projm(A, pinv) if pinv else E.dt.math.projm(A)
    E.same(tuple(P.shape), (n, n), 'square')
    E.eq(P @ keep, keep, 'keeps the range', atol=1e-6)
    E.eq(P, P.conj().T, 'Hermitian', atol=1e-6)
    E.eq(P @ P, P, 'idempotent', atol=1e-6)
    z = E.carr('z', (n,))
    # rank: trace of an orthogonal projector
    E.eq(sum(P[i, i] for i in range(n)), E.const(k) + 0 * P[0, 0], 'rank equals the number of columns', atol=1e-6)
    E.eq(A, keep, 'input unchanged')


@H(quick=grid(swap=[False, True]), bounds='an axis of 2 integers and one of 3 reals')
def cartesian_types(E, swap):
    import numpy as np
    u, x = E.choice('u', [[1, 2], [-5, 0]]), E.rarr('x', (3,))
    ax = [np.array(u), x]
    rows = [[E.const(float(i)), v] for i in u for v in x] if not swap else [[v, E.const(float(i))] for v in x for i in u]
    E.eq(E.dt.math.cartesian(*(ax[::-1] if swap else ax)), E.arr(rows), 'integers and reals')


@H(quick=grid(pinv=[False, True], cx=[False, True]), bounds='6 by 5 matrices whose columns do not overlap and are between 1e-2 and 1e2 long, and repeated in a rotated order')
def projection_scaled(E, pinv, cx):
    s = [E.real('s%d' % i, lo=lo, hi=hi) for i, (lo, hi) in enumerate([(0.01, 0.02), (1, 2), (50, 100), (0.5, 1), (5, 9)])]
    rows = [[E.const(0.0)] * 5 for _ in range(6)]
    for i in range(5):
        rows[i + 1][(2 * i) % 5] = s[i] * (E.j if cx and i % 2 else 1)
    rows[0][0] = s[0]
    A = E.arr(rows)
    P = E.dt.math.projm(A, pinv) if pinv else E.dt.math.projm(A)
    keep = E.arr(rows)
    E.eq((P @ keep)[:, 0] / s[0], keep[:, 0] / s[0], 'keeps the range', atol=1e-6)
    for i in range(1, 5):
        E.eq((P @ keep)[:, (2 * i) % 5] / s[i], keep[:, (2 * i) % 5] / s[i], 'keeps the range', atol=1e-6)
    E.eq(P, P.conj().T, 'Hermitian', atol=1e-6)
    E.eq(sum(P[i, i] for i in range(6)), E.const(5.0) + 0 * P[0, 0], 'rank equals the number of columns', atol=1e-6)
