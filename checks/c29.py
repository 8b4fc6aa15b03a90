"""C29 source-number detection."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.source_number']
ASSUMPTIONS = ['logarithms are those of exact positive reals',
               'SORTE: the variances of the eigenvalue gaps are away from zero (or exactly zero)']


def eigs(E, n, scale=None, lo=0.1):
    v = [E.real('l%d' % i, lo=lo, hi=3) for i in range(n)]
    for i in range(1, n):
        E.assume(v[i - 1] + 0.001 < v[i])
    return v


def stat(E, l, i, N):
    n = len(l)
    d = n - i
    s = l[0]
    for x in l[1:d]:
        s = s + x
    r = d * E.np.log(s / d)
    for x in l[:d]:
        r = r - E.np.log(x)
    return N * r


def crits(E, name, l, N):
    n = len(l)
    if name == 'aic':
        return [stat(E, l, i, N) + i * (2 * n - i) for i in range(n)]
    return [stat(E, l, i, N) + (i * (2 * n - i) + 1) * E.np.log(N) / 2 for i in range(n)]


@H(quick=grid(name=['aic', 'mdl'], n=[1, 2, 3, 4], N=[1, 10, 'any']), thorough=grid(name=['aic', 'mdl'], n=[2, 3, 5, 6], N=[2, 100, 'any']),
   bounds='1-4 (6) positive eigenvalues in ascending order, 1, 10 (2, 100) or any number of snapshots')
def criteria(E, name, n, N):
    l = eigs(E, n)
    N = E.real('N', lo=2, hi=500) if N == 'any' else N
    x = E.arr(l)
    r = getattr(E.dt.source_number, name)(x, N)
    c = crits(E, name, l, N)
    r = E.conc(r)
    E.same(0 <= r < n, True, 'admissible number of sources')
    for j in range(n):
        E.holds(c[r] <= c[j] + (0 if E.sym else 1e-7), 'the number of sources minimises the criterion')
    E.eq(x, E.arr(l), 'eigenvalues unchanged')


@H(quick=grid(n=[2, 3], i=[0, 1]) + grid(n=[12], i=[0, 2, 9, 11]), thorough=grid(n=[4, 5], i=[0, 1, 2, 3]) + grid(n=[20], i=[1, 7]), bounds='the sufficient statistic of 2-3 and 12 (4-5, 20) eigenvalues, any snapshots')
def statistic(E, n, i):
    l = eigs(E, n)
    N = E.real('N', lo=1, hi=500)
    E.eq(E.dt.source_number.ld_stat(E.arr(l), i, N), stat(E, l, i, N), 'log ratio of the arithmetic and geometric mean of the smallest eigenvalues')
    E.raises(ValueError, lambda: E.dt.source_number.ld_stat(E.arr([l]), i, N), 'only vectors')


@H(quick=grid(name=['aic', 'mdl'], n=[2, 3]), bounds='2-3 eigenvalues in units from 1e-25 to 1e3')
def scale(E, name, n):
    l = eigs(E, n)
    c = E.real('c', lo=1, hi=8) * E.choice('unit', [1.0, 1e3, 1e-6, 1e-15, 1e-25])
    N = 50
    f = getattr(E.dt.source_number, name)
    x = E.arr(l)
    a = E.conc(f(x, N))
    E.eq(x, E.arr(l), 'eigenvalues unchanged')
    b = E.conc(f(E.arr([c * v for v in l]), N))
    E.same(a, b, 'the scale of the eigenvalues does not matter')


def ladder(E, n):
    v = [E.real('l0', lo=0.1, hi=1)]
    for i in range(1, n):
        v.append(v[-1] + E.real('s%d' % i, lo=0.01, hi=2))
    return v


def var(x):
    n = len(x)
    m = sum(x[1:], x[0]) / n
    t = [(y - m) * (y - m) for y in x]
    return sum(t[1:], t[0]) / n


@H(quick=grid(n=[4, 5]), thorough=grid(n=[4, 5, 6]), bounds='4-5 (6) ascending eigenvalues at any overall scale from 1e-12 to 1e6')
def gap(E, n):
    """SORTE(k) = var(gaps after k) / var(gaps from k); its minimiser over k = 1..n-3"""
    l = ladder(E, n)
    c = E.choice('c', [1.0, 1e-12, 1e-8, 1e-3, 1e6])
    x = E.arr([c * v for v in l])
    desc = l[::-1]
    g = [desc[i] - desc[i + 1] for i in range(n - 1)]
    sg = [var(g[k:]) for k in range(n - 1)]
    for k in range(n - 2):
        E.assume(sg[k] > 1e-4)
    r = E.conc(E.dt.source_number.sorte(x))
    E.eq(x / c, E.arr(l), 'eigenvalues unchanged')
    E.same(1 <= r <= n - 3, True, 'admissible number of sources')
    for k in range(1, n - 2):
        # sg[r] / sg[r-1] <= sg[k] / sg[k-1]
        E.holds(sg[r] * sg[k - 1] <= sg[k] * sg[r - 1] + (0 if E.sym else 1e-9), 'the number of sources minimises the ratio of successive gap variances')


@H(quick=grid(n=[5, 6]), thorough=grid(n=[5, 7]), bounds='equal noise eigenvalues and 1 to n-3 sources: exact gap structure, scales 1e-8, 1, 1e4')
def equal_noise(E, n):
    k = E.choice('k', [1, 2])
    c = E.choice('c', [1e-8, 1.0, 1e4])
    s2 = 0.5
    top = []
    prev = s2
    for i in range(k):
        prev = prev + E.real('g%d' % i, lo=0.5, hi=3)
        top.append(prev)
    l = [s2] * (n - k) + top
    r = E.conc(E.dt.source_number.sorte(E.arr([c * v for v in l])))
    desc = l[::-1]
    g = [desc[i] - desc[i + 1] for i in range(n - 1)]
    sg = [var(g[q:]) for q in range(n - 1)]
    # var(gaps after k) is zero, so the ratio of k is zero and k is the minimiser (gaps before are not all equal)
    E.same(r, k, 'equal noise eigenvalues are recognised')


@H(quick=grid(name=['aic', 'mdl', 'sorte']), bounds='any Hermitian matrix of size 4 (SORTE) or 2 (AIC, MDL); fewer than four eigenvalues for SORTE; matrices given to the eigenvalue-based helper')
def matrix(E, name):
    n = 4 if name == 'sorte' else 2
    R = E.psd('R', n)
    f = getattr(E.dt.source_number, name)
    v = E.np.linalg.eigvalsh(R)
    if name == 'sorte':
        g = [v[n - 1 - i] - v[n - 2 - i] for i in range(n - 1)]
        sg = [var(g[k:]) for k in range(n - 1)]
        E.assume(v[0] > 0)
        E.assume(v[n - 1] < 100)
        for k in range(n - 2):
            E.assume(sg[k] > 1e-4)
        R0 = R.copy()
        E.same(E.conc(f(R)), E.conc(f(v)), 'a matrix is judged by its eigenvalues')
        E.eq(R, R0, 'matrix unchanged')
        for q in (1, 2, 3):
            E.raises(ValueError, lambda: f(E.arr([1.0] * q)), 'at least four eigenvalues')
        return
    E.assume(v[0] > 0)
    R0 = R.copy()
    E.same(E.conc(f(R, 20)), E.conc(f(v, 20)), 'a matrix is judged by its eigenvalues')
    E.eq(R, R0, 'matrix unchanged')


@H(quick=grid(name=['aic', 'mdl'], n=[8], N=[7, 1000], kind=['floor', 'steep']), thorough=grid(name=['aic', 'mdl'], n=[10], N=[3, 100], kind=['floor']), bounds='8 (10) eigenvalues: a fixed noise floor and large ones of any overall strength, or a geometric sequence with any jump, few or many snapshots')
def large(E, name, n, N, kind):
    t = E.real('t', lo=1.7, hi=4)
    k = n // 2
    # as the noise floor is strictly increasing, the statistic never vanishes
    if kind == 'floor':
        l = [E.const(1 + i / 64) for i in range(n - k)] + [t * E.const(1 + j / 8) for j in range(k)]
    else:
        l = [E.const(4.0 ** i) * (1 if i < k else t) for i in range(n)]
    c = crits(E, name, l, N)
    x = E.arr(l)
    r = E.conc(getattr(E.dt.source_number, name)(x, N))
    E.same(0 <= r < n, True, 'admissible number of sources')
    for j in range(n):
        E.holds(c[r] <= c[j] + (0 if E.sym else 1e-7), 'the number of sources minimises the criterion')


@H(quick=grid(n=[9, 14], k=[1, 3, 6]), bounds='9 and 14 eigenvalues: irregular small gaps, one arbitrary large gap')
def gap_large(E, n, k):
    d = E.real('d', lo=0.05, hi=9)
    g = [E.const((1 + (5 * i + 3) % 7) / 16) for i in range(n - 1)]
    g[k - 1] = g[k - 1] + d
    l = [E.const(0.25)]
    for v in g[::-1]:
        l.append(l[-1] + v)
    sg = [var(g[q:]) for q in range(n - 1)]
    r = E.conc(E.dt.source_number.sorte(E.arr(l)))
    E.same(1 <= r <= n - 3, True, 'admissible number of sources')
    for q in range(1, n - 2):
        E.holds(sg[r] * sg[q - 1] <= sg[q] * sg[r - 1] + (0 if E.sym else 1e-9), 'the number of sources minimises the ratio of successive gap variances')


@H(quick=[{}], bounds='vectors of 4-5 ascending integers')
def integers(E):
    import numpy as np
    v = E.choice('l', [[1, 3, 8, 12], [2, 4, 9, 25], [3, 5, 10, 14, 98], [0, 1, 1, 5, 1000]])
    S = E.dt.source_number.sorte
    E.same(E.conc(S(np.array(v))), E.conc(S(E.arr([E.const(float(x)) for x in v]))), 'source number from integer eigenvalues')


def turning(name, n, q, N):
    """values t just below and just above those at which the documented minimiser for (1, .., 1, t, .., t) changes"""
    from math import log

    def best(t):
        x = [1.0] * (n - q) + [t] * q
        c = []
        for i in range(n):
            l = x[:n - i]
            s = N * (len(l) * log(sum(l) / len(l)) - sum(log(v) for v in l))
            c.append(s + (i * (2 * n - i) if name == 'aic' else (i * (2 * n - i) + 1) * log(N) / 2))
        return min(range(n), key=lambda i: c[i])
    out, t, last = [], 1.01, best(1.01)
    while t < 1e6 and len(out) < 6:
        if best(t * 1.05) != last:
            a, b = t, t * 1.05
            for _ in range(60):
                m = (a + b) / 2
                a, b = (m, b) if best(m) == last else (a, m)
            for u in (a * 0.97, a * 1.03):
                if u > 1 and best(u * 0.99) == best(u * 1.01):
                    out.append((round(u, 6), best(u)))
            last = best(t * 1.05)
        t *= 1.05
    return out


@H(quick=grid(name=['aic', 'mdl'], nq=[(2, 1), (4, 1), (4, 2), (5, 3), (8, 3)], N=[1, 3, 20, 500]) + grid(name=['aic', 'mdl'], nq=[(30, 2)], N=[100], unit=[1e-20, 1.0, 1e12]), bounds='2-8 eigenvalues, of which 1-3 equal ones stand out by 3 per cent less or more than what turns the documented decision, at any scale from 1 to 8; 1 to 500 snapshots; also 30 eigenvalues in units of 1e-20 and 1e12')
def critical(E, name, nq, N, unit=1.0):
    n, q = nq
    pts = turning(name, n, q, N)
    if not pts:
        return
    t, want = E.choice('t', pts)
    c = E.real('c', lo=1, hi=8) * unit
    l = [c * (E.const(1.0) if i < n - q else E.const(t)) for i in range(n)]
    E.same(int(E.conc(getattr(E.dt.source_number, name)(E.arr(l), N))), want, 'the decision turns where the criterion says')
