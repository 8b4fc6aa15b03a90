"""C18 signal generators."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.signals', 'utils.math']
ASSUMPTIONS = ['numpy.random.randn draws are independent standard normal and numpy.random.uniform draws independent and uniform: the moments follow exactly from how the output depends on the draws',
               'scipy.linalg.sqrtm returns the Hermitian square root (exact for diagonal matrices)']


def root(E, spec, dim):
    """Hermitian positive semidefinite matrix with an arbitrary range"""
    a = E.carr('u', (dim,))
    nrm = sum(a[i] * a[i].conjugate() for i in range(dim)).real
    E.assume(nrm > 0.01)
    P = E.arr([[a[i] * a[k].conjugate() / nrm for k in range(dim)] for i in range(dim)])
    l1 = E.real('l1', pos=True)
    l2 = E.real('l2', pos=True) if spec == 'full' else 0
    return l1 * P + l2 * (E.np.eye(dim) - P)


def check_moments(E, f, C, dim, T):
    """Y linear in the normal draws with coefficients giving E[y y^H] = C, E[y y^T] = 0, independent samples."""
    Y, draws = E.emission(f)
    E.same(tuple(Y.shape), (dim, T), 'one column per sample')
    E.same({d[0] for d in draws} <= {'n'}, True, 'built from normal draws')
    rest = Y
    for k, lo, hi, u, dy in draws:
        rest = rest - dy * u
    E.eq(rest, E.np.zeros((dim, T)), 'zero mean, linear in the draws', atol=1e-4, validate=False)
    for t in range(T):
        for s in range(T):
            h = [[sum(d[4][a, t] * d[4][b, s].conjugate() for d in draws) for b in range(dim)] for a in range(dim)]
            q = [[sum(d[4][a, t] * d[4][b, s] for d in draws) for b in range(dim)] for a in range(dim)]
            E.eq(E.arr(h), E.arr([[C[a][b] if s == t else 0 * C[a][b] for b in range(dim)] for a in range(dim)]), 'covariance of the emitted samples', rtol=1e-4, atol=1e-5)
            E.eq(E.arr(q), E.np.zeros((dim, dim)), 'circular symmetry', atol=1e-4, validate=False)


@H(quick=grid(spec=['scalar', 'vector', 'diag', 'full', 'singular', 'default'], T=[1, 2]) + grid(spec=['scalar', 'vector', 'diag'], T=[2], dim=[7]) + grid(spec=['scalar', 'vector'], T=[20]) + grid(spec=['vector', 'diag'], T=[1], dim=[24]) + grid(spec=['full', 'singular'], T=[1], dim=[4]), thorough=grid(spec=['scalar', 'vector', 'diag', 'default'], T=[1, 2, 3], dim=[1, 2, 3]) + grid(spec=['full', 'singular'], T=[1, 2, 3], dim=[2, 3]),
   bounds='dimension 2, 7, 24 (thorough 1-3), 1-2, 20 (3) samples, any positive variances, any rank-one covariance and any full-rank covariance with two distinct eigenvalues')
def stochastic(E, spec, T, dim=2):
    G = E.dt.signals
    one = E.const(1)
    if spec in ('scalar', 'default'):
        c = E.real('c', pos=True) if spec == 'scalar' else one
        g = G.ComplexStochasticSignal(dim, c) if spec == 'scalar' else G.ComplexStochasticSignal(dim)
        C = [[c if a == b else 0 * c for b in range(dim)] for a in range(dim)]
    elif spec in ('vector', 'diag'):
        v = E.rarr('c', (dim,), pos=True)
        C = [[v[a] if a == b else 0 * v[a] for b in range(dim)] for a in range(dim)]
        arg = v.copy() if spec == 'vector' else E.arr(C)
        g = G.ComplexStochasticSignal(dim, arg)
        E.eq(arg, v if spec == 'vector' else E.arr(C), 'covariance given by the caller unchanged')
    else:
        S = root(E, spec, dim)
        M = S @ S
        if E.sym:
            E.register_sqrtm(M, S)
        g = G.ComplexStochasticSignal(dim, M)
        C = [[M[a, b] for b in range(dim)] for a in range(dim)]
    E.same(g.dim, dim, 'dimension')
    check_moments(E, lambda: g.emit(T), C, dim, T)


@H(quick=grid(shape=[(2, 3)]), bounds='2 by 3 block')
def randcn(E, shape):
    f = E.dt.math.randcn
    C = [[E.const(1) if a == b else E.const(0) for b in range(2)] for a in range(2)]
    check_moments(E, lambda: f(shape), C, *shape)


@H(quick=[{}], bounds='two consecutive emissions')
def fresh(E):
    g = E.dt.signals.ComplexStochasticSignal(1, E.real('c', pos=True))
    Y, d = E.emission(lambda: E.np.concatenate([g.emit(1), g.emit(1)], axis=1))
    x = sum(q[4][0, 0] * q[4][0, 1].conjugate() for q in d)
    E.eq(x, E.const(0), 'consecutive emissions are uncorrelated', atol=1e-4, validate=False)


@H(quick=grid(dim=[1, 2, 3]), bounds='dimensions 1-3, vectors and square matrices of 1..4 entries per axis')
def rejected(E, dim):
    G = E.dt.signals
    n = E.conc(E.int('n', 1, 4))
    m = E.conc(E.int('m', 1, 4))
    if n != dim:
        E.raises(ValueError, lambda: G.ComplexStochasticSignal(dim, E.rarr('c', (n,), pos=True)), 'variances of the wrong size are rejected')
        E.raises(ValueError, lambda: G.RandomPhaseSignal(dim, E.rarr('a', (n,), pos=True)), 'amplitudes of the wrong size are rejected')
    if (n, m) != (dim, dim):
        E.raises(ValueError, lambda: G.ComplexStochasticSignal(dim, E.rarr('C', (n, m), pos=True)), 'covariance of the wrong shape is rejected')
    E.raises(ValueError, lambda: G.ComplexStochasticSignal(dim, E.rarr('C', (1, 1, 1), pos=True)), 'three-dimensional covariance is rejected')


@H(quick=grid(spec=['scalar', 'vector', 'column', 'row', 'default'], T=[1, 2]) + grid(spec=['scalar', 'vector'], T=[2], dim=[7]) + grid(spec=['scalar', 'vector'], T=[12]) + grid(spec=['vector'], T=[1], dim=[24]), thorough=grid(spec=['scalar', 'vector', 'column', 'default'], T=[1, 2, 3], dim=[1, 2, 3]),
   bounds='dimension 2, 7, 24 (thorough 1-3), 1-2, 12 (3) samples, any positive amplitudes, any phases')
def random_phase(E, spec, T, dim=2):
    G = E.dt.signals
    if spec == 'default':
        g, amp = G.RandomPhaseSignal(dim), [E.const(1)] * dim
    elif spec == 'scalar':
        c = E.real('c', pos=True)
        g, amp = G.RandomPhaseSignal(dim, c), [c] * dim
    else:
        v = E.rarr('c', (dim,), pos=True)
        v0, amp = v.copy(), [v[i] for i in range(dim)]
        g = G.RandomPhaseSignal(dim, v if spec == 'vector' else v.reshape((1, dim) if spec == 'row' else (dim, 1)))
        g.emit(1)
        E.eq(v, v0, 'amplitudes given by the caller unchanged')
    E.same(g.dim, dim, 'dimension')
    Y, draws = E.emission(lambda: g.emit(T))
    E.same(tuple(Y.shape), (dim, T), 'one column per sample')
    E.eq(E.arr([[Y[a, t].real ** 2 + Y[a, t].imag ** 2 for t in range(T)] for a in range(dim)]), E.arr([[amp[a] * amp[a] for t in range(T)] for a in range(dim)]), 'configured amplitude, whatever the phase')
    # each entry turns with one uniform draw of its own through whole turns: uniform, independent phases
    E.same(all(d[0] == 'u' for d in draws), True, 'uniform draws')
    for kind, lo, hi, u, dy in draws:
        w = [[(dy[a, t] / (E.j * Y[a, t])) for t in range(T)] for a in range(dim)]
        flat = [x for r in w for x in r]
        span = hi - lo
        turns = E.arr([x * span / (2 * E.pi) for x in flat])
        tot = sum(abs(turns[i]) for i in range(len(flat)))
        E.eq(tot, E.const(1), 'every draw turns exactly one entry, through a whole turn', rtol=1e-4, atol=1e-4, validate=False)
    E.same(len(draws), dim * T, 'one phase per entry')
    for a in range(dim):
        for t in range(T):
            E.eq(sum(abs(d[4][a, t] / Y[a, t]) * (d[2] - d[1]) for d in draws), 2 * E.pi + E.const(0), 'every entry has its own phase', rtol=1e-4, atol=1e-4, validate=False)
