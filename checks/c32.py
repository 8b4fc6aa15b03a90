"""C32 sparse recovery: stated problems, dictionaries and solution mapping."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.sparse', 'optim.l1lsq']
ASSUMPTIONS = ['cvxpy is replaced by a stand-in that records the stated problem (expressions are evaluated at arbitrary points); the numerical solver itself is outside',
               'counterexamples are replayed on the expressions of the real cvxpy']
EPS = 0.001


def iff(E, a, b_lo, b_hi, label):
    """a equals the documented condition, up to a margin at its boundary"""
    if E.sym:
        E.holds((~_b(a)) | _b(b_hi), label)
        E.holds((~_b(b_lo)) | _b(a), label)
    else:
        E.holds((not a) or bool(b_hi), label)
        E.holds((not b_lo) or bool(a), label)


def _b(x):
    from engine.path import SymBool
    return SymBool(x) if isinstance(x, bool) else x


def all_(E, conds):
    r = True
    for c in conds:
        r = c & _b(r) if E.sym else bool(r and c)
    return r


def sq(E, A, x, b):
    """squared residual of complex or real data"""
    r = A @ x - b
    return (r * r.conj()).sum().real


def l1(E, x):
    t = [E.np.abs(v) for v in x]
    return sum(t[1:], t[0])


class Solver:
    """records the problem at arbitrary points, then reports an arbitrary solution"""

    def __init__(self, E, check, solution, status='optimal'):
        self.E, self.check, self.solution, self.status = E, check, solution, status
        self.calls = []

    def __call__(self, prob, a, k):
        self.calls.append(k)
        if self.check is not None:
            self.check(prob)
        v = prob.vars[0]
        prob.assign(v, self.solution.reshape(v.shape))
        prob.finish(self.status)


FORMS = ['penalizedl1', 'constrainedl1', 'constrainedl2']


def documented(E, form, nonneg, x, l, res):
    """(objective, [(lhs, rhs)]) of the documented problem; res: squared residual at x"""
    con = [(0, v) for v in x] if nonneg else []
    n1 = l1(E, x)
    if form == 'penalizedl1':
        return res / 2 + l * n1, con
    if form == 'constrainedl1':
        return res, con + [(n1, l)]
    return n1, con + [(E.np.sqrt(res), l)]


def checker(E, form, nonneg, size, l, resid):
    """resid(x): squared residual at the candidate"""
    def check(prob):
        E.same(len(prob.vars), 1, 'one unknown')
        v = prob.vars[0]
        E.same(v.size, size, 'one unknown per dictionary column')
        x = E.rarr('x', (size,), lo=0, hi=2) if nonneg else E.rarr('x', (size,), lo=-2, hi=2)
        prob.assign(v, x.reshape(v.shape))
        obj, con = documented(E, form, nonneg, x, l, resid(x))
        E.eq(prob.objective(), obj, 'documented objective')
        # constraints at arbitrary points
        y = E.rarr('y', (size,), lo=-2, hi=2)
        prob.assign(v, y.reshape(v.shape))
        obj, con = documented(E, form, nonneg, y, l, resid(y))
        lo = all_(E, [a <= b - EPS for a, b in con])
        hi = all_(E, [a <= b + EPS for a, b in con])
        iff(E, prob.feasible(), lo, hi, 'documented feasible set')
    return check


@H(quick=grid(form=FORMS, nonneg=[True, False], mk=[(1, 1), (2, 2), (2, 3)]), thorough=grid(form=FORMS, nonneg=[True, False], mk=[(3, 2), (3, 3)]),
   bounds='any real dictionary up to 2 by 3 (3 by 3), observation, parameter and candidate solution')
def l1problem(E, form, nonneg, mk):
    m, k = mk
    A = E.rarr('A', (m, k), lo=-2, hi=2)
    b = E.rarr('b', (m,), lo=-2, hi=2)
    l = E.real('l', lo=0.05, hi=3)
    A0, b0 = A.copy(), b.copy()
    sol = E.rarr('sol', (k,), lo=0, hi=2)
    s = Solver(E, checker(E, form, nonneg, k, l, lambda x: sq(E, A0, x, b0)), sol)
    E.on_cvx_solve(s)
    C = E.dt.l1lsq.L1RegularizedLeastSquaresProblem
    p = C(m, k, form, nonneg) if nonneg or form != 'penalizedl1' else C(m, k)
    x = p.solve(A, b.reshape(m, 1), l, verbose=False)
    E.same(s.calls, [{'verbose': False}], 'solver options')
    E.eq(x.reshape(-1), sol, 'the solution of the solver is returned')
    E.eq(A, A0, 'dictionary unchanged')
    E.eq(b, b0, 'observation unchanged')


@H(quick=grid(form=FORMS), bounds='a problem object used twice with other data; failing solvers; unknown formulations')
def reuse(E, form):
    m, k = 2, 2
    C = E.dt.l1lsq.L1RegularizedLeastSquaresProblem
    E.raises(ValueError, lambda: C(m, k, 'l0'), 'unknown formulation')
    p = C(m, k, form, True)
    z = E.arr([1.0, 2.0])
    E.on_cvx_solve(Solver(E, None, z))
    p.solve(E.arr([[1.0, 2.0], [3.0, 4.0]]), E.arr([[1.0], [2.0]]), 0.5)
    A = E.rarr('A', (m, k), lo=-2, hi=2)
    b = E.rarr('b', (m,), lo=-2, hi=2)
    l = E.choice('l', [E.real('l', lo=0.05, hi=3), 0.0]) if form == 'penalizedl1' else E.real('l', lo=0.05, hi=3)
    bad = E.choice('status', ['optimal', 'infeasible', 'unbounded', 'user_limit'])
    sol = E.rarr('sol', (k,), lo=0, hi=2)
    E.on_cvx_solve(Solver(E, checker(E, form, True, k, l, lambda x: sq(E, A, x, b)), sol, bad))
    with E.warnings():
        x = p.solve(A, b.reshape(m, 1), l)
    E.eq(x.reshape(-1), sol if bad == 'optimal' else E.arr([0.0, 0.0]), 'solution, or zeros without one')


@H(quick=grid(cx=[True, False], mkn=[(1, 2, 1), (2, 2, 2)]), thorough=grid(cx=[True, False], mkn=[(2, 3, 2), (3, 2, 1)]),
   bounds='any real or complex dictionary up to 2 by 2 (2 by 3), 1-2 observations, parameter and candidate solution')
def l21problem(E, cx, mkn):
    m, k, n = mkn
    mk = (lambda nm, sh: E.carr(nm, sh, lo=-2, hi=2)) if cx else (lambda nm, sh: E.rarr(nm, sh, lo=-2, hi=2))
    A, B, X, sol = mk('A', (m, k)), mk('B', (m, n)), mk('X', (k, n)), mk('S', (k, n))
    l = E.real('l', lo=0.05, hi=3)
    A0, B0 = A.copy(), B.copy()

    def check(prob):
        E.same(len(prob.vars), 1, 'one unknown matrix')
        v = prob.vars[0]
        E.same(tuple(v.shape), (k, n), 'shape of the unknown')
        prob.assign(v, X)
        E.eq(prob.objective(), group(E, A0, B0, X, l), 'documented group-sparse objective')
        E.holds(prob.feasible(), 'no constraints')
    s = Solver(E, check, sol)
    E.on_cvx_solve(s)
    p = E.dt.l1lsq.L21RegularizedLeastSquaresProblem(m, k, n, cx)
    Z = p.solve(A, B, l, verbose=False)
    E.same(s.calls, [{'verbose': False}], 'solver options')
    E.eq(Z, sol, 'the solution of the solver is returned')
    E.on_cvx_solve(Solver(E, None, sol, 'infeasible'))
    with E.warnings():
        E.eq(p.solve(A, B, l), sol * 0, 'zeros without a solution')

    def plain(prob):
        prob.assign(prob.vars[0], X)
        E.eq(prob.objective(), group(E, A0, B0, X, 0), 'objective without a penalty')
    E.on_cvx_solve(Solver(E, plain, sol))
    E.eq(p.solve(A, B, 0), sol, 'the parameter may be zero')
    E.eq(A, A0, 'dictionary unchanged')
    E.eq(B, B0, 'observations unchanged')


def group(E, A, B, X, l):
    r = A @ X - B
    t = (r * r.conj()).sum().real / 2
    for i in range(X.shape[0]):
        t = t + l * E.np.sqrt((X[i] * X[i].conj()).sum().real)
    return t


def scene(E, kind):
    """(array, grid, wavelength, reference steering matrix)"""
    A, G = E.dt.arrays, E.dt.grid
    wl = E.real('wl', lo=0.4, hi=2)
    if kind == 'ula':
        d0 = E.real('d0', lo=0.1, hi=2)
        a = A.UniformLinearArray(2, d0)
        g = G.FarField1DSearchGrid(start=-0.5, stop=0.5, size=3, unit='sin')
        S = E.arr([[expj(E, 2 * E.pi / wl * d0 * i * s) for s in g.source_placement.locations] for i in range(2)])
        return a, g, wl, S
    if kind == 'known':
        ge = E.real('ge', lo=0.5, hi=2)
        P = E.dt.perturb
        a = A.UniformLinearArray(2, 0.5, perturbations=[P.GainErrors(E.arr([0.0, ge - 1]), True), P.PhaseErrors(E.arr([0.3, 0.4]), False)])
        g = G.FarField1DSearchGrid(start=-0.5, stop=0.5, size=2, unit='sin')
        S = E.arr([[1.0, 1.0], [ge * expj(E, E.pi / wl * s) for s in g.source_placement.locations]])
        return a, g, wl, S
    a, loc = any_array(E, '2d', 2)
    g = G.FarField2DSearchGrid(start=(-1.0, 0.2), stop=(1.0, 0.4), size=(2, 2), unit='rad')
    u = g.source_placement.locations
    S = E.arr([[expj(E, 2 * E.pi / wl * E.np.cos(u[j, 1]) * (loc[i, 0] * E.np.cos(u[j, 0]) + loc[i, 1] * E.np.sin(u[j, 0]))) for j in range(4)] for i in range(2)])
    return a, g, wl, S


def finder(seen):
    import numpy

    def f(sp):
        seen.append(sp.copy())
        return tuple(numpy.array([s - 1]) for s in sp.shape)
    return f


@H(quick=grid(kind=['ula'], form=FORMS, known=[True, False]) + grid(kind=['known', '2d'], form=['penalizedl1'], known=[False]),
   thorough=grid(kind=['known', '2d'], form=FORMS, known=[True, False]),
   bounds='two elements, grids of 2-4 points, any Hermitian covariance, spacing, wavelength, parameter, candidate and noise level', maxpaths=4000)
def covariance(E, kind, form, known):
    a, g, wl, S = scene(E, kind)
    m, q = 2, g.size
    R = E.herm('R', m, lo=0.2, hi=4)
    R0 = R.copy()
    l = E.real('l', lo=0.05, hi=3)
    sg = E.choice('noise', [E.real('sg', lo=0.05, hi=1), 0.0]) if known and kind == 'ula' else E.real('sg', lo=0.05, hi=1)

    def resid(x):
        """|| R - sum_i p_i a_i a_i^H - sigma^2 I ||_F^2"""
        D = R0 - (S * x[:q]) @ S.conj().T
        D = D - (sg if known else x[q]) * E.np.eye(m)
        return (D * D.conj()).sum().real
    n = q + (0 if known else 1)
    sol = E.rarr('sol', (n,), lo=0, hi=2)
    s = Solver(E, checker(E, form, True, n, l, resid), sol)
    E.on_cvx_solve(s)
    seen = []
    est = E.dt.sparse.SparseCovarianceMatching(a, wl, g, noise_known=known, formulation=form, peak_finder=finder(seen))
    ok, e, sp = est.estimate(R, 1, l, sigma=sg if known else None, solver_options={'verbose': False}, return_spectrum=True)
    E.same(s.calls, [{'verbose': False}], 'solver options')
    E.same(bool(ok), True, 'resolved')
    E.same(tuple(sp.shape), tuple(g.shape), 'shape of the spectrum')
    E.eq(sp.reshape(-1), sol[:q], 'powers in the order of the grid, without the noise')
    E.eq(seen[0].reshape(-1), sol[:q], 'peaks are searched in the powers')
    E.eq(e.locations[0], g.source_placement.locations[q - 1], 'estimates are grid points')
    E.eq(R, R0, 'covariance unchanged')


@H(quick=grid(kind=['ula', 'known', '2d'], n=[1, 2, 4]), bounds='two elements, grids of 2-4 points, 1, 2 or 4 snapshots of any data, any spacing, wavelength, parameter and candidate')
def groups(E, kind, n):
    a, g, wl, S = scene(E, kind)
    m, q = 2, g.size
    Y = E.carr('Y', (m, n), lo=-2, hi=2)
    Y0 = Y.copy()
    l = E.real('l', lo=0.05, hi=3)
    X = E.carr('X', (q, n), lo=-2, hi=2)
    sol = E.carr('S', (q, n), lo=-2, hi=2)

    def check(prob):
        v = prob.vars[0]
        E.same((len(prob.vars), tuple(v.shape)), (1, (q, n)), 'one row per grid point')
        prob.assign(v, X)
        E.eq(prob.objective(), group(E, S, Y0, X, l), 'documented group-sparse objective')
        E.holds(prob.feasible(), 'no constraints')
    s = Solver(E, check, sol)
    E.on_cvx_solve(s)
    seen = []
    est = E.dt.sparse.GroupSparseEstimator(a, wl, g, n, peak_finder=finder(seen))
    ok, e, sp = est.estimate(Y, 1, l, solver_options={'verbose': False}, return_spectrum=True)
    E.same(s.calls, [{'verbose': False}], 'solver options')
    E.eq(sp.reshape(-1), E.arr([E.np.sqrt((sol[i] * sol[i].conj()).sum().real) for i in range(q)]), 'row norms in the order of the grid')
    E.eq(seen[0].reshape(-1), sp.reshape(-1), 'peaks are searched in the row norms')
    E.eq(e.locations[0], g.source_placement.locations[q - 1], 'estimates are grid points')
    E.eq(Y, Y0, 'snapshots unchanged')


@H(quick=grid(which=['covariance', 'known', 'groups']), bounds='an estimator used twice with other data, parameter and noise level')
def again(E, which):
    m, q = 2, 2
    a = E.dt.arrays.UniformLinearArray(m, 0.5)
    g = E.dt.grid.FarField1DSearchGrid(start=-0.5, stop=0.5, size=q, unit='sin')
    S = E.arr([[expj(E, E.pi * i * s) for s in g.source_placement.locations] for i in range(m)])
    l = E.real('l', lo=0.05, hi=3)
    if which == 'groups':
        est = E.dt.sparse.GroupSparseEstimator(a, 1.0, g, 1, peak_finder=finder([]))
        E.on_cvx_solve(Solver(E, None, E.arr([[1.0 + 0 * E.j], [2.0 + 0 * E.j]])))
        est.estimate(E.arr([[1.0 + E.j], [2.0 + 0 * E.j]]), 1, 0.5)
        Y, X = E.carr('Y', (m, 1), lo=-2, hi=2), E.carr('X', (q, 1), lo=-2, hi=2)

        def check(prob):
            prob.assign(prob.vars[0], X)
            E.eq(prob.objective(), group(E, S, Y, X, l), 'problem of the current data')
        E.on_cvx_solve(Solver(E, check, X))
        est.estimate(Y, 1, l)
        return
    known = which == 'known'
    est = E.dt.sparse.SparseCovarianceMatching(a, 1.0, g, noise_known=known, peak_finder=finder([]))
    n = q + (0 if known else 1)
    R = E.herm('R', m, lo=0.2, hi=4)
    R0 = R.copy()
    s1, s2 = E.real('s1', lo=0.05, hi=1), E.real('s2', lo=0.05, hi=1)
    E.on_cvx_solve(Solver(E, None, E.arr([1.0, 2.0, 3.0][:n])))
    est.estimate(R, 1, 0.5, sigma=s1 if known else None)

    def resid(x):
        D = R0 - (S * x[:q]) @ S.conj().T
        D = D - (s2 if known else x[q]) * E.np.eye(m)
        return (D * D.conj()).sum().real
    E.on_cvx_solve(Solver(E, checker(E, 'penalizedl1', True, n, l, resid), E.arr([1.0, 2.0, 3.0][:n])))
    est.estimate(R, 1, l, sigma=s2 if known else None)


@H(quick=[{}], bounds='covariances and snapshot matrices of other shapes, missing noise level, refinement requests, unknown formulations')
def rejects(E):
    a = E.dt.arrays.UniformLinearArray(2, 0.5)
    g = E.dt.grid.FarField1DSearchGrid(start=-0.5, stop=0.5, size=3, unit='sin')
    Sp = E.dt.sparse
    E.on_cvx_solve(Solver(E, None, E.rarr('s', (4,), lo=0, hi=1)))
    E.raises(ValueError, lambda: Sp.SparseCovarianceMatching(a, 1.0, g, formulation='l0'), 'unknown formulation')
    sh = E.choice('shape', [(1, 2), (2, 3), (3, 3), (2,)])
    est = Sp.SparseCovarianceMatching(a, 1.0, g)
    E.raises(ValueError, lambda: est.estimate(E.carr('R', sh), 1, 0.1), 'covariance of another size')
    E.raises(ValueError, lambda: est.estimate(E.herm('Q', 2), 1, 0.1, refine_estimates=True), 'refinement is not available')
    kn = Sp.SparseCovarianceMatching(a, 1.0, g, noise_known=True)
    E.raises(ValueError, lambda: kn.estimate(E.herm('Q', 2), 1, 0.1), 'missing noise level')
    gs = Sp.GroupSparseEstimator(a, 1.0, g, 2)
    E.raises(ValueError, lambda: gs.estimate(E.carr('Y', (2, 2)), 1, 0.1, refine_estimates=True), 'refinement is not available')
    ys = E.choice('yshape', [(1, 2), (3, 2), (2, 1), (2, 3)])
    E.raises(ValueError, lambda: gs.estimate(E.carr('Y', ys), 1, 0.1), 'snapshots of another size')


@H(quick=grid(typ=['real', 'int'], known=[True, False]), bounds='real symmetric covariances of two elements, and one of integers with any noise level')
def types(E, typ, known):
    import numpy as np
    a, g, wl, S = scene(E, 'ula')
    if typ == 'int':
        R, R0 = np.array([[5, 2], [2, 4]]), E.arr([[E.const(5.0), E.const(2.0)], [E.const(2.0), E.const(4.0)]])
    else:
        L = E.rarr('R', (2, 2), lo=0.2, hi=4)
        R = R0 = E.arr([[L[0, 0], L[1, 0]], [L[1, 0], L[1, 1]]])
    l, sg = E.real('l', lo=0.05, hi=3), E.real('sg', lo=0.05, hi=1)
    q = g.size

    def resid(x):
        D = R0 - (S * x[:q]) @ S.conj().T - (sg if known else x[q]) * E.np.eye(2)
        return (D * D.conj()).sum().real
    n = q + (0 if known else 1)
    sol = E.rarr('sol', (n,), lo=0, hi=2)
    E.on_cvx_solve(Solver(E, checker(E, 'penalizedl1', True, n, l, resid), sol))
    est = E.dt.sparse.SparseCovarianceMatching(a, wl, g, noise_known=known, formulation='penalizedl1', peak_finder=finder([]))
    ok, e, sp = est.estimate(R, 1, l, sigma=sg if known else None, return_spectrum=True)
    E.eq(sp.reshape(-1), sol[:q], 'powers in the order of the grid, without the noise')
