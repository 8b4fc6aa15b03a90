"""Harness API and runner.

A harness is an ordinary function `fn(E, **cfg)` that drives the *public* code
of doatools and states assertions through E.  It is executed

* symbolically (SymE): E.real/int/... are symbolic, every path is explored and
  each assertion is discharged by the solver over all values of the path;
* concretely (RealE): the same function against the untouched package and real
  numpy; used to replay counterexamples (only reproduced ones are reported) and
  to validate the symbolic execution on sample points.
"""
import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings
import zlib
from fractions import Fraction as Fr

import numpy as np

from . import loader, ring, path, snp, stubs
from .ring import Sym, InfSym, Unsupported, EngineStop, T, to_sym, ZERO, ONE, J
from .path import (CTX, SymBool, as_formula, mkbool, f_and, f_or, f_not, PathAbort,
                   BudgetExceeded, Evaluator, Stats)
from .snp import as_sarr, SArr, _num, _elem, _nd, NPS


class Violation(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, '%s: %s' % (label, detail))
        self.label = label
        self.detail = detail


class ReplaySkip(Exception):
    pass


class DT:
    """Attribute access to doatools modules: E.dt.arrays -> model.arrays."""
    SHORT = {
        'arrays': 'model.arrays', 'sources': 'model.sources', 'elements': 'model.array_elements',
        'perturb': 'model.perturbations', 'coarray': 'model.coarray', 'signals': 'model.signals',
        'snapshots': 'model.snapshots', 'core': 'estimation.core', 'grid': 'estimation.grid',
        'beamforming': 'estimation.beamforming', 'music': 'estimation.music',
        'min_norm': 'estimation.min_norm', 'esprit': 'estimation.esprit', 'ecoarray': 'estimation.coarray',
        'preprocessing': 'estimation.preprocessing', 'source_number': 'estimation.source_number',
        'ml': 'estimation.ml', 'sparse': 'estimation.sparse', 'l1lsq': 'optim.l1lsq',
        'crb': 'performance.crb', 'mse': 'performance.mse', 'putils': 'performance.utils',
        'math': 'utils.math', 'conversion': 'utils.conversion',
        'plot_array': 'plotting.plot_array', 'plot_spectrum': 'plotting.plot_spectrum',
    }

    def __init__(self, get):
        self._get = get

    def __getattr__(self, n):
        m = self._get(self.SHORT.get(n, n))
        self.__dict__[n] = m
        return m


class BaseE:
    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.nassert = 0
        self.labels = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # arrays of inputs ------------------------------------------------------
    def rarr(self, name, shape, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        vals = [self.real('%s_%s' % (name, '_'.join(map(str, i))), **kw) for i in np.ndindex(*shape)]
        return self._mk(vals, shape)

    def iarr(self, name, shape, lo, hi):
        if isinstance(shape, int):
            shape = (shape,)
        vals = [self.int('%s_%s' % (name, '_'.join(map(str, i))), lo, hi) for i in np.ndindex(*shape)]
        return self._mk(vals, shape, integer=True)

    def cplx(self, name, **kw):
        return self.real(name + 're', **kw) + self.j * self.real(name + 'im', **kw)

    def carr(self, name, shape, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        vals = [self.cplx('%s_%s' % (name, '_'.join(map(str, i))), **kw) for i in np.ndindex(*shape)]
        return self._mk(vals, shape)

    def herm(self, name, n, **kw):
        """An arbitrary Hermitian matrix."""
        vals = [[None] * n for _ in range(n)]
        for i in range(n):
            for k in range(i, n):
                if i == k:
                    vals[i][k] = self.real('%s_%d_%d' % (name, i, k), **kw)
                else:
                    x = self.cplx('%s_%d_%d' % (name, i, k))
                    vals[i][k] = x
                    vals[k][i] = x.conjugate()
        return self._mk([v for r in vals for v in r], (n, n))

    def psd(self, name, n, extra=None):
        """B B^H + n*I : positive definite covariance with arbitrary B (lower triangular)."""
        B = [[0] * n for _ in range(n)]
        for i in range(n):
            for k in range(i + 1):
                B[i][k] = self.real('%s_%d_%d' % (name, i, k), pos=True) if i == k else self.cplx('%s_%d_%d' % (name, i, k))
        B = self._mk([v for r in B for v in r], (n, n))
        return B @ B.conj().T

    def warnings(self):
        c = warnings.catch_warnings()
        return c

    # derived assertions ----------------------------------------------------
    def close(self, a, b, label, **kw):
        self.eq(a, b, label, **kw)

    def is_true(self, cond, label):
        self.holds(cond, label)


# ---------------------------------------------------------------------------
# symbolic
# ---------------------------------------------------------------------------
class SymE(BaseE):
    sym = True

    def __init__(self, tier, seed, run):
        BaseE.__init__(self, tier, seed)
        self.np = NPS
        self.dt = DT(loader.sym)
        self.pi = snp.PIS()
        self.j = J
        self.run = run
        self.choices = {}
        self.values = []       # (label, lhs Syms) for translator validation
        self.hooks = {}
        stubs_plt().reset()

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, strict=False, nz=False, sampler=None, positive=None):
        if isinstance(lo, (int, float)) and lo > 0:
            pos = True
        return CTX.new_var(name, lo=_lim(lo), hi=_lim(hi), pos=pos, strict=strict, nz=nz, sampler=sampler)

    def int(self, name, lo, hi):
        return CTX.new_var(name, lo=lo, hi=hi, isint=True)

    def conc(self, x):
        """Fork over the integer value of x."""
        return CTX.concretize_int(to_sym(x))

    def _mk(self, vals, shape, integer=False):
        return as_sarr(list(vals)).reshape(shape) if vals else snp.sfull(shape, ZERO)

    def choice(self, name, seq):
        seq = list(seq)
        i = CTX.choose(len(seq))
        self.choices[name] = i
        return seq[i]

    def assume(self, cond):
        f = cond_formula(cond)
        CTX.assume(f)

    def const(self, x):
        return to_sym(x)

    def arr(self, x):
        return snp.np_array(x) if not isinstance(x, Sym) else as_sarr(x)

    # assertions
    def eq(self, a, b, label, rtol=1e-6, atol=1e-8, validate=True):
        self.nassert += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        A, B = as_sarr(a), as_sarr(b)
        if A.shape != B.shape:
            self.fail(label, 'shape %s instead of %s' % (A.shape, B.shape))
            return
        av = list(A.view(_nd).reshape(-1))
        bv = list(B.view(_nd).reshape(-1))
        if validate:
            self.values.append((label, av))
        negs = []
        nz = []
        scale = None
        for i, (x, y) in enumerate(zip(av, bv)):
            if isinstance(x, SymBool) or isinstance(y, SymBool) or isinstance(x, bool) or isinstance(y, bool):
                fx, fy = as_formula(snp._b(x)), as_formula(snp._b(y))
                neg = f_or([f_and([fx, f_not(fy)]), f_and([f_not(fx), fy])])
                if neg is not False:
                    negs.append(neg)
                continue
            if isinstance(x, InfSym) or isinstance(y, InfSym):
                if not (isinstance(x, InfSym) and isinstance(y, InfSym) and (x.f == y.f or (x.f != x.f and y.f != y.f))):
                    negs.append(True)
                continue
            d = x - y
            CTX.stats.maxterms = max(CTX.stats.maxterms, len(x.t))
            if d.is_zero():
                continue
            n, _ = ring.clear_denoms(d)
            if n.is_zero():
                nz.append(d)
                continue
            if d.is_const():
                # a concrete entry: native arithmetic on it rounds
                if scale is None:
                    scale = max([1e-300] + [abs(complex(*map(float, v.cval()))) for v in av + bv if isinstance(v, Sym) and v.is_const()])
                if abs(complex(*map(float, d.cval()))) <= 1e-14 * scale:
                    continue
            negs.append(('cmp', '!=', d))
        self.run.identities += len(av) - len(negs)
        if not negs:
            # both sides have the same normal form; the solver discharges the
            # (trivial) negation so that the verdict is always its own
            self.run.prove_trivial([x - y for x, y in zip(av, bv)][:1] if not any(isinstance(x, (bool, SymBool, InfSym)) for x in av + bv) and av else [])
            return
        self._prove(f_or(negs), label, negs)

    def holds(self, cond, label):
        self.nassert += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        f = cond_formula(cond)
        neg = f_not(f)
        if neg is False:
            self.run.prove_trivial([])
            return
        self._prove(neg, label, [neg])

    def le(self, a, b, label, tol=1e-9):
        self.holds(snp.emap(lambda x, y: path.compare('<=', _num(x), _num(y)), a, b) if not isinstance(a, Sym) or not isinstance(b, Sym) else path.compare('<=', a, b), label)

    def lt(self, a, b, label, tol=1e-9):
        self.holds(snp.emap(lambda x, y: path.compare('<', _num(x), _num(y)), a, b), label)

    def same(self, a, b, label):
        self.nassert += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not py_same(a, b):
            self.fail(label, '%r instead of %r' % (a, b))
        else:
            self.run.prove_trivial([])

    def raises(self, exc, fn, label):
        self.nassert += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        try:
            fn()
        except exc:
            self.run.prove_trivial([])
            return True
        except Unsupported:
            # the code went on into an operation outside the model instead of refusing: the real
            # code is asked at a point of this path
            self.fail(label, 'not refused before an unmodelled operation')
            raise
        except EngineStop:
            raise
        except Exception as e:
            self.fail(label, 'raised %s instead of %s' % (type(e).__name__, exc))
            return True
        self.fail(label, 'nothing raised')
        return False

    def fail(self, label, detail=''):
        """The property is violated on this whole path."""
        self.run.candidate(self, label, detail, None)

    def _prove(self, neg, label, parts):
        r = self.run
        if neg is True:
            r.candidate(self, label, 'always', None)
            return
        if r.too_many(self, label):
            return
        verdict, w = CTX.prove(neg)
        if verdict == 'unknown' and len(parts) > 1:
            verdict = 'unsat'
            for p in parts:
                v, w = CTX.prove(p)
                if v != 'unsat':
                    verdict = v
                    if v.startswith('sat'):
                        break
        if verdict == 'unsat':
            r.proved += 1
            return
        if verdict.startswith('sat'):
            r.candidate(self, label, 'solver model', w)
            return
        r.unknown(self, label)

    # calculus
    def deriv(self, f, x, label=None):
        """d f(x) / dx, exact."""
        y = f(x)
        a = single_var(x)
        if isinstance(y, _nd):
            return snp.emap(lambda e: ring.diff(_num(e), a), y)
        return ring.diff(to_sym(y), a)

    def grad_of(self, y, x):
        a = single_var(x)
        if isinstance(y, _nd):
            return snp.emap(lambda e: ring.diff(_num(e), a), y)
        return ring.diff(to_sym(y), a)

    # hooks
    def on_minimize(self, h):
        CTX.memo['minimize'] = h

    def on_cvx_solve(self, h):
        from .cvxview import Problem
        CTX.memo['cvx_solve'] = lambda prob, a, k: h(Problem(prob, True), a, k)

    def plt(self):
        p = stubs_plt()
        p.reset()
        return p

    def register_eigh(self, R, v, U):
        snp.register_eigh(R, v, U)

    def register_eigvals(self, A, v):
        CTX.memo.setdefault('eig_reg', []).append((as_sarr(A), as_sarr(v)))

    def register_roots(self, p, z):
        CTX.memo.setdefault('roots_reg', []).append((as_sarr(p), as_sarr(z)))

    def register_sqrtm(self, A, S):
        CTX.memo.setdefault('sqrtm_reg', []).append((as_sarr(A), as_sarr(S)))

    def hook(self, name, fn):
        CTX.memo[name] = fn

    def opts(self, **k):
        snp.OPTS.update(k)

    def fake_axes(self):
        from . import fakeplt
        return fakeplt.FakeAxes()

    def emission(self, f):
        """Run f, which draws random numbers.

        -> (Y, [(kind, lo, hi, u, dY/du)]) for the draws u made by f, in order.
        """
        before = set(CTX.inputs)
        Y = as_sarr(f())
        out = []
        for name in [n for n in CTX.inputs if n not in before and n.startswith('draw_')]:
            a = CTX.inputs[name]
            u = Sym({((a.id, 1),): (1, 0)})
            out.append((name[5], a.lo, a.hi, u, snp.emap(lambda e: ring.diff(_num(e), a), Y)))
        return Y, out

    def lin_coeff(self, y, var):
        """Coefficient of the variable in y (as a value)."""
        return ring.diff(to_sym(y), single_var(var))

def stubs_plt():
    from . import fakeplt
    return fakeplt.PLT_SYM


def single_var(x):
    (m, c), = x.t.items()
    assert c == (1, 0) and len(m) == 1 and m[0][1] == 1
    return T.atoms[m[0][0]]


def _lim(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, float):
        return Fr(repr(x)) if not x.is_integer() else int(x)
    return x


def cond_formula(cond):
    if isinstance(cond, _nd):
        return f_and([as_formula(snp._b(x)) for x in as_sarr(cond).view(_nd).reshape(-1)])
    if isinstance(cond, (list, tuple)):
        return f_and([cond_formula(c) for c in cond])
    if isinstance(cond, Sym):
        return as_formula(snp._b(cond))
    f = as_formula(cond)
    if f is None:
        return bool(cond)
    return f


def py_same(a, b):
    if isinstance(a, (Sym, SymBool, _nd)) or isinstance(b, (Sym, SymBool, _nd)):
        raise TypeError('same() is for plain values')
    return a == b


# ---------------------------------------------------------------------------
# concrete
# ---------------------------------------------------------------------------
class ConcreteRng:
    """numpy.random with the draws taken from the witness, in order."""

    def __init__(self, E):
        self.E = E
        self.n = 0
        self.log = None
        self.shift = None
        self.drawn = {}
        E.rng = self

    def _one(self, kind, lo=None, hi=None):
        i = self.n
        self.n += 1
        if (kind, i) not in self.drawn:      # the same draw when a call is repeated
            self.drawn[kind, i] = self.E.real('draw_n%d' % i) if kind == 'n' else self.E.real('draw_u%d' % i, lo=lo, hi=hi)
        v = self.drawn[kind, i]
        if self.log is not None:
            self.log.append((kind, lo, hi, v))
        if self.shift is not None and self.shift[0] == i:
            v = v + self.shift[1]
        return v

    def _block(self, kind, size, lo=None, hi=None):
        if size is None or size == ():
            return self._one(kind, lo, hi)
        if isinstance(size, (int, np.integer)):
            size = (int(size),)
        r = np.empty(size)
        f = r.reshape(-1)
        for i in range(f.size):
            f[i] = self._one(kind, lo, hi)
        return r

    def randn(self, *shape):
        return self._block('n', shape if shape else None)

    def standard_normal(self, size=None, **k):
        return self._block('n', size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._block('n', size) * scale + loc

    def rand(self, *shape):
        return self._block('u', shape if shape else None, 0, 1)

    def random(self, size=None):
        return self._block('u', size, 0, 1)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._block('u', size, low, high)

    def seed(self, *a):
        return None

    def default_rng(self, *a):
        return self

    def RandomState(self, *a):
        return self


RNG_NAMES = ['randn', 'standard_normal', 'normal', 'rand', 'random', 'random_sample', 'uniform',
             'default_rng', 'RandomState', 'seed']


class RealE(BaseE):
    sym = False

    def __init__(self, tier, seed, values=None, choices=None, rnd=None, record=False):
        BaseE.__init__(self, tier, seed)
        self.np = np
        self.dt = DT(loader.real)
        self.pi = math.pi
        self.j = 1j
        self.given = values or {}
        self.diffs = []
        self.chosen = dict(choices or {})
        self.values = []
        self.used = {}
        self.rnd = rnd or random.Random(seed)
        self.undo = []
        self.assume_free = False
        self.tight = False

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, strict=False, nz=False, sampler=None, positive=None):
        if name in self.given:
            v = float(self.given[name])
        else:
            v = self._rand(lo, hi, pos, sampler)
        self.used[name] = v
        return v

    def _rand(self, lo, hi, pos, sampler):
        if sampler is not None:
            return float(sampler(self.rnd))
        lo2 = None if lo is None else float(lo)
        hi2 = None if hi is None else float(hi)
        if lo2 is None:
            lo2 = (0.1 if pos else -2.0) if hi2 is None else (min(0.1, hi2 / 10) if pos else hi2 - 3)
        if hi2 is None:
            hi2 = lo2 + 3.0
        return lo2 + (hi2 - lo2) * (0.02 + 0.96 * self.rnd.random())

    def int(self, name, lo, hi):
        v = int(self.given[name]) if name in self.given else self.rnd.randint(lo, hi)
        self.used[name] = v
        return v

    def conc(self, x):
        return int(x)

    def _mk(self, vals, shape, integer=False):
        return np.array(list(vals), dtype=int if integer else None).reshape(shape)

    def choice(self, name, seq):
        seq = list(seq)
        if name not in self.chosen:
            self.chosen[name] = self.rnd.randrange(len(seq))
        return seq[self.chosen[name] % len(seq)]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise ReplaySkip()

    def const(self, x):
        return x if not isinstance(x, Fr) else float(x)

    def arr(self, x):
        return np.array(x)

    # assertions
    def eq(self, a, b, label, rtol=1e-6, atol=1e-8, validate=True):
        self.nassert += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape:
            raise Violation(label, 'shape %s instead of %s' % (A.shape, B.shape))
        if A.dtype == object or B.dtype == object:
            raise Violation(label, 'non-numeric result %r' % (A.dtype,))
        if validate:
            self.values.append((label, A.reshape(-1).copy()))
        if A.size == 0:
            return
        A = A.astype(complex) if A.dtype != bool else A.astype(int)
        B = B.astype(complex) if B.dtype != bool else B.astype(int)
        fa, fb = np.isfinite(A), np.isfinite(B)
        if not np.array_equal(fa, fb):
            raise Violation(label, 'got %s, expected %s' % (brief(A), brief(B)))
        if fa.all():
            sc = max(np.max(np.abs(A)), np.max(np.abs(B)))
            if self.tight:      # the code rounds to less than double precision
                rtol, atol = min(rtol, 1e-9), min(atol, 1e-11)
            tol = rtol * sc + atol * (1 if sc > 1 else max(sc, 1e-3))
            bad = np.max(np.abs(A - B)) > tol
            self.diffs.append((label, (A - B).reshape(-1), tol, bad))
            if bad:
                raise Violation(label, 'got %s, expected %s' % (brief(A), brief(B)))
        else:
            if not np.array_equal(A[~fa], B[~fb], equal_nan=True):
                raise Violation(label, 'got %s, expected %s' % (brief(A), brief(B)))
            if fa.any() and np.max(np.abs(A[fa] - B[fa])) > rtol * np.max(np.abs(B[fa])) + atol:
                raise Violation(label, 'got %s, expected %s' % (brief(A), brief(B)))

    def holds(self, cond, label):
        self.nassert += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(np.all(cond)):
            raise Violation(label, 'condition is false')

    def le(self, a, b, label, tol=1e-9):
        self.holds(np.asarray(a) <= np.asarray(b) + tol * (1 + np.abs(b)), label)

    def lt(self, a, b, label, tol=1e-9):
        self.holds(np.asarray(a) < np.asarray(b) + tol * (1 + np.abs(b)), label)

    def same(self, a, b, label):
        self.nassert += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not py_same(a, b) if not isinstance(a, np.ndarray) else not np.array_equal(a, b):
            raise Violation(label, '%r instead of %r' % (a, b))

    def raises(self, exc, fn, label):
        self.nassert += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            raise Violation(label, 'raised %s (%s) instead of %s' % (type(e).__name__, str(e)[:120], _excname(exc)))
        raise Violation(label, 'nothing raised, expected %s' % _excname(exc))

    def fail(self, label, detail=''):
        raise Violation(label, detail)

    def deriv(self, f, x, label=None):
        # Ridders' extrapolation of central differences
        con, n = 1.6, 9
        h = 1e-3 * max(1.0, abs(x))
        for _ in range(6):
            try:
                f(x + h), f(x - h)
                break
            except ValueError:      # outside the valid range
                h /= 10
        tab, best, err = [], None, np.inf
        for i in range(n):
            row = [(np.asarray(f(x + h)) - np.asarray(f(x - h))) / (2 * h)]
            fac = con * con
            for j in range(i):
                row.append((row[j] * fac - tab[-1][j]) / (fac - 1))
                fac *= con * con
                e = max(np.abs(row[j + 1] - row[j]).max(initial=0), np.abs(row[j + 1] - tab[-1][j]).max(initial=0))
                if not e > err:
                    best, err = row[j + 1], e
            tab.append(row)
            h /= con
        return best if best is not None else tab[-1][0]

    # hooks
    def on_minimize(self, h):
        import scipy.optimize
        self.patch_everywhere(scipy.optimize.minimize, h)

    def on_cvx_solve(self, h):
        import cvxpy

        from .cvxview import Problem

        def solve(prob, *a, **k):
            return h(Problem(prob, False), a, k)
        self.setattr(cvxpy.Problem, 'solve', solve)

    def plt(self):
        from . import fakeplt
        import matplotlib.pyplot as plt
        import matplotlib.colors as mc
        p = fakeplt.FakePlt()
        self.dt.plot_array, self.dt.plot_spectrum
        self.patch_everywhere(plt, p)
        self.patch_everywhere(mc.LogNorm, fakeplt.Recorder('LogNorm'))
        return p

    def patch_everywhere(self, orig, repl):
        for n, m in list(sys.modules.items()):
            if (n == 'doatools' or n.startswith('doatools.')) and m is not None:
                for k, v in list(vars(m).items()):
                    if v is orig:
                        self.setattr(m, k, repl)
        if getattr(orig, '__module__', '').startswith('scipy.optimize'):
            import scipy.optimize
            self.setattr(scipy.optimize, orig.__name__, repl)

    def setattr(self, o, k, v):
        old = getattr(o, k)
        self.undo.append((o, k, old))
        setattr(o, k, v)

    def cleanup(self):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)
        self.undo = []

    def register_eigh(self, *a):
        pass

    register_eigvals = register_roots = register_sqrtm = register_eigh

    def hook(self, name, fn):
        pass

    def opts(self, **k):
        pass

    def fake_axes(self):
        from . import fakeplt
        return fakeplt.FakeAxes()

    def emission(self, f):
        rng = self.rng
        n0 = rng.n
        rng.log = []
        Y = np.asarray(f())
        log, rng.log = rng.log, None
        n1 = rng.n
        out = []
        h = 1e-5
        for i, (kind, lo, hi, u) in enumerate(log):
            r = []
            for d in (h, -h):
                rng.n = n0
                rng.shift = (n0 + i, d)
                r.append(np.asarray(f()))
            rng.shift = None
            out.append((kind, lo, hi, u, (r[0] - r[1]) / (2 * h)))
        rng.n = n1
        return Y, out


def _excname(e):
    return '/'.join(x.__name__ for x in e) if isinstance(e, tuple) else e.__name__


def brief(A):
    s = np.array2string(A.reshape(-1)[:8], precision=6, threshold=8)
    return s.replace('\n', ' ') + ('' if A.size <= 8 else '...')


def run_real(h, cfg, tier, seed, values=None, choices=None, rnd=None, tight=False):
    """Run the harness on the real code.

    -> ('ok'|'skip'|'violation'|'error', E, detail)

    A numerical difference counts as a violation only if it is stable: at
    inputs moved by one part in 1e14 the same comparison must show the same
    difference (or none at all: a discontinuity).  A difference that changes
    erratically is rounding noise of an ill-conditioned point.
    """
    st, E, info = run_real_(h, cfg, tier, seed, values, choices, rnd, tight)
    if st == 'violation' and E.diffs and E.diffs[-1][3]:
        n = len(E.diffs) - 1
        label, d, tol = E.diffs[-1][:3]
        for k in range(3):
            r2 = random.Random(k)
            moved = {a: (v if isinstance(v, int) else v * (1 + r2.choice([-1, 1]) * 1e-14 * (1 + r2.random()))) for a, v in E.used.items()}
            _, E2, _ = run_real_(h, cfg, tier, seed, moved, E.chosen, None, tight)
            if len(E2.diffs) <= n or E2.diffs[n][0] != label or E2.diffs[n][1].shape != d.shape:
                continue
            d2 = E2.diffs[n][1]
            a, b = np.abs(d).max(), np.abs(d2).max()
            if b > tol / 100 and np.abs(d2 - d).max() > 0.05 * max(a, b):
                return 'skip', E, ('ill-conditioned', info)
    return st, E, info


def crash_key(e):
    """Where the check itself stumbled over a result (None when it is not the check, or a private name)."""
    if not isinstance(e, (IndexError, KeyError, TypeError, ValueError, AttributeError)) or "attribute '_" in str(e):
        return None
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if '/checks/' in f.filename:
            return type(e).__name__, os.path.basename(f.filename), f.lineno, f.line
    return None


def run_real_(h, cfg, tier, seed, values=None, choices=None, rnd=None, tight=False):
    E = RealE(tier, seed, values, choices, rnd)
    E.tight = tight
    rng = ConcreteRng(E)
    saved = {n: getattr(np.random, n) for n in RNG_NAMES}
    try:
        for n in RNG_NAMES:
            setattr(np.random, n, getattr(rng, n))
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            h.fn(E, **cfg)
        return 'ok', E, ''
    except ReplaySkip:
        return 'skip', E, ''
    except Violation as v:
        return 'violation', E, (v.label, v.detail)
    except EngineStop as e:
        return 'error', E, ('engine', repr(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        inrepo = False
        for f in tb:
            if '/doatools/' in f.filename:
                where = '%s:%d' % (os.path.relpath(f.filename, loader.REPO), f.lineno)
                inrepo = True
        if not inrepo:
            if isinstance(e, np.linalg.LinAlgError):
                return 'skip', E, ''      # the reference itself is singular here
            return 'error', E, ('harness', ''.join(traceback.format_exception(e))[-1500:], crash_key(e))
        return 'violation', E, ('unexpected %s' % type(e).__name__, '%s at %s' % (str(e)[:200], where))
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
        E.cleanup()


# ---------------------------------------------------------------------------
# jobs
# ---------------------------------------------------------------------------
class Harness:
    def __init__(self, fn, name, quick, thorough, covers, bounds, fallback=12, validate=2, maxpaths=4000, tmo=None):
        self.fn = fn
        self.name = name
        self.quick = quick
        self.thorough = thorough
        self.covers = covers
        self.bounds = bounds
        self.fallback = fallback
        self.validate = validate
        self.maxpaths = maxpaths
        self.tmo = tmo

    def configs(self, tier):
        q = self.quick() if callable(self.quick) else list(self.quick)
        if tier == 'quick' or self.thorough is None:
            return q
        t = self.thorough() if callable(self.thorough) else self.thorough
        return q + [c for c in t if c not in q]


class JobRun:
    def __init__(self, h, cfg, tier, seed, deadline):
        self.h, self.cfg, self.tier, self.seed = h, cfg, tier, seed
        self.deadline = deadline
        self.proved = 0
        self.identities = 0
        self.trivial = 0
        self.asserts = 0
        self.violations = []
        self.unreproduced = []
        self.unknowns = []
        self.unsupported = []
        self.mismatches = []
        self.validated = 0
        self.reached = 0
        self.cands = {}
        self.labels = {}
        self.errors = []
        self.reduced_runs = 0
        self.complete = True
        self.replays = 0
        self.witness = None
        self.crash = None

    def prove_trivial(self, diffs):
        self.trivial += 1
        self.proved += 1
        CTX.stats.queries += 1
        t0 = time.time()
        r = trivial_solver(diffs)
        CTX.stats.t += time.time() - t0
        if r == 'unsat':
            CTX.stats.unsat += 1
        else:
            CTX.stats.unknown += 1

    def too_many(self, E, label):
        return self.violations or self.cands.get(label, 0) >= 12 or self.cands.get((label, str(E.choices)), 0) >= 3

    def candidate(self, E, label, detail, w):
        if self.too_many(E, label):
            return
        for key in (label, (label, str(E.choices))):
            self.cands[key] = self.cands.get(key, 0) + 1
        tries = []
        if w is not None:
            tries.append(w.byname)
            if getattr(w, 'turned', None):
                tries.append(w.turned)
        # points of this path, and of the harness domain at large
        for s in CTX.samples[:6]:
            tries.append(s.byname)
        if not CTX.samples:
            r, m, enc = CTX.solve([], want_model=True)
            if r == 'unsat':
                return          # infeasible path
            if r == 'sat':
                tries.append(path.ModelSample(CTX, m, enc).byname)
        ch = dict(E.choices)
        seen_skip = 0
        for t in tries:
            if self.replay(t, ch):
                return
        rnd = random.Random(self.seed * 7919 + 13)
        for _ in range(30):
            if time.time() > self.deadline + 20:
                break
            if self.replay(None, ch, rnd):
                return
        self.unreproduced.append('%s (%s)' % (label, detail))

    def replay(self, values, choices, rnd=None):
        self.replays += 1
        st, RE, info = run_real(self.h, self.cfg, self.tier, self.seed, values, choices, rnd, CTX.narrow)
        if st == 'violation':
            self.violations.append({
                'harness': self.h.name, 'cfg': self.cfg, 'choices': RE.chosen,
                'values': {k: (int(v) if isinstance(v, (int, np.integer)) else float(v)) for k, v in RE.used.items()},
                'label': info[0], 'detail': info[1], 'tier': self.tier, 'tight': CTX.narrow})
            return True
        if st == 'error':
            key = info[2] if len(info) > 2 else None
            if key is not None and key == self.crash:
                # the same line of the check stumbles over the symbolic and over the real result
                self.violations.append({
                    'harness': self.h.name, 'cfg': self.cfg, 'choices': RE.chosen,
                    'values': {k: (int(v) if isinstance(v, (int, np.integer)) else float(v)) for k, v in RE.used.items()},
                    'label': 'result of another form: %s' % key[0], 'detail': 'at %s:%d %s' % key[1:], 'tier': self.tier, 'crash': list(key)})
                return True
            self.errors.append(str(info[:2])[:1500])
        return False

    def unknown(self, E, label):
        self.unknowns.append(label)
        # not a verdict: look for a concrete failure all the same
        rnd = random.Random(self.seed * 31 + len(self.unknowns))
        if len(self.unknowns) <= 3:
            for s in CTX.samples[:4]:
                if self.replay(s.byname, dict(E.choices)):
                    return
            for _ in range(6):
                if self.replay(None, dict(E.choices), rnd):
                    return

    def validate_path(self, E):
        """Evaluate the symbolic results at a point of the path and compare
        with the real code run at the same point."""
        s = CTX.samples[0] if CTX.samples else self.model_sample()
        if s is None:
            return
        if any(not np.isfinite(float(v)) for v in s.values.values()):
            return
        st, RE, info = run_real(self.h, self.cfg, self.tier, self.seed, s.byname, E.choices)
        if st == 'violation':
            self.replays += 1
            if not self.violations:
                self.violations.append({
                    'harness': self.h.name, 'cfg': self.cfg, 'choices': RE.chosen,
                    'values': {k: (int(v) if isinstance(v, (int, np.integer)) else float(v)) for k, v in RE.used.items()},
                    'label': info[0], 'detail': info[1], 'tier': self.tier})
            return
        if st == 'error':
            self.errors.append(str(info)[:1500])
            return
        if st == 'skip':
            return
        self.validated += 1
        if self.witness is None:
            self.witness = {'asserts': RE.nassert, 'values': {k: float(v) for k, v in list(RE.used.items())[:12]}}
        if len(RE.values) != len(E.values):
            if any(path.f_edge(f, s.ev) for f in CTX.constraints):
                self.validated -= 1     # a tie of a branch condition: rounding may take the other branch
                return
            self.mismatches.append('assertion sequences differ (%d symbolic, %d real)' % (len(E.values), len(RE.values)))
            return
        for (l1, av), (l2, rv) in zip(E.values, RE.values):
            if l1 != l2 or len(av) != len(rv):
                self.mismatches.append('%s vs %s' % (l1, l2))
                return
            for x, y in zip(av, rv):
                try:
                    if isinstance(x, (bool, np.bool_)):
                        v = int(x)
                    elif isinstance(x, SymBool):
                        b = path.f_eval(x.f, s.ev)
                        if b is None:
                            continue
                        v = int(b)
                    else:
                        v = s.ev(_num(x))
                except (KeyError, OverflowError, ZeroDivisionError, ValueError):
                    continue
                if v != v or not np.isfinite(y):
                    continue
                if abs(v - y) > 1e-4 * max(1.0, abs(v), abs(y)):
                    self.mismatches.append('%s: symbolic %s, real %s' % (l1, v, y))
                    return

    def model_sample(self):
        """An input of the current path from a solver model, if it checks out numerically."""
        try:
            r, m, enc = CTX.solve([True], timeout=1500, want_model=True)
            if m is None:
                return None
            s = path.ModelSample(CTX, m, enc)
            if all(path.f_eval(f, s.ev) is not False for f in CTX.constraints):
                return s
        except (KeyError, Unsupported, ArithmeticError, ValueError):
            pass
        return None

    def fallback(self, n, choices=None):
        """Reduced mode (stated in the evidence): concrete runs only."""
        rnd = random.Random(self.seed * 104729 + zlib.crc32(json.dumps(self.cfg, sort_keys=True, default=str).encode()))
        for _ in range(n):
            if time.time() > self.deadline + 15 or self.violations:
                break
            self.reduced_runs += 1
            self.replay(None, choices, rnd)

    def go(self):
        CTX.reset_all()
        CTX.stats = Stats()
        CTX.seed = self.seed
        CTX.deadline = self.deadline
        opts0 = dict(snp.OPTS)
        CTX.timeout = self.h.tmo or (8000 if self.tier == 'quick' else 60000)
        t0 = time.time()
        npath = 0
        try:
            while CTX.worklist:
                if time.time() > self.deadline:
                    self.complete = False
                    break
                if npath >= self.h.maxpaths:
                    self.complete = False
                    break
                if self.violations:
                    self.complete = False
                    break
                prefix = CTX.worklist.pop()
                CTX.begin_path(prefix)
                CTX.stats.paths += 1
                snp.OPTS.clear()
                snp.OPTS.update(opts0)
                E = SymE(self.tier, self.seed, self)
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        self.h.fn(E, **self.cfg)
                except PathAbort:
                    CTX.stats.aborted += 1
                    continue
                except BudgetExceeded as e:
                    self.complete = False
                    self.unsupported.append('budget: %s' % e)
                    self.fallback(3, dict(E.choices))
                    break
                except Unsupported as e:
                    if not any(str(e) in u for u in self.unsupported):
                        self.unsupported.append('%s [%s]' % (e, where_in_repo(e)))
                        self.dbg(e)
                        self.fallback(self.h.fallback, dict(E.choices))
                    else:
                        self.fallback(2, dict(E.choices))
                    self.collect(E)
                    continue
                except EngineStop as e:
                    self.unsupported.append(repr(e))
                    continue
                except (RecursionError, MemoryError) as e:
                    self.dbg(e)
                    self.unsupported.append(repr(e)[:200])
                    self.fallback(self.h.fallback, dict(E.choices))
                    continue
                except Exception as e:
                    self.collect(E)
                    self.dbg(e)
                    self.crash = crash_key(e) if not where_in_repo(e) else None
                    self.candidate(E, 'unexpected %s' % type(e).__name__, '%s at %s' % (str(e)[:200], where_in_repo(e)), None)
                    continue
                self.collect(E)
                npath += 1
                if CTX.samples:
                    self.reached += 1
                if ((self.validated < self.h.validate and npath <= 12) or npath % 37 == 0) and not self.violations:
                    self.validate_path(E)
            if CTX.worklist and not self.violations:
                self.complete = False
        finally:
            snp.OPTS.clear()
            snp.OPTS.update(opts0)
            CTX.active = False
        self.wall = time.time() - t0
        return self

    def dbg(self, e):
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exception(e)

    def collect(self, E):
        self.asserts += E.nassert
        for k, v in E.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v

    def result(self):
        s = CTX.stats
        return {k: getattr(self, k) for k in (
            'proved', 'identities', 'trivial', 'asserts', 'violations', 'unreproduced', 'unknowns', 'unsupported',
            'mismatches', 'validated', 'reached', 'errors', 'reduced_runs', 'complete', 'replays', 'labels', 'wall', 'witness')} | {
            'harness': self.h.name, 'cfg': self.cfg,
            'stats': dict(s.__dict__)}


_TS = None


def trivial_solver(diffs):
    global _TS
    z3 = path.z3
    if _TS is None:
        _TS = z3.Solver()
    _TS.push()
    try:
        enc = path.Encoder([('cmp', '!=', d) for d in diffs])
        fs = [enc.formula(('cmp', '!=', d)) for d in diffs]
        _TS.add(z3.Or(*fs) if fs else z3.BoolVal(False))
        return str(_TS.check())
    finally:
        _TS.pop()


def where_in_repo(e):
    w = ''
    for f in traceback.extract_tb(e.__traceback__):
        if '/doatools/' in f.filename:
            w = '%s:%d' % (os.path.relpath(f.filename, loader.REPO), f.lineno)
    return w
