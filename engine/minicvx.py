"""A recording stand-in for the part of cvxpy doatools uses.

Expressions evaluate lazily over symbolic values, so the problem that the real
code *states* can be compared with the documented one.  Solving is outside.
"""
import numpy as np

from . import ring, snp, path
from .ring import Unsupported, ZERO, ONE, to_sym, mul, Sym
from .snp import as_sarr, _num, _elem, _nd
from .path import CTX


FOUND = None


def variables(prob):
    """the variables that the problem depends on"""
    global FOUND
    FOUND = []
    try:
        prob.objective.value
        for c in prob.constraints:
            ev(c.a), ev(c.b)
        return list(FOUND)
    finally:
        FOUND = None


def ev(e):
    if not isinstance(e, Expr):
        return e
    v = e.value
    if v is None:
        raise Unsupported('value of an unassigned cvxpy leaf')
    return v


class Expr:
    __array_priority__ = 5000
    __array_ufunc__ = None

    def __init__(self, fn, shape):
        self._fn = fn
        self.shape = shape

    @property
    def value(self):
        return self._fn()

    @property
    def size(self):
        return int(np.prod(self.shape))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def T(self):
        return Expr(lambda: as_sarr(ev(self)).T, tuple(reversed(self.shape)))

    @property
    def H(self):
        return Expr(lambda: as_sarr(ev(self)).conj().T, tuple(reversed(self.shape)))

    def __getitem__(self, k):
        return Expr(lambda: as_sarr(ev(self))[k], ())

    def _bin(self, o, f):
        sh = np.broadcast_shapes(self.shape, getattr(o, 'shape', ()))
        return Expr(lambda: f(ev(self), ev(o)), sh)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if len(self.shape) == 2 and len(getattr(o, 'shape', ())) == 2:
            return self @ o
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if len(self.shape) == 2 and len(getattr(o, 'shape', ())) == 2:
            return matmul(o, self)
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __neg__(self):
        return Expr(lambda: -ev(self), self.shape)

    def __pow__(self, p):
        return Expr(lambda: ev(self) ** p, self.shape)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __le__(self, o):
        return Constraint(self, o)

    def __ge__(self, o):
        return Constraint(o, self)

    def __eq__(self, o):
        return Constraint(self, o, True)

    __hash__ = object.__hash__

    def flatten(self, *a, **k):
        return Expr(lambda: as_sarr(ev(self)).T.reshape(-1), (self.size,))


class Leaf(Expr):
    def __init__(self, shape=(), name=None, value=None, complex=False, nonneg=False, **k):
        if isinstance(shape, (int, np.integer)):
            shape = (int(shape),)
        self.shape = tuple(int(s) for s in shape)
        self._v = None
        self.nonneg = nonneg or k.get('pos', False)
        self.complex = complex
        if value is not None:
            self.value = value

    @property
    def value(self):
        if FOUND is not None and isinstance(self, Variable):
            if self not in FOUND:
                FOUND.append(self)
            if self._v is None:
                return snp.sfull(self.shape, ZERO) if self.shape else ZERO
        return self._v

    @value.setter
    def value(self, v):
        if v is not None:
            v2 = as_sarr(v)
            if v2.shape != self.shape:
                raise ValueError('Invalid dimensions %s for value.' % (v2.shape,))
            if self.nonneg and isinstance(self, Parameter):
                for x in v2.reshape(-1):
                    if CTX.truth(CTX.cmp('<', _num(x), ZERO)):
                        raise ValueError('Parameter value must be nonnegative.')
            if not self.complex and any(not ring.is_real(_num(x)) for x in v2.view(_nd).reshape(-1)):
                raise ValueError('Leaf value must be real.')
            v = v2.copy() if v2.ndim else _num(_elem(v2.view(_nd).item()))
        self._v = v


class Parameter(Leaf):
    pass


class Variable(Leaf):
    pass


class Constraint:
    def __init__(self, a, b, eq=False):
        self.a, self.b, self.eq = a, b, eq

    def violation(self):
        """elementwise max(0, a-b) summed as cvxpy's residual norm"""
        d = as_sarr(ev(self.a) - ev(self.b))
        return d

    def value(self, *a):
        raise Unsupported('constraint value')


def matmul(a, b):
    sa, sb = a.shape, b.shape
    if sa[-1] != sb[0]:
        raise ValueError('Incompatible dimensions %s %s' % (sa, sb))
    sh = tuple(sa[:-1]) + tuple(sb[1:])
    return Expr(lambda: snp.np_matmul(ev(a), ev(b)), sh)


def multiply(a, b):
    return Expr(lambda: ev(a) * ev(b), np.broadcast_shapes(getattr(a, 'shape', ()), getattr(b, 'shape', ())))


def flat(v):
    return [_num(_elem(x)) for x in as_sarr(v).view(_nd).reshape(-1)]


def sum_squares(e):
    return Expr(lambda: snp.ring_sum([mul(x, ring.conj(x)) for x in flat(ev(e))]), ())


def norm1(e, axis=None):
    if axis is not None:
        return norm(e, 1, axis)
    return Expr(lambda: snp.ring_sum([ring.absolute(x) for x in flat(ev(e))]), ())


def norm2(e, axis=None):
    return norm(e, 2, axis)


def norm(e, p=2, axis=None, keepdims=False):
    if axis is None:
        if p == 1:
            return norm1(e)
        if p == 'inf' or p == np.inf:
            return Expr(lambda: snp.np_max(snp.UF['absolute'](ev(e))), ())
        if p == 2 and len(e.shape) == 2 and min(e.shape) > 1:
            raise Unsupported('spectral norm')
        return Expr(lambda: ring.sqrt(snp.ring_sum([mul(x, ring.conj(x)) for x in flat(ev(e))])), ())
    sh = tuple(s for i, s in enumerate(e.shape) if i != axis % len(e.shape))
    return Expr(lambda: snp.la_norm(as_sarr(ev(e)), p, axis), sh)


def mixed_norm(X, p=2, q=1):
    if q != 1:
        raise Unsupported('mixed_norm q')
    return sum_(norm(X, p, axis=1))


def sum_(e, axis=None, keepdims=False):
    if axis is None:
        return Expr(lambda: snp.ring_sum(flat(ev(e))), ())
    sh = tuple(s for i, s in enumerate(e.shape) if i != axis % len(e.shape))
    return Expr(lambda: snp.np_sum(as_sarr(ev(e)), axis), sh)


def square(e):
    return Expr(lambda: ev(e) * ev(e), e.shape)


def abs_(e):
    return Expr(lambda: snp.emap(lambda x: ring.absolute(_num(x)), ev(e)), e.shape)


class Minimize:
    def __init__(self, e):
        self.args = [e]

    @property
    def value(self):
        return self.args[0].value if isinstance(self.args[0], Expr) else self.args[0]

    NAME = 'minimize'


class Maximize(Minimize):
    NAME = 'maximize'


class Problem:
    def __init__(self, objective, constraints=None):
        self.objective = objective
        self.constraints = list(constraints or [])
        self.status = None
        self.value = None

    def variables(self):
        return variables(self)

    def solve(self, *a, **k):
        h = CTX.memo.get('cvx_solve')
        if h is None:
            raise Unsupported('cvxpy solve without a contract')
        return h(self, a, k)


def make():
    from .stubs import Mod
    return Mod('cvxpy', {
        'Parameter': Parameter, 'Variable': Variable, 'matmul': matmul, 'multiply': multiply,
        'sum_squares': sum_squares, 'norm1': norm1, 'norm2': norm2, 'norm': norm, 'sum': sum_,
        'pnorm': norm, 'mixed_norm': mixed_norm,
        'square': square, 'abs': abs_, 'Minimize': Minimize, 'Maximize': Maximize, 'Problem': Problem})


MODULE = make()
