"""Symbolic numpy: object arrays of ring elements and a numpy facade."""
import builtins
import itertools
import math
from fractions import Fraction as Fr
from functools import cmp_to_key

import numpy as np

from . import ring
from .ring import Sym, InfSym, Unsupported, T, to_sym, ZERO, ONE, J, mul
from . import path
from .path import CTX, SymBool, as_formula, mkbool, f_and, f_or, f_not

_nd = np.ndarray


class SArr(np.ndarray):
    """ndarray (dtype=object) whose elements are Sym (or SymBool)."""

    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        return dispatch_ufunc(ufunc, method, args, kw)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        mod = getattr(func, '__module__', '') or ''
        if mod.startswith('numpy.linalg'):
            f = LINALG.get(name)
            if f is None:
                raise Unsupported('numpy.linalg.%s' % name)
            return f(*args, **kwargs)
        f = OVERRIDES.get(name)
        if f is not None:
            return f(*args, **kwargs)
        return default_impl(func, args, kwargs)

    def __getitem__(self, k):
        r = _nd.__getitem__(self, fix_index(k))
        return r

    def __setitem__(self, k, v):
        k = fix_index(k)
        nw = self.__dict__.get('_nw')
        if nw is not None and not isinstance(v, (SymBool, bool, np.bool_)):
            v = narrowed(as_sarr(v), nw, False)
        if isinstance(v, (float, complex, int, np.generic)) and not isinstance(v, (bool, np.bool_)):
            v = to_sym(v)
        elif isinstance(v, (list, tuple)):
            v = as_sarr(v)
        elif isinstance(v, _nd) and v.dtype != object:
            if v.dtype != bool:
                v = as_sarr(v)
        if isinstance(v, (Sym, SymBool)):
            tgt = _nd.__getitem__(self, k)
            if isinstance(tgt, _nd):
                # numpy would try to interpret the scalar as a sequence
                w = np.empty((), dtype=object)
                w[()] = v
                _nd.__setitem__(self, k, w)
            else:
                _nd.__setitem__(self, k, v)
            return
        _nd.__setitem__(self, k, v)

    # complex structure -----------------------------------------------------
    @property
    def real(self):
        return emap(lambda x: x.real, self)

    @real.setter
    def real(self, v):
        im = emap(lambda x: x.imag, self)
        self[...] = as_sarr(v) + im * J

    @property
    def imag(self):
        return emap(lambda x: x.imag, self)

    @imag.setter
    def imag(self, v):
        re = emap(lambda x: x.real, self)
        self[...] = re + as_sarr(v) * J

    def conj(self):
        return emap(ring.conj, self)

    conjugate = conj

    # reductions ------------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if k:
            chk_kw('sum', k)
        return np_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if k:
            chk_kw('prod', k)
        return reduce_ufunc('multiply', self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if k:
            chk_kw('mean', k)
        return np_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        if k:
            chk_kw('var', k)
        return np_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        if k:
            chk_kw('std', k)
        return u_sqrt(np_var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        if k:
            chk_kw('max', k)
        return reduce_ufunc('maximum', self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        if k:
            chk_kw('min', k)
        return reduce_ufunc('minimum', self, axis, keepdims)

    def ptp(self, axis=None, **k):
        if k:
            chk_kw('ptp', k)
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        if k:
            chk_kw('any', k)
        return reduce_ufunc('logical_or', self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        if k:
            chk_kw('all', k)
        return reduce_ufunc('logical_and', self, axis, keepdims)

    def argmax(self, axis=None, out=None, **k):
        if k:
            chk_kw('argmax', k)
        return np_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        if k:
            chk_kw('argmin', k)
        return np_argmin(self, axis)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        if k:
            chk_kw('argsort', k)
        return np_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        if k:
            chk_kw('sort', k)
        if self.ndim == 0:
            return
        ax = axis % self.ndim
        mv = np.moveaxis(self.view(_nd), ax, -1)
        for idx in np.ndindex(*mv.shape[:-1]):
            row = list(mv[idx])
            o = sort_perm(row)
            for i, p in enumerate(o):
                mv[idx + (i,)] = row[p]

    def cumsum(self, axis=None, dtype=None, out=None):
        return np_cumsum(self, axis)

    def dot(self, o):
        return np_dot(self, o)

    def round(self, decimals=0, out=None):
        raise Unsupported('round of a symbolic array')

    def astype(self, dtype, *a, **k):
        if isinstance(dtype, str):
            dtype = np.dtype(dtype)
        if dtype in (int, np.int_, np.int32, np.int64) or (isinstance(dtype, (type, np.dtype)) and np.dtype(dtype).kind in 'iu'):
            if all(isinstance(x, Sym) and x.is_const() for x in self.flat):
                r = np.array([int(x) for x in self.flat], dtype=int).reshape(self.shape)
                return r if np.dtype(dtype).itemsize == 8 else r.astype(dtype)
            if np.dtype(dtype).itemsize < 8:
                w = 256 ** np.dtype(dtype).itemsize
                h = w // 2 if np.dtype(dtype).kind == 'i' else 0
                r = SArr.astype(self, int)
                return r - w * emap(e_floor, (r + h) / w)
            if not all(isinstance(x, SymBool) or isinstance(x, Sym) and integral(x) for x in self.flat):
                if not all(isinstance(x, SymBool) or isinstance(x, Sym) and not isinstance(x, InfSym) and ring.is_real(x) for x in self.flat):
                    raise Unsupported('astype(int) of complex or infinite values')
                r = self.copy()
                for i in np.ndindex(*self.shape):
                    if isinstance(r[i], Sym):
                        r[i] = e_trunc(r[i])
                return r
            return self.copy()
        if dtype in (bool, np.bool_):
            return np.array([bool(x) for x in self.flat], dtype=bool).reshape(self.shape)
        nw = narrow(dtype)
        if nw is not None:
            return narrowed(self, nw)
        return self.copy()

    def nonzero(self):
        return np_nonzero(self)

    def clip(self, lo=None, hi=None, **k):
        if k:
            chk_kw('clip', k)
        return np_clip(self, lo, hi)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return np_sum(np_diag(self, offset))

    def tolist(self):
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def item(self, *a):
        return self.view(_nd).item(*a)

    def fill(self, v):
        self[...] = v

    def copy(self, order='C'):
        return _nd.copy(self, order)

    def __deepcopy__(self, memo):
        return self.copy()

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self.flat[0])

    def __index__(self):
        if self.size != 1:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return self.view(_nd).flat[0].__index__()

    def __float__(self):
        raise Unsupported('float(array)')

    def __complex__(self):
        raise Unsupported('complex(array)')

    def __divmod__(self, o):
        raise Unsupported('divmod')

    def __reduce__(self):
        raise Unsupported('pickle')

    def __repr__(self):
        return 'SArr%s' % (self.shape,)

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index1(x) for x in k)
    return fix_index1(k)


def fix_index1(k):
    if isinstance(k, SArr) or (isinstance(k, _nd) and k.dtype == object):
        return native_index(k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, list) and any(isinstance(x, (Sym, SymBool)) for x in k):
        return native_index(as_sarr(k))
    return k


def native_index(k):
    flat = list(k.view(_nd).flat)
    if flat and all(isinstance(x, (SymBool, bool, np.bool_)) for x in flat):
        return np.array([bool(x) for x in flat], dtype=bool).reshape(k.shape)
    return np.array([to_sym(x).__index__() for x in flat], dtype=int).reshape(k.shape)


def _elem(x):
    """Element normalisation inside arrays."""
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    s = to_sym(x)
    if s is None:
        raise TypeError('unsupported element %r' % (type(x),))
    return s


def as_sarr(x):
    """Any array-like -> SArr (fresh memory unless already SArr)."""
    if isinstance(x, SArr):
        return x
    if isinstance(x, Sym):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SArr)
    if isinstance(x, SymBool):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SArr)
    if isinstance(x, _nd):
        r = np.empty(x.shape, dtype=object)
        rf = r.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            rf[i] = to_sym(v) if x.dtype != object else _elem(v)
        return r.view(SArr)
    if isinstance(x, (list, tuple, range)):
        shp = _shape_of(x)
        r = np.empty(shp, dtype=object)
        flat = []
        _flatten(x, len(shp), flat)
        rf = r.reshape(-1)
        for i, v in enumerate(flat):
            rf[i] = _elem(v)
        return r.view(SArr)
    s = to_sym(x)
    if s is None:
        raise TypeError('cannot convert %r to a symbolic array' % type(x))
    return as_sarr(s)


def _shape_of(x):
    if isinstance(x, _nd):
        return x.shape
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return (0,)
        s0 = _shape_of(x[0])
        for y in x[1:]:
            if _shape_of(y) != s0:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(x),) + s0
    return ()


def _flatten(x, nd, out):
    if nd == 0:
        if isinstance(x, _nd):
            x = x.item()
        out.append(x)
        return
    if isinstance(x, _nd):
        out.extend(x.reshape(-1))
        return
    for y in x:
        _flatten(y, nd - 1, out)


def has_sym(x):
    if isinstance(x, (Sym, SymBool, SArr)):
        return True
    if isinstance(x, _nd):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def wrap(obj):
    """Post-process an object ndarray coming from numpy internals."""
    if isinstance(obj, _nd) and obj.dtype == object and not isinstance(obj, SArr):
        return obj.view(SArr)
    if isinstance(obj, tuple):
        return tuple(wrap(o) for o in obj)
    if isinstance(obj, list):
        return [wrap(o) for o in obj]
    return obj


def finish(arr):
    """Object result array -> SArr / native bool / scalar."""
    if arr.ndim == 0:
        return arr.item()
    if arr.size and all(type(x) is bool for x in arr.reshape(-1)):
        return arr.astype(bool)
    return arr.view(SArr)


def emap(f, *arrs):
    arrs = [as_sarr(a).view(_nd) for a in arrs]
    b = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shape = b[0].shape
    r = np.empty(shape, dtype=object)
    if r.ndim == 0:
        return f(*[_elem(x.item()) for x in b])
    rf = r.reshape(-1)
    for i, xs in enumerate(zip(*[x.reshape(-1) for x in b])):
        rf[i] = f(*[_elem(x) for x in xs])
    if r.size and all(type(x) is bool for x in rf):
        return r.astype(bool)
    return r.view(SArr)


def _num(x):
    if isinstance(x, (SymBool, bool)):
        return Sym.const(int(bool(x)))
    return x


def _b(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    r = path.compare('!=', x, ZERO)
    return r


def e_max(a, b):
    a, b = _num(a), _num(b)
    return a if CTX.truth(CTX.cmp('<=', b, a)) else b


def e_min(a, b):
    a, b = _num(a), _num(b)
    return a if CTX.truth(CTX.cmp('<=', a, b)) else b


def _and(a, b):
    return mkbool(f_and([as_formula(_b(a)), as_formula(_b(b))]))


def _or(a, b):
    return mkbool(f_or([as_formula(_b(a)), as_formula(_b(b))]))


def _not(a):
    return mkbool(f_not(as_formula(_b(a))))


def _xor(a, b):
    a, b = _b(a), _b(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    r = (a if isinstance(a, SymBool) else SymBool(a)) ^ b
    return r


def e_sign(x):
    x = _num(x)
    if CTX.truth(CTX.cmp('<', x, ZERO)):
        return Sym.const(-1)
    if CTX.truth(CTX.cmp('==', x, ZERO)):
        return ZERO
    return ONE


def e_divide(a, b):
    a, b = _num(a), _num(b)
    if isinstance(b, Sym) and not isinstance(b, InfSym) and b.is_zero():
        # numpy warns and yields inf/nan instead of raising
        if a.is_zero():
            return InfSym(float('nan'))
        if CTX.truth(CTX.cmp('<', ZERO, a)):
            return InfSym(float('inf'))
        return InfSym(float('-inf'))
    return a / b


def e_recip(x):
    return e_divide(ONE, x)


def PIS():
    return Sym({((ring.PI.id, 1),): (1, 0)})


def e_isfinite(x):
    return not isinstance(x, InfSym)


def e_log(x):
    x = _num(x)
    if not isinstance(x, InfSym) and x.is_zero():
        return InfSym(float('-inf'))
    if not isinstance(x, InfSym) and not ring.is_real(x):
        # principal logarithm
        return ring.log(ring.absolute(x)) + Sym.const(0, 1) * ring.angle(x)
    return ring.log(x)


def e_logk(k):
    def f(x):
        return e_log(x) / ring.log(Sym.const(k))
    return f


def e_floor(x):
    x = _num(x)
    if x.is_const():
        return Sym.const(math.floor(Fr(x.cval()[0])))
    if all(T.atoms[a].isint for m in x.t for a, e in m) and all(isinstance(c[0], int) for c in x.t.values()):
        return x
    if isinstance(x, InfSym):
        return x
    if not ring.is_real(x):
        raise Unsupported('floor of a complex value')
    # integer parts move outside: floor(x + n) = floor(x) + n
    whole = {m: c for m, c in x.t.items() if isinstance(c[0], int) and all(T.atoms[a].isint and e > 0 for a, e in m)}
    rest = Sym({m: c for m, c in x.t.items() if m not in whole})
    return Sym(whole) + ring.floor_atom(rest)


def e_ceil(x):
    return -e_floor(-_num(x))


def e_round(x):
    x = _num(x)
    if x.is_const():
        return Sym.const(round(Fr(x.cval()[0])))
    if integral(x):
        return x
    if not ring.is_real(x):
        raise Unsupported('rounding of a complex value')
    return e_floor(x + Sym.const(Fr(1, 2)))


def np_round(a, decimals=0, out=None):
    if out is not None:
        raise Unsupported('round out')
    f = Fr(10) ** int(decimals)
    return emap(lambda x: e_round(_num(x) * Sym.const(f)) / Sym.const(f), a)


def e_trunc(x):
    x = _num(x)
    if x.is_const():
        return Sym.const(math.trunc(Fr(x.cval()[0])))
    return e_ceil(x) if CTX.truth(CTX.cmp('<', x, ZERO)) else e_floor(x)


UF = {
    'add': lambda a, b: _num(a) + _num(b),
    'subtract': lambda a, b: _num(a) - _num(b),
    'multiply': lambda a, b: _num(a) * _num(b),
    'true_divide': e_divide, 'divide': e_divide,
    'negative': lambda a: -_num(a), 'positive': lambda a: a,
    'power': lambda a, b: ring.power(_num(a), _num(b)),
    'float_power': lambda a, b: ring.power(_num(a), _num(b)),
    'square': lambda a: _num(a) * _num(a),
    'absolute': lambda a: ring.absolute(_num(a)), 'fabs': lambda a: ring.absolute(_num(a)),
    'conjugate': lambda a: ring.conj(_num(a)),
    'sqrt': lambda a: ring.sqrt(_num(a)),
    'exp': lambda a: ring.exp(_num(a)),
    'log': e_log, 'log2': e_logk(2), 'log10': e_logk(10),
    'log1p': lambda a: e_log(a + ONE),
    'sin': lambda a: ring.sin(_num(a)), 'cos': lambda a: ring.cos(_num(a)), 'tan': lambda a: ring.tan(_num(a)),
    'arcsin': lambda a: ring.arcsin(_num(a)), 'arccos': lambda a: ring.arccos(_num(a)),
    'arctan2': lambda a, b: ring.arctan2(_num(a), _num(b)),
    'arctan': lambda a: ring.arctan2(_num(a), ONE),
    'deg2rad': lambda a: a * PIS() / 180, 'radians': lambda a: a * PIS() / 180,
    'rad2deg': lambda a: a * 180 / PIS(), 'degrees': lambda a: a * 180 / PIS(),
    'reciprocal': e_recip,
    'hypot': lambda a, b: ring.sqrt(a * a + b * b),
    'sign': e_sign,
    'maximum': e_max, 'minimum': e_min, 'fmax': e_max, 'fmin': e_min,
    'less': lambda a, b: path.compare('<', _num(a), _num(b)),
    'less_equal': lambda a, b: path.compare('<=', _num(a), _num(b)),
    'greater': lambda a, b: path.compare('>', _num(a), _num(b)),
    'greater_equal': lambda a, b: path.compare('>=', _num(a), _num(b)),
    'equal': lambda a, b: path.compare('==', _num(a), _num(b)) if not (isinstance(a, SymBool) or isinstance(b, SymBool)) else _not(_xor(a, b)),
    'not_equal': lambda a, b: path.compare('!=', _num(a), _num(b)) if not (isinstance(a, SymBool) or isinstance(b, SymBool)) else _xor(a, b),
    'logical_and': _and, 'logical_or': _or, 'logical_not': _not, 'logical_xor': _xor,
    'bitwise_and': _and, 'bitwise_or': _or, 'invert': _not, 'bitwise_xor': _xor,
    'isnan': lambda a: isinstance(a, InfSym) and math.isnan(a.f),
    'isinf': lambda a: isinstance(a, InfSym) and math.isinf(a.f),
    'isfinite': e_isfinite,
    'floor': e_floor, 'ceil': e_ceil, 'rint': e_round, 'trunc': e_trunc,
    'floor_divide': lambda a, b: CTX.floordiv(_num(a), _num(b)),
    'remainder': lambda a, b: _num(a) % _num(b), 'mod': lambda a, b: _num(a) % _num(b),
}

IDENT = {'add': ZERO, 'multiply': ONE, 'logical_or': False, 'logical_and': True}


def dispatch_ufunc(ufunc, method, args, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    where = kw.pop('where', True)
    if where is not True:
        raise Unsupported('ufunc where=')
    if method == '__call__':
        if name == 'matmul':
            r = np_matmul(*args)
        else:
            f = UF.get(name)
            if f is None:
                raise Unsupported('ufunc %s' % name)
            args = [InfObj(a) for a in args]
            r = emap(f, *args)
    elif method == 'reduce':
        r = reduce_ufunc(name, args[0], kw.pop('axis', 0), kw.pop('keepdims', False))
    elif method == 'outer':
        a, b = as_sarr(args[0]), as_sarr(args[1])
        r = emap(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'accumulate':
        if name != 'add':
            raise Unsupported('accumulate %s' % name)
        r = np_cumsum(args[0], kw.pop('axis', 0))
    elif method == 'at':
        a, idx, v = args
        idx = fix_index(idx)
        v = as_sarr(v)
        tmp = as_sarr(a)
        ii = np.arange(a.size).reshape(a.shape)[idx]
        vv = np.broadcast_to(v.view(_nd), ii.shape)
        for i, x in zip(ii.reshape(-1), vv.reshape(-1)):
            u = np.unravel_index(i, a.shape)
            a[u] = UF[name](_elem(a[u]), _elem(x))
        return None
    else:
        raise Unsupported('ufunc method %s' % method)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o.dtype != object:
            if isinstance(r, _nd) and r.dtype != object:
                o[...] = r
                return o
            if o.dtype == bool:
                o[...] = np.array([bool(x) for x in np.broadcast_to(as_sarr(r).view(_nd), o.shape).reshape(-1)]).reshape(o.shape)
                return o
            if o.dtype.kind in 'iu':
                raise np.core._exceptions.UFuncTypeError.__mro__[1](
                    "Cannot cast ufunc '%s' output to integer" % name)
            raise Unsupported('in-place result into a native float array')
        rr = as_sarr(r)
        if isinstance(o, SArr) and o.__dict__.get('_nw') is not None:
            rr = as_sarr(narrowed(rr, o._nw, False))
        if np.broadcast_shapes(rr.shape, o.shape) != o.shape:
            raise ValueError('non-broadcastable output operand with shape %s' % (o.shape,))
        o.view(_nd)[...] = rr.view(_nd)
        return o
    return r


def InfObj(a):
    return a


def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, tuple):
        return tuple(a % nd for a in axis)
    if not -nd <= axis < nd:
        raise np.AxisError(axis, nd)
    return (axis % nd,)


def reduce_ufunc(name, a, axis=None, keepdims=False):
    a = as_sarr(a)
    if a.ndim == 0:
        x = _elem(a.view(_nd).item())
        return _b(x) if name.startswith('logical') else x
    ax = norm_axis(axis, a.ndim)
    rest = tuple(i for i in range(a.ndim) if i not in ax)
    b = a.view(_nd).transpose(rest + ax).reshape(tuple(a.shape[i] for i in rest) + (-1,)) if a.size else None
    rshape = tuple(a.shape[i] for i in rest)
    r = np.empty(rshape, dtype=object)
    f = UF[name]
    n = int(np.prod([a.shape[i] for i in ax])) if ax else 1
    for idx in np.ndindex(*rshape):
        row = [_elem(x) for x in b[idx]] if n and b is not None else []
        if name == 'add':
            v = ring_sum([_num(x) for x in row])
        elif not row:
            if name not in IDENT:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            v = IDENT[name]
        elif name in ('logical_or', 'bitwise_or'):
            v = mkbool(f_or([as_formula(_b(x)) for x in row]))
        elif name in ('logical_and', 'bitwise_and'):
            v = mkbool(f_and([as_formula(_b(x)) for x in row]))
        else:
            v = row[0]
            for x in row[1:]:
                v = f(v, x)
        r[idx] = v
    if keepdims:
        r = r.reshape(tuple(1 if i in ax else a.shape[i] for i in range(a.ndim)))
    return finish(r)


def ring_sum(xs):
    if not xs:
        return ZERO
    if any(isinstance(x, InfSym) for x in xs):
        v = xs[0]
        for x in xs[1:]:
            v = v + x
        return v
    acc = {}
    for s in xs:
        for m, c in s.t.items():
            e = acc.get(m)
            if e is None:
                acc[m] = c
            else:
                acc[m] = (e[0] + c[0], e[1] + c[1])
    return Sym({m: (ring._norm(c[0]) if not isinstance(c[0], int) else c[0], ring._norm(c[1]) if not isinstance(c[1], int) else c[1]) for m, c in acc.items() if not (c[0] == 0 and c[1] == 0)})


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a0 = a
    if isinstance(a, (list, tuple)) or not isinstance(a, _nd):
        if not has_sym(a) and not isinstance(a, (list, tuple)):
            return np.sum(a)
    if isinstance(a, _nd) and a.dtype != object and a.dtype.kind in 'iub':
        return np.sum(a, axis=axis, keepdims=keepdims)
    return reduce_ufunc('add', a, axis, keepdims)


def _count(a, axis):
    ax = norm_axis(axis, a.ndim)
    n = 1
    for i in ax:
        n *= a.shape[i]
    return n


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_sarr(a)
    n = _count(a, axis)
    if n == 0:
        return to_sym(float('nan'))
    return reduce_ufunc('add', a, axis, keepdims) * Sym.const(Fr(1, n))


def np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return np_mean(a, axis)
    a = as_sarr(a)
    w = as_sarr(weights)
    if a.shape != w.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        sh = [1] * a.ndim
        sh[axis] = w.size
        w = w.reshape(sh)
    return reduce_ufunc('add', a * w, axis) / reduce_ufunc('add', np.broadcast_to(w.view(_nd), a.shape), axis)


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = as_sarr(a)
    n = _count(a, axis)
    m = np_mean(a, axis, keepdims=True)
    d = a - m
    sq = emap(lambda x: mul(x, ring.conj(x)), d)
    return reduce_ufunc('add', sq, axis, keepdims) * Sym.const(Fr(1, n - ddof))


def np_std(a, axis=None, ddof=0, keepdims=False, **k):
    return u_sqrt(np_var(a, axis, ddof=ddof, keepdims=keepdims))


def np_cumsum(a, axis=None, dtype=None, out=None):
    a = as_sarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    r = np.empty(a.shape, dtype=object)
    mv = np.moveaxis(a.view(_nd), axis, 0)
    rv = np.moveaxis(r, axis, 0)
    acc = None
    for i in range(mv.shape[0]):
        cur = as_sarr(mv[i]) if isinstance(mv[i], _nd) else mv[i]
        acc = cur if acc is None else acc + cur
        rv[i] = acc
    return r.view(SArr)


# --------------------------------------------------------------- matmul -----
def np_matmul(a, b, out=None, **k):
    if not has_sym(a) and not has_sym(b):
        if getattr(a, 'dtype', np.dtype(float)).kind in 'iub' and getattr(b, 'dtype', np.dtype(float)).kind in 'iub':
            return np.matmul(a, b)
    A, B = as_sarr(a), as_sarr(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    A, B = A.view(_nd), B.view(_nd)
    sq0 = sq1 = False
    if A.ndim == 1:
        A = A[np.newaxis]
        sq0 = True
    if B.ndim == 1:
        B = B[:, np.newaxis]
        sq1 = True
    if A.shape[-1] != B.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc signature (n?,k),(k,m?)->(n?,m?) (size %d is different from %d)' % (B.shape[-2], A.shape[-1]))
    if A.ndim > 2 or B.ndim > 2:
        bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        A = np.broadcast_to(A, bs + A.shape[-2:])
        B = np.broadcast_to(B, bs + B.shape[-2:])
        r = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
        for idx in np.ndindex(*bs):
            r[idx] = _mm(A[idx], B[idx])
    else:
        r = _mm(A, B)
    if sq0:
        r = r[..., 0, :]
    if sq1:
        r = r[..., 0]
    return finish(np.asarray(r))


def _mm(A, B):
    n, k = A.shape
    m = B.shape[1]
    Al = [[_num(_elem(x)) for x in row] for row in A]
    Bl = [[_num(_elem(x)) for x in row] for row in B.T]
    r = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            r[i, j] = ring_sum([x * y for x, y in zip(Al[i], Bl[j])
                                if (isinstance(x, InfSym) or x.t) and (isinstance(y, InfSym) or y.t)])
    return r


def np_dot(a, b, out=None):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        if a.shape[-1] != b.shape[-2 if b.ndim == 2 else 0]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        return np_matmul(a, b)
    raise Unsupported('dot of high-dimensional arrays')


def np_vdot(a, b):
    a, b = as_sarr(a).reshape(-1), as_sarr(b).reshape(-1)
    return np_matmul(a.conj(), b)


def np_inner(a, b):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        return np_matmul(a, b if b.ndim == 1 else b.T)
    raise Unsupported('inner')


def np_outer(a, b, out=None):
    a, b = as_sarr(a).reshape(-1), as_sarr(b).reshape(-1)
    return emap(UF['multiply'], a[:, np.newaxis], b[np.newaxis, :])


def np_kron(a, b):
    a, b = as_sarr(a), as_sarr(b)
    nd = max(a.ndim, b.ndim)
    a = a.reshape((1,) * (nd - a.ndim) + a.shape)
    b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    sa, sb = [], []
    for x, y in zip(a.shape, b.shape):
        sa += [x, 1]
        sb += [1, y]
    p = emap(UF['multiply'], a.reshape(sa), b.reshape(sb))
    return p.reshape([x * y for x, y in zip(a.shape, b.shape)])


def np_einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported('einsum interleaved form')
    spec = spec.replace(' ', '')
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    if '->' in spec:
        ins, outs = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        outs = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    ops = [as_sarr(o).view(_nd) for o in ops]
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match operand')
        for c, n in zip(s, o.shape):
            if dim.setdefault(c, n) != n:
                raise ValueError('operands could not be broadcast together in einsum')
    inner = [c for c in dim if c not in outs]
    r = np.empty([dim[c] for c in outs], dtype=object)
    for oi in np.ndindex(*r.shape):
        env = dict(zip(outs, oi))
        terms = []
        for ii in itertools.product(*[range(dim[c]) for c in inner]):
            env.update(zip(inner, ii))
            p = ONE
            for s, o in zip(ins, ops):
                p = p * _num(_elem(o[tuple(env[c] for c in s)]))
                if not isinstance(p, InfSym) and not p.t:
                    break
            terms.append(p)
        r[oi] = ring_sum(terms)
    return finish(r)


def np_tensordot(a, b, axes=2):
    a, b = as_sarr(a), as_sarr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [i % a.ndim for i in ax]
    bx = [i % b.ndim for i in bx]
    ra = [i for i in range(a.ndim) if i not in ax]
    rb = [i for i in range(b.ndim) if i not in bx]
    A = a.transpose(ra + ax).reshape(int(np.prod([a.shape[i] for i in ra])), -1)
    B = b.transpose(bx + rb).reshape(-1, int(np.prod([b.shape[i] for i in rb])))
    return np_matmul(A, B).reshape([a.shape[i] for i in ra] + [b.shape[i] for i in rb])


# --------------------------------------------------------------- sorting ----
def sort_perm(row):
    """Stable ascending permutation with symbolic comparisons."""
    row = [_num(_elem(x)) for x in row]
    if all(isinstance(x, Sym) and not isinstance(x, InfSym) and x.is_const() for x in row):
        vals = [(Fr(x.cval()[0]), Fr(x.cval()[1])) for x in row]
        return sorted(range(len(row)), key=lambda i: vals[i])

    perm = []
    for i in range(len(row)):
        lo, hi = 0, len(perm)
        # binary insertion after equal elements (stable)
        while lo < hi:
            mid = (lo + hi) // 2
            if CTX.truth(CTX.cmp('<', row[i], row[perm[mid]])):
                hi = mid
            else:
                lo = mid + 1
        perm.insert(lo, i)
    return perm


def np_argsort(a, axis=-1, kind=None, order=None, **k):
    if not has_sym(a):
        return np.argsort(a, axis=axis, kind='stable' if kind is None else kind)
    a = as_sarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    mv = np.moveaxis(a.view(_nd), axis, -1)
    r = np.empty(mv.shape, dtype=int)
    for idx in np.ndindex(*mv.shape[:-1]):
        r[idx] = sort_perm(list(mv[idx]))
    return np.moveaxis(r, -1, axis)


def np_sort(a, axis=-1, **k):
    if not has_sym(a):
        return wrapf(np.sort(a, axis=axis))
    a = as_sarr(a).copy()
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    a.sort(axis)
    return a


def np_lexsort(keys, axis=-1):
    if not has_sym(keys):
        return np.lexsort(keys, axis)
    keys = [as_sarr(k) for k in keys]
    n = keys[0].size
    ks = [[_num(_elem(x)) for x in k] for k in keys][::-1]

    def less(i, j):
        for k in ks:
            if CTX.truth(CTX.cmp('<', k[i], k[j])):
                return True
            if CTX.truth(CTX.cmp('<', k[j], k[i])):
                return False
        return False
    perm = []
    for i in range(n):
        p = len(perm)
        while p > 0 and less(i, perm[p - 1]):
            p -= 1
        perm.insert(p, i)
    return np.array(perm, dtype=int)


def _argbest(a, axis, better):
    if not has_sym(a):
        return None
    a = as_sarr(a)

    def best(row):
        row = [_num(_elem(x)) for x in row]
        if not row:
            raise ValueError('attempt to get argmax/argmin of an empty sequence')
        b = 0
        for i in range(1, len(row)):
            if isinstance(row[b], InfSym) and math.isnan(row[b].f):
                break
            if better(row[i], row[b]):
                b = i
        return b
    if axis is None:
        return np.int64(best(a.view(_nd).reshape(-1)))
    mv = np.moveaxis(a.view(_nd), axis, -1)
    r = np.empty(mv.shape[:-1], dtype=int)
    for idx in np.ndindex(*mv.shape[:-1]):
        r[idx] = best(mv[idx])
    return r


def np_argmax(a, axis=None, out=None, **k):
    r = _argbest(a, axis, lambda x, y: CTX.truth(CTX.cmp('<', y, x)))
    return np.argmax(a, axis) if r is None else r


def np_argmin(a, axis=None, out=None, **k):
    r = _argbest(a, axis, lambda x, y: CTX.truth(CTX.cmp('<', x, y)))
    return np.argmin(a, axis) if r is None else r


def np_argpartition(a, kth, axis=-1, **k):
    return np_argsort(a, axis)


def np_partition(a, kth, axis=-1, **k):
    return np_sort(a, axis)


def np_max(a, axis=None, out=None, keepdims=False, **k):
    if not has_sym(a):
        return wrapf(np.max(a, axis=axis))
    return reduce_ufunc('maximum', a, axis, keepdims)


def np_min(a, axis=None, out=None, keepdims=False, **k):
    if not has_sym(a):
        return wrapf(np.min(a, axis=axis))
    return reduce_ufunc('minimum', a, axis, keepdims)


def np_any(a, axis=None, out=None, keepdims=False, **k):
    if not has_sym(a):
        return np.any(a, axis=axis)
    return reduce_ufunc('logical_or', a, axis, keepdims)


def np_all(a, axis=None, out=None, keepdims=False, **k):
    if not has_sym(a):
        return np.all(a, axis=axis)
    return reduce_ufunc('logical_and', a, axis, keepdims)


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not has_sym(a):
        r = np.prod(a, axis=axis)
        return r if np.asarray(r).dtype.kind in 'iub' else wrapf(r)
    return reduce_ufunc('multiply', a, axis, keepdims)


def np_nonzero(a):
    if not has_sym(a):
        return np.nonzero(a)
    a = as_sarr(a)
    m = np.array([bool(_b(_elem(x))) for x in a.view(_nd).reshape(-1)], dtype=bool).reshape(a.shape)
    return np.nonzero(m)


def np_where(c, *xy):
    if not xy:
        return np_nonzero(c)
    x, y = xy
    if not has_sym(c) and not has_sym(x) and not has_sym(y):
        return wrapf(np.where(c, x, y))
    return emap(lambda c, x, y: x if bool(_b(c)) else y, c, x, y)


def np_clip(a, lo=None, hi=None, out=None, **k):
    r = a
    if lo is not None:
        r = emap(e_max, r, lo)
    if hi is not None:
        r = emap(e_min, r, hi)
    return r


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not has_sym(a):
        return np.unique(a, return_index, return_inverse, return_counts, axis)
    if axis is not None:
        raise Unsupported('unique with axis')
    a = as_sarr(a).reshape(-1)
    row = [_num(_elem(x)) for x in a.view(_nd)]
    p = sort_perm(row)
    uniq, idx, inv, cnt = [], [], [0] * len(row), []
    for i in p:
        if uniq and CTX.truth(CTX.cmp('==', row[i], uniq[-1])):
            cnt[-1] += 1
        else:
            uniq.append(row[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(uniq) - 1
    res = [as_sarr(uniq)]
    if return_index:
        res.append(np.array(idx, dtype=int))
    if return_inverse:
        res.append(np.array(inv, dtype=int))
    if return_counts:
        res.append(np.array(cnt, dtype=int))
    return res[0] if len(res) == 1 else tuple(res)


def np_searchsorted(a, v, side='left', sorter=None):
    if not has_sym(a) and not has_sym(v):
        return np.searchsorted(a, v, side)
    arr = [_num(_elem(x)) for x in as_sarr(a).view(_nd)]

    def one(x):
        n = 0
        for y in arr:
            c = path.compare('<', y, x) if side == 'left' else path.compare('<=', y, x)
            if not bool(c):
                break
            n += 1
        return n
    v2 = as_sarr(v)
    r = np.array([one(_num(_elem(x))) for x in v2.view(_nd).reshape(-1)], dtype=int).reshape(v2.shape)
    return r if r.ndim else int(r)


def np_diff(a, n=1, axis=-1, **k):
    if not has_sym(a):
        return wrapf(np.diff(a, n, axis))
    a = as_sarr(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = _num(x), _num(y)
        return path.compare('<=', ring.absolute(x - y), to_sym(atol) + to_sym(rtol) * ring.absolute(y))
    return emap(f, a, b)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np_all(np_isclose(a, b, rtol, atol)))


def np_array_equal(a, b, **k):
    a, b = np_asarray(a), np_asarray(b)
    if a.shape != b.shape:
        return False
    if not has_sym(a) and not has_sym(b):
        return np.array_equal(a, b)
    return bool(np_all(emap(UF['equal'], a, b)))


def np_diag(v, k=0):
    if isinstance(v, (list, tuple)):
        v = np_array(v)
    if v.ndim == 1 and has_sym(v):
        n = v.size + abs(k)
        r = sfull((n, n), ZERO)
        for i in range(v.size):
            if k >= 0:
                r[i, i + k] = v[i]
            else:
                r[i - k, i] = v[i]
        return r
    return wrapf(np.diag(v.view(_nd), k))


def np_fill_diagonal(a, val, wrap=False):
    if a.dtype != object:
        return np.fill_diagonal(a, val)
    n = min(a.shape)
    if isinstance(val, (_nd, list, tuple)):
        vals = list(as_sarr(val).view(_nd).reshape(-1))
    else:
        vals = [val]
    for i in range(n):
        a[(i,) * a.ndim] = vals[i % len(vals)]


def np_trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    return np_sum(np_diag(as_sarr(a), offset))


def np_cov(*a, **k):
    raise Unsupported('np.cov')


# --------------------------------------------------------------- creation ---
def is_floatish(dtype):
    if dtype is None:
        return True
    if isinstance(dtype, type) and issubclass(dtype, (float, complex)) or dtype is object:
        return True
    return np.dtype(dtype).kind in 'fcO'


def narrow(dtype):
    """the dtype, when it has less than double precision"""
    if dtype is None or dtype is object or isinstance(dtype, type) and dtype in (float, complex):
        return None
    try:
        d = np.dtype(dtype)
    except TypeError:
        return None
    return d if d.kind == 'f' and d.itemsize < 8 or d.kind == 'c' and d.itemsize < 16 else None


def narrow1(x, d):
    """x rounded to less than double precision: an unknown value (exactly known for constants)"""
    if not isinstance(x, Sym) or isinstance(x, InfSym):
        return x
    part = np.dtype('f%d' % (d.itemsize // (2 if d.kind == 'c' else 1)))

    def rnd(v):
        if v.is_zero():
            return v
        if v.is_const() and list(v.t) in ([], [()]):
            c = v.t[()]
            f = Fr(float(part.type(float(c[0]))))
            return v if f == c[0] else Sym.const(f)
        CTX.narrow = True
        key = ('narrow', part.itemsize, v.key())
        return uf_atom('narrow', key, (part.itemsize,), lambda e, at: float(part.type(e(v).real)), [v])
    if ring.is_real(x):
        return rnd(x)
    return rnd(x.real) + J * rnd(x.imag)


def narrowed(a, d, mark=True):
    r = emap(lambda x: narrow1(x, d), a)
    if mark and isinstance(r, SArr):
        r._nw = d
    return r


def sfull(shape, v):
    if isinstance(shape, (int, np.integer, Sym)):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    r = np.empty(shape, dtype=object)
    s = v if isinstance(v, SymBool) else to_sym(v)
    r.fill(s) if not r.ndim == 0 else r.__setitem__((), s)
    return r.view(SArr)


def np_zeros(shape, dtype=None, order='C', **k):
    if is_floatish(dtype):
        r = sfull(shape, ZERO)
        r._nw = narrow(dtype)
        return r
    return np.zeros(fixshape(shape), dtype=dtype)


def np_ones(shape, dtype=None, order='C', **k):
    if is_floatish(dtype):
        r = sfull(shape, ONE)
        r._nw = narrow(dtype)
        return r
    return np.ones(fixshape(shape), dtype=dtype)


def fixshape(shape):
    if isinstance(shape, (int, np.integer, Sym)):
        return int(shape)
    return tuple(int(s) for s in shape)


def np_empty(shape, dtype=None, order='C', **k):
    """Uninitialised memory: arbitrary values (fresh unknowns)."""
    if not is_floatish(dtype):
        return np.zeros(fixshape(shape), dtype=dtype)
    r = sfull(shape, ZERO)
    rf = r.view(_nd).reshape(-1)
    for i in range(rf.size):
        n = CTX.fresh_index('empty')
        rf[i] = CTX.new_var('__uninit%d' % n, isinput=False)
    r._nw = narrow(dtype)
    return r


def np_full(shape, fill_value, dtype=None, order='C', **k):
    if isinstance(fill_value, (list, tuple, _nd)):
        r = np_empty0(shape)
        r[...] = fill_value
        return r
    if dtype is not None and not is_floatish(dtype):
        return np.full(fixshape(shape), fill_value, dtype=dtype)
    if dtype is None and isinstance(fill_value, (bool, np.bool_)):
        return np.full(fixshape(shape), fill_value)
    if dtype is None and isinstance(fill_value, (int, np.integer)):
        return np.full(fixshape(shape), fill_value)
    if isinstance(shape, (float,)) and not isinstance(shape, Sym):
        raise TypeError("'float' object cannot be interpreted as an integer")
    r = sfull(shape, fill_value)
    return r if narrow(dtype) is None else narrowed(r, narrow(dtype))


def np_empty0(shape):
    return sfull(shape, ZERO)


def _like(fn):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        a = np_asarray(a)
        sh = a.shape if shape is None else shape
        if dtype is None and a.dtype != object and a.dtype.kind in 'iub':
            return fn(sh, dtype=a.dtype)
        return fn(sh, dtype)
    return f


np_zeros_like = _like(np_zeros)
np_ones_like = _like(np_ones)
np_empty_like = _like(np_empty)


def np_full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    a = np_asarray(a)
    if dtype is None and a.dtype != object and a.dtype.kind in 'iub' and not has_sym(fill_value):
        return np.full_like(a, fill_value)
    return np_full(a.shape if shape is None else shape, to_sym(fill_value), dtype)


def np_eye(N, M=None, k=0, dtype=None, order='C', **kw):
    M = N if M is None else M
    if dtype is not None and not is_floatish(dtype):
        return np.eye(int(N), int(M), k, dtype=dtype)
    r = sfull((int(N), int(M)), ZERO)
    for i in range(int(N)):
        if 0 <= i + k < int(M):
            r[i, i + k] = ONE
    r._nw = narrow(dtype)
    return r


def np_identity(n, dtype=None, **k):
    return np_eye(n, dtype=dtype)


def np_array(object, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    obj = object
    r = _np_array(obj, dtype)
    if copy and (r is obj or (isinstance(obj, _nd) and np.shares_memory(r, obj))):
        r = r.copy()
    while r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def _np_array(obj, dtype=None):
    nw = narrow(dtype)
    if nw is not None:
        return narrowed(as_sarr(_np_array0(obj, None)), nw)
    return _np_array0(obj, dtype)


def _np_array0(obj, dtype=None):
    if isinstance(obj, SArr):
        if dtype is not None and not is_floatish(dtype):
            return obj.astype(dtype)
        return obj
    if isinstance(obj, _nd):
        if obj.dtype == object:
            return obj.view(SArr)
        if (dtype is None and obj.dtype.kind in 'iub') or (dtype is not None and not is_floatish(dtype)):
            return np.asarray(obj, dtype=dtype)
        return as_sarr(obj)
    if isinstance(obj, Sym) or isinstance(obj, SymBool):
        return as_sarr(obj)
    if isinstance(obj, (list, tuple, range)):
        shp = _shape_of(obj)
        flat = []
        _flatten(obj, len(shp), flat)
        if any(isinstance(x, str) for x in flat):
            return np.array(obj)
        if (dtype is not None and is_floatish(dtype)) or any(
                isinstance(x, (Sym, SymBool, float, complex, np.floating, np.complexfloating)) for x in flat) or (not flat and dtype is None):
            r = as_sarr(obj)
            if dtype is not None and not is_floatish(dtype):
                return r.astype(dtype)
            return r
        return np.array(obj, dtype=dtype)
    if isinstance(obj, (float, complex, np.floating, np.complexfloating)):
        return as_sarr(obj)
    if hasattr(obj, '__iter__') and not isinstance(obj, (str, bytes, dict)):
        if hasattr(obj, '__len__') and hasattr(obj, '__getitem__'):
            return _np_array([obj[i] for i in range(len(obj))], dtype)
    return np.array(obj, dtype=dtype)


def np_asarray(obj, dtype=None, order=None, **k):
    return _np_array(obj, dtype)


def np_fromiter(it, dtype=None, count=-1, **k):
    xs = list(it)
    if count != -1:
        if len(xs) < count:
            raise ValueError('iterator too short')
        xs = xs[:count]
    if any(isinstance(x, Sym) for x in xs):
        return as_sarr(xs)
    return np.array(xs, dtype=dtype) if not is_floatish(dtype) else as_sarr(xs)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if num < 0:
        raise ValueError('Number of samples, %s, must be non-negative.' % num)
    div = (num - 1) if endpoint else num
    a, b = np_asarray(start), np_asarray(stop)
    a, b = as_sarr(a), as_sarr(b)
    d = b - a
    rows = []
    step = None
    for i in range(num):
        if div > 0:
            rows.append(a + d * Sym.const(Fr(i, div)))
        else:
            rows.append(a + d * Sym.const(i))
    if endpoint and num > 1:
        rows[-1] = b
    r = as_sarr(rows) if rows else sfull((0,), ZERO)
    if div > 0:
        step = d * Sym.const(Fr(1, div))
    else:
        step = to_sym(float('nan'))
    if dtype is not None and (not is_floatish(dtype) or narrow(dtype) is not None):
        r = r.astype(dtype)
    return (r, step) if retstep else r


def np_arange(*args, **k):
    dtype = k.get('dtype')
    args = [a.cval()[0] if isinstance(a, Sym) and a.is_integer() else a for a in args]
    if not any(isinstance(a, Sym) for a in args) and all(isinstance(a, (int, np.integer)) for a in args):
        if dtype is None or not is_floatish(dtype):
            return np.arange(*args, **k)
        return as_sarr(np.arange(*args))
    if len(args) == 1:
        start, stop, step = ZERO, to_sym(args[0]), ONE
    else:
        start, stop = to_sym(args[0]), to_sym(args[1])
        step = to_sym(args[2]) if len(args) > 2 else ONE
    n = (stop - start) / step
    if not n.is_const():
        raise Unsupported('arange with symbolic length')
    n = max(0, math.ceil(Fr(n.cval()[0])))
    return as_sarr([start + step * i for i in range(n)]) if n else sfull((0,), ZERO)


def np_meshgrid(*xi, indexing='xy', sparse=False, copy=True):
    if not any(has_sym(x) for x in xi):
        return [wrapf(y) for y in np.meshgrid(*xi, indexing=indexing, sparse=sparse)]
    xs = [np_asarray(x).reshape(-1) for x in xi]
    nd = len(xs)
    s0 = (1,) * nd
    outs = [x.reshape(s0[:i] + (-1,) + s0[i + 1:]) for i, x in enumerate(xs)]
    if indexing == 'xy' and nd > 1:
        outs[0] = outs[0].reshape((1, -1) + s0[2:])
        outs[1] = outs[1].reshape((-1, 1) + s0[2:])
    if not sparse:
        sh = np.broadcast_shapes(*[o.shape for o in outs])
        outs = [bcast(o, sh).copy() for o in outs]
    return outs


def bcast(a, shape):
    r = np.broadcast_to(a.view(_nd) if isinstance(a, SArr) else a, shape)
    return wrap(np.array(r))


def np_broadcast_to(a, shape, subok=False):
    a = np_asarray(a)
    r = np.broadcast_to(a.view(_nd), shape)
    return wrap(r)


def np_iscomplexobj(x):
    if isinstance(x, Sym):
        return not ring.is_real(x)
    if isinstance(x, _nd) and x.dtype == object:
        return any(isinstance(e, Sym) and not ring.is_real(e) for e in x.view(_nd).reshape(-1))
    return np.iscomplexobj(x)


def np_isrealobj(x):
    return not np_iscomplexobj(x)


def np_isscalar(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    return np.isscalar(x)


def np_ndim(x):
    if isinstance(x, np.ndarray):
        return x.ndim
    return 0 if isinstance(x, (Sym, SymBool)) else np.ndim(x) if not isinstance(x, (list, tuple)) else len(_shape_of(x))


def np_shape(x):
    if isinstance(x, (Sym, SymBool)):
        return ()
    if isinstance(x, (list, tuple)):
        return _shape_of(x)
    return x.shape if isinstance(x, np.ndarray) else np.shape(x)


def np_size(x, axis=None):
    if isinstance(x, (Sym, SymBool)):
        return 1
    if isinstance(x, (list, tuple)):
        return int(np.prod(_shape_of(x)))
    if isinstance(x, np.ndarray):
        return x.size if axis is None else x.shape[axis]
    return np.size(x, axis)


def np_real(x):
    if isinstance(x, (Sym,)):
        return x.real
    return np_asarray(x).real if has_sym(x) else wrapf(np.real(x))


def np_imag(x):
    if isinstance(x, (Sym,)):
        return x.imag
    return np_asarray(x).imag if has_sym(x) else wrapf(np.imag(x))


def np_angle(z, deg=False):
    r = emap(lambda x: ring.angle(_num(x)), z)
    if deg:
        return r * 180 / PIS()
    return r


def np_result_type(*a):
    if any(has_sym(x) or (isinstance(x, (type, np.dtype, str)) and np.dtype(x) == np.dtype(object)) for x in a):
        return np.dtype(object)
    return np.result_type(*a)


def np_copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        raise Unsupported('copyto where')
    dst[...] = src if not isinstance(src, SArr) else bcast(src, dst.shape)


def np_pad(a, pad_width, mode='constant', **kw):
    a = np_asarray(a)
    if a.dtype != object:
        return wrapf(np.pad(a, pad_width, mode, **kw))
    if mode != 'constant':
        raise Unsupported('pad mode')
    c = kw.get('constant_values', 0)
    pw = np.broadcast_to(np.asarray(pad_width), (a.ndim, 2))
    r = sfull([int(n + p[0] + p[1]) for n, p in zip(a.shape, pw)], to_sym(c))
    r[tuple(slice(int(p[0]), int(p[0]) + n) for n, p in zip(a.shape, pw))] = a
    return r


def np_reshape(a, newshape=None, order='C', **k):
    sh = newshape if newshape is not None else k.get('shape')
    return np_asarray(a).reshape(sh, order=order)


def np_concatenate(arrs, axis=0, **k):
    arrs = [np_asarray(a) for a in arrs]
    if any(a.dtype == object for a in arrs):
        arrs = [as_sarr(a).view(_nd) for a in arrs]
    return wrap(np.concatenate(arrs, axis=axis))


def _at(nd):
    f = {1: np.atleast_1d, 2: np.atleast_2d, 3: np.atleast_3d}[nd]

    def g(*a):
        r = f(*[np_asarray(x).view(_nd) for x in a])
        return wrap(r)
    return g


def np_vstack(tup, **k):
    arrs = _at(2)(*list(tup))
    if not isinstance(arrs, (list, tuple)):
        arrs = [arrs]
    return np_concatenate(list(arrs), 0)


def np_hstack(tup, **k):
    arrs = _at(1)(*list(tup))
    if not isinstance(arrs, (list, tuple)):
        arrs = [arrs]
    arrs = list(arrs)
    return np_concatenate(arrs, 0 if arrs and arrs[0].ndim == 1 else 1)


def np_stack(arrays, axis=0, **k):
    arrs = [np_asarray(a) for a in arrays]
    nd = arrs[0].ndim + 1
    if len({a.shape for a in arrs}) != 1:
        raise ValueError('all input arrays must have the same shape')
    axis = axis % nd
    sl = (slice(None),) * axis + (np.newaxis,)
    return np_concatenate([a[sl] for a in arrs], axis)


def np_column_stack(tup):
    arrs = []
    for v in tup:
        a = np_asarray(v)
        if a.ndim < 2:
            a = a.reshape(-1, 1)
        arrs.append(a)
    return np_concatenate(arrs, 1)


def np_block(x):
    if isinstance(x, list) and x and isinstance(x[0], list):
        return np_concatenate([np_block(r) for r in x], -2)
    if isinstance(x, list):
        arrs = [np_asarray(a) for a in x]
        arrs = [a if a.ndim >= 2 else a.reshape(1, -1) for a in arrs]
        return np_concatenate(arrs, -1)
    return np_asarray(x)


def wrapf(x):
    """Native float results computed inside numpy -> exact."""
    if isinstance(x, _nd):
        if x.dtype == object:
            return x.view(SArr)
        if x.dtype.kind in 'fc':
            return as_sarr(x)
        return x
    if isinstance(x, (np.floating, np.complexfloating)):
        return to_sym(x)
    return x


def np_count_nonzero(a, axis=None, **k):
    if not has_sym(a):
        return np.count_nonzero(a, axis)
    return int(sum(bool(_b(_elem(x))) for x in as_sarr(a).view(_nd).reshape(-1)))


def np_nan_to_num(a, **k):
    return a


def np_interp(x, xp, fp, left=None, right=None, period=None):
    """interpolation at concrete abscissae"""
    try:
        xs = [Fr(_num(v).cval()[0]) if _num(v).is_const() else None for v in as_sarr(x).view(_nd).reshape(-1)]
        ps = [Fr(_num(v).cval()[0]) if _num(v).is_const() else None for v in as_sarr(xp).view(_nd).reshape(-1)]
    except (AttributeError, TypeError):
        raise Unsupported('interp')
    if None in xs or None in ps or period is not None or not ps:
        raise Unsupported('interp at symbolic abscissae')
    f = as_sarr(fp)
    out = []
    for v in xs:
        if v <= ps[0]:
            out.append(f[0] if v == ps[0] or left is None else _num(left))
        elif v >= ps[-1]:
            out.append(f[-1] if v == ps[-1] or right is None else _num(right))
        else:
            i = max(q for q in range(len(ps)) if ps[q] <= v)
            t = Sym.const((v - ps[i]) / (ps[i + 1] - ps[i]))
            out.append(f[i] + (f[i + 1] - f[i]) * t)
    r = as_sarr(out)
    return r.reshape(np.shape(x)) if np.ndim(x) else r[0]


def _writer(name):
    real = getattr(np, name)

    def f(a, where, v, *rest, **k):
        if isinstance(a, SArr):
            v = as_sarr(v) if np.ndim(v) else as_sarr([v])
            a0 = a.view(_nd)
            if name == 'put_along_axis':
                return real(a0, where, v.view(_nd) if v.size > 1 else v[0], *rest, **k)
            return real(a0, where, v.view(_nd), *rest, **k)
        if isinstance(v, (SArr, Sym)):
            raise Unsupported('np.%s of symbolic values into a plain array' % name)
        return real(a, where, v, *rest, **k)
    f.__name__ = 'np_' + name
    return f


np_put, np_place, np_putmask, np_put_along_axis = _writer('put'), _writer('place'), _writer('putmask'), _writer('put_along_axis')


def np_convolve(a, v, mode='full'):
    a, v = as_sarr(a), as_sarr(v)
    n, m = a.size, v.size
    full = []
    for k in range(n + m - 1):
        full.append(ring_sum([a[i] * v[k - i] for i in range(n) if 0 <= k - i < m]))
    full = as_sarr(full)
    if mode == 'full':
        return full
    if mode == 'valid':
        lo = min(n, m) - 1
        return full[lo:lo + max(n, m) - min(n, m) + 1]
    lo = (min(n, m) - 1) // 2
    return full[lo:lo + max(n, m)]


def np_polyval(p, x):
    p = as_sarr(p)
    r = ZERO
    if isinstance(x, _nd):
        r = np_zeros(x.shape)
    for c in p:
        r = r * x + c
    return r


def np_triu(m, k=0):
    m = as_sarr(m).copy()
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j - i < k:
                m[i, j] = ZERO
    return m


def np_tril(m, k=0):
    m = as_sarr(m).copy()
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j - i > k:
                m[i, j] = ZERO
    return m


def np_vectorize(f, *a, **k):
    return lambda *xs: emap(f, *xs)


def np_apply_along_axis(f, axis, arr, *a, **k):
    arr = as_sarr(arr)
    mv = np.moveaxis(arr.view(_nd), axis, -1)
    rows = [f(mv[idx].view(SArr), *a, **k) for idx in np.ndindex(*mv.shape[:-1])]
    r = as_sarr(rows)
    r = r.reshape(mv.shape[:-1] + r.shape[1:])
    return np.moveaxis(r, -1, axis) if r.ndim == arr.ndim else r


def np_finfo(*a):
    return FINFO


class _Finfo:
    @property
    def eps(self):
        return Sym.const(Fr(1, 2 ** 52))

    @property
    def tiny(self):
        return Sym.const(Fr(1, 2 ** 1022))

    @property
    def max(self):
        return Sym.const(Fr(2 ** 1023))


FINFO = _Finfo()


def _np_roll(a, shift, axis=None):
    return wrap(np.roll.__wrapped__(a, shift, axis))


OVERRIDES = {
    'sum': np_sum, 'nansum': np_sum, 'mean': np_mean, 'nanmean': np_mean, 'average': np_average, 'var': np_var, 'std': np_std,
    'cumsum': np_cumsum, 'prod': np_prod, 'product': np_prod,
    'matmul': np_matmul, 'dot': np_dot, 'vdot': np_vdot, 'inner': np_inner, 'outer': np_outer,
    'put': np_put, 'place': np_place, 'putmask': np_putmask, 'put_along_axis': np_put_along_axis, 'kron': np_kron, 'einsum': np_einsum, 'tensordot': np_tensordot,
    'argsort': np_argsort, 'sort': np_sort, 'lexsort': np_lexsort,
    'argmax': np_argmax, 'argmin': np_argmin, 'nanargmax': np_argmax, 'nanargmin': np_argmin,
    'argpartition': np_argpartition, 'partition': np_partition,
    'max': np_max, 'amax': np_max, 'nanmax': np_max, 'min': np_min, 'amin': np_min, 'nanmin': np_min,
    'any': np_any, 'all': np_all, 'nonzero': np_nonzero, 'flatnonzero': lambda a: np_nonzero(np_asarray(a).reshape(-1))[0],
    'where': np_where, 'clip': np_clip, 'unique': np_unique, 'searchsorted': np_searchsorted,
    'diff': np_diff, 'isclose': np_isclose, 'allclose': np_allclose, 'array_equal': np_array_equal,
    'diag': np_diag, 'diagonal': lambda a, offset=0, *x: np_diag(a, offset), 'fill_diagonal': np_fill_diagonal, 'trace': np_trace,
    'zeros': np_zeros, 'ones': np_ones, 'empty': np_empty, 'full': np_full,
    'zeros_like': np_zeros_like, 'ones_like': np_ones_like, 'empty_like': np_empty_like, 'full_like': np_full_like,
    'eye': np_eye, 'identity': np_identity,
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'ascontiguousarray': np_asarray,
    'fromiter': np_fromiter, 'copy': lambda a, *x, **k: np_asarray(a).copy(),
    'linspace': np_linspace, 'arange': np_arange, 'meshgrid': np_meshgrid, 'broadcast_to': np_broadcast_to,
    'iscomplexobj': np_iscomplexobj, 'isrealobj': np_isrealobj, 'isscalar': np_isscalar,
    'ndim': np_ndim, 'shape': np_shape, 'size': np_size,
    'iscomplex': lambda x: emap(lambda e: not ring.is_real(e), x), 'isreal': lambda x: emap(lambda e: ring.is_real(e), x),
    'real': np_real, 'imag': np_imag, 'angle': np_angle,
    'result_type': np_result_type, 'copyto': np_copyto, 'pad': np_pad, 'reshape': np_reshape,
    'concatenate': np_concatenate, 'vstack': np_vstack, 'row_stack': np_vstack, 'hstack': np_hstack, 'stack': np_stack,
    'column_stack': np_column_stack, 'block': np_block,
    'atleast_1d': _at(1), 'atleast_2d': _at(2), 'atleast_3d': _at(3),
    'count_nonzero': np_count_nonzero, 'nan_to_num': np_nan_to_num, 'interp': np_interp,
    'convolve': np_convolve, 'polyval': np_polyval, 'triu': np_triu, 'tril': np_tril,
    'vectorize': np_vectorize, 'apply_along_axis': np_apply_along_axis, 'finfo': np_finfo, 'cov': np_cov,
    'real_if_close': lambda a, tol=100: a,
    'round': np_round, 'around': np_round, 'round_': np_round, 'fix': lambda a: emap(e_trunc, a),
    'ptp': lambda a, axis=None: np_max(a, axis) - np_min(a, axis),
    'isin': lambda a, b, **k: emap(lambda x: mkbool(f_or([as_formula(path.compare('==', _num(x), _num(_elem(y)))) for y in as_sarr(b).view(_nd).reshape(-1)])), a),
    'in1d': lambda a, b, **k: emap(lambda x: mkbool(f_or([as_formula(path.compare('==', _num(x), _num(_elem(y)))) for y in as_sarr(b).view(_nd).reshape(-1)])), np_asarray(a).reshape(-1)),
}

UFUNC_LIFT = ['sqrt', 'exp', 'log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'tan', 'arcsin', 'arccos',
              'arctan2', 'arctan', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'reciprocal', 'hypot',
              'true_divide', 'divide', 'power', 'float_power']
ALIASES = {'abs': 'absolute', 'conj': 'conjugate', 'max': 'max', 'asin': 'arcsin', 'acos': 'arccos', 'atan2': 'arctan2'}


def lifted(name):
    f = UF[name]
    uf = getattr(np, name)

    def g(*args, **kw):
        out = kw.get('out')
        args2 = args
        if len(args) > uf.nin:
            out = args[uf.nin]
            args2 = args[:uf.nin]
        if name in ('power',) and not any(has_sym(a) for a in args2) and all(np.asarray(a).dtype.kind in 'iu' for a in args2):
            return uf(*args2)
        if out is not None:
            return dispatch_ufunc(uf, '__call__', args2, {'out': out})
        return emap(f, *args2)
    g.__name__ = name
    g.outer = lambda a, b: dispatch_ufunc(uf, 'outer', (a, b), {})
    return g


u_sqrt = lifted('sqrt')


def default_impl(func, args, kwargs):
    impl = getattr(func, '_implementation', None)
    if impl is None:
        raise Unsupported('numpy function %s' % func.__name__)
    args = tuple(plain(a) for a in args)
    kwargs = {k: plain(v) for k, v in kwargs.items()}
    return wrap(impl(*args, **kwargs))


def plain(a):
    if isinstance(a, SArr):
        return a.view(_nd)
    if isinstance(a, tuple):
        return tuple(plain(x) for x in a)
    if isinstance(a, list):
        return [plain(x) for x in a]
    return a


# ---------------------------------------------------------------------------
# linear algebra (contracts)
# ---------------------------------------------------------------------------
def mkey(M):
    return (M.shape, tuple(_elem(x).key() for x in M.view(_nd).reshape(-1)))


def msyms(M):
    return [_num(_elem(x)) for x in M.view(_nd).reshape(-1)]


def H(M):
    return M.conj().T


def is_diag(M):
    n = M.shape[0]
    return all(i == j or _num(_elem(M[i, j])).is_zero() for i in range(n) for j in range(n))


def is_herm(M):
    n = M.shape[0]
    return all((_num(_elem(M[i, j])) - ring.conj(_num(_elem(M[j, i])))).is_zero() for i in range(n) for j in range(i, n))


def is_sym(M):
    n = M.shape[0]
    return all((_num(_elem(M[i, j])) - _num(_elem(M[j, i]))).is_zero() for i in range(n) for j in range(i, n))


def is_realm(M):
    return all(ring.is_real(_num(_elem(x))) for x in M.view(_nd).reshape(-1))


def uf_atom(fam, key, idx, evalfn, deps):
    def init(a):
        a.data = (evalfn, deps)
        a.depth = 1 + max([T.atoms[i].depth for d in deps for i in ring.atoms_of(d)] or [0])
    a = T.get('uf', (fam, key, idx), '%s%d_%s' % (fam, sum(1 for x in T.atoms if x.kind == 'uf'), '_'.join(map(str, idx))), init)
    return Sym({((a.id, 1),): (1, 0)})


def numeric(ev, M):
    return np.array([ev(x) for x in msyms(M)], dtype=complex).reshape(M.shape)


def cached_num(ev, tag, fn):
    r = ev.cache.get(tag)
    if r is None:
        r = fn()
        ev.cache[tag] = r
    return r


def check_square(A):
    if A.ndim < 2:
        raise np.linalg.LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % A.ndim)
    if A.ndim > 2:
        raise Unsupported('stacked linear algebra')
    if A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')


OPTS = {'explicit_inv': 2, 'explicit_det': 4, 'eigh_facts': False, 'explicit_terms': 400}


def adjugate(M):
    n = M.shape[0]
    if n == 1:
        return sfull((1, 1), ONE)
    r = sfull((n, n), ZERO)
    for i in range(n):
        for j in range(n):
            rows = [a for a in range(n) if a != i]
            cols = [b for b in range(n) if b != j]
            d = det_raw(M[rows][:, cols])
            r[j, i] = d if (i + j) % 2 == 0 else -d
    return r


def det_raw(M):
    n = M.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return _num(_elem(M[0, 0]))
    if n == 2:
        a, b, c, d = msyms(M)
        return a * d - b * c
    tot = []
    cols = list(range(n))
    for j in range(n):
        e = _num(_elem(M[0, j]))
        if e.is_zero():
            continue
        s = e * det_raw(M[1:][:, [c for c in cols if c != j]])
        tot.append(s if j % 2 == 0 else -s)
    return ring_sum(tot)


def la_inv(A):
    A = as_sarr(A)
    check_square(A)
    n = A.shape[0]
    if n == 0:
        return A.copy()
    if is_diag(A):
        if any(_num(_elem(A[i, i])).is_zero() for i in range(n)):
            raise np.linalg.LinAlgError('Singular matrix')
        return np_diag(as_sarr([ring.inv(_num(_elem(A[i, i]))) for i in range(n)]))
    terms = sum(len(x.t) for x in msyms(A))
    if n <= OPTS['explicit_inv'] and terms <= OPTS['explicit_terms']:
        d = det_raw(A)
        if d.is_zero():
            raise np.linalg.LinAlgError('Singular matrix')
        return adjugate(A) * ring.inv(d)
    if n <= 10 and all(not x.t or list(x.t) == [()] for x in msyms(A)):
        return const_inv(A)
    return abstract_inv(A)


def const_inv(A):
    """Gauss-Jordan on (exact) constants."""
    n = A.shape[0]
    a = msyms(A)
    M = [a[i * n:(i + 1) * n] + [ONE if i == j else ZERO for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if not M[r][c].is_zero()), None)
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[p] = M[p], M[c]
        iv = ring.inv(M[c][c])
        M[c] = [x * iv for x in M[c]]
        for r in range(n):
            if r != c and not M[r][c].is_zero():
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    R = sfull((n, n), ZERO)
    for i in range(n):
        for j in range(n):
            R[i, j] = M[i][n + j]
    return R


def leadc(A):
    for x in msyms(A):
        if not x.is_zero():
            c = min(x.t.items(), key=lambda mc: mc[0])[1]
            return c
    raise np.linalg.LinAlgError('Singular matrix')


def abstract_inv(A):
    c = leadc(A)
    s = Sym.const(*c)
    if c != (1, 0):
        return abstract_inv(A * ring.inv(s)) * ring.inv(s)
    memo = CTX.memo.setdefault('inv', {})
    k = mkey(A)
    if k in memo:
        return memo[k].copy()
    for name, X in (('T', A.T), ('C', A.conj()), ('H', H(A))):
        c2 = leadc(X)
        X2 = X if c2 == (1, 0) else X * ring.inv(Sym.const(*c2))
        kx = mkey(X2)
        if kx in memo:
            r = memo[kx] * ring.inv(Sym.const(*c2))
            return {'T': lambda r: r.T.copy(), 'C': lambda r: r.conj(), 'H': lambda r: H(r)}[name](r)
    n = A.shape[0]
    herm, real = is_herm(A), is_realm(A)
    sy = is_sym(A)
    deps = msyms(A)
    R = sfull((n, n), ZERO)

    def ent(i, j, part):
        def ev(e, a):
            M = cached_num(e, ('inv', k), lambda: np.linalg.inv(numeric(e, A)))
            return float(M[i, j].real if part == 're' else M[i, j].imag)
        return uf_atom('inv', k, (i, j, part), ev, deps)
    for i in range(n):
        for j in range(n):
            if (herm or (real and sy)) and j < i:
                R[i, j] = ring.conj(R[j, i])
            elif sy and j < i:
                R[i, j] = R[j, i]
            else:
                x = ent(i, j, 're')
                if not real and not (herm and i == j):
                    x = x + J * ent(i, j, 'im')
                R[i, j] = x
    memo[k] = R
    CTX.memo.setdefault('inv_list', []).append((A, R))
    return R.copy()


def la_solve(a, b, **k):
    a, b = as_sarr(a), as_sarr(b)
    check_square(a)
    if b.ndim == 1:
        if b.shape[0] != a.shape[0]:
            raise ValueError('solve1: Input operand 1 has a mismatch in its core dimension 0')
    elif b.shape[-2] != a.shape[0]:
        raise ValueError('solve: Input operand 1 has a mismatch in its core dimension 0')
    return np_matmul(la_inv(a), b)


def truncating(a, rcond):
    """Is the matrix so badly conditioned that singular values below rcond times the largest are dropped?
    Decided by two of its columns (sufficient: the least singular value is at most, and the largest at
    least, the norm of any column); otherwise nothing is dropped."""
    if rcond is None or isinstance(rcond, str) or a.shape[1] < 2:
        return False
    t = _num(_elem(rcond)) if not isinstance(rcond, (int, float)) else Sym.const(Fr(rcond))
    if not t.is_const() or Fr(t.cval()[0]) <= Fr(1, 10 ** 11):
        return False

    def norm2(j):
        r = ZERO
        for i in range(a.shape[0]):
            z = _num(_elem(a[i, j]))
            r = r + z * ring.conj(z)
        return r
    return CTX.truth(CTX.cmp('<=', norm2(0), norm2(1) * t * t * Sym.const(Fr(1, 100))))


def la_pinv(a, rcond=None, hermitian=False, **k):
    """Full-rank contract, unless the caller drops small singular values."""
    a = as_sarr(a)
    if a.ndim != 2:
        raise np.linalg.LinAlgError('pinv of a non-matrix')
    m, n = a.shape
    if truncating(a, rcond):
        return truncated(a, float(rcond))
    if m == n:
        return la_inv(a)
    ah = H(a)
    if m > n:
        return np_matmul(la_inv(np_matmul(ah, a)), ah)
    return np_matmul(ah, la_inv(np_matmul(a, ah)))


def truncated(a, rcond):
    """The pseudo-inverse without its large singular values: not modelled beyond its numerical value."""
    m, n = a.shape
    key, deps = ('tpinv', rcond, mkey(a)), msyms(a)
    R = sfull((n, m), ZERO)

    def ent(i, j, part):
        def ev(e, at):
            M = cached_num(e, key, lambda: np.linalg.pinv(numeric(e, a), rcond))
            return float(M[i, j].real if part == 're' else M[i, j].imag)
        return uf_atom('tpinv', key, (i, j, part), ev, deps)
    for i in range(n):
        for j in range(m):
            R[i, j] = ent(i, j, 're') + J * ent(i, j, 'im')
    return R


def la_lstsq(a, b, rcond=None, **k):
    a, b = as_sarr(a), as_sarr(b)
    if a.shape[0] != b.shape[0]:
        raise np.linalg.LinAlgError('Incompatible dimensions')
    return np_matmul(la_pinv(a, rcond), b), sfull((0,), ZERO), min(a.shape), sfull((min(a.shape),), ONE)


def la_det(a):
    a = as_sarr(a)
    check_square(a)
    if is_diag(a):
        r = ONE
        for i in range(a.shape[0]):
            r = r * a[i, i]
        return r
    if a.shape[0] <= OPTS['explicit_det'] and sum(len(x.t) for x in msyms(a)) <= OPTS['explicit_terms'] * 2:
        return det_raw(a)
    k = mkey(a)
    herm = is_herm(a)

    def ev(part):
        def f(e, at):
            d = np.linalg.det(numeric(e, a))
            return float(d.real if part == 're' else d.imag)
        return f
    x = uf_atom('det', k, ('re',), ev('re'), msyms(a))
    if not herm and not is_realm(a):
        x = x + J * uf_atom('det', k, ('im',), ev('im'), msyms(a))
    return x


def la_slogdet(a):
    """Positive-definite / positive-determinant branch is forked."""
    d = la_det(a)
    if not ring.is_real(d):
        raise Unsupported('slogdet of a complex determinant')
    sg = e_sign(d)
    if sg.is_zero():
        return ZERO, InfSym(float('-inf'))
    lg = e_log(d if Fr(sg.cval()[0]) > 0 else -d)
    return sg, lg


def la_eigh(a, UPLO='L', **k):
    a = as_sarr(a)
    check_square(a)
    n = a.shape[0]
    # numpy reads one triangle only
    b = a.copy()
    for i in range(n):
        b[i, i] = _num(_elem(a[i, i])).real
        for j in range(i):
            lo = a[i, j] if UPLO == 'L' else ring.conj(a[j, i])
            b[i, j] = lo
            b[j, i] = ring.conj(_num(_elem(lo)))
    key = mkey(b)
    reg = CTX.memo.setdefault('eigh', {})
    if key in reg:
        v, U = reg[key]
        return v.copy(), U.copy()
    for rb, rv, rU in CTX.memo.setdefault('eigh_reg', []):
        if rb.shape == b.shape and all((x - y).is_zero() for x, y in zip(msyms(rb), msyms(b))):
            reg[key] = (rv, rU)
            return rv.copy(), rU.copy()
    # equality modulo rational-function normal form, decided by the solver
    for rb, rv, rU in CTX.memo['eigh_reg']:
        if rb.shape == b.shape and same_matrix(rb, b):
            reg[key] = (rv, rU)
            return rv.copy(), rU.copy()
    real = is_realm(b)
    deps = msyms(b)

    def num(e):
        return cached_num(e, ('eigh', key), lambda: np.linalg.eigh(numeric(e, b) if not real else numeric(e, b).real))
    v = as_sarr([uf_atom('eigv', key, (i,), (lambda e, at, i=i: float(num(e)[0][i])), deps) for i in range(n)])
    U = sfull((n, n), ZERO)
    for i in range(n):
        for j in range(n):
            x = uf_atom('eigU', key, (i, j, 're'), (lambda e, at, i=i, j=j: float(np.real(num(e)[1][i, j]))), deps)
            if not real:
                x = x + J * uf_atom('eigU', key, (i, j, 'im'), (lambda e, at, i=i, j=j: float(np.imag(num(e)[1][i, j]))), deps)
            U[i, j] = x
    for i in range(n - 1):
        at = T.atoms[list(ring.atoms_of(v[i]))[0]]
        CTX.atom_facts.setdefault(at.id, []).append(('cmp', '<=', v[i] - v[i + 1]))
    if OPTS['eigh_facts']:
        G = np_matmul(H(U), U) - np_eye(n)
        Q = np_matmul(b, U) - U * v
        fs = [('cmp', '==', x) for x in msyms(G) + msyms(Q) if not x.is_zero()]
        at = T.atoms[sorted(ring.atoms_of(U[0, 0]))[0]]
        CTX.atom_facts.setdefault(at.id, []).extend(fs)
    CTX.memo.setdefault('eigh_abs', []).append((b, v, U))
    reg[key] = (v, U)
    return v.copy(), U.copy()


def same_matrix(A, B):
    diffs = [x - y for x, y in zip(msyms(A), msyms(B))]
    for d in diffs:
        n, _ = ring.clear_denoms(d)
        if not n.is_zero():
            return False
    return True


def register_eigh(R, v, U):
    CTX.memo.setdefault('eigh_reg', []).append((as_sarr(R), as_sarr(v), as_sarr(U)))


def la_eigvalsh(a, UPLO='L'):
    return la_eigh(a, UPLO)[0]


def la_eigvals(a):
    a = as_sarr(a)
    check_square(a)
    n = a.shape[0]
    if n == 1:
        return a.reshape(-1).copy()
    for ra, rv in CTX.memo.setdefault('eig_reg', []):
        if ra.shape == a.shape and same_matrix(ra, a):
            return rv.copy()
    h = CTX.memo.get('eig_hook')
    if h is not None:
        r = h(a)
        if r is not None:
            return r
    if is_diag(a):
        return np_diag(a).copy()
    key = mkey(a)
    deps = msyms(a)

    def num(e):
        return cached_num(e, ('eig', key), lambda: np.linalg.eigvals(numeric(e, a)))
    return as_sarr([uf_atom('eig', key, (i, 're'), (lambda e, at, i=i: float(np.real(num(e)[i]))), deps)
                    + J * uf_atom('eig', key, (i, 'im'), (lambda e, at, i=i: float(np.imag(num(e)[i]))), deps)
                    for i in range(n)])


class NoVectors:
    """eigenvectors of a general matrix: only their use is refused"""
    __array_priority__ = 2000

    def _no(self, *a, **k):
        raise Unsupported('eig (eigenvectors of a general matrix)')
    __getattr__ = __getitem__ = __matmul__ = __rmatmul__ = __mul__ = __rmul__ = __add__ = __radd__ = __sub__ = __rsub__ = __array__ = __len__ = __iter__ = _no


def la_eig(a):
    return la_eigvals(a), NoVectors()


def la_svd(a, full_matrices=True, compute_uv=True, hermitian=False, **k):
    a = as_sarr(a)
    if a.ndim != 2:
        raise Unsupported('svd of stacked input')
    key = mkey(a)
    m, n = a.shape
    r = min(m, n)
    real = is_realm(a)
    deps = msyms(a)
    fm = bool(full_matrices)

    def num(e):
        return cached_num(e, ('svd', key, fm), lambda: np.linalg.svd(numeric(e, a) if not real else numeric(e, a).real, full_matrices=fm))

    def mat(fam, rows, cols, sel):
        M = sfull((rows, cols), ZERO)
        for i in range(rows):
            for j in range(cols):
                x = uf_atom(fam, (key, fm if (i >= r or j >= r) else 0), (i, j, 're'), (lambda e, at, i=i, j=j: float(np.real(num(e)[sel][i, j]))), deps)
                if not real:
                    x = x + J * uf_atom(fam, (key, fm if (i >= r or j >= r) else 0), (i, j, 'im'), (lambda e, at, i=i, j=j: float(np.imag(num(e)[sel][i, j]))), deps)
                M[i, j] = x
        return M
    s = as_sarr([uf_atom('svS', key, (i,), (lambda e, at, i=i: float(num(e)[1][i])), deps) for i in range(r)])
    for i in range(r):
        at = T.atoms[list(ring.atoms_of(s[i]))[0]]
        nxt = s[i + 1] if i + 1 < r else ZERO
        CTX.atom_facts.setdefault(at.id, [])
        f = ('cmp', '<=', nxt - s[i])
        if len(CTX.atom_facts[at.id]) < 1:
            CTX.atom_facts[at.id].append(f)
    if not compute_uv:
        return s
    U = mat('svU', m, m if full_matrices else r, 0)
    Vh = mat('svV', n if full_matrices else r, n, 2)
    return U, s, Vh


def la_norm(x, ord=None, axis=None, keepdims=False):
    x = as_sarr(x)
    if axis is None:
        if ord is None or (x.ndim == 1 and ord == 2) or (x.ndim == 2 and ord == 'fro'):
            sq = ring_sum([mul(e, ring.conj(e)) for e in msyms(x)])
            return ring.sqrt(sq)
        if x.ndim == 1 and ord == 1:
            return ring_sum([ring.absolute(e) for e in msyms(x)])
        if x.ndim == 1 and ord == np.inf:
            return reduce_ufunc('maximum', emap(lambda e: ring.absolute(_num(e)), x), None)
        raise Unsupported('norm ord=%r' % (ord,))
    if ord is None or ord == 2:
        if isinstance(axis, tuple) and len(axis) == 2 and ord == 2:
            raise Unsupported('spectral norm')
        sq = reduce_ufunc('add', emap(lambda e: mul(_num(e), ring.conj(_num(e))), x), axis, keepdims)
        return emap(lambda e: ring.sqrt(e), sq)
    if ord == 1 and isinstance(axis, int):
        return reduce_ufunc('add', emap(lambda e: ring.absolute(_num(e)), x), axis, keepdims)
    raise Unsupported('norm ord=%r axis=%r' % (ord, axis))


def la_matrix_power(a, n):
    a = as_sarr(a)
    if n < 0:
        a = la_inv(a)
        n = -n
    r = np_eye(a.shape[0])
    for _ in range(n):
        r = np_matmul(r, a)
    return r


def la_multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = np_dot(r, x)
    return r


def la_cholesky(a):
    raise Unsupported('cholesky')


def la_qr(a, mode='reduced'):
    raise Unsupported('qr')


def np_roots(p):
    p = as_sarr(p)
    if p.ndim != 1:
        raise ValueError('Input must be a rank-1 array.')
    for rp, rz in CTX.memo.setdefault('roots_reg', []):
        if rp.shape == p.shape and same_matrix(rp, p):
            return rz.copy()
    if all(x.is_const() for x in msyms(p)):
        return wrapf(np.roots(np.array([complex(*map(float, x.cval())) for x in msyms(p)])))
    h = CTX.memo.get('roots_hook')
    if h is not None:
        r = h(p)
        if r is not None:
            return r
    raise Unsupported('roots of an unregistered polynomial')


OVERRIDES['roots'] = np_roots

LINALG = {'inv': la_inv, 'solve': la_solve, 'pinv': la_pinv, 'lstsq': la_lstsq, 'det': la_det,
          'slogdet': la_slogdet, 'eigh': la_eigh, 'eigvalsh': la_eigvalsh, 'eigvals': la_eigvals,
          'eig': la_eig, 'svd': la_svd, 'norm': la_norm, 'matrix_power': la_matrix_power,
          'multi_dot': la_multi_dot, 'cholesky': la_cholesky, 'qr': la_qr,
          'LinAlgError': np.linalg.LinAlgError,
          'matrix_rank': lambda *a, **k: (_ for _ in ()).throw(Unsupported('matrix_rank'))}


# ---------------------------------------------------------------------------
# randomness: every draw is an unconstrained symbol of its documented range
# ---------------------------------------------------------------------------
def draw(kind, shape, lo=None, hi=None):
    """A fresh block of draws; kind 'n' standard normal, 'u' uniform."""
    if shape is None or shape == ():
        return draw1(kind, lo, hi)
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    r = sfull(shape, ZERO)
    rf = r.view(_nd).reshape(-1)
    for i in range(rf.size):
        rf[i] = draw1(kind, lo, hi)
    return r


def draw1(kind, lo, hi):
    i = CTX.fresh_index('draw')
    if kind == 'n':
        return CTX.new_var('draw_n%d' % i)
    return CTX.new_var('draw_u%d' % i, lo=lo, hi=hi)


def rng_unit(lo, hi, size):
    lo, hi = to_sym(lo), to_sym(hi)
    # lo + (hi-lo)*u would hide the range; draw directly in [lo, hi]
    lo2 = ring._norm(Fr(lo.cval()[0])) if lo.is_const() else lo
    hi2 = ring._norm(Fr(hi.cval()[0])) if hi.is_const() else hi
    return draw('u', size, lo2, hi2)


class Rng:
    def randn(self, *shape):
        return draw('n', shape if shape else None)

    def standard_normal(self, size=None, **k):
        return draw('n', size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return draw('n', size) * to_sym(scale) + to_sym(loc)

    def rand(self, *shape):
        return rng_unit(0, 1, shape if shape else None)

    def random(self, size=None):
        return rng_unit(0, 1, size)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return rng_unit(low, high, size)

    def seed(self, *a):
        return None

    def default_rng(self, *a):
        return self

    def RandomState(self, *a):
        return self

    def __getattr__(self, n):
        raise Unsupported('np.random.%s' % n)


class LinAlg:
    def __getattr__(self, n):
        if n in LINALG:
            return checked(LINALG[n], getattr(np.linalg, n, None), 'np.linalg.' + n)
        raise Unsupported('np.linalg.%s' % n)


HARMLESS = {'order', 'subok', 'like', 'kind', 'casting', 'stable', 'device', 'optimize', 'rcond', 'check_finite', 'overwrite_a', 'overwrite_b'}
NEUTRAL = {'where': (True,), 'keepdims': (False,), 'initial': (np._NoValue, None), 'out': (None,), 'dtype': (None, float, complex, np.float64, np.complex128),
           'returned': (False,), 'prepend': (np._NoValue,), 'append': (np._NoValue,), 'copy': (True,), 'equal_nan': (False,), 'assume_unique': (False,)}
OWN_KW = {'np_arange', 'np_pad', 'np_apply_along_axis', 'np_vectorize', 'np_reshape', 'np_interp', 'np_cov'}


def chk_kw(name, kw):
    """Options that the facade does not model are refused unless they change nothing."""
    for k, v in kw.items():
        if k in HARMLESS or any(v is x for x in NEUTRAL.get(k, ())) or k == 'dtype' and is_floatish(v):
            continue
        raise Unsupported('%s(%s=...)' % (name, k))


def checked(f, g, name):
    """f with numpy's parameter names, and unknown options refused."""
    import inspect
    try:
        pf = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return f
    var = next((x.name for x in pf if x.kind == x.VAR_KEYWORD), None)
    if f.__name__ in OWN_KW or any(x.kind == x.VAR_POSITIONAL for x in pf) and var is None:
        return f
    own = [x.name for x in pf if x.kind == x.POSITIONAL_OR_KEYWORD]
    try:
        pos = [x.name for x in inspect.signature(g).parameters.values() if x.kind == x.POSITIONAL_OR_KEYWORD] if g is not None else []
    except (TypeError, ValueError):
        pos = {'asarray': ['a'], 'asanyarray': ['a'], 'ascontiguousarray': ['a']}.get(name[3:], [])
    al = {p: o for p, o in zip(pos, own) if p != o and p not in own}

    def h(*a, **kw):
        if kw:
            kw = {al.get(k, k): v for k, v in kw.items()}
            extra = {k: v for k, v in kw.items() if k not in own}
            chk_kw(name, extra)
        return f(*a, **kw) if not kw or var is not None else f(*a, **{k: v for k, v in kw.items() if k in own})
    h.__name__ = f.__name__
    return h


def integral(x):
    return all(isinstance(c[0], int) and c[1] == 0 for c in x.t.values()) and all(T.atoms[a].isint and e > 0 for m in x.t for a, e in m)


class NP:
    """Facade standing for the numpy module."""

    def __init__(self):
        self.linalg = LinAlg()
        self.random = Rng()
        self._c = {}

    def __getattr__(self, n):
        c = self.__dict__['_c'].get(n)
        if c is not None:
            return c
        r = self._get(n)
        self.__dict__['_c'][n] = r
        return r

    def _get(self, n):
        if n == 'pi':
            return PIS()
        if n in ALIASES and n not in OVERRIDES:
            m = ALIASES[n]
            return lifted(m) if m in UFUNC_LIFT else getattr(np, m)
        if n in OVERRIDES:
            return checked(OVERRIDES[n], getattr(np, n, None), 'np.' + n)
        if n in UFUNC_LIFT:
            return lifted(n)
        if n == 'fft':
            raise Unsupported('np.fft')
        return getattr(np, n)


NPS = NP()
