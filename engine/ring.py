"""Exact symbolic scalars.

A Sym is an element of the (Laurent) polynomial ring over the Gaussian
rationals generated by *atoms*.  Atoms are real variables, points of the unit
circle exp(j*basis), square roots, reciprocals, logarithms, entries of
abstract linear-algebra results, ...  All arithmetic is exact; nothing is
sampled or rounded here.
"""
from fractions import Fraction
from math import gcd, isqrt
import math
import numpy as _np

Fr = Fraction


class EngineStop(BaseException):
    """Base of engine control flow (never caught by code under test)."""


class Unsupported(EngineStop):
    pass


def _norm(q):
    if isinstance(q, int):
        return q
    if q.denominator == 1:
        return q.numerator
    return q


_LIFT = {}


def lift_float(f):
    """The simplest rational a float stands for (<= 4 ulp), else its exact value."""
    r = _LIFT.get(f)
    if r is not None:
        return r
    if f == int(f) and abs(f) < 1e18:
        r = int(f)
    else:
        x = Fraction(f)
        r = None
        for lim in (1000, 100000):
            c = x.limit_denominator(lim)
            if c != 0 and abs(c - x) <= 4 * Fraction(math.ulp(f)):
                r = c
                break
        if r is None:
            c = Fraction(repr(f))
            r = c
    _LIFT[f] = r
    return r


# ---------------------------------------------------------------------------
# atoms
# ---------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'kind', 'name', 'key', 'pos', 'nz', 'lo', 'hi', 'isint',
                 'data', 'strict', 'depth', 'sampler', 'isinput')

    def __init__(self, kind, name, key):
        self.kind = kind
        self.name = name
        self.key = key
        self.pos = False
        self.nz = False
        self.lo = None
        self.hi = None
        self.strict = False
        self.isint = False
        self.data = None
        self.depth = 0
        self.sampler = None
        self.isinput = False

    def __repr__(self):
        return self.name


class Table:
    """Global atom table (append only; keyed so re-execution is stable)."""

    def __init__(self):
        self.atoms = []
        self.bykey = {}

    def get(self, kind, key, name=None, init=None):
        k = (kind, key)
        a = self.bykey.get(k)
        if a is None:
            a = Atom(kind, name or ('%s%d' % (kind, len(self.atoms))), key)
            a.id = len(self.atoms)
            self.atoms.append(a)
            self.bykey[k] = a
            if init:
                init(a)
        return a


T = Table()
# kinds: 'var' real variable, 'pi', 'unit' exp(j*basis) , 'sqrt', 'inv',
#        'abs', 'log', 'asin', 'atan2', 'ang', 'uf' (abstract real value)

PI = T.get('pi', 'pi', 'pi')
PI.pos = PI.nz = True


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cmul(a, b):
    ar, ai = a
    br, bi = b
    if ai == 0 and bi == 0:
        return (ar * br, 0)
    return (ar * br - ai * bi, ar * bi + ai * br)


class Sym:
    __slots__ = ('t', '_h', '_cx')
    __array_priority__ = 2000

    def __init__(self, t):
        self.t = t
        self._h = None
        self._cx = None

    # numpy interop -------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *args, **kw):
        from . import snp
        return snp.dispatch_ufunc(ufunc, method, args, kw)

    # construction --------------------------------------------------------
    @staticmethod
    def const(re, im=0):
        re = _norm(re)
        im = _norm(im)
        if re == 0 and im == 0:
            return Sym({})
        return Sym({(): (re, im)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), (0, 0))

    def is_zero(self):
        return not self.t

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(((m, c) for m, c in self.t.items()), key=_tkey))
        return self._h

    def __hash__(self):
        if not isinstance(self, InfSym) and self.is_const():
            re, im = self.cval()
            try:
                return hash(Fr(re)) if im == 0 else hash((Fr(re), Fr(im)))
            except (TypeError, ValueError):
                pass
        raise Unsupported('hash of a symbolic value')

    # arithmetic ----------------------------------------------------------
    def __add__(self, o):
        o = to_sym(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return _arr('add', self, o)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            e = r.get(m)
            if e is None:
                r[m] = c
            else:
                s = (e[0] + c[0], e[1] + c[1])
                if s[0] == 0 and s[1] == 0:
                    del r[m]
                else:
                    r[m] = s
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: (-c[0], -c[1]) for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = to_sym(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return _arr('subtract', self, o)
        return self + (-o)

    def __rsub__(self, o):
        o = to_sym(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return _arr('subtract', o, self)
        return o + (-self)

    def __mul__(self, o):
        o = to_sym(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return _arr('multiply', self, o)
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = to_sym(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return _arr('true_divide', self, o)
        return mul(self, inv(o))

    def __rtruediv__(self, o):
        o = to_sym(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return _arr('true_divide', o, self)
        return mul(o, inv(self))

    def __floordiv__(self, o):
        from .path import CTX
        return CTX.floordiv(self, to_sym(o))

    def __rfloordiv__(self, o):
        from .path import CTX
        return CTX.floordiv(to_sym(o), self)

    def __mod__(self, o):
        from .path import CTX
        o = to_sym(o)
        return self - o * CTX.floordiv(self, o)

    def __rmod__(self, o):
        return to_sym(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - to_sym(o) * q

    def __pow__(self, o):
        o = to_sym(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return _arr('power', self, o)
        return power(self, o)

    def __rpow__(self, o):
        o = to_sym(o)
        if not isinstance(o, Sym):
            return _arr('power', o, self)
        return power(o, self)

    def __abs__(self):
        return absolute(self)

    # comparisons ---------------------------------------------------------
    def _cmp(self, op, o):
        from .path import SymBool, compare
        o2 = to_sym(o)
        if o2 is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            raise TypeError('cannot order symbolic number and %r' % type(o))
        if not isinstance(o2, Sym):
            return _arr({'<': 'less', '<=': 'less_equal', '>': 'greater',
                         '>=': 'greater_equal', '==': 'equal',
                         '!=': 'not_equal'}[op], self, o2)
        return compare(op, self, o2)

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def __eq__(self, o):
        return self._cmp('==', o)

    def __ne__(self, o):
        return self._cmp('!=', o)

    def __bool__(self):
        return bool(self._cmp('!=', 0))

    # complex interface ---------------------------------------------------
    def conjugate(self):
        return conj(self)

    conj = conjugate

    @property
    def real(self):
        c = conj(self)
        return Sym_half(self + c)

    @property
    def imag(self):
        d = self - conj(self)
        return mul(d, Sym.const(0, Fr(-1, 2)))

    @property
    def T(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def flatten(self, *a, **k):
        from . import snp
        return snp.as_sarr([self])

    def __index__(self):
        from .path import CTX
        return CTX.concretize_int(self)

    def __int__(self):
        from .path import CTX
        return CTX.to_int(self)

    def __float__(self):
        if self.is_const():
            re, im = self.cval()
            if im == 0:
                return float(re)
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        if self.is_const():
            re, im = self.cval()
            return complex(float(re), float(im))
        raise Unsupported('complex() of a symbolic value')

    def __round__(self, n=None):
        if self.is_const() and self.cval()[1] == 0:
            return round(Fraction(self.cval()[0]), n) if n is None else Sym.const(round(Fraction(self.cval()[0]), n))
        raise Unsupported('round')

    def is_integer(self):
        return self.is_const() and self.cval()[1] == 0 and isinstance(_norm(self.cval()[0]), int)

    # calculus ------------------------------------------------------------
    def diff(self, atom):
        return diff(self, atom)

    def __repr__(self):
        return show(self)

    __str__ = __repr__

    def __format__(self, spec):
        return show(self)


def _tkey(mc):
    return (mc[0], (Fr(mc[1][0]), Fr(mc[1][1])))


def _arr(name, a, b):
    from . import snp
    return snp.dispatch_ufunc(getattr(_np, name), '__call__', (a, b), {})


INF_TYPES = (float, _np.floating)


def to_sym(x):
    """Lift to Sym; returns ndarray unchanged, None if not a number.

    Infinities/NaN raise Unsupported (handled by the callers that allow them).
    """
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Sym.const(int(x))
    if isinstance(x, (int, _np.integer)):
        return Sym.const(int(x))
    if isinstance(x, Fraction):
        return Sym.const(x)
    if isinstance(x, (float, _np.floating)):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            return InfSym(f)
        return Sym.const(lift_float(f))
    if isinstance(x, (complex, _np.complexfloating)):
        c = complex(x)
        return Sym.const(lift_float(c.real), lift_float(c.imag))
    if isinstance(x, _np.ndarray):
        return x
    from .path import SymBool
    if isinstance(x, SymBool):
        return Sym.const(int(bool(x)))
    return None


class InfSym(Sym):
    """+-inf / nan flowing through arithmetic (array of distances etc.)."""
    __slots__ = ('f',)

    def __init__(self, f):
        Sym.__init__(self, {})
        self.f = f

    def is_const(self):
        return False

    def is_zero(self):
        return False

    def key(self):
        return ('inf', repr(self.f))

    def __float__(self):
        return self.f

    def _bin(self, o, fn):
        o2 = to_sym(o)
        if isinstance(o2, InfSym):
            return to_sym(fn(self.f, o2.f))
        if isinstance(o2, Sym) and o2.is_const():
            return to_sym(fn(self.f, float(o2)))
        if isinstance(o2, _np.ndarray):
            return NotImplemented
        raise Unsupported('arithmetic of infinity with a symbolic value')

    def __add__(self, o):
        o2 = to_sym(o)
        if isinstance(o2, _np.ndarray):
            return _arr('add', self, o2)
        if isinstance(o2, InfSym):
            return to_sym(self.f + o2.f)
        return self
    __radd__ = __add__

    def __neg__(self):
        return InfSym(-self.f)

    def __mul__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr('multiply', self, o)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr('true_divide', self, o)
        return self._bin(o, lambda a, b: a / b if b != 0 else a)

    def __rtruediv__(self, o):
        return Sym.const(0) if not math.isnan(self.f) else self

    def __abs__(self):
        return InfSym(abs(self.f))

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym.const(0)

    def __repr__(self):
        return repr(self.f)


def add_inf(a, b):
    return None


ZERO = Sym({})
ONE = Sym.const(1)
J = Sym.const(0, 1)


def Sym_half(s):
    return Sym({m: (_half(c[0]), _half(c[1])) for m, c in s.t.items()})


def _half(q):
    if isinstance(q, int) and q % 2 == 0:
        return q // 2
    return _norm(Fr(q) / 2)


def mono_mul(a, b):
    """Multiply two monomials; returns (monomial, needs_reduction)."""
    if not a:
        return b, False
    if not b:
        return a, False
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    red = False
    atoms = T.atoms
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e != 0:
                if not isinstance(e, int) and e.denominator == 1:
                    e = e.numerator
                out.append((x[0], e))
                k = atoms[x[0]].kind
                if k == 'sqrt' or k == 'abs' or k == 'upi':
                    red = True
            i += 1
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out), red


def mul(a, b):
    if isinstance(a, InfSym):
        return a * b if not isinstance(b, InfSym) else a._bin(b, lambda x, y: x * y)
    if isinstance(b, InfSym):
        return b * a
    ta, tb = a.t, b.t
    if not ta or not tb:
        return ZERO
    if len(ta) == 1 and () in ta:
        c = ta[()]
        if c == (1, 0):
            return b
        return Sym({m: cmul(c, d) for m, d in tb.items()})
    if len(tb) == 1 and () in tb:
        c = tb[()]
        if c == (1, 0):
            return a
        return Sym({m: cmul(c, d) for m, d in ta.items()})
    if len(ta) * len(tb) > LIMITS['multerms']:
        raise Unsupported('polynomial too large (%d x %d terms)' % (len(ta), len(tb)))
    r = {}
    extra = None
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m, red = mono_mul(m1, m2)
            c = cmul(c1, c2)
            if red:
                s = reduce_mono(m, c)
                extra = s if extra is None else extra + s
                continue
            e = r.get(m)
            if e is None:
                r[m] = c
            else:
                s0 = e[0] + c[0]
                s1 = e[1] + c[1]
                if s0 == 0 and s1 == 0:
                    del r[m]
                else:
                    r[m] = (s0, s1)
    for m, c in r.items():
        if type(c[0]) is not int or type(c[1]) is not int:
            r[m] = (_norm(c[0]), _norm(c[1]))
    res = Sym(r)
    if extra is not None:
        res = res + extra
    return res


LIMITS = {'multerms': 4000000, 'terms': 200000}


def reduce_mono(m, c):
    """Apply s**2 -> e, |e|**2 -> e**2, exp(j*pi*q) periodicity."""
    rest = []
    factor = None
    ci = c
    for aid, e in m:
        a = T.atoms[aid]
        if a.kind == 'sqrt' and (e >= 2 or e < 0) and isinstance(e, int):
            q, r = divmod(e, 2)
            base = a.data
            f = ipow(base, q) if q >= 0 else inv(ipow(base, -q))
            factor = f if factor is None else mul(factor, f)
            if r:
                rest.append((aid, r))
        elif a.kind == 'abs' and isinstance(e, int) and e >= 2:
            q, r = divmod(e, 2)
            f = ipow(a.data, 2 * q)
            factor = f if factor is None else mul(factor, f)
            if r:
                rest.append((aid, r))
        elif a.kind == 'upi':
            q = Fr(e) % 2
            k, r = divmod(q, Fr(1, 2))
            ci = cmul(ci, [(1, 0), (0, 1), (-1, 0), (0, -1)][int(k)])
            if r != 0:
                cl = exp_pi_closed(r)
                if cl is not None:
                    factor = cl if factor is None else mul(factor, cl)
                else:
                    rest.append((aid, _norm(r)))
        else:
            rest.append((aid, e))
    s = Sym({tuple(rest): (_norm(ci[0]), _norm(ci[1]))})
    if factor is not None:
        s = mul(s, factor)
    return s


def ipow(s, n):
    r = ONE
    b = s
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


# ---------------------------------------------------------------------------
# conj / structure
# ---------------------------------------------------------------------------
def is_unit_kind(a):
    return a.kind == 'unit' or a.kind == 'upi'


def conj(s):
    if isinstance(s, InfSym):
        return s
    r = {}
    extra = None
    atoms = T.atoms
    for m, c in s.t.items():
        ch = False
        red = False
        for aid, e in m:
            k = atoms[aid].kind
            if k == 'unit':
                ch = True
            elif k == 'upi':
                ch = red = True
            elif k == 'inv' and atoms[aid].data[1]:
                ch = red = True
        cc = (c[0], -c[1])
        if not ch:
            r[m] = cadd(r[m], cc) if m in r else cc
            continue
        if any(atoms[aid].kind == 'inv' and atoms[aid].data[1] for aid, e in m):
            f = Sym({(): cc})
            for aid, e in m:
                a = atoms[aid]
                if a.kind == 'unit' or a.kind == 'upi':
                    f = mul(f, Sym({((aid, -e),): (1, 0)}))
                elif a.kind == 'inv' and a.data[1]:
                    f = mul(f, ipow(inv(conj(a.data[0])), e))
                else:
                    f = mul(f, Sym({((aid, e),): (1, 0)}))
            extra = f if extra is None else extra + f
            continue
        mm = tuple((aid, -e if is_unit_kind(atoms[aid]) else e) for aid, e in m)
        if red:
            f = reduce_mono(mm, cc)
            extra = f if extra is None else extra + f
        else:
            r[mm] = cadd(r[mm], cc) if mm in r else cc
    res = Sym({m: c for m, c in r.items() if c != (0, 0)})
    return res if extra is None else res + extra


def is_real(s):
    if isinstance(s, InfSym):
        return True
    if all(c[1] == 0 for c in s.t.values()) and not any(
            T.atoms[aid].kind in ('unit', 'upi') or (T.atoms[aid].kind == 'inv' and T.atoms[aid].data[1])
            for m in s.t for aid, e in m):
        return True
    return (s - conj(s)).is_zero()


def atoms_of(s, acc=None):
    if acc is None:
        acc = set()
    for m in s.t:
        for aid, e in m:
            acc.add(aid)
    return acc


def atoms_closure(s, acc=None):
    """All atoms a Sym depends on, including through definitions."""
    if acc is None:
        acc = set()
    todo = list(atoms_of(s))
    while todo:
        i = todo.pop()
        if i in acc:
            continue
        acc.add(i)
        for d in atom_deps(T.atoms[i]):
            todo.extend(atoms_of(d))
    return acc


def atom_deps(a):
    k = a.kind
    if k in ('sqrt', 'abs', 'log', 'asin', 'expr', 'floor'):
        return [a.data]
    if k == 'inv':
        return [a.data[0]]
    if k == 'unit':
        return [a.data]
    if k == 'atan2' or k == 'ang':
        return list(a.data)
    if k == 'uf':
        return list(a.data[1])
    return []


# ---------------------------------------------------------------------------
# powers, inverse
# ---------------------------------------------------------------------------
def mono_content(s):
    """Largest monomial (over invertible atoms) dividing every term."""
    it = iter(s.t)
    first = dict(next(it))
    common = dict(first)
    allids = set(common)
    for m in it:
        d = dict(m)
        for aid in list(common):
            e = d.get(aid, 0)
            if e < common[aid]:
                common[aid] = e
        for aid, e in d.items():
            if aid not in common and e < 0:
                common[aid] = e
    # atoms missing in some terms with positive exponent -> min 0
    for aid in list(common):
        if common[aid] == 0 or not invertible(T.atoms[aid]):
            del common[aid]
    return tuple(sorted(common.items()))


def invertible(a):
    return a.kind in ('unit', 'pi') or a.nz or a.pos


def inv(s):
    if isinstance(s, InfSym):
        return ZERO
    if not s.t:
        raise ZeroDivisionError('symbolic division by exact zero')
    if len(s.t) == 1:
        (m, c), = s.t.items()
        n = Fr(c[0]) ** 2 + Fr(c[1]) ** 2
        ci = (_norm(Fr(c[0]) / n), _norm(-Fr(c[1]) / n))
        keep = []
        extra = None
        for aid, e in m:
            a = T.atoms[aid]
            if invertible(a) or a.kind == 'inv':
                if a.kind == 'inv':
                    f = ipow(a.data[0], e)
                    extra = f if extra is None else mul(extra, f)
                else:
                    keep.append((aid, -e))
            elif a.kind == 'upi':
                f = reduce_mono(((aid, -e),), (1, 0))
                extra = f if extra is None else mul(extra, f)
            elif a.kind == 'sqrt':
                f = mul(Sym({((aid, 1),): (1, 0)}), inv(a.data))
                f = ipow(f, e)
                extra = f if extra is None else mul(extra, f)
            else:
                f = ipow(_inv_atom(Sym({((aid, 1),): (1, 0)})), e)
                extra = f if extra is None else mul(extra, f)
        r = Sym({tuple(keep): ci})
        if extra is not None:
            r = mul(r, extra)
        return r
    m = mono_content(s)
    if m:
        minv = Sym({tuple((a, -e) for a, e in m): (1, 0)})
        prim = mul(s, minv)
    else:
        minv = None
        prim = s
    if len(prim.t) == 1:
        r = inv(prim)
        return r if minv is None else mul(r, minv)
    # normalise leading coefficient
    lead = min(prim.t.items(), key=lambda mc: mc[0])[1]
    n = Fr(lead[0]) ** 2 + Fr(lead[1]) ** 2
    li = (_norm(Fr(lead[0]) / n), _norm(-Fr(lead[1]) / n))
    prim = mul(prim, Sym.const(*li))
    r = mul(_inv_atom(prim), Sym.const(*li))
    return r if minv is None else mul(r, minv)


def _inv_atom(d):
    def init(a):
        a.data = (d, not is_real(d))
        a.nz = False
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(d)] or [0])
        if provably_pos(d):
            a.pos = a.nz = True
    a = T.get('inv', d.key(), None, init)
    return Sym({((a.id, 1),): (1, 0)})


def provably_pos(s):
    """Cheap syntactic positivity: a sum of positive monomials."""
    if not s.t:
        return False
    strict = False
    for m, c in s.t.items():
        if c[1] != 0 or c[0] <= 0:
            return False
        if mono_pos(m):
            strict = True
        elif not mono_nonneg(m):
            return False
    return strict


def mono_pos(m):
    return all(T.atoms[aid].pos for aid, e in m)


def mono_nonneg(m):
    for aid, e in m:
        a = T.atoms[aid]
        if a.pos or a.kind in ('sqrt', 'abs'):
            continue
        if isinstance(e, int) and e % 2 == 0 and a.kind not in ('unit', 'upi'):
            continue
        return False
    return True


def power(b, e):
    if isinstance(b, InfSym) or isinstance(e, InfSym):
        raise Unsupported('power of infinity')
    if not e.is_const() or e.cval()[1] != 0:
        raise Unsupported('symbolic exponent')
    q = _norm(Fr(e.cval()[0]))
    if isinstance(q, int):
        if q >= 0:
            return ipow(b, q)
        return inv(ipow(b, -q))
    if b.is_zero():
        return ZERO
    # fractional power: positive monomials only, or square roots
    if len(b.t) == 1:
        (m, c), = b.t.items()
        if c[1] == 0 and c[0] > 0 and all(T.atoms[a].pos and T.atoms[a].kind not in ('upi',) for a, _ in m):
            cf = rat_pow(Fr(c[0]), q)
            if cf is not None:
                return mul(cf, Sym({tuple((a, _norm(Fr(x) * q)) for a, x in m): (1, 0)}))
    if q.denominator == 2:
        s = sqrt(b)
        return ipow(s, q.numerator) if q.numerator > 0 else inv(ipow(s, -q.numerator))
    # general positive base: introduce an atom for the base itself
    a = expr_atom(b)
    return Sym({((a.id, q),): (1, 0)})


def expr_atom(b):
    def init(a):
        a.data = b
        a.pos = a.nz = True
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(b)] or [0])
    return T.get('expr', b.key(), None, init)


def rat_pow(c, q):
    """c**q for positive rational c as Sym: exact or via prime atoms."""
    r = ONE
    for p, k in factor_rat(c).items():
        e = _norm(Fr(k) * q)
        if isinstance(e, int):
            r = mul(r, Sym.const(_norm(Fr(p) ** e)))
        else:
            fl = math.floor(e)
            fr = e - fl
            r = mul(r, Sym.const(_norm(Fr(p) ** fl)))
            if fr == Fr(1, 2):
                r = mul(r, sqrt_atom(Sym.const(p)))
            else:
                def init(a, p=p):
                    a.data = Sym.const(p)
                    a.pos = a.nz = True
                at = T.get('expr', ('prime', p), 'prime%d' % p, init)
                r = mul(r, Sym({((at.id, fr),): (1, 0)}))
    return r


def factor_rat(c):
    out = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while p * p <= n and p < 100000:
            while n % p == 0:
                out[p] = out.get(p, 0) + s
                n //= p
            p += 1
        if n > 1:
            out[n] = out.get(n, 0) + s
    return out


def sqrt_atom(e):
    def init(a):
        a.data = e
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(e)] or [0])
        if provably_pos(e):
            a.pos = False   # keep reductions simple: inverse handled as s/e
    a = T.get('sqrt', e.key(), None, init)
    return Sym({((a.id, 1),): (1, 0)})


def sqrt(s):
    if isinstance(s, InfSym):
        return s
    if s.is_zero():
        return ZERO
    if not is_real(s):
        raise Unsupported('sqrt of a complex value')
    if s.is_const():
        c = Fr(s.cval()[0])
        if c > 0:
            return rat_pow(c, Fr(1, 2))
        raise Unsupported('sqrt of a negative constant')
    # pull out the positive content
    content = mono_content(s)
    out = ONE
    if content:
        sq = []
        for a, e in content:
            at = T.atoms[a]
            if at.pos:
                sq.append((a, e))
        if sq:
            prim = mul(s, Sym({tuple((a, -e) for a, e in sq): (1, 0)}))
            out = Sym({tuple((a, _norm(Fr(e) / 2)) for a, e in sq): (1, 0)})
            s = prim
    if s.is_const():
        return mul(out, sqrt(s))
    # rational content: make leading coefficient +-1 times square-free
    g = None
    for c in s.t.values():
        for x in c:
            if x != 0:
                x = abs(Fr(x))
                g = x if g is None else Fr(gcd(g.numerator * x.denominator, x.numerator * g.denominator), g.denominator * x.denominator)
    if g is not None and g != 1:
        s = mul(s, Sym.const(_norm(1 / g)))
        out = mul(out, rat_pow(g, Fr(1, 2)))
    if len(s.t) == 1:
        (m, c), = s.t.items()
        if c == (1, 0) and all(isinstance(e, int) and e % 2 == 0 for _, e in m):
            return mul(out, absolute(Sym({tuple((a, e // 2) for a, e in m): (1, 0)})))
    ps = perfect_square(s)
    if ps is not None:
        return mul(out, absolute(ps))
    return mul(out, sqrt_atom(s))


def perfect_square(s):
    """Try s == r**2 for a two/three term r over plain atoms (cheap)."""
    ts = s.t
    if len(ts) == 3:
        r = trig_square(s)
        if r is not None:
            return r
    if len(ts) not in (3, 6):
        return None
    roots = []
    for m, c in ts.items():
        if c[1] == 0 and c[0] > 0 and all(isinstance(e, int) and e % 2 == 0 for _, e in m):
            f = Fr(c[0])
            n, d = isqrt(f.numerator), isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                roots.append(Sym({tuple((a, e // 2) for a, e in m): (_norm(Fr(n, d)), 0)}))
    need = 2 if len(ts) == 3 else 3
    if len(roots) != need:
        return None
    import itertools
    for signs in itertools.product((1, -1), repeat=need - 1):
        r = roots[0]
        for sg, x in zip(signs, roots[1:]):
            r = r + (x if sg == 1 else -x)
        if (mul(r, r) - s).is_zero():
            return r
    return None


def trig_square(s):
    """s == c * cos(b)**2 or c * sin(b)**2 -> the root (sign not chosen)."""
    c0 = s.t.get(())
    if c0 is None or c0[1] != 0 or c0[0] <= 0:
        return None
    ms = [m for m in s.t if m]
    for m in ms:
        if not all(is_unit_kind(T.atoms[a]) for a, e in m):
            return None
    m, mo = ms
    if tuple((a, -e) for a, e in m) != mo or s.t[m] != s.t[mo] or s.t[m][1] != 0:
        return None
    q = Fr(s.t[m][0]) / Fr(c0[0])
    if abs(q) != Fr(1, 2):
        return None
    h = tuple((a, _norm(Fr(e) / 2)) for a, e in m)
    ho = tuple((a, _norm(-Fr(e) / 2)) for a, e in m)
    half = Fr(1, 2)
    r = Sym({h: (half, 0), ho: (half, 0)}) if q > 0 else Sym({h: (0, -half), ho: (0, half)})
    r = mul(r, rat_pow(Fr(c0[0]) * 2, Fr(1, 2)))
    return r if (mul(r, r) - s).is_zero() else None


def trig_sign(s):
    """1 / -1 when s is a sine or cosine whose angle provably keeps its sign."""
    if len(s.t) != 2:
        return 0
    c = max(abs(Fr(x)) for cc in s.t.values() for x in cc)
    m = _match_sin(mul(s, Sym.const(_norm(Fr(1, 2) / c))))
    if m is None:
        return 0
    arg, kind, sg = m
    from .path import CTX
    pi = Sym({((PI.id, 1),): (1, 0)})
    h = mul(pi, Sym.const(Fr(1, 2)))
    if kind == 'cos':
        return sg if CTX.provable_range(arg, -h, h) else 0
    if CTX.provable_range(arg, ZERO, pi):
        return sg
    return -sg if CTX.provable_range(arg, -pi, ZERO) else 0


def absolute(s):
    if isinstance(s, InfSym):
        return InfSym(abs(s.f))
    if s.is_zero():
        return ZERO
    if s.is_const():
        re, im = s.cval()
        if im == 0:
            return Sym.const(abs(re))
        return sqrt(Sym.const(Fr(re) ** 2 + Fr(im) ** 2))
    if len(s.t) == 1:
        # monomial: product of absolute values
        (m, c), = s.t.items()
        r = absolute(Sym.const(*c))
        for aid, e in m:
            a = T.atoms[aid]
            if is_unit_kind(a):
                continue
            base = Sym({((aid, 1),): (1, 0)})
            if a.pos or a.kind in ('sqrt', 'abs'):
                r = mul(r, Sym({((aid, e),): (1, 0)}))
            elif isinstance(e, int) and e % 2 == 0:
                r = mul(r, Sym({((aid, e),): (1, 0)}))
            elif a.kind == 'inv':
                r = mul(r, ipow(inv(absolute(a.data[0])), e))
            else:
                ab = abs_atom(base)
                r = mul(r, ipow(ab, e) if e > 0 else inv(ipow(ab, -e)))
        return r
    if is_real(s):
        if provably_pos(s):
            return s
        if provably_pos(-s):
            return -s
        sg = trig_sign(s)
        if sg:
            return s if sg > 0 else -s
        return abs_atom(s)
    return sqrt(mul(s, conj(s)))


def abs_atom(s):
    # canonical sign
    lead = min(s.t.items(), key=lambda mc: mc[0])[1]
    if lead[0] < 0 or (lead[0] == 0 and lead[1] < 0):
        s = -s

    def init(a):
        a.data = s
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(s)] or [0])
        if len(s.t) == 1:
            (m, c), = s.t.items()
            if len(m) == 1 and T.atoms[m[0][0]].nz:
                a.nz = True
    a = T.get('abs', s.key(), None, init)
    return Sym({((a.id, 1),): (1, 0)})


def floor_atom(s):
    """the integer n with n <= s < n + 1 of a real expression"""
    def init(a):
        a.data = s
        a.isint = True
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(s)] or [0])
    a = T.get('floor', s.key(), None, init)
    return Sym({((a.id, 1),): (1, 0)})


# ---------------------------------------------------------------------------
# trigonometry
# ---------------------------------------------------------------------------
_CLOSED = {}


def exp_pi_closed(r):
    """exp(j*pi*r), 0<=r<1/2, closed form for r in {1/4,1/3,1/6,1/12,5/12}."""
    if r == 0:
        return ONE
    def s(n):
        return sqrt_atom(Sym.const(n))
    h = Sym.const(Fr(1, 2))
    q4 = Sym.const(Fr(1, 4))
    if r == Fr(1, 4):
        return mul(mul(s(2), h), Sym.const(1, 1))
    if r == Fr(1, 3):
        return h + mul(mul(s(3), h), J)
    if r == Fr(1, 6):
        return mul(s(3), h) + mul(h, J)
    if r == Fr(1, 12):
        s6 = mul(s(2), s(3))
        return mul(q4, s6 + s(2)) + mul(mul(q4, s6 - s(2)), J)
    if r == Fr(5, 12):
        s6 = mul(s(2), s(3))
        return mul(q4, s6 - s(2)) + mul(mul(q4, s6 + s(2)), J)
    return None


def exp_pi(q):
    q = Fr(q) % 2
    k, r = divmod(q, Fr(1, 2))
    f = Sym.const(*[(1, 0), (0, 1), (-1, 0), (0, -1)][int(k)])
    c = exp_pi_closed(r)
    if c is None:
        a = T.get('upi', 'upi', 'upi')
        c = Sym({((a.id, _norm(r)),): (1, 0)})
    return mul(f, c)


def exp_j(x):
    """exp(1j*x) for real Sym x."""
    if x.is_zero():
        return ONE
    if not is_real(x):
        raise Unsupported('exp of a general complex number')
    res = ONE
    done = set()
    atoms = T.atoms
    for m, c in sorted(x.t.items(), key=_tkey):
        if m in done:
            continue
        um = tuple((a, e) for a, e in m if is_unit_kind(atoms[a]))
        if not um:
            if c[1] != 0:
                raise Unsupported('exp: inconsistent imaginary part')
            q = _norm(Fr(c[0]))
            # special atoms
            if len(m) == 1 and m[0][1] == 1:
                a = atoms[m[0][0]]
                if a.kind == 'pi':
                    res = mul(res, exp_pi(q))
                    continue
                if a.kind in ('asin', 'atan2', 'ang'):
                    z = angle_atom_exp(a)
                    if isinstance(q, int):
                        res = mul(res, ipow(z if q > 0 else conj(z), abs(q)))
                        continue
            if not m:
                # exp(j*constant)
                pass
            res = mul(res, unit_pow(Sym({m: (1, 0)}), q))
        else:
            if any(atoms[a].kind == 'upi' for a, e in m):
                # roots of unity are kept reduced: the conjugate is another monomial with another coefficient
                one = Sym({m: (1, 0)})
                co = conj(one)
                done.update(co.t)
                done.add(m)
                if c[0] != 0 and not (one + co).is_zero():
                    res = mul(res, unit_pow((one + co) * Sym.const(Fr(1, 2)), _norm(2 * Fr(c[0]) if m not in co.t else Fr(c[0]))))
                if c[1] != 0 and not (one - co).is_zero():
                    res = mul(res, unit_pow((one - co) * Sym.const(0, Fr(-1, 2)), _norm(-2 * Fr(c[1]) if m not in co.t else -Fr(c[1]))))
                continue
            mc = tuple((a, -e if is_unit_kind(atoms[a]) else e) for a, e in m)
            done.add(m)
            done.add(mc)
            if um[0][1] < 0:
                m, mc = mc, m
                c = (c[0], -c[1])
            # c*M + conj(c)*conj(M) = 2Re(c) Re(M) - 2Im(c) Im(M)
            if c[0] != 0:
                basis = Sym({m: (Fr(1, 2), 0), mc: (Fr(1, 2), 0)})
                res = mul(res, unit_pow(basis, _norm(2 * Fr(c[0]))))
            if c[1] != 0:
                basis = Sym({m: (0, Fr(-1, 2)), mc: (0, Fr(1, 2))})
                res = mul(res, unit_pow(basis, _norm(-2 * Fr(c[1]))))
    return res


def unit_pow(basis, q):
    def init(a):
        a.data = basis
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(basis)] or [0])
    a = T.get('unit', basis.key(), None, init)
    return Sym({((a.id, q),): (1, 0)})


def angle_atom_exp(a):
    if a.kind == 'asin':
        x = a.data
        return sqrt(ONE - mul(x, x)) + mul(J, x)
    if a.kind == 'atan2':
        y, x = a.data
        return mul(x + mul(J, y), inv(sqrt(mul(x, x) + mul(y, y))))
    if a.kind == 'ang':
        z, = a.data
        return mul(z, inv(absolute(z)))
    raise AssertionError


def exp(s):
    if isinstance(s, InfSym):
        raise Unsupported('exp of infinity')
    if s.is_zero():
        return ONE
    re, im = s.real, s.imag
    if not re.is_zero():
        if im.is_zero():
            a = T.get('expo', re.key(), None, lambda a: (setattr(a, 'data', re), setattr(a, 'pos', True), setattr(a, 'nz', True)))
            return Sym({((a.id, 1),): (1, 0)})
        raise Unsupported('exp of a general complex number')
    return exp_j(im)


def cos(x):
    return exp_j(x).real


def sin(x):
    return exp_j(x).imag


def tan(x):
    return mul(sin(x), inv(cos(x)))


def _match_sin(x):
    """x == sin(b) or cos(b) for one unit monomial -> (b, kind)."""
    if len(x.t) == 2:
        (m1, c1), (m2, c2) = sorted(x.t.items(), key=_tkey)
        ats = T.atoms
        for m, c, mo, co in ((m1, c1, m2, c2), (m2, c2, m1, c1)):
            if all(ats[a].kind == 'unit' for a, e in m) and m and m[0][1] > 0:
                if tuple((a, -e) for a, e in m) == mo:
                    arg = ZERO
                    for a, e in m:
                        arg = arg + mul(ats[a].data, Sym.const(e))
                    if c == (0, Fr(-1, 2)) and co == (0, Fr(1, 2)):
                        return arg, 'sin', 1
                    if c == (0, Fr(1, 2)) and co == (0, Fr(-1, 2)):
                        return arg, 'sin', -1
                    if c == (Fr(1, 2), 0) and co == (Fr(1, 2), 0):
                        return arg, 'cos', 1
    return None


def arcsin(x):
    if isinstance(x, InfSym):
        raise Unsupported('arcsin(inf)')
    if x.is_zero():
        return ZERO
    pi = Sym({((PI.id, 1),): (1, 0)})
    if x.is_const():
        c = Fr(x.cval()[0])
        for v, q in ((Fr(1), Fr(1, 2)), (Fr(-1), Fr(-1, 2)), (Fr(1, 2), Fr(1, 6)), (Fr(-1, 2), Fr(-1, 6))):
            if c == v:
                return mul(pi, Sym.const(q))
    from .path import CTX
    m = _match_sin(x)
    if m is not None:
        arg, kind, sg = m
        b = arg if kind == 'sin' else mul(pi, Sym.const(Fr(1, 2))) - arg
        if sg < 0:
            b = -b
        h = mul(pi, Sym.const(Fr(1, 2)))
        if CTX.provable_range(b, -h, h):
            return b
        if kind == 'cos':
            # cos is even: |arg| in [0, pi]
            b = h + arg
            if CTX.provable_range(b, -h, h):
                return b
    neg = False
    lead = min(x.t.items(), key=lambda mc: mc[0])[1]
    if lead[0] < 0 or (lead[0] == 0 and lead[1] < 0):
        x = -x
        neg = True

    def init(a):
        a.data = x
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(x)] or [0])
    a = T.get('asin', x.key(), None, init)
    r = Sym({((a.id, 1),): (1, 0)})
    return -r if neg else r


def arccos(x):
    pi = Sym({((PI.id, 1),): (1, 0)})
    return mul(pi, Sym.const(Fr(1, 2))) - arcsin(x)


def arctan2(y, x):
    from .path import CTX
    pi = Sym({((PI.id, 1),): (1, 0)})
    if y.is_zero():
        # 0 for x >= 0, pi for x < 0
        if CTX.truth(CTX.cmp('<', x, ZERO)):
            return pi
        return ZERO
    if x.is_zero():
        if CTX.truth(CTX.cmp('<', y, ZERO)):
            return mul(pi, Sym.const(Fr(-1, 2)))
        return mul(pi, Sym.const(Fr(1, 2)))
    if y.is_const() and x.is_const() and not y.cval()[1] and not x.cval()[1]:
        # one atom per direction: constants are scaled to coprime integers
        n = Fr(y.cval()[0]) / abs(Fr(x.cval()[0]))
        y, x = Sym.const(Fr(n.numerator)), Sym.const(Fr(n.denominator) * (1 if x.cval()[0] > 0 else -1))

    def init(a):
        a.data = (y, x)
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(y) | atoms_of(x)] or [0])
    a = T.get('atan2', (y.key(), x.key()), None, init)
    return Sym({((a.id, 1),): (1, 0)})


def angle(z):
    """Principal argument."""
    from .path import CTX
    pi = Sym({((PI.id, 1),): (1, 0)})
    if is_real(z):
        return pi if CTX.truth(CTX.cmp('<', z, ZERO)) else ZERO
    if z.is_const():
        re, im = z.cval()
        return arctan2(Sym.const(Fr(im)), Sym.const(Fr(re)))
    if len(z.t) == 1:
        (m, c), = z.t.items()
        arg = ZERO
        ok = True
        if c[1] == 0:
            if c[0] < 0:
                arg = pi
        elif c[0] == 0:
            arg = mul(pi, Sym.const(Fr(1, 2) if c[1] > 0 else Fr(-1, 2)))
        else:
            ok = False
        for aid, e in m:
            a = T.atoms[aid]
            if a.kind == 'unit':
                arg = arg + mul(a.data, Sym.const(e))
            elif a.kind == 'upi':
                arg = arg + mul(pi, Sym.const(e))
            elif a.pos or a.kind in ('sqrt', 'abs'):
                pass
            else:
                ok = False
        if ok:
            for k in (0, 1, -1):
                b = arg - mul(pi, Sym.const(2 * k))
                if CTX.provable_range(b, -pi, pi):
                    return b
            for k in (0, 1, -1, 2, -2, 3, -3):
                b = arg - mul(pi, Sym.const(2 * k))
                inr = CTX.cmp('<', -pi, b) & CTX.cmp('<=', b, pi)
                if CTX.truth(inr):
                    return b
            raise Unsupported('angle: argument outside the unwrapped window')
    else:
        # common factor that carries the phase: the rest is a positive sum
        com = tuple((aid, e) for aid, e in mono_content(z) if is_unit_kind(T.atoms[aid]))
        if com:
            f = Sym({com: (1, 0)})
            rest = mul(z, Sym({tuple((aid, -e) for aid, e in com): (1, 0)}))
            if is_real(rest):
                if provably_pos(rest):
                    return angle(f)
                if provably_pos(-rest):
                    return angle(-f)

    def init(a):
        a.data = (z,)
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(z)] or [0])
    a = T.get('ang', z.key(), None, init)
    return Sym({((a.id, 1),): (1, 0)})


# ---------------------------------------------------------------------------
# logarithm
# ---------------------------------------------------------------------------
def log(s):
    if isinstance(s, InfSym):
        return s
    if s.is_zero():
        raise ValueError('math domain error')
    if s.is_const():
        re, im = s.cval()
        if im != 0 or re <= 0:
            raise ValueError('math domain error')
        r = ZERO
        for p, k in factor_rat(Fr(re)).items():
            r = r + mul(_log_atom(Sym.const(p)), Sym.const(k))
        return r
    content = mono_content(s)
    r = ZERO
    keep = []
    for aid, e in content:
        a = T.atoms[aid]
        if a.pos:
            keep.append((aid, e))
            if a.kind == 'inv':
                r = r - mul(log(a.data[0]), Sym.const(e))
            elif a.kind == 'expr':
                r = r + mul(log(a.data), Sym.const(e))
            elif a.kind == 'expo':
                r = r + mul(a.data, Sym.const(e))
            else:
                r = r + mul(_log_atom(Sym({((aid, 1),): (1, 0)})), Sym.const(e))
    if keep:
        s = mul(s, Sym({tuple((a, -e) for a, e in keep): (1, 0)}))
    if s.is_const():
        return r + log(s)
    # square roots of positive constants dividing every term
    for aid in sorted({a for m in s.t for a, e in m if T.atoms[a].kind == 'sqrt'}):
        d = T.atoms[aid].data
        if d.is_const() and len(s.t) > 1 and all(any(a == aid and e == 1 for a, e in m) for m in s.t):
            r = r + mul(log(d), Sym.const(Fr(1, 2)))
            s = Sym({tuple((a, e) for a, e in m if a != aid): c for m, c in s.t.items()})
    # non-content sqrt/inv factors of a single term
    if len(s.t) == 1:
        (m, c), = s.t.items()
        if c[1] == 0 and c[0] > 0:
            r = r + log(Sym.const(c[0]))
            for aid, e in m:
                a = T.atoms[aid]
                if a.kind == 'sqrt':
                    r = r + mul(log(a.data), Sym.const(_norm(Fr(e) / 2)))
                elif a.kind == 'inv':
                    r = r - mul(log(a.data[0]), Sym.const(e))
                else:
                    r = r + _log_atom(Sym({((aid, e),): (1, 0)}))
            return r
    lead = min(s.t.items(), key=lambda mc: mc[0])[1]
    if lead[1] == 0 and lead[0] > 0 and lead[0] != 1:
        r = r + log(Sym.const(lead[0]))
        s = mul(s, Sym.const(_norm(1 / Fr(lead[0]))))
    return r + _log_atom(s)


def _log_atom(s):
    if s.is_const() and s.cval() == (1, 0):
        return ZERO

    def init(a):
        a.data = s
        a.depth = 1 + max([T.atoms[i].depth for i in atoms_of(s)] or [0])
    a = T.get('log', s.key(), None, init)
    return Sym({((a.id, 1),): (1, 0)})


# ---------------------------------------------------------------------------
# derivative
# ---------------------------------------------------------------------------
_D = {}


def datom(a, v):
    """Derivative of atom a w.r.t. variable atom v."""
    k = (a.id, v.id)
    if k in _D:
        return _D[k]
    if a.id == v.id:
        r = ONE
    elif a.kind in ('var', 'pi', 'upi'):
        r = ZERO
    elif a.kind == 'unit':
        r = mul(mul(J, diff(a.data, v)), Sym({((a.id, 1),): (1, 0)}))
    elif a.kind == 'sqrt':
        de = diff(a.data, v)
        r = ZERO if de.is_zero() else mul(mul(de, Sym.const(Fr(1, 2))), mul(Sym({((a.id, 1),): (1, 0)}), inv(a.data)))
    elif a.kind == 'inv':
        de = diff(a.data[0], v)
        r = ZERO if de.is_zero() else -mul(de, Sym({((a.id, 2),): (1, 0)}))
    elif a.kind == 'asin':
        de = diff(a.data, v)
        r = ZERO if de.is_zero() else mul(de, inv(sqrt(ONE - mul(a.data, a.data))))
    elif a.kind == 'log':
        de = diff(a.data, v)
        r = ZERO if de.is_zero() else mul(de, inv(a.data))
    elif a.kind == 'expr':
        r = diff(a.data, v)
    else:
        if any(not diff(d, v).is_zero() for d in atom_deps(a)):
            raise Unsupported('derivative of %s atom' % a.kind)
        r = ZERO
    _D[k] = r
    return r


def diff(s, v):
    r = ZERO
    for m, c in s.t.items():
        for i, (aid, e) in enumerate(m):
            a = T.atoms[aid]
            d = datom(a, v)
            if d.is_zero():
                continue
            rest = m[:i] + m[i + 1:]
            cc = cmul(c, (_norm(Fr(e)), 0))
            if a.kind == 'unit':
                # d(u^e) = e*u^(e-1)*du ; du = j b' u
                part = mul(Sym({m: (_norm(Fr(cc[0])), _norm(Fr(cc[1])))}),
                           mul(J, diff(a.data, v)))
                r = r + part
                continue
            if e != 1:
                base = Sym({rest: cc})
                if e - 1 > 0 or invertible(a):
                    p = reduce_mono(((aid, _norm(Fr(e) - 1)),), (1, 0))
                else:
                    p = inv(Sym({((aid, 1 - e),): (1, 0)}))
                r = r + mul(mul(base, p), d)
            else:
                r = r + mul(Sym({rest: cc}), d)
    return r


# ---------------------------------------------------------------------------
# clearing denominators, printing, numeric evaluation
# ---------------------------------------------------------------------------
def clear_denoms(s, dens=None):
    """Return numerator N and the list of denominators with s = N / prod."""
    if dens is None:
        dens = []
    for _ in range(200):
        best = None
        for m in s.t:
            for aid, e in m:
                a = T.atoms[aid]
                if a.kind == 'inv':
                    if best is None or a.depth > T.atoms[best].depth:
                        best = aid
        if best is None:
            break
        a = T.atoms[best]
        mx = max(dict(m).get(best, 0) for m in s.t)
        d = a.data[0]
        pows = [ONE]
        mn = min(dict(m).get(best, 0) for m in s.t)
        for _k in range(mx - min(mn, 0)):
            pows.append(mul(pows[-1], d))
        r = ZERO
        byp = {}
        for m, c in s.t.items():
            e = dict(m).get(best, 0)
            mm = tuple(x for x in m if x[0] != best)
            byp.setdefault(mx - e, {})[mm] = c
        for p, tt in byp.items():
            r = r + mul(Sym(tt), pows[p])
        s = r
        dens.append(d)
    # negative exponents of nonzero real atoms
    low = {}
    for m in s.t:
        for aid, e in m:
            if e < 0 and not is_unit_kind(T.atoms[aid]):
                low[aid] = min(low.get(aid, 0), e)
    if low:
        s = mul(s, Sym({tuple(sorted((a, -e) for a, e in low.items())): (1, 0)}))
    return s, dens


def show(s, limit=12):
    if isinstance(s, InfSym):
        return repr(s.f)
    if not s.t:
        return '0'
    out = []
    for i, (m, c) in enumerate(sorted(s.t.items(), key=_tkey)):
        if i >= limit:
            out.append('...(%d terms)' % len(s.t))
            break
        cs = str(c[0]) if c[1] == 0 else ('%sj' % c[1] if c[0] == 0 else '(%s%+sj)' % (c[0], c[1] if isinstance(c[1], int) else float(c[1])))
        ms = '*'.join(T.atoms[a].name + ('' if e == 1 else '^%s' % e) for a, e in m)
        out.append(cs if not ms else (ms if cs == '1' else cs + '*' + ms))
    return ' + '.join(out)


class Evaluator:
    """Numeric evaluation at an assignment of the input atoms."""

    def __init__(self, env):
        self.env = env
        self.cache = {}

    def atom(self, aid):
        v = self.cache.get(aid)
        if v is not None:
            return v
        a = T.atoms[aid]
        k = a.kind
        if k == 'var':
            if aid not in self.env:
                raise KeyError(a.name)
            v = float(self.env[aid])
        elif k == 'pi':
            v = math.pi
        elif k == 'upi':
            v = complex(math.cos(math.pi), math.sin(math.pi))
        elif k == 'sqrt':
            x = self(a.data).real
            v = math.sqrt(x) if x > 0 else (0.0 if x > -1e-9 else float('nan'))
        elif k == 'inv':
            d = self(a.data[0])
            v = 1 / d if d != 0 else float('nan')
            if not a.data[1]:
                v = v.real if isinstance(v, complex) else v
        elif k == 'abs':
            v = abs(self(a.data).real)
        elif k == 'floor':
            v = float(math.floor(self(a.data).real))
        elif k == 'log':
            x = self(a.data).real
            v = math.log(x) if x > 0 else float('nan')
        elif k == 'asin':
            x = self(a.data).real
            v = math.asin(x) if abs(x) <= 1 else (math.copysign(math.pi / 2, x) if abs(x) < 1 + 1e-9 else float('nan'))
        elif k == 'atan2':
            v = math.atan2(self(a.data[0]).real, self(a.data[1]).real)
        elif k == 'ang':
            z = self(a.data[0])
            v = math.atan2(z.imag, z.real)
        elif k == 'expr':
            v = self(a.data).real
        elif k == 'expo':
            v = math.exp(self(a.data).real)
        elif k == 'unit':
            v = None
        elif k == 'uf':
            v = a.data[0](self, a)
        else:
            raise AssertionError(k)
        self.cache[aid] = v
        return v

    def unit_arg(self, aid):
        k = ('arg', aid)
        v = self.cache.get(k)
        if v is None:
            a = T.atoms[aid]
            v = math.pi if a.kind == 'upi' else self(a.data).real
            self.cache[k] = v
        return v

    def __call__(self, s):
        if isinstance(s, InfSym):
            return s.f
        tot = 0j
        for m, c in s.t.items():
            v = complex(float(c[0]), float(c[1]))
            ph = 0.0
            for aid, e in m:
                a = T.atoms[aid]
                if is_unit_kind(a):
                    ph += self.unit_arg(aid) * float(e)
                else:
                    x = self.atom(aid)
                    if isinstance(e, int):
                        v *= x ** e
                    else:
                        v *= (x ** float(e)) if x >= 0 else float('nan')
            if ph:
                v *= complex(math.cos(ph), math.sin(ph))
            tot += v
        return tot
