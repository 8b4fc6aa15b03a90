"""Path exploration and solver queries."""
import math
import random
import sys
import time
import zlib
from fractions import Fraction as Fr

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

from . import ring
from .ring import (Sym, InfSym, EngineStop, Unsupported, T, to_sym, is_unit_kind,
                   Evaluator, clear_denoms, atoms_closure, atom_deps)


class PathAbort(EngineStop):
    """The current path is infeasible (an assumption is false)."""


class BudgetExceeded(EngineStop):
    pass


# ---------------------------------------------------------------------------
# formulas
# ---------------------------------------------------------------------------
# ('cmp', op, Sym)  op in < <= == !=   (compared with 0)
# ('and', (..)), ('or', (..)), ('not', f), True, False

def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    if f[0] == 'cmp':
        op, d = f[1], f[2]
        if op == '==':
            return ('cmp', '!=', d)
        if op == '!=':
            return ('cmp', '==', d)
        if op == '<':
            return ('cmp', '<=', -d)
        return ('cmp', '<', -d)
    return ('not', f)


def f_and(fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        out.append(f)
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        out.append(f)
    if not out:
        return False
    return out[0] if len(out) == 1 else ('or', tuple(out))


def f_syms(f, acc):
    if f is True or f is False:
        return acc
    if f[0] == 'cmp':
        acc.append(f[2])
    elif f[0] == 'not':
        f_syms(f[1], acc)
    else:
        for g in f[1]:
            f_syms(g, acc)
    return acc


def f_key(f):
    if f is True or f is False:
        return f
    if f[0] == 'cmp':
        return ('cmp', f[1], f[2].key())
    if f[0] == 'not':
        return ('not', f_key(f[1]))
    return (f[0], tuple(f_key(g) for g in f[1]))


def coef_scale(d):
    """order of magnitude of the coefficients of a compared difference"""
    t = getattr(d, 't', None)
    if not t:
        return 1.0
    try:
        return max(abs(float(c[0])) + abs(float(c[1])) for c in t.values())
    except OverflowError:
        return 1.0


def f_eval(f, ev, tol=0.0):
    """Numeric truth; None when too close to call."""
    if f is True or f is False:
        return f
    if f[0] == 'cmp':
        try:
            v = ev(f[2])
        except (OverflowError, ZeroDivisionError):
            return None
        if v != v:
            return None
        big = min(1.0, coef_scale(f[2]))
        sc = 1e-7 * big
        if f[1] in ('==', '!='):
            z = abs(v) < sc
            if z and not ring.is_real(f[2]):
                pass
            # exact integers are decided exactly
            return z if f[1] == '==' else not z
        r = v.real
        if abs(r) < 1e-9 * big:
            if r == 0.0:
                return f[1] == '<='
            return None
        return r < 0
    if f[0] == 'not':
        r = f_eval(f[1], ev)
        return None if r is None else not r
    vals = [f_eval(g, ev) for g in f[1]]
    if f[0] == 'and':
        if any(v is False for v in vals):
            return False
        return None if any(v is None for v in vals) else True
    if any(v is True for v in vals):
        return True
    return None if any(v is None for v in vals) else False


def f_edge(f, ev):
    """Whether some inequality of the formula is an exact tie at the point
    (where floating point may fall on either side)."""
    if f is True or f is False:
        return False
    if f[0] == 'cmp':
        if f[1] in ('==', '!='):
            return False
        try:
            return abs(ev(f[2])) < 1e-9 * max(1e-9, min(1.0, coef_scale(f[2])))
        except (KeyError, OverflowError, ZeroDivisionError, ValueError):
            return False
    return any(f_edge(g, ev) for g in (f[1:2] if f[0] == 'not' else f[1]))


class SymBool:
    __slots__ = ('f',)
    __array_priority__ = 2000

    def __init__(self, f):
        self.f = f

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        from . import snp
        return snp.dispatch_ufunc(ufunc, method, args, kw)

    def __bool__(self):
        return CTX.decide(self.f)

    def __and__(self, o):
        g = as_formula(o)
        if g is None:
            return NotImplemented
        return mkbool(f_and([self.f, g]))
    __rand__ = __and__

    def __or__(self, o):
        g = as_formula(o)
        if g is None:
            return NotImplemented
        return mkbool(f_or([self.f, g]))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __xor__(self, o):
        g = as_formula(o)
        if g is None:
            return NotImplemented
        return mkbool(f_or([f_and([self.f, f_not(g)]), f_and([f_not(self.f), g])]))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ == 'bool_':
            r = self.__xor__(o)
            return mkbool(f_not(as_formula(r)))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(f_not(as_formula(r)))

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def _n(self):
        return int(bool(self))

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __int__(self):
        return self._n()

    def __index__(self):
        return self._n()

    def __float__(self):
        return float(self._n())

    def __repr__(self):
        return 'SymBool(%s)' % (self.f,)


def as_formula(o):
    if isinstance(o, SymBool):
        return o.f
    if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
        return bool(o)
    return None


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def compare(op, a, b):
    if isinstance(a, InfSym) or isinstance(b, InfSym):
        return _cmp_inf(op, a, b)
    if op in ('>', '>='):
        a, b = b, a
        op = '<' if op == '>' else '<='
    d = a - b
    if d.is_const():
        re, im = d.cval()
        if op == '==':
            return re == 0 and im == 0
        if op == '!=':
            return not (re == 0 and im == 0)
        if im != 0:
            raise Unsupported('ordering of complex values')
        return re < 0 if op == '<' else re <= 0
    if op in ('<', '<='):
        if not ring.is_real(d):
            raise Unsupported('ordering of complex values')
        if ring.provably_pos(d):
            return False
        if ring.provably_pos(-d):
            return True
    else:
        if ring.provably_pos(d) or ring.provably_pos(-d):
            return op == '!='
    return SymBool(('cmp', op, d))


def _cmp_inf(op, a, b):
    def fl(x):
        return x.f if isinstance(x, InfSym) else 0.0
    x, y = fl(a), fl(b)
    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
            '==': x == y, '!=': x != y}[op]


# ---------------------------------------------------------------------------
# z3 translation
# ---------------------------------------------------------------------------
class Encoder:
    """Translates formulas over ring elements to z3 (nonlinear reals)."""

    def __init__(self, formulas, extra_facts=()):
        self.syms = []
        for f in formulas:
            f_syms(f, self.syms)
        # negative/nested atoms: closure
        clos = set()
        for s in self.syms:
            atoms_closure(s, clos)
        # facts attached to atoms
        self.facts = []
        grow = True
        seen = set()
        while grow:
            grow = False
            for aid in sorted(clos):
                if aid in seen:
                    continue
                seen.add(aid)
                a = T.atoms[aid]
                for b in (a.lo, a.hi):
                    if isinstance(b, Sym):
                        before = len(clos)
                        atoms_closure(b, clos)
                        if len(clos) != before:
                            grow = True
                for f in CTX.atom_facts.get(aid, ()):
                    self.facts.append(f)
                    for s in f_syms(f, []):
                        before = len(clos)
                        atoms_closure(s, clos)
                        if len(clos) != before:
                            grow = True
        self.clos = clos
        self.D = {}
        for s in self.syms:
            self._denoms(s)
        for f in self.facts:
            for s in f_syms(f, []):
                self._denoms(s)
        for aid in clos:
            for d in atom_deps(T.atoms[aid]):
                self._denoms(d)
            for b in (T.atoms[aid].lo, T.atoms[aid].hi):
                if isinstance(b, Sym):
                    self._denoms(b)
        self.vars = {}
        self.pw = {}
        self.defs = []
        self._done = set()
        self.memo = {}

    def _denoms(self, s):
        for m in s.t:
            for aid, e in m:
                if not isinstance(e, int):
                    d = Fr(e).denominator
                    o = self.D.get(aid, 1)
                    self.D[aid] = o * d // math.gcd(o, d)

    def var(self, aid):
        v = self.vars.get(aid)
        if v is not None:
            return v
        a = T.atoms[aid]
        if is_unit_kind(a):
            v = (z3.Real('c_%d' % aid), z3.Real('s_%d' % aid))
        elif a.isint:
            v = z3.ToReal(z3.Int('n_%d' % aid))
        else:
            v = z3.Real('x_%d' % aid)
        self.vars[aid] = v
        return v

    def upow(self, aid, n):
        """(cos, sin) expression of the n-th power of unit variable."""
        k = (aid, n)
        r = self.pw.get(k)
        if r is not None:
            return r
        c, s = self.var(aid)
        if n < 0:
            x, y = self.upow(aid, -n)
            r = (x, -y)
        elif n == 0:
            r = (z3.RealVal(1), z3.RealVal(0))
        elif n == 1:
            r = (c, s)
        else:
            h = n // 2
            a = self.upow(aid, h)
            b = self.upow(aid, n - h)
            r = (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
        self.pw[k] = r
        return r

    def poly(self, s):
        k = id(s)
        r = self.memo.get(k)
        if r is None:
            r = (self._poly(s), s)
            self.memo[k] = r
        return r[0]

    def _poly(self, s):
        if isinstance(s, InfSym):
            raise Unsupported('infinity in a solver query')
        res, ims = [], []
        real = ring.is_real(s)
        for m, c in s.t.items():
            coef = []
            re, im = None, None
            for aid, e in m:
                a = T.atoms[aid]
                D = self.D.get(aid, 1)
                n = int(Fr(e) * D)
                if is_unit_kind(a):
                    x, y = self.upow(aid, n)
                    if re is None:
                        re, im = x, y
                    else:
                        re, im = re * x - im * y, re * y + im * x
                else:
                    v = self.var(aid)
                    if n < 0:
                        v = self.invvar(aid)
                        n = -n
                    for _ in range(n):
                        coef.append(v)
            base = None
            for x in coef:
                base = x if base is None else base * x
            cr, ci = q(c[0]), q(c[1])
            if re is None:
                tr = cr if base is None else cr * base
                ti = ci if base is None else ci * base
                if c[0] != 0:
                    res.append(tr)
                if c[1] != 0:
                    ims.append(ti)
            else:
                if c[1] == 0:
                    a, b = cr * re, cr * im
                elif c[0] == 0:
                    a, b = -ci * im, ci * re
                else:
                    a, b = cr * re - ci * im, cr * im + ci * re
                if base is not None:
                    a = base * a
                    b = base * b
                res.append(a)
                ims.append(b)
        R = z3.Sum(res) if len(res) > 1 else (res[0] if res else z3.RealVal(0))
        if real:
            return R, None
        I = z3.Sum(ims) if len(ims) > 1 else (ims[0] if ims else z3.RealVal(0))
        return R, I

    def invvar(self, aid):
        k = ('inv', aid)
        v = self.vars.get(k)
        if v is None:
            v = z3.Real('w_%d' % aid)
            self.vars[k] = v
            self.defs.append(v * self.var(aid) == 1)
        return v

    def formula(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        if f[0] == 'cmp':
            op, d = f[1], f[2]
            if op in ('==', '!='):
                num, dens = clear_denoms(d)
                for x in dens:
                    re, im = self.poly(x)
                    self.defs.append(re != 0 if im is None else z3.Or(re != 0, im != 0))
                re, im = self.poly(num)
                e = re == 0 if im is None else z3.And(re == 0, im == 0)
                return e if op == '==' else z3.Not(e)
            re, im = self.poly(d)
            return re < 0 if op == '<' else re <= 0
        if f[0] == 'not':
            return z3.Not(self.formula(f[1]))
        xs = [self.formula(g) for g in f[1]]
        return z3.And(*xs) if f[0] == 'and' else z3.Or(*xs)

    def bound(self, b):
        if isinstance(b, Sym):
            return self.poly(b)[0]
        return q(b)

    def axioms(self):
        """Defining axioms of every atom mentioned by the query."""
        out = []
        out.extend(self.formula(f) for f in self.facts)
        todo = True
        while todo:
            todo = False
            for aid in list(self.vars):
                if aid in self._done or isinstance(aid, tuple):
                    continue
                self._done.add(aid)
                todo = True
                a = T.atoms[aid]
                k = a.kind
                v = self.vars[aid]
                if is_unit_kind(a):
                    c, s = v
                    out.append(c * c + s * s == 1)
                    D = self.D.get(aid, 1)
                    if k == 'upi':
                        ang = math.pi / D
                        out.append(c > 0 if ang < 1.57 else c <= 0)
                        out.append(s >= 0)
                        continue
                    iv = CTX.interval(a.data)
                    if iv is not None:
                        lo, hi = iv[0] / D, iv[1] / D
                        e = 1e-9
                        if lo > -math.pi / 2 + e and hi < math.pi / 2 - e:
                            out.append(c > 0)
                        elif lo >= -math.pi / 2 - e and hi <= math.pi / 2 + e:
                            out.append(c >= 0)
                        if lo >= -math.pi - e and hi <= math.pi + e:
                            b = self.poly(a.data)[0]
                            out.append(z3.Implies(b >= 0, s >= 0))
                            out.append(z3.Implies(b <= 0, s <= 0))
                            if lo > -math.pi + e and hi < math.pi - e:
                                out.append(z3.Implies(s == 0, b == 0))
                    continue
                D = self.D.get(aid, 1)
                if k == 'pi':
                    out.append(v > q(Fr(31415926535, 10 ** 10)))
                    out.append(v < q(Fr(31415926536, 10 ** 10)))
                    continue
                if D == 1:
                    if a.lo is not None:
                        lo = self.bound(a.lo)
                        out.append(v > lo if a.strict else v >= lo)
                    if a.hi is not None:
                        hi = self.bound(a.hi)
                        out.append(v < hi if a.strict else v <= hi)
                if a.pos:
                    out.append(v > 0)
                elif a.nz:
                    out.append(v != 0)
                if k == 'sqrt':
                    out.append(v >= 0)
                    out.append(v * v == self.poly(a.data)[0])
                elif k == 'expr':
                    p = v
                    for _ in range(D - 1):
                        p = p * v
                    out.append(p == self.poly(a.data)[0])
                elif k == 'floor':
                    e = self.poly(a.data)[0]
                    out.append(z3.And(v <= e, e < v + 1))
                elif k == 'abs':
                    e = self.poly(a.data)[0]
                    out.append(v == z3.If(e >= 0, e, -e))
                elif k == 'inv':
                    re, im = self.poly(a.data[0])
                    if im is None:
                        out.append(v * re == 1)
                elif k == 'asin':
                    x = self.poly(a.data)[0]
                    pi = self.var(ring.PI.id)
                    out.append(z3.And(2 * v <= pi, 2 * v >= -pi))
                    out.append(z3.And(x <= 1, x >= -1))
                    out.append(z3.Implies(x > 0, v > 0))
                    out.append(z3.Implies(x < 0, v < 0))
                    out.append(z3.Implies(x == 0, v == 0))
                elif k in ('atan2', 'ang'):
                    pi = self.var(ring.PI.id)
                    out.append(z3.And(v <= pi, v >= -pi))
                    if k == 'atan2':
                        y = self.poly(a.data[0])[0]
                        out.append(z3.Implies(y > 0, v > 0))
                        out.append(z3.Implies(y < 0, v < 0))
                        if a.data[0].is_const() and a.data[1].is_const():
                            f = math.atan2(float(Fr(a.data[0].cval()[0])), float(Fr(a.data[1].cval()[0])))
                            out.append(z3.And(v >= q(f - 1e-12), v <= q(f + 1e-12)))
                elif k == 'log':
                    x = self.poly(a.data)[0]
                    out.append(x > 0)
                    out.append(z3.Implies(x > 1, v > 0))
                    out.append(z3.Implies(x < 1, v < 0))
                    out.append(z3.Implies(x == 1, v == 0))
                    if a.data.is_const() and Fr(a.data.cval()[0]) > 0:
                        g = Fr(a.data.cval()[0])
                        f = math.log(g.numerator) - math.log(g.denominator)
                        out.append(z3.And(v >= q(f - 1e-12), v <= q(f + 1e-12)))
            if self.defs:
                out.extend(self.defs)
                self.defs = []
                todo = True
        return out


def q(x):
    if isinstance(x, int):
        return z3.RealVal(x)
    x = Fr(x)
    return z3.Q(x.numerator, x.denominator)


def rational_unit(ang):
    """Exact rational point of the unit circle near exp(j*ang)."""
    ang = math.remainder(ang, 2 * math.pi)
    if abs(abs(ang) - math.pi) < 1e-12:
        return Fr(-1), Fr(0)
    t = Fr(math.tan(ang / 2)).limit_denominator(10 ** 6)
    n = 1 + t * t
    return (1 - t * t) / n, 2 * t / n


# ---------------------------------------------------------------------------
# context
# ---------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.t = 0.0
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.maxterms = 0

    def add(self, o):
        for k in self.__dict__:
            if k == 'maxterms':
                self.maxterms = max(self.maxterms, o.maxterms)
            else:
                setattr(self, k, getattr(self, k) + getattr(o, k))


class Ctx:
    def __init__(self):
        self.stats = Stats()
        self.seed = 1
        self.timeout = 10000
        self.branch_timeout = 4000
        self.nsamples = 24
        self.max_paths = 100000
        self.deadline = None
        self.active = False
        self.reset_all()

    # lifecycle -----------------------------------------------------------
    def reset_all(self):
        """New harness configuration: forget all atoms."""
        T.atoms.clear()
        T.bykey.clear()
        T.atoms.append(ring.PI)
        ring.PI.id = 0
        T.bykey[('pi', 'pi')] = ring.PI
        ring._D.clear()
        self.atom_facts = {}
        self.worklist = [[]]
        self.memo = {}
        self.linear = Linear()
        self.icache = {}
        self.narrow = False

    def begin_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.constraints = []
        self.ncon = 0
        self.inputs = {}
        self.samples = [Sample(i, self.seed) for i in range(self.nsamples)]
        self.counter = {}
        self.memo = {}
        self.atom_facts = {}
        self.known = {}
        self.inc = None
        self.inc_n = 0
        self.inc_ax = set()
        self.active = True

    def fresh_index(self, what):
        n = self.counter.get(what, 0)
        self.counter[what] = n + 1
        return n

    # inputs ----------------------------------------------------------------
    def new_var(self, name, lo=None, hi=None, isint=False, pos=False, nz=False,
                strict=False, sampler=None, isinput=True):
        def init(a):
            a.lo, a.hi, a.isint, a.strict = lo, hi, isint, strict
            a.pos = pos
            a.nz = nz or pos
            a.sampler = sampler
            a.isinput = isinput
        a = T.get('var', (name, str(lo), str(hi), isint, pos, nz, strict), name, init)
        self.inputs[name] = a
        for s in self.samples:
            s.assign(a)
        return Sym({((a.id, 1),): (1, 0)})

    # intervals -------------------------------------------------------------
    def interval(self, s):
        """Float interval of a real ring element from variable bounds."""
        k = s.key()
        if k in self.icache:
            return self.icache[k]
        r = self._interval(s)
        self.icache[k] = r
        return r

    def _interval(self, s):
        lo = hi = 0.0
        for m, c in s.t.items():
            if any(is_unit_kind(T.atoms[a]) for a, e in m):
                # bounded by |coefficient| * |real part|
                r = abs(complex(float(c[0]), float(c[1])))
                a_, b_ = 1.0, 1.0
                p = (-r, r)
                rest = [(a, e) for a, e in m if not is_unit_kind(T.atoms[a])]
            else:
                if c[1] != 0:
                    return None
                p = (float(c[0]), float(c[0]))
                rest = m
            for a, e in rest:
                b = self.atom_interval(T.atoms[a])
                if b is None:
                    return None
                b = _ipow(b, e)
                if b is None:
                    return None
                p = _imul(p, b)
            lo += p[0]
            hi += p[1]
        return lo, hi

    def atom_interval(self, a):
        if a.kind == 'pi':
            return (math.pi, math.pi)
        if a.kind == 'asin':
            return (-math.pi / 2, math.pi / 2)
        if a.kind in ('atan2', 'ang'):
            return (-math.pi, math.pi)
        if a.lo is None or a.hi is None:
            return None
        f = []
        for b in (a.lo, a.hi):
            if isinstance(b, Sym):
                iv = self.interval(b)
                if iv is None:
                    return None
                f.append(iv)
            else:
                f.append((float(b), float(b)))
        return f[0][0], f[1][1]

    # constraints -----------------------------------------------------------
    def add_constraint(self, f):
        if f is True:
            return
        self.constraints.append(f)
        c = canon(f)
        if c is not None:
            self.known[c[0]] = c[1]
        elif f is not False and f[0] == 'and':
            for g in f[1]:
                c = canon(g)
                if c is not None:
                    self.known[c[0]] = c[1]
        keep = []
        for s in self.samples:
            try:
                if f_eval(f, s.ev) is True:
                    keep.append(s)
            except KeyError:
                pass
        self.samples = keep

    def assume(self, f):
        f = as_formula(f) if not isinstance(f, tuple) else f
        if f is False:
            raise PathAbort()
        if f is True:
            return
        self.add_constraint(f)
        if not self.samples:
            if not self.feasible(True):
                raise PathAbort()

    def cmp(self, op, a, b):
        r = compare(op, a, b)
        return r if isinstance(r, SymBool) else SymBool(r)

    def truth(self, b):
        f = as_formula(b)
        return self.decide(f)

    def decide(self, f):
        if f is True or f is False:
            return f
        if not self.active:
            raise Unsupported('branch outside a path')
        c = canon(f)
        if c is not None and c[0] in self.known:
            return self.known[c[0]] == c[1]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.add_constraint(f if v else f_not(f))
            return v
        self.check_deadline()
        t = self.feasible(f)
        g = self.feasible(f_not(f)) if t else True
        self.stats.branches += 1
        if t and g:
            self.worklist.append(self.trace + [False])
            v = True
        else:
            v = bool(t)
        self.trace.append(v)
        self.pos += 1
        self.add_constraint(f if v else f_not(f))
        return v

    def choose(self, n):
        """Fork over range(n)."""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            for i in range(n - 1, 0, -1):
                self.worklist.append(self.trace + [i])
            v = 0
        self.pos += 1
        self.trace.append(v)
        return v

    def concretize_int(self, s):
        if s.is_const():
            re, im = s.cval()
            if im == 0 and isinstance(ring._norm(re), int):
                return int(re)
            raise TypeError('non-integer index')
        for _ in range(64):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
            else:
                v = self.some_value(s)
            self.pos += 1
            self.trace.append(v)
            if self.decide(('cmp', '==', s - Sym.const(v))):
                return v
        raise Unsupported('unbounded symbolic index')

    def to_int(self, s):
        if s.is_const() and s.cval()[1] == 0:
            return int(Fr(s.cval()[0]))
        if all(T.atoms[a].isint for m in s.t for a, e in m):
            return self.concretize_int(s)
        raise Unsupported('int() of a symbolic real')

    def some_value(self, s):
        for sm in self.samples:
            try:
                v = sm.ev(s).real
                if abs(v - round(v)) < 1e-9:
                    return int(round(v))
            except KeyError:
                pass
        r, m, enc = self.solve([True], want_model=True, extra=[s])
        if m is None:
            raise Unsupported('cannot concretise symbolic index')
        x = m.eval(enc.poly(s)[0], model_completion=True)
        x = Fr(x.numerator_as_long(), x.denominator_as_long())
        if x.denominator != 1:
            raise Unsupported('non-integer symbolic index')
        return int(x)

    def floordiv(self, a, b):
        if a.is_const() and b.is_const():
            return Sym.const(Fr(a.cval()[0]) // Fr(b.cval()[0]))
        from . import snp
        return snp.e_floor(a / b)

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time budget')

    def feasible(self, f):
        if f is False:
            return False
        for s in self.samples:
            try:
                if f_eval(f, s.ev) is True:
                    return True
            except KeyError:
                pass
        r, _, _ = self.solve([f], timeout=self.branch_timeout)
        return r != 'unsat'

    def provable_range(self, b, lo, hi):
        k = (b.key(), lo.key(), hi.key(), len(self.constraints))
        bad = f_or([as_formula(compare('<', b, lo)), as_formula(compare('>', b, hi))])
        if bad is False:
            return True
        if bad is True:
            return False
        for s in self.samples:
            try:
                if f_eval(bad, s.ev) is True:
                    return False
            except KeyError:
                pass
        r, _, _ = self.solve([bad], timeout=2000)
        return r == 'unsat'

    # solving -----------------------------------------------------------------
    def relevant(self, fs):
        """All path constraints (kept simple: everything)."""
        return list(self.constraints)

    def solve(self, fs, timeout=None, want_model=False, extra=(), fix=None, relevant_only=True):
        """Satisfiability of path constraints and fs."""
        self.stats.queries += 1
        t0 = time.time()
        try:
            cons = self.constraints
            if relevant_only and not want_model:
                cons = slice_constraints(cons, fs)
            allf = [f for f in cons + list(fs) if f is not True]
            if any(f is False for f in allf):
                self.stats.unsat += 1
                return 'unsat', None, None
            if not want_model and fix is None and not extra:
                r = self.solve_linear(cons, fs, timeout)
                if r is not None:
                    setattr(self.stats, r, getattr(self.stats, r) + 1)
                    return r, None, None
                if self.solve_monomials(allf):
                    self.stats.unsat += 1
                    return 'unsat', None, None
            enc = Encoder(allf + [('cmp', '==', s) for s in extra])
            zs = [enc.formula(f) for f in allf]
            for s in extra:
                enc.poly(s)
            if fix is not None:
                zs.extend(self.fixings(enc, fix))
            zs.extend(enc.axioms())
            sol = z3.Solver()
            sol.set('timeout', int(timeout or self.timeout))
            sol.set('random_seed', 1)
            sol.add(*zs)
            r = str(sol.check())
            if r == 'unknown':
                # second engine: nlsat-only tactic
                try:
                    s2 = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver()
                    s2.set('timeout', int(timeout or self.timeout))
                    s2.add(*zs)
                    r2 = str(s2.check())
                    if r2 != 'unknown':
                        r = r2
                        sol = s2
                except z3.Z3Exception:
                    pass
            setattr(self.stats, r, getattr(self.stats, r) + 1)
            m = sol.model() if r == 'sat' else None
            return r, m, enc
        except z3.Z3Exception as e:
            self.stats.unknown += 1
            return 'unknown', None, None
        finally:
            self.stats.t += time.time() - t0

    def solve_monomials(self, fs):
        """Linear abstraction: every monomial is a free (complex) unknown.

        True if even the abstraction is unsatisfiable, which implies that the
        formulas are.
        """
        if len(fs) < 2:
            return False
        syms = []
        for f in fs:
            f_syms(f, syms)
        if any(isinstance(x, InfSym) for x in syms) or sum(len(x.t) for x in syms) > 20000:
            return False
        mon, ax = {}, []

        def unk(m):
            if m not in mon:
                i = len(mon)
                re = z3.Real('m%d' % i)
                if ring.is_real(Sym({m: (1, 0)})):
                    im = None
                    ats = [(T.atoms[a], e) for a, e in m]
                    if all(a.pos and not is_unit_kind(a) for a, e in ats):
                        ax.append(re > 0)
                    elif all(a.kind in ('var', 'uf') and isinstance(e, int) and e % 2 == 0 for a, e in ats):
                        ax.append(re >= 0)
                    if len(m) == 1 and m[0][1] == 1 and ats[0][0].kind == 'var':
                        for b, up in ((ats[0][0].lo, False), (ats[0][0].hi, True)):
                            if b is not None and not isinstance(b, Sym):
                                ax.append(re <= q(Fr(b)) if up else re >= q(Fr(b)))
                else:
                    im = z3.Real('i%d' % i)
                mon[m] = (re, im)
            return mon[m]

        def lin(s):
            rs, ims = [], []
            for m, c in s.t.items():
                if m == ():
                    rs.append(q(Fr(c[0])))
                    ims.append(q(Fr(c[1])))
                    continue
                re, im = unk(m)
                if c[0] != 0:
                    rs.append(q(Fr(c[0])) * re)
                    if im is not None:
                        ims.append(q(Fr(c[0])) * im)
                if c[1] != 0:
                    ims.append(q(Fr(c[1])) * re)
                    if im is not None:
                        rs.append(q(Fr(-c[1])) * im)
            return z3.Sum(rs) if rs else q(Fr(0)), z3.Sum(ims) if ims else q(Fr(0))

        def enc(f):
            if f is True or f is False:
                return z3.BoolVal(f)
            if f[0] == 'cmp':
                re, im = lin(f[2])
                if f[1] in ('==', '!='):
                    e = z3.And(re == 0, im == 0)
                    return e if f[1] == '==' else z3.Not(e)
                return re < 0 if f[1] == '<' else re <= 0
            if f[0] == 'not':
                return z3.Not(enc(f[1]))
            xs = [enc(g) for g in f[1]]
            return z3.And(*xs) if f[0] == 'and' else z3.Or(*xs)
        zs = [enc(f) for f in fs]
        sol = z3.Solver()
        sol.set('timeout', 1000)
        sol.set('random_seed', 1)
        sol.add(*zs)
        sol.add(*ax)
        return str(sol.check()) == 'unsat'

    def solve_linear(self, cons, fs, timeout):
        """Decides conjunctions of linear formulas with one incremental solver per path."""
        L = self.linear
        new = [L.formula(f) for f in fs]
        if any(x is None for x in new):
            return None
        whole = all(L.formula(f) is not None for f in self.constraints)
        sol = self.inc if whole else None
        if whole:
            if sol is None:
                sol = self.inc = z3.Solver()
                sol.set('random_seed', 1)
                self.inc_n = 0
                self.inc_ax = set()
            for f in self.constraints[self.inc_n:]:
                r = L.formula(f)
                self.inc_axioms(sol, r[1])
                sol.add(r[0])
            self.inc_n = len(self.constraints)
            for x in new:
                self.inc_axioms(sol, x[1])
        else:
            old = [L.formula(f) for f in cons]
            if any(x is None for x in old):
                return None
            sol = z3.Solver()
            sol.set('random_seed', 1)
            done = set()
            for x in old:
                self.inc_axioms(sol, x[1], done)
                sol.add(x[0])
            for x in new:
                self.inc_axioms(sol, x[1], done)
        sol.set('timeout', int(timeout or self.timeout))
        sol.push()
        for x in new:
            sol.add(x[0])
        r = str(sol.check())
        sol.pop()
        return r if r != 'unknown' else None

    def inc_axioms(self, sol, ats, done=None):
        done = self.inc_ax if done is None else done
        todo = [a for a in ats if a not in done]
        for a in todo:
            done.add(a)
            self.linear.var(a)
            for z in self.linear.axioms[a]:
                sol.add(z)

    def fixings(self, enc, sample):
        out = []
        for aid in sorted(enc.clos):
            a = T.atoms[aid]
            try:
                if a.kind == 'var':
                    v = enc.var(aid)
                    x = sample.values[aid]
                    D = enc.D.get(aid, 1)
                    if D != 1:
                        x = Fr(float(x) ** (1.0 / D)).limit_denominator(10 ** 6)
                    if a.isint:
                        out.append(v == z3.RealVal(int(x)))
                    else:
                        out.append(v == q(Fr(x)))
                elif is_unit_kind(a):
                    c, s = enc.var(aid)
                    D = enc.D.get(aid, 1)
                    x, y = rational_unit(sample.ev.unit_arg(aid) / D)
                    out.append(c == q(x))
                    out.append(s == q(y))
                elif a.kind in ('uf', 'log', 'asin', 'atan2', 'ang', 'expo'):
                    v = enc.var(aid)
                    out.append(v == q(Fr(float(sample.ev.atom(aid))).limit_denominator(10 ** 6)))
                elif a.kind == 'pi':
                    enc.var(aid)
            except (KeyError, OverflowError, ValueError):
                pass
        return out

    def prove(self, neg):
        """Is (path and neg) unsatisfiable?  -> ('unsat'|'sat'|'unknown', witness)"""
        if neg is False:
            # decided by normal form; still ask the solver for the record
            r, _, _ = self.solve([('cmp', '<', Sym.const(0))])
            return 'unsat', None
        hits = []
        for s in self.samples:
            try:
                if f_eval(neg, s.ev) is True:
                    hits.append(s)
            except KeyError:
                pass
        for s in hits[:2]:
            r, m, enc = self.solve([neg], timeout=3000, fix=s, relevant_only=False)
            if r == 'sat':
                return 'sat', s
        # the full query first over the relevant constraints, then all
        r, m, enc = self.solve([neg])
        if r == 'unsat':
            return 'unsat', None
        r2, m, enc = self.solve([neg], want_model=True)
        if r2 == 'unsat':
            return 'unsat', None
        if r2 == 'sat':
            return 'sat', ModelSample(self, m, enc)
        if hits:
            return 'sat?', hits[0]
        return 'unknown', None


# ---------------------------------------------------------------------------
# linear fast path: cached translation and an incremental solver
# ---------------------------------------------------------------------------
def canon(f):
    """(key, polarity) of a comparison, identifying a formula with its negation."""
    if f is True or f is False or f[0] != 'cmp':
        return None
    op, d = f[1], f[2]
    if isinstance(d, InfSym):
        return None
    if op in ('==', '!='):
        k, k2 = d.key(), (-d).key()
        if repr(k2) < repr(k):
            k = k2
        return ('==', k), op == '=='
    if op == '<':
        return ('<', d.key()), True
    return ('<', (-d).key()), False


class Linear:
    """Translation of formulas that are linear in plain variables."""

    def __init__(self):
        self.vars = {}
        self.cache = {}
        self.axioms = {}

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            a = T.atoms[aid]
            if a.kind == 'pi':
                v = z3.Real('x_0')
                self.vars[aid] = v
                self.axioms[aid] = [v > q(Fr(31415926535, 10 ** 10)), v < q(Fr(31415926536, 10 ** 10))]
                return v
            if a.kind != 'var':
                return None
            v = z3.Int('n_%d' % aid) if a.isint else z3.Real('x_%d' % aid)
            self.vars[aid] = v
            ax = []
            for b, up in ((a.lo, False), (a.hi, True)):
                if b is None:
                    continue
                if isinstance(b, Sym):
                    e = self.lin(b)
                    if e is None:
                        self.axioms[aid] = None
                        return v
                    e = e[0]
                else:
                    e = q(b)
                ax.append((v < e if a.strict else v <= e) if up else (v > e if a.strict else v >= e))
            if a.pos:
                ax.append(v > 0)
            elif a.nz:
                ax.append(v != 0)
            self.axioms[aid] = ax
        return v

    def lin(self, s):
        """(expr, atoms) or None"""
        if isinstance(s, InfSym):
            return None
        terms, ats = [], set()
        allint = True
        for m, c in s.t.items():
            if c[1] != 0:
                return None
            allint = allint and isinstance(c[0], int)
            if len(m) == 0:
                terms.append((c[0], None))
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            aid = m[0][0]
            if aid in CTX.atom_facts:
                return None
            v = self.var(aid)
            if v is None or self.axioms.get(aid) is None:
                return None
            a = T.atoms[aid]
            if not a.isint:
                allint = False
            ats.add(aid)
            for b in (a.lo, a.hi):
                if isinstance(b, Sym):
                    for mm in b.t:
                        for x, e in mm:
                            ats.add(x)
            terms.append((c[0], v))
        out = []
        for c, v in terms:
            if v is None:
                out.append(z3.IntVal(c) if allint else q(c))
            elif c == 1:
                out.append(v)
            else:
                out.append((z3.IntVal(c) if allint else q(c)) * v)
        if not out:
            return (z3.IntVal(0), ats)
        return (z3.Sum(out) if len(out) > 1 else out[0]), ats

    def formula(self, f):
        """(z3 formula, atoms) or None"""
        if f is True or f is False:
            return z3.BoolVal(f), frozenset()
        k = f_key(f)
        r = self.cache.get(k, 0)
        if r == 0:
            r = self._formula(f)
            self.cache[k] = r
        if r is not None and CTX.atom_facts and any(a in CTX.atom_facts for a in r[1]):
            return None
        return r

    def _formula(self, f):
        if f[0] == 'cmp':
            e = self.lin(f[2])
            if e is None:
                return None
            op = f[1]
            x = e[0]
            return {'==': x == 0, '!=': x != 0, '<': x < 0, '<=': x <= 0}[op], frozenset(e[1])
        if f[0] == 'not':
            r = self.formula(f[1])
            return None if r is None else (z3.Not(r[0]), r[1])
        xs = [self.formula(g) for g in f[1]]
        if any(x is None for x in xs):
            return None
        ats = frozenset().union(*[x[1] for x in xs])
        zs = [x[0] for x in xs]
        return (z3.And(*zs) if f[0] == 'and' else z3.Or(*zs)), ats


def slice_constraints(cons, fs):
    """Cone of influence of fs among the constraints (over-approximates sat)."""
    want = set()
    for f in fs:
        for s in f_syms(f, []):
            atoms_closure(s, want)
    if not want:
        return list(cons)
    sets = []
    for c in cons:
        acc = set()
        for s in f_syms(c, []):
            atoms_closure(s, acc)
        acc.discard(0)
        sets.append(acc)
    want.discard(0)
    picked = [False] * len(cons)
    ch = True
    while ch:
        ch = False
        for i, st in enumerate(sets):
            if not picked[i] and (st & want or not st):
                picked[i] = True
                if not st <= want:
                    want |= st
                    ch = True
    return [c for c, p in zip(cons, picked) if p]


def _imul(a, b):
    ps = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return min(ps), max(ps)


def _ipow(b, e):
    if e == 1:
        return b
    if e < 0:
        if b[0] <= 0 <= b[1]:
            return None
        b = (1 / b[1], 1 / b[0])
        e = -e
    if isinstance(e, int):
        if e % 2 == 0:
            lo = 0 if b[0] <= 0 <= b[1] else min(b[0] ** e, b[1] ** e)
            return lo, max(b[0] ** e, b[1] ** e)
        return b[0] ** e, b[1] ** e
    if b[0] < 0:
        return None
    return b[0] ** float(e), b[1] ** float(e)


class Sample:
    """A concrete assignment of the input variables, extended on demand."""

    def __init__(self, idx, seed):
        self.idx = idx
        self.seed = seed
        self.values = {}
        self.byname = {}
        self.ev = Evaluator(self.values)

    def assign(self, a):
        if a.id in self.values:
            return
        v = sample_value(a, self.idx, self.seed)
        self.values[a.id] = v
        self.byname[a.name] = v


def sample_value(a, idx, seed):
    rng = random.Random(zlib.crc32(('%s|%d|%d' % (a.name, idx, seed)).encode()))
    if a.sampler is not None:
        return Fr(a.sampler(rng))

    def b(x, d):
        if x is None:
            return d
        if isinstance(x, Sym):
            iv = CTX.interval(x)
            return iv[0] if iv else d
        return float(x)
    lo, hi = a.lo, a.hi
    if a.isint:
        l = int(b(lo, -6))
        h = int(b(hi, 6))
        return Fr(rng.randint(l, h))
    l = b(lo, 0.1 if a.pos else -2.0)
    h = b(hi, (l + 3.0) if lo is not None else (2.5 if a.pos else 2.0))
    if lo is None and hi is not None:
        l = h - 3.0
        if a.pos:
            l = min(0.1, h / 10)
    if l == h:
        return Fr(l)
    u = rng.random()
    x = l + (h - l) * (0.02 + 0.96 * u)
    return Fr(x).limit_denominator(1000) if h - l > 0.1 else Fr(x)


class ModelSample:
    """Input assignment read off a solver model."""

    def __init__(self, ctx, m, enc):
        self.byname = {}
        for name, a in ctx.inputs.items():
            v = enc.vars.get(a.id)
            if v is None:
                val = sample_value(a, 0, ctx.seed)
            else:
                x = m.eval(v, model_completion=True)
                val = z3_to_fr(x)
                D = enc.D.get(a.id, 1)
                if D != 1:
                    val = val ** D
            self.byname[name] = val
        self.values = {a.id: self.byname[n] for n, a in ctx.inputs.items()}
        self.ev = Evaluator(self.values)
        self.turned = self.turn(ctx, m, enc)

    def turn(self, ctx, m, enc):
        """The same model with inputs changed so that the angles agree with
        the values of their sines and cosines (which the solver treats as
        points of the unit circle)."""
        names = {a.id: n for n, a in ctx.inputs.items()}
        vals = dict(self.values)
        used = set()
        try:
            for aid in sorted(enc.vars, key=lambda i: (T.atoms[i].depth, i) if not isinstance(i, tuple) else (10 ** 6, 0)):
                if isinstance(aid, tuple) or T.atoms[aid].kind != 'unit':
                    continue
                b = T.atoms[aid].data
                if len(b.t) != 1:
                    continue
                (mono, co), = b.t.items()
                free = [i for i, e in mono if e == 1 and i in names and i not in used and not T.atoms[i].isint]
                if not free:
                    continue
                c, sn = enc.vars[aid]
                D = enc.D.get(aid, 1)
                th = D * math.atan2(float(z3_to_fr(m.eval(sn, model_completion=True))), float(z3_to_fr(m.eval(c, model_completion=True))))
                i = free[-1]
                old = float(vals[i])
                vals[i] = Fr(1)
                k = Evaluator(vals)(b).real
                vals[i] = Fr(old)
                if not k or k != k:
                    continue
                per = 2 * math.pi * D
                th += per * round((old * k - th) / per)
                vals[i] = Fr(th / k)
                used.add(i)
        except (KeyError, OverflowError, ValueError, ZeroDivisionError, ArithmeticError, AttributeError):
            return None
        if not used:
            return None
        return {names[i]: v for i, v in vals.items() if i in names}


def z3_to_fr(x):
    if z3.is_rational_value(x):
        return Fr(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        x = x.approx(30)
        return Fr(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return Fr(x.as_long())
    s = z3.simplify(x)
    if z3.is_rational_value(s):
        return Fr(s.numerator_as_long(), s.denominator_as_long())
    return Fr(0)


CTX = Ctx()
