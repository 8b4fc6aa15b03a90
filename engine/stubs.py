"""Contracts standing for the third-party libraries used by doatools.

Every stub is a stated assumption of the checks: scipy, cvxpy and matplotlib
are not analysed, their documented behaviour is.
"""
import math
import types
from fractions import Fraction as Fr

import numpy as np

from . import ring, snp, path
from .ring import Sym, InfSym, Unsupported, ZERO, ONE, J, to_sym, mul
from .path import CTX
from .snp import as_sarr, _num, _elem, _nd


# ------------------------------------------------------------------- dict ---
def is_symkey(k):
    if isinstance(k, Sym):
        return not k.is_const() or isinstance(k, InfSym)
    if isinstance(k, (tuple, frozenset)):
        return any(is_symkey(x) for x in k)
    return False


def key_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return all(key_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (Sym, int, float, Fr, np.generic)) != isinstance(b, (Sym, int, float, Fr, np.generic)):
        return False
    return bool(a == b)


class SymDict(dict):
    """dict whose keys may be symbolic (equality decided by the solver)."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._ks = []
        self._sym = False
        self.default_factory = None
        self.update(*a, **k)

    def _find(self, k):
        if not self._sym and not is_symkey(k):
            return ('h', k) if dict.__contains__(self, k) else None
        for i, (kk, _) in enumerate(self._ks):
            if key_eq(kk, k):
                return ('l', i)
        return None

    def __setitem__(self, k, v):
        if is_symkey(k) and not self._sym:
            self._sym = True
        f = self._find(k)
        if f is not None and f[0] == 'l':
            kk = self._ks[f[1]][0]
            self._ks[f[1]] = (kk, v)
            if not is_symkey(kk):
                dict.__setitem__(self, kk, v)
            return
        if f is not None:
            for i, (kk, _) in enumerate(self._ks):
                if not is_symkey(kk) and kk == k and hash(kk) == hash(k):
                    self._ks[i] = (kk, v)
                    break
        else:
            self._ks.append((k, v))
        if not is_symkey(k):
            dict.__setitem__(self, k, v)
        else:
            dict.__setitem__(self, ('__sym', len(self._ks)), v)

    def __getitem__(self, k):
        f = self._find(k)
        if f is None:
            if self.default_factory is not None:
                v = self.default_factory()
                self[k] = v
                return v
            raise KeyError(k)
        return dict.__getitem__(self, k) if f[0] == 'h' else self._ks[f[1]][1]

    def get(self, k, d=None):
        f = self._find(k)
        if f is None:
            return d
        return dict.__getitem__(self, k) if f[0] == 'h' else self._ks[f[1]][1]

    def __contains__(self, k):
        return self._find(k) is not None

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def __delitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        if f[0] == 'h':
            dict.__delitem__(self, k)
            self._ks = [(a, b) for a, b in self._ks if is_symkey(a) or a != k]
        else:
            del self._ks[f[1]]
            dict.clear(self)
            ks, self._ks = self._ks, []
            for a, b in ks:
                self[a] = b

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def update(self, *a, **k):
        for x in a:
            it = x.items() if hasattr(x, 'items') else x
            for kk, v in it:
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def keys(self):
        return [k for k, _ in self._ks]

    def values(self):
        return [v for _, v in self._ks]

    def items(self):
        return list(self._ks)

    def __iter__(self):
        return iter([k for k, _ in self._ks])

    def __len__(self):
        return len(self._ks)

    def __bool__(self):
        return bool(self._ks)

    def clear(self):
        dict.clear(self)
        self._ks = []
        self._sym = False

    def copy(self):
        return SymDict(self.items())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy
        return SymDict([(k, copy.deepcopy(v, memo)) for k, v in self._ks])

    def __eq__(self, o):
        if len(self) != len(o):
            return False
        return all(k in o and bool(o[k] == v) for k, v in self._ks)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        SymDict.__init__(self, *a, **k)
        self.default_factory = factory


class SymSet:
    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        self._d.pop(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __or__(self, o):
        r = SymSet(self)
        r.update(o)
        return r
    union = __or__

    def __and__(self, o):
        return SymSet([x for x in self if x in o])
    intersection = __and__

    def __sub__(self, o):
        return SymSet([x for x in self if x not in o])
    difference = __sub__

    def __eq__(self, o):
        return len(self) == len(o) and all(x in o for x in self)

    def issubset(self, o):
        return all(x in o for x in self)

    def copy(self):
        return SymSet(self)


# ------------------------------------------------------------------- math ---
class MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, n):
        if n == 'pi':
            return snp.PIS()
        if n == 'tau':
            return snp.PIS() * 2
        if n == 'prod':
            def prod(xs, start=1):
                r = start
                for x in xs:
                    r = r * x
                return r
            return prod
        if n == 'log':
            def log(x, base=None):
                x = to_sym(x)
                r = ring.log(x)
                return r if base is None else r / ring.log(to_sym(base))
            return log
        if n in ('ceil', 'floor', 'trunc'):
            def f(x, n=n):
                if isinstance(x, Sym):
                    r = snp.UF['ceil' if n == 'ceil' else 'floor'](x)
                    return int(r)
                return getattr(math, n)(x)
            return f
        if n in ('isnan', 'isinf', 'isfinite'):
            return lambda x: snp.UF[n](to_sym(x))
        if n == 'isclose':
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(snp.np_isclose(a, b, rel_tol, abs_tol))
        alias = {'asin': 'arcsin', 'acos': 'arccos', 'atan2': 'arctan2', 'atan': 'arctan',
                 'fabs': 'absolute', 'pow': 'power', 'degrees': 'degrees', 'radians': 'radians',
                 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp',
                 'log2': 'log2', 'log10': 'log10', 'log1p': 'log1p', 'hypot': 'hypot'}
        if n in alias:
            f = snp.UF[alias[n]]
            return lambda *a: f(*[to_sym(x) for x in a])
        if n == 'fsum':
            return lambda xs: snp.ring_sum([to_sym(x) for x in xs])
        return getattr(math, n)


# ------------------------------------------------------------------ scipy ---
def sp_sqrtm(A, *a, **k):
    """Matrix square root contract.

    A registered factor (CTX.memo['sqrtm_reg']) is returned when present;
    diagonal matrices are exact.
    """
    A = as_sarr(A)
    snp.check_square(A)
    for ra, rs in CTX.memo.setdefault('sqrtm_reg', []):
        if ra.shape == A.shape and snp.same_matrix(ra, A):
            return rs.copy()
    if snp.is_diag(A):
        return snp.np_diag(as_sarr([ring.sqrt(_num(_elem(A[i, i]))) for i in range(A.shape[0])]))
    raise Unsupported('sqrtm of an unregistered matrix')


def sp_eigh(a, b=None, lower=True, eigvals_only=False, **k):
    if b is not None or k.get('subset_by_index') is not None:
        raise Unsupported('generalised/partial eigh')
    w, v = snp.la_eigh(a, 'L' if lower else 'U')
    return w if eigvals_only else (w, v)


def sp_eig(a, *r, **k):
    raise Unsupported('scipy.linalg.eig')


def sp_toeplitz(c, r=None):
    c = as_sarr(c).reshape(-1)
    r = c.conj() if r is None else as_sarr(r).reshape(-1)
    n, m = c.size, r.size
    R = snp.sfull((n, m), ZERO)
    for i in range(n):
        for j in range(m):
            R[i, j] = c[i - j] if i >= j else r[j - i]
    return R


def sp_hankel(c, r=None):
    c = as_sarr(c).reshape(-1)
    n = c.size
    r = snp.sfull((n,), ZERO) if r is None else as_sarr(r).reshape(-1)
    R = snp.sfull((n, r.size), ZERO)
    for i in range(n):
        for j in range(r.size):
            R[i, j] = c[i + j] if i + j < n else r[i + j - n + 1]
    return R


def sp_khatri_rao(a, b):
    a, b = as_sarr(a), as_sarr(b)
    return snp.np_column_stack([snp.np_kron(a[:, i], b[:, i]) for i in range(a.shape[1])]) if a.shape[1] else a


def sp_block_diag(*ms):
    ms = [snp._at(2)(m) for m in ms]
    R = snp.sfull((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)), ZERO)
    i = j = 0
    for m in ms:
        R[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return R


class Mod(types.ModuleType):
    """Module facade; unknown members are outside the encoding."""

    def __init__(self, name, table):
        types.ModuleType.__init__(self, name)
        self.__dict__['_t'] = table
        self.__dict__['__path__'] = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        t = self.__dict__['_t']
        if n in t:
            return t[n]
        name = self.__name__

        def missing(*a, **k):
            raise Unsupported('%s.%s' % (name, n))
        return missing


def sp_svd(a, full_matrices=True, compute_uv=True, **k):
    return snp.la_svd(a, full_matrices, compute_uv)


SP_LINALG = Mod('scipy.linalg', {
    'sqrtm': sp_sqrtm, 'eigh': sp_eigh, 'eigvalsh': lambda a, **k: snp.la_eigh(a)[0],
    'eigvals': lambda a, **k: snp.la_eigvals(a),
    'inv': lambda a, **k: snp.la_inv(a), 'solve': lambda a, b, **k: snp.la_solve(a, b),
    'pinv': lambda a, rtol=None, **k: snp.la_pinv(a, rtol), 'lstsq': lambda a, b, cond=None, **k: snp.la_lstsq(a, b, cond),
    'det': lambda a, **k: snp.la_det(a), 'norm': snp.la_norm, 'svd': sp_svd,
    'toeplitz': sp_toeplitz, 'hankel': sp_hankel, 'khatri_rao': sp_khatri_rao,
    'block_diag': sp_block_diag, 'LinAlgError': np.linalg.LinAlgError,
    'svdvals': lambda a, **k: snp.la_svd(a, compute_uv=False),
})


def sp_find_peaks(x, height=None, threshold=None, distance=None, prominence=None,
                  width=None, wlen=None, rel_height=0.5, plateau_size=None):
    """scipy.signal.find_peaks: strict local maxima, midpoints of flat tops,
    the two borders excluded."""
    if width is not None or wlen is not None:
        raise Unsupported('find_peaks width')
    row = [_num(_elem(v)) for v in as_sarr(x).view(_nd)]
    if as_sarr(x).ndim != 1:
        raise ValueError('`x` must be a 1-D array')
    lt = lambda a, b: CTX.truth(CTX.cmp('<', a, b))
    n = len(row)
    out, flat = [], []
    i = 1
    while i < n - 1:
        if lt(row[i - 1], row[i]):
            k = i + 1
            while k < n - 1 and CTX.truth(CTX.cmp('==', row[k], row[i])):
                k += 1
            if lt(row[k], row[i]):
                out.append((i + k - 1) // 2)
                flat.append(k - i)
                i = k
        i += 1

    def lims(v):
        if isinstance(v, (tuple, list)):
            lo, hi = (tuple(v) + (None,))[:2]
        else:
            lo, hi = v, None
        if isinstance(lo, np.ndarray) and lo.ndim or isinstance(hi, np.ndarray) and hi.ndim:
            raise Unsupported('find_peaks limits per sample')
        c = lambda t: None if t is None else _num(_elem(t))
        return c(lo), c(hi)

    def inside(v, lim):
        lo, hi = lims(lim)
        v = _num(_elem(v))
        return (lo is None or not lt(v, lo)) and (hi is None or not lt(hi, v))
    if plateau_size is not None:
        out = [p for p, f in zip(out, flat) if inside(f, plateau_size)]
    if height is not None:
        out = [p for p in out if inside(row[p], height)]
    if threshold is not None:
        lo, hi = lims(threshold)
        out = [p for p in out if (lo is None or not lt(row[p] - row[p - 1], lo) and not lt(row[p] - row[p + 1], lo))
               and (hi is None or not lt(hi, row[p] - row[p - 1]) and not lt(hi, row[p] - row[p + 1]))]
    if distance is not None:
        if isinstance(distance, Sym):
            raise Unsupported('find_peaks symbolic distance')
        if distance < 1:
            raise ValueError('`distance` must be greater or equal to 1')
        dist = int(np.ceil(distance))
        # scipy goes through the peaks from the highest down (argsort order)
        order = []
        for j in range(len(out)):
            t = 0
            while t < len(order) and not lt(row[out[j]], row[out[order[t]]]):
                t += 1
            order.insert(t, j)
        keep = [True] * len(out)
        for j in reversed(order):
            if keep[j]:
                for q in range(len(out)):
                    if q != j and abs(out[q] - out[j]) < dist:
                        keep[q] = False
        out = [p for p, f in zip(out, keep) if f]
    if prominence is not None:
        def base(p, step):
            m, i = row[p], p
            while 0 <= i < n and not lt(row[p], row[i]):
                if lt(row[i], m):
                    m = row[i]
                i += step
            return m

        def prom(p):
            a, b = base(p, -1), base(p, 1)
            return row[p] - (a if lt(b, a) else b)
        out = [p for p in out if inside(prom(p), prominence)]
    return np.array(out, dtype=int), {}


def sp_maximum_filter(a, size=None, footprint=None, output=None, mode='reflect', **k):
    if footprint is not None:
        raise Unsupported('maximum_filter footprint')
    a = as_sarr(a)
    r = a.copy()
    sz = (size,) * a.ndim if isinstance(size, (int, np.integer)) else tuple(size)
    if mode not in ('reflect', 'nearest'):
        raise Unsupported('maximum_filter mode')
    for idx in np.ndindex(*a.shape):
        rngs = []
        for i, s, n in zip(idx, sz, a.shape):
            lo = i - s // 2
            rngs.append(sorted({min(max(q, 0), n - 1) if mode == 'nearest' else _refl(q, n) for q in range(lo, lo + s)}))
        best = None
        for c in np.ndindex(*[len(q) for q in rngs]):
            v = _num(_elem(a[tuple(q[j] for q, j in zip(rngs, c))]))
            best = v if best is None else snp.e_max(best, v)
        r[idx] = best
    return r


def _refl(i, n):
    p = 2 * n
    i %= p
    return i if i < n else p - 1 - i


def sp_argrelmax(*a, **k):
    raise Unsupported('argrelmax')


def sp_cdist(XA, XB, metric='euclidean', **k):
    XA, XB = as_sarr(XA), as_sarr(XB)
    if XA.ndim != 2 or XB.ndim != 2:
        raise ValueError('XA must be a 2-dimensional array.')
    if XA.shape[1] != XB.shape[1]:
        raise ValueError('XA and XB must have the same number of columns')
    R = snp.sfull((XA.shape[0], XB.shape[0]), ZERO)
    for i in range(XA.shape[0]):
        for j in range(XB.shape[0]):
            s = snp.ring_sum([mul(x - y, x - y) for x, y in zip(msy(XA[i]), msy(XB[j]))])
            if metric == 'euclidean':
                R[i, j] = ring.sqrt(s)
            elif metric == 'sqeuclidean':
                R[i, j] = s
            elif metric == 'cityblock':
                R[i, j] = snp.ring_sum([ring.absolute(x - y) for x, y in zip(msy(XA[i]), msy(XB[j]))])
            else:
                raise Unsupported('cdist metric %r' % (metric,))
    return R


def msy(v):
    return [_num(_elem(x)) for x in v.view(_nd).reshape(-1)]


def sp_minimize(*a, **k):
    h = CTX.memo.get('minimize')
    if h is None:
        raise Unsupported('scipy.optimize.minimize without a contract')
    return h(*a, **k)


class OptimizeResult(dict):
    __getattr__ = dict.__getitem__


MODULES = {}


def build_modules():
    from .snp import NPS
    mpl = Mod('matplotlib', {})
    from . import fakeplt
    toep = Mod('scipy', {'linalg': SP_LINALG})
    sig = Mod('scipy.signal', {'find_peaks': sp_find_peaks, 'argrelmax': sp_argrelmax})
    ndi = Mod('scipy.ndimage', {'maximum_filter': sp_maximum_filter})
    dist = Mod('scipy.spatial.distance', {'cdist': sp_cdist})
    spat = Mod('scipy.spatial', {'distance': dist})
    opt = Mod('scipy.optimize', {'minimize': sp_minimize, 'OptimizeResult': OptimizeResult})
    toep.__dict__['_t'].update({'signal': sig, 'ndimage': ndi, 'spatial': spat, 'optimize': opt})
    import collections

    class Coll(types.ModuleType):
        def __getattr__(self, n):
            if n == 'defaultdict':
                return SymDefaultDict
            if n == 'OrderedDict':
                return SymDict
            if n == 'Counter':
                raise Unsupported('collections.Counter')
            return getattr(collections, n)
    MODULES.update({
        'numpy': NPS, 'numpy.linalg': NPS.linalg, 'numpy.random': NPS.random,
        'math': MathShim(), 'scipy': toep, 'scipy.linalg': SP_LINALG,
        'scipy.signal': sig, 'scipy.ndimage': ndi, 'scipy.spatial': spat,
        'scipy.spatial.distance': dist, 'scipy.optimize': opt,
        'collections': Coll('collections'),
        'matplotlib': fakeplt.mpl_mod(), 'matplotlib.pyplot': fakeplt.PLT_SYM,
        'matplotlib.colors': Mod('matplotlib.colors', {'LogNorm': fakeplt.Recorder('LogNorm')}),
        'mpl_toolkits': Mod('mpl_toolkits', {}),
        'mpl_toolkits.mplot3d': Mod('mpl_toolkits.mplot3d', {'Axes3D': fakeplt.FakeAxes3D}),
        'cvxpy': None,
    })
    from . import minicvx
    MODULES['cvxpy'] = minicvx.MODULE
    return MODULES
