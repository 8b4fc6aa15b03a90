"""C38 plots: what is drawn, and where."""
import warnings

from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['plotting.plot_spectrum', 'plotting.plot_array', 'estimation.grid', 'model.arrays', 'model.perturbations', 'model.sources']
ASSUMPTIONS = ['pyplot and the axes are recorders: what is drawn is what the drawing calls receive', 'matplotlib itself is outside']


# ------------------------------------------------------------------ 1-D ----
def grid1(E, n, unit='rad'):
    """any axis"""
    x = E.rarr('x', (n,), lo=-1, hi=1, strict=True)
    if unit == 'deg':
        x = x * 90
    G = E.dt.grid.FarField1DSearchGrid
    return G(unit=unit, axes=(x,)), x


def spectrum(E, name, n):
    """positive somewhere"""
    s = E.rarr(name, (n,), lo=0, hi=9)
    E.assume(s[0] + s[n - 1] > 0)
    return s


def one(E, c):
    while isinstance(c, (list, tuple)) and len(c) == 1:
        c = c[0]
    return c


def calls(ax):
    return ax.drawn('plot', 'semilogy', 'stem', 'semilogx', 'loglog', 'scatter', 'fill_between', 'vlines', 'bar', 'imshow', 'pcolormesh', 'step')


def label(c):
    l = c[2].get('label')
    return '' if l is None or (isinstance(l, str) and l.startswith('_')) else l


def is_log(ax):
    return bool(ax.drawn('semilogy')) or any('log' in list(a) + list(k.values()) for _, a, k in ax.drawn('set_yscale'))


def curve(E, c, x, s, what):
    """the spectrum over its maximum, against the axis"""
    E.eq(c[1][0], x, what + ': abscissae')
    y = c[1][1]
    E.same(tuple(y.shape), tuple(s.shape), what + ': number of values')
    M = E.np.max(s)
    E.eq(y * M, s, what + ': normalised values', atol=0.0)


def visible(E, ax, log):
    """limits set by hand do not hide a normalised spectrum"""
    for _, a, k in ax.drawn('set_ylim'):
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = tuple(a[0])
        lo = a[0] if a else k.get('bottom', k.get('ymin'))
        hi = a[1] if len(a) > 1 else k.get('top', k.get('ymax'))
        if lo is not None and not log:
            E.le(lo, 0, 'lower limit')
        if hi is not None:
            E.le(1, hi, 'upper limit')


def marks(E, c, loc, name):
    E.eq(c[1][0], loc, name + ': directions')
    E.same(tuple(c[1][1].shape), tuple(loc.shape), name + ': one mark per direction')
    for v in c[1][1]:
        E.le(E.const(0.01), v, name + ': marks can be seen')
        E.le(v, 1, name + ': marks are not above the spectrum')
    E.same(label(c), name, name + ': label')


def nowhere_else(E, plt, ax):
    E.same(len(plt.axes), 0, 'no new figure')
    E.same(len(calls(plt.current)), 0, 'nothing on other axes')
    E.same(plt.shown, 0, 'nothing shown')


def data(E, form, S):
    if form == 'array':
        return S[0], ['']
    if form == 'list':
        return list(S), [''] * len(S)
    if form == 'tuple':
        return tuple(S), [''] * len(S)
    names = ['b', 'a', 'third'][:len(S)]
    return dict(zip(names, S)), names


def placement(E, k, name, unit='rad'):
    return far1(E, k, unit, name)


@H(quick=[dict(form=f, k=k, log=l, discrete=d) for f, k in [('array', 1), ('list', 2), ('tuple', 2), ('dict', 2)] for l in [False, True] for d in [False, True]],
   thorough=[dict(form=f, k=3, log=l, discrete=d, n=3) for f in ['list', 'dict'] for l in [False, True] for d in [False, True]] +
   [dict(form='array', k=1, log=l, discrete=d, n=5) for l in [False, True] for d in [False, True]],
   bounds='2 (thorough 5) grid points anywhere, up to 2 (3) spectra with any values, any estimates and true directions')
def lines(E, form, k, log, discrete, n=2):
    plt = E.plt()
    g, x = grid1(E, n)
    S = [spectrum(E, 's%d' % i, n) for i in range(k)]
    keep = [s.copy() for s in S]
    est, tru = placement(E, 2, 'e'), placement(E, 1, 't')
    d, names = data(E, form, S)
    ax = E.fake_axes()
    out = E.dt.plot_spectrum.plot_spectrum_1d(d, g, ax, estimates=est, ground_truth=tru, use_log_scale=log, discrete=discrete)
    C = calls(ax)
    E.same(len(C), k + 2, 'one plot per spectrum, the estimates and the truth')
    for i in range(k):
        curve(E, C[i], x, S[i], 'spectrum %d' % i)
        E.same(label(C[i]), names[i], 'label of spectrum %d' % i)
        E.same(C[i][0] == 'stem', discrete, 'stems exactly for discrete spectra')
    E.same(is_log(ax), log, 'logarithmic scale exactly on request')
    visible(E, ax, log)
    marks(E, C[k], est.locations, 'Estimates')
    marks(E, C[k + 1], tru.locations, 'Ground truth')
    E.same(len(ax.drawn('legend')), 1, 'legend')
    E.same(len(out), k + 2, 'containers')
    for i in range(k + 2):
        E.same(one(E, out[i]).call is C[i], True, 'container %d' % i)
    for a, b in zip(S, keep):
        E.eq(a, b, 'spectra are left alone')
    E.eq(g.axes[0], x, 'the grid is left alone')
    nowhere_else(E, plt, ax)


@H(quick=grid(form=['array', 'dict'], est=[0, 1], truth=[0, 1], discrete=[False, True]), bounds='with and without estimates and true directions')
def optional(E, form, est, truth, discrete):
    plt = E.plt()
    g, x = grid1(E, 2)
    S = [spectrum(E, 's', 2)]
    e, t = placement(E, 1, 'e'), placement(E, 2, 't')
    d, names = data(E, form, S)
    ax = E.fake_axes()
    out = E.dt.plot_spectrum.plot_spectrum_1d(d, g, ax, e if est else None, t if truth else None, False, discrete)
    C = calls(ax)
    E.same(len(C), 1 + est + truth, 'only what is given')
    E.same(len(out), 1 + est + truth, 'containers')
    curve(E, C[0], x, S[0], 'spectrum')
    if est:
        marks(E, C[1], e.locations, 'Estimates')
    if truth:
        marks(E, C[-1], t.locations, 'Ground truth')
    E.same(bool(ax.drawn('legend')), bool(est or truth or form == 'dict'), 'legend when something has a label')
    nowhere_else(E, plt, ax)


@H(quick=grid(unit=['rad', 'deg', 'sin'], discrete=[False, True]), bounds='every unit')
def units(E, unit, discrete):
    plt = E.plt()
    g, x = grid1(E, 2, unit)
    s = spectrum(E, 's', 2)
    f = E.dt.plot_spectrum.plot_spectrum_1d
    e = placement(E, 1, 'e', unit)
    ax = E.fake_axes()
    f(s, g, ax, e, e, discrete=discrete)
    curve(E, calls(ax)[0], x, s, 'spectrum')
    L = ax.drawn('set_xlabel')
    E.same(len(L), 1, 'one label')
    t = L[0][1][0]
    E.same(unit in t and g.axis_names[0] in t, True, 'the label names the axis and its unit')
    other = 'rad' if unit != 'rad' else 'sin'
    o = E.dt.sources.FarField1DSourcePlacement([0.25], other)
    E.raises(ValueError, lambda: f(s, g, E.fake_axes(), estimates=o), 'estimates in another unit')
    E.raises(ValueError, lambda: f(s, g, E.fake_axes(), ground_truth=o), 'true directions in another unit')


@H(bounds='a spectrum that is zero everywhere')
def zero(E):
    plt = E.plt()
    g, x = grid1(E, 2)
    s = E.np.zeros((2,))
    ax = E.fake_axes()
    E.dt.plot_spectrum.plot_spectrum_1d(s, g, ax)
    E.eq(calls(ax)[0][1][1], s, 'zeros')
    E.eq(calls(ax)[0][1][0], x, 'abscissae')


@H(quick=grid(k=[9]), bounds='9 spectra (more than there are colours) with fixed values')
def many(E, k):
    plt = E.plt()
    g, x = grid1(E, 2)
    S = [E.arr([E.const(float(i + 1)), E.const(1.0)]) for i in range(k)]
    ax = E.fake_axes()
    E.dt.plot_spectrum.plot_spectrum_1d(S, g, ax)
    C = calls(ax)
    E.same(len(C), k, 'all drawn')
    for i in range(k):
        curve(E, C[i], x, S[i], 'spectrum')


@H(bounds='wrong shapes and types')
def rejects(E):
    plt = E.plt()
    g, x = grid1(E, 3)
    P = E.dt.plot_spectrum
    s, b = E.rarr('s', (3,), lo=0, hi=1), E.rarr('b', (2,), lo=0, hi=1)
    m = E.rarr('m', (1, 3), lo=0, hi=1)
    for w, v in [('short', b), ('matrix', m), ('second of a list', [s, b]), ('second of a dict', {'a': s, 'b': b}), ('empty list', []), ('empty dict', {}), ('number', 3.0), ('None', None)]:
        E.raises(ValueError, lambda: P.plot_spectrum_1d(v, g, E.fake_axes()), w)
    g2 = E.dt.grid.FarField2DSearchGrid(axes=(E.arr([E.const(0.0), E.const(0.5)]), E.arr([E.const(0.25), E.const(0.5), E.const(1.0)])))
    E.raises(ValueError, lambda: P.plot_spectrum_2d(E.rarr('q', (3, 2), lo=0, hi=1), g2, E.fake_axes()), 'transposed 2-D spectrum')
    E.raises(ValueError, lambda: P.plot_spectrum_2d(s, g2, E.fake_axes()), '1-D spectrum on a 2-D grid')


# ------------------------------------------------------------------ 2-D ----
def grid2(E, kind, n):
    if kind == 'nf':
        return E.dt.grid.NearField2DSearchGrid(axes=(E.rarr('u', (n[0],), lo=-9, hi=9), E.rarr('v', (n[1],), lo=-9, hi=9)))
    a, b = E.rarr('u', (n[0],), lo=-1, hi=1), E.rarr('v', (n[1],), lo=-1, hi=1)
    if kind == 'deg':
        return E.dt.grid.FarField2DSearchGrid(unit='deg', axes=(a * 90, b * 45))
    return E.dt.grid.FarField2DSearchGrid(axes=(a, b))


def placement2(E, kind, k, name):
    S = E.dt.sources
    if kind == 'nf':
        return S.NearField2DSourcePlacement(E.rarr(name, (k, 2), lo=-9, hi=9))
    if kind == 'deg':
        return S.FarField2DSourcePlacement(E.rarr(name, (k, 2), lo=1, hi=40), 'deg')
    return S.FarField2DSourcePlacement(E.rarr(name, (k, 2), lo=0.1, hi=1))


@H(quick=grid(kind=['rad', 'deg', 'nf'], swap=[False, True], log=[False, True]), thorough=grid(kind=['rad', 'nf'], swap=[False, True], log=[False], n=[(3, 4), (1, 3)]),
   bounds='2 x 3 (thorough 3 x 4, 1 x 3) grid points anywhere, any values, any estimates and true positions')
def image(E, kind, swap, log, n=(2, 3)):
    plt = E.plt()
    g = grid2(E, kind, n)
    ref = [a.copy() for a in g.axes]
    s = E.rarr('s', n, lo=0, hi=9)
    keep = s.copy()
    est, tru = placement2(E, kind, 2, 'e'), placement2(E, kind, 1, 't')
    ax = E.fake_axes()
    out = E.dt.plot_spectrum.plot_spectrum_2d(s, g, ax, est, tru, use_log_scale=log, swap_axes=swap, color_map='hot')
    ix, iy = (1, 0) if swap else (0, 1)
    C = calls(ax)
    E.same(len(C), 3, 'the image, the estimates and the truth')
    _, a, kw = C[0]
    im = a[0]
    E.same(tuple(im.shape), (n[iy], n[ix]), 'rows go along y, columns along x')
    lower = kw.get('origin') == 'lower'
    for p in range(n[0]):
        for q in range(n[1]):
            c, r = (q, p) if swap else (p, q)
            E.eq(im[r if lower else n[iy] - 1 - r, c], s[p, q], 'pixel')
    ex = kw['extent']
    for i, v in enumerate([ref[ix], ref[iy]]):
        E.eq(ex[2 * i], E.np.min(v), 'lower end of the extent')
        E.eq(ex[2 * i + 1], E.np.max(v), 'upper end of the extent')
    E.same(kw.get('cmap'), 'hot', 'colour map')
    norm = kw.get('norm')
    E.same(norm is not None and 'Log' in str(norm[1] if isinstance(norm, tuple) else norm), log, 'logarithmic colours exactly on request')
    for c, src, name in [(C[1], est, 'Estimates'), (C[2], tru, 'Ground truth')]:
        E.eq(c[1][0], src.locations[:, ix], name + ': x')
        E.eq(c[1][1], src.locations[:, iy], name + ': y')
        E.same(label(c), name, name + ': label')
    for fn, i in [('set_xlabel', ix), ('set_ylabel', iy)]:
        t = ax.drawn(fn)[0][1][0]
        E.same(g.axis_names[i] in t and g.units[i] in t, True, fn)
    E.same(len(out), 3, 'containers')
    for i in range(3):
        E.same(one(E, out[i]).call is C[i], True, 'container %d' % i)
    for m, where in plt.bars:
        E.same(where is ax, True, 'the colour bar belongs to the axes')
    E.same(bool(ax.drawn('legend')), True, 'legend')
    E.eq(s, keep, 'the spectrum is left alone')
    nowhere_else(E, plt, ax)


@H(quick=grid(est=[0, 1], truth=[0, 1]), bounds='2 x 2 grid, with and without estimates and true positions, also in another unit')
def image_optional(E, est, truth):
    plt = E.plt()
    g = E.dt.grid.FarField2DSearchGrid(axes=(E.arr([E.const(0.0), E.const(0.5)]), E.arr([E.const(0.25), E.const(0.5)])))
    s = E.rarr('s', (2, 2), lo=0, hi=9)
    e, t = placement2(E, 'rad', 1, 'e'), placement2(E, 'rad', 2, 't')
    f = E.dt.plot_spectrum.plot_spectrum_2d
    ax = E.fake_axes()
    out = f(s, g, ax, e if est else None, t if truth else None)
    C = calls(ax)
    E.same([c[0] for c in C][1:], ['scatter'] * (est + truth), 'only what is given')
    E.same(len(out), 1 + est + truth, 'containers')
    E.same([label(c) for c in C[1:]], ['Estimates'] * est + ['Ground truth'] * truth, 'labels')
    for c, src in zip(C[1:], [e] * est + [t] * truth):
        E.eq(c[1][0], src.locations[:, 0], 'x')
        E.eq(c[1][1], src.locations[:, 1], 'y')
    E.same(bool(ax.drawn('legend')), bool(est or truth), 'legend')
    o = placement2(E, 'deg', 1, 'o')
    if est:
        E.raises(ValueError, lambda: f(s, g, E.fake_axes(), estimates=o), 'estimates in another unit')
    if truth:
        E.raises(ValueError, lambda: f(s, g, E.fake_axes(), ground_truth=o), 'true positions in another unit')


# ------------------------------------------------------------- dispatcher --
@H(quick=grid(dim=[1, 2], given=[True, False], log=[False, True]), bounds='1-D and 2-D grids, on given axes and on a new figure')
def dispatch(E, dim, given, log):
    plt = E.plt()
    if dim == 1:
        g, x = grid1(E, 2)
        s = spectrum(E, 's', 2)
        e, t = placement(E, 1, 'e'), placement(E, 2, 't')
        kw = dict(discrete=True)
    else:
        g = grid2(E, 'rad', (2, 2))
        s = E.rarr('s', (2, 2), lo=0, hi=9)
        e, t = placement2(E, 'rad', 1, 'e'), placement2(E, 'rad', 2, 't')
        kw = dict(swap_axes=True, color_map='hot')
    ax0 = E.fake_axes() if given else None
    ax, out = E.dt.plot_spectrum.plot_spectrum(s, g, ax=ax0, figsize=None if given else (3, 4), estimates=e, ground_truth=t, use_log_scale=log, **kw)
    E.same(ax is ax0 if given else ax in plt.axes, True, 'returns the axes')
    C = calls(ax)
    E.same(len(C), 3, 'spectrum, estimates, truth')
    E.same(len(out), 3, 'containers')
    if dim == 1:
        curve(E, C[0], x, s, 'spectrum')
        E.same(C[0][0], 'stem', 'options are passed on')
        E.same(is_log(ax), log, 'log scale')
        marks(E, C[1], e.locations, 'Estimates')
        marks(E, C[2], t.locations, 'Ground truth')
    else:
        k = C[0][2]
        E.eq(C[0][1][0] if k.get('origin') == 'lower' else C[0][1][0][::-1], s, 'options are passed on')
        E.same(k.get('cmap'), 'hot', 'colour map')
        E.same(k.get('norm') is not None, log, 'log scale')
        E.eq(C[1][1][0], e.locations[:, 1], 'estimates')
        E.eq(C[2][1][0], t.locations[:, 1], 'true positions')
    if given:
        E.same(ax is ax0, True, 'returns the given axes')
        nowhere_else(E, plt, ax)
    else:
        E.same(len(plt.axes), 1, 'one new figure')
        E.same(ax is plt.axes[0], True, 'returns the new axes')
        E.same(plt.shown, 1, 'shown')
        E.same(tuple(plt.figsize), (3, 4), 'figure size')
        E.same(len(calls(plt.current)), 0, 'nothing on other axes')


# ------------------------------------------------------------------ arrays --
def scattered(E, c, dim, where, what):
    """the points of a scatter call"""
    a = c[1]
    n = len(where)
    E.same(tuple(a[0].shape), (n,), what + ': number of points')
    for i in range(max(dim, 2)):
        E.eq(a[i], E.arr([w[i] if i < len(w) else 0 * w[0] for w in where]), what + ': coordinate %d' % i)
    E.same(len([v for v in a if hasattr(v, 'shape')]), max(dim, 2), what + ': dimensions')


def array(E, dim, n, pd=None):
    loc = E.rarr('a', (n, dim), lo=-3, hi=3)
    P = E.dt.perturb
    per, err = [], None
    if pd == 0:
        per = [P.GainErrors(E.rarr('ge', (n,), lo=-0.2, hi=0.2), True)]
    elif pd:
        err = E.rarr('er', (n, pd), lo=-0.1, hi=0.1)
        per = [P.GainErrors(E.np.zeros((n,))), P.LocationErrors(err, True)]
    return E.dt.arrays.ArrayDesign(loc, 'arb', per), loc, err


def actual(E, loc, err):
    n, d = loc.shape
    D = max(d, err.shape[1])
    return [[(loc[i, c] if c < d else 0) + (err[i, c] if c < err.shape[1] else 0) for c in range(D)] for i in range(n)], D


@H(quick=grid(dim=[1, 2, 3], pd=[None, 0, 1, 2, 3], show=[False, True], given=[True, False]), thorough=grid(dim=[1, 2, 3], pd=[None, 2], show=[True], given=[True], n=[1, 5]),
   bounds='3 (thorough 1, 5) elements anywhere in 1-3 dimensions, with no errors, gain errors only, any location errors in 1-3 dimensions')
def elements(E, dim, pd, show, given, n=3):
    plt = E.plt()
    arr, loc, err = array(E, dim, n, pd)
    ax0 = E.fake_axes() if given else None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        ax = E.dt.plot_array.plot_array(arr, ax0, show_location_errors=show)
    w = [x for x in w if 'location errors' in str(x.message)]
    E.same(len(w) > 0, show and not pd, 'a warning exactly when the requested errors do not exist')
    E.same(ax is ax0 if given else ax in plt.axes, True, 'returns the axes')
    C = calls(ax)
    both = bool(show and pd)
    E.same(len(C), 2 if both else 1, 'nominal and, on request, actual positions')
    scattered(E, C[0], dim, [[loc[i, c] for c in range(dim)] for i in range(n)], 'nominal')
    E.same('ominal' in label(C[0]), True, 'nominal label')
    D = dim
    if both:
        W, D = actual(E, loc, err)
        scattered(E, C[1], D, W, 'actual')
        E.same('ctual' in label(C[1]), True, 'actual label')
        E.same(C[0][2].get('marker') != C[1][2].get('marker'), True, 'different markers')
    E.same(bool(ax.drawn('legend')), True, 'legend')
    if given:
        E.same(ax is ax0, True, 'returns the given axes')
        nowhere_else(E, plt, ax)
    else:
        E.same(len(plt.axes), 1, 'one new figure')
        E.same(ax is plt.axes[0], True, 'returns the new axes')
        E.same(plt.shown, 1, 'shown')
        E.same(ax.projection == '3d', D == 3, '3-D axes exactly for 3-D positions')


def as_set(E, c, dim, where, what):
    """the points of a scatter call, as a set without repetitions"""
    a = c[1]
    E.same(tuple(a[0].shape), (len(where),), what + ': number of points')
    for w in where:
        hit = [all(bool(a[i][j] == w[i]) if E.sym else abs(a[i][j] - w[i]) < 1e-9 for i in range(dim)) for j in range(len(where))]
        E.same(sum(hit), 1, what + ': every difference once')
    if dim == 1:
        E.eq(a[1], E.np.zeros((len(where),)), what + ': on the axis')


@H(quick=grid(n=[2, 3], dim=[1], show=[False, True]) + grid(n=[2], dim=[2, 3], show=[False, True]), bounds='2-3 elements at integer positions (0..3), with location errors that are multiples of 1/8')
def differences(E, n, dim, show):
    plt = E.plt()
    X = [[E.conc(E.int('a%d_%d' % (i, c), lo=0, hi=3)) if i else 0 for c in range(dim)] for i in range(n)]
    Z = [[E.conc(E.int('e%d_%d' % (i, c), lo=0, hi=1 if n < 3 else 0)) if i else 0 for c in range(1)] for i in range(n)]
    loc = E.arr([[E.const(float(x)) for x in r] for r in X])
    err = E.arr([[E.const(r[0] / 8)] for r in Z])
    arr = E.dt.arrays.ArrayDesign(loc, 'arb', [E.dt.perturb.LocationErrors(err, True)])
    ax0 = E.fake_axes()
    ax = E.dt.plot_array.plot_coarray(arr, ax0, show)
    E.same(ax is ax0, True, 'returns the given axes')
    C = calls(ax)
    E.same(len(C), 2 if show else 1, 'nominal and, on request, actual differences')

    def diffs(L):
        return sorted({tuple(p - q for p, q in zip(a, b)) for a in L for b in L})
    as_set(E, C[0], dim, diffs(X), 'nominal')
    if show:
        as_set(E, C[1], dim, diffs([[x + (Z[i][c] / 8 if c < 1 else 0) for c, x in enumerate(r)] for i, r in enumerate(X)]), 'actual')
    nowhere_else(E, plt, ax)


@H(quick=grid(n=[2, 3], c=[1.0, 2.0 ** -10, 1000.0], actual=[False, True]), bounds='2 elements anywhere at least 0.1 apart; 3 elements anywhere with 7 different differences at least 0.1 apart; in units of 1/1024, 1 and 1000')
def differences_any(E, n, c, actual):
    plt = E.plt()
    a = E.real('p', lo=0.1, hi=3) * c
    x = [0 * a, a]
    if n == 3:
        b = E.real('q', lo=0.2, hi=3) * c
        E.assume(b >= 2 * a + E.const(0.1) * c)
        x = x + [a + b - a]
    loc = E.arr([[v] for v in x])
    ax = E.fake_axes()
    if actual:
        ula = E.dt.arrays.UniformLinearArray(n, c)
        arr = E.dt.arrays.UniformLinearArray(n, c, perturbations=[E.dt.perturb.LocationErrors(loc - ula.element_locations, E.choice('known', [True, False]))])
    else:
        arr = E.dt.arrays.ArrayDesign(loc, 'arb')
    E.dt.plot_array.plot_coarray(arr, ax, actual)
    C = calls(ax)
    E.same(len(C), 2 if actual else 1, 'one scatter of the nominal and one of the actual elements')
    C = C[-1:]
    W = [[0 * a], [a], [-a]]
    if n == 3:
        W += [[b], [-b], [b - a], [a - b]]
    got = E.np.sort(C[0][1][0])
    E.same(tuple(got.shape), (len(W),), 'number of differences')
    E.eq(got, E.np.sort(E.arr([w[0] for w in W])), 'all differences')
    E.eq(C[0][1][1], E.np.zeros((len(W),)), 'on the axis')


@H(quick=grid(flat=[(), ('x',), ('y', 'z'), ('x', 'y', 'z')]), bounds='3-D axes whose limits coincide in any subset of the directions')
def degenerate(E, flat):
    """plots of flat 3-D arrays: similar ranges on all three axes, never an error"""
    plt = E.plt()
    arr, loc, _ = array(E, 3, 2)
    ax = E.fake_axes()
    for i, k in enumerate('xyz'):
        lo = E.real('l' + k, lo=-1, hi=1)
        w = E.real('w' + k, lo=0.5, hi=2)
        ax.lims[k] = (lo, lo if k in flat else lo + w)
    E.dt.plot_array.plot_array(arr, ax)
    scattered(E, calls(ax)[0], 3, [[loc[i, c] for c in range(3)] for i in range(2)], 'nominal')
    for _, a, _ in ax.drawn('auto_scale_xyz'):
        r = [v[1] - v[0] for v in a[:3]]
        for v in r[1:]:
            E.eq(v, r[0], 'similar ranges')


@H(quick=grid(discrete=[False, True], log=[False, True]), bounds='spectra of integers')
def integers(E, discrete, log):
    import numpy as np
    plt = E.plt()
    g, x = grid1(E, 3)
    v = E.choice('v', [[3, 1, 2], [0, 40, 7], [1, 1, 1], [300, 2, 1]])
    ax = E.fake_axes()
    E.dt.plot_spectrum.plot_spectrum_1d(np.array(v), g, ax, use_log_scale=log, discrete=discrete)
    C = calls(ax)
    E.same(len(C), 1, 'one plot')
    curve(E, C[0], x, E.arr([E.const(float(t)) for t in v]), 'spectrum of integers')
