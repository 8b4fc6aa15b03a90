"""C24 spectra of Bartlett, MVDR, MUSIC and Min-Norm."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.core', 'estimation.beamforming', 'estimation.music', 'estimation.min_norm', 'estimation.grid', 'model.sources', 'model.arrays', 'model.perturbations']
ASSUMPTIONS = ['numpy.linalg.eigh: eigenvalues in ascending order with matching eigenvector columns (uninterpreted, or U diag(v) U^H with a known unitary U)',
               'MVDR: the covariance matrix is invertible; MUSIC / Min-Norm: no exact zero of the null spectrum, first entry of the noise subspace not zero']


def steer(E, loc, wl, units, pts):
    """reference plane-wave steering vector of a linear array"""
    cols = []
    for t in pts:
        s = sin_of(E, t, units)
        cols.append([expj(E, 2 * E.pi / wl * loc[m] * s) for m in range(len(loc))])
    return cols


def noise(E, R, k):
    v, U = E.np.linalg.eigh(R)
    return U[:, :U.shape[0] - k]


def ref(E, name, a, R, k, En=None):
    m = len(a)
    a = E.arr(a)
    if name == 'bartlett':
        return (a.conj() @ (R @ a)).real
    if name == 'mvdr':
        return 1 / (a.conj() @ (E.np.linalg.inv(R) @ a)).real
    En = noise(E, R, k) if En is None else En
    d = m - k
    if name == 'music':
        t = 0
        for q in range(d):
            x = sum([En[i, q].conjugate() * a[i] for i in range(m)][1:], En[0, q].conjugate() * a[0])
            t = t + (x * x.conjugate()).real
        return 1 / t
    c2 = 0
    for q in range(d):
        c2 = c2 + (En[0, q] * En[0, q].conjugate()).real
    w = [sum([En[i, q] * En[0, q].conjugate() for q in range(1, d)], En[i, 0] * En[0, 0].conjugate()) / c2 for i in range(m)]
    y = sum([w[i].conjugate() * a[i] for i in range(1, m)], w[0].conjugate() * a[0])
    return 1 / (y * y.conjugate()).real


def cls(E, name):
    return {'bartlett': E.dt.beamforming.BartlettBeamformer, 'mvdr': E.dt.beamforming.MVDRBeamformer,
            'music': E.dt.music.MUSIC, 'minnorm': E.dt.min_norm.MinNorm}[name]


def first(k):
    import numpy as np
    return lambda x: tuple(np.arange(k) for _ in range(x.ndim))


def finder(x):
    import numpy as np
    return tuple(np.arange(min(x.shape)) for _ in range(x.ndim))


@H(quick=grid(name=['bartlett', 'mvdr', 'music', 'minnorm'], m=[2, 3], unit=['rad', 'deg', 'sin']) + grid(name=['bartlett', 'mvdr', 'music'], m=[8], unit=['deg']) + grid(name=['minnorm'], m=[4], unit=['deg']) + grid(name=['bartlett', 'mvdr', 'music', 'minnorm'], m=[2], unit=['sin'], points=[60]),
   thorough=grid(name=['bartlett', 'mvdr', 'music', 'minnorm'], m=[2, 3, 4], unit=['rad', 'deg', 'sin']),
   bounds='any Hermitian covariance of size 2-3 (4; 8 for Bartlett and MUSIC), any linear array, wavelength and grid of 3 (60) points, 1 to m-1 sources')
def estimator(E, name, m, unit, points=3):
    if m == 4 and name == 'mvdr':
        return
    arr, loc = any_array(E, '1d', m)
    wl = E.real('wl', pos=True)
    src = far1(E, points, unit)
    x = src.locations
    g = E.dt.grid.FarField1DSearchGrid(unit=unit, axes=(x,))
    R = E.psd('R', m) if name == 'mvdr' else E.herm('R', m)
    R0 = R.copy()
    k = E.conc(E.int('k', 1, m - 1)) if m < 8 and points == 3 else E.choice('k', [1, 2][:m - 1])
    est = cls(E, name)(arr, wl, g, peak_finder=finder if m < 8 and points == 3 else first(k))
    ok, e, sp = est.estimate(R, k, return_spectrum=True)
    E.same(ok, True, 'resolved')
    cols = steer(E, [loc[i, 0] for i in range(m)], wl, unit, [x[i] for i in range(points)])
    for i in range(points):
        E.eq(sp[i], ref(E, name, cols[i], R, k), '%s spectrum' % name)
    E.eq(R, R0, 'covariance unchanged')


@H(quick=grid(name=['bartlett', 'mvdr', 'music', 'minnorm'], c=[1e-20, 1e-8, 1e12]), bounds='covariances of size 2 in units from 1e-20 to 1e12')
def units(E, name, c):
    arr, loc = any_array(E, '1d', 2)
    wl = E.real('wl', pos=True)
    x = far1(E, 1, 'sin').locations
    g = E.dt.grid.FarField1DSearchGrid(unit='sin', axes=(x,))
    R = E.psd('R', 2) if name == 'mvdr' else E.herm('R', 2)
    ok, e, sp = cls(E, name)(arr, wl, g, peak_finder=finder).estimate(R * c, 1, return_spectrum=True)
    col = steer(E, [loc[i, 0] for i in range(2)], wl, 'sin', [x[0]])[0]
    u = c if name in ('bartlett', 'mvdr') else 1
    E.eq(sp[0] / u, ref(E, name, col, R * c, 1) / u, '%s spectrum in other units' % name)


@H(quick=grid(f=['bartlett', 'mvdr', 'music'], m=[2, 3]) + grid(f=['bartlett', 'music'], m=[8]), thorough=grid(f=['bartlett', 'music'], m=[4, 5]),
   bounds='the spectrum functions on any complex steering matrix of 2 columns, 2-3, 8 (4-5) sensors')
def functions(E, f, m):
    A = E.carr('A', (m, 2))
    if f == 'music':
        d = E.conc(E.int('d', 1, m - 1))
        En = E.carr('En', (m, d))
        y = E.dt.music.f_music(A, En)
        for i in range(2):
            t = 0
            for q in range(d):
                z = sum([En[r, q].conjugate() * A[r, i] for r in range(m)][1:], En[0, q].conjugate() * A[0, i])
                t = t + (z * z.conjugate()).real
            E.eq(y[i] * t, E.const(1.0), 'MUSIC function')
        return
    R = E.herm('R', m) if f == 'bartlett' else E.psd('R', m)
    y = getattr(E.dt.beamforming, 'f_' + f)(A, R)
    for i in range(2):
        E.eq(y[i], ref(E, f, [A[r, i] for r in range(m)], R, 1), f)


@H(quick=grid(name=['bartlett', 'music', 'minnorm'], kind=['ff2', 'nf'], dim=['1d', '2d', '3d']) + grid(name=['bartlett', 'music'], kind=['ff2', 'nf'], dim=['2d'], n=[9]), bounds='2 by 2 and 9 by 10 (azimuth-elevation or near-field) grids, 2 elements anywhere in one to three dimensions')
def planar(E, name, kind, dim, n=2):
    m = 2
    arr, loc = any_array(E, dim, m)
    wl = E.real('wl', pos=True)
    n2 = n if n == 2 else n + 1
    if kind == 'ff2':
        ax = (E.rarr('az', (n,), lo=-3, hi=3), E.rarr('el', (n2,), lo=-1.5, hi=1.5))
        g = E.dt.grid.FarField2DSearchGrid(axes=ax)
    else:
        ax = (E.rarr('x', (n,), lo=-9, hi=9), E.rarr('y', (n2,), lo=-9, hi=9))
        g = E.dt.grid.NearField2DSearchGrid(axes=ax)
    R = E.herm('R', m)
    ok, e, sp = cls(E, name)(arr, wl, g, peak_finder=finder if n == 2 else first(1)).estimate(R, 1, return_spectrum=True)
    E.same(tuple(sp.shape), (n, n2), 'shape of the grid')
    dims = loc.shape[1]
    for i in range(n):
        for j in range(n2):
            u, v = ax[0][i], ax[1][j]
            if kind == 'ff2':
                d = [E.np.cos(u) * E.np.cos(v), E.np.sin(u) * E.np.cos(v), E.np.sin(v)]
                a = [expj(E, 2 * E.pi / wl * sum([loc[r, c] * d[c] for c in range(1, dims)], loc[r, 0] * d[0])) for r in range(m)]
            else:
                p = [[loc[r, c] if c < dims else 0 for c in range(3)] for r in range(m)]
                dist = [E.np.sqrt((u - p[r][0]) ** 2 + (v - p[r][1]) ** 2 + (0 - p[r][2]) ** 2 * 1.0) for r in range(m)]
                a = [expj(E, 2 * E.pi / wl * (dist[0] - dist[r])) for r in range(m)]
            E.eq(sp[i, j], ref(E, name, a, R, 1), '%s spectrum in row-major grid order' % name)


@H(quick=grid(name=['bartlett', 'mvdr', 'music', 'minnorm'], kind=['gain', 'loc', 'coupling']),
   bounds='2 elements, 2 grid points; known perturbations are used, unknown ones are not')
def perturbed(E, name, kind):
    m = 2
    arr, loc = any_array(E, '1d', m)
    wl = E.real('wl', pos=True)
    g = E.dt.grid.FarField1DSearchGrid(unit='sin', axes=(E.rarr('t', (2,), lo=-1, hi=1, strict=True),))
    known = E.choice('known', [True, False])
    if kind == 'gain':
        gn = E.rarr('g', (m,), lo=-0.5, hi=0.5)
        par = ('gain_errors', gn)
    elif kind == 'loc':
        gn = E.rarr('g', (m, 1), lo=-0.5, hi=0.5)
        par = ('location_errors', gn)
    else:
        gn = E.carr('g', (m, m))
        par = ('mutual_coupling', gn)
    p = arr.get_perturbed_copy({par[0]: (par[1], known)})
    R = E.psd('R', m) if name == 'mvdr' else E.herm('R', m)
    ok, e, sp = cls(E, name)(p, wl, g, peak_finder=finder).estimate(R, 1, return_spectrum=True)
    for i in range(2):
        t = g.axes[0][i]
        l = [loc[r, 0] + (gn[r, 0] if kind == 'loc' and known else 0) for r in range(m)]
        a = [expj(E, 2 * E.pi / wl * l[r] * t) for r in range(m)]
        if known and kind == 'gain':
            a = [a[r] * (1 + gn[r]) for r in range(m)]
        if known and kind == 'coupling':
            a = [gn[r, 0] * a[0] + gn[r, 1] * a[1] for r in range(m)]
        E.eq(sp[i], ref(E, name, a, R, 1), '%s spectrum of the known response' % name)


def unitary(E, m):
    """any unitary of size 2, or a product of plane rotations with phases (size 3)"""
    import itertools
    U = None
    for n, (i, j) in enumerate(itertools.combinations(range(m), 2)):
        t, p = E.real('rt%d' % n, lo=-3, hi=3), E.real('rp%d' % n, lo=-3, hi=3)
        c, s = E.np.cos(t), E.np.sin(t)
        G = [[E.const(1.0 if a == b else 0.0) for b in range(m)] for a in range(m)]
        G[i][i], G[j][j] = c, c
        G[i][j], G[j][i] = -s * expj(E, -p), s * expj(E, p)
        G = E.arr(G)
        U = G if U is None else U @ G
    return U


@H(quick=grid(name=['music', 'minnorm'], m=[2, 3]), bounds='covariances U diag(v) U^H with any rotation U (size 2 or 3) and eigenvalues in any strictly increasing position; any complex steering vector')
def known_eigenvectors(E, name, m):
    v = [E.real('v0', lo=0.1, hi=1)]
    for i in range(1, m):
        v.append(v[-1] + E.real('dv%d' % i, lo=0.1, hi=1))
    U = unitary(E, m)
    R = (U * E.arr(v)) @ U.conj().T
    E.register_eigh(R, E.arr(v), U)
    arr, loc = any_array(E, '1d', m)
    wl = E.real('wl', pos=True)
    t = E.real('t', lo=-1, hi=1, strict=True)
    g = E.dt.grid.FarField1DSearchGrid(unit='sin', axes=(E.arr([t]),))
    k = E.conc(E.int('k', 1, m - 1))
    ok, e, sp = cls(E, name)(arr, wl, g, peak_finder=finder).estimate(R, k, return_spectrum=True)
    if k != 1:
        E.same(ok, False, 'one candidate is not enough')
    cols = steer(E, [loc[i, 0] for i in range(m)], wl, 'sin', [t])
    E.eq(sp[0], ref(E, name, cols[0], R, k, En=U[:, :m - k]), '%s spectrum with the eigenvectors of the smallest eigenvalues' % name)


@H(quick=grid(name=['bartlett', 'mvdr', 'music', 'minnorm'], seq=['order', 'inplace']) + grid(name=['music', 'minnorm'], seq=['tiny']), bounds='two or three uses of one estimator (and of another one on the same grid) with other source counts, other covariances, or the same array overwritten in between, also at a billionth of the scale; 3 (MVDR: 2) elements, 2 grid points')
def reuse(E, name, seq):
    m = 2 if name == 'mvdr' else 3
    arr, loc = any_array(E, '1d', m)
    wl = E.real('wl', pos=True)
    x = E.rarr('t', (2,), lo=-1, hi=1, strict=True)
    g = E.dt.grid.FarField1DSearchGrid(unit='sin', axes=(x,))
    mk = lambda n: E.psd(n, m) if name == 'mvdr' else E.herm(n, m) * (1e-9 if seq == 'tiny' else 1)
    R1, R2 = mk('R'), mk('S')
    cols = steer(E, [loc[i, 0] for i in range(m)], wl, 'sin', [x[i] for i in range(2)])
    import numpy as np
    first = lambda x: (np.array([0]),)
    est = cls(E, name)(arr, wl, g, peak_finder=first)

    def use(est, R, k, cols, label):
        ok, e, sp = est.estimate(R, k, return_spectrum=True)
        for i in range(2):
            E.eq(sp[i], ref(E, name, cols[i], R, k), label)
    ks = [2, 1, 2] if m == 3 else [1, 1, 1]
    use(est, R1, ks[0], cols, 'first spectrum')
    if seq == 'order':
        use(est, R1, ks[1], cols, 'same covariance, another number of sources')
        use(est, R2, ks[2], cols, 'another covariance')
        ar2 = E.dt.arrays.ArrayDesign(loc * 0.5, arr.name)
        use(cls(E, name)(ar2, wl, g, peak_finder=first), R2, ks[1], steer(E, [loc[i, 0] * 0.5 for i in range(m)], wl, 'sin', [x[i] for i in range(2)]), 'another array on the same grid')
    else:
        R = R1.copy()
        use(est, R, ks[0], cols, 'first spectrum')
        R[:] = R2
        use(est, R, ks[0], cols, 'the same array with other entries')


@H(quick=grid(name=['bartlett', 'mvdr', 'music', 'minnorm'], m=[2, 3], typ=['real', 'int']), bounds='real symmetric covariances of size 2-3, also one of integers')
def real_cov(E, name, m, typ):
    import numpy as np
    arr, loc = any_array(E, '1d', m)
    wl = E.real('wl', pos=True)
    x = far1(E, 2, 'sin').locations
    g = E.dt.grid.FarField1DSearchGrid(unit='sin', axes=(x,))
    if typ == 'int':
        V = [[5, 2, 1], [2, 7, -3], [1, -3, 6]]
        R = np.array([r[:m] for r in V[:m]])
        Q = E.arr([[E.const(float(v)) for v in r[:m]] for r in V[:m]])
    else:
        L = E.rarr('L', (m, m), lo=-1, hi=1)
        Q = R = L @ L.T + (0.1 * E.np.eye(m) if name == 'mvdr' else 0)
    if typ == 'int' and name in ('music', 'minnorm'):
        return
    ok, e, sp = cls(E, name)(arr, wl, g, peak_finder=finder).estimate(R, 1, return_spectrum=True)
    cols = steer(E, [loc[i, 0] for i in range(m)], wl, 'sin', [x[0], x[1]])
    for i in range(2):
        E.eq(sp[i], ref(E, name, cols[i], Q, 1), '%s spectrum of a real covariance' % name)


@H(quick=grid(name=['music', 'minnorm', 'bartlett'], m=[8]), bounds='8 elements anywhere, a fixed complex eigenbasis (a reflection) with any increasing eigenvalues, 1, 3 or 5 sources, any wavelength and one candidate direction')
def large_known(E, name, m):
    v = [E.real('v0', lo=0.1, hi=1)]
    for i in range(1, m):
        v.append(v[-1] + E.real('dv%d' % i, lo=0.1, hi=1))
    q = [1 + 1j, 2, -1j, 1 - 2j, 1, 2 + 1j, -1, 1j]
    s = sum(abs(z) ** 2 for z in q)
    U = E.arr([[E.const(complex((1.0 if a == b else 0.0) - 2 * q[a] * q[b].conjugate() / s)) for b in range(m)] for a in range(m)])
    R = (U * E.arr(v)) @ U.conj().T
    E.register_eigh(R, E.arr(v), U)
    arr, loc = any_array(E, '1d', m)
    wl = E.real('wl', pos=True)
    t = E.real('t', lo=-1, hi=1, strict=True)
    g = E.dt.grid.FarField1DSearchGrid(unit='sin', axes=(E.arr([t]),))
    k = E.choice('k', [1, 3, 5])
    ok, e, sp = cls(E, name)(arr, wl, g, peak_finder=first(1)).estimate(R, k, return_spectrum=True)
    cols = steer(E, [loc[i, 0] for i in range(m)], wl, 'sin', [t])
    r = ref(E, name, cols[0], R, k, En=U[:, :m - k])
    E.eq(sp[0] / r if name != 'bartlett' else sp[0], 1.0 + 0 * r if name != 'bartlett' else r, '%s spectrum with the eigenvectors of the smallest eigenvalues' % name)
