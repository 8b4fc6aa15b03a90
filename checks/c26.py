"""C26 ESPRIT."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.core', 'estimation.esprit', 'model.sources']
ASSUMPTIONS = ['numpy.linalg.eigh: ascending eigenvalues with matching eigenvectors; for a noise-free scene the trailing eigenvectors are an arbitrary (invertible) recombination of the steering vectors, and the null space of the stacked subspaces likewise (recombinations with real coefficients)',
               'numpy.linalg.eigvals returns the eigenvalues with multiplicity in any order', 'directions are inside the unambiguous range of the displacement']


def sine_result(E, src, zs_angles, c, unit, label, **kw):
    ref = E.np.sort(E.arr([a / c if unit == 'sin' else E.np.arcsin(a / c) for a in zs_angles]))
    E.same((type(src).__name__, src.units[0], src.size), ('FarField1DSourcePlacement', unit, len(zs_angles)), 'kind, unit, number')
    for i in range(len(zs_angles)):
        E.eq(src.locations[i], ref[i] * 180 / E.pi if unit == 'deg' else ref[i], label, **kw)


def weights(E, kind, n):
    if kind in ('default', 'none'):
        return kind
    if kind == 'small':
        return E.rarr('w', (n,), lo=0.3, hi=2) * 2.0 ** -24
    if kind == 'signed':
        return E.rarr('w', (n,), lo=0.3, hi=2) * E.np.array([(-1.0) ** i for i in range(n)])
    if kind == 'int':
        return E.np.array([3, 1, 2, 4, 1][:n])
    return E.rarr('w', (n,), lo=0.3, hi=2)


@H(quick=grid(m=[3, 4], disp=[1, 2], form=['ls', 'tls'], w=['default', 'none', 'custom'], unit=['sin']) + grid(m=[2], disp=[1], form=['ls', 'tls'], w=['default'], unit=['rad', 'deg', 'sin']),
   thorough=grid(m=[2, 3, 5], disp=[1], form=['ls', 'tls'], w=['default', 'none', 'custom'], unit=['rad', 'deg', 'sin']) + grid(m=[5], disp=[2, 3, 4], form=['ls', 'tls'], w=['default', 'custom'], unit=['sin']),
   bounds='one source in any direction, 2-4 (5) elements, displacement 1-2 (4), any power, noise level, wavelength, default or any spacing')
def one_source(E, m, disp, form, w, unit):
    wl = E.real('wl', lo=0.2, hi=5)
    dflt = E.choice('d0', ['default', 'given', 'close'])
    if dflt == 'close':     # any direction up to end-fire
        d = E.real('dc', lo=0.2, hi=0.45) / disp
        d0 = wl * d
        ph = 2 * E.pi * (d * E.real('s', lo=-0.9999, hi=0.9999))
    else:
        d0 = wl / 2 if dflt == 'default' else wl * E.real('d', lo=0.4, hi=0.6)
        ph = E.real('ph', lo=-2.9 / disp / 1.3, hi=2.9 / disp / 1.3)      # phase step between elements
    p, s2 = E.real('p', lo=0.5, hi=2), E.real('s2', lo=0.1, hi=0.4)
    a = E.arr([expj(E, ph * i) for i in range(m)]).reshape(m, 1)
    R = p * (a @ a.conj().T) + s2 * E.np.eye(m)
    if E.sym:
        U = E.np.hstack([0 * a] * (m - 1) + [a / E.np.sqrt(E.const(float(m)))])
        E.register_eigh(R, E.arr([s2] * (m - 1) + [s2 + p * m]), U)
    n = m - disp
    rw = weights(E, w, n)
    if E.sym and form == 'tls':
        ww = {'none': [E.const(1.0)] * n, 'default': ref_weights(n)}.get(w) if isinstance(rw, str) else [rw[i] ** 2 for i in range(n)]
        c = sum(ww[1:], ww[0]) / m
        z = expj(E, ph * disp)
        C = E.arr([[c, c * z], [c / z, c]])
        r = E.np.sqrt(E.const(2.0))
        E.register_eigh(C, E.arr([0 * c, 2 * c]), E.arr([[-z / r, z / r], [E.const(1.0) / r, E.const(1.0) / r]]))
    R0 = R.copy()
    est = E.dt.esprit.Esprit1D(wl)
    kw = dict(displacement=disp, formulation=form, row_weights=rw, unit=unit)
    if dflt != 'default':
        kw['d0'] = d0
    ok, src = est.estimate(R, 1, **kw)
    E.same(ok, True, 'resolved')
    sine_result(E, src, [ph], 2 * E.pi * d0 / wl, unit, 'exact direction', rtol=1e-5, atol=1e-7)
    E.eq(R, R0, 'covariance unchanged')


def ref_weights(n):
    from fractions import Fraction
    return [min(i + 1, n - i) for i in range(n)]


@H(quick=grid(m=[3], disp=[1], form=['ls', 'tls'], w=['default', 'none', 'custom']) + grid(m=[4], disp=[2], form=['ls'], w=['default']),
   thorough=grid(m=[3, 4], disp=[1], form=['ls', 'tls'], w=['default', 'none', 'custom']) + grid(m=[4], disp=[2], form=['ls', 'tls'], w=['default', 'custom']),
   bounds='two sources in any directions, 3-4 elements, displacement 1-2')
def two_sources(E, m, disp, form, w):
    k = 2
    wl = E.real('wl', lo=0.2, hi=5)
    lim = 2.0 / disp
    ph = [E.real('ph%d' % i, lo=-lim, hi=lim) for i in range(k)]
    E.assume(ph[1] - ph[0] > 0.3 / disp)
    A = E.arr([[expj(E, ph[j] * i) for j in range(k)] for i in range(m)])
    z = [expj(E, ph[j] * disp) for j in range(k)]
    n = m - disp
    rw = weights(E, w, n)
    s2 = E.real('s2', lo=0.1, hi=0.4)
    pw = [E.real('p%d' % j, lo=0.5, hi=2) for j in range(k)]
    R = (A * E.arr(pw)) @ A.conj().T + s2 * E.np.eye(m)
    if E.sym:
        t, u = E.real('t', lo=-2, hi=2), E.real('u', lo=0.5, hi=2)
        T = E.choice('T', [0, 1])
        T = E.arr([[E.const(1.0), t], [0 * t, u]]) if T == 0 else E.arr([[t, u], [E.const(1.0), 0 * t]])
        Es = A @ T
        E.register_eigh(R, E.arr([s2] * (m - k) + [s2 + 1] * k), E.np.hstack([0 * Es[:, :1]] * (m - k) + [Es]))
        Phi = E.np.linalg.inv(T) @ E.np.diag(E.arr(z)) @ T
        zz = [z[i] for i in E.choice('order', [(0, 1), (1, 0)])]
        E.register_eigvals(Phi, E.arr(zz))
        if form == 'tls':
            ws = [E.const(1.0)] * n if w == 'none' else ([E.np.sqrt(E.const(float(x))) for x in ref_weights(n)] if w == 'default' else [rw[i] for i in range(n)])
            W = E.arr(ws).reshape(n, 1)
            B = E.np.hstack([Es[:n] * W, Es[disp:] * W])
            C = B.conj().T @ B
            Y = E.arr([[E.const(1.0), E.real('y', lo=-2, hi=2)], [E.const(0.0), E.const(1.0)]])
            V = E.np.hstack([E.np.vstack([-(Phi @ Y), Y]), E.arr([[0 * t] * 2] * 4)])
            E.register_eigh(C, E.arr([E.const(0.0), E.const(0.0), u, u + 1]), V)
    R0 = R.copy()
    ok, src = E.dt.esprit.Esprit1D(wl).estimate(R, k, None, disp, form, rw, 'sin')
    E.same(ok, True, 'resolved')
    sine_result(E, src, ph, E.pi, 'sin', 'exact directions', rtol=1e-5, atol=1e-6)
    E.eq(R, R0, 'covariance unchanged')


AT = [(0, 1), (-3, 4), (4, 3), (5, 12), (-8, 15), (-7, 24), (20, 21)]


@H(quick=grid(mk=[(6, 3, 1), (7, 4, 2), (9, 5, 1), (10, 3, 4)], form=['ls', 'tls'], w=['default', 'none', 'custom']), thorough=grid(mk=[(12, 7, 1), (12, 6, 2)], form=['ls', 'tls'], w=['default', 'none']) + grid(mk=[(10, 5, 4)], form=['ls', 'tls'], w=['default', 'none', 'custom']),
   bounds='three to five (seven) sources at fixed directions, up to 10 (12) elements, displacement 1-4; any powers, noise level, wavelength, weights')
def many_sources(E, mk, form, w):
    """phase steps with rational cosines and sines"""
    import math
    m, k, disp = mk
    wl = E.real('wl', lo=0.2, hi=5)
    at = sorted(AT[:k] if disp < 4 else [(0, 1), (-3, 4), (5, 12), (-7, 24), (-8, 15)][:k], key=lambda q: math.atan2(*q))
    ph = [E.np.arctan2(E.const(float(a)), E.const(float(b))) for a, b in at]
    A = E.arr([[expj(E, ph[j] * i) for j in range(k)] for i in range(m)])
    z = [expj(E, ph[j] * disp) for j in range(k)]
    n = m - disp
    E.opts(explicit_inv=20, explicit_terms=1000000)
    rw = weights(E, w, n)
    s2 = E.real('s2', lo=0.1, hi=0.4)
    pw = [E.real('p%d' % j, lo=0.5, hi=2) for j in range(k)]
    R = (A * E.arr(pw)) @ A.conj().T + s2 * E.np.eye(m)
    if E.sym:
        u = E.real('u', lo=0.5, hi=2)
        T = E.arr([[E.const(1.0 + (i + j) % 2 + (i == j) + (2.0 if (i + 1) % k == j else 0.0)) * (u if j == 0 else 1) for j in range(k)] for i in range(k)])
        Es = A @ T
        E.register_eigh(R, E.arr([s2] * (m - k) + [s2 + 1 + i for i in range(k)]), E.np.hstack([0 * Es[:, :1]] * (m - k) + [Es]))
        Phi = E.np.linalg.inv(T) @ E.np.diag(E.arr(z)) @ T
        E.register_eigvals(Phi, E.arr(z[::-1]))
        if form == 'tls':
            ws = [E.const(1.0)] * n if w == 'none' else ([E.np.sqrt(E.const(float(x))) for x in ref_weights(n)] if w == 'default' else [rw[i] for i in range(n)])
            W = E.arr(ws).reshape(n, 1)
            B = E.np.hstack([Es[:n] * W, Es[disp:] * W])
            C = B.conj().T @ B
            Y = E.arr([[E.const(1.0 if i <= j else 0.0) for j in range(k)] for i in range(k)])
            V = E.np.hstack([E.np.vstack([-(Phi @ Y), Y]), E.arr([[0 * u] * k] * (2 * k))])
            E.register_eigh(C, E.arr([E.const(0.0)] * k + [u + i for i in range(k)]), V)
    ok, src = E.dt.esprit.Esprit1D(wl).estimate(R, k, None, disp, form, rw, 'sin')
    E.same(ok, True, 'resolved')
    if disp == 1:
        sine_result(E, src, ph, E.pi, 'sin', 'exact directions', rtol=1e-5, atol=1e-6)
        return
    E.same((type(src).__name__, src.units[0], src.size), ('FarField1DSourcePlacement', 'sin', k), 'kind, unit, number')
    for i in range(k):
        x = src.locations[i]
        E.le(x * disp, E.const(1.0), 'unambiguous range')
        E.le(E.const(-1.0), x * disp, 'unambiguous range')
        E.eq(expj(E, E.pi * x * disp), z[i], 'exact directions', rtol=1e-5, atol=1e-6)


@H(quick=grid(m=[3, 4], disp=[1], form=['ls', 'tls'], w=['default', 'none', 'custom']) + grid(m=[5], disp=[2], form=['ls', 'tls'], w=['default', 'custom'])
   + grid(m=[4], disp=[3], form=['ls', 'tls'], w=['default']) + grid(m=[5], disp=[3], form=['ls'], w=['custom']) + grid(m=[6], disp=[4], form=['tls'], w=['none', 'default'])
   + grid(m=[3], disp=[1], form=['ls', 'tls'], w=['small', 'signed', 'int']) + grid(m=[12], disp=[1, 5], form=['ls', 'tls'], w=['default', 'custom']),
   thorough=grid(m=[3, 4, 5, 6], disp=[1, 2], form=['ls', 'tls'], w=['default', 'none', 'custom']) + grid(m=[5, 6], disp=[3, 4], form=['ls', 'tls'], w=['default', 'custom', 'small']) + grid(m=[7], disp=[5, 6], form=['ls', 'tls'], w=['default']),
   bounds='any covariance (also noisy) of size 3-6 (7) and 12, displacement 1-4 (6), one source, weights of any sign, of the order of 1 or 1e-7 or integers: documented least-squares or total-least-squares rotation of the weighted subspaces')
def formula(E, m, disp, form, w):
    wl = E.real('wl', lo=0.2, hi=5)
    d0 = wl * E.real('d', lo=0.5, hi=3)
    R = E.herm('R', m)
    rw = weights(E, w, m - disp)
    z = rotation(E, R, disp, form, w, rw)
    ok, src = E.dt.esprit.Esprit1D(wl).estimate(R, 1, d0, displacement=disp, formulation=form, row_weights=rw, unit='sin')
    phase(E, src, 2 * E.pi * d0 * disp / wl, z, 'phase of the rotation')


def rotation(E, R, disp, form, w, rw=None):
    """the documented rotation of the weighted one-dimensional signal subspace"""
    m = R.shape[0]
    Es = E.np.linalg.eigh(R)[1][:, m - 1]
    n = m - disp
    ws = [1.0] * n if w == 'none' else (ref_weights(n) if w == 'default' else [rw[i] ** 2 for i in range(n)])
    c12 = sum([ws[i] * Es[i].conjugate() * Es[i + disp] for i in range(1, n)], ws[0] * Es[0].conjugate() * Es[disp])
    c11 = sum([ws[i] * (Es[i].conjugate() * Es[i]).real for i in range(1, n)], ws[0] * (Es[0].conjugate() * Es[0]).real)
    if form == 'ls':
        return c12 / c11
    c22 = sum([ws[i] * (Es[i + disp].conjugate() * Es[i + disp]).real for i in range(1, n)], ws[0] * (Es[disp].conjugate() * Es[disp]).real)
    v = E.np.linalg.eigh(E.arr([[c11 + 0 * E.j, c12], [c12.conjugate(), c22 + 0 * E.j]]))[1][:, 0]
    return -v[0] / v[1]


def phase(E, src, c, z, label):
    """the same direction of the complex number"""
    E.eq(expj(E, src.locations[0] * c) * E.np.abs(z), z, label, rtol=1e-5)


CALLS = {'shrink': [(5, 1, 'default'), (3, 1, 'default')], 'grow': [(3, 1, 'default'), (4, 1, 'default')], 'displacement': [(4, 1, 'default'), (4, 2, 'default')],
         'narrow': [(4, 2, 'default'), (4, 1, 'default')], 'same': [(4, 1, 'default'), (5, 2, 'default')], 'weights': [(3, 1, 'custom'), (3, 1, 'default')],
         'unweighted': [(4, 1, 'none'), (4, 1, 'default')], 'plain': [(4, 1, 'default'), (4, 1, 'none')]}


@H(quick=grid(seq=sorted(CALLS), form=['ls', 'tls']),
   bounds='one estimator used for two or three covariances (any values) of 3-5 elements with other displacements, weights, formulations, spacings and units in between')
def again(E, seq, form):
    wl = E.real('wl', lo=0.2, hi=5)
    est = E.dt.esprit.Esprit1D(wl)
    calls = CALLS[seq]
    calls = calls + calls[:1]
    for i, (m, disp, w) in enumerate(calls):
        R = E.herm('R%d' % i, m)
        rw = weights(E, w, m - disp)
        d0 = wl * E.real('d%d' % i, lo=0.5, hi=3) if i == 0 else wl / 2 / disp
        f = form if i != 1 else 'ls'
        z = rotation(E, R, disp, f, w, rw)
        kw = dict(displacement=disp, row_weights=rw)
        if w == 'default':
            del kw['row_weights']
        if i == 0 or disp != 1:
            kw['d0'] = d0
        ok, src = est.estimate(R, 1, formulation=f, unit='sin', **kw)
        phase(E, src, 2 * E.pi * d0 * disp / wl, z, 'call %d: phase of the rotation of its own data' % (i + 1))


@H(quick=grid(form=['ls']), bounds='any covariance of size 4, two sources, least squares without weights')
def formula2(E, form):
    m, k = 4, 2
    wl = E.real('wl', lo=0.2, hi=5)
    R = E.herm('R', m)
    Es = E.np.linalg.eigh(R)[1][:, m - k:]
    a, b = Es[:-1], Es[1:]
    Phi = E.np.linalg.solve(a.conj().T @ a, a.conj().T @ b)
    z = E.np.linalg.eigvals(Phi)
    ok, src = E.dt.esprit.Esprit1D(wl).estimate(R, k, row_weights='none', unit='sin', formulation=form)
    sine_result(E, src, [E.np.angle(z[i]) for i in range(k)], E.pi, 'sin', 'phases of the eigenvalues of the rotation', rtol=1e-5, atol=1e-7)


@H(quick=[{}], bounds='displacements -1 to 3, 1-4 sources, 4 elements, weights of length 1-4, invalid strings and types')
def rejects(E):
    import numpy as np
    est = E.dt.esprit.Esprit1D(1.0)
    m = 4
    R = E.arr(np.diag([1.0, 2.0, 3.0, 4.0]))
    d = E.choice('d', [-1, 0, 1, 2, 3])
    k = E.choice('k', [1, 2, 3, 4])
    if d < 1:
        E.raises(ValueError, lambda: est.estimate(R, k, displacement=d), 'displacement below one')
        return
    if k > m - d:
        E.raises(ValueError, lambda: est.estimate(R, k, displacement=d), 'too many sources for the subarrays')
        return
    for n in range(1, 5):
        if n != m - d:
            E.raises(ValueError, lambda: est.estimate(R, k, displacement=d, row_weights=np.ones(n)), 'weights of the wrong length')
    E.raises(ValueError, lambda: est.estimate(R, k, displacement=d, row_weights=np.ones((m - d, 1))), 'weights must be a vector')
    E.raises(ValueError, lambda: est.estimate(R, k, displacement=d, row_weights='some'), 'unknown weights')
    E.raises(ValueError, lambda: est.estimate(R, k, displacement=d, row_weights=3), 'weights of the wrong type')
    E.raises(ValueError, lambda: est.estimate(R, k, displacement=d, formulation='wls'), 'unknown formulation')
