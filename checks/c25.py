"""C25 root-MUSIC."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['estimation.core', 'estimation.music', 'model.sources']
ASSUMPTIONS = ['numpy.linalg.eigh: ascending eigenvalues with matching eigenvectors (uninterpreted, or known by construction)',
               'numpy.roots returns all the roots of the polynomial (arbitrary conjugate-reciprocal pairs, or known by construction); root angles within pi minus a margin, moduli apart from each other and either on the unit circle or apart from it']


def polar(E, name, lo=0.2, hi=0.9, amax=3.1):
    r, p = E.real(name + 'r', lo=lo, hi=hi), E.real(name + 'p', lo=-amax, hi=amax)
    return r, p, r * expj(E, p)


def poly(E, zs):
    """coefficients (highest power first) of prod (x - z)"""
    c = [E.const(1.0)]
    for z in zs:
        c = [a - z * b for a, b in zip(c + [0 * z], [0 * z] + c)]
    return c


def expect(E, src, sines, unit, label, **kw):
    """src: placement; sines: unordered list of expected sines"""
    E.same((type(src).__name__, src.units[0], src.size), ('FarField1DSourcePlacement', unit, len(sines)), 'kind, unit, number')
    ref = E.np.sort(E.arr([s if unit == 'sin' else E.np.arcsin(s) for s in sines]))
    for i in range(len(sines)):
        E.eq(src.locations[i], ref[i] * 180 / E.pi if unit == 'deg' else ref[i], label, **kw)


def known_roots(E, zs, order=True):
    """covariance whose noise-space polynomial has the roots zs (radius, phase, value) and their reciprocals"""
    k = len(zs)
    m = k + 1
    # noise vector v with sum_i v_i^* x^i = prod (x - z)
    c = poly(E, [z[2] for z in zs])
    v = [x.conjugate() for x in c[::-1]]
    n2 = sum([(x * x.conjugate()).real for x in v[1:]], (v[0] * v[0].conjugate()).real)
    V = E.arr(v).reshape(m, 1)
    R = E.np.eye(m) - 0.5 * (V @ V.conj().T) / n2
    if E.sym:
        nv = V / E.np.sqrt(n2)
        U = E.np.hstack([nv] + [0 * nv] * k)
        E.register_eigh(R, E.arr([E.const(0.5)] + [E.const(1.0)] * k), U)
        C = nv @ nv.conj().T
        co = [E.np.sum(E.np.diag(C, i)) for i in range(m - 1, -m, -1)]
        allz = [z[2] for z in zs] + [1 / z[2].conjugate() for z in zs]
        E.register_roots(E.arr(co), E.arr([allz[i] for i in (E.choice('order', orders(2 * k)) if order else range(2 * k))]))
    return R


@H(quick=grid(m=[2, 3], unit=['rad', 'deg', 'sin'], spacing=['default', 'given']), thorough=grid(m=[2, 3, 4], unit=['rad', 'deg', 'sin'], spacing=['default', 'given']),
   bounds='2-3 (4) elements, m-1 sources, every position of the m-1 roots inside the unit circle, any wavelength, default or any given spacing')
def given_roots(E, m, unit, spacing):
    k = m - 1
    wl = E.real('wl', lo=0.2, hi=5)
    zs = [polar(E, 'z%d' % i, amax=3.0) for i in range(k)]
    for i in range(k):
        for j in range(i):
            d = zs[i][1] - zs[j][1]
            E.assume(d * d > 0.01)
    d0 = wl / 2 if spacing == 'default' else wl * E.real('d', lo=0.48, hi=3)
    R = known_roots(E, zs)
    est = E.dt.music.RootMUSIC1D(wl)
    R0 = R.copy()
    ok, src = est.estimate(R, k, unit=unit) if spacing == 'default' else est.estimate(R, k, d0, unit)
    E.same(ok, True, 'resolved')
    expect(E, src, [z[1] * wl / (2 * E.pi * d0) for z in zs], unit, 'angle of the root, scaled by wavelength and spacing', rtol=1e-4, atol=1e-5)
    E.eq(R, R0, 'covariance unchanged')


def orders(n):
    h = n // 2
    out = [tuple(range(n)), tuple(range(n - 1, -1, -1))]
    if h > 1:
        out.append(tuple(x for i in range(h) for x in (i + h, i)))
    return out


@H(quick=grid(m=[3], k=[1, 2]) + grid(m=[4], k=[2]) + [dict(m=9, k=2, apart=True), dict(m=12, k=5, apart=True)], thorough=grid(m=[3, 4, 5], k=[1, 2]) + [dict(m=20, k=3, apart=True)],
   bounds='any covariance of size 3-4 (5), any conjugate-reciprocal roots, 1-2 sources; size 9 and 12 (20) with 2, 5 (3) sources and the roots anywhere in disjoint annuli and arcs')
def selection(E, m, k, apart=False):
    wl = E.real('wl', lo=0.2, hi=5)
    d0 = wl * E.real('d', lo=0.5, hi=3)
    R = E.herm('R', m)
    if apart:
        R = R + E.arr([[(m - i if i == j else ((i * j + 3 * min(i, j)) % 7 - 3) / 2 + (0 if i == j else (1j if i < j else -1j) * ((2 * i * j + i + j) % 5 - 2) / 2)) for j in range(m)] for i in range(m)])
    En = E.np.linalg.eigh(R)[1][:, :m - k]
    C = En @ En.conj().T
    co = E.arr([E.np.sum(E.np.diag(C, i)) for i in range(m - 1, -m, -1)])
    if E.sym:
        if apart:
            p = [(5 * i + 2) % (m - 1) for i in range(m - 1)]
            zs = [polar(E, 'z%d' % i, 0.1 + 0.8 * p[i] / m, 0.1 + 0.8 * (p[i] + 0.9) / m) for i in range(m - 1)]
            for i in range(m - 1):
                # the phases of the roots in disjoint arcs (another order than the moduli)
                w = 6 / m
                lo = -3 + w * ((3 * i + 1) % (m - 1))
                E.assume((zs[i][1] > lo) & (zs[i][1] < lo + 0.9 * w))
        else:
            zs = [polar(E, 'z%d' % i) for i in range(m - 1)]
        for i in range(0 if apart else m - 1):
            for j in range(i):
                d = zs[i][0] - zs[j][0]
                E.assume(d * d > 1e-4)
        allz = [z[2] for z in zs] + [1 / z[2].conjugate() for z in zs]
        E.register_roots(co, E.arr([allz[i] for i in E.choice('order', orders(2 * (m - 1)))]))
        mods, angs = [z[0] for z in zs], [z[1] for z in zs]
    else:
        z = E.np.roots(co)
        z = sorted(z, key=abs)[:m - 1]
        E.assume(len(z) == m - 1)
        E.assume(all(1e-3 < abs(x) < 1 - 1e-3 for x in z))
        E.assume(all(abs(abs(x) - abs(y)) > 1e-4 for i, x in enumerate(z) for y in z[:i]))
        mods, angs = [abs(x) for x in z], [float(E.np.angle(x)) for x in z]
    ok, src = E.dt.music.RootMUSIC1D(wl).estimate(R, k, d0, 'sin')
    E.same(ok, True, 'resolved')
    # rank of every root: number of admissible roots closer to the circle
    chosen = []
    for i in range(m - 1):
        rank = 0
        for j in range(m - 1):
            if j != i and bool(mods[j] > mods[i]):
                rank += 1
        if rank < k:
            chosen.append(angs[i] * wl / (2 * E.pi * d0))
    expect(E, src, chosen, 'sin', 'the admissible roots closest to the unit circle', rtol=1e-4, atol=1e-5, validate=False)


@H(quick=grid(sizes=[(2, 2, 2), (3, 2, 3), (2, 3, 2)]),
   bounds='one estimator used for three covariances of 2-3 elements, with a given spacing, the default spacing, and the given spacing again, in other units')
def again(E, sizes):
    wl = E.real('wl', lo=0.2, hi=5)
    d0 = wl * E.real('d', lo=0.48, hi=3)
    est = E.dt.music.RootMUSIC1D(wl)
    for n, m in enumerate(sizes):
        zs = [polar(E, 'z%d%d' % (n, i), amax=3.0) for i in range(m - 1)]
        for i in range(1, m - 1):
            d = zs[i][1] - zs[0][1]
            E.assume(d * d > 0.01)
        R = known_roots(E, zs, False)
        unit = ['sin', 'rad', 'deg'][n]
        ok, src = est.estimate(R, m - 1, unit=unit) if n == 1 else est.estimate(R, m - 1, d0, unit=unit)
        E.same(ok, True, 'resolved')
        expect(E, src, [z[1] * wl / (2 * E.pi * (wl / 2 if n == 1 else d0)) for z in zs], unit, 'call %d: its own roots and spacing' % (n + 1), rtol=1e-4, atol=1e-5)


@H(quick=grid(m=[2, 3]), thorough=grid(m=[2, 3, 4]), bounds='noise-free covariances (all roots on the unit circle, in exact pairs) of 2-3 (4) elements, m-1 sources, the first phase in (-3, -0.5) and the others a quarter or half turn further')
def on_circle(E, m):
    k = m - 1
    wl = E.real('wl', lo=0.2, hi=5)
    p0 = E.real('p0', lo=-3, hi=-0.5)
    from fractions import Fraction as F
    step = E.choice('step', [F(1, 2), F(1)] if k == 2 else [F(1, 2)])
    if not E.sym:
        step = float(step)
    ps = [p0 + E.pi * (step * i) for i in range(k)]
    zs = [expj(E, p) for p in ps]
    c = poly(E, zs)
    v = [x.conjugate() for x in c[::-1]]
    n2 = sum([(x * x.conjugate()).real for x in v[1:]], (v[0] * v[0].conjugate()).real)
    V = E.arr(v).reshape(m, 1)
    R = E.np.eye(m) - (V @ V.conj().T) / n2
    if E.sym:
        nv = V / E.np.sqrt(n2)
        E.register_eigh(R, E.arr([E.const(0.0)] + [E.const(1.0)] * k), E.np.hstack([nv] + [0 * nv] * k))
        C = nv @ nv.conj().T
        co = [E.np.sum(E.np.diag(C, i)) for i in range(m - 1, -m, -1)]
        E.register_roots(E.arr(co), E.arr([(zs + zs)[i] for i in E.choice('order', orders(2 * k))]))
    ok, src = E.dt.music.RootMUSIC1D(wl).estimate(R, k, unit='sin')
    E.same(ok, True, 'resolved')
    expect(E, src, [p / E.pi for p in ps], 'sin', 'one root of each pair', rtol=1e-4, atol=1e-4)


@H(quick=grid(noise=[0, 1]), bounds='noise-free (and noisy) covariances of one source on two elements, any phase within 3 of zero: a double root on the unit circle; the replay also tries the multiples of a tenth of pi')
def double_root(E, noise):
    wl = E.real('wl', lo=0.2, hi=5)
    p0 = E.real('p', lo=-3, hi=3)
    # rounding decides which side of the circle the real roots fall on: a replay tries several phases
    for p in [p0] if E.sym else [p0] + [float(E.pi) * i / 10 for i in range(-9, 10)]:
        z = expj(E, p)
        one = 1 + 0 * z
        R = E.arr([[one, z.conjugate()], [z, one]]) + noise * 0.25 * E.np.eye(2)
        if E.sym:
            nv = E.arr([[one], [-z]]) / E.np.sqrt(E.const(2.0))
            sv = E.arr([[one], [z]]) / E.np.sqrt(E.const(2.0))
            E.register_eigh(R, E.arr([E.const(0.25 * noise), E.const(2 + 0.25 * noise)]), E.np.hstack([nv, sv]))
            C = nv @ nv.conj().T
            E.register_roots(E.arr([E.np.sum(E.np.diag(C, i)) for i in range(1, -2, -1)]), E.arr([z, z]))
        ok, src = E.dt.music.RootMUSIC1D(wl).estimate(R, 1, unit='sin')
        if p is not p0:
            if not ok or abs(float(src.locations[0]) - p / E.pi) > 1e-4:
                E.fail('the double root at phase %g pi' % (p / E.pi))
            continue
        E.same(ok, True, 'resolved')
        expect(E, src, [p / E.pi], 'sin', 'the double root', rtol=1e-4, atol=1e-4)


@H(quick=grid(k=[1, 2], unit=['rad', 'deg', 'sin']), thorough=grid(k=[1, 2, 3], unit=['rad', 'deg', 'sin']),
   bounds='1-2 (3) roots of any modulus at the phase of any directions, spacing up to half a wavelength (phases inside the half-turn)')
def from_z(E, k, unit):
    wl, d = E.real('wl', lo=0.2, hi=5), E.real('d', lo=0.1, hi=0.5)
    d0 = wl * d
    s = [E.real('s%d' % i, lo=-0.99999, hi=0.99999) for i in range(k)]
    rr = [E.real('r%d' % i, lo=0.3, hi=2) for i in range(k)]
    z = E.arr([rr[i] * expj(E, 2 * E.pi / wl * d0 * s[i]) for i in range(k)])
    z0 = z.copy()
    src = E.dt.sources.FarField1DSourcePlacement.from_z(z, wl, d0, unit)
    expect(E, src, s, unit, 'directions recovered in ascending order', rtol=1e-6)
    E.eq(z, z0, 'roots unchanged')


@H(quick=[{}], bounds='matrices of shape up to 4 by 4 and three dimensions; source counts 1-4; unknown units')
def rejects(E):
    import numpy as np
    est = E.dt.music.RootMUSIC1D(E.real('wl', lo=0.2, hi=5))
    a, b = E.choice('shape', [(2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (4, 2), (3, 4)])
    k = E.choice('k', [1, 2, 3, 4])
    R = E.arr(np.arange(1.0, 1 + a * b).reshape(a, b))
    if a != b:
        E.raises(ValueError, lambda: est.estimate(R, k), 'non-square covariance')
    elif k > a - 1:
        E.raises(ValueError, lambda: est.estimate(R, k), 'too many sources')
    E.raises(ValueError, lambda: est.estimate(R[:, 0], 1), 'vector')
    E.raises(ValueError, lambda: est.estimate(R.reshape(a, b, 1), 1), 'three dimensions')
    E.raises(ValueError, lambda: E.dt.sources.FarField1DSourcePlacement.from_z(E.arr([1j]), 1.0, 0.5, 'grad'), 'unknown unit')
