from engine.harness import Harness

LEVEL = 'model_checking'


class Suite:
    def __init__(self):
        self.list = []

    def __call__(self, quick=None, thorough=None, covers=(), bounds='', name=None, **kw):
        def deco(fn):
            self.list.append(Harness(fn, name or fn.__name__, quick if quick is not None else [{}],
                                     thorough, list(covers), bounds, **kw))
            return fn
        return deco


def grid(**axes):
    """Cartesian product of config axes."""
    out = [{}]
    for k, vs in axes.items():
        out = [dict(c, **{k: v}) for c in out for v in vs]
    return out


# ------------------------------------------------------------------ inputs --
def any_array(E, kind, n=3, name='a'):
    """An array design with arbitrary element positions / spacing.

    kind: '1d','2d','3d' arbitrary geometry; 'ula','ura','uca' named designs.
    """
    A = E.dt.arrays
    if kind in ('1d', '2d', '3d'):
        dim = int(kind[0])
        loc = E.rarr(name + 'loc', (n, dim), lo=-3, hi=3)
        return A.ArrayDesign(loc, 'arb'), loc
    raise AssertionError(kind)


def far1(E, k, unit='rad', name='t', eps=None):
    """k far-field DOAs anywhere in the valid open range of the unit."""
    if unit == 'rad':
        return E.dt.sources.FarField1DSourcePlacement(angles(E, k, name), 'rad')
    if unit == 'deg':
        th = E.rarr(name, (k,), lo=-90, hi=90, strict=True)
        return E.dt.sources.FarField1DSourcePlacement(th, 'deg')
    s = E.rarr(name, (k,), lo=-1, hi=1, strict=True)
    return E.dt.sources.FarField1DSourcePlacement(s, 'sin')


def angles(E, k, name='t'):
    h = E.pi / 2
    return E.rarr(name, (k,), lo=-h, hi=h, strict=True)


def sin_of(E, th, unit):
    """Reference: sine of the DOA for locations in `unit`."""
    if unit == 'rad':
        return E.np.sin(th)
    if unit == 'deg':
        return E.np.sin(th * (E.pi / 180))
    return th


def cos_of(E, th, unit):
    if unit == 'rad':
        return E.np.cos(th)
    if unit == 'deg':
        return E.np.cos(th * (E.pi / 180))
    return E.np.sqrt(1 - th * th)


def expj(E, x):
    return E.np.exp(E.j * x)
