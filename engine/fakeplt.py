"""A recording axes/pyplot usable by the symbolic and the concrete run."""
import types


class Recorder:
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        return ('call', self._name, a, tuple(sorted(k.items(), key=lambda x: x[0])))


class Handle:
    """What a drawing call returns."""

    def __init__(self, ax, call):
        self.ax = ax
        self.call = call

    def __iter__(self):
        return iter([self])


class Artist:
    pass


class FakeAxes:
    def __init__(self, name='3d', dim=2):
        self.calls = []
        self.figure = None
        self.lims = {'x': (0.0, 1.0), 'y': (0.0, 1.0), 'z': (0.0, 1.0)}

    def _rec(self, fn, a, k):
        c = (fn, a, k)
        self.calls.append(c)
        return Handle(self, c)

    def get_xlim(self):
        return self.lims['x']

    def get_ylim(self):
        return self.lims['y']

    def get_zlim(self):
        return self.lims['z']

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)

        def f(*a, **k):
            if n == 'set' and not a:
                # Axes.set(xlabel=..) is set_xlabel(..)
                return [self._rec('set_' + q, (v,), {}) for q, v in k.items()]
            if n in ('set_xlabel', 'set_ylabel', 'set_zlabel', 'set_title') and not a:
                q = 'label' if n == 'set_title' else n[4:]
                if q in k:
                    a, k = (k[q],), {x: y for x, y in k.items() if x != q}
            return self._rec(n, a, k)
        return f

    def drawn(self, *names):
        return [c for c in self.calls if c[0] in names]


class FakeFigure:
    def __init__(self, plt):
        self.plt = plt

    def add_subplot(self, *a, **k):
        ax = FakeAxes()
        ax.projection = k.get('projection')
        self.plt.axes.append(ax)
        return ax

    def gca(self, **k):
        return self.add_subplot(**k)

    def colorbar(self, *a, **k):
        return self.plt.colorbar(*a, **k)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return lambda *a, **k: None


class FakePlt(types.ModuleType):
    """pyplot: its own 'current axes' is a separate recorder."""

    def __init__(self, name='matplotlib.pyplot'):
        types.ModuleType.__init__(self, name)
        self.reset()

    def reset(self):
        self.axes = []
        self.current = FakeAxes()
        self.shown = 0
        self.bars = []
        self.figsize = None

    def figure(self, *a, **k):
        self.figsize = k.get('figsize')
        return FakeFigure(self)

    def subplots(self, *a, **k):
        f = FakeFigure(self)
        return f, f.add_subplot(111)

    def gca(self):
        return self.current

    def sca(self, ax):
        self.current = ax

    def show(self, *a, **k):
        self.shown += 1

    def setp(self, *a, **k):
        return None

    def colorbar(self, mappable=None, cax=None, ax=None, **k):
        self.bars.append((mappable, ax if ax is not None else getattr(mappable, 'ax', None)))

    def ylim(self, *a, **k):
        return (0.0, 1.0)

    xlim = ylim

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.current, n)


class FakeAxes3D:
    pass


PLT_SYM = FakePlt()


def mpl_mod():
    m = types.ModuleType('matplotlib')
    m.pyplot = PLT_SYM
    m.__path__ = []
    m.use = lambda *a, **k: None
    return m
