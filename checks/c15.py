"""C15 copy histories."""
from .base import *

H = Suite()
HARNESSES = H.list
WARM = ['model.arrays', 'model.sources', 'model.perturbations']
ASSUMPTIONS = []
KINDS = 'lgpm'
NAMES = {'l': 'location_errors', 'g': 'gain_errors', 'p': 'phase_errors', 'm': 'mutual_coupling'}


def cls(E, k):
    P = E.dt.perturb
    return {'l': P.LocationErrors, 'g': P.GainErrors, 'p': P.PhaseErrors, 'm': P.MutualCoupling}[k]


def new_params(E, k, step):
    n = 2
    t = '%s%d' % (k, step)
    return {'l': lambda: E.rarr(t, (n, 2), lo=-1, hi=1), 'g': lambda: E.rarr(t, (n,), lo=-0.9, hi=0.9),
            'p': lambda: E.rarr(t, (n,), lo=-3, hi=3), 'm': lambda: E.carr(t, (n, n))}[k]()


def base(E, kind):
    A = E.dt.arrays
    if kind == 'free':
        loc = E.rarr('loc', (2, 1), lo=-2, hi=2)
        return A.ArrayDesign(loc, 'base'), {}
    if kind == 'pert':
        loc = E.rarr('loc', (2, 1), lo=-2, hi=2)
        g = new_params(E, 'g', 99)
        m = new_params(E, 'm', 99)
        return A.ArrayDesign(loc, 'base', [cls(E, 'g')(g, True), cls(E, 'm')(m, False)]), {'g': (g, True), 'm': (m, False)}
    d = E.real('d0', pos=True)
    return A.UniformLinearArray(2, d, 'base'), {}


def steering(E, loc, model, order, t, wl):
    n, d = loc.shape
    L = [[loc[i, c] if c < d else 0 for c in range(2)] for i in range(n)]
    if 'l' in model:
        v = model['l'][0]
        L = [[L[i][c] + v[i, c] for c in range(2)] for i in range(n)]
    a = [expj(E, 2 * E.pi / wl * (L[i][0] * E.np.sin(t) + L[i][1] * E.np.cos(t))) for i in range(n)]
    for k in order:
        v = model[k][0]
        if k == 'g':
            a = [(1 + v[i]) * a[i] for i in range(n)]
        elif k == 'p':
            a = [expj(E, v[i]) * a[i] for i in range(n)]
        elif k == 'm':
            a = [sum(v[i, r] * a[r] for r in range(n)) for i in range(n)]
    return E.arr([[x] for x in a])


@H(quick=grid(kind=['free', 'pert', 'ula'], steps=[1, 2]), thorough=grid(kind=['free', 'pert', 'ula'], steps=[1, 2, 3]),
   bounds='every history of 1 or 2 (thorough 3) operations {add one perturbation of each kind (known or not), remove all} applied to any array created so far; 2 elements, 1 source, any parameter values', maxpaths=60000)
def history(E, kind, steps):
    arr, model = base(E, kind)
    loc0 = E.arr(arr.element_locations.copy())
    wl = E.real('wl', pos=True)
    src = far1(E, 1, 'rad')
    t = src.locations[0]
    world = [(arr, dict(model), 'base')]

    def use(a):
        # whatever is computed early must not leak into later copies
        a.steering_matrix(src, wl), a.steering_matrix(src, wl, perturbations='known'), a.actual_element_locations
    use(arr)
    for s in range(steps):
        # the last operation of a long history may act on any earlier array
        j = E.choice('on%d' % s, range(len(world))) if len(world) > 1 else 0
        op = E.choice('op%d' % s, list(KINDS) + ['free'])
        src_arr, src_model, src_name = world[j]
        name = None if s % 2 == 0 else 'n%d' % s
        if op == 'free':
            b = src_arr.get_perturbation_free_copy(name)
            m2 = {}
        else:
            v = new_params(E, op, s)
            known = s % 2 == 1
            if s % 2:
                b = src_arr.get_perturbed_copy({NAMES[op]: (v, known)}, name)
            else:
                b = src_arr.get_perturbed_copy([cls(E, op)(v, known)], name)
            m2 = dict(src_model)
            m2[op] = (v, known)
        E.holds(b is not src_arr, 'a new array')
        if s == 0:
            use(b)
        world.append((b, m2, name or src_name))
    for a, m, name in world:
        E.same(type(a).__name__, type(arr).__name__, 'kind of array kept')
        E.same(a.name, name, 'name')
        E.same((a.size, a.ndim, a.is_perturbed), (2, 1, bool(m)), 'size and state')
        for k in KINDS:
            E.same(a.has_perturbation(cls(E, k)), k in m, 'kinds of perturbations')
            if k in m:
                E.same(a.is_perturbation_known(cls(E, k)), m[k][1], 'known flag')
                E.eq(a.get_perturbation_params(cls(E, k)), m[k][0], 'parameters')
        E.eq(a.element_locations, loc0, 'nominal positions')
        order = [k for k in m]
        if 'l' in m:
            v = m['l'][0]
            E.eq(a.actual_element_locations, E.arr([[loc0[i, 0] + v[i, 0], v[i, 1]] for i in range(2)]), 'actual positions')
        else:
            E.eq(a.actual_element_locations, loc0, 'actual positions')
        E.eq(a.steering_matrix(src, wl), steering(E, loc0, m, order, t, wl), 'response of every array created')
        kn = {k: v for k, v in m.items() if v[1]}
        E.eq(a.steering_matrix(src, wl, perturbations='known'), steering(E, loc0, kn, list(kn), t, wl), 'known response of every array created')
        E.eq(a.steering_matrix(src, wl, perturbations='none'), steering(E, loc0, {}, [], t, wl), 'nominal response of every array created')
        if kind == 'ula':
            E.eq(a.element_indices, E.arr([[0], [1]]), 'grid indices')
            E.eq(a.d0, arr.d0, 'spacing')


@H(quick=[{}], bounds='writing to returned lists and arrays')
def exposed(E):
    arr, model = base(E, 'pert')
    wl = E.real('wl', pos=True)
    src = far1(E, 1, 'rad')
    before = E.arr(arr.steering_matrix(src, wl).copy())
    x = E.arr(arr.element_locations.copy())
    arr.perturbations.clear()
    l = arr.element_locations
    l[...] = E.const(7) if E.sym else 7.0
    lst = []
    b = E.dt.arrays.ArrayDesign(x, 'b', lst)
    lst.append(cls(E, 'g')(new_params(E, 'g', 1)))
    E.same(b.is_perturbed, False, 'the list given to the constructor is not kept')
    E.same(E.dt.arrays.ArrayDesign(x, 'c').is_perturbed, False, 'arrays do not share perturbations')
    E.eq(arr.steering_matrix(src, wl), before, 'the array is unchanged')
    arr.steering_matrix(src, wl)[...] = E.const(3) if E.sym else 3.0
    E.eq(arr.steering_matrix(src, wl), before, 'steering matrices are fresh')
    E.eq(arr.element_locations, x, 'element locations are copies')


@H(quick=grid(kind=KINDS), bounds='perturbation that does not fit')
def failing(E, kind):
    arr, model = base(E, 'pert')
    wl = E.real('wl', pos=True)
    src = far1(E, 1, 'rad')
    before = E.arr(arr.steering_matrix(src, wl).copy())
    v = {'l': lambda: E.rarr('v', (3, 2), lo=-1, hi=1), 'm': lambda: E.carr('v', (3, 3))}.get(kind, lambda: E.rarr('v', (3,), lo=-1, hi=1))()
    E.raises(RuntimeError, lambda: arr.get_perturbed_copy([cls(E, kind)(v)]), 'rejected')
    E.eq(arr.steering_matrix(src, wl), before, 'a failed copy leaves the array unchanged')
    E.same(len(arr.perturbations), 2, 'a failed copy leaves the perturbations unchanged')
