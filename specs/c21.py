"""C21: derived quantities reflect the current permittivity.

A read at an arbitrary earlier permittivity, then any change (assignment, in-place writes, region writes, filling, adding, copying), then a read: the
last read must be that of the permittivity the simulation has then.  Arbitrary earlier and later permittivities: any stored result of an earlier read
may belong to any earlier state."""
from engine.runner import spec
from specs.c07 import G, GF, U, UF, box
from specs.c08 import region
from specs.c09 import flat
from specs.c10 import comp
from specs.c11 import FD, FDF, eps_ref, curlcurl_ref, laplace_ref, Solver, solved
from specs.c13 import TD, TDF, funcs
from specs.c10 import curl_ref
from specs.c16 import MD, MF, op2, Eigs

SM, SF = 'simphox.sim', 'simphox/sim.py:'


def make(h, cls, d, chi=3):
    size, arg, n, sp = box(h, d, chi=chi, split=True)
    n3 = [n[k] if k < d else 1 for k in range(3)]
    e0 = h.array('eps_before', tuple(n), kind='f', pos=True)
    kw = {}
    if cls in ('FDFD', 'ModeSolver'): kw['wavelength'] = h.real('wavelength', lo=0.5, hi=2)
    c = {'YeeGrid': (G, 'YeeGrid'), 'FDFD': (FD, 'FDFD'), 'FDTD': (TD, 'FDTD'), 'ModeSolver': (MD, 'ModeSolver'), 'SimGrid': (SM, 'SimGrid')}[cls]
    return getattr(h.mod(c[0]), c[1])(size, arg, eps=e0, **kw), n, n3, sp, size


class Pattern:
    """contract of a component: any mask within the grid"""
    def __init__(self, h, n, d):
        self.h, self.n, self.bounds, self.port = h, n, (0, 0, 0, 0), {}
        self.m = h.array('mask', tuple(n[:2]), kind='i')
        if not h.symbolic: self.m = self.m % 2

    def mask(self, shape, spacing): return self.m


def change(h, gr, n, sp, d, way, tag=''):
    """one way of changing the permittivity; the new content is gr.eps"""
    if way == 'assign': gr.eps = h.array('eps_after' + tag, tuple(n), kind='f', pos=True)
    elif way == 'cells': gr.eps[...] = h.array('eps_after' + tag, tuple(n), kind='f', pos=True)
    elif way == 'cell':
        p = tuple(h.int(f'p{k}{tag}', lo=0, chi=1) for k in range(d))
        for a, b in zip(p, n): h.assume(a < b)
        gr.eps[p] = h.real('v' + tag, pos=True)
    elif way == 'region':
        c, z, rng, pt = region(h, d, n, sp)
        gr.set_eps(c, z, h.real('v' + tag, pos=True))
    elif way == 'fill': gr.fill(h.real('height' + tag, lo=0.3, hi=3), h.real('v' + tag, pos=True))
    elif way == 'fill_all': gr.fill(0, h.real('v' + tag, pos=True))
    elif way == 'scale': gr.eps *= 2
    elif way == 'component': gr.add(Pattern(h, n, d), h.real('v' + tag, pos=True))


@spec('C21', functions=[GF + 'YeeGrid.eps_t', TDF + 'FDTD.eps_t'], budget=300)
def averaged_permittivity(h):
    cls = h.choice('class', ['YeeGrid', 'FDFD', 'FDTD', 'ModeSolver'])
    d = h.choice('dim', [1, 2, 3])
    way = h.choice('way', ['assign', 'cells', 'cell', 'scale'] + (['fill', 'fill_all'] if d == 2 else []))
    gr, n, n3, sp, size = make(h, cls, d)
    gr.eps_t
    change(h, gr, n, sp, d, way)
    e3, t = gr.eps.reshape(tuple(n3)), gr.eps_t
    c = h.choice('component', [0, 1, 2])
    h.forall('i', [(0, x) for x in n3], lambda *i: h.eq(t[(c,) + i], eps_ref(e3, n3, c, i), 'current_average'))


@spec('C21', functions=[GF + 'YeeGrid.eps_t', GF + 'Grid.set_eps'], budget=200)
def after_writing_a_region(h):
    """as above after writing a box, against the averaging function (proved in C11) on the current permittivity"""
    cls, c = h.choice('class', ['YeeGrid', 'FDTD']), h.choice('component', [0, 1, 2])
    gr, n, n3, sp, size = make(h, cls, 2)
    gr.eps_t
    change(h, gr, n, sp, 2, 'region')
    t, ref = gr.eps_t, h.mod(U).yee_avg(gr.eps.reshape(tuple(n3)))
    h.forall('i', [(0, x) for x in n3], lambda *i: h.eq(t[(c,) + i], ref[(c,) + i], 'current_average'))


@spec('C21', functions=[GF + 'YeeGrid.eps_t', GF + 'Grid.add'], budget=300)
def after_adding_a_component(h):
    """as above with a component of any mask (2D)"""
    cls = h.choice('class', ['YeeGrid', 'FDFD'])
    gr, n, n3, sp, size = make(h, cls, 2)
    gr.eps_t
    before = gr.eps.copy()
    p = Pattern(h, n, 2)
    v = h.real('v', pos=True)
    gr.add(p, v, 0., 0.)
    e3, t = gr.eps.reshape(tuple(n3)), gr.eps_t
    c = h.choice('component', [0, 1, 2])

    def body(*i):
        h.eq(gr.eps[i[0], i[1]], v if bool(p.m[i[0], i[1]] == 1) else before[i[0], i[1]], 'component_added')
        h.eq(t[(c,) + i], eps_ref(e3, n3, c, i), 'current_average')
    h.forall('i', [(0, x) for x in n3], body)


def fresh(h, gr, size, sp, jx=None):
    """a new simulation of the current permittivity, which nothing was read from"""
    kw = dict(wavelength=gr.wavelength) if hasattr(gr, 'wavelength') else {}
    return type(gr)(size, tuple(sp), eps=gr.eps.copy(), **kw)


@spec('C21', functions=[FDF + 'FDFD.mat', FDF + 'FDFD.mat_ez', FDF + 'FDFD.mat_hz', GF + 'YeeGrid.eps_t'], budget=300)
def operators(h):
    """the frequency-domain operators (C11) after a change are those of a new simulation of the current permittivity"""
    name = h.choice('operator', ['mat', 'mat_ez', 'mat_hz'])
    d = h.choice('dim', [2, 3] if name == 'mat' else [2])
    way = h.choice('way', ['assign', 'cell'] if d == 2 else ['assign'])
    gr, n, n3, sp, size = make(h, 'FDFD', d)
    c = h.choice('component', [0, 1, 2]) if name == 'mat' else 0
    v = h.array('v', ((3 if name == 'mat' else 1) * gr.n,), kind='c')
    getattr(gr, name) @ v, gr.eps_t
    change(h, gr, n, sp, d, way)
    out, ref = getattr(gr, name) @ v, getattr(fresh(h, gr, size, sp), name) @ v
    h.forall('i', [(0, x) for x in n3], lambda *i: h.eq(out[flat(n3, *i, c)], ref[flat(n3, *i, c)], 'current_operator'))


@spec('C21', functions=[MF + 'ModeSolver.waveguide_mode_matrix', MF + 'ModeSolver.solve'], budget=300)
def mode_operators(h):
    """the mode operators (C16), and the system and guess of a mode solve, after a change are those of a new solver of the current permittivity"""
    d = h.choice('dim', [1, 2])
    way = h.choice('way', ['assign', 'cells', 'cell'])
    gr, n, n3, sp, size = make(h, 'ModeSolver', d)
    v = h.array('v', ((2 if d == 2 else 1) * gr.n,), kind='c')
    gr.waveguide_mode_matrix @ v, gr.eps_t
    change(h, gr, n, sp, d, way)
    out, ref = gr.waveguide_mode_matrix @ v, fresh(h, gr, size, sp).waveguide_mode_matrix @ v
    for c in range(d):
        h.forall('i', [(0, x) for x in n3], lambda *i: h.eq(out[flat(n3, *i, c)], ref[flat(n3, *i, c)], 'current_operator'))


@spec('C21', functions=[FDF + 'FDFD.solve'], budget=300)
def solutions(h):
    """a solve after a change asks for the system of the current permittivity and converts its solution with it"""
    gr, n, n3, sp, size = make(h, 'FDFD', 2)
    tm = h.flag('tm')
    src = h.array('src', tuple(n), kind='c')
    solved(h, gr, gr.n, src.ravel(), tm_2d=tm)
    change(h, gr, n, sp, 2, h.choice('way', ['assign', 'cell']))
    f, x, a, b = solved(h, gr, gr.n, src.ravel(), tm_2d=tm)
    g = fresh(h, gr, size, sp)
    seen = []
    ref = g.solve(src.ravel(), solver_fn=lambda p, q: seen.append((p, q)) or x.copy(), tm_2d=tm)
    v = h.array('v', (gr.n,), kind='c')
    out, want = a @ v, seen[0][0] @ v
    c = h.choice('component', [0, 1, 2])

    def body(*i):
        k = flat(n3, *i)
        h.eq(out[k], want[k], 'current_system')
        h.eq(b[k], seen[0][1][k], 'right_hand_side')
        for q in (0, 1): h.eq(f[(q, c) + i], ref[(q, c) + i], 'fields')
    h.forall('i', [(0, x) for x in n3], body)


@spec('C21', functions=[TDF + 'FDTD.step', TDF + 'FDTD._step_e', TDF + 'FDTD.eps_t'], budget=300)
def time_steps(h):
    """a step after a change uses the current permittivity"""
    d, c, jx = h.choice('dim', [1, 2, 3]), h.choice('component', [0, 1, 2]), h.flag('jax')
    gr, n, n3, sp, size = make(h, 'FDTD', d)
    if jx: gr = h.mod(TD).FDTD(size, tuple(sp), eps=gr.eps, use_jax=True)
    e, m = (h.array(q, (3,) + tuple(n3), kind='c', jx=jx) for q in 'em')
    e0, m0 = e.copy(), m.copy()
    gr.step((e.copy(), m.copy(), None, None), [])
    change(h, gr, n, sp, d, h.choice('way', ['assign', 'cells', 'cell', 'fill']))
    e3 = gr.eps.reshape(tuple(n3))
    en = gr.step((e, m, None, None), [])[0]
    h.forall('i', [(0, x) for x in n3],
             lambda *i: h.eq(en[(c,) + i], e0[(c,) + i] + gr.dt * curl_ref(h, gr, d, n3, funcs(m0), True, c, i) / eps_ref(e3, n3, c, i), 'current_update', tol=1e-4 if jx else None))


@spec('C21', functions=[SF + 'SimGrid.modes', SF + 'SimGrid.port_modes'], budget=300, bounded='every permittivity; sections of up to 4 cells on a 6 by 5 grid, histories of up to three reads')
def modes_of_a_section(h):
    """the modes reported are solved on the current permittivity of the section, at the requested wavelength and number of modes, whatever was read before"""
    n = (6, 5)
    cls = h.choice('class', ['SimGrid', 'FDFD'])
    gr = (h.mod(SM).SimGrid if cls == 'SimGrid' else h.mod(FD).FDFD)((0.6, 0.5), 0.1, eps=h.array('eps0', n, pos=True))
    made = []

    class Lib:
        def __init__(s, solver, max_num_modes=6):
            s.solver, s.num = solver, max_num_modes
            s.snapshot = solver.eps.copy()
            made.append(s)
    h.override(SM, 'ModeLibrary', Lib)
    x = h.flag('along_x')
    c, z = ((0.3, 0.2, 0.), (0., 0.4, 0.)) if x else ((0.2, 0.2, 0.), (0.4, 0., 0.))
    c2 = (0.4, 0.2, 0.) if x else (0.2, 0.3, 0.)

    def check(center, lam, k, name):
        s = gr.modes(center, z, lam, k)
        e = s.io.solver.eps
        a = round(center[0 if x else 1] * 10)
        for q in range(4):
            cur = gr.eps[(a, q) if x else (q, a)]
            h.eq(e[q], cur, name + '_permittivity')
            h.eq(s.io.snapshot[q], cur, name + '_solved_on')
        h.eq(s.io.solver.wavelength, lam, name + '_wavelength')
        h.ensure(s.io.num == k, name + '_number_of_modes')
        h.ensure(s.center == center and s.size == z, name + '_section')
        return s
    s0 = check(c, 1.5, 1, 'first')
    way = h.choice('way', ['assign', 'cells', 'cell', 'cell_elsewhere', 'other_wavelength', 'more_modes', 'other_section', 'copy', 'nothing'])
    if way == 'assign': gr.eps = h.array('eps1', n, pos=True)
    elif way == 'cells': gr.eps[...] = h.array('eps1', n, pos=True)
    elif way == 'cell': gr.eps[(3, 1) if x else (1, 2)] = h.real('v', pos=True)
    elif way == 'cell_elsewhere': gr.eps[5, 4] = h.real('v', pos=True)
    elif way == 'copy':
        import copy
        other, gr0 = copy.copy(gr), gr
        other.eps = h.array('eps1', n, pos=True)
        gr = other
        check(c, 1.5, 1, 'copy')
        gr = gr0
    lam = 1.4 if way == 'other_wavelength' else 1.5
    check(c2 if way == 'other_section' else c, lam, 2 if way == 'more_modes' else 1, 'second')
    if way in ('nothing', 'cell_elsewhere') and not h.symbolic: h.ensure(len(made) <= 2, 'not_more_than_one_solve_per_read')
    if h.flag('back'): gr.eps = h.array('eps0', n, pos=True) if h.symbolic else gr.eps + 1
    check(c, 1.5, 1, 'third')


@spec('C21', functions=[SF + 'SimGrid.modes', SF + 'SimGrid.__init__', GF + 'Grid.slice', MF + 'ModeSolver.__init__'], budget=300, internal=True, trials=1)
def modes_after_any_history(h):
    """each stored entry holds the permittivity its modes were solved on; a read finds no entry of its key, or one of any earlier permittivity, and
    returns (and stores) modes of the current one without touching the entries of other keys: hence after histories of any length"""
    cls = h.choice('class', ['SimGrid', 'FDFD'])
    if not h.symbolic: return
    n, w = [h.int('n0', lo=2), h.int('n1', lo=2)], h.real('spacing', pos=True)
    sp = (w, w)
    gr = getattr(h.mod(SM if cls == 'SimGrid' else FD), cls)((n[0] * w, n[1] * w), w, eps=h.array('eps0', tuple(n), pos=True))
    made = []

    class Lib:
        def __init__(s, solver, max_num_modes=6):
            s.solver, s.num, s.snapshot = solver, max_num_modes, solver.eps.copy()
            made.append(s)
    h.override(SM, 'ModeLibrary', Lib)
    ax = h.choice('along', [0, 1])
    at, lo, m = h.int('at', lo=0), h.int('lo', lo=0), h.int('cells', lo=2)
    h.assume((at < n[1 - ax]) & (lo + m <= n[ax]))
    c, z = [0., 0., 0.], [0., 0., 0.]
    c[ax], c[1 - ax], z[ax] = (lo + m // 2) * sp[0], at * sp[0], m * sp[0]
    c, z, lam, k = tuple(c), tuple(z), h.real('lam', lo=0.5, hi=2), h.int('modes', lo=1)
    if h.flag('stored'):
        gr.modes(c, z, lam, k)
        gr.eps[...] = h.array('eps1', tuple(n), pos=True)
    else: h.ensure(len(gr._modes) == 0, 'nothing_stored_at_first')
    other = (object(), object())
    gr._modes['other'] = other
    s = gr.modes(c, z, lam, k)
    e, snap = s.io.solver.eps, s.io.snapshot
    h.ensure((e.ndim == 1) & (e.shape[0] == m), 'cells_of_the_section')
    h.ensure(s.io.num == k, 'number_of_modes')
    h.eq(s.io.solver.wavelength, lam, 'wavelength')
    h.eq(s.io.solver.spacing[0], sp[0], 'spacing')
    h.ensure(gr._modes['other'] is other and len(gr._modes) == 2, 'other_entries_untouched')
    kept = [v for q, v in gr._modes.items() if q != 'other'][0]
    h.ensure(kept[1] is s, 'stored')

    def body(q):
        h.instances(q)
        cur = gr.eps[(lo + q, at) if ax == 0 else (at, lo + q)]
        h.eq(e[q], cur, 'current_permittivity'), h.eq(snap[q], cur, 'solved_on'), h.eq(kept[0][q], cur, 'stored_permittivity')
    h.forall('q', [(0, m)], body)


@spec('C21', sym=False, bounded='random histories of up to 8 reads and changes, real solvers', functions=[SF + 'SimGrid.modes', FDF + 'FDFD.solve', TDF + 'FDTD.step', GF + 'YeeGrid.eps_t'], trials=12, cbudget=60, tol=1e-6)
def histories(h):
    """after every change, everything read equals what a fresh simulation of the current permittivity reports"""
    import numpy as np, copy
    cls = h.choice('class', ['FDFD', 'FDTD', 'ModeSolver'])
    C = {'FDFD': h.mod(FD).FDFD, 'FDTD': h.mod(TD).FDTD, 'ModeSolver': h.mod(MD).ModeSolver}[cls]
    n = (h.int('nx', lo=8, chi=10), h.int('ny', lo=8, chi=10))
    rng = np.random.default_rng(h.int('seed', lo=0, chi=10 ** 6))
    new = lambda e: C((n[0] * 0.1, n[1] * 0.1), 0.1, eps=e)
    g = new(1 + rng.random(n) * 8)
    state = tuple(rng.standard_normal((3,) + n + (1,)) + 0j for _ in 'em')
    src = np.zeros(n, dtype=complex)
    src[n[0] // 2, n[1] // 2] = 1

    def read(s, what):
        if what == 'eps_t': return [np.asarray(s.eps_t)]
        if cls == 'FDFD':
            if what == 'solve': return list(np.asarray(s.solve(src.ravel())))
            if what == 'modes':
                if np.ptp(s.eps[n[0] // 2, n[1] // 2 - 3:n[1] // 2 + 3]) < 1e-6: return []
                c = s.modes((n[0] // 2 * 0.1, n[1] // 2 * 0.1, 0.), (0., 0.6, 0.), 1.55, 1)
                return [np.asarray(c.io.solver.eps), np.asarray(c.io.betas)]
            return [(getattr(s, what)).toarray()]
        if cls == 'FDTD': return list(s.step(tuple(x.copy() for x in state) + (None, None), [])[:2])
        return [s.waveguide_mode_matrix.toarray()]
    what = {'FDFD': ['eps_t', 'mat', 'mat_ez', 'mat_hz', 'solve', 'modes'], 'FDTD': ['eps_t', 'step'], 'ModeSolver': ['eps_t', 'matrix']}[cls]
    old = []
    for k in range(h.int('steps', lo=3, chi=8)):
        op = rng.integers(0, 8)
        if op == 0: g.eps = 1 + rng.random(n) * 8
        elif op == 1: g.eps[rng.integers(0, n[0]), rng.integers(0, n[1])] = 1 + rng.random() * 8
        elif op == 2: g.set_eps((0.4, 0.4, 0), (0.3, 0.5, 0), 1 + rng.random() * 8)
        elif op == 3: g.fill(0.1 * rng.integers(1, 8), 1 + rng.random() * 8)
        elif op == 4: g.eps *= 1.1
        elif op == 5 and old: g.eps = old[rng.integers(0, len(old))].copy()
        elif op == 6: g.eps[:] = g.eps[::-1].copy()
        elif op == 7:
            g2 = copy.deepcopy(g) if rng.integers(0, 2) and cls != 'FDTD' else copy.copy(g)
            g2.eps = g2.eps + 1
            if rng.integers(0, 2): g = g2
        old.append(g.eps.copy())
        fresh = new(g.eps.copy())
        for w in what:
            if rng.integers(0, 3) == 0 and w != 'modes': continue
            a, b = read(g, w), read(fresh, w)
            for x, y in zip(a, b):
                h.ensure(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-5, atol=1e-5), f'{w}_of_the_current_permittivity')
