"""C17: Poynting flux, mode measurement, evolution and placement."""
from engine.runner import spec
from specs.c07 import G, GF, UF, box
from specs.c08 import inside
from specs.c09 import prv
from specs.c16 import library, index, MD, MF

U = 'simphox.utils'


def avg(f, i, ax, n3):
    """mean with the previous cell along an axis (periodic)"""
    j = list(i)
    j[ax], _ = prv(i[ax], n3[ax])
    return (f(*i) + f(*j)) / 2


def flux(e, m, axis, n3, i, np):
    """component of e x conj(h) along the axis, both brought to the centre of the face"""
    p, q = (axis + 1) % 3, (axis + 2) % 3
    c = lambda a, k: (lambda *t: a[(k,) + t])
    return avg(c(e, p), i, q, n3) * np.conj(avg(c(m, q), i, q, n3)) - avg(c(e, q), i, p, n3) * np.conj(avg(c(m, p), i, p, n3))


def sizes(h, jx=False):
    return [h.int(f'n{k}', lo=1, chi=4) for k in range(3)]


@spec('C17', functions=[UF + 'poynting_fn'], budget=200)
def poynting(h):
    axis, jx = h.choice('axis', [0, 1, 2]), h.flag('jax')
    n3 = sizes(h)
    e, m = (h.array(k, (3,) + tuple(n3), kind='c', jx=jx) for k in 'eh')
    f = h.mod(U).poynting_fn(axis, use_jax=jx) if axis != 2 or h.flag('given') else h.mod(U).poynting_fn(use_jax=jx)
    s = f(e, m)
    h.ensure(s.ndim == 3, 'one_value_per_cell')
    for k in range(3): h.ensure(s.shape[k] == n3[k], 'one_value_per_cell')
    h.forall('i', [(0, x) for x in n3], lambda *i: h.eq(s[i], flux(e, m, axis, n3, i, h.np), 'cross_product_component', tol=1e-4 if jx else None))


def stub(h, shape, jx=False, M=2):
    """a mode library whose fields are arbitrary (contracts of ModeLibrary.h / e)"""
    ML = h.mod(MD).ModeLibrary
    E = [h.array(f'E{q}', shape, kind='c') for q in range(M)]
    H = [h.array(f'H{q}', shape, kind='c') for q in range(M)]
    seen = []

    class Lib(ML):
        def __init__(self): self.m = self.num_modes = M
        def e(self, mode_idx=0, tm_2d=True): seen.append(('e', mode_idx, tm_2d)); return E[mode_idx]
        def h(self, mode_idx=0, tm_2d=True): seen.append(('h', mode_idx, tm_2d)); return H[mode_idx]
    return Lib(), E, H, seen


@spec('C17', functions=[MF + 'ModeLibrary.measure_fn', UF + 'poynting_fn'], budget=300)
def measurement_formula(h):
    """[a + b, a - b] with a = sum S(e, h_m) / S_m / 2 and b = conj(sum S(e_m, h) / S_m) / 2, of the requested mode and polarisation"""
    jx, q, tm = h.flag('jax'), h.choice('mode', [0, 1]), h.flag('tm')
    n3 = sizes(h)
    lib, E, H, seen = stub(h, (3,) + tuple(n3))
    e, m = (h.array(k, (3,) + tuple(n3), kind='c', jx=jx) for k in 'eh')
    P = h.mod(U).poynting_fn(2)
    s = lambda a, b: h.np.sum(P(a, b))
    S = s(E[q], H[q])
    if h.symbolic: h.assume(h.nonzero(S))
    else: h.assume(abs(S) > 0.3)
    out = lib.measure_fn(q, jx, tm)(e, m)
    h.ensure(out.shape == (2,) if not h.symbolic else (out.ndim == 1) & (out.shape[0] == 2), 'two_amplitudes')
    h.ensure(all(x[1] == q and x[2] == tm for x in seen), 'of_the_requested_mode')
    t = 2e-4 if jx else None
    h.eq((out[0] + out[1]) * S, s(e, H[q]), 'electric_part', tol=t)
    h.eq((out[0] - out[1]) * h.np.conj(S), h.np.conj(s(E[q], m)), 'magnetic_part', tol=t)


@spec('C17', functions=[MF + 'ModeLibrary.measure_fn'], budget=300)
def measuring_a_mode(h):
    """a forward mode measures as (1, 0), a backward mode (reversed h) as (0, 1), scaled by its amplitude"""
    n3 = sizes(h)
    lib, E, H, seen = stub(h, (3,) + tuple(n3), M=1)
    S = h.np.sum(h.mod(U).poynting_fn(2)(E[0], H[0]))
    if h.symbolic: h.assume(h.nonzero(S))
    else: h.assume(abs(S) > 0.3)
    f = lib.measure_fn() if h.flag('default') else lib.measure_fn(0)
    al = h.complex('alpha')
    a, b = f(al * E[0], al * H[0]), f(al * E[0], -al * H[0])
    h.eq(a[0], al, 'forward_mode'), h.eq(a[1], 0, 'forward_mode_has_no_backward_part')
    h.eq(b[1], al, 'backward_mode'), h.eq(b[0], 0, 'backward_mode_has_no_forward_part')


@spec('C17', functions=[MF + 'ModeLibrary.measure_fn'], budget=300)
def measurement_is_linear(h):
    n3 = sizes(h)
    jx = h.flag('jax')
    lib, E, H, seen = stub(h, (3,) + tuple(n3), M=1)
    S = h.np.sum(h.mod(U).poynting_fn(2)(E[0], H[0]))
    if h.symbolic: h.assume(h.nonzero(S))
    else: h.assume(abs(S) > 0.3)
    f = lib.measure_fn(use_jax=jx)
    al, be = h.complex('alpha'), h.complex('beta')
    e, m, e2, m2 = (h.array(k, (3,) + tuple(n3), kind='c', jx=jx) for k in ('e', 'h', 'e2', 'h2'))
    x, y, z = f(e, m), f(e2, m2), f(al * e + be * e2, al * m + be * m2)
    for k in (0, 1): h.eq(z[k], al * x[k] + be * y[k], 'linear', tol=1e-3 if jx else None)


@spec('C17', functions=[MF + 'ModeLibrary.sz', UF + 'poynting_fn'], budget=200)
def power_density(h):
    """sz of a mode is the flux along the propagation axis of its own fields"""
    d = h.choice('dim', [1, 2])
    lib, gr, n3, e3, b, modes, M, fx = library(h, d, chi=3)
    h.assume(n3[0] > 1)
    if d == 2: h.assume(n3[1] > 1)
    q = index(h, M)
    s = lib.sz(q)
    h.ensure(s.ndim == d, 'one_value_per_cell')
    ref = h.mod(U).poynting_fn(2)(lib.e(q), lib.h(q))
    h.forall('i', [(0, n3[k]) for k in range(d)], lambda *i: h.eq(s[i], ref[i + (0,) * (3 - d)], 'flux_of_the_mode'))
    h.raises(lambda: lib.sz(M), ValueError, 'past_the_guided_modes')


@spec('C17', functions=[MF + 'ModeLibrary.evolve'], budget=200)
def evolution(h):
    """sum of weight times exp(i beta L) times the field of each mode, for one length or an array of lengths"""
    n3 = sizes(h)
    lib, E, H, seen = stub(h, (3,) + tuple(n3))
    lib.betas = h.np.array([h.real('b0'), h.real('b1')])
    w = [h.real(f'w{q}') for q in range(h.choice('weights', [1, 2]))]
    many = h.flag('many')
    L = h.array('L', (h.int('lengths', lo=1, chi=3),), kind='f') if many else h.real('L')
    uh = h.flag('use_h')
    default = h.flag('default') and len(w) == 1
    args = (L,) if default else (L, tuple(w))
    if default: w = [1]
    f = lib.evolve(*args) if uh and h.flag('omitted') else lib.evolve(*args, use_h=uh)
    K = L.shape[0] if many else 1
    h.ensure(f.ndim == 5, 'form')
    h.ensure(f.shape[4] == K, 'one_profile_per_length')

    def body(c, i, j, k, t):
        l = L[t] if many else L
        h.eq(f[c, i, j, k, t], sum(w[q] * h.np.exp(1j * lib.betas[q] * l) * (H if uh else E)[q][c, i, j, k] for q in range(len(w))), 'superposition_of_propagated_modes')
    h.forall('i', [(0, 3)] + [(0, x) for x in n3] + [(0, K)], body)


def plane(h, n, sp, d, flat):
    """a region of the grid with one cell along the axis flat: centre, size, ranges"""
    c, z, rng = [], [], []
    for k in range(3):
        if k >= d: c.append(0), z.append(0), rng.append((0, 1)); continue
        a = h.int(f'lo{k}', lo=0, chi=None if h.symbolic else int(n[k]) - 1)
        m = 1 if k == flat else h.int(f'm{k}', lo=1, chi=None if h.symbolic else int(n[k] - a))
        h.assume(a + m <= n[k])
        dc, dz = h.real(f'dc{k}', lo=-0.45, hi=0.45, special=(0.0,)), h.real(f'dz{k}', lo=-0.45, hi=0.45, special=(0.0,))
        c.append(((a if k == flat else a + m // 2) + dc) * sp[k])
        z.append(0 if k == flat else (m + dz) * sp[k]), rng.append((a, a + m))
    return tuple(c), tuple(z), rng


AX = {0: (2, 0, 1), 1: (0, 2, 1), 2: (0, 1, 2)}


@spec('C17', functions=[MF + 'ModeLibrary.place', GF + 'Grid.slice', GF + 'Grid.view_fn'], budget=300)
def placement_3d(h):
    """a cross-sectional mode fills its region, reoriented, and nothing else; viewing the region gives the mode back"""
    flat = h.choice('normal', [0, 1, 2])
    size, arg, n, sp = box(h, 3, chi=4)
    gr = h.mod(G).YeeGrid(size, arg)
    c, z, rng = plane(h, n, sp, 3, flat)
    ln = [b - a for a, b in rng]
    # axes of the cross-section in mode coordinates: mode axis m lies along grid axis g[m]
    g = [AX[flat].index(m) for m in range(3)]
    lib, E, H, seen = stub(h, (3,) + tuple(ln[g[m]] for m in range(3)))
    lib.ndim = 2
    q = h.choice('mode', [0, 1])
    x = lib.place(q, gr, c, z)
    h.ensure(x.ndim == 4, 'one_field_per_component')
    comp = h.choice('component', [0, 1, 2])

    def body(*i):
        if inside(rng, i):
            loc = [i[k] - rng[k][0] for k in range(3)]
            h.eq(x[(comp,) + i], H[q][(AX[flat][comp],) + tuple(loc[g[m]] for m in range(3))], 'mode_inside')
        else: h.eq(x[(comp,) + i], 0, 'nothing_outside')
    h.forall('i', [(0, m) for m in n], body)
    v = gr.view_fn(c, z, use_jax=False)(x)
    h.forall('v', [(0, ln[g[m]]) for m in range(3)], lambda *i: h.eq(v[(comp,) + i], H[q][(comp,) + i], 'viewing_gives_the_mode_back'))


@spec('C17', functions=[MF + 'ModeLibrary.place', GF + 'Grid.slice'], budget=200)
def placement_2d(h):
    """a line mode fills its line of a 2D grid and nothing else"""
    flat = h.choice('normal', [0, 1])
    size, arg, n, sp = box(h, 2, chi=5)
    gr = h.mod(G).YeeGrid(size, arg)
    c, z, rng = plane(h, n, sp, 2, flat)
    o = 1 - flat
    lib, E, H, seen = stub(h, (3, 1, 1, 1))
    lib.ndim = 1
    lib.modes = h.array('modes', (2, rng[o][1] - rng[o][0]), kind='c')
    q = h.choice('mode', [0, 1])
    x = lib.place(q, gr, c, z)
    h.ensure(x.ndim == 2, 'form')

    def body(*i):
        h.eq(x[i], lib.modes[q, i[o] - rng[o][0]] if inside(rng[:2], i) else 0, 'mode_on_its_line')
    h.forall('i', [(0, m) for m in n], body)
