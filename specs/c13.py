"""C13: time-domain update law."""
from engine.runner import spec
from specs.c07 import GF, UF, box
from specs.c09 import stencil
from specs.c10 import curl_ref, widths
from specs.c11 import eps_ref

TD = 'simphox.fdtd'
TDF = 'simphox/fdtd.py:'


def fdtd(h, d, chi=4, jx=False, lo=1, any_widths=False, **kw):
    f = h.mod(TD)
    size, arg, n, sp = box(h, d, chi=chi, split=True, lo=lo)
    n3 = [n[k] if k < d else 1 for k in range(3)]
    eps = h.array('eps', tuple(n), kind='f', pos=True)
    gr = f.FDTD(size, arg, eps=eps, use_jax=jx, **kw)
    if any_widths: widths(h, gr, n3)
    return gr, n, n3, eps.reshape(tuple(n3))


def region(h, n3):
    """a source region: one cell, or a range of at least two cells, along each axis; as index tuple and per-axis (lo, hi or None)"""
    idx, ext = [], []
    for k in range(3):
        if bool(n3[k] == 1) or h.flag(f'plane{k}'):
            p = 0 if bool(n3[k] == 1) else h.int(f'p{k}', lo=0, chi=1)
            h.assume(p < n3[k])
            idx.append(p); ext.append((p, None))
        else:
            a, b = h.int(f'a{k}', lo=0, chi=1), h.int(f'b{k}', lo=2, chi=4)
            h.assume((b <= n3[k]) & (b >= a + 2))
            idx.append(slice(a, b)); ext.append((a, b))
    return tuple(idx), ext


def inside(ext, i):
    for (a, b), x in zip(ext, i):
        if b is None:
            if not bool(x == a): return None
        elif not (bool(x >= a) and bool(x < b)): return None
    return tuple(x - a for (a, b), x in zip(ext, i) if b is not None)


def arr3(h, name, n3, jx):
    return h.array(name, (3,) + tuple(n3), kind='c', jx=jx)


def funcs(f): return [lambda *q, m=m: f[(m,) + tuple(q)] for m in range(3)]


@spec('C13', functions=[TDF + 'FDTD.step', TDF + 'FDTD._step_e', TDF + 'FDTD._step_h', TDF + 'FDTD.__init__', GF + 'YeeGrid.curl_fn', UF + 'curl_fn'], budget=300)
def leapfrog_law(h):
    """e' = e + dt curl h / eps, then h' = h - dt curl e'"""
    d, c, jx = h.choice('dim', [1, 2, 3]), h.choice('component', [0, 1, 2]), h.flag('jax')
    gr, n, n3, e3 = fdtd(h, d, jx=jx, chi=3)
    e, m = arr3(h, 'e', n3, jx), arr3(h, 'h', n3, jx)
    e0, m0 = e.copy(), m.copy()
    half = h.choice('half', ['electric', 'magnetic', 'both'])
    t = 1e-4 if jx else None
    if half == 'electric': st = gr._step_e((e, m, None, None), [])
    elif half == 'magnetic': st = gr._step_h((e, m, None, None), [])
    else: st = gr.step((e, m, None, None), [])
    h.ensure(len(st) == 4 and st[2] is None and st[3] is None, 'state_form')
    en, mn = st[0], st[1]
    ref = gr._step_h(gr._step_e((e0.copy(), m0.copy(), None, None), []), []) if half == 'both' else None

    def body(*i):
        q = (c,) + i
        if half == 'electric':
            h.eq(en[q], e0[q] + gr.dt * curl_ref(h, gr, d, n3, funcs(m0), True, c, i) / eps_ref(e3, n3, c, i), 'electric_update', tol=t)
            h.eq(mn[q], m0[q], 'only_e_moves')
        elif half == 'magnetic':
            h.eq(mn[q], m0[q] - gr.dt * curl_ref(h, gr, d, n3, funcs(e0), False, c, i), 'magnetic_update', tol=t)
            h.eq(en[q], e0[q], 'only_h_moves')
        else:
            h.eq(en[q], ref[0][q], 'electric_then_magnetic_half_step', tol=t)
            h.eq(mn[q], ref[1][q], 'electric_then_magnetic_half_step', tol=t)
        h.eq(e[q], e0[q], 'given_e_unchanged')
        h.eq(m[q], m0[q], 'given_h_unchanged')
    h.forall('i', [(0, x) for x in n3], body)


@spec('C13', functions=[TDF + 'FDTD.step', TDF + 'FDTD._step_e', TDF + 'FDTD._step_h'], budget=300)
def sources(h):
    """each source is subtracted once (divided by permittivity for e, times dt), in its region and nowhere else"""
    d, c, jx = h.choice('dim', [2, 3]), h.choice('component', [0, 1, 2]), h.flag('jax')
    gr, n, n3, e3 = fdtd(h, d, jx=jx, chi=4)
    e, m = arr3(h, 'e', n3, jx), arr3(h, 'h', n3, jx)
    idx, ext = region(h, n3)
    sh = tuple(b - a for a, b in ext if b is not None)
    half = h.choice('half', ['electric', 'magnetic'])
    j = h.array('j', (3,) + sh, kind='c')
    src = (j, None, (slice(None),) + idx) if half == 'electric' else (None, j, (slice(None),) + idx)
    f, k = (gr._step_e, 0) if half == 'electric' else (gr._step_h, 1)
    # the half step with the source, against the source-free half step
    a = f((e.copy(), m.copy(), None, None), [src])
    b = f((e.copy(), m.copy(), None, None), [])
    t = 1e-4 if jx else None

    def body(*i):
        s = inside(ext, i)
        v = 0 if s is None else j[(c,) + s] * gr.dt / (eps_ref(e3, n3, c, i) if half == 'electric' else 1)
        h.eq(a[k][(c,) + i], b[k][(c,) + i] - v, half + '_source', tol=t)
        h.eq(a[1 - k][(c,) + i], b[1 - k][(c,) + i], 'other_field_untouched', tol=t)
    h.forall('i', [(0, x) for x in n3], body)


@spec('C13', functions=[TDF + 'FDTD.step', TDF + 'FDTD._step_e', TDF + 'FDTD._step_h'])
def several_sources(h):
    """sources superpose: two entries act like their sum, electric ones before the magnetic half step"""
    jx = h.flag('jax')
    d = h.choice('dim', [2, 3])
    gr, n, n3, e3 = fdtd(h, d, jx=jx, chi=3)
    h.assume((n3[0] > 1) & (n3[1] > 1))
    if d == 3: h.assume(n3[2] > 1)
    e, m = arr3(h, 'e', n3, jx), arr3(h, 'h', n3, jx)
    sh = (3,) + tuple(x for x in n3[:d])
    A = (slice(None), slice(None), slice(None), slice(None)) if d == 3 else (slice(None), slice(None), slice(None), 0)
    j = [h.array(f'j{k}', sh, kind='c') for k in range(4)]
    a = gr.step((e.copy(), m.copy(), None, None), [(j[0], j[1], A), (j[2], j[3], A)])
    b = gr._step_h(gr._step_e((e.copy(), m.copy(), None, None), [(j[0] + j[2], None, A)]), [(None, j[1] + j[3], A)])
    t = 1e-4 if jx else None
    for k in range(2): h.eq(a[k], b[k], 'superposition', tol=t)


def pml_grid(h, d, jx):
    t = [h.int(f't{k}', lo=4, chi=4) for k in range(d)]
    f = h.mod(TD)
    n = [h.int(f'n{k}', lo=10, chi=11) for k in range(d)]
    for k in range(d): h.assume(t[k] < n[k] // 2)
    sp = [h.real(f's{k}', pos=True) if h.symbolic else h.choice(f's{k}', [0.25, 0.5, 1.0]) for k in range(d)]
    n3 = [n[k] if k < d else 1 for k in range(3)]
    eps = h.array('eps', tuple(n), kind='f', pos=True)
    gr = f.FDTD(tuple(a * b for a, b in zip(n, sp)), tuple(sp), eps=eps, use_jax=jx, pml=tuple(a * b for a, b in zip(t, sp)))
    return gr, n3, t, eps.reshape(tuple(n3))


@spec('C13', functions=[TDF + 'FDTD._set_pml', TDF + 'FDTD._step_e', TDF + 'FDTD._step_h', TDF + 'FDTD.curl_e_pml', TDF + 'FDTD.curl_h_pml', UF + 'curl_pml_fn', TDF + 'FDTD.zero_state'], budget=400)
def absorber_memory(h):
    """in every absorber region psi' = b psi + c grad, and the half step adds the curl of psi' (over eps for e) times dt; nothing is added elsewhere"""
    d, half, jx = h.choice('dim', [1, 2, 3]), h.choice('half', ['electric', 'magnetic']), h.flag('jax')
    gr, n3, t, e3 = pml_grid(h, d, jx)
    k = h.choice('region', list(range(2 * d)))
    ax, end = k // 2, k % 2
    z = gr.zero_state
    h.ensure(len(z[2]) == 2 * d and len(z[3]) == 2 * d and len(gr.pml_regions) == 2 * d, 'one_memory_per_region')
    w = [t[ax] if a == ax else n3[a] for a in range(3)]
    h.ensure(z[2][k].shape == (6,) + tuple(w) if not h.symbolic else True, 'memory_shape')
    e, m = arr3(h, 'e', n3, jx), arr3(h, 'h', n3, jx)
    xp = h.jnp if jx else h.np
    psi = [h.array(f'psi{r}', tuple(p.shape), kind='c', jx=jx) if r == k else xp.zeros_like(p) for r, p in enumerate(z[2])]
    given = list(psi)
    el = half == 'electric'
    p = 2 if el else 3
    st = (e, m, psi, z[3]) if el else (e, m, z[2], psi)
    out = (gr._step_e if el else gr._step_h)(st, [])
    h.ensure(all(x is y for x, y in zip(psi, given)), 'given_memory_unchanged')
    B, C = gr.cpml_b[k][1 if el else 0], gr.cpml_c[k][1 if el else 0]
    f = m if el else e
    off = 0 if end == 0 else n3[ax] - t[ax]
    q = h.choice('term', list(range(6)))
    cc, aa = [(2, 1), (1, 2), (0, 2), (2, 0), (1, 0), (0, 1)][q]

    def body(*i):
        g = tuple(x + off if a == ax else x for a, x in enumerate(i))
        D = 0 if aa >= d else stencil(h, gr, d, n3, lambda *s: f[(cc,) + s], aa, el, g)
        h.eq(out[p][k][(q,) + i], B[(aa,) + i] * psi[k][(q,) + i] + C[(aa,) + i] * D, 'memory_update', tol=1e-4 if jx else None)
    h.forall('i', [(0, x) for x in w], body)


@spec('C13', functions=[TDF + 'FDTD._set_pml', TDF + 'FDTD._step_e', TDF + 'FDTD._step_h'], budget=400)
def absorber_field(h):
    """the half step with absorbers is the half step without, plus dt (over eps for e) times the curl of the new memories of the regions that contain the cell"""
    d, half, jx = h.choice('dim', [1, 2, 3]), h.choice('half', ['electric', 'magnetic']), h.flag('jax')
    gr, n3, t, e3 = pml_grid(h, d, jx)
    el = half == 'electric'
    c = h.choice('component', [0, 1, 2])
    e, m = arr3(h, 'e', n3, jx), arr3(h, 'h', n3, jx)
    z = gr.zero_state
    out = (gr._step_e if el else gr._step_h)((e.copy(), m.copy(), z[2], z[3]), [])
    p, k = (2, 0) if el else (3, 1)
    new = [h.array(f'psi{r}', tuple(x.shape), kind='c', jx=jx) for r, x in enumerate(out[p])]
    ret = iter(new)
    # the memories as any values: the curl functions are replaced by their contract (memory_update above), returning these values and their curl
    def curl(*a):
        x = next(ret)
        return x, (h.jnp if jx else h.np).stack([x[0] - x[1], x[2] - x[3], x[4] - x[5]])
    setattr(gr, '_curl_h_pml' if el else '_curl_e_pml', [curl] * (2 * d))
    out = (gr._step_e if el else gr._step_h)((e.copy(), m.copy(), z[2], z[3]), [])
    base = h.mod(TD).FDTD(gr.size, tuple(gr.spacing), eps=gr.eps, use_jax=jx)
    ref = (base._step_e if el else base._step_h)((e.copy(), m.copy(), None, None), [])
    for r in range(2 * d): h.ensure(out[p][r] is new[r], 'memory_is_the_new_one')

    def body(*i):
        v = 0
        for r in range(2 * d):
            ax, end = r // 2, r % 2
            lo, hi = (0, t[ax]) if end == 0 else (n3[ax] - t[ax], n3[ax])
            if bool(i[ax] >= lo) and bool(i[ax] < hi):
                g = tuple(x - lo if a == ax else x for a, x in enumerate(i))
                v = v + new[r][(2 * c,) + g] - new[r][(2 * c + 1,) + g]
        v = v * gr.dt / eps_ref(e3, n3, c, i) if el else -v * gr.dt
        h.eq(out[k][(c,) + i], ref[k][(c,) + i] + v, 'field_gets_the_curl_of_the_memory', tol=1e-4 if jx else None)
    h.forall('i', [(0, x) for x in n3], body)


class Lib:
    def __init__(self, name, a): self.name, self.a = name, a
    def profile(self, mode, use_h=False): return self.a[(mode, bool(use_h))]
    def slice(self, grid): return ('slice of', self.name)


def cw(h, jx):
    """an FDTD whose modes, measurement and step are replaced by recorders (their contracts are C13 half steps, C17 and C18)"""
    gr, n, n3, e3 = fdtd(h, 2, jx=jx, chi=3)
    mk = {(p, q, u): h.array(f'{p}{q}{u}', (3, n3[0], n3[1], n3[2]), kind='c') for p in 'ab' for q in (0, 1) for u in (False, True)}
    libs = {p: Lib(p, {(q, u): mk[(p, q, u)] for q in (0, 1) for u in (False, True)}) for p in 'ab'}
    log = dict(modes=[], measure=[], meas=[], steps=[])
    h.standin(gr, 'port_modes', lambda **k: log['modes'].append(k) or libs)

    def gm(**k):
        log['measure'].append((k['measure_port'], k))
        return lambda f: log['meas'].append(f) or ('measured', len(log['meas']) - 1)
    h.standin(gr, 'get_measure_fn', gm)
    return gr, n3, mk, log


@spec('C13', functions=[TDF + 'FDTD.run_cw_port'], budget=200)
def harmonic_run_step(h):
    """step number k of a harmonic run applies one step with the mode profiles times exp(i k dt k0), and measures e and the mean of h before and after (any k, any state)"""
    jx = h.flag('jax')
    gr, n3, mk, log = cw(h, jx)
    lam = h.real('wavelength', lo=0.5, hi=2)
    s = [arr3(h, f's{k}', n3, jx) for k in range(4)]
    k = h.int('k', lo=0, chi=9)

    def step(state, sources):
        log['steps'].append((state, sources))
        return s[2], s[3], None, None
    h.override_attr(gr, 'step', step)
    ex = h.choice('excitation', [[('a', 0)], [('a', 0), ('b', 1)], [('b', 1), ('a', 1)]])
    h.override(TD, 'parse_source_port', lambda x: {q: 1 for q in ex})
    init = (s[0], s[1], None, None)
    flux, st = gr.run_cw_port(1, wavelength=lam, source_port='x', measure_port='y', pbar=lambda r: [k], initial_state=init, tm_2d=False, profile_size_factor=2)
    h.ensure(len(log['steps']) == 1 and log['steps'][0][0] is init, 'one_step_from_the_given_state')
    h.ensure(len(flux) == 2 and flux[0] == ('measured', 0) and flux[1] == ('measured', 1), 'measurements_in_order')
    h.ensure(st[0] is s[2] and st[1] is s[3], 'final_state')
    h.ensure(log['modes'][0]['excitation'] == ex and log['modes'][0]['profile_size_factor'] == 2, 'source_modes')
    h.eq(log['modes'][0]['wavelength'], lam, 'source_modes_wavelength')
    h.eq(log['measure'][0][1]['wavelength'], lam, 'measured_wavelength')
    h.ensure(log['measure'][0][0] == 'y' and log['measure'][0][1]['use_jax'] == jx and log['measure'][0][1]['tm_2d'] is False, 'measure_function')
    h.ensure(log['meas'][0][0] is s[0] and log['meas'][0][1] is s[1], 'first_measurement_is_the_initial_state')
    src = log['steps'][0][1]
    h.ensure(len(src) == len(ex), 'one_source_per_excitation')
    ph = h.np.exp(1j * (k * gr.dt * (2 * h.pi / lam)))
    t = 1e-4 if jx else None
    for (p, q), (a, b, sl) in zip(ex, src):
        h.eq(a, mk[(p, q, False)] * ph, 'electric_profile', tol=t)
        h.eq(b, mk[(p, q, True)] * ph, 'magnetic_profile', tol=t)
        h.ensure(sl == ('slice of', p), 'source_region')
    f = log['meas'][1]
    h.eq(f[0], s[2], 'measured_e', tol=t)
    h.eq(f[1], (s[1] + s[3]) / 2, 'measured_h_is_the_mean', tol=t)


@spec('C13', functions=[TDF + 'FDTD.run_cw_port'])
def harmonic_run_length(h):
    """a run of n steps applies the step n times in sequence, starting from the zero state"""
    gr, n3, mk, log = cw(h, False)
    N = h.choice('steps', [0, 1, 2, 5])
    states = []

    def step(state, sources):
        log['steps'].append((state, sources))
        states.append(tuple(state[:2]) + (None, None))
        return states[-1]
    h.override_attr(gr, 'step', step)
    h.override(TD, 'parse_source_port', lambda x: {})
    flux, st = gr.run_cw_port(N, initial_state=gr.zero_state if h.flag('given') else None)
    h.ensure(len(log['steps']) == N and len(flux) == N + 1, 'number_of_steps')
    for k in range(1, N): h.ensure(log['steps'][k][0] is states[k - 1], 'sequence')
    if N: h.ensure(st is states[-1], 'last_state')


@spec('C13', functions=[TDF + 'FDTD.zero_state'])
def initial_state(h):
    jx, d = h.flag('jax'), h.choice('dim', [1, 2, 3])
    gr, n, n3, e3 = fdtd(h, d, jx=jx)
    z = gr.zero_state
    h.ensure(len(z) == 4 and z[2] is None and z[3] is None, 'no_memory_without_absorber')
    for k in range(2):
        h.ensure(tuple(z[k].shape[1:]) == tuple(n3) if not h.symbolic else z[k].ndim == 4, 'shape')
        h.eq(z[k], 0 * arr3(h, f'q{k}', n3, False), 'zero')
