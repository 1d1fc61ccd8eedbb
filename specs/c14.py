"""C14: energy conservation and reversibility of source-free time stepping."""
from engine.runner import spec
from specs.c07 import GF, UF, box
from specs.c09 import nxt, prv
from specs.c10 import curl_ref
from specs.c11 import eps_ref
from specs.c13 import TD, TDF, fdtd, arr3, funcs

FN = [TDF + 'FDTD.step', TDF + 'FDTD._step_e', TDF + 'FDTD._step_h', TDF + 'FDTD.__init__', GF + 'YeeGrid.diff_fn', GF + 'YeeGrid.curl_fn', UF + 'curl_fn']


@spec('C14', functions=[TDF + 'FDTD.__init__'])
def courant_step(h):
    """the chosen step is exactly the Courant limit for permittivity one: dt^2 sum 1/s^2 = 1, dt > 0"""
    d, jx = h.choice('dim', [1, 2, 3]), h.flag('jax')
    scalar = h.flag('scalar')
    size, arg, n, sp = box(h, d, scalar)
    kw = dict(eps=h.real('eps', lo=1, hi=12)) if h.flag('material') else {}
    gr = h.mod(TD).FDTD(size, arg, use_jax=jx, **kw)
    s = 0
    for x in sp: s = s + 1 / (x * x)
    h.ensure(gr.dt / sp[0] > 0, 'positive')
    h.eq(gr.dt * gr.dt * s, 1, 'courant_limit')


@spec('C14', functions=[TDF + 'FDTD._set_pml', TDF + 'FDTD.__init__'])
def courant_step_with_absorber(h):
    from specs.c13 import pml_grid
    d = h.choice('dim', [1, 2, 3])
    gr, n3, t, e3 = pml_grid(h, d, False)
    s = 0
    for k in range(d): s = s + 1 / (gr.spacing[k] * gr.spacing[k])
    h.eq(gr.dt * gr.dt * s, 1, 'courant_limit')


def re(h, a, b):
    """real part of a conj(b)"""
    return (a * h.np.conj(b) + h.np.conj(a) * b) / 2


@spec('C14', functions=FN, budget=500)
def local_energy_law(h):
    """W(e, h) = eps |e|^2 + Re h* (h + dt curl e) changes, in every cell and step, by a discrete divergence: sum over axes of F_a(i) - F_a(i - 1).
    (Summed over the periodic grid the divergence telescopes to zero, so the total energy is conserved.)"""
    d, jx = h.choice('dim', [1, 2, 3]), False
    gr, n, n3, e3 = fdtd(h, d, jx=jx, chi=3)
    c = h.choice('component', [0, 1, 2])
    e, m = arr3(h, 'e', n3, jx), arr3(h, 'h', n3, jx)
    sp = [gr.spacing[k] if k < d else None for k in range(3)]
    en, mn, _, _ = gr.step((e.copy(), m.copy(), None, None), [])
    # the curls as contracts (C10), and the half steps (C13): e' - e = dt curl h / eps, h' - h = -dt curl e'

    def body(*i):
        q = (c,) + i
        E, E1, M, M1 = e[q], en[q], m[q], mn[q]
        # electric part: eps (|e'|^2 - |e|^2) = dt Re conj(e + e') curl h
        ch = curl_ref(h, gr, d, n3, funcs(m), True, c, i)
        h.eq(eps_ref(e3, n3, c, i) * (re(h, E1, E1) - re(h, E, E)), gr.dt * re(h, E1 + E, ch), 'electric_energy_balance')
        # magnetic part: Re h'*(h' + dt curl e') - Re h*(h + dt curl e) = -dt Re h* curl (e + e')
        ce, ce1 = curl_ref(h, gr, d, n3, funcs(e), False, c, i), curl_ref(h, gr, d, n3, funcs(en), False, c, i)
        h.eq(re(h, M1, M1 + gr.dt * ce1) - re(h, M, M + gr.dt * ce), -gr.dt * re(h, M, ce + ce1), 'magnetic_energy_balance')
    h.forall('i', [(0, x) for x in n3], body)


@spec('C14', functions=[GF + 'YeeGrid.curl_fn', GF + 'YeeGrid.diff_fn', UF + 'curl_fn'], budget=400)
def poynting_theorem(h):
    """for any fields s, m the real curl functions satisfy, in every cell: Re conj(s).(curl m) - Re conj(m).(curl s) = - sum_a (F_a(i) - F_a(i-1)) / dx_a
    with F the discrete Poynting vector of neighbouring values, so the sum over the periodic grid vanishes"""
    d, jx = h.choice('dim', [1, 2, 3]), h.flag('jax')
    gr, n, n3, e3 = fdtd(h, d, jx=jx, chi=3)
    s, m = arr3(h, 's', n3, jx), arr3(h, 'm', n3, jx)
    ch, ce = gr._curl_h(m), gr._curl_e(s)

    def F(a, i):
        """flux through the face above cell i along axis a: component a of s(i+1) x conj(m(i)) (real part)"""
        j = list(i); j[a] = nxt(i[a], n3[a])[0]; j = tuple(j)
        b, c = (a + 1) % 3, (a + 2) % 3
        return re(h, s[(b,) + j], m[(c,) + i]) - re(h, s[(c,) + j], m[(b,) + i])

    def body(*i):
        lhs = 0
        for c in range(3): lhs = lhs + re(h, s[(c,) + i], ch[(c,) + i]) - re(h, m[(c,) + i], ce[(c,) + i])
        div = 0
        for a in range(d):
            if bool(n3[a] == 1): continue
            j = list(i); j[a] = prv(i[a], n3[a])[0]
            div = div + (F(a, i) - F(a, tuple(j))) / gr.spacing[a]
        h.eq(lhs, -div, 'divergence_of_the_flux', tol=1e-4 if jx else None)
    h.forall('i', [(0, x) for x in n3], body)


@spec('C14', functions=FN, trials=8, sym=False)
def total_energy(h):
    """the summed energy over several steps on real arrays, and its lower bound (stability)"""
    d, jx = h.choice('dim', [1, 2, 3]), h.flag('jax')
    f = h.mod(TD)
    size, arg, n, sp = box(h, d, chi=5)
    n3 = tuple(n[k] if k < d else 1 for k in range(3))
    np = h.np
    gr = f.FDTD(size, arg, eps=1 + abs(h.array('eps', tuple(n))), use_jax=jx)
    e, m = np.asarray(arr3(h, 'e', n3, False)), np.asarray(arr3(h, 'h', n3, False))
    st = (h.jnp.array(e) if jx else e, h.jnp.array(m) if jx else m, None, None)

    def W(st):
        a, b = np.asarray(st[0]), np.asarray(st[1])
        return np.sum(np.asarray(gr.eps_t) * abs(a) ** 2) + np.sum((b.conj() * (b + gr.dt * np.asarray(gr._curl_e(st[0])))).real)
    w0 = W(st)
    for _ in range(h.int('steps', lo=1, chi=20)): st = gr.step(st, [])
    h.eq(W(st) / abs(w0), w0 / abs(w0), 'energy_conserved', tol=1e-3 if jx else 1e-8)
    a = np.asarray(st[0])
    h.ensure(W(st) >= -1e-6 * np.sum(np.asarray(gr.eps_t) * abs(a) ** 2), 'energy_bounded_below')


@spec('C14', functions=FN, budget=200)
def reversible(h):
    """the magnetic then the electric half step with the opposite time step undo a step"""
    d, c, jx = h.choice('dim', [1, 2, 3]), h.choice('component', [0, 1, 2]), h.flag('jax')
    gr, n, n3, e3 = fdtd(h, d, jx=jx, chi=3)
    e, m = arr3(h, 'e', n3, jx), arr3(h, 'h', n3, jx)
    st = gr.step((e.copy(), m.copy(), None, None), [])
    gr.dt = -gr.dt
    st = gr._step_e(gr._step_h(st, []), [])
    t = 1e-3 if jx else None
    h.eq(st[0][c], e[c], 'e_recovered', tol=t)
    h.eq(st[1][c], m[c], 'h_recovered', tol=t)
