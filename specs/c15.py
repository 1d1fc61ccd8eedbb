"""C15: absorbing layers."""
from engine.runner import spec
from specs.c07 import GF, UF
from specs.c13 import TD, TDF, pml_grid
from specs.c11 import FD, FDF

EXP = [1, 2, 3, 4, 5]


def sizes(h, d):
    t = [h.int(f't{k}', lo=4, chi=5) for k in range(d)]
    n = [h.int(f'n{k}', lo=10, chi=14) for k in range(d)]
    for k in range(d): h.assume(t[k] < n[k] // 2)
    sp = [h.real(f's{k}', pos=True) if h.symbolic else h.choice(f's{k}', [0.25, 0.5, 1.0]) for k in range(d)]
    return t, n, sp


def params(h):
    return h.choice('exponent', EXP), h.real('log_reflectivity', lo=-30, hi=-1), h.real('pml_eps', lo=1, hi=3)


def depth(h, i, n, t, mid):
    """normalised depth of cell i into the layers of t cells at both ends of n cells: 0 outside, growing towards both ends, below one"""
    hf = h.np.asarray(1) / 2 if False else 0.5
    if bool(i < t): return (t - i) / ((t + hf) if mid else t)
    if bool(i >= n - t): return (i - (n - t)) / ((t - hf) if mid else t)
    return 0


def power(x, p):
    r = 1
    for _ in range(p): r = r * x
    return r


@spec('C15', functions=[FDF + 'FDFD.scpml'], budget=200)
def frequency_domain_stretch(h):
    """s = 1 + i (p + 1) depth^p log R / (2 k0 eps): exactly one outside the layer"""
    d = h.choice('dim', [1, 2, 3])
    ax = h.choice('axis', list(range(d)))
    t, n, sp = sizes(h, d)
    p, r, pe = params(h)
    lam = h.real('wavelength', lo=0.5, hi=2)
    gr = h.mod(FD).FDFD(tuple(a * b for a, b in zip(n, sp)), tuple(sp), wavelength=lam, pml=tuple(a * b for a, b in zip(t, sp)), pml_params=(p, r, pe))
    s = gr.scpml(ax)
    amp = (p + 1) * r / (2 * gr.k0 * pe)
    for m in range(2):
        h.ensure(s[m].shape[0] == n[ax], 'one_value_per_cell')

        def body(i):
            x = depth(h, i, n[ax], t[ax], m == 0)
            outside = bool(i >= t[ax]) and bool(i < n[ax] - t[ax])
            v = s[m][i]
            if outside: h.eq(v, 1, 'exactly_one_outside')
            else:
                h.ensure(x >= 0, 'depth_nonnegative')
                h.ensure(x <= 1, 'depth_at_most_one')
                h.eq(v, 1 + 1j * amp * power(x, p), 'stretch')
        h.forall('i', [(0, n[ax])], body)


@spec('C15', functions=[FDF + 'FDFD.scpml', FDF + 'FDFD.__init__'], budget=200)
def loss_sign_and_growth(h):
    """the loss has one sign (that of log R) and its magnitude never decreases towards either end of an axis"""
    t, n, sp = sizes(h, 1)
    p = h.choice('exponent', EXP)
    r = h.real('log_reflectivity', lo=-30, hi=-1)
    lam = h.real('wavelength', lo=0.5, hi=2)
    gr = h.mod(FD).FDFD((n[0] * sp[0],), (sp[0],), wavelength=lam, pml=(t[0] * sp[0],), pml_params=(p, r, 1.0))
    m = h.choice('placement', [0, 1])

    def D(i): return depth(h, i, n[0], t[0], m == 0)

    def body(i):
        if bool(i + 1 < t[0]): h.ensure(D(i) > D(i + 1), 'grows_towards_the_start')
        if bool(i >= n[0] - t[0]) and bool(i + 1 < n[0]): h.ensure(D(i + 1) > D(i), 'grows_towards_the_end')
        if bool(i + 1 < t[0]) or (bool(i >= n[0] - t[0]) and bool(i + 1 < n[0])):
            # s = 1 + i A depth^p with A < 0, so the growth of the loss follows from that of the depth
            s = gr.scpml(0)[m]
            a = (s[i] - 1) / (1j * (p + 1) * r / (2 * gr.k0))
            b = (s[i + 1] - 1) / (1j * (p + 1) * r / (2 * gr.k0))
            h.eq(a, power(D(i), p), 'loss_is_a_power_of_depth')
            h.eq(b, power(D(i + 1), p), 'loss_is_a_power_of_depth')
    h.forall('i', [(0, n[0])], body)
    h.ensure(r / (2 * gr.k0) < 0, 'one_sign')


@spec('C15', functions=[FDF + 'FDFD.__init__', FDF + 'FDFD.scpml'], budget=200)
def widths_are_stretched(h):
    """the widths of every cell, at both placements, are the cell width times the stretch of its own axis (one without an absorber)"""
    d = h.choice('dim', [1, 2, 3])
    t, n, sp = sizes(h, d)
    n3 = [n[k] if k < d else 1 for k in range(3)]
    on = h.flag('pml')
    kw = dict(pml=tuple(a * b for a, b in zip(t, sp))) if on else {}
    gr = h.mod(FD).FDFD(tuple(a * b for a, b in zip(n, sp)), tuple(sp), wavelength=h.real('wavelength', lo=0.5, hi=2), **kw)
    h.ensure((gr.pml_shape is None) == (not on), 'absorber_present')
    s = [gr.scpml(k) if on else None for k in range(d)]

    def body(*i):
        for k in range(3):
            for m in range(2):
                h.eq(gr._dxes[m][k][i], sp[k] * (s[k][m][i[k]] if on else 1) if k < d else 1, 'width')
    h.forall('i', [(0, x) for x in n3], body)


@spec('C15', functions=[FDF + 'FDFD.from_simgrid'], budget=200)
def from_grid_keeps_the_absorber(h):
    d = h.choice('dim', [1, 2, 3])
    t, n, sp = sizes(h, d)
    sg = h.mod('simphox.sim').SimGrid(tuple(a * b for a, b in zip(n, sp)), tuple(sp), pml=tuple(a * b for a, b in zip(t, sp)))
    lam = h.real('wavelength', lo=0.5, hi=2)
    gr = h.mod(FD).FDFD.from_simgrid(sg, lam)
    for k in range(d):
        h.ensure(gr.pml_shape[k] == t[k], 'same_thickness')
        h.ensure(gr.shape[k] == n[k], 'same_grid')
    h.eq(gr.k0 * lam, 2 * h.pi, 'wavelength')


@spec('C15', functions=[UF + 'pml_sigma'], budget=200)
def time_domain_conductivity(h):
    u = h.mod('simphox.utils')
    n, t = h.int('n', lo=8, chi=14), h.int('t', lo=1, chi=5)
    h.assume(2 * t < n)
    s = h.real('s', pos=True)
    p, r, pe = params(h)
    pos = h.np.arange(n + 1) * s
    out = u.pml_sigma(pos, thickness=t, exp_scale=p, log_reflection=r, absorption_corr=pe)
    h.ensure(out.shape[0] == 2, 'two_placements')
    for m in range(2):
        h.ensure(out[m].shape[0] == n, 'one_value_per_cell')
        def body(i):
            x = depth(h, i, n, t, m == 0)
            h.eq(out[m][i], (p + 1) * power(x, p) * r / (2 * pe), 'profile')
        h.forall('i', [(0, n)], body)


@spec('C15', functions=[TDF + 'FDTD._set_pml'], budget=300)
def time_domain_coefficients(h):
    """b = exp(-(sigma + 1e-8) dt) and c = (b - 1) sigma / (sigma + 1e-8) with sigma >= 0 inside the layer of the region's own axis; elsewhere sigma = 0 (so c = 0)"""
    d = h.choice('dim', [1, 2, 3])
    gr, n3, t, e3 = pml_grid(h, d, False)
    k, m, a = h.choice('region', list(range(2 * d))), h.choice('placement', [0, 1]), h.choice('axis', [0, 1, 2])
    ax, end = k // 2, k % 2
    h.ensure(len(gr.cpml_b) == 2 * d and len(gr.cpml_c) == 2 * d, 'one_per_region')
    B, C = gr.cpml_b[k][m, a], gr.cpml_c[k][m, a]
    w = [t[ax] if q == ax else n3[q] for q in range(3)]
    al = 1e-8

    def body(*i):
        g = i[ax] + (0 if end == 0 else n3[ax] - t[ax])
        s = 0
        if a == ax:
            x = depth(h, g, n3[ax], t[ax], m == 0)
            h.ensure(x >= 0, 'depth')
            s = gr.sigma[ax][m][g]
            h.eq(s, (3 + 1) * power(x, 3) * 25 / 2, 'conductivity')
        h.eq(B[i], h.np.exp(-(al + s) * gr.dt), 'decay')
        h.eq(C[i] * (s + al), (B[i] - 1) * s, 'gain')
    h.forall('i', [(0, x) for x in w], body)


@spec('C15', functions=[TDF + 'FDTD._set_pml'], trials=20, sym=False)
def never_amplifies(h):
    """|b| < 1 and -1 <= c <= 0 (from the formulas above, on machine numbers)"""
    d = h.choice('dim', [1, 2, 3])
    gr, n3, t, e3 = pml_grid(h, d, False)
    np = h.np
    for b, c in zip(gr.cpml_b, gr.cpml_c):
        h.ensure(np.all(np.abs(b) < 1) and np.all(np.isreal(b)) and np.all(b.real > 0), 'decaying')
        h.ensure(np.all(c.real <= 0) and np.all(c.real >= -1) and np.all(np.isreal(c)), 'memory_gain')
