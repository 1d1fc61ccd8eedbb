"""C16: waveguide mode operators and modes."""
from engine.runner import spec
from specs.c07 import GF, UF, box
from specs.c09 import stencil, flat
from specs.c10 import curl_ref, comp, widths
from specs.c11 import eps_ref

MD = 'simphox.mode'
MF = 'simphox/mode.py:'


def solver(h, d, chi=4, any_widths=True):
    size, arg, n, sp = box(h, d, chi=chi, split=True)
    n3 = [n[k] if k < d else 1 for k in range(3)]
    eps = h.array('eps', tuple(n), kind='f', pos=True)
    lam = h.real('wavelength', lo=0.5, hi=2.0)
    gr = h.mod(MD).ModeSolver(size, arg, wavelength=lam, eps=eps)
    h.eq(gr.k0 * lam, 2 * h.pi, 'wavenumber')
    if any_widths: widths(h, gr, n3)
    return gr, n3, eps.reshape(tuple(n3))


@spec('C16', functions=[MF + 'ModeSolver.waveguide_mode_matrix', GF + 'YeeGrid.deriv'], budget=200)
def operator_1d(h):
    """C = forward(backward) second difference plus k0^2 eps"""
    gr, n3, e3 = solver(h, 1)
    v = h.array('v', (gr.n,), kind='c')
    out = (gr.C if h.flag('alias') else gr.waveguide_mode_matrix) @ v
    f = lambda *q: v[flat(n3, *q)]

    def body(i):
        dd = stencil(h, gr, 1, n3, lambda *q: stencil(h, gr, 1, n3, f, 0, True, q), 0, False, (i, 0, 0))
        h.eq(out[i], dd + gr.k0 ** 2 * e3[i, 0, 0] * v[i], 'operator')
    h.forall('i', [(0, n3[0])], body)


def op2(h, gr, n3, e3, v, c, i):
    """component c of the 2D mode operator at cell i: k0^2 eps h + eps curl(1/eps_z curl h)_z + gradient of the divergence, eps of the electric component in the other direction"""
    f = comp(v, n3)
    w = lambda *q: (stencil(h, gr, 2, n3, f[1], 0, True, q) - stencil(h, gr, 2, n3, f[0], 1, True, q)) / eps_ref(e3, n3, 2, q)
    dv = lambda *q: stencil(h, gr, 2, n3, f[0], 0, False, q) + stencil(h, gr, 2, n3, f[1], 1, False, q)
    ep = eps_ref(e3, n3, 1 - c, i)
    rot = stencil(h, gr, 2, n3, w, 1 - c, False, i) * (-1 if c == 0 else 1)
    return gr.k0 ** 2 * ep * f[c](*i) + ep * rot + stencil(h, gr, 2, n3, dv, c, True, i)


@spec('C16', functions=[MF + 'ModeSolver.waveguide_mode_matrix', GF + 'YeeGrid.deriv', GF + 'YeeGrid.eps_t'], budget=300)
def operator_2d(h):
    c = h.choice('component', [0, 1])
    gr, n3, e3 = solver(h, 2)
    v = h.array('v', (2 * gr.n,), kind='c')
    out = gr.waveguide_mode_matrix @ v
    h.ensure(out.shape[0] == 2 * gr.n, 'size')
    h.forall('i', [(0, x) for x in n3], lambda *i: h.eq(out[flat(n3, *i, c)], op2(h, gr, n3, e3, v, c, i), 'operator'))


@spec('C16', functions=[MF + 'ModeSolver.waveguide_mode_matrix'])
def three_dimensions_rejected(h):
    size, arg, n, sp = box(h, 3, chi=3)
    gr = h.mod(MD).ModeSolver(size, arg)
    h.raises(lambda: gr.waveguide_mode_matrix, AttributeError, 'rejected')


@spec('C16', functions=[MF + 'ModeSolver.e2h', MF + 'ModeSolver.h2e', GF + 'YeeGrid.curl_fn', UF + 'curl_fn'], budget=300)
def field_conversion(h):
    """h2e is the curl (z difference -i beta) over i k0 eps and e2h the curl over i k0, for grid-shaped and flattened fields"""
    d, c = h.choice('dim', [1, 2]), h.choice('component', [0, 1, 2])
    gr, n3, e3 = solver(h, d)
    f = h.array('f', (3,) + tuple(n3), kind='c')
    a = f.ravel() if h.flag('flat') else f
    beta = h.real('beta')
    H, E = gr.e2h(a, beta), gr.h2e(a, beta)

    def D(m, ax, back, i): return -1j * beta * f[(m,) + i] if ax == 2 else stencil(h, gr, d, n3, lambda *q: f[(m,) + q], ax, back, i)

    def curl(back, i):
        p, q = (c + 1) % 3, (c + 2) % 3
        return D(q, p, back, i) - D(p, q, back, i)

    def body(*i):
        h.eq(H[(c,) + i] * 1j * gr.k0, curl(False, i), 'e2h')
        h.eq(E[(c,) + i] * 1j * gr.k0 * eps_ref(e3, n3, c, i), curl(True, i), 'h2e')
    h.forall('i', [(0, x) for x in n3], body)


class Eigs:
    """contract of the sparse eigensolver: any eigenvalues and eigenvectors, recorded with the request"""
    def __init__(self, vals, vecs): self.vals, self.vecs, self.calls = vals, vecs, []
    def __call__(self, A, k=6, M=None, sigma=None, which='LM', v0=None, **kw):
        self.calls.append((A, dict(k=k, sigma=sigma, which=which, v0=v0)))
        return self.vals, self.vecs


def eigenpairs(h, n, k):
    s = [h.flag(f'guided{q}') for q in range(k)]
    vals = [h.real(f'lam{q}', pos=True, lo=None if h.symbolic else 0.1) * (1 if s[q] else -1) for q in range(k)]
    if h.symbolic:
        for q in range(k):
            for p in range(q): h.assume((vals[q] < vals[p]) | (vals[p] < vals[q]))
    v = h.np.array([x for x in vals])
    return s, vals, Eigs(v if h.symbolic else v.astype(complex), h.array('vecs', (n, k), kind='c'))


@spec('C16', functions=[MF + 'ModeSolver.solve'], budget=300, bounded='every grid, eigenvalue and eigenvector; up to three eigenpairs')
def solve_pairs_modes_with_constants(h):
    """guided eigenpairs only, by decreasing constant, beta = sqrt(eigenvalue), each with its own eigenvector up to a phase (and hz from the divergence condition in 2D).
    Number of eigenpairs up to 3."""
    d = h.choice('dim', [1, 2])
    gr, n3, e3 = solver(h, d, chi=3, any_widths=False)
    k = h.choice('pairs', [1, 2, 3])
    h.assume(gr.n > 1)
    s, vals, eg = eigenpairs(h, d * gr.n, k)
    h.override(MD, 'eigs', eg)
    guess = h.real('guess', lo=0.5, hi=3) if h.flag('has_guess') else None
    betas, modes = gr.solve(k, guess)
    M = sum(s)
    h.ensure(betas.shape[0] == M, 'one_constant_per_guided_mode')
    h.ensure(modes.shape[0] == M, 'one_mode_per_constant')
    kw = eg.calls[0][1]
    h.ensure(len(eg.calls) == 1 and kw['k'] == k, 'number_requested')
    mx = h.np.max(gr.eps)
    if guess is not None: h.eq(kw['sigma'], guess * guess, 'search_near_the_guess')
    else: h.eq(kw['sigma'], gr.k0 ** 2 * mx, 'search_near_the_largest_index')
    order = [q for q in range(k) if s[q]]
    import functools
    order.sort(key=functools.cmp_to_key(lambda a, b: 1 if bool(vals[a] < vals[b]) else -1))
    for r, q in enumerate(order):
        h.eq(betas[r] * betas[r], vals[q], 'constant_is_the_root_of_the_eigenvalue')
        h.ensure(betas[r] > 0, 'positive_constant')
        if r: h.ensure(betas[r - 1] >= betas[r], 'decreasing')
        # proportional to its own eigenvector, with a unit factor: cross products and lengths
        def body(i):
            h.eq(modes[r, i] * h.np.conj(modes[r, i]), eg.vecs[i, q] * h.np.conj(eg.vecs[i, q]), 'own_eigenvector_up_to_a_phase')
            h.eq(modes[r, i] * eg.vecs[0, q], modes[r, 0] * eg.vecs[i, q], 'own_eigenvector_up_to_a_phase')
        h.forall(f'i{r}', [(0, d * gr.n)], body)


@spec('C16', functions=[MF + 'ModeSolver.solve'], budget=300)
def solve_longitudinal_field(h):
    """hz = (forward divergence of (hx, hy)) / (i beta), with the same phase factor"""
    gr, n3, e3 = solver(h, 2, chi=3)
    h.assume(gr.n > 1)
    lam = h.real('lam', pos=True)
    eg = Eigs(h.np.array([lam]) if h.symbolic else h.np.array([lam], dtype=complex), h.array('vecs', (2 * gr.n, 1), kind='c'))
    h.override(MD, 'eigs', eg)
    betas, modes = gr.solve(1)
    h.ensure(modes.shape[1] == 3 * gr.n, 'three_components')
    x, y, z = comp(modes[0], n3)

    def body(*i):
        dv = stencil(h, gr, 2, n3, x, 0, False, i) + stencil(h, gr, 2, n3, y, 1, False, i)
        h.eq(z(*i) * 1j * betas[0], dv, 'divergence_condition')
    h.forall('i', [(0, q) for q in n3], body)


@spec('C16', functions=[MF + 'ModeSolver.waveguide_mode_matrix', MF + 'ModeSolver.h2e', MF + 'ModeSolver.solve'], budget=400)
def eigenmodes_satisfy_maxwell(h):
    """for every transverse field v and constant beta, with hz from the divergence condition and e = h2e(h):
    i k0 eps (curl e + i k0 h) equals beta^2 v - C v on the transverse components, so eigenpairs satisfy curl e = -i k0 h"""
    c = h.choice('component', [0, 1])
    gr, n3, _ = solver(h, 2, chi=3)
    et = h.array('eps_t', (3,) + tuple(n3), kind='f', pos=True)   # any permittivity at the positions of the components
    gr.__class__ = type('AnyEps', (type(gr),), dict(eps_t=property(lambda self: et)))
    eps_ref = lambda e3, n3, m, q: et[(m,) + tuple(q)]
    e3 = None
    v = h.array('v', (2 * gr.n,), kind='c')
    beta = h.real('beta', pos=True, lo=None if h.symbolic else 0.3)
    f = comp(v, n3)
    hz = lambda *q: (stencil(h, gr, 2, n3, f[0], 0, False, q) + stencil(h, gr, 2, n3, f[1], 1, False, q)) / (1j * beta)
    H = [f[0], f[1], hz]

    def DH(m, ax, q): return -1j * beta * H[m](*q) if ax == 2 else stencil(h, gr, 2, n3, H[m], ax, True, q)
    # the contract of h2e (field_conversion)
    E = [lambda *q, m=m: (DH((m + 2) % 3, (m + 1) % 3, q) - DH((m + 1) % 3, (m + 2) % 3, q)) / (1j * gr.k0 * eps_ref(e3, n3, m, q)) for m in range(3)]
    out = gr.waveguide_mode_matrix @ v

    def body(*i):
        a, b = (c + 1) % 3, (c + 2) % 3
        def DE(m, ax): return -1j * beta * E[m](*i) if ax == 2 else stencil(h, gr, 2, n3, E[m], ax, False, i)
        r = DE(b, a) - DE(a, b) + 1j * gr.k0 * H[c](*i)
        h.eq(1j * gr.k0 * eps_ref(e3, n3, 1 - c, i) * r, beta ** 2 * f[c](*i) - out[flat(n3, *i, c)], 'residual_is_that_of_the_eigenproblem')
    h.forall('i', [(0, x) for x in n3], body)


@spec('C16', functions=[MF + 'ModeSolver.dispersion_sweep'])
def dispersion(h):
    """one solve per wavelength, in order, each at its wavelength, asking for m modes; the solver keeps its own wavelength"""
    gr, n3, e3 = solver(h, h.choice('dim', [1, 2]), chi=3, any_widths=False)
    w = [h.real(f'w{k}', lo=0.5, hi=2) for k in range(h.choice('count', [0, 1, 3]))]
    m = h.int('m', lo=1, chi=4)
    seen = []
    h.standin(gr, 'solve', lambda max_num_modes, beta_guess: seen.append((gr.wavelength, max_num_modes, beta_guess)) or len(seen))
    l0 = gr.wavelength
    bar = []
    out = gr.dispersion_sweep(w, m, **(dict(pbar=lambda x: bar.append(1) or x) if h.flag('bar') else {})) if h.flag('given') else gr.dispersion_sweep(h.np.array(w) if w and not h.symbolic else w, m=m)
    h.ensure(list(out) == list(range(1, len(w) + 1)), 'solutions_in_order')
    h.ensure(len(seen) == len(w), 'one_solve_per_wavelength')
    for (a, b, c), x in zip(seen, w):
        h.eq(a, x, 'solved_at_its_wavelength')
        h.ensure(b == m, 'number_of_modes')
        h.ensure(c is None, 'no_guess')
    h.eq(gr.wavelength, l0, 'own_wavelength_kept')


class Fixed:
    """solver of a given dimension whose solutions are given (contract of solve: any constants and modes)"""
    def __init__(self, h, gr, betas, modes):
        self.calls = []
        h.standin(gr, 'solve', lambda max_num_modes: (self.calls.append((gr.wavelength, max_num_modes)), (betas, modes))[1])


def index(h, M, name='mode'):
    q = h.int(name, lo=0, chi=None if h.symbolic else int(M) - 1)
    h.assume(q < M)
    return q


def library(h, d, chi=4, M=None):
    gr, n3, e3 = solver(h, d, chi=chi)
    M = M or h.int('modes', lo=1, chi=3)
    b = h.array('beta', (M,), pos=True)
    modes = h.array('modes', (M, gr.n if d == 1 else 3 * gr.n), kind='c')
    h.assume(gr.n > 1)
    fx = Fixed(h, gr, b, modes)
    return h.mod(MD).ModeLibrary(gr, h.int('most', lo=1, chi=6)), gr, n3, e3, b, modes, M, fx


@spec('C16', functions=[MF + 'ModeLibrary.h', MF + 'ModeLibrary.e'], budget=300)
def library_fields_1d(h):
    """1D cross sections: TM modes h = (0, phi, 0) with i k0 eps e = curl h, TE modes e = (0, phi, 0) with i k0 h = curl e, for the dependence exp(-i beta x) along the axis of propagation"""
    c = h.choice('component', [0, 1, 2])
    lib, gr, n3, e3, b, modes, M, fx = library(h, 1)
    q = index(h, M)
    tm = h.flag('tm')
    H, E = (lib.h(q, tm), lib.e(q, tm)) if h.flag('positional') else (lib.h(mode_idx=q, tm_2d=tm), lib.e(mode_idx=q, tm_2d=tm))
    phi = lambda i: modes[q, i]

    def body(i):
        P, Q = (H, E) if tm else (E, H)
        h.eq(P[c, i, 0, 0], phi(i) if c == 1 else 0, 'given_component')
        k = i + 1 if tm else i - 1
        k = h.np.where(k < 0, n3[0] - 1, h.np.where(k >= n3[0], 0, k)) if not h.symbolic else ((i + 1 if bool(i + 1 < n3[0]) else 0) if tm else (i - 1 if bool(i > 0) else n3[0] - 1))
        diff = (phi(k) - phi(i)) if tm else (phi(i) - phi(k))
        cu = [1j * b[q] * phi(i), 0, -diff / gr.cells[0][i]][c]
        fac = 1j * gr.k0 * (eps_ref(e3, n3, c, (i, 0, 0)) if tm else 1)
        h.eq(Q[c, i, 0, 0] * fac, cu, 'converted_component')
    h.forall('i', [(0, n3[0])], body)


@spec('C16', functions=[MF + 'ModeLibrary.h', MF + 'ModeLibrary.e', MF + 'ModeSolver.h2e'], budget=300)
def library_fields_2d(h):
    """2D cross sections: h is the solved mode on the grid, e = curl h / (i k0 eps) with the constant of the same mode"""
    c = h.choice('component', [0, 1, 2])
    lib, gr, n3, e3, b, modes, M, fx = library(h, 2, chi=3)
    q = index(h, M)
    H, E = lib.h(q), lib.e(q)

    def f(m, i): return modes[(q,) + (flat(n3, *i, m),)]
    def D(m, ax, i): return -1j * b[q] * f(m, i) if ax == 2 else stencil(h, gr, 2, n3, lambda *p: f(m, p), ax, True, i)

    def body(*i):
        u, v = (c + 1) % 3, (c + 2) % 3
        h.eq(H[(c,) + i], f(c, i), 'magnetic_field')
        h.eq(E[(c,) + i] * 1j * gr.k0 * eps_ref(e3, n3, c, i), D(v, u, i) - D(u, v, i), 'electric_field')
    h.forall('i', [(0, x) for x in n3], body)


@spec('C16', functions=[MF + 'ModeLibrary.__init__', MF + 'ModeLibrary._update_solve', MF + 'ModeLibrary.update_wavelength', MF + 'ModeLibrary._check_num_modes',
                        MF + 'ModeLibrary.beta', MF + 'ModeLibrary.n', MF + 'ModeLibrary.ns', MF + 'ModeLibrary.phase', MF + 'ModeLibrary.beat_length', MF + 'ModeLibrary.dn', MF + 'ModeLibrary.dbeta'], budget=200)
def library_constants(h):
    """n = beta / k0, phase = beta L, beat length 2 pi / (difference), indices past the guided modes are rejected, and a new wavelength solves again"""
    d = h.choice('dim', [1, 2])
    lib, gr, n3, e3, b, modes, M, fx = library(h, d, chi=3)
    h.ensure(lib.m == M, 'number_of_modes'), h.ensure(lib.num_modes == M, 'number_of_modes')
    h.ensure(len(fx.calls) == 1, 'solved_once')
    h.ensure(fx.calls[0][1] == lib.max_num_modes, 'most_modes')
    q, L = index(h, M), h.real('L')
    h.eq(lib.beta(q), b[q], 'constant')
    h.eq(lib.n(q) * gr.k0, b[q], 'index')
    h.eq(lib.ns[q] * gr.k0, b[q], 'index')
    h.eq(lib.phase(L, q), b[q] * L, 'phase')
    past = M + h.int('past', lo=0, chi=3)
    for g in (lib.beta, lib.n, lib.h, lib.e, lib.sz): h.raises(lambda: g(past), ValueError, 'past_the_guided_modes')
    if bool(M > 1):
        h.eq(lib.dbeta, b[0] - b[1], 'difference')
        h.eq(lib.dn * gr.k0, b[0] - b[1], 'difference')
        p = index(h, M, 'other')
        h.assume((b[q] < b[p]) | (b[p] < b[q]))
        h.eq(lib.beat_length(q, p) * (b[q] - b[p]), 2 * h.pi, 'beat')
    w = h.real('w', lo=0.5, hi=2)
    r = lib.update_wavelength(w)
    h.ensure(r is lib, 'returns_itself')
    h.ensure(len(fx.calls) == 2, 'solved_again')
    h.eq(fx.calls[1][0], w, 'at_the_new_wavelength')
    h.eq(lib.n(0) * 2 * h.pi, b[0] * w, 'index_at_the_new_wavelength')
