"""C11: frequency-domain operator and fields."""
import types
from engine.runner import spec
from specs.c07 import G, GF, UF, box
from specs.c09 import stencil, flat
from specs.c10 import curl_ref, comp, widths

FD = 'simphox.fdfd'
FDF = 'simphox/fdfd.py:'


def fdfd(h, d, chi=3, eps_kind='f', absorber=True, bloch=True, cls=None):
    f = h.mod(FD)
    size, arg, n, sp = box(h, d, chi=chi, split=True)
    n3 = [n[k] if k < d else 1 for k in range(3)]
    eps = h.array('eps', tuple(n), kind='f', pos=True)
    lam = h.real('wavelength', lo=0.5, hi=2.0)
    kw = dict(bloch_phase=tuple(h.real(f'ph{k}', special=(0.0,)) for k in range(d))) if bloch else {}
    gr = (cls or f.FDFD)(size, arg, wavelength=lam, eps=eps, **kw)
    if absorber: widths(h, gr, n3)
    e3 = eps.reshape(tuple(n3))
    return gr, n, n3, lam, e3


def shift(i, n): return i - 1 if bool(i > 0) else n - 1


def eps_ref(e3, n3, c, i):
    """permittivity averaged onto the position of component c: with the lower neighbours across (x: y; y: x; z: both)"""
    a, b, k = i
    am, bm = shift(a, n3[0]), shift(b, n3[1])
    if c == 0: return (e3[a, b, k] + e3[a, bm, k]) / 2
    if c == 1: return (e3[a, b, k] + e3[am, b, k]) / 2
    return (e3[a, b, k] + e3[am, b, k] + e3[a, bm, k] + e3[am, bm, k]) / 4


def memo(h, f):
    """values of a stencil as a function of the position"""
    return f


def curlcurl_ref(h, gr, d, n3, v, c, i):
    """component c of the magnetic curl of the electric curl of the flat field v"""
    e = [lambda *q, m=m: curl_ref(h, gr, d, n3, comp(v, n3), False, m, q) for m in range(3)]
    return curl_ref(h, gr, d, n3, e, True, c, i)


def laplace_ref(h, gr, d, n3, v, i, w=(1, 1)):
    """sum over x, y of backward difference of (weight times forward difference)"""
    t = 0
    for a in range(2):
        wa = w[a] if callable(w[a]) else (lambda *q: 1)
        t = t + stencil(h, gr, d, n3, lambda *q: wa(*q) * stencil(h, gr, d, n3, lambda *s: v[flat(n3, *s)], a, False, q), a, True, i)
    return t


@spec('C11', functions=[FDF + 'FDFD.__init__', GF + 'YeeGrid.eps_t', UF + 'yee_avg', UF + 'yee_avg_jax', UF + 'yee_avg_2d_z'])
def averaged_permittivity(h):
    f, u = h.mod(FD), h.mod('simphox.utils')
    d = h.choice('dim', [1, 2, 3])
    gr, n, n3, lam, e3 = fdfd(h, d, absorber=False)
    h.eq(gr.k0, 2 * h.pi / lam, 'wavenumber')
    t = gr.eps_t
    j = u.yee_avg_jax(h.jnp.array(e3))
    z = u.yee_avg_2d_z(h.jnp.array(e3))

    def body(*i):
        for c in range(3):
            h.eq(t[(c,) + i], eps_ref(e3, n3, c, i), 'average')
            h.eq(j[(c,) + i], eps_ref(e3, n3, c, i), 'average_jax', tol=1e-5)
        h.eq(z[i], eps_ref(e3, n3, 2, i), 'average_z', tol=1e-5)
    h.forall('i', [(0, m) for m in n3], body)


@spec('C11', functions=[FDF + 'FDFD.mat', UF + 'd2curl_op', GF + 'YeeGrid.deriv'], budget=400)
def full_operator(h):
    """A = curl curl - k0^2 eps, for every shape, permittivity, width (absorber) and Bloch phase"""
    d, c = h.choice('dim', [1, 2, 3]), h.choice('component', [0, 1, 2])
    gr, n, n3, lam, e3 = fdfd(h, d, bloch=h.symbolic or h.flag('bloch'))
    v = h.array('v', (3 * gr.n,), kind='c')
    out = gr.mat @ v
    h.ensure(out.shape[0] == 3 * gr.n, 'size')
    h.forall('i', [(0, m) for m in n3],
             lambda *i: h.eq(out[flat(n3, *i, c)], curlcurl_ref(h, gr, d, n3, v, c, i) - gr.k0 ** 2 * eps_ref(e3, n3, c, i) * v[flat(n3, *i, c)], 'operator'))


@spec('C11', functions=[FDF + 'FDFD.mat_ez', GF + 'YeeGrid.deriv'], budget=240)
def ez_operator(h):
    d = h.choice('dim', [1, 2])
    gr, n, n3, lam, e3 = fdfd(h, d)
    v = h.array('v', (gr.n,), kind='c')
    out = gr.mat_ez @ v
    h.forall('i', [(0, m) for m in n3],
             lambda *i: h.eq(out[flat(n3, *i)], -laplace_ref(h, gr, d, n3, v, i) - gr.k0 ** 2 * eps_ref(e3, n3, 2, i) * v[flat(n3, *i)], 'operator'))


@spec('C11', functions=[FDF + 'FDFD.mat_hz', GF + 'YeeGrid.deriv'], budget=240)
def hz_operator(h):
    """differences of hz weighted by the inverse permittivity of the electric component they give (x: e_y, y: e_x), minus k0^2"""
    d = h.choice('dim', [1, 2])
    gr, n, n3, lam, e3 = fdfd(h, d)
    v = h.array('v', (gr.n,), kind='c')
    out = gr.mat_hz @ v
    w = (lambda *q: 1 / eps_ref(e3, n3, 1, q), lambda *q: 1 / eps_ref(e3, n3, 0, q))
    h.forall('i', [(0, m) for m in n3],
             lambda *i: h.eq(out[flat(n3, *i)], -laplace_ref(h, gr, d, n3, v, i, w) - gr.k0 ** 2 * v[flat(n3, *i)], 'operator'))


class Solver:
    """the contract of a linear solver: any vector x, recorded with the system it was asked for"""
    def __init__(self, h, n):
        self.x = h.array('x', (n,), kind='c')
        self.calls = []

    def __call__(self, a, b):
        self.calls.append((a, b))
        return self.x.copy()


def solved(h, gr, n_unknown, src, **kw):
    s = Solver(h, n_unknown)
    f = gr.solve(src, solver_fn=s, **kw)
    h.ensure(len(s.calls) == 1, 'one_linear_solve')
    return f, s.x, s.calls[0][0], s.calls[0][1]


@spec('C11', functions=[FDF + 'FDFD.solve', FDF + 'FDFD.mat', GF + 'YeeGrid.curl_fn', GF + 'YeeGrid.diff_fn', GF + 'Grid.reshape'], budget=400)
def solve_3d(h):
    """the solved e, and i k0 h = curl e, in every cell"""
    c = h.choice('component', [0, 1, 2])
    gr, n, n3, lam, e3 = fdfd(h, 3)
    src = h.array('src', (3 * gr.n,), kind='c')
    f, x, a, b = solved(h, gr, 3 * gr.n, src)
    k0 = gr.k0
    h.ensure(f.ndim == 5, 'shape')
    h.eq(b, k0 * src, 'right_hand_side')

    def body(*i):
        h.eq(f[(0, c) + i], x[flat(n3, *i, c)], 'electric_field_is_the_solution')
        h.eq(f[(1, c) + i] * 1j * k0, curl_ref(h, gr, 3, n3, comp(x, n3), False, c, i), 'magnetic_field_is_the_curl')
    h.forall('i', [(0, m) for m in n3], body)


@spec('C11', functions=[FDF + 'FDFD.solve', FDF + 'FDFD.mat'], budget=240)
def solve_3d_system(h):
    """the system solved is the operator curl curl - k0^2 eps (full_operator), so its residual is that of Maxwell's equation"""
    c = h.choice('component', [0, 1, 2])
    gr, n, n3, lam, e3 = fdfd(h, 3, bloch=not h.symbolic)
    src = h.array('src', (3 * gr.n,), kind='c')
    f, x, a, b = solved(h, gr, 3 * gr.n, src)
    y, m = h.array('y', (3 * gr.n,), kind='c'), gr.mat
    p, q = a @ y, m @ y
    h.forall('i', [(0, m) for m in n3], lambda *i: h.eq(p[flat(n3, *i, c)], q[flat(n3, *i, c)], 'solves_the_full_operator'))


@spec('C11', functions=[FDF + 'FDFD.solve', FDF + 'FDFD.mat_ez', GF + 'YeeGrid.diff_fn'], budget=240)
def solve_2d_ez(h):
    d = h.choice('dim', [1, 2])
    gr, n, n3, lam, e3 = fdfd(h, d)
    src = h.array('src', (gr.n,), kind='c')
    f, x, a, b = solved(h, gr, gr.n, src, tm_2d=False)
    k0 = gr.k0
    h.eq(b, k0 * src, 'right_hand_side')
    r = a @ x
    hc = [lambda *q, m=m: f[(1, m) + q] for m in range(3)]
    ec = [lambda *q, m=m: f[(0, m) + q] for m in range(3)]

    def body(*i):
        h.eq(f[(0, 2) + i], x[flat(n3, *i)], 'ez_is_the_solution')
        for c in range(2): h.eq(f[(0, c) + i], 0, 'only_ez')
        for c in range(3): h.eq(f[(1, c) + i] * 1j * k0, curl_ref(h, gr, d, n3, ec, False, c, i), 'magnetic_field_is_the_curl')
        h.eq(1j * k0 * curl_ref(h, gr, d, n3, hc, True, 2, i) - k0 ** 2 * eps_ref(e3, n3, 2, i) * x[flat(n3, *i)], r[flat(n3, *i)], 'system_is_maxwell')
    h.forall('i', [(0, m) for m in n3], body)


@spec('C11', functions=[FDF + 'FDFD.solve', FDF + 'FDFD.mat_hz', GF + 'YeeGrid.diff_fn'], budget=240)
def solve_2d_hz(h):
    """the solved hz and the electric field that is its curl over the permittivity"""
    d, c = h.choice('dim', [1, 2]), h.choice('component', [0, 1, 2])
    gr, n, n3, lam, e3 = fdfd(h, d)
    src = h.array('src', (gr.n,), kind='c')
    f, x, a, b = solved(h, gr, gr.n, src, tm_2d=True)
    h.eq(b, gr.k0 * src, 'right_hand_side')
    y, m = h.array('y', (gr.n,), kind='c'), gr.mat_hz
    p, q = a @ y, m @ y
    h.forall('k', [(0, k) for k in n3], lambda *i: h.eq(p[flat(n3, *i)], q[flat(n3, *i)], 'solves_the_hz_operator'))
    hc = [lambda *q, m=m: f[(1, m) + q] for m in range(3)]

    def body(*i):
        h.eq(f[(1, 2) + i], x[flat(n3, *i)], 'hz_is_the_solution')
        if c < 2: h.eq(f[(1, c) + i], 0, 'only_hz')
        h.eq(f[(0, c) + i] * 1j * gr.k0 * eps_ref(e3, n3, c, i), curl_ref(h, gr, d, n3, hc, True, c, i), 'electric_field_is_the_curl')
    h.forall('i', [(0, m) for m in n3], body)


@spec('C11', functions=[FDF + 'FDFD.solve'])
def source_as_field(h):
    """a source given as an array over the grid (for each component in 3D) is that of its cells"""
    d, tm = h.choice('dim', [2, 3]), h.flag('tm')
    gr, n, n3, lam, e3 = fdfd(h, d, absorber=False, bloch=False)
    src = h.array('src', ((3,) if d == 3 else ()) + tuple(n3), kind='c')
    m = (3 if d == 3 else 1) * gr.n
    s = Solver(h, m)
    gr.solve(src, solver_fn=s, tm_2d=tm)
    b = s.calls[0][1]
    h.ensure((b.ndim == 1) & (b.shape[0] == m), 'one_entry_per_unknown')

    def body(*i):
        if d == 3:
            for c in range(3): h.eq(b[flat(n3, *i, c)], gr.k0 * src[(c,) + i], 'source_of_the_cell')
        else: h.eq(b[flat(n3, *i)], gr.k0 * src[i], 'source_of_the_cell')
    h.forall('i', [(0, k) for k in n3], body)


@spec('C11', functions=[FDF + 'FDFD.solve'])
def default_solver(h):
    """without a solver argument the direct solver is asked for the same system"""
    d = h.choice('dim', [1, 2, 3])
    gr, n, n3, lam, e3 = fdfd(h, d, absorber=False, bloch=False)
    m = (3 if d == 3 else 1) * gr.n
    src = h.array('src', (m,), kind='c')
    s = Solver(h, m)
    h.override(FD, 'spsolve_pardiso', s)
    f = gr.solve(src)
    h.ensure(len(s.calls) == 1, 'one_linear_solve')
    h.eq(s.calls[0][1], gr.k0 * src, 'right_hand_side')
    g = gr.solve(src, solver_fn=s)
    h.forall('i', [(0, k) for k in n3], lambda *i: [h.eq(f[(q, c) + i], g[(q, c) + i], 'same_fields') for q in range(2) for c in range(3)])


@spec('C11', functions=[FDF + 'FDFD.solve'])
def chosen_solver(h):
    """iterative=0 is the direct solver and 1, 2 are gmres and bicgstab (3D), all asked for the same system; a given solver wins"""
    d, it = h.choice('dim', [2, 3]), h.choice('iterative', [-1, 0, 1, 2])
    gr, n, n3, lam, e3 = fdfd(h, d, absorber=False, bloch=False)
    m = (3 if d == 3 else 1) * gr.n
    src = h.array('src', (m,), kind='c')
    s, la = Solver(h, m), h.mod(FD).sp.linalg
    asked = []

    def solver(name, pair):
        def f(a, b, *r, **k):
            asked.append(name)
            return (s(a, b), 0) if pair else s(a, b)
        return f

    h.override(FD, 'spsolve_pardiso', solver('direct', False), watch=False)
    for q in ('gmres', 'bicgstab'): h.override_attr(la, q, solver(q, True), watch=False)
    h.override_attr(la, 'spilu', lambda *a, **k: types.SimpleNamespace(solve=None), watch=False)
    h.override_attr(la, 'LinearOperator', lambda *a, **k: None, watch=False)
    system = types.SimpleNamespace(shape=(m, m))
    if h.symbolic:
        for q in ('mat', 'mat_hz'): h.override_attr(type(gr), q, system)
    f = gr.solve(src, iterative=it)
    h.ensure(len(s.calls) == 1, 'one_linear_solve')
    h.ensure(asked == ['direct' if d == 2 or it < 1 else {1: 'gmres', 2: 'bicgstab'}[it]], 'the_chosen_solver')
    h.eq(s.calls[0][1], gr.k0 * src, 'right_hand_side')
    g = gr.solve(src, solver_fn=s, iterative=it)
    h.ensure(len(asked) == 1, 'the_given_solver')
    for a, _ in s.calls:
        if h.symbolic:
            if a is not system: h.unrecognised('another system')
        else: h.all_eq(a.toarray(), (gr.mat if d == 3 else gr.mat_hz).toarray(), 'same_system')
    h.forall('i', [(0, k) for k in n3], lambda *i: [h.eq(f[(q, c) + i], g[(q, c) + i], 'same_fields') for q in range(2) for c in range(3)])


@spec('C11', functions=[FDF + 'FDFD.solve'])
def wrong_source_rejected(h):
    d = h.choice('dim', [1, 2, 3])
    gr, n, n3, lam, e3 = fdfd(h, d, absorber=False, bloch=False)
    m = (3 * gr.n if d == 3 else gr.n) + h.int('extra', lo=1, chi=3)
    h.raises(lambda: gr.solve(h.np.ones(m), solver_fn=lambda a, b: b), ValueError, 'rejected')


@spec('C11', functions=[FDF + 'FDFD.e2h', FDF + 'FDFD.h2e', GF + 'Grid.reshape'], budget=240)
def field_conversion(h):
    d, c = h.choice('dim', [1, 2, 3]), h.choice('component', [0, 1, 2])
    gr, n, n3, lam, e3 = fdfd(h, d)
    flatform = h.flag('flat')
    f = h.array('f', (3,) + tuple(n3), kind='c')
    a = f.ravel() if flatform else f
    H, E = gr.e2h(a), gr.h2e(a)
    fc = [lambda *q, m=m: f[(m,) + q] for m in range(3)]

    def body(*i):
        h.eq(H[(c,) + i] * 1j * gr.k0, curl_ref(h, gr, d, n3, fc, False, c, i), 'e2h')
        h.eq(E[(c,) + i] * 1j * gr.k0 * eps_ref(e3, n3, c, i), curl_ref(h, gr, d, n3, fc, True, c, i), 'h2e')
    h.forall('i', [(0, m) for m in n3], body)


# ---- differentiable (jax) solves
def coo(h, entries, idx, n, dims=None):
    """the matrix described by triplets"""
    if h.symbolic:
        from engine.symsp import from_entries
        from engine.symnp import dim
        return from_entries(entries, idx[0], idx[1], (dim(n), dim(n)), dims)
    import scipy.sparse as sp
    np = h.np
    i = np.asarray(idx)
    return sp.coo_matrix((np.asarray(entries), (i[0], i[1])), shape=(n, n)).tocsr()


@spec('C11', functions=[FDF + 'FDFD.get_fields_fn', FDF + 'FDFD.mat_ez', FDF + 'FDFD.mat_hz', 'simphox/primitives.py:TMOperator.compile_operator_along_axis'], budget=400)
def fields_function_2d(h):
    """the differentiable 2D solve poses the same system as the matrix form and reconstructs the same fields"""
    tm = h.flag('tm')
    d = 2
    gr, n, n3, lam, e3 = fdfd(h, d, bloch=False)
    src = h.array('src', (gr.n,), kind='c')
    x = h.array('x', (gr.n,), kind='c', jx=True)
    calls = []

    def solver(entries, b, idx):
        calls.append((entries, b, idx))
        return x
    h.override(FD, 'spsolve', solver)
    use_t = h.flag('transform')
    fn = gr.get_fields_fn(src, (lambda r: 2 * r) if use_t else None, tm_2d=tm)
    rho = h.jnp.array(gr.eps) / (2 if use_t else 1)
    f = fn(rho)
    h.ensure(len(calls) == 1, 'one_linear_solve')
    entries, b, idx = calls[0]
    h.eq(b, gr.k0 * src, 'right_hand_side', tol=1e-4)
    y = h.array('y', (gr.n,), kind='c')
    a = coo(h, entries, idx, gr.n, n3) @ y
    m = (gr.mat_hz if tm else gr.mat_ez) @ y
    s = (lambda p, q: x if h.symbolic else h.np.asarray(x))
    g = gr.solve(src, solver_fn=s, tm_2d=tm)
    t = 1e-3 if not h.symbolic else None

    def body(*i):
        h.eq(a[flat(n3, *i)], m[flat(n3, *i)], 'same_system', tol=t)
        for q in range(2):
            for c in range(3): h.eq(f[(q, c) + i], g[(q, c) + i], 'same_fields', tol=t)
    h.forall('i', [(0, m) for m in n3], body)


@spec('C11', functions=[FDF + 'FDFD.get_fields_fn', FDF + 'FDFD.mat'], budget=400)
def fields_function_3d(h):
    gr, n, n3, lam, e3 = fdfd(h, 3, bloch=False)
    c = h.choice('component', [0, 1, 2])
    src = h.array('src', (3 * gr.n,), kind='c')
    x = h.array('x', (3,) + tuple(n3), kind='c', jx=True)
    calls = []

    def it(op, b, **k):
        calls.append((op, b))
        return x, None
    h.override(FD, 'bicgstab', it)
    f = gr.get_fields_fn(src)(h.jnp.array(gr.eps))
    h.ensure(len(calls) == 1, 'one_linear_solve')
    op, b = calls[0]
    t = 1e-3 if not h.symbolic else None
    a = op(x)
    m = gr.mat @ (x.ravel() if h.symbolic else h.np.asarray(x).ravel())
    xc = [lambda *q, m=m: x[(m,) + q] for m in range(3)]

    def body(*i):
        h.eq(b[(c,) + i], gr.k0 * src[flat(n3, *i, c)], 'right_hand_side', tol=t)
        h.eq(a[(c,) + i], m[flat(n3, *i, c)], 'same_system', tol=t)
        h.eq(f[(0, c) + i], x[(c,) + i], 'electric_field_is_the_solution', tol=t)
        h.eq(f[(1, c) + i] * 1j * gr.k0, curl_ref(h, gr, 3, n3, xc, False, c, i), 'magnetic_field_is_the_curl', tol=t)
    h.forall('i', [(0, m) for m in n3], body)


# ---- known findings (see known_findings.jsonl)
@spec('C11', functions=[FDF + 'FDFD.h2e'], trials=6, sym=False)
def documented_sign_of_h2e(h):
    """the documentation of h2e and the curl-curl operator both require curl h = -i k0 eps e"""
    d = 3
    gr, n, n3, lam, e3 = fdfd(h, d, absorber=False, bloch=False)
    f = h.array('f', (3,) + tuple(n3), kind='c')
    E = gr.h2e(f)
    h.eq(-1j * gr.k0 * gr.eps_t * E, gr.curl_fn(of_h=True)(f), 'curl_h_is_minus_i_k0_eps_e')


@spec('C11', functions=[FDF + 'FDFD.solve', FDF + 'FDFD.mat_hz'], trials=6, sym=False)
def hz_operator_is_curl_of_returned_e(h):
    gr, n, n3, lam, e3 = fdfd(h, 2, absorber=False, bloch=False, chi=4)
    src = h.array('src', (gr.n,), kind='c')
    f = gr.solve(src, solver_fn=lambda a, b: h.np.linalg.solve(a.toarray(), b), tm_2d=True)
    r = gr.curl_fn(of_h=False)(f[0])[2] + 1j * gr.k0 * f[1, 2]
    h.eq(r, -1j * src.reshape(r.shape), 'curl_e_plus_i_k0_h')
