"""C10: discrete vector calculus."""
from engine.runner import spec
from specs.c07 import G, GF, U, UF
from specs.c09 import yee, stencil, flat


def widths(h, gr, n3):
    """arbitrary widths along every axis, for both placements (as an absorber or a non-uniform mesh sets them)"""
    w = [[h.array(f'w{p}{k}', (n3[k],), kind='c') for k in range(3)] for p in range(2)]
    if not h.symbolic: w = [[a + 3 for a in r] for r in w]
    gr._dxes = tuple(h.np.meshgrid(*r, indexing='ij') for r in w)


def setup(h, d, chi=3, bloch=True):
    gr, n, n3, sp = yee(h, d, chi=chi, bloch=bloch)
    widths(h, gr, n3)
    return gr, n3


def comp(v, n3):
    """the three component functions of a flat field vector"""
    return [lambda i, j, k, c=c: v[flat(n3, i, j, k, c)] for c in range(3)]


def curl_ref(h, gr, d, n3, f, back, c, idx):
    """component c of the discrete curl at idx; f: three functions"""
    a, b = (c + 1) % 3, (c + 2) % 3
    return stencil(h, gr, d, n3, f[b], a, back, idx) - stencil(h, gr, d, n3, f[a], b, back, idx)


@spec('C10', functions=[UF + 'curl_fn'])
def curl_of_any_difference(h):
    """for every difference function (scaled by an arbitrary weight per axis), curl_fn is the cyclic antisymmetric combination"""
    u = h.mod(U)
    sh = tuple(h.int(f'n{k}', lo=1, chi=3) for k in range(3))
    jx = h.flag('jax')
    w = [h.array(f'w{k}', sh, kind='c', jx=jx) for k in range(3)]
    f = h.array('f', (3,) + sh, kind='c', jx=jx)
    df = lambda x, a: x * w[a]
    beta = None if h.flag('three_d') else h.real('beta')
    out = u.curl_fn(df, use_jax=jx, beta=beta)(f)
    h.ensure(out.ndim == 4, 'shape')
    t = 1e-4 if jx else None
    dz = (lambda x: x * w[2]) if beta is None else (lambda x: -1j * beta * x)
    h.eq(out[0], f[2] * w[1] - dz(f[1]), 'x', tol=t)
    h.eq(out[1], dz(f[0]) - f[2] * w[0], 'y', tol=t)
    h.eq(out[2], f[1] * w[0] - f[0] * w[1], 'z', tol=t)


@spec('C10', functions=[UF + 'curl_pml_fn'])
def absorbing_curl(h):
    """the memory of each difference term is the scaled difference plus the decayed previous memory, and the curl combines the memories"""
    u = h.mod(U)
    sh = tuple(h.int(f'n{k}', lo=1, chi=3) for k in range(3))
    jx = h.flag('jax')
    w = [h.array(f'w{k}', sh, jx=jx) for k in range(3)]
    f, p, b = h.array('f', (3,) + sh, jx=jx), h.array('p', (6,) + sh, jx=jx), h.array('b', (3,) + sh, jx=jx)
    nd, out = u.curl_pml_fn(lambda x, a: x * w[a], use_jax=jx)(f, p, b)
    t = 1e-4 if jx else None
    terms = [(2, 1), (1, 2), (0, 2), (2, 0), (1, 0), (0, 1)]
    for q, (c, a) in enumerate(terms): h.eq(nd[q], f[c] * w[a] + p[q] * b[a], 'memory', tol=t)
    for c in range(3):
        (c1, a1), (c2, a2) = terms[2 * c], terms[2 * c + 1]
        h.eq(out[c], f[c1] * w[a1] + p[2 * c] * b[a1] - f[c2] * w[a2] - p[2 * c + 1] * b[a2], 'curl', tol=t)


@spec('C10', functions=[UF + 'd2curl_op', GF + 'YeeGrid.deriv'], budget=240)
def curl_matrix(h):
    """the curl matrix applied to any field vector is the curl stencil, component by component"""
    u = h.mod(U)
    d, c, back = h.choice('dim', [1, 2, 3]), h.choice('component', [0, 1, 2]), h.flag('back')
    gr, n3 = setup(h, d)
    v = h.array('v', (3 * gr.n,), kind='c')
    out = u.d2curl_op(gr.deriv(back)) @ v
    h.ensure(out.shape[0] == 3 * gr.n, 'size')
    h.forall('i', [(0, m) for m in n3],
             lambda *i: h.eq(out[flat(n3, *i, c)], curl_ref(h, gr, d, n3, comp(v, n3), back, c, i), 'curl'))


@spec('C10', functions=[GF + 'YeeGrid.curl_fn', GF + 'YeeGrid.diff_fn', UF + 'curl_fn'], budget=240)
def curl_function(h):
    """the functional curl (numpy or jax) of any field is the same stencil"""
    d, c, back = h.choice('dim', [1, 2, 3]), h.choice('component', [0, 1, 2]), h.flag('back')
    gr, n3 = setup(h, d)
    jx = h.flag('jax')
    f = h.array('f', (3,) + tuple(n3), kind='c', jx=jx)
    out = gr.curl_fn(of_h=back, use_jax=jx)(f)
    comps = [lambda *q, m=m: f[(m,) + q] for m in range(3)]
    h.forall('i', [(0, m) for m in n3],
             lambda *i: h.eq(out[(c,) + i], curl_ref(h, gr, d, n3, comps, back, c, i), 'curl', tol=1e-4 if jx else None))


@spec('C10', functions=[GF + 'YeeGrid.curl_fn', UF + 'curl_fn'], budget=200)
def curl_with_propagation(h):
    """for a propagation constant, the z difference is multiplication by -i beta"""
    d, c, back = h.choice('dim', [1, 2]), h.choice('component', [0, 1, 2]), h.flag('back')
    gr, n3 = setup(h, d)
    beta = h.real('beta')
    f = h.array('f', (3,) + tuple(n3), kind='c')
    out = gr.curl_fn(beta=beta, of_h=back)(f)
    comps = [lambda *q, m=m: f[(m,) + q] for m in range(3)]

    def D(m, a, i): return -1j * beta * f[(m,) + i] if a == 2 else stencil(h, gr, d, n3, comps[m], a, back, i)
    a, b = (c + 1) % 3, (c + 2) % 3
    h.forall('i', [(0, m) for m in n3], lambda *i: h.eq(out[(c,) + i], D(b, a, i) - D(a, b, i), 'curl'))


@spec('C10', functions=[UF + 'd2curl_op', GF + 'YeeGrid.deriv'], budget=400)
def divergence_of_curl(h):
    """the divergence of every curl vanishes in every cell, for both placements, every widths and Bloch phases (matrix form)"""
    u = h.mod(U)
    d, back = h.choice('dim', [2, 3]), h.flag('back')
    gr, n3 = setup(h, d)
    D = gr.deriv(back)
    v = h.array('v', (3 * gr.n,), kind='c')
    c = u.d2curl_op(D) @ v
    N = gr.n
    div = D[0] @ c[:N] + D[1] @ c[N:2 * N] + D[2] @ c[2 * N:]
    h.forall('i', [(0, m) for m in n3], lambda *i: h.eq(div[flat(n3, *i)], 0, 'vanishes'))


@spec('C10', functions=[GF + 'YeeGrid.curl_fn', GF + 'YeeGrid.diff_fn'], budget=400)
def divergence_of_curl_function(h):
    d, back = h.choice('dim', [2, 3]), h.flag('back')
    gr, n3 = setup(h, d, bloch=h.flag('bloch'))
    f = h.array('f', (3,) + tuple(n3), kind='c')
    df = gr.diff_fn(of_h=back)
    c = gr.curl_fn(of_h=back)(f)
    div = df(c[0], 0) + df(c[1], 1) + df(c[2], 2)
    h.forall('i', [(0, m) for m in n3], lambda *i: h.eq(div[i], 0, 'vanishes'))


@spec('C10', functions=[UF + 'd2curl_op', GF + 'YeeGrid.deriv'], budget=400)
def curl_curl_composition(h):
    """the curl-curl matrix applied to a field is the magnetic curl of the electric curl"""
    u = h.mod(U)
    d, c = h.choice('dim', [1, 2, 3]), h.choice('component', [0, 1, 2])
    gr, n3 = setup(h, d)
    v = h.array('v', (3 * gr.n,), kind='c')
    e, m = u.d2curl_op(gr.deriv_forward), u.d2curl_op(gr.deriv_backward)
    out = (m @ e) @ v
    w = e @ v
    h.forall('i', [(0, m) for m in n3],
             lambda *i: h.eq(out[flat(n3, *i, c)], curl_ref(h, gr, d, n3, comp(w, n3), True, c, i), 'composition'))


@spec('C10', functions=[UF + 'd2curl_op', GF + 'YeeGrid.deriv'], budget=400)
def curls_are_adjoint(h):
    """on a uniform mesh the magnetic curl matrix is the conjugate transpose of the electric one"""
    u = h.mod(U)
    d, c, e = 2, h.choice('row', [0, 1, 2]), h.choice('column', [0, 1, 2])
    gr, n, n3, sp = yee(h, d, chi=2)
    E, H = u.d2curl_op(gr.deriv_forward).toarray(), u.d2curl_op(gr.deriv_backward).toarray()
    h.forall('i', [(0, m) for m in n3 + n3],
             lambda i, j, k, p, q, r: h.eq(H[flat(n3, i, j, k, c), flat(n3, p, q, r, e)], h.np.conj(E[flat(n3, p, q, r, e), flat(n3, i, j, k, c)]), 'conjugate_transpose'))
