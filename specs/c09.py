"""C09: difference operators."""
from engine.runner import spec
from specs.c07 import G, GF, box


def yee(h, d, widths='uniform', bloch=True, chi=4, cls=None, **kw):
    """a Yee grid of any shape; widths: 'uniform' or 'any' (every cell its own, possibly complex, width, as an absorber sets them)"""
    g = h.mod(G)
    size, arg, n, sp = box(h, d, chi=chi, split=True)
    if bloch: kw['bloch_phase'] = tuple(h.real(f'ph{k}', special=(0.0,)) for k in range(d))
    gr = (cls or g.YeeGrid)(size, arg, **kw)
    n3 = [n[k] if k < d else 1 for k in range(3)]
    if widths == 'any':
        dx = tuple([h.array(f'dx{w}{k}', tuple(n3), kind='c') for k in range(3)] for w in range(2))
        if not h.symbolic: dx = tuple([a + 3 for a in w] for w in dx)
        gr._dxes = dx
    return gr, n, n3, sp


def phases(gr, d):
    return [gr.bloch[k] if k < d else 1 for k in range(3)]


def nxt(i, n): return (i + 1, False) if bool(i + 1 < n) else (0, True)
def prv(i, n): return (i - 1, False) if bool(i > 0) else (n - 1, True)


def stencil(h, gr, d, n3, f, ax, back, idx):
    """the documented difference of the scalar field f (callable on three indices) at idx"""
    if bool(n3[ax] == 1): return 0
    b = phases(gr, d)[ax]
    i = list(idx)
    i[ax], w = (prv if back else nxt)(idx[ax], n3[ax])
    if back: return (f(*idx) - (h.np.conj(b) if w else 1) * f(*i)) / gr._dxes[1][ax][tuple(idx)]
    return ((b if w else 1) * f(*i) - f(*idx)) / gr._dxes[0][ax][tuple(idx)]


def flat(n3, i, j, k, c=0): return ((c * n3[0] + i) * n3[1] + j) * n3[2] + k


def pick(h):
    return h.choice('dim', [1, 2, 3]), h.choice('axis', [0, 1, 2]), h.flag('back')


@spec('C09', functions=[GF + 'YeeGrid.deriv', GF + 'YeeGrid.deriv_forward', GF + 'YeeGrid.deriv_backward'])
def derivative_matrices(h):
    """each derivative matrix applied to any vector is the wrapped two-point difference over the cell width"""
    d, ax, back = pick(h)
    gr, n, n3, sp = yee(h, d, 'any')
    D = gr.deriv(back=back)
    h.ensure(len(D) == 3, 'three_matrices')
    h.ensure((D[ax].shape[0] == gr.n) & (D[ax].shape[1] == gr.n) if h.symbolic else D[ax].shape == (gr.n, gr.n), 'square')
    v = h.array('v', (gr.n,), kind='c')
    out = D[ax] @ v
    h.forall('i', [(0, m) for m in n3],
             lambda *i: h.eq(out[flat(n3, *i)], stencil(h, gr, d, n3, lambda a, b, c: v[flat(n3, a, b, c)], ax, back, i), 'stencil'))
    P = (gr.deriv_backward if back else gr.deriv_forward)[ax] @ v
    h.forall('i', [(0, m) for m in n3], lambda *i: h.eq(P[flat(n3, *i)], out[flat(n3, *i)], 'property_is_the_same_matrix'))


@spec('C09', functions=[GF + 'YeeGrid.diff_fn'])
def derivative_functions(h):
    """the functional form (numpy or jax) is the same difference"""
    d, ax, back = pick(h)
    gr, n, n3, sp = yee(h, d, 'any')
    jx = h.flag('jax')
    f = h.array('f', tuple(n3), kind='c', jx=jx)
    out = gr.diff_fn(of_h=back, use_jax=jx)(f, ax)
    h.ensure(out.ndim == 3, 'shape')
    t = 1e-4 if jx else None
    h.forall('i', [(0, m) for m in n3],
             lambda *i: h.eq(out[i], stencil(h, gr, d, n3, lambda *q: f[q], ax, back, i), 'stencil', tol=t))


@spec('C09', functions=[GF + 'YeeGrid.deriv'])
def backward_is_minus_adjoint(h):
    """with the widths taken out, the backward matrix is minus the conjugate transpose of the forward one"""
    d, ax = h.choice('dim', [1, 2, 3]), h.choice('axis', [0, 1, 2])
    wd = h.choice('widths', ['uniform', 'any'])
    gr, n, n3, sp = yee(h, d, wd, chi=3)
    F, B = gr.deriv()[ax].toarray(), gr.deriv(True)[ax].toarray()
    we, wh = gr._dxes[0][ax], gr._dxes[1][ax]

    def body(i, j, k, p, q, r):
        a, b = flat(n3, i, j, k), flat(n3, p, q, r)
        if wd == 'uniform': h.eq(B[a, b], -h.np.conj(F[b, a]), 'minus_adjoint')
        else: h.eq(wh[i, j, k] * B[a, b], -h.np.conj(we[p, q, r] * F[b, a]), 'minus_adjoint_up_to_widths')
    h.forall('i', [(0, m) for m in n3 + n3], body)


@spec('C09', functions=[GF + 'YeeGrid.deriv', GF + 'YeeGrid.diff_fn'])
def constants_are_annihilated(h):
    d, ax, back = pick(h)
    gr, n, n3, sp = yee(h, d, 'any', bloch=False)
    c = h.complex('c')
    out = gr.deriv(back)[ax] @ (c * h.np.ones(gr.n))
    h.forall('i', [(0, gr.n)], lambda i: h.eq(out[i], 0, 'matrix'))
    o = gr.diff_fn(of_h=back)(c * h.np.ones(tuple(n3)), ax)
    h.forall('j', [(0, m) for m in n3], lambda *i: h.eq(o[i], 0, 'function'))
