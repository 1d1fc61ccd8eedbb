"""C03: backward propagation is the transpose of forward propagation."""
from engine.runner import spec
from specs.c01 import F, FW, STYLES, mm
from specs.c02 import top_bottom, und, small_mesh, small_ref
from specs.meshlib import rand_mesh, ref_matrix, abstract_mesh


@spec('C03', functions=[F + '_parallel_mzi', F + '_mzi_terms'])
def node_elements(h):
    """for every node of a mesh: backward elements are the forward ones with the two off-diagonal elements exchanged"""
    fw = h.mod(FW)
    N = h.int('N', lo=1, chi=4)
    jx = h.flag('jax')
    style = h.choice('style', STYLES)
    th, phi = h.array('th', (N,)), h.array('phi', (N,))
    e, l = h.array('e', (N, 2)), h.array('l', (N, 2), lo=-10, hi=0)
    A = fw._parallel_mzi(th, phi, e, l, style, use_jax=jx)
    B = fw._parallel_mzi(th, phi, e, l, style, use_jax=jx, back=True)
    h.all_eq(B[0], A[0], 'top_top', tol=2e-5)
    h.all_eq(B[3], A[3], 'bottom_bottom', tol=2e-5)
    h.all_eq(B[1], A[2], 'off_diagonal', tol=2e-5)
    h.all_eq(B[2], A[1], 'off_diagonal_2', tol=2e-5)


@spec('C03', functions=[F + 'ForwardMesh.parallel_mzi'])
def node_elements_of_a_mesh(h):
    """the elements which a mesh gives for its nodes (own or given phases, own or given style)"""
    cp, fw = h.mod('simphox.circuit.coupling'), h.mod(FW)
    style = h.choice('style', STYLES)
    k = h.choice('nodes', [1, 2])
    m = fw.ForwardMesh([cp.CouplingNode(node_id=j, n=2 * k, top=2 * j, bottom=2 * j + 1, bs_error=(h.real(f'l{j}'), h.real(f'r{j}'))) for j in range(k)], phase_style=style)
    th, ph = h.array('th', (k,)), h.array('ph', (k,))
    m.params = th, ph, h.array('g', (2 * k,))
    own, jx = h.flag('own'), h.flag('jax')
    other = h.choice('given_style', [None] + list(STYLES))
    kw = dict(phase_style=other, use_jax=jx)
    if not own: kw.update(thetas=h.array('t2', (k,)), phis=h.array('p2', (k,)))
    A, B = m.parallel_mzi(**kw), m.parallel_mzi(back=True, **kw)
    R = fw._parallel_mzi(th if own else kw['thetas'], ph if own else kw['phis'], m.all_errors, m.all_losses, other or style, use_jax=jx)
    for p, q in enumerate((0, 2, 1, 3)):
        h.all_eq(A[p], R[p], 'elements', tol=2e-5)
        h.all_eq(B[p], A[q], 'transposed', tol=2e-5)


@spec('C03', functions=[F + '_parallel_transform', F + '_parallel_mzi', F + 'ForwardMesh.parallel_transform'])
def column_transpose(h):
    """w . (C v) = (C_back w) . v for every column, any number of nodes and modes"""
    fw = h.mod(FW)
    n, m, N = h.int('n', lo=2, chi=7), h.int('m', lo=1, chi=3), h.int('N', lo=1, chi=5)
    h.assume(2 * m <= n)
    style = h.choice('style', STYLES)
    top, bottom, it, ib = top_bottom(h, n, m)
    ids = h.array('ids', (m,), kind='i', lo=0, hi=N - 1) if h.symbolic else [h.rng.randrange(N) for _ in range(m)]
    th, phi, e = h.array('th', (N,)), h.array('phi', (N,)), h.array('e', (N, 2))
    l = h.array('l', (N, 2), lo=-10, hi=0)
    T = fw._parallel_mzi(th, phi, e, l, style)
    B = fw._parallel_mzi(th, phi, e, l, style, back=True)
    v, w = h.array('v', (n, 1), kind='c'), h.array('w', (n, 1), kind='c')
    fv = fw._parallel_transform(v.copy(), T, (top, bottom, ids, None))
    bw = fw._parallel_transform(w.copy(), B, (top, bottom, ids, None))

    def pair(k):
        t, b = top[k], bottom[k]
        h.eq(w[t, 0] * fv[t, 0] + w[b, 0] * fv[b, 0], bw[t, 0] * v[t, 0] + bw[b, 0] * v[b, 0], 'pair_of_modes', tol=1e-6)
    h.forall('k', [(0, m)], pair)

    def rest(a):
        if bool(it(a)[0]) or bool(ib(a)[0]): return
        h.eq(w[a, 0] * fv[a, 0], bw[a, 0] * v[a, 0], 'other_modes')
    h.forall('a', [(0, n)], rest)


@spec('C03', functions=[F + 'ForwardMesh.matrix_fn'])
def mesh_order(h):
    """any number of columns: the bilinear form w . M v is carried through the columns by the backward pass
    (state of the backward pass after j columns, state of the forward pass before the last j columns)"""
    fw = h.mod(FW)
    jx = h.flag('jax')
    style = h.choice('style', STYLES)
    if not h.symbolic:
        m = rand_mesh(h, style=style, sorted_ids=h.flag('sorted'), lossy=h.flag('lossy'))
        A = h.np.asarray(m.matrix_fn(use_jax=jx)())
        B = h.np.asarray(m.matrix_fn(use_jax=jx, back=True)())
        h.all_eq(B, A.T, 'backward_is_transpose', tol=2e-5)
        h.all_eq(m.matrix(back=True), m.matrix().T, 'backward_matrix', tol=2e-5)
        return
    from engine.loops import Invariant, INVS
    N, T = h.N, h.T
    n, nc, M = h.int('n', lo=1), h.int('nc', lo=1), h.int('M', lo=0)
    log = []
    m, apply = abstract_mesh(h, fw, n, nc, style, 1, jx, True, log)
    m.n, m.phase_style, m.num_columns = n, style, nc
    m.thetas, m.phis, m.gammas = h.array('th', (M,)), h.array('phi', (M,)), h.array('gamma', (n,))
    m._err, m._loss = h.array('e', (M, 2)), h.array('l', (M, 2))
    npx = h.jnp if jx else h.np
    p = tuple(npx.array(x) for x in m.params)
    v, w = h.array('v', (n, 1), kind='c', jx=jx), h.array('w', (n, 1), kind='c', jx=jx)
    key = 'carry' if jx else 'outputs'
    run = {}
    for back, x in ((False, v), (True, w)):
        INVS.clear()
        x0 = h.N.asarray(x.copy())
        ph = npx.exp(1j * npx.array(m.gammas)).reshape(-1, 1)
        start = ph * x0 if back else x0
        nm = 'B' if back else 'F'
        def S_(k, nm=nm): return N.Arr(x0.shp, lambda i: T.app('state' + nm, (N.dim(k),) + tuple(i), False), 'c', jx)
        def step(pre, el, k, back=back):
            # element visited at step k of the backward pass is column nc-1-k
            want = (N.dim(nc) - N.ONE - k) if back else k
            h.ensure(h.C.c_eq(N.dim(el.k), want), 'columns_reversed' if back else 'columns_in_order')
            return {key: apply(pre[key], el.k)}
        ab = lambda k, init, S_=S_, start=start: {key: start.copy() if (hasattr(k, 'is_zero') and k.is_zero()) else S_(k)}
        INVS['scan' if jx else 'matrix_fn.matrix'] = Invariant(h, lambda loc, start=start: {key: start}, step, ab, 'back' if back else 'forw')
        log.clear()
        out = m.matrix_fn(use_jax=jx, back=back)(p, x)
        run[back] = out
        if log:
            el = fw._parallel_mzi(m.thetas, m.phis, m._err, m._loss, style, jx, back)
            h.all_eq(log[-1][0], el, f'elements_{back}')
        fin = S_(nc)
        h.all_eq(out, fin if back else ph * fin, 'screen_position', tol=1e-5)


@spec('C03', functions=[F + 'ForwardMesh.matrix_fn', F + 'ForwardMesh.propagate_matrix_fn', F + '_parallel_propagate', F + '_parallel_dc'], budget=150,
      why='all parameters and errors; topology one fixed ragged three mode example')
def small_all_ways(h):
    fw = h.mod(FW)
    style = h.choice('style', STYLES)
    m = small_mesh(h, style)
    U, EA, EB = small_ref(h, m, style)
    Ut = [[U[j][i] for j in range(3)] for i in range(3)]
    h.all_eq(m.matrix_fn(back=True)(m.params), Ut, 'matrix', tol=1e-5)
    w = h.array('w', (3, 1), kind='c')
    want = mm(Ut, [[w[i, 0]] for i in range(3)])
    h.all_eq(m.propagate_matrix_fn(explicit=False, back=True)(m.params, w)[-1], want, 'implicit', tol=1e-5)
    if style in ('top', 'bottom'):
        h.all_eq(m.propagate_matrix_fn(explicit=True, back=True)(m.params, w)[-1], [x[0] for x in want], 'explicit', tol=1e-5)


@spec('C03', sym=False, bounded='random topologies up to 6 modes and 4 columns', functions=[F + 'ForwardMesh.idx', F + 'ForwardMesh.propagate', F + 'ForwardMesh.propagate_matrix_fn'], trials=20, cbudget=25)
def mesh_random(h):
    np, jnp = h.np, h.jnp
    m = rand_mesh(h, sorted_ids=h.flag('sorted'))
    U = ref_matrix(h, m)
    v = h.array('v', (m.n, h.int('K', lo=1, chi=3)), kind='c')
    h.all_eq(m.matrix(back=True), U.T, 'matrix', tol=1e-5)
    h.all_eq(m.matrix_fn(use_jax=True, back=True)(), U.T, 'jax', tol=2e-5)
    P = m.propagate_matrix_fn(explicit=False, back=True)(m.params, v)
    h.all_eq(P[-1], U.T @ v, 'propagate', tol=1e-5)
    h.all_eq(m.propagate_matrix_fn(explicit=False, back=True, use_jax=True)(m.params, jnp.array(v)), P, 'propagate_jax', tol=3e-5)
    if m.phase_style in ('top', 'bottom'):
        Q = m.propagate_matrix_fn(explicit=True, back=True)(m.params, v).reshape(-1, m.n, v.shape[1])
        h.all_eq(Q[-1], U.T @ v, 'explicit', tol=1e-5)
        Qj = np.asarray(m.propagate_matrix_fn(explicit=True, back=True, use_jax=True)(m.params, jnp.array(v))).reshape(Q.shape)
        h.all_eq(Qj, Q, 'explicit_jax', tol=3e-5)
    e, l, jx = h.npr.randn(len(m.nodes), 2) / 3, -3 * h.npr.rand(len(m.nodes), 2), h.flag('jax')
    W = ref_matrix(h, m, errors=e, losses=l).T
    h.all_eq(m.matrix_fn(back=True, use_jax=jx)(m.params, v, e, l), W @ v, 'errors_and_losses_passed', tol=3e-5)
    h.all_eq(m.propagate_matrix_fn(explicit=False, back=True, use_jax=jx)(m.params, v, e, l)[-1], W @ v, 'errors_and_losses_passed_propagate', tol=3e-5)
    if m.phase_style in ('top', 'bottom'):
        W = ref_matrix(h, m, errors=e).T
        h.all_eq(m.propagate_matrix_fn(explicit=True, back=True, use_jax=jx)(m.params, v, e, 0 * l)[-1].reshape(v.shape), W @ v, 'errors_passed_explicit', tol=3e-5)
    # reciprocity measured with single inputs
    a, b = h.rng.randrange(m.n), h.rng.randrange(m.n)
    ea, eb = np.eye(m.n)[:, a], np.eye(m.n)[:, b]
    h.all_eq(m.propagate(ea, explicit=False)[-1][b], m.propagate(eb, explicit=False, back=True)[-1][a], 'reciprocity', tol=1e-5)
