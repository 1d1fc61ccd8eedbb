"""C02: mesh = ordered product of its nodes."""
from engine.runner import spec
from specs.c01 import F, FW, CP, node_form, STYLES, coupler


def top_bottom(h, n, m):
    """two disjoint injective index lists of length m into range(n)"""
    if h.symbolic:
        from engine.symlist import Family
        fam = Family('mode_', n, {'top': m, 'bottom': m})
        return fam.lst('top'), fam.lst('bottom'), (lambda a: fam.member('top', a.p if hasattr(a, 'p') else h.N.dim(a))), (lambda a: fam.member('bottom', a.p if hasattr(a, 'p') else h.N.dim(a)))
    p = list(h.npr.permutation(n)[:2 * m])
    t, b = [int(x) for x in p[:m]], [int(x) for x in p[m:]]
    return t, b, (lambda a: (a in t, t.index(a) if a in t else None)), (lambda a: (a in b, b.index(a) if a in b else None))


def und(h, k): return h.N.undim(k) if h.symbolic and hasattr(k, 't') else k


def check_column(h, out, v, t11, t12, t21, t22, top, bottom, ids, intop, inbot, n, K, tol=2e-5):
    """out is the column applied to v: each node acts on its own two modes, all other modes pass"""
    h.ensure(out.shape[0] == n, 'rows')
    h.ensure(out.shape[1] == K, 'columns')

    def body(a, c):
        it, k = intop(a)
        if bool(it):
            k = und(h, k)
            i = ids[k]
            h.eq(out[a, c], t11[i] * v[a, c] + t21[i] * v[bottom[k], c], 'top_mode', tol=tol)
            return
        ib, k = inbot(a)
        if bool(ib):
            k = und(h, k)
            i = ids[k]
            h.eq(out[a, c], t12[i] * v[top[k], c] + t22[i] * v[a, c], 'bottom_mode', tol=tol)
            return
        h.eq(out[a, c], v[a, c], 'other_modes_pass', tol=tol)
    h.forall('a', [(0, n), (0, K)], body)


@spec('C02', functions=[F + '_parallel_transform', F + 'ForwardMesh.parallel_transform'])
def column_numpy(h):
    fw = h.mod(FW)
    n, K, m, N = h.int('n', lo=2, chi=7), h.int('K', lo=1, chi=3), h.int('m', lo=1, chi=3), h.int('N', lo=1, chi=5)
    h.assume(2 * m <= n)
    top, bottom, it, ib = top_bottom(h, n, m)
    ids = h.array('ids', (m,), kind='i', lo=0, hi=N - 1) if h.symbolic else [h.rng.randrange(N) for _ in range(m)]
    T = h.array('T', (4, N), kind='c')
    v0 = h.array('v', (n, K), kind='c')
    v = v0.copy()
    out = fw._parallel_transform(v, T, (top, bottom, ids, None), use_jax=False)
    check_column(h, out, v0, T[0], T[1], T[2], T[3], top, bottom, ids, it, ib, n, K)


@spec('C02', functions=[F + '_parallel_transform'])
def column_jax(h):
    """rows padded beyond the nodes of the column (mask 0, dummy mode) change nothing"""
    fw = h.mod(FW)
    n, K, m, N = h.int('n', lo=2, chi=7), h.int('K', lo=1, chi=3), h.int('m', lo=1, chi=3), h.int('N', lo=1, chi=5)
    h.assume(2 * m <= n)
    pad = h.int('pad', lo=0, chi=2)
    top, bottom, it, ib = top_bottom(h, n, m)
    if h.flag('ragged'):
        h.assume(2 * m < n), h.assume(pad >= 1)
        d = h.int('dummy', lo=0, chi=6)
        h.assume(d < n)
        if bool(it(d)[0]) or bool(ib(d)[0]):
            h.assume(False)
    else:
        h.assume(pad == 0)
        d = 0
    T = h.array('T', (4, N), kind='c', jx=True)
    v = h.array('v', (n, K), kind='c', jx=True)
    M = m + pad
    if h.symbolic:
        ids = h.array('ids', (M,), kind='i', lo=0, hi=N - 1)
        Nn = h.N
        def padded(l):
            base = l.as_arr()
            a = Nn.Arr((Nn.dim(M),), lambda i: base.at_(i) if h.ctx.decide(h.C.c_lt(i[0], Nn.dim(m))) else Nn.dim(d), 'i')
            def inj(p):
                c, k = base.inj(p)
                if h.ctx.decide(c): return h.C.TRUE, k
                # all padded rows hold the dummy mode; 'written_value' below shows they all write the same value
                if h.ctx.decide(h.C.c_and(h.C.c_eq(p, Nn.dim(d)), h.C.c_lt(Nn.ZERO, Nn.dim(pad)))): return h.C.TRUE, Nn.dim(m)
                return h.C.FALSE, None
            a.inj = inj
            return a
        ptop, pbot = padded(top), padded(bottom)
        mask = Nn.Arr((Nn.dim(M),), lambda i: Nn.ONE if h.ctx.decide(h.C.c_lt(i[0], Nn.dim(m))) else Nn.ZERO, 'i')
    else:
        np = h.np
        ids = np.array([h.rng.randrange(N) for _ in range(M)])
        ptop, pbot = np.array(top + [d] * pad), np.array(bottom + [d] * pad)
        mask = np.array([1] * m + [0] * pad)
    out = fw._parallel_transform(v, T, (ptop, pbot, ids, mask), use_jax=True)
    check_column(h, out, v, T[0], T[1], T[2], T[3], top, bottom, ids, it, ib, n, K)


@spec('C02', functions=[F + '_parallel_transform'])
def column_conserves_power(h):
    """a column of unitary nodes preserves the power of each pair of modes; columns are linear"""
    fw = h.mod(FW)
    n, m, N = h.int('n', lo=2, chi=7), h.int('m', lo=1, chi=3), h.int('N', lo=1, chi=5)
    h.assume(2 * m <= n)
    style = h.choice('style', STYLES)
    back = h.flag('back')
    top, bottom, it, ib = top_bottom(h, n, m)
    ids = h.array('ids', (m,), kind='i', lo=0, hi=N - 1) if h.symbolic else [h.rng.randrange(N) for _ in range(m)]
    th, phi, e = h.array('th', (N,)), h.array('phi', (N,)), h.array('e', (N, 2))
    T = fw._parallel_mzi(th, phi, e, h.np.zeros((N, 2)), style, back=back)
    v = h.array('v', (n, 1), kind='c')
    w = h.array('w', (n, 1), kind='c')
    al = h.complex('al')
    col = lambda x: fw._parallel_transform(x.copy(), T, (top, bottom, ids, None))
    out, ow, os = col(v), col(w), col(v + al * w)

    def body(k):
        t, b = top[k], bottom[k]
        sq = lambda z: h.np.conj(z) * z
        h.eq(sq(out[t, 0]) + sq(out[b, 0]), sq(v[t, 0]) + sq(v[b, 0]), 'power', tol=1e-6)
        h.eq(os[t, 0], out[t, 0] + al * ow[t, 0], 'linear_top')
        h.eq(os[b, 0], out[b, 0] + al * ow[b, 0], 'linear_bottom')
    h.forall('k', [(0, m)], body)


from specs.meshlib import rand_mesh, ref_matrix, abstract_mesh


@spec('C02', functions=[F + 'ForwardMesh.matrix_fn', F + 'ForwardMesh.matrix'])
def mesh_columns(h):
    """any number of columns: columns in order, then (before, when backward) the phase screen; caller data untouched"""
    fw = h.mod(FW)
    jx, back = h.flag('jax'), h.flag('back')
    style = h.choice('style', STYLES)
    oned = h.flag('one_dimensional_input')
    if h.symbolic:
        n, nc, K, M = h.int('n', lo=1), h.int('nc', lo=0), h.int('K', lo=1), h.int('M', lo=0)
        if oned: K = 1
        log = []
        m, apply = abstract_mesh(h, fw, n, nc, style, K, jx, back, log)
        m.n, m.phase_style, m.num_columns = n, style, nc
        m.thetas, m.phis, m.gammas = h.array('th', (M,)), h.array('phi', (M,)), h.array('gamma', (n,))
        m._err, m._loss = h.array('e', (M, 2)), h.array('l', (M, 2))
    else:
        m = rand_mesh(h, style=style, sorted_ids=False)
        n, K = m.n, 1 if oned else h.int('K', lo=1, chi=3)
    npx = h.jnp if jx else h.np
    ph = npx.exp(1j * npx.array(m.gammas.copy()))
    v = h.array('v', (n,) if oned else (n, K), kind='c', jx=jx)
    v0 = v.copy()
    p = tuple(npx.array(x) for x in m.params)
    if h.symbolic:
        from engine.loops import Invariant, INVS
        v2 = h.N.asarray(v0 if not oned else v0.reshape(-1, 1))
        start = (ph.reshape(-1, 1) * v2) if back else v2
        N = h.N
        def F_(k): return N.Arr(v2.shp, lambda i: h.T.app('state', (N.dim(k),) + tuple(i), False), 'c', jx)
        key = 'carry' if jx else 'outputs'
        ab = lambda k, init: {key: start.copy() if (hasattr(k, 'is_zero') and k.is_zero()) else F_(k)}
        inv = Invariant(h, lambda loc: {key: start}, lambda pre, el, k: {key: apply(pre[key], el.k)}, ab, 'columns_applied_in_order')
        INVS.clear()
        INVS['scan' if jx else 'matrix_fn.matrix'] = inv
    out = m.matrix_fn(use_jax=jx, back=back)(p, v)
    h.ensure(out.shape[0] == n, 'rows')
    h.ensure(out.shape[1] == K, 'columns')
    if h.symbolic:
        if log:
            el = fw._parallel_mzi(m.thetas, m.phis, m._err, m._loss, style, jx, back)
            h.all_eq(log[-1][0], el, 'columns_get_the_node_elements')
            h.ensure(log[-1][1] == jx, 'backend')
        if h.C.ctx().decide(h.C.c_eq(N.dim(nc), N.ZERO)): fin = start
        else: fin = F_(nc)
        h.all_eq(out, fin if back else ph.reshape(-1, 1) * fin, 'screen_and_columns', tol=1e-5)
    else:
        U = ref_matrix(h, m)
        h.all_eq(out, (U.T if back else U) @ h.np.asarray(v0).reshape(n, K), 'screen_and_columns', tol=1e-5)
        U2 = m.matrix_fn(use_jax=jx, back=back)()
        h.all_eq(U2, U.T if back else U, 'default_arguments', tol=1e-5)
        h.all_eq(m.matrix(back=back), U.T if back else U, 'matrix', tol=1e-5)
    h.all_eq(v, v0, 'inputs_unchanged')
    h.all_eq(p[0], m.thetas, 'theta_unchanged')
    h.all_eq(p[1], m.phis, 'phi_unchanged')
    h.all_eq(p[2], m.gammas, 'gamma_unchanged')


def small_mesh(h, style):
    """a fixed little topology with crossing, ragged columns and permuted node ids; all parameters free"""
    cp, fw = h.mod(CP), h.mod(FW)
    nodes = [cp.CouplingNode(node_id=1, n=3, top=0, bottom=1, column=0, bs_error=(h.real('e0'), h.real('e1'))),
             cp.CouplingNode(node_id=0, n=3, top=2, bottom=1, column=1, bs_error=(h.real('e2'), h.real('e3')))]
    m = fw.ForwardMesh(nodes, phase_style=style)
    m.thetas, m.phis, m.gammas = h.array('th', (2,)), h.array('phi', (2,)), h.array('g', (3,))
    return m


def small_ref(h, m, style, errors=None):
    np = h.np
    er = (lambda k, j: h_e(m, k, j)) if errors is None else (lambda k, j: errors[m.nodes[k].node_id, j])
    A = node_form(h, style, m.thetas[1], m.phis[1], er(0, 0), er(0, 1))
    B = node_form(h, style, m.thetas[0], m.phis[0], er(1, 0), er(1, 1))
    EA = [[A[0][0], A[0][1], 0], [A[1][0], A[1][1], 0], [0, 0, 1]]
    EB = [[1, 0, 0], [0, B[1][1], B[1][0]], [0, B[0][1], B[0][0]]]
    from specs.c01 import mm
    G = [[np.exp(1j * m.gammas[i]) if i == j else 0 for j in range(3)] for i in range(3)]
    return mm(G, mm(EB, EA)), EA, EB


def h_e(m, i, j): return m.nodes[i].bs_error[j]


@spec('C02', functions=[F + 'ForwardMesh.propagate_matrix_fn', F + '_parallel_propagate', F + '_parallel_multiply', F + 'ForwardMesh.__post_init__', F + 'ForwardMesh.columns', F + 'ForwardMesh.propagate'], budget=150,
      why='parameters, errors and inputs arbitrary; topology one fixed ragged three mode example')
def small_all_ways(h):
    """matrix, implicit and explicit propagation of a small mesh all give the ordered product (all parameters)"""
    fw = h.mod(FW)
    style = h.choice('style', STYLES)
    m = small_mesh(h, style)
    U, EA, EB = small_ref(h, m, style)
    from specs.c01 import mm
    v = h.array('v', (3, 1), kind='c')
    v0 = v.copy()
    want = mm(U, [[v0[0, 0]], [v0[1, 0]], [v0[2, 0]]])
    h.all_eq(m.matrix_fn()(m.params, v), want, 'matrix', tol=1e-5)
    P = m.propagate_matrix_fn(explicit=False)(m.params, v)
    h.all_eq(P[-1], want, 'implicit', tol=1e-5)
    h.all_eq(P[0], v0, 'implicit_starts_with_input')
    h.all_eq(P[1], mm(EA, [[v0[0, 0]], [v0[1, 0]], [v0[2, 0]]]), 'implicit_first_column', tol=1e-5)
    if style in ('top', 'bottom'):
        Q = m.propagate_matrix_fn(explicit=True)(m.params, v)
        h.all_eq(Q[-1], [w[0] for w in want], 'explicit', tol=1e-5)
        h.all_eq(m.propagate()[-1], U, 'propagate_default_inputs', tol=1e-5)
    h.all_eq(m.propagate(explicit=False)[-1], U, 'propagate_implicit_default_inputs', tol=1e-5)
    h.all_eq(m.propagate(v, explicit=False)[-1], want, 'propagate_inputs', tol=1e-5)
    h.all_eq(v, v0, 'inputs_unchanged')


@spec('C02', sym=False, bounded='random topologies up to 6 modes and 4 columns (ragged, permuted node order)', functions=[F + 'ForwardMesh.idx', F + 'ForwardMesh.columns', F + 'ForwardMesh.propagate_matrix_fn', F + 'ForwardMesh.params', F + 'ForwardMesh.column_ordered', F + 'ForwardMesh.aggregate'], trials=30, cbudget=35)
def mesh_random(h):
    np, jnp = h.np, h.jnp
    m = rand_mesh(h, sorted_ids=h.flag('sorted'))
    U = ref_matrix(h, m)
    n = m.n
    before = [x.copy() for x in (m.thetas, m.phis, m.gammas, m.bs_errors, m.losses)]
    K = h.int('K', lo=1, chi=3)
    v = h.array('v', (n, K), kind='c')
    v0 = v.copy()
    h.all_eq(m.matrix(), U, 'matrix', tol=1e-5)
    h.all_eq(m.matrix_fn(use_jax=True)(), U, 'jax_matrix', tol=2e-5)
    h.all_eq(U.conj().T @ U, np.eye(n), 'reference_unitary')
    h.all_eq(m.matrix_fn()(m.params, v), U @ v0, 'inputs', tol=1e-5)
    h.all_eq(m.matrix_fn()(m.params, v[:, 0]), U @ v0[:, :1], 'input_vector', tol=1e-5)
    h.all_eq(m.matrix_fn()(m.params, v.real), U @ v0.real, 'real_inputs', tol=1e-5)
    h.all_eq(m.matrix_fn(use_jax=True)(m.params, jnp.array(v)), U @ v0, 'jax_inputs', tol=3e-5)
    P = m.propagate_matrix_fn(explicit=False)(m.params, v)
    h.all_eq(P[-1], U @ v0, 'propagate', tol=1e-5)
    h.ensure(P.shape[0] == m.num_columns + 2, 'one_state_per_column')
    for c in range(m.num_columns + 1):
        h.all_eq(P[c], ref_matrix(h, m, upto=c, gammas=False) @ v0, 'state_after_column', tol=1e-5)
    Pj = m.propagate_matrix_fn(explicit=False, use_jax=True)(m.params, jnp.array(v))
    h.all_eq(Pj, P, 'jax_propagate', tol=3e-5)
    if m.phase_style in ('top', 'bottom'):
        v1 = v if K > 1 else v
        Q = m.propagate_matrix_fn(explicit=True)(m.params, v)
        Qj = m.propagate_matrix_fn(explicit=True, use_jax=True)(m.params, jnp.array(v))
        Q, Qj = Q.reshape(-1, n, K), np.asarray(Qj).reshape(-1, n, K)
        h.all_eq(Q[-1], U @ v0, 'explicit', tol=1e-5)
        h.all_eq(Qj, Q, 'jax_explicit', tol=3e-5)
        for c in range(m.num_columns + 1):
            h.all_eq(Q[4 * c], ref_matrix(h, m, upto=c, gammas=False) @ v0, 'explicit_state_after_column', tol=1e-5)
    h.all_eq(m.propagate(v, explicit=False)[-1], U @ v0, 'propagate_method', tol=1e-5)
    h.all_eq(m.propagate(explicit=m.phase_style in ('top', 'bottom'))[-1], U, 'propagate_default_inputs', tol=1e-5)
    h.all_eq(v, v0, 'inputs_unchanged')
    for a, b in zip(before, (m.thetas, m.phis, m.gammas, m.bs_errors, m.losses)): h.all_eq(b, a, 'mesh_unchanged')
    p = m.params
    for x in p: x += 1
    h.all_eq(m.thetas, before[0], 'params_is_a_copy')
    p = tuple(x + .3 for x in m.params)
    h.all_eq(m.matrix(p), ref_matrix(h, m, p), 'other_parameters', tol=1e-5)
    e, l = h.npr.randn(len(m.nodes), 2) / 3, -3 * h.npr.rand(len(m.nodes), 2)
    W = ref_matrix(h, m, p, errors=e)
    h.all_eq(m.matrix_fn()(p, np.eye(n), e), W, 'errors_passed', tol=1e-5)
    h.all_eq(m.matrix_fn(use_jax=True)(p, jnp.eye(n), jnp.array(e), jnp.zeros(l.shape)), W, 'errors_passed_jax', tol=3e-5)
    jx = h.flag('propagate_jax')
    for explicit in (False, True)[:2 if m.phase_style in ('top', 'bottom') else 1]:
        h.all_eq(m.propagate_matrix_fn(explicit=explicit, use_jax=jx)(p, v0, e, 0 * l)[-1].reshape(n, K), W @ v0, 'errors_passed_propagate', tol=3e-5)
    W = ref_matrix(h, m, p, errors=e, losses=l)
    h.all_eq(m.matrix_fn(use_jax=jx)(p, jnp.array(v0) if jx else v0, e, l), W @ v0, 'losses_passed', tol=3e-5)
    h.all_eq(m.propagate_matrix_fn(explicit=False, use_jax=jx)(p, v0, e, l)[-1], W @ v0, 'losses_passed_propagate', tol=3e-5)
    top, bottom, ids, mask = m.idx()
    for c in range(m.num_columns):
        nd = [x for x in m.nodes if x.column == c]
        h.ensure(int(mask[c].sum()) == len(nd), 'mask')
        h.ensure(set(zip(top[c][:len(nd)], bottom[c][:len(nd)], ids[c][:len(nd)])) == {(x.top, x.bottom, x.node_id) for x in nd}, 'idx')


@spec('C02', sym=False, bounded='random topologies up to 6 modes', functions=[F + 'ForwardMesh.matrix_fn'], trials=20)
def mesh_lossy(h):
    m = rand_mesh(h, lossy=True)
    U = ref_matrix(h, m)
    h.all_eq(m.matrix(), U, 'matrix', tol=1e-5)
    h.all_eq(m.matrix_fn(use_jax=True)(), U, 'jax_matrix', tol=2e-5)
    h.ensure(h.np.linalg.norm(U, 2) <= 1 + 1e-9, 'never_amplifies')
    P = m.propagate_matrix_fn(explicit=False)()
    h.all_eq(P[-1], U, 'propagate', tol=1e-5)


@spec('C02', sym=False, bounded='empty meshes of up to 3 modes', functions=[F + 'ForwardMesh.matrix_fn'], trials=4)
def mesh_empty(h):
    fw = h.mod(FW)
    m = fw.ForwardMesh([])
    h.all_eq(m.matrix(), h.np.diag(h.np.exp(1j * m.gammas)), 'screen_only', tol=1e-5)
