"""C24: in situ gradients equal the analytic gradients of the mesh."""
import contextlib

from engine.runner import spec
from specs.c01 import F, FW, CP, STYLES
from specs.c02 import small_mesh, small_ref

from specs.meshlib import rand_mesh, ref_matrix

# (modes, [(column, top, bottom, node id)]): ragged columns, permuted ids, crossing and reversed pairs
MESHES = [(2, [(0, 0, 1, 0)]), (3, [(0, 0, 1, 1), (1, 2, 1, 0)]), (4, [(0, 0, 1, 2), (0, 3, 2, 0), (1, 1, 2, 3), (2, 0, 3, 1)]),
          (5, [(0, 4, 2, 5), (0, 0, 1, 1), (1, 1, 3, 4), (2, 0, 1, 0), (2, 2, 3, 2), (3, 3, 4, 3)])]


def fixed_mesh(h, style):
    cp, fw = h.mod(CP), h.mod(FW)
    n, nodes = h.choice('mesh', MESHES)
    return fw.ForwardMesh([cp.CouplingNode(node_id=i, n=n, top=t, bottom=b, column=c) for c, t, b, i in nodes], phase_style=style), n, nodes


@contextlib.contextmanager
def norm_values(h, inorm, gnorm):
    """norms of the inputs (named x) and of the cotangent: any positive numbers"""
    lin, N = h.mod(FW).__dict__['jnp'].linalg.__dict__, h.N
    old = lin.get('norm')

    def norm(v, axis=None, **k):
        v = N.asarray(v)
        r = v.rp()((N.ZERO,) * v.ndim)
        return N.asarray(inorm if any('x' in repr(a) for a in r.atoms()) else gnorm)
    lin['norm'] = norm
    try: yield
    finally: lin['norm'] = old


@spec('C24', functions=[F + 'ForwardMesh.phase_shift_localize'], bounded='every measured power; a list of topologies', trials=20)
def localised(h):
    """every phase gets the power in front of its own shifter: at its node's column, in the arm of the phase style, summed over the inputs"""
    style = h.choice('style', ['top', 'bottom'])
    if h.symbolic: m, n, nodes = fixed_mesh(h, style)
    else:
        m = rand_mesh(h, style=style, sorted_ids=h.flag('sorted'))
        n, nodes = m.n, [(nd.column, nd.top, nd.bottom, nd.node_id) for nd in m.nodes]
    nc = max(c for c, *_ in nodes) + 1
    K = h.choice('inputs', [0, 1, 3])
    P = h.array('P', (4 * nc + 2, n) + ((K,) if K else ()), kind='f', jx=True)
    th, ph, ga = m.phase_shift_localize(P, use_jax=h.flag('jax'))
    total = lambda a, b: sum(P[a, b, k] for k in range(K)) if K else P[a, b]
    h.ensure(tuple(th.shape) == (len(nodes),) and tuple(ph.shape) == (len(nodes),) and tuple(ga.shape) == (n,), 'one_per_phase')
    for c, t, b, i in nodes:
        arm = b if style == 'bottom' else t
        h.eq(th[i], total(4 * c + 2, arm), 'internal_phases', tol=1e-5)
        h.eq(ph[i], total(4 * c, arm), 'external_phases', tol=1e-5)
    for a in range(n): h.eq(ga[a], total(-1, a), 'output_phases', tol=1e-5)


@spec('C24', functions=[F + 'ForwardMesh.in_situ_matrix_fn'], budget=200, trials=1)
def measured(h):
    """any mesh of any size: the measured power is minus twice the imaginary part of forward times backward field, everywhere in the circuit, and the
    gradient of the inputs is the backward field.  The mesh is any linear map which is lossless up to every point of the circuit."""
    if not h.symbolic: return
    fw = h.mod(FW)
    N, T = h.N, h.T
    from engine.core import S
    analog, two = h.flag('all_analog'), h.flag('several_inputs')
    n, L = h.int('n', lo=1), h.int('L', lo=1)
    K = h.int('K', lo=2) if two else 1
    nn = N.dim(n)
    sh = (n, K) if two else (n,)
    x, g = h.array('x', sh, kind='c', jx=True), h.array('g', (n, K), kind='c', jx=True)
    # the norms which make the optical powers comparable: any positive numbers
    norms = [h.real('inorm', pos=True), h.real('gnorm', pos=True)]
    seen = []

    def fields(v):
        """the field everywhere in the circuit for the input v"""
        v = N.asarray(v)
        rd = v.rp()
        at = (lambda j, k: rd((j, k))) if v.ndim == 2 else (lambda j, k: rd((j,)))
        # the first point is the input itself; every other one a linear map of it
        return lambda s, a, k: at(a, k) if S(s, 'i') == 0 else N.sum_range(N.ZERO, nn, lambda j: T.app('U', (s, a, j), False) * at(j, k))

    def shape(v): return N.Arr((N.dim(L), nn, N.dim(K)) if two else (N.dim(L), nn), (lambda i: v(*i)) if two else (lambda i: v(i[0], i[1], N.ZERO)), 'c', True)
    # the field which comes back; the instrument reads amplitude and phase of every entry: none vanishes exactly, or all do
    if not analog: back = h.array('adj', (n, K), kind='c', jx=True)
    elif h.flag('dark'): back = h.jnp.zeros((n, K), dtype=complex)
    else: back = h.array('amplitude', (n, K), pos=True, jx=True) * h.np.exp(1j * h.array('phase', (n, K), jx=True))

    ers, los = h.array('given_error', (2, 2), jx=True), h.array('given_loss', (2, 2), jx=True)

    def given(bs_errors=None, loss_errors=None):
        """every measurement is one of the mesh with the errors and losses given to the function (not those of the mesh)"""
        for v, w, nm in ((bs_errors, ers, 'errors'), (loss_errors, los, 'losses')):
            h.ensure(v is not None, nm + '_given')
            if v is not None: h.all_eq(v, w, nm + '_given')

    class Mesh(fw.ForwardMesh):
        all_errors = all_losses = property(lambda self: h.np.zeros((1, 2)))
        params = property(lambda self: (h.np.zeros(1),) * 3)
        def matrix_fn(self, use_jax=False, back=False):
            def f(p, v, *a, **k):
                given(*a, **k)
                if back: seen.append(('back', v))
                return adj if back else h.array('y', (n, K), kind='c', jx=True)
            return f
        def propagate_matrix_fn(self, back=False, use_jax=False, **k):
            def f(p, v, *a, **k):
                given(*a, **k)
                if not back: return shape(fields(v))
                seen.append(('back', v))
                # reversed order; lossless: the backward field at a point is the conjugate of the field the conjugated result gives there
                cj = fields(N.asarray(adj).conj())
                from engine.core import S as _S
                z = lambda s, a, k: cj(N.dim(L) - N.ONE - s, a, k).conj()
                return shape(z)
            return f
        def phase_shift_localize(self, P, use_jax=True):
            seen.append(('powers', P))
            return (P, P, P)
    adj = back
    m = Mesh.__new__(Mesh)
    m.n, m.phase_style = n, 'top'
    with norm_values(h, *norms):
        fn = m.in_situ_matrix_fn(all_analog=analog)
        P3, dx, de, dl = fn.bwd((m.params, x, ers, los), g)
    P = [q for k, q in seen if k == 'powers'][0]
    sent = [q for k, q in seen if k == 'back'][0]
    fx, fa = fields(x), fields(N.asarray(adj).conj() if two else N.asarray(adj).conj())
    one = norms[1]
    h.forall('j', [(0, n), (0, K)], lambda *i: h.eq(sent[i] * one, g[i], 'cotangent_sent_backwards'))
    sh_ = (lambda *i: i) if two else (lambda *i: i[:1])
    h.forall('j', [(0, n), (0, K)], lambda *i: h.eq(dx[sh_(*i)], adj[i] * one, 'gradient_of_the_inputs'))

    def body(*i):
        s, a = N.dim(i[0]), N.dim(i[1])
        k = N.dim(i[2]) if two else N.ZERO
        f, c = S(fx(s, a, k), 'c'), S(fa(s, a, k), 'c')
        # backward field times the norm of the cotangent (the measurement is made with the normalised one)
        h.eq(P[i if two else i[:2]], -h.np.imag(f * h.np.conj(c)) * one, 'measured_gradient')
    h.forall('p', [(0, L), (0, n)] + ([(0, K)] if two else []), body)


@spec('C24', functions=[F + 'ForwardMesh.in_situ_matrix_fn', F + 'ForwardMesh.phase_shift_localize', F + 'ForwardMesh.propagate_matrix_fn', F + 'ForwardMesh.matrix_fn', F + '_parallel_propagate', F + '_parallel_multiply'],
      bounded='one ragged three mode mesh with permuted nodes; every phase, error, input and cotangent', budget=300, trials=1)
def small_rule(h):
    """the in situ gradients of a small mesh are the analytic ones, for every phase, error, input and cotangent"""
    if not h.symbolic: return
    style = h.choice('style', ['top', 'bottom'])
    m = small_mesh(h, style)
    shape = h.choice('shape', [(3,), (3, 1)])
    x, g = h.array('x', shape, kind='c', jx=True), h.array('w', (3, 1), kind='c', jx=True)
    xs, gs = [x[i] if len(shape) == 1 else x[i, 0] for i in range(3)], [g[i, 0] for i in range(3)]
    # coupler errors given to the function, by node id, whatever those of the mesh itself are
    ers = h.array('given_error', (2, 2)) if h.flag('errors_given') else None
    with norm_values(h, h.real('inorm', pos=True), h.real('gnorm', pos=True)):
        (th, ph, ga), dx, de, dl = m.in_situ_matrix_fn(all_analog=False).bwd((m.params, x, m.all_errors if ers is None else ers, m.all_losses), g)

    def out():
        U, *_ = small_ref(h, m, style, ers)
        return U, [sum(U[i][j] * xs[j] for j in range(3)) for i in range(3)]
    U, y = out()
    for nm, got, arr, k in (('internal', th, m.thetas, 2), ('external', ph, m.phis, 2), ('output', ga, m.gammas, 3)):
        for i in range(k):
            old = arr[i]
            arr[i] = old + h.pi
            s = out()[1]
            arr[i] = old
            # the output is a + b exp(i phase): its derivative is half the difference of two settings of the phase
            h.eq(got[i], h.np.real(sum(gs[o] * 1j * (y[o] - s[o]) / 2 for o in range(3))), nm + '_phases')
    for j in range(3): h.eq(dx[j] if len(shape) == 1 else dx[j, 0], sum(U[i][j] * gs[i] for i in range(3)), 'inputs')
    h.all_eq(de, h.np.zeros(m.all_errors.shape), 'errors_are_fixed')
    h.all_eq(dl, h.np.zeros(m.all_losses.shape), 'losses_are_fixed')


@spec('C24', functions=[F + 'ForwardMesh.in_situ_matrix_fn', F + 'ForwardMesh.phase_shift_localize'], bounded='random meshes, inputs and cotangents', trials=40, sym=False, cbudget=60)
def random_meshes(h):
    """in situ gradients of random and built meshes are those of automatic differentiation"""
    if h.symbolic: return
    import numpy as np, jax, jax.numpy as jnp
    c = __import__('simphox.circuit', fromlist=['x'])
    kind = h.choice('mesh', ['random', 'random', 'built'])
    if kind == 'built':
        from scipy.stats import unitary_group
        n = h.int('n', lo=2, chi=4)
        b = h.choice('builder', ['rectangular', 'triangular', 'cascade', 'tree', 'unbalanced'])
        u = unitary_group.rvs(n, random_state=h.npr.randint(1 << 30))
        m = {'rectangular': lambda: c.rectangular(u), 'triangular': lambda: c.triangular(u), 'cascade': lambda: c.cascade(u), 'tree': lambda: c.balanced_tree(n),
             'unbalanced': lambda: c.unbalanced_tree(n)}[b]()
    else: m = rand_mesh(h, n=h.int('n', lo=2, chi=4), ncol=h.int('columns', lo=1, chi=3), style=h.choice('style', ['top', 'bottom']), sorted_ids=h.flag('sorted'))
    n, K = m.n, h.choice('inputs', [0, 1, 3])
    analog, cx = h.flag('all_analog'), h.flag('complex_inputs')
    rnd = lambda s: h.npr.randn(*s) * 10 ** h.npr.uniform(-2, 2)
    x = rnd((n, K) if K else (n,))
    if cx: x = x + 1j * rnd(x.shape)
    x = jnp.array(x, dtype=np.complex64 if cx else np.float32)
    shift = lambda p: jnp.array(np.asarray(p) + h.npr.randn(*np.shape(p)), dtype=np.float32)
    p = tuple(shift(q) for q in m.params)
    # the coupler errors of the mesh, or others given to the function
    en = np.asarray(m.all_errors if h.flag('own_errors') else h.npr.randn(len(m.nodes), 2) / 3)
    e, l = jnp.array(en), jnp.array(m.all_losses)
    fn = m.in_situ_matrix_fn(all_analog=analog)
    y, v = jax.vjp(lambda *a: fn(*a, e, l), p, x)
    pn, xn = [np.asarray(q, dtype=float) for q in p], np.asarray(x, dtype=complex)
    U = ref_matrix(h, m, params=pn, errors=en)
    scale = float(np.abs(xn).max())
    h.all_eq(np.asarray(y).reshape((n, K or 1)) / scale, (U @ xn).reshape((n, K or 1)) / scale, 'output', tol=1e-4)
    g = rnd(y.shape) + 1j * rnd(y.shape)
    if h.flag('zero'): g = g * 0
    elif K and h.flag('some_zero'): g[:, h.rng.randrange(g.shape[1])] = 0
    P, dx = v(jnp.array(g, dtype=y.dtype))
    gs = np.abs(g).max() or 1.
    G, X = g.reshape((n, K or 1)), xn.reshape((n, K or 1))
    for i, nm in enumerate(('internal', 'external', 'output')):
        h.ensure(P[i].shape == pn[i].shape, nm + '_shape')
        for k in range(len(pn[i])):
            q = [r.copy() for r in pn]
            q[i][k] += np.pi
            # the output is a + b exp(i phase): its derivative is half the difference of two settings of the phase
            want = np.real(np.sum(G * (1j * (U - ref_matrix(h, m, params=q, errors=en)) / 2 @ X)))
            h.eq(float(P[i][k]) / (gs * scale * max(K, 1)), want / (gs * scale * max(K, 1)), nm + '_phases', tol=3e-4)
    h.ensure(dx.shape == x.shape, 'inputs_shape')
    back = U.T @ G
    h.all_eq(np.asarray(dx).reshape((n, K or 1)) / gs, (back if cx else back.real) / gs, 'inputs', tol=2e-4)


@spec('C24', functions=[F + 'ForwardMesh.in_situ_matrix_fn', F + 'ForwardMesh.matrix_fn'], bounded='random meshes, inputs and cotangents', trials=4, sym=False, cbudget=30)
def automatic(h):
    """in situ gradients agree with automatic differentiation of the mesh"""
    if h.symbolic: return
    import numpy as np, jax, jax.numpy as jnp
    m = rand_mesh(h, n=h.int('n', lo=2, chi=4), ncol=h.int('columns', lo=1, chi=3), style=h.choice('style', ['top', 'bottom']), sorted_ids=h.flag('sorted'))
    x = jnp.array(h.npr.randn(m.n, 2) + 1j * h.npr.randn(m.n, 2), dtype=np.complex64)
    p = tuple(jnp.array(q, dtype=np.float32) for q in m.params)
    e, l = jnp.array(m.all_errors if h.flag('own_errors') else h.npr.randn(len(m.nodes), 2) / 3), jnp.array(m.all_losses)
    y, v = jax.vjp(lambda *a: m.matrix_fn(use_jax=True)(*a, e, l), p, x)
    fn = m.in_situ_matrix_fn()
    y2, v2 = jax.vjp(lambda *a: fn(*a, e, l), p, x)
    g = h.npr.randn(*y.shape) + 1j * h.npr.randn(*y.shape)
    (P, dx), (P2, dx2) = v(jnp.array(g, dtype=y.dtype)), v2(jnp.array(g, dtype=y2.dtype))
    for a, b, nm in zip(P, P2, ('internal', 'external', 'output')): h.all_eq(b, a, nm + '_phases', tol=1e-3)
    h.all_eq(dx2, dx, 'inputs', tol=1e-3)
