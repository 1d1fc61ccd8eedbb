"""C12: gradients of the differentiable linear solve and of the differentiable mode operators."""
from engine.runner import spec
from specs.c07 import G, GF
from specs.c09 import yee, stencil, flat, nxt, phases
from specs.c10 import widths
from specs.c11 import FD, FDF, fdfd, coo

PR, PF = 'simphox.primitives', 'simphox/primitives.py:'


def pullback(h, f, args, g):
    """value and cotangents by the registered reverse rule"""
    if h.symbolic:
        v, res = f.fwd(*args)
        out = f.bwd(res, g)
        h.ensure(isinstance(out, tuple) and len(out) == len(args), 'a_cotangent_per_argument')
        return v, out
    import jax
    v, vjp = jax.vjp(f, *args)
    return v, vjp(h.jnp.asarray(g, dtype=v.dtype))


class Coo:
    """contract of scipy.sparse.coo_matrix: the matrix of the given triplets"""
    def __init__(self, t, shape=None, **k): (self.v, (self.i, self.j)), self.shape = t, shape


@spec('C12', functions=[PF + '_spsolve_hcb', PF + 'spsolve'], trials=20)
def system(h):
    """the solve asks for the matrix of the entries at their indices, as many rows as the right hand side has entries, and returns the answer"""
    n, m = h.int('n', lo=1, chi=6), h.int('nnz', lo=1, chi=9)
    pr = h.mod(PR)
    if h.symbolic:
        a, b, x = h.array('a', (m,), kind='c', jx=True), h.array('b', (n,), kind='c', jx=True), h.array('x', (n,), kind='c', jx=True)
        ind = h.array('ind', (2, m), kind='i', jx=True)
        rec = []

        def solver(M, r):
            rec.append((M, r))
            return x
        import types
        h.override(PR, 'sp', types.SimpleNamespace(coo_matrix=Coo, csr_matrix=None))
        h.override(PR, '_spsolve', solver)
        out = pr.spsolve(a, b, ind)
        h.ensure(len(rec) == 1, 'one_solve')
        M, r = rec[0]
        h.ensure(tuple(bool(q == n) for q in M.shape) == (True, True), 'shape')
        h.forall('k', [(0, m)], lambda k: (h.eq(M.v[k], a[k], 'entries'), h.eq(M.i[k], ind[0, k], 'rows'), h.eq(M.j[k], ind[1, k], 'columns')))
        h.forall('i', [(0, n)], lambda i: (h.eq(r[i], b[i], 'right_hand_side'), h.eq(out[i], x[i], 'answer')))
    else:
        np = h.np
        d = np.array(h.array('a', (n, n), kind='c')) + 4 * np.eye(n)
        keep = np.array(h.array('keep', (n, n), kind='f')) > 0
        d = np.where(keep | np.eye(n, dtype=bool), d, 0)
        i, j = np.nonzero(d)
        b = np.array(h.array('b', (n,), kind='c'))
        x = np.asarray(pr.spsolve(h.jnp.array(d[i, j]), h.jnp.array(b), h.jnp.array([i, j])))
        h.ensure(np.allclose(d @ x, b, atol=1e-4), 'answer')


@spec('C12', functions=[PF + 'spsolve_fwd', PF + 'spsolve_bwd'], trials=1)
def adjoint_rule(h):
    """for any number of unknowns and entries: the cotangent of the source solves the transposed system, that of entry k is -lambda[row k] x[column k]"""
    if not h.symbolic: return
    n, m = h.int('n', lo=1), h.int('nnz', lo=1)
    a, b, g = (h.array(q, (z,), kind='c', jx=True) for q, z in (('a', m), ('b', n), ('g', n)))
    ind = h.array('ind', (2, m), kind='i', jx=True)
    # positions within the matrix
    x, lam = h.array('x', (n,), kind='c', jx=True), h.array('lam', (n,), kind='c', jx=True)
    rec = []

    def solve(v, r, p):
        rec.append((v, r, p))
        return x if len(rec) == 1 else lam
    pr = h.mod(PR)
    rule = pr.spsolve
    h.override(PR, 'spsolve', solve)
    v, res = rule.fwd(a, b, ind)
    da, db, di = rule.bwd(res, g)
    h.ensure(len(rec) == 2, 'one_forward_and_one_adjoint_solve')
    h.ensure(di is None, 'indices_have_no_gradient')
    h.forall('i', [(0, n)], lambda i: (h.eq(v[i], x[i], 'value'), h.eq(rec[0][1][i], b[i], 'source'), h.eq(rec[1][1][i], g[i], 'cotangent'), h.eq(db[i], lam[i], 'gradient_of_the_source')))

    def entry(k):
        for q in range(2):
            h.assume(ind[q, k] >= 0)
            h.assume(ind[q, k] < n)
            h.eq(rec[0][0][k], a[k], 'entries')
            h.eq(rec[1][0][k], a[k], 'entries_of_the_adjoint')
            h.eq(rec[0][2][q][k], ind[q, k], 'positions')
            h.eq(rec[1][2][q][k], ind[1 - q, k], 'transposed_positions')
        h.eq(da[k], -lam[ind[0, k]] * x[ind[1, k]], 'gradient_of_the_entries')
    h.forall('k', [(0, m)], entry)


PATTERNS = [(1, [(0, 0)]), (2, [(0, 0), (1, 1), (0, 1)]), (2, [(1, 0), (0, 1), (1, 1), (0, 0)]), (3, [(0, 0), (1, 1), (2, 2), (2, 0), (0, 1)]),
            (3, [(0, 1), (1, 2), (2, 0)]), (3, [(0, 0), (0, 0), (1, 1), (2, 2), (1, 2), (2, 1), (0, 2)])]


@spec('C12', functions=[PF + 'spsolve_fwd', PF + 'spsolve_bwd', PF + '_spsolve_hcb'], bounded='up to three unknowns with up to seven entries (also repeated); all values', trials=30)
def true_derivative(h):
    """<g, dx> = <cotangent of the entries, dA> + <cotangent of the source, db> for every perturbation with A dx + dA x = db"""
    n, pat = h.choice('pattern', PATTERNS)
    K = range(len(pat))
    pr = h.mod(PR)
    a, da = ([h.complex(f'{nm}{k}') for k in K] for nm in ('a', 'da'))
    if not h.symbolic: a = [v + (4 if i == j else 0) for v, (i, j) in zip(a, pat)]
    x, dx, lam = ([h.complex(f'{nm}{i}') for i in range(n)] for nm in ('x', 'dx', 'lam'))
    mul = lambda e, v, t=False: [sum([e[k] * v[pat[k][0 if t else 1]] for k in K if pat[k][1 if t else 0] == i], 0) for i in range(n)]
    b, g = mul(a, x), mul(a, lam, True)
    db = [p + q for p, q in zip(mul(a, dx), mul(da, x))]
    N = h.jnp
    ind = N.array([[p[0] for p in pat], [p[1] for p in pat]])
    args = (N.stack([N.array(q) for q in a]), N.stack([N.array(q) for q in b]), ind)
    gg = N.stack([N.array(q) for q in g])
    if h.symbolic:
        def solver(M, r):
            """contract: the answer solves the system which was asked"""
            v = M @ h.np.array(lam if solver.n else x)
            for i in range(n): h.eq(v[i], r[i], 'system_asked')
            solver.n += 1
            return N.stack([N.array(q) for q in (x if solver.n == 1 else lam)])
        solver.n = 0
        h.override(PR, '_spsolve', solver)
        v, (ca, cb, ci) = pullback(h, pr.spsolve, args, gg)
    else:
        if h.np.linalg.cond(h.np.array([[sum(a[k] for k in K if pat[k] == (i, j)) for j in range(n)] for i in range(n)])) > 50: h.assume(False)
        import jax
        v, vjp = jax.vjp(lambda p, q: pr.spsolve(p, q, ind), *args[:2])
        ca, cb = vjp(gg.astype(v.dtype))
    for i in range(n): h.eq(v[i], x[i], 'value', tol=1e-3)
    h.eq(sum(g[i] * dx[i] for i in range(n)), sum(ca[k] * da[k] for k in K) + sum(cb[i] * db[i] for i in range(n)), 'derivative', tol=1e-3)


# ---- mode operators
def operator(h, axis):
    gr, n, n3, sp = yee(h, 2, 'any', bloch=h.symbolic)
    op = h.mod(PR).TMOperator(gr.deriv_forward, gr.deriv_backward)
    return gr, n, n3, op, op.compile_operator_along_axis(axis), (op.x_indices, op.y_indices)[axis]


@spec('C12', functions=[PF + 'TMOperator.__init__', PF + 'TMOperator.compile_operator_along_axis', PF + '_coo_to_jnp'], budget=300, trials=30)
def operator_value(h):
    """the entries, at the positions of the operator, are those of backward difference . diagonal(t) . forward difference"""
    ax = h.choice('axis', [0, 1])
    gr, n, n3, op, te, ind = operator(h, ax)
    t = h.array('t', (gr.n,), kind='f', pos=True, jx=True)
    y = h.array('y', (gr.n,), kind='c')
    out = coo(h, te(t), ind, gr.n, n3) @ y
    fw = lambda *q: t[flat(n3, *q)] * stencil(h, gr, 2, n3, lambda *s: y[flat(n3, *s)], ax, False, q)
    h.forall('i', [(0, m) for m in n3], lambda *i: h.eq(out[flat(n3, *i)], stencil(h, gr, 2, n3, fw, ax, True, i), 'operator', tol=None if h.symbolic else 1e-3))


@spec('C12', functions=[PF + 'TMOperator.__init__', PF + 'TMOperator.compile_operator_along_axis'], budget=300, trials=30)
def operator_gradient(h):
    """the cotangent of t[m] is the real part of the sum over entries (i, j) of cotangent times backward[i, m] forward[m, j]"""
    ax = h.choice('axis', [0, 1])
    gr, n, n3, op, te, ind = operator(h, ax)
    t = h.array('t', (gr.n,), kind='f', pos=True, jx=True)
    if h.symbolic:
        from engine.symsp import Mat, Entries, merged
        from engine import terms as T
        C = ind.rows[0].parts[0][1]
        app = lambda i, j: T.app('g', (i, j), False)
        M = Mat(C.shp, lambda i: [(j, app(i, j)) for j, _ in merged(C.row_(i))], lambda j: [(i, app(i, j)) for i, _ in merged(C.col_(j))], 'c', 'coo')
        g = Entries([('data', M)])
        from engine.core import S
        from engine import symnp as N
        w = lambda i, j: S(app(N.index_p(i), N.index_p(j)), 'c')
    else:
        g = h.array('g', (int(ind.shape[1]),), kind='c')
        pos = {(int(i), int(j)): k for k, (i, j) in enumerate(zip(*h.np.asarray(ind)))}
        w = lambda i, j: g[pos[(i, j)]]
    v, (c,) = pullback(h, te, (t,), g)
    h.ensure(c.shape[0] == gr.n, 'size')

    def body(*m):
        if bool(n3[ax] == 1):
            h.eq(c[flat(n3, *m)], 0, 'no_dependence')
            return
        p = list(m)
        p[ax], wrap = nxt(m[ax], n3[ax])
        b = phases(gr, 2)[ax] if wrap else 1
        i0, i1 = flat(n3, *m), flat(n3, *p)
        f0, f1 = -1 / gr._dxes[0][ax][m], b / gr._dxes[0][ax][m]                              # forward difference in cell m, of cells m and m+1
        a0, a1 = 1 / gr._dxes[1][ax][m], -h.np.conj(b) / gr._dxes[1][ax][tuple(p)]            # backward differences in cells m and m+1, of cell m
        ref = sum(x * y * w(i, j) for x, i in ((a0, i0), (a1, i1)) for y, j in ((f0, i0), (f1, i1)))
        h.eq(c[i0], h.np.real(ref), 'derivative', tol=None if h.symbolic else 1e-3)
    h.forall('m', [(0, q) for q in n3], body)


@spec('C12', functions=[PF + 'TMOperator.compile_operator_along_axis'], trials=3)
def axes(h):
    g = h.mod(G)
    gr = g.YeeGrid((1., 1.), 0.5)
    op = h.mod(PR).TMOperator(gr.deriv_forward, gr.deriv_backward)
    h.raises(lambda: op.compile_operator_along_axis(h.choice('axis', [2, -1, 3])), ValueError, 'only_two_axes')


@spec('C12', functions=[FDF + 'FDFD.get_fields_fn'], bounded='concrete runs against central differences of the solve', trials=8, cbudget=30)
def derivative_of_the_fields(h):
    """the gradient of a functional of the differentiable fields with respect to the permittivity"""
    if h.symbolic: return
    import jax
    np = h.np
    old = jax.config.jax_enable_x64
    jax.config.update('jax_enable_x64', True)
    try:
        f = h.mod(FD)
        n = (h.int('nx', lo=3, chi=7), h.int('ny', lo=3, chi=7))
        eps = 1.5 + np.abs(np.array(h.array('eps', n, kind='f')))
        tm = h.flag('tm')
        gr = f.FDFD((n[0] * 0.25, n[1] * 0.25), 0.25, wavelength=h.real('wavelength', lo=0.7, hi=2), eps=eps)
        widths(h, gr, [n[0], n[1], 1])
        src = np.array(h.array('src', (gr.n,), kind='c'))
        w = np.array(h.array('w', (2, 3) + n + (1,), kind='c'))
        fn = gr.get_fields_fn(src, tm_2d=tm)
        cost = lambda r: jax.numpy.abs(jax.numpy.sum(w * fn(r))) ** 2 + jax.numpy.sum(jax.numpy.abs(fn(r)) ** 2)
        p = np.array(h.array('dir', n, kind='f'))
        s = 1e-4
        fd = (cost(jax.numpy.array(eps + s * p)) - cost(jax.numpy.array(eps - s * p))) / (2 * s)
        fd2 = (cost(jax.numpy.array(eps + 2 * s * p)) - cost(jax.numpy.array(eps - 2 * s * p))) / (4 * s)
        g = jax.grad(cost)(jax.numpy.array(eps))
        d = float(np.sum(np.asarray(g) * p))
        scale = max(abs(float(fd)), float(np.sqrt(np.sum(np.asarray(g) ** 2))), 1e-12)
        if abs(float(fd) - float(fd2)) > 1e-3 * scale: h.assume(False)      # near a resonance: the difference is not accurate
        h.ensure(abs(float(fd) - d) < 1e-2 * scale, 'derivative')
    finally: jax.config.update('jax_enable_x64', old)
