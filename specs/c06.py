"""C06: decomposed meshes reproduce their unitary."""
from engine.runner import spec
from specs.c01 import F, K, FW, CP, STYLES
from specs.c04 import V, VF
M, MF = 'simphox.circuit.matrix', 'simphox/circuit/matrix.py:'
R, RF = 'simphox.circuit.rectangular', 'simphox/circuit/rectangular.py:'


def unitaries(h, n):
    """a random unitary, generic or degenerate"""
    np = h.np
    kind = h.choice('unitary', ['haar', 'haar', 'identity', 'permutation', 'phases', 'blocks', 'dft', 'real', 'reflection', 'nearly_diagonal'])
    def haar(k):
        q, r = np.linalg.qr(h.npr.randn(k, k) + 1j * h.npr.randn(k, k))
        return q * (np.diag(r) / abs(np.diag(r)))
    if kind == 'haar': return kind, haar(n)
    if kind == 'identity': return kind, np.eye(n) + 0j
    if kind == 'permutation': return kind, np.eye(n)[h.npr.permutation(n)] + 0j
    if kind == 'phases': return kind, np.diag(np.exp(1j * h.npr.uniform(0, 7, n)))
    if kind == 'dft': return kind, np.fft.fft(np.eye(n)) / np.sqrt(n)
    if kind == 'real': return kind, np.linalg.qr(h.npr.randn(n, n))[0]
    if kind == 'reflection': return kind, np.fliplr(np.diag(np.exp(1j * h.npr.uniform(0, 7, n))))
    if kind == 'nearly_diagonal':
        from scipy.linalg import expm
        a = h.npr.randn(n, n) + 1j * h.npr.randn(n, n)
        return kind, expm(1e-4 * (a - a.conj().T))
    k = n // 2
    u = np.zeros((n, n), complex)
    u[:k, :k], u[k:, k:] = haar(k), haar(n - k)
    return kind, u


@spec('C06', functions=[MF + 'cascade', MF + 'triangular', MF + 'tree_cascade', F + 'ForwardMesh.aggregate', F + 'ForwardMesh.offset', F + 'ForwardMesh.offset_column', VF + 'vector_unit', VF + '_program_vector_unit'], budget=300, tol=3e-5, trials=24)
def cascade_stages(h):
    """every unitary of 2-4 modes (symbolically), both cascades, every style.  parallel_nullify is used by its contract (C05): every unitary is
    the product of the stages whose phases it returns."""
    mat, vec, fw, np = h.mod(M), h.mod(V), h.mod(FW), h.np
    n, bal = h.choice('shape', [(2, True), (2, False), (3, True), (3, False), (4, True), (4, False)] if h.symbolic else [(k, b) for k in (2, 3, 4, 5, 6, 8, 9) for b in (True, False)])
    style = h.choice('style', ['top', 'bottom', 'differential'])
    if not h.symbolic:
        _, u = unitaries(h, n)
        keep = u.copy()
        net = mat.cascade(u, balanced=bal, phase_style=style)
        h.eq(u, keep, 'input_unchanged')
        h.eq(net.matrix(), u, 'cascade_is_the_unitary')
        f = mat.tree_cascade if bal else mat.triangular
        g = f(u, phase_style=style)
        h.eq(g.matrix(), u, 'public_function_is_the_unitary')
        h.ensure(g.phase_style == style and net.phase_style == style, 'phase_style')
        h.ensure(f(n).matrix().shape == (n, n), 'any_unitary_of_a_size')
        h.eq(net.num_nodes, n * (n - 1) // 2, 'nodes')
        return
    stage = {}
    w = [[np.exp(1j * h.real('g0'))]]
    for k in range(2, n + 1):
        t = vec.tree(k, balanced=bal, phase_style=style)
        ths = np.array([h.real(f'th{k}_{i}') for i in range(k - 1)]); phs = np.array([h.real(f'ph{k}_{i}') for i in range(k - 1)])
        t.params = ths, phs, np.zeros(k)
        stage[k] = (ths, phs)
        T = t.matrix()
        g = np.exp(1j * h.real(f'g{k - 1}'))
        blk = [[w[i][j] if i < k - 1 and j < k - 1 else (g if i == j else 0) for j in range(k)] for i in range(k)]
        w = [[sum((np.conj(T[l, i] + 0j) * blk[l][j] for l in range(k)), 0) for j in range(k)] for i in range(k)]
    wd = np.array(w)
    u = np.array([[np.conj(w[j][i] + 0j) for j in range(n)] for i in range(n)])

    def nullify(self, vector, terms):
        ths, phs = stage[int(vector.shape[0])]
        th, ph = ths[self.node_idxs], phs[self.node_idxs]
        t = self.parallel_mzi(th, ph)
        h.eq(t[0] * vector[self.top][:, -1] + t[2] * vector[self.bottom][:, -1], np.zeros(len(self.nodes)), 'settled_inputs')
        return th, ph
    h.override_attr(fw.ForwardMesh, 'parallel_nullify', nullify)
    net = mat.cascade(u, balanced=bal, phase_style=style)
    h.eq(net.matrix(), u, 'cascade_is_the_unitary')


def layers(h, ext, gamma, node, n):
    """matrix of a grid mesh: per layer external phases on every mode, then arbitrary two-mode nodes on the layer's pairs; finally gamma"""
    X = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    E = lambda p: h.np.exp(1j * p)
    for l in range(n):
        X = [[E(ext[i, l]) * X[i][j] for j in range(n)] for i in range(n)]
        for p in range(l % 2, n - 1, 2):
            a, b, c, d = node[l, p]
            X[p], X[p + 1] = [a * X[p][j] + b * X[p + 1][j] for j in range(n)], [c * X[p][j] + d * X[p + 1][j] for j in range(n)]
    return [[E(gamma[i]) * X[i][j] for j in range(n)] for i in range(n)]


@spec('C06', functions=[RF + 'grid_common_mode_flow'], budget=300, trials=15)
def common_mode_flow(h):
    """moving common-mode phases does not change the circuit, whatever the nodes; afterwards only the upper mode of each pair has a phase"""
    rec, np = h.mod(R), h.np
    n = h.choice('n', [2, 3, 4] if h.symbolic else [2, 3, 4, 5, 6, 7])
    ext = np.array([[h.real(f'e{i}_{j}') for j in range(n)] for i in range(n)])
    gam = np.array([h.real(f'g{i}') for i in range(n)])
    node = {(l, p): tuple(h.complex(f'{x}{l}_{p}') for x in 'abcd') for l in range(n) for p in range(l % 2, n - 1, 2)}
    before = layers(h, ext, gam, node, n)
    phi, g2 = rec.grid_common_mode_flow(np.array([[ext[i, j] for j in range(n)] for i in range(n)]), np.array([gam[i] for i in range(n)]))
    after = layers(h, phi, g2, node, n)
    for i in range(n):
        for j in range(n): h.eq(after[i][j], before[i][j], f'same_circuit_{i}{j}')
    for l in range(n):
        tops = list(range(l % 2, n - 1, 2))
        for i in range(n):
            if i not in tops: h.eq(np.exp(1j * phi[i, l]), 1, f'no_phase_{l}_{i}')


@spec('C06', functions=[RF + 'rectangular', RF + 'checkerboard_to_param', RF + 'get_alpha_checkerboard'], budget=200, tol=3e-5, trials=10)
def rectangular_two(h):
    """two modes, every unitary with no vanishing entry"""
    rec, np = h.mod(R), h.np
    if h.symbolic:
        p, q = h.real('p', pos=True), h.real('q', pos=True)
        r = np.sqrt(p ** 2 + q ** 2)
        c, s = p / r, q / r
        a, b, d = h.real('a'), h.real('b'), h.real('d')
        E = lambda x: np.exp(1j * x)
        u = np.array([[c * E(a), s * E(b)], [-s * E(d - b), c * E(d - a)]])
    else:
        _, u = unitaries(h, 2)
    net = rec.rectangular(u)
    h.eq(net.matrix(), u, 'rectangular_is_the_unitary')


@spec('C06', sym=False, bounded='random and degenerate unitaries of 2..11 modes', functions=[RF + 'rectangular', RF + 'grid_common_mode_flow'], trials=30, tol=3e-5)
def rectangular_random(h):
    rec, np = h.mod(R), h.np
    n = h.int('n', 2, 11)
    _, u = unitaries(h, n)
    keep = u.copy()
    net = rec.rectangular(u)
    h.eq(u, keep, 'input_unchanged')
    h.eq(net.matrix(), u, 'rectangular_is_the_unitary')
    h.eq(net.num_nodes, n * (n - 1) // 2, 'nodes')


@spec('C06', sym=False, bounded='random and degenerate unitaries of 2..11 modes', functions=[MF + 'cs', MF + 'csinv'], trials=30)
def cosine_sine(h):
    mat, np = h.mod(M), h.np
    n = h.int('n', 2, 11)
    _, u = unitaries(h, n)
    l0, l1, r0, r1, th = mat.cs(u.copy())
    h.eq(mat.csinv(l0, l1, r0, r1, th), u, 'factors_multiply_back')
    for x in (l0, l1, r0, r1): h.eq(x @ x.conj().T, np.eye(len(x)), 'factors_unitary')
    h.ensure(np.all((th >= -1e-9) & (th <= np.pi / 2 + 1e-9)), 'range')


@spec('C06', functions=[MF + 'csinv'], trials=10)
def cs_inverse(h):
    """csinv is the stated block product, for all factors of 2 and 3 modes"""
    mat, np = h.mod(M), h.np
    n = h.choice('n', [2, 3, 4])
    m = n // 2
    l0, r0 = h.array('l0', (m, m), 'c'), h.array('r0', (m, m), 'c')
    l1, r1 = h.array('l1', (n - m, n - m), 'c'), h.array('r1', (n - m, n - m), 'c')
    th = h.array('th', (m,))
    U = mat.csinv(l0, l1, r0, r1, th)
    mm = lambda A, B: [[sum((A[i, k] * B[k, j] for k in range(A.shape[1])), 0) for j in range(B.shape[1])] for i in range(A.shape[0])]
    C = [np.cos(th[i]) for i in range(m)]; S = [np.sin(th[i]) for i in range(m)]
    for i in range(n):
        for j in range(n):
            if i < m and j < m: ref = sum((l0[i, k] * S[k] * r0[k, j] for k in range(m)), 0)
            elif i < m: ref = sum((l0[i, k] * C[k] * r1[k, j - m] for k in range(m)), 0)
            elif j < m: ref = sum((l1[i - m, k] * C[k] * r0[k, j] for k in range(m)), 0)
            else: ref = sum((-l1[i - m, k] * S[k] * r1[k, j - m] for k in range(m)), 0) + (l1[i - m, m] * r1[m, j - m] if n % 2 else 0)
            h.eq(U[i, j], ref, f'block_{i}{j}')


@spec('C06', sym=False, bounded='random complex matrices, square up to 7', functions=[MF + 'psvd'], trials=12, tol=3e-5)
def photonic_svd(h):
    mat, np = h.mod(M), h.np
    n = h.int('n', 2, 7)
    m = h.choice('columns', [n, n, h.int('m', 2, 7)])
    a = h.array('a', (n, m), 'c')
    if h.flag('rank_deficient'): a[:, -1] = a[:, 0]
    l, d, r = mat.psvd(a)
    D = np.zeros((n, m))
    D[range(len(d)), range(len(d))] = d
    h.eq(l.matrix() @ D @ r.matrix(), a, 'svd_reproduces')


@spec('C06', sym=False, bounded='random vectors with non-zero entries', functions=[MF + 'dirichlet_matrix'], trials=15)
def dirichlet(h):
    mat, np = h.mod(M), h.np
    n = h.int('n', 2, 9)
    v = h.array('v', (n,), 'c')
    v = v / np.linalg.norm(v)
    pad = h.choice('pad', [None, 0, 2])
    u = mat.dirichlet_matrix(v.copy(), None if pad is None else n + pad)
    h.eq(u @ u.conj().T, np.eye(len(u)), 'unitary')
    h.eq(np.abs(u.T[n - 1, :n] @ v), 1, 'row_matches_vector')


@spec('C06', sym=False, bounded='random unitaries', functions=[MF + 'bowtie', MF + '_bowtie'], trials=6, tol=3e-5)
def bowtie(h):
    mat, np = h.mod(M), h.np
    n = h.int('n', 2, 6)
    _, u = unitaries(h, n)
    try:
        net = mat.bowtie(u)
        U = net.matrix()
    except Exception as e:
        U = np.full((n, n), 9.)
    h.eq(U, u, 'bowtie_is_the_unitary')
