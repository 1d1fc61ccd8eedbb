"""C01: node matrices."""
from engine.runner import spec

F = 'simphox/circuit/forward.py:'
K = 'simphox/circuit/coupling.py:'
CP = 'simphox.circuit.coupling'
FW = 'simphox.circuit.forward'


def coupler(h, e):
    np = h.np
    return [[np.cos(h.pi / 4 + e), 1j * np.sin(h.pi / 4 + e)], [1j * np.sin(h.pi / 4 + e), np.cos(h.pi / 4 + e)]]


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), 0) for j in range(len(b[0]))] for i in range(len(a))]


def ph(h, t, b=0):
    return [[h.np.exp(1j * t), 0], [0, h.np.exp(1j * b)]]


def sc(c, a):
    return [[c * x for x in r] for r in a]


def node_form(h, style, th, phi, eL, eR, aL=1, aR=1):
    """ordered product of couplers and phase shifters (aL, aR: amplitude factors of the two arms)"""
    np = h.np
    E = lambda x: np.exp(1j * x)
    R, L = coupler(h, eR), coupler(h, eL)
    if style == 'top':
        return mm(mm(R, [[E(th) * aL, 0], [0, 1]]), mm(L, [[E(phi) * aR, 0], [0, 1]]))
    if style == 'bottom':
        return mm(mm(R, [[1, 0], [0, E(th) * aL]]), mm(L, [[1, 0], [0, E(phi) * aR]]))
    if style == 'symmetric':
        return sc(E(phi - th / 2) * aR, mm(mm(R, [[E(th) * aL, 0], [0, 1]]), L))
    if style == 'differential':
        core = mm(mm(R, [[E(th / 2) * aL, 0], [0, E(-th / 2)]]), L)
        return sc(aR, mm(core, [[E(-phi / 2), 0], [0, E(phi / 2)]]))


STYLES = ['top', 'bottom', 'symmetric', 'differential']


def unitary(h, M, name):
    n = len(M)
    for i in range(n):
        for j in range(n):
            h.eq(sum((h.np.conj(M[k][i] + 0j) * M[k][j] for k in range(n)), 0), 1 if i == j else 0, f'{name}_{i}{j}')


def asl(A):
    return [[A[0, 0], A[0, 1]], [A[1, 0], A[1, 1]]]


def errs(h, tag=''):
    return [h.real('eL' + tag, special=(0.,)), h.real('eR' + tag, special=(0., .1))]


def losses(h, tag=''):
    return [h.real('lL' + tag, lo=-10, hi=0, special=(0.,)), h.real('lR' + tag, lo=-10, hi=0, special=(0.,))]


def ins(h, l):
    return h.np.exp(h.np.log(10) * l / 20)


@spec('C01', functions=[K + 'CouplingNode.dc', K + 'CouplingNode.mzi_node_matrix', K + 'phase_matrix', K + 'CouplingNode.mzi_terms'])
def node(h):
    cp = h.mod(CP)
    eL, eR = errs(h)
    th, phi = h.real('th'), h.real('phi', special=(0.,))
    nd = cp.CouplingNode(bs_error=(eL, eR))
    M = nd.mzi_node_matrix(th, phi, embed=False)
    h.eq(M, node_form(h, 'top', th, phi, eL, eR), 'product')
    unitary(h, asl(M), 'unitary')
    h.eq(nd.dc(right=False), coupler(h, eL), 'dc_left')
    h.eq(nd.dc(right=True), coupler(h, eR), 'dc_right')
    h.eq(cp.phase_matrix(th, phi), ph(h, th, phi), 'phase')
    h.eq(nd.mzi_node_matrix(th, phi), M, 'embedded_in_two_modes')
    t = nd.mzi_terms
    q = h.pi / 4
    c, s = h.np.cos, h.np.sin
    h.eq(h.np.array(t), h.np.array([c(q + eR) * c(q + eL), c(q + eR) * s(q + eL), s(q + eR) * c(q + eL), s(q + eR) * s(q + eL)]), 'terms')
    e1 = h.real('e1')
    nd2 = cp.CouplingNode(bs_error=e1)
    h.eq(nd2.dc(right=False), coupler(h, e1), 'scalar_error_left')
    h.eq(nd2.dc(right=True), coupler(h, e1), 'scalar_error_right')


@spec('C01', functions=[K + 'CouplingNode.mmi_node_matrix', K + 'coupling_matrix_phase', K + 'coupling_matrix_s', K + 'CouplingNode.ideal_node', K + 'CouplingNode.phase_matrix'])
def other_nodes(h):
    cp = h.mod(CP)
    eL, eR = errs(h)
    th, phi = h.real('th'), h.real('phi')
    np = h.np
    nd = cp.CouplingNode(bs_error=(eL, eR))
    a = th / 2 + eL / 2
    C = [[np.cos(a), 1j * np.sin(a)], [1j * np.sin(a), np.cos(a)]]
    h.eq(cp.coupling_matrix_phase(th, eL), C, 'coupling_matrix_phase')
    M = nd.mmi_node_matrix(th, phi, embed=False)
    h.eq(M, mm(C, ph(h, phi)), 'mmi')
    unitary(h, asl(M), 'mmi_unitary')
    s = h.real('s', lo=0, hi=1, special=(0., 1.))
    Cs = [[np.sqrt(1 - s), np.sqrt(s)], [np.sqrt(s), -np.sqrt(1 - s)]]
    h.eq(cp.coupling_matrix_s(s), Cs, 'coupling_matrix_s')
    h.eq(nd.ideal_node(s, phi), mm(ph(h, phi), Cs), 'ideal')
    unitary(h, Cs, 'ideal_unitary')
    h.eq(nd.phase_matrix(th, phi), ph(h, th, phi), 'phase_embedded')
    # settings which are not given are zero
    h.eq(nd.ideal_node(s), Cs, 'ideal_without_phase')
    h.eq(nd.ideal_node(), [[1, 0], [0, -1]], 'ideal_default')
    h.eq(nd.phase_matrix(th), ph(h, th), 'phase_embedded_top_only')
    h.eq(nd.mmi_node_matrix(th), C, 'mmi_without_phase')
    h.eq(nd.mzi_node_matrix(th), nd.mzi_node_matrix(th, 0), 'mzi_without_phase')
    h.eq(nd.mzi_node_matrix(), nd.mzi_node_matrix(0, 0), 'mzi_default')
    h.eq(cp.coupling_matrix_phase(th), [[np.cos(th / 2), 1j * np.sin(th / 2)], [1j * np.sin(th / 2), np.cos(th / 2)]], 'coupling_matrix_phase_without_error')


@spec('C01', functions=[K + 'CouplingNode.dc', K + 'loss2insertion', K + 'CouplingNode.mmi_node_matrix', K + 'coupling_matrix_phase'])
def node_loss(h):
    """a lossy coupler is a lossless one followed by an amplitude factor at most one"""
    cp = h.mod(CP)
    eL, eR = errs(h)
    lL, lR = losses(h)
    th, phi = h.real('th'), h.real('phi')
    for nm, l in (('left', lL), ('right', lR)):
        a = cp.loss2insertion(l)
        h.ensure(a <= 1, f'insertion_{nm}_not_amplifying')
        h.ensure(a > 0, f'insertion_{nm}_positive')
        h.eq(a * a, h.np.exp(h.np.log(10) * l / 10), f'insertion_{nm}_power')
    nd = cp.CouplingNode(bs_error=(eL, eR), loss=(lL, lR))
    for right, e, l in ((False, eL, lL), (True, eR, lR)):
        D = asl(nd.dc(right=right))
        a = cp.loss2insertion(l)
        C = coupler(h, e)
        h.eq(h.np.array(D), mm([[a, 0], [0, 1]], C), f'dc_is_contraction_times_unitary_{right}')
    M = nd.mzi_node_matrix(th, phi, embed=False)
    aL, aR = cp.loss2insertion(lL), cp.loss2insertion(lR)
    want = mm([[aR, 0], [0, 1]], node_form(h, 'top', th, phi, eL, eR, aL=aL))
    h.eq(M, want, 'lossy_node_product')
    a = th / 2 + eL / 2
    C = [[h.np.cos(a), 1j * h.np.sin(a)], [1j * h.np.sin(a), h.np.cos(a)]]
    h.eq(nd.mmi_node_matrix(th, phi, embed=False), mm([[aL, 0], [0, 1]], mm(C, ph(h, phi))), 'lossy_mmi')


@spec('C01', functions=[K + '_embed_2x2'])
def embed(h):
    cp = h.mod(CP)
    n = h.int('n', lo=2, chi=6)
    i, j = h.int('i', lo=0, chi=5), h.int('j', lo=0, chi=5)
    h.assume(i < n), h.assume(j < n)
    h.assume(i != j)
    m = h.array('m', (2, 2), kind='c')
    E = cp._embed_2x2(m, n, i, j)
    h.ensure(E.shape[0] == n, 'rows')
    h.ensure(E.shape[1] == n, 'columns')

    def body(a, b):
        ai, bi = (0 if a == i else (1 if a == j else 2)), (0 if b == i else (1 if b == j else 2))
        if ai < 2 and bi < 2:
            h.eq(E[a, b], m[ai, bi], 'block')
        else:
            h.eq(E[a, b], 1 if a == b else 0, 'identity_elsewhere')
    h.forall('ab', [(0, n), (0, n)], body)


@spec('C01', functions=[F + '_parallel_mzi', F + '_mzi_terms'])
def vectorised(h):
    """elements for all nodes (any number, any style, forward and backward, numpy and jax)"""
    fw = h.mod(FW)
    N = h.int('N', lo=1, chi=4)
    jx = h.flag('jax')
    style = h.choice('style', STYLES)
    back = h.flag('back')
    th, phi = h.array('th', (N,)), h.array('phi', (N,))
    e = h.array('e', (N, 2))
    l = h.array('l', (N, 2), lo=-10, hi=0)
    if h.flag('lossless'): l = h.np.zeros((N, 2))
    T = fw._parallel_mzi(th, phi, e, l, style, use_jax=jx, back=back)
    h.ensure(T.shape[0] == 4, 'four_elements')
    h.ensure(T.shape[1] == N, 'one_entry_per_node')

    def body(k):
        aL, aR = ins(h, l[k, 0]), ins(h, l[k, 1])
        want = node_form(h, style, th[k], phi[k], e[k, 0], e[k, 1], aL, aR)
        if back: want = [[want[0][0], want[1][0]], [want[0][1], want[1][1]]]
        h.eq(T[0, k], want[0][0], 't11', tol=2e-5)
        h.eq(T[2, k], want[0][1], 't21', tol=2e-5)
        h.eq(T[1, k], want[1][0], 't12', tol=2e-5)
        h.eq(T[3, k], want[1][1], 't22', tol=2e-5)
        h.ensure(aL <= 1, 'arm_factor_left')
        h.ensure(aR <= 1, 'arm_factor_right')
    h.forall('k', [(0, N)], body)


@spec('C01', functions=[F + '_parallel_mzi'])
def vectorised_unitary(h):
    fw = h.mod(FW)
    N = h.int('N', lo=1, chi=4)
    jx = h.flag('jax')
    style = h.choice('style', STYLES)
    back = h.flag('back')
    th, phi, e = h.array('th', (N,)), h.array('phi', (N,)), h.array('e', (N, 2))
    T = fw._parallel_mzi(th, phi, e, h.np.zeros((N, 2)), style, use_jax=jx, back=back)

    def body(k):
        M = [[T[0, k], T[2, k]], [T[1, k], T[3, k]]]
        for i in range(2):
            for j in range(2):
                h.eq(sum((h.np.conj(M[q][i]) * M[q][j] for q in range(2)), 0), 1 if i == j else 0, f'unitary{i}{j}', tol=2e-5)
    h.forall('k', [(0, N)], body)


@spec('C01', functions=[F + '_parallel_dc', F + '_mzi_terms'])
def vectorised_dc(h):
    fw = h.mod(FW)
    N = h.int('N', lo=1, chi=4)
    jx = h.flag('jax')
    right = h.flag('right')
    e = h.array('e', (N, 2))
    l = h.array('l', (N, 2), lo=-10, hi=0)
    if h.flag('lossless'): l = h.np.zeros((N, 2))
    T = fw._parallel_dc(e, l, right=right, use_jax=jx)
    ts = fw._mzi_terms(e, use_jax=jx)
    h.ensure(T.shape[0] == 4, 'four_elements')
    h.ensure(T.shape[1] == N, 'one_entry_per_node')
    q = h.pi / 4
    c, s = h.np.cos, h.np.sin

    def body(k):
        r = 1 if right else 0
        C = coupler(h, e[k, r])
        a = ins(h, l[k, r])
        h.eq(T[0, k], C[0][0] * a, 't11', tol=2e-5)
        h.eq(T[2, k], C[0][1], 't21', tol=2e-5)
        h.eq(T[1, k], C[1][0] * a, 't12', tol=2e-5)
        h.eq(T[3, k], C[1][1], 't22', tol=2e-5)
        h.ensure(a <= 1, 'coupler_factor')
        eL, eR = e[k, 0], e[k, 1]
        for m, w in enumerate([c(q + eR) * c(q + eL), c(q + eR) * s(q + eL), s(q + eR) * c(q + eL), s(q + eR) * s(q + eL)]):
            h.eq(ts[m, k], w, f'term{m}', tol=2e-5)
    h.forall('k', [(0, N)], body)


@spec('C01', functions=[F + '_parallel_mzi', K + 'CouplingNode.mzi_node_matrix', F + 'ForwardMesh.parallel_mzi', F + 'ForwardMesh.all_errors', F + 'ForwardMesh.all_losses'])
def representations(h):
    """the node object, its embedding, and the vectorised elements of a one-node mesh give the same matrix"""
    cp, fw = h.mod(CP), h.mod(FW)
    eL, eR = errs(h)
    th, phi = h.real('th'), h.real('phi')
    n = h.int('n', lo=2, chi=5)
    i, j = h.int('i', lo=0, chi=4), h.int('j', lo=0, chi=4)
    h.assume(i < n), h.assume(j < n)
    h.assume(i != j)
    nd = cp.CouplingNode(bs_error=(eL, eR), n=n, top=i, bottom=j)
    jx = h.flag('jax')
    T = fw._parallel_mzi(h.np.array([th]), h.np.array([phi]), h.np.array([[eL, eR]]), h.np.zeros((1, 2)), 'top', use_jax=jx)
    M = nd.mzi_node_matrix(th, phi, embed=False)
    E = nd.mzi_node_matrix(th, phi)
    for a, (x, y) in enumerate([(0, 0), (1, 0), (0, 1), (1, 1)]):
        h.eq(T[a, 0], M[x, y], f'vectorised{x}{y}', tol=2e-5)
        h.eq(E[(i, j)[x], (i, j)[y]], M[x, y], f'embedded{x}{y}')
    k = h.int('k', lo=0, chi=4)
    h.assume(k < n), h.assume(k != i)
    h.assume(k != j)
    h.eq(E[k, k], 1, 'other_modes_untouched')
    h.eq(E[k, i], 0, 'other_modes_decoupled')
    h.eq(E[i, k], 0, 'other_modes_decoupled2')


@spec('C01', sym=False, bounded='random lossy nodes', trials=8, functions=[F + '_parallel_dc', K + 'CouplingNode.dc', F + '_parallel_mzi'])
def lossy_representations(h):
    """with loss, the node object and the vectorised elements should be one matrix (known finding: they are not)"""
    cp, fw = h.mod(CP), h.mod(FW)
    eL, eR = errs(h)
    th, phi = h.real('th'), h.real('phi')
    l = (-h.rng.uniform(.5, 4), -h.rng.uniform(.5, 4))
    nd = cp.CouplingNode(bs_error=(eL, eR), loss=l)
    T = fw._parallel_mzi(h.np.array([th]), h.np.array([phi]), h.np.array([[eL, eR]]), h.np.array([l]), 'top')
    M = nd.mzi_node_matrix(th, phi, embed=False)
    A = h.np.array([[T[0, 0], T[2, 0]], [T[1, 0], T[3, 0]]])
    h.ensure(h.np.linalg.norm(A, 2) <= 1 + 1e-9, 'vectorised_never_amplifies')
    h.ensure(h.np.linalg.norm(M, 2) <= 1 + 1e-9, 'node_never_amplifies')
    h.all_eq(abs(h.np.linalg.det(A)), abs(h.np.linalg.det(M)), 'same_total_loss')
    h.all_eq(A, M, 'lossy_node_object_vs_vectorised', tol=2e-5)
