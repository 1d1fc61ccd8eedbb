"""C05: programming nodes and vector units."""
from engine.runner import spec
from specs.c01 import F, K, FW, CP, STYLES, node_form
from specs.c04 import V, VF


def reach(h, s, terms):
    """the transmissivity s is reachable with these splitters"""
    cc, cs, sc, ss = terms
    return ((s - cs ** 2 - sc ** 2) / (2 * cs * sc) <= 1) & ((s - cs ** 2 - sc ** 2) / (2 * cs * sc) >= -1)


@spec('C05', functions=[F + 'ForwardMesh.parallel_nullify', F + '_parallel_mzi', F + 'ForwardMesh.parallel_mzi'], budget=200)
def node_null(h):
    """any non-zero pair of inputs, any splitting errors for which the split is reachable, every supported style.
    Proof: the callees transmissivity_to_phase / direct_transmissivity are used by their contracts (proved in transmissivity_phase): the
    internal phase reaches the split of the two inputs. All such inputs are exactly top = r |B| e^{i al}, bottom = r |A| e^{i be}, where A, B
    (|A|^2 + |B|^2 = 1) are the two amplitudes with which the node sends top and bottom to the top output. _mzi_terms is used by its contract (C01)."""
    cp, fw = h.mod(CP), h.mod(FW)
    style = h.choice('style', ['top', 'bottom', 'differential'])
    if h.symbolic:
        cR, sR, cL, sL = [h.real(k, nonzero=True) for k in ('cosR', 'sinR', 'cosL', 'sinL')]
        h.override(FW, '_mzi_terms', lambda *a, **k: h.np.array([[cR * cL], [cR * sL], [sR * cL], [sR * sL]]))
        eL = eR = 0.
    else: eL, eR = h.real('eL', lo=-.3, hi=.3, special=(0.,)), h.real('eR', lo=-.3, hi=.3, special=(0.,))
    nd = cp.CouplingNode(node_id=0, n=2, top=0, bottom=1, bs_error=(eL, eR))
    net = fw.ForwardMesh([nd], phase_style=style)
    cc, cs, sc, ss = [x[0] for x in net.mzi_terms]
    if h.symbolic:
        th = h.real('theta'); r = h.real('r', pos=True); al, be = h.real('alpha'), h.real('beta')
        ex = h.np.exp(-1j * th)
        A, B = h.modulus(-ss + cc * ex), h.modulus(sc + cs * ex)
        for z in (-ss + cc * ex, sc + cs * ex, A, B): h.assume(h.nonzero(z))
        t, b = r * B * h.np.exp(1j * al), r * A * h.np.exp(1j * be)
        h.override(FW, 'direct_transmissivity', lambda x, y: h.opaque('s'))
        h.override(FW, 'transmissivity_to_phase', lambda s, m: h.np.array([th]))
    else:
        t, b = h.complex('top_input', nonzero=True), h.complex('bottom_input', nonzero=True)
        s = abs(t) ** 2 / (abs(t) ** 2 + abs(b) ** 2)
        h.assume(abs((s - cs ** 2 - sc ** 2) / (2 * cs * sc)) <= 1)
    v = h.np.array([[t], [b]])
    theta, phi = net.parallel_nullify(v, net.mzi_terms)
    T = net.parallel_mzi(theta, phi)
    T = T.reshape((4,))
    out_t = T[0] * t + T[2] * b
    out_b = T[1] * t + T[3] * b
    h.eq(out_t, 0, 'nulled', tol=1e-6)
    if not h.symbolic:      # symbolically: nulled and the node is unitary (C01)
        h.eq(abs(out_b) ** 2, abs(t) ** 2 + abs(b) ** 2, 'all_power', tol=1e-6)


@spec('C05', functions=[F + 'ForwardMesh.parallel_nullify', F + '_parallel_mzi', F + 'ForwardMesh.parallel_mzi'], budget=250)
def column_null(h):
    """a column of several nodes of a larger mesh, each with its own splitting errors: every node is set by its own errors and its own inputs.
    Proof as in node_null, with the callees asked for exactly the inputs and errors of each node of the column."""
    cp, fw = h.mod(CP), h.mod(FW)
    style = h.choice('style', ['top', 'bottom', 'differential'])
    ids, rails = h.choice('column', [([0, 2], [(0, 1), (2, 3)]), ([2, 1], [(1, 2), (0, 3)]), ([1], [(2, 1)]), ([2], [(0, 3)])])
    m, n = 3, 4
    if h.symbolic:
        c = [[h.real(f'{k}{i}', nonzero=True) for k in ('cosR', 'sinR', 'cosL', 'sinL')] for i in range(m)]
        terms = h.np.array([[cR * cL for cR, sR, cL, sL in c], [cR * sL for cR, sR, cL, sL in c], [sR * cL for cR, sR, cL, sL in c], [sR * sL for cR, sR, cL, sL in c]])
        own = h.np.array([[terms[r, i] for i in ids] for r in range(4)])
        h.standin(fw, '_mzi_terms', lambda *a, **k: h.np.array([[terms[r, i] for i in sorted(ids)] for r in range(4)]))
        errors = [(0., 0.)] * m
    else:
        errors = [(h.real(f'eL{i}', lo=-.25, hi=.25, special=(0.,)), h.real(f'eR{i}', lo=-.25, hi=.25, special=(0.,))) for i in range(m)]
        terms = fw.ForwardMesh([cp.CouplingNode(node_id=i, n=n, top=0, bottom=1, column=i, bs_error=e) for i, e in enumerate(errors)]).mzi_terms
        own = terms[:, ids]
    net = fw.ForwardMesh([cp.CouplingNode(node_id=i, n=n, top=t, bottom=b, bs_error=errors[i]) for i, (t, b) in zip(ids, rails)], phase_style=style)
    v, ths = [0j] * n, []
    for k, (i, (t, b)) in enumerate(zip(ids, rails)):
        cc, cs, sc, ss = [own[r, k] for r in range(4)]
        if h.symbolic:
            th, r, al, be = h.real(f'theta{i}'), h.real(f'r{i}', pos=True), h.real(f'alpha{i}'), h.real(f'beta{i}')
            ex = h.np.exp(-1j * th)
            A, B = h.modulus(-ss + cc * ex), h.modulus(sc + cs * ex)
            for z in (-ss + cc * ex, sc + cs * ex, A, B): h.assume(h.nonzero(z))
            v[t], v[b] = r * B * h.np.exp(1j * al), r * A * h.np.exp(1j * be)
            ths.append(th)
        else:
            v[t], v[b] = h.complex(f't{i}', nonzero=True), h.complex(f'b{i}', nonzero=True)
            s = abs(v[t]) ** 2 / (abs(v[t]) ** 2 + abs(v[b]) ** 2)
            h.assume(abs((s - cs ** 2 - sc ** 2) / (2 * cs * sc)) <= 1)
    w = h.np.array([[x] for x in v])
    if h.symbolic:
        fr = h.np.array([h.opaque(f's{i}') for i in ids])
        def fraction(top, bottom):
            if h.np.shape(top) != (len(ids),) or h.np.shape(bottom) != (len(ids),): h.unrecognised('direct_transmissivity')
            h.all_eq(top, [v[t] for t, b in rails], 'the_top_inputs_of_the_nodes')
            h.all_eq(bottom, [v[b] for t, b in rails], 'the_bottom_inputs_of_the_nodes')
            return fr
        def phase(s, mzi_terms):
            if h.np.shape(s) != (len(ids),) or h.np.shape(mzi_terms) != (4, len(ids)): h.unrecognised('transmissivity_to_phase')
            h.all_eq(s, fr, 'the_fractions_of_the_nodes')
            h.all_eq(mzi_terms, own, 'the_errors_of_the_nodes')
            return h.np.array(ths)
        h.standin(fw, 'direct_transmissivity', fraction)
        h.standin(fw, 'transmissivity_to_phase', phase)
    theta, phi = net.parallel_nullify(w, terms)
    h.ensure(theta.shape == (len(ids),) and phi.shape == (len(ids),), 'one_setting_per_node')
    order = [ids.index(i) for i in sorted(ids)]      # a mesh keeps its phases and errors by node id
    T = net.parallel_mzi(theta[order], phi[order])[:, [sorted(ids).index(i) for i in ids]]
    for k, (i, (t, b)) in enumerate(zip(ids, rails)):
        h.eq(T[0, k] * v[t] + T[2, k] * v[b], 0, 'nulled', tol=1e-6)
        if not h.symbolic: h.eq(abs(T[1, k] * v[t] + T[3, k] * v[b]) ** 2, abs(v[t]) ** 2 + abs(v[b]) ** 2, 'all_power', tol=1e-6)


@spec('C05', functions=[K + 'transmissivity_to_phase', K + 'direct_transmissivity'])
def transmissivity_phase(h):
    """contract used by node_null: |sc + cs e^{-i theta}|^2 is the requested fraction, for all splitting terms and reachable fractions"""
    cp = h.mod(CP)
    cs, sc = h.real('cs', lo=.05, hi=1.), h.real('sc', lo=.05, hi=1.)
    c = h.real('cos_theta', lo=-1, hi=1)
    s = cs ** 2 + sc ** 2 + 2 * cs * sc * c
    th = cp.transmissivity_to_phase(s, h.np.array([0., cs, sc, 0.]))
    h.eq(cs ** 2 + sc ** 2 + 2 * cs * sc * h.np.cos(th), s, 'reaches')
    t, b = h.complex('t', nonzero=True), h.complex('b', nonzero=True)
    sq = lambda z: h.np.real(h.np.conj(z) * z)
    h.eq(cp.direct_transmissivity(t, b) * (sq(t) + sq(b)), sq(t), 'fraction')


@spec('C05', functions=[F + 'ForwardMesh.parallel_nullify'], trials=20)
def node_null_edge(h):
    """one of the two inputs vanishes"""
    cp, fw = h.mod(CP), h.mod(FW)
    style = h.choice('style', ['top', 'bottom', 'differential'])
    which = h.flag('top_is_zero')
    x = h.complex('x', nonzero=True)
    net = fw.ForwardMesh([cp.CouplingNode(node_id=0, n=2, top=0, bottom=1)], phase_style=style)
    t, b = (0j, x) if which else (x, 0j)
    theta, phi = net.parallel_nullify(h.np.array([[t], [b]]), net.mzi_terms)
    T = net.parallel_mzi(theta, phi)
    out_t = T[0, 0] * t + T[2, 0] * b
    out_b = T[1, 0] * t + T[3, 0] * b
    h.eq(out_t, 0, 'nulled', tol=1e-6)
    sq = lambda z: h.np.conj(z) * z
    h.eq(sq(out_b), sq(x), 'all_power', tol=1e-6)


@spec('C05', functions=[K + 'CouplingNode.nullify'])
def node_object(h):
    """the node's own nullification: the other output gets no power"""
    cp = h.mod(CP)
    zero = h.choice('zero', ['none', 'top', 'bottom'])
    t = h.complex('t', nonzero=True) if zero != 'top' else 0j
    b = h.complex('b', nonzero=True) if zero != 'bottom' else 0j
    n, k = h.choice('place', [(2, 0), (3, 0), (3, 1), (5, 2)])
    others = [h.complex(f'x{i}') for i in range(n - 2)]
    v = h.np.array(others[:k] + [t, b] + others[k:])
    nd = cp.CouplingNode(n=n, top=k, bottom=k + 1)
    w, M, th, ph = nd.nullify(v, k)
    h.ensure(tuple(h.np.shape(w)) == (n,), 'shape')
    h.eq(w[k + 1], 0, 'nulled')
    sq = lambda z: h.np.conj(z) * z
    h.eq(sq(w[k]), sq(t) + sq(b), 'all_power')
    for i in range(n):
        if i not in (k, k + 1): h.eq(w[i], v[i], 'other_modes')
    h.eq(M, nd.mzi_node_matrix(th, ph), 'returned_phases_give_the_matrix')


@spec('C05', functions=[VF + '_program_vector_unit', VF + 'vector_unit', VF + 'tree', F + 'ForwardMesh.matrix'], budget=250, tol=3e-5)
def vector_program(h):
    """book-keeping of the vector unit, for every vector of 2-4 entries.  parallel_nullify is used by its contract (node_null): the phases it
    returns null the top output of each pair; every vector then is M(phases)^dagger (0, .., 0, c)."""
    vec, fw = h.mod(V), h.mod(FW)
    n, bal = h.choice('shape', [(2, True), (3, True), (3, False), (4, True), (4, False)] if h.symbolic else [(k, b) for k in (2, 3, 4, 5, 7, 8) for b in (True, False)])
    style = h.choice('style', ['top', 'bottom', 'differential'])
    if not h.symbolic:
        v = h.array('v', (n,), 'c')
        net, w = vec.vector_unit(v, balanced=bal, phase_style=style)
        nv = h.np.linalg.norm(v)
        c = nv
    else:
        net0 = vec.tree(n, balanced=bal, phase_style=style)
        ths = h.np.array([h.real(f'th{i}') for i in range(n - 1)]); phs = h.np.array([h.real(f'ph{i}') for i in range(n - 1)])
        net0.params = ths, phs, h.np.zeros(n)
        M = net0.matrix()
        c = h.real('c', pos=True)
        ga = h.real('phase')
        v = h.np.conj(M[n - 1]) * (c * h.np.exp(1j * ga))
        seen = []
        def nullify(self, vector, terms):
            th, ph = ths[self.node_idxs], phs[self.node_idxs]
            t = self.parallel_mzi(th, ph)
            h.eq(t[0] * vector[self.top][:, -1] + t[2] * vector[self.bottom][:, -1], h.np.zeros(len(self.nodes)), f'settled_inputs{len(seen)}')
            seen.append(1)
            return th, ph
        h.override_attr(fw.ForwardMesh, 'parallel_nullify', nullify)
        net, w = vec.vector_unit(v, balanced=bal, phase_style=style)
    R = net.matrix()
    h.eq((R @ v)[:n - 1], h.np.zeros(n - 1), 'others_nulled')
    h.eq((R @ v)[n - 1], c, 'all_in_last_with_zero_phase')
    h.eq(R[n - 1] * c, h.np.conj(v), 'analysis_row')


@spec('C05', sym=False, bounded='random vectors (with zeros) of 2..17 entries; every supported style; splitting errors within reach', functions=[VF + 'vector_unit', VF + 'balanced_tree', VF + 'unbalanced_tree', VF + '_program_vector_unit'], trials=60, tol=5e-5)
def vector_units(h):
    vec, np = h.mod(V), h.np
    n = h.int('n', 2, 17)
    bal = h.flag('balanced'); style = h.choice('style', ['top', 'bottom', 'differential'])
    pad = h.choice('extra_rails', [0, 0, 0, 1, 3])
    kind = h.choice('vector', ['complex', 'zeros', 'real', 'basis', 'positive', 'small', 'tiny'])
    v = h.array('v', (n,), 'c')
    if kind == 'zeros':
        v[np.array([h.flag(f'z{i}') for i in range(n)])] = 0
    if kind == 'real': v = np.real(v)
    if kind == 'positive': v = np.abs(v)
    if kind == 'small': v = v * 1e-3
    if kind == 'tiny': v = v * h.choice('scale', [1e-9, 1e-12, 1e-30])
    if kind == 'basis':
        k = h.int('k', 0, n - 1); v = np.zeros(n, complex); v[k] = 1 + 0j
    h.assume(np.linalg.norm(v) > 0)
    if kind not in ('small', 'tiny'): v = v / np.linalg.norm(v)
    keep = v.copy()
    err = h.choice('error', [0., 0., .02]) if kind in ('complex', 'positive') and n <= 6 else 0.
    if err:       # errors for which every split stays within reach
        h.assume(np.min(np.abs(v)) > .05)
    net, w = vec.vector_unit(v, n_rails=n + pad, balanced=bal, phase_style=style, bs_error_mean_std=(err, h.choice('spread', [0., .03]) if err else 0.))
    h.eq(v, keep, 'input_unchanged')
    U = net.matrix()
    nv = np.linalg.norm(v)
    out = U @ np.hstack([v, np.zeros(pad)])
    ref = np.zeros(n + pad, complex); ref[n - 1] = nv
    if not err:
        h.eq(out / nv, ref / nv, 'all_power_to_last_mode')
        h.eq(U[n - 1, :n], np.conj(v) / nv, 'analysis_row')
        a = (vec.balanced_tree if bal else vec.unbalanced_tree)(v, phase_style=style)
        h.eq(a.matrix()[n - 1], v / nv, 'analyzer_row')
        h.eq(a.matrix() @ np.conj(v) / nv, ref[:n] / nv, 'analyzer')
        # the internal powers: relative powers are a function of the vector only
    else:
        # reachable splits only: judge each node by the split it was asked for
        from specs.c05 import splits_reachable
        h.assume(splits_reachable(net, v, n))
        h.eq(out / nv, ref / nv, 'all_power_to_last_mode')


def splits_reachable(net, v, n):
    import numpy as np
    w = np.hstack([v, np.zeros(net.n - n)])[:, None] + 0j
    for nc in net.columns:
        t, b = w[nc.top][:, -1], w[nc.bottom][:, -1]
        s = np.abs(t) ** 2 / (np.abs(t) ** 2 + np.abs(b) ** 2)
        cc, cs, sc, ss = net.mzi_terms[:, nc.node_idxs]
        if np.any(np.abs((s - cs ** 2 - sc ** 2) / (2 * cs * sc)) > 1): return False
        for x, y in zip(nc.top, nc.bottom):
            w[y] = np.sqrt(np.abs(w[x]) ** 2 + np.abs(w[y]) ** 2); w[x] = 0
    return True


@spec('C05', sym=False, bounded='random parameter sets of random small meshes', functions=[F + 'ForwardMesh.nullification_basis', F + 'ForwardMesh.program_by_null_basis'], trials=20, tol=5e-5)
def null_basis(h):
    """programming by the nullification basis of a mesh reproduces its nodes' nulling"""
    vec, np = h.mod(V), h.np
    n = h.choice('n', [2, 3, 4, 6, 8])
    net = vec.tree(n, balanced=h.flag('balanced'), phase_style=h.choice('style', ['top', 'bottom', 'differential']))
    th = h.array('th', (n - 1,), lo=.2, hi=2.9); ph = h.array('ph', (n - 1,), lo=0.1, hi=6.1)
    net.params = th, ph, np.zeros(n)
    U = net.matrix()
    basis = net.nullification_basis
    net.params = np.zeros(n - 1), np.zeros(n - 1), np.zeros(n)
    net.program_by_null_basis(basis)
    V2 = net.matrix()
    # same power splitting into every output for the programmed row
    h.eq(np.abs(V2[n - 1]), np.abs(U[n - 1]), 'analysis_row_reproduced')
