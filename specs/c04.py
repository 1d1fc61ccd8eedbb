"""C04: mesh topologies."""
import math
from engine.runner import spec
from specs.c01 import F, FW, CP, STYLES

V = 'simphox.circuit.vector'
VF = 'simphox/circuit/vector.py:'
MX = 'simphox.circuit.matrix'
RX = 'simphox.circuit.rectangular'


def flat(nodes): return list(nodes)


def check_tree(h, nodes, ids, start, n, column, n_rails, balanced):
    """concrete tree predicate"""
    h.ensure(len(nodes) == n - 1, 'node_count')
    h.ensure(sorted(nd.node_id for nd in nodes) == sorted(ids), 'ids')
    settled = {}        # mode -> label of the column at which it is nulled
    for nd in nodes:
        h.ensure(start <= nd.top < start + n and start <= nd.bottom < start + n and nd.top != nd.bottom, 'modes_in_range')
        h.ensure(nd.n == n_rails, 'rails')
        h.ensure(nd.top not in settled, 'nulled_once')
        settled[nd.top] = nd.column
        h.ensure(nd.column >= column, 'columns')
    h.ensure(set(settled) == set(range(start, start + n - 1)), 'all_but_output_nulled')
    for a in nodes:
        for b in nodes:
            if a is not b and a.column == b.column: h.ensure(len({a.top, a.bottom, b.top, b.bottom}) == 4, 'column_disjoint')
            # nodes touching a mode act before the node that nulls it
            if a is not b and b.top in (a.top, a.bottom): h.ensure(b.column < a.column, 'settled_before')


@spec('C04', functions=[VF + '_tree'])
def tree_balanced(h):
    """induction step of the balanced tree on any number of modes, the recursive calls replaced by their contract"""
    vx = h.mod(V)
    n = h.int('n', lo=1, chi=12)
    start, column, extra, base = h.int('start', lo=0, chi=4), h.int('column', lo=0, chi=3), h.int('extra', lo=0, chi=3), h.int('base', lo=0, chi=5)
    n_rails = start + n + extra
    idx = h.np.arange(n - 1) + base
    if not h.symbolic:
        check_tree(h, flat(vx._tree(idx, n_rails, start, column, True)), list(idx), start, n, column, n_rails, True)
        return
    calls = []

    def contract(indices, n_rails, start=0, column=0, balanced=True):
        calls.append((indices, n_rails, start, column, balanced))
        return [len(calls) - 1]
    real = vx._tree
    h.override(V, '_tree', contract)
    out = real(idx, n_rails, start, column, True)
    if bool(n == 1):
        h.ensure(len(out) == 0, 'single_mode_has_no_node')
        return
    root, subs = out[0], out[1:]
    h.need(len(calls) == 2 and subs == [0, 1], 'recursive structure: a root and two subtrees')
    (ia, ra, sa, ca, ba), (ib, rb, sb, cb, bb) = calls
    na, nb = ia.size + 1, ib.size + 1
    for nm, x in (('a', na), ('b', nb)):
        h.ensure(x >= 1, f'subtree_{nm}_has_a_mode')
        h.ensure(x < n, f'subtree_{nm}_smaller')
    h.ensure(na + nb == n, 'modes_partitioned')
    h.ensure(sa == start, 'first_subtree_start')
    h.ensure(sb == start + na, 'second_subtree_start')
    h.ensure(ra == n_rails, 'rails_a'), h.ensure(rb == n_rails, 'rails_b'), h.ensure(root.n == n_rails, 'rails')
    h.ensure(ca > column, 'subtree_a_settles_before'), h.ensure(cb > column, 'subtree_b_settles_before'), h.ensure(root.column == column, 'root_column')
    h.ensure(ca == column + 1, 'columns_compact_a'), h.ensure(cb == column + 1, 'columns_compact_b')
    h.ensure(ba is True and bb is True, 'balanced')
    # contract of a subtree: it nulls all of its modes but the last one, where its output is
    h.ensure(root.top == sa + na - 1, 'top_input_is_output_of_first_subtree')
    h.ensure(root.bottom == sb + nb - 1, 'bottom_input_is_output_of_second_subtree')
    h.ensure(root.bottom == start + n - 1, 'output_is_last_mode')
    h.ensure(root.top != root.bottom, 'distinct_modes')
    h.ensure(root.bottom < n_rails, 'valid_modes')
    # the ids are split into the ids of the subtrees and of the root
    h.ensure((na - 1) + (nb - 1) + 1 == n - 1, 'node_count')
    h.all_eq(ia, h.np.arange(na - 1) + base, 'ids_a')
    h.eq(root.node_id, base + na - 1, 'id_root')
    h.all_eq(ib, h.np.arange(nb - 1) + base + na, 'ids_b')
    h.eq(root.alpha, nb, 'alpha_counts_modes_below')
    h.eq(root.beta, na, 'beta_counts_modes_above')
    # depth: ceil(log2) of the larger half, stated through its recurrence: both halves differ by at most one mode
    h.ensure(nb - na <= 1, 'halves_balanced'), h.ensure(na <= nb, 'halves_balanced_2')


@spec('C04', functions=[VF + '_tree'])
def tree_chain(h):
    """linear chain for any number of modes"""
    vx = h.mod(V)
    n = h.int('n', lo=2, chi=9)
    n_rails = n + h.int('extra', lo=0, chi=3)
    idx = h.np.arange(n - 1)
    nodes = vx._tree(idx, n_rails, balanced=False)
    if not h.symbolic:
        check_tree(h, flat(nodes), list(idx), 0, n, 0, n_rails, False)
        h.ensure(all(nd.bottom == nd.top + 1 for nd in nodes), 'neighbours')
        return
    h.ensure(nodes.length == n - 1, 'node_count')

    def body(a, b):
        x, y = nodes.element(a), nodes.element(b)
        for nd in (x,):
            h.ensure(nd.bottom == nd.top + 1, 'neighbours')
            h.ensure(nd.top >= 0, 'valid_top'), h.ensure(nd.bottom < n, 'valid_bottom'), h.ensure(nd.n == n_rails, 'rails')
            h.ensure(nd.node_id == nd.top, 'id'), h.ensure(nd.column >= 0, 'column'), h.ensure(nd.column <= n - 2, 'column_max')
            h.eq(nd.beta, n - 1 - nd.top, 'beta')
        if bool(a == b): return
        h.ensure(x.top != y.top, 'nulled_once')
        h.ensure(x.column != y.column, 'one_node_per_column')
        if bool(y.top == x.bottom): h.ensure(y.column < x.column, 'settled_before')
        if bool(x.top == y.bottom): h.ensure(x.column < y.column, 'settled_before_2')
    h.forall('ab', [(0, n - 1), (0, n - 1)], body)


@spec('C04', functions=[VF + '_butterfly'])
def butterfly_step(h):
    """induction step of the butterfly on any number of modes"""
    vx = h.mod(V)
    n = h.int('n', lo=1, chi=10)
    start, column, extra = h.int('start', lo=0, chi=4), h.int('column', lo=0, chi=3), h.int('extra', lo=0, chi=3)
    n_rails = start + n + extra
    if not h.symbolic:
        nodes = vx._butterfly(n, n_rails, start, column)
        check_wellformed(h, nodes, n_rails, lo=start, hi=start + n)
        if n & (n - 1) == 0: h.ensure(len(nodes) == n * int(math.log2(n)) // 2, 'node_count')
        return
    calls = []

    def contract(n, n_rails, start=0, column=0):
        calls.append((n, n_rails, start, column))
        return ['sub']
    real = vx._butterfly
    h.override(V, '_butterfly', contract)
    cap = []
    class L(list):
        pass
    from engine.importer import SymSeq
    # nodes.extend over the abstract sequence: keep the sequence itself
    ext = SymSeq.__iter__
    SymSeq.__iter__ = lambda self: iter([self])
    try: out = real(n, n_rails, start, column)
    finally: SymSeq.__iter__ = ext
    if bool(n == 1):
        h.ensure(len(out) == 0, 'single_mode_has_no_node')
        return
    h.need(len(calls) == 2 and out[1:] == ['sub', 'sub'], 'recursive structure: first column and two halves')
    (na, ra, sa, ca), (nb, rb, sb, cb) = calls
    h.ensure(na + nb == n, 'modes_partitioned'), h.ensure(na >= 1, 'a_has_a_mode'), h.ensure(nb >= 1, 'b_has_a_mode')
    h.ensure(na < n, 'a_smaller'), h.ensure(nb < n, 'b_smaller')
    h.ensure(sa == start, 'a_start'), h.ensure(sb == start + na, 'b_start')
    h.ensure(ra == n_rails, 'a_rails'), h.ensure(rb == n_rails, 'b_rails')
    h.ensure(ca > column, 'a_column'), h.ensure(cb > column, 'b_column')
    h.ensure(ca == cb, 'halves_share_columns')
    first = out[0]
    if isinstance(first, SymSeq): m, el = first.length, first.element
    else: m, el = len([x for x in out if x != 'sub']), (lambda k: out[int(k)])
    h.ensure(m == na, 'one_node_per_pair')

    def body(a, b):
        x, y = el(a), el(b)
        h.ensure(x.top >= start, 'valid'), h.ensure(x.top < start + na, 'top_in_first_half')
        h.ensure(x.bottom >= start + na, 'bottom_in_second_half'), h.ensure(x.bottom < start + n, 'valid_bottom')
        h.ensure(x.column == column, 'column'), h.ensure(x.n == n_rails, 'rails')
        if bool(a == b): return
        h.ensure(x.top != y.top, 'disjoint_top'), h.ensure(x.bottom != y.bottom, 'disjoint_bottom')
    h.forall('ab', [(0, m), (0, m)], body)


def check_wellformed(h, nodes, n, lo=0, hi=None):
    hi = n if hi is None else hi
    for nd in nodes:
        h.ensure(lo <= nd.top < hi and lo <= nd.bottom < hi and nd.top != nd.bottom, 'valid_modes')
        h.ensure(nd.n == n, 'rails')
    for c in {nd.column for nd in nodes}:
        ms = [m for nd in nodes if nd.column == c for m in (nd.top, nd.bottom)]
        h.ensure(len(ms) == len(set(ms)), 'column_disjoint')


def check_mesh(h, m, n, count=None):
    check_wellformed(h, m.nodes, n)
    h.ensure(m.n == n, 'modes')
    k = len(m.nodes)
    if count is not None: h.ensure(k == count, 'node_count')
    h.ensure(sorted(m.node_idxs) == list(range(k)), 'ids_permutation')
    h.ensure(m.num_nodes == k, 'num_nodes')
    h.ensure([nd.node_id for nd in m.nodes] == list(m.node_idxs), 'ids_agree')
    h.ensure(m.thetas.size == k and m.phis.size == k and m.gammas.size == n, 'parameter_sizes')
    if k:
        h.ensure(sorted({nd.column for nd in m.nodes}) == list(range(m.num_columns)), 'columns_contiguous')
        h.ensure(list(m.column_by_node) == [nd.column for nd in m.nodes], 'column_by_node')
    h.ensure(sum(c.num_nodes for c in m.columns) == k, 'columns_partition')


@spec('C04', sym=False, bounded='every size from 1 to 12', trials=24, cbudget=20,
      functions=[VF + 'tree', VF + 'butterfly', F + 'ForwardMesh.invert_columns', F + 'ForwardMesh.__post_init__', F + 'ForwardMesh.columns', VF + 'vector_unit'])
def trees(h):
    vx = h.mod(V)
    n = h.int('n', lo=1, chi=12)
    for balanced in (True, False):
        extra = h.rng.randint(0, 2)
        m = vx.tree(n, n_rails=n + extra, balanced=balanced)
        if n > 1:
            check_mesh(h, m, n + extra, n - 1)
            h.ensure(m.num_columns == (math.ceil(math.log2(n)) if balanced else n - 1), 'depth')
            nulled = {}
            for nd in m.nodes: nulled[nd.top] = nd.column
            h.ensure(set(nulled) == set(range(n - 1)) , 'each_mode_nulled_once')
            for nd in m.nodes:
                for o in m.nodes:
                    if o is not nd and nd.top in (o.top, o.bottom): h.ensure(o.column < nd.column, 'settled_in_earlier_columns')
            last = [nd for nd in m.nodes if nd.column == m.num_columns - 1]
            h.ensure(len(last) == 1 and last[0].bottom == n - 1, 'root_is_last')
        style = h.choice('style', ['top', 'bottom', 'differential'])
        u, _ = vx.vector_unit(n, n_rails=n + extra, balanced=balanced, phase_style=style)
        if n > 1: check_mesh(h, u, n + extra, n - 1)
        # every way to ask for the same architecture
        shape = lambda x: sorted((nd.top, nd.bottom, nd.column, nd.node_id) for nd in x.nodes)
        for o in (u, (vx.balanced_tree if balanced else vx.unbalanced_tree)(n, phase_style=style), vx.tree(n, balanced=balanced, phase_style=style),
                  (vx.balanced_tree if balanced else vx.unbalanced_tree)(h.array('v', (n,), 'c'), phase_style=style)):
            h.ensure(shape(o) == shape(m), 'same_architecture')
            h.ensure(o.phase_style == style, 'phase_style')
    extra = h.int('extra_butterfly', lo=0, chi=3)
    for m in (vx.butterfly(n, n + extra), vx.butterfly(n=n, n_rails=n + extra), vx.butterfly(n)):
        if n < 2: continue
        check_wellformed(h, m.nodes, m.n, hi=n)
        if m.n == n: check_mesh(h, m, n)
        else: h.ensure(m.n == n + extra, 'rails_of_a_butterfly')
        if n & (n - 1) == 0: h.ensure(len(m.nodes) == n * int(math.log2(n)) // 2, 'butterfly_count')


@spec('C04', sym=False, bounded='every size from 2 to 9', trials=24, cbudget=30,
      functions=['simphox/circuit/matrix.py:cascade', 'simphox/circuit/matrix.py:triangular', 'simphox/circuit/matrix.py:tree_cascade',
                 'simphox/circuit/rectangular.py:rectangular', F + 'ForwardMesh.aggregate', F + 'ForwardMesh.offset', F + 'ForwardMesh.offset_column'])
def universal(h):
    mx, rx, fw = h.mod(MX), h.mod(RX), h.mod(FW)
    from scipy.stats import unitary_group
    n = h.int('n', lo=2, chi=9)
    u = unitary_group.rvs(n, random_state=h.npr)
    N = n * (n - 1) // 2
    m = mx.triangular(u)
    check_mesh(h, m, n, N)
    h.ensure(m.num_columns == 2 * n - 3, 'triangular_depth')
    h.ensure(all(nd.bottom == nd.top + 1 for nd in m.nodes), 'triangular_neighbours')
    for nd in m.nodes: h.ensure((nd.column - nd.top) % 2 == 0 if n % 2 == 0 else True, 'triangular_checkerboard')
    r = rx.rectangular(u)
    check_mesh(h, r, n, N)
    h.ensure(r.num_columns == (n if n > 2 else 1), 'rectangular_depth')
    h.ensure(all(nd.bottom == nd.top + 1 and nd.top % 2 == nd.column % 2 for nd in r.nodes), 'rectangular_brickwork')
    t = mx.tree_cascade(u)
    check_mesh(h, t, n, N)
    h.ensure(t.num_columns == sum(math.ceil(math.log2(k)) for k in range(2, n + 1)), 'tree_cascade_depth')
    for mesh in (m, t):
        lo = 0
        for k in range(n, 1, -1):       # vector units in order: k-1 nodes on the first k modes
            unit = [nd for nd in mesh.nodes if lo <= nd.node_id < lo + k - 1]
            h.ensure({nd.top for nd in unit} == set(range(k - 1)), 'unit_nulls_each_mode_once')
            h.ensure(all(max(nd.top, nd.bottom) <= k - 1 for nd in unit), 'unit_modes')
            lo += k - 1
    a = fw.ForwardMesh.aggregate([m, h.mod(CP).CouplingNode(node_id=N, n=n, top=0, bottom=1, column=m.num_columns)])
    check_mesh(h, a, n, N + 1)
