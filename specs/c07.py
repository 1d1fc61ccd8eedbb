"""C07: grids tile the simulation box."""
from engine.runner import spec

G = 'simphox.grid'
GF = 'simphox/grid.py:'
U = 'simphox.utils'
UF = 'simphox/utils.py:'


def cells(h, k, lo, chi, split):
    if split and h.symbolic and lo == 1: return 1 if h.flag(f'one{k}') else h.int(f'n{k}', lo=2, chi=chi)
    return h.int(f'n{k}', lo=lo, chi=chi)


def box(h, d, scalar=None, chi=4, lo=1, split=False):
    """sizes n*spacing along d axes; returns (size, spacing argument, cells per axis, spacing per axis)"""
    n = [cells(h, k, lo, chi, split) for k in range(d)]
    if scalar:
        s = h.choice('spacing', [0.25, 0.5, 1.0, 2.0]) if not h.symbolic else h.real('s', pos=True)
        sp = [s] * d
        arg = s
    else:
        sp = [(h.real(f's{k}', pos=True) if h.symbolic else h.choice(f's{k}', [0.25, 0.5, 1.0, 2.0])) for k in range(d)]
        arg = tuple(sp)
    size = tuple(a * b for a, b in zip(n, sp))
    return size, arg, n, sp


@spec('C07', functions=[GF + 'Grid.__init__'])
def grid_layout(h):
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    scalar = h.flag('scalar')
    size, arg, n, sp = box(h, d, scalar)
    e0 = h.real('eps', pos=True)
    gr = g.Grid(size, arg, e0)
    h.ensure(gr.ndim == d, 'ndim')
    tot = 1
    for k in range(3):
        nk = n[k] if k < d else 1
        tot = tot * nk
        h.ensure(gr.shape3[k] == nk, 'shape3')
        h.eq(gr.size3[k], size[k] if k < d else 0, 'size3')
        h.eq(gr.center[k], (size[k] if k < d else 0) / 2, 'center')
        h.ensure(gr.cells[k].shape[0] == nk, 'one_width_per_cell')
        w = gr.cells[k]
        h.forall('w', [(0, nk)], lambda i: h.eq(w[i], sp[k] if k < d else 1, 'cell_width'))
        p = gr.pos[k]
        if bool(nk > 1):
            h.ensure(p.shape[0] == nk + 1, 'one_more_edge_than_cells')
            h.forall('p', [(0, nk + 1)], lambda i: h.eq(p[i], i * sp[k], 'edge'))
            h.forall('pw', [(0, nk)], lambda i: h.eq(p[i + 1] - p[i], w[i], 'edges_are_separated_by_the_width'))
            h.eq(p[nk], size[k], 'edges_end_at_the_size')
        else:
            h.ensure(p.shape[0] == 1, 'single_cell_single_edge')
        h.eq(p[0], 0, 'starts_at_zero')
        if k < d:
            h.ensure(gr.shape[k] == nk, 'shape')
            h.eq(gr.spacing[k], sp[k], 'spacing')
            h.eq(gr.spacing3[k], sp[k], 'spacing3')
        else:
            h.ensure(gr.spacing3[k] == h.np.inf, 'missing_axis_spacing')
    h.ensure(gr.n == tot, 'number_of_cells')
    h.ensure(gr.eps.ndim == d, 'eps_dim')
    h.forall('e', [(0, n[k]) for k in range(d)], lambda *i: h.eq(gr.eps[i], e0, 'eps_everywhere'))
    h.ensure(gr.field_shape[0] == 3, 'three_components')
    h.ensure(len(gr.field_shape) == 4, 'field_shape')
    h.ensure(not gr.port and not gr.components, 'no_ports_or_components')


@spec('C07', functions=[GF + 'Grid.__init__'])
def grid_rounds(h):
    """any size: the number of cells is the rounded quotient"""
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size = [h.real(f'z{k}', lo=1.0, hi=4.0) for k in range(d)]
    sp = [h.real(f's{k}', lo=0.2, hi=1.5) for k in range(d)]
    gr = g.Grid(tuple(size), tuple(sp))
    for k in range(d):
        n = gr.shape[k]
        h.ensure(n * sp[k] <= size[k] + sp[k] / 2 + 1e-9, 'not_more_than_half_a_cell_larger')
        h.ensure(n * sp[k] >= size[k] - sp[k] / 2 - 1e-9, 'not_more_than_half_a_cell_smaller')
        h.ensure(gr.eps.shape[k] == n, 'eps_shape')
        h.ensure(gr.cells[k].shape[0] == n, 'cells')
        h.eq(gr.size3[k], size[k], 'size')
        h.eq(gr.center[k], size[k] / 2, 'center')


@spec('C07', functions=[GF + 'Grid.__init__'])
def scalar_spacing(h):
    """a scalar spacing is that spacing on every axis"""
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d, True)
    a, b = g.Grid(size, arg), g.Grid(size, tuple(sp))
    for k in range(3):
        h.eq(a.cells[k], b.cells[k], 'cells')
        h.eq(a.pos[k], b.pos[k], 'pos')
        h.ensure(a.shape3[k] == b.shape3[k], 'shape')
        h.ensure(a.spacing3[k] == b.spacing3[k], 'spacing')


@spec('C07', functions=[GF + 'Grid.__init__'])
def given_permittivity(h):
    """the given permittivity array is used as is, copied, and a wrong shape is rejected"""
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d)
    kind = h.choice('kind', ['f', 'c', 'i'])
    e = h.array('e', tuple(n), kind=kind)
    gr = g.Grid(size, arg, e)
    h.eq(gr.eps, e, 'eps')
    e0 = e.copy()
    gr.fill(0, 2.25)
    h.eq(e, e0, 'caller_array_unchanged')
    bad = h.array('bad', tuple(x + 1 for x in n), kind=kind)
    h.raises(lambda: g.Grid(size, arg, bad), AttributeError, 'wrong_shape_rejected')
    if d > 1:
        h.raises(lambda: g.Grid(size, tuple(sp[:-1])), AttributeError, 'wrong_spacing_rejected')


@spec('C07', functions=[GF + 'YeeGrid.__init__'])
def yee_widths(h):
    """without absorber, the primal and dual width of every cell is the cell width along that axis"""
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d, h.flag('scalar'), chi=3)
    gr = g.YeeGrid(size, arg)
    n3 = [n[k] if k < d else 1 for k in range(3)]
    for which in (0, 1):
        dx = gr._dxes[which]
        h.ensure(len(dx) == 3, 'three_axes')
        for k in range(3):
            h.ensure(dx[k].ndim == 3, 'three_dimensional')
            h.forall('i', [(0, m) for m in n3], lambda *i: h.eq(dx[k][i], sp[k] if k < d else 1, 'width'))
    h.ensure(len(gr.bloch) == d, 'bloch_per_axis')
    for k in range(d): h.eq(gr.bloch[k], 1, 'default_bloch_is_one')


@spec('C07', functions=[GF + 'YeeGrid.__init__'])
def yee_bloch(h):
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d, chi=3)
    form = h.choice('form', ['scalar', 'int', 'tuple'])
    ph = h.real('phase') if form == 'scalar' else (0 if form == 'int' else [h.real(f'ph{k}') for k in range(d)])
    gr = g.YeeGrid(size, arg, bloch_phase=tuple(ph) if form == 'tuple' else ph)
    h.ensure(len(gr.bloch) == d, 'bloch_per_axis')
    for k in range(d):
        h.eq(gr.bloch[k], h.np.exp(1j * (ph[k] if form == 'tuple' else ph)), 'bloch_phase')


@spec('C07', functions=[GF + 'Grid.reshape'])
def field_reshape(h):
    """flat field vectors are component major, then x, y, z"""
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d, chi=3)
    gr = g.Grid(size, arg)
    n3 = [n[k] if k < d else 1 for k in range(3)]
    v = h.array('v', (3 * gr.n,), kind='c')
    out = gr.reshape(v)
    h.ensure(out.ndim == 4, 'ndim')
    for c in range(3):
        h.forall('i', [(0, m) for m in n3], lambda i, j, k: h.eq(out[c, i, j, k], v[((c * n3[0] + i) * n3[1] + j) * n3[2] + k], 'component_major'))


@spec('C07', functions=[GF + 'YeeGrid.__init__', GF + 'YeeGrid.pml_safe_placement'])
def safe_placement(h):
    """a source location is moved into, and only into, the region at least pml + pml_sep cells away from the edges"""
    g = h.mod(G)
    d = h.choice('dim', [2, 3])
    size, arg, n, sp = box(h, d, chi=40)
    sep = h.int('sep', lo=0, chi=3)
    pml = h.flag('pml')
    if pml:
        t = [h.int(f't{k}', lo=4, chi=6) for k in range(d)]
        for k in range(d): h.assume(n[k] >= 2 * t[k] + 2 * sep + 3)
        gr = g.YeeGrid(size, arg, pml=tuple(a * b for a, b in zip(t, sp)), pml_sep=sep)
        for k in range(d): h.ensure(gr.pml_shape[k] == t[k], 'pml_cells')
        off = [(t[k] + sep) * sp[k] for k in range(2)]
    else:
        gr = g.YeeGrid(size, arg, pml_sep=sep)
        h.ensure(gr.pml_shape is None, 'no_pml')
        off = [0, 0]
    loc = tuple(h.real(f'l{k}', lo=-3, hi=12) for k in range(3))
    out = gr.pml_safe_placement(loc)
    h.ensure(len(out) == 3, 'length')
    h.eq(out[2], loc[2], 'z_unchanged')
    for k in range(2):
        lo, hi = off[k], size[k] - sp[k] - off[k]
        x = out[k]
        h.ensure(x >= lo, 'beyond_lower_limit') if h.symbolic else h.ensure(x >= lo - 1e-9, 'beyond_lower_limit')
        h.ensure(x <= hi, 'below_upper_limit') if h.symbolic else h.ensure(x <= hi + 1e-9, 'below_upper_limit')
        if bool(loc[k] >= lo) and bool(loc[k] <= hi): h.eq(x, loc[k], 'safe_locations_unchanged')
        elif bool(loc[k] < lo): h.eq(x, lo, 'moved_to_lower_limit')
        else: h.eq(x, hi, 'moved_to_upper_limit')


@spec('C07', functions=[GF + 'YeeGrid.__init__'])
def thin_pml_rejected(h):
    """an absorber of three cells or fewer, or of half the grid or more, is rejected"""
    g = h.mod(G)
    d = h.choice('dim', [2, 3])
    n = [h.int(f'n{k}', lo=2, chi=30) for k in range(d)]
    t = [h.int(f't{k}', lo=1, chi=9) for k in range(d)]
    bad = False
    for k in range(d):
        if bool(t[k] <= 3) or bool(t[k] >= n[k] // 2): bad = True
    mk = lambda: g.YeeGrid(tuple(n), tuple([1.0] * d), pml=tuple(t))
    if bad: h.raises(mk, AttributeError, 'rejected')
    else: h.ensure(mk().pml_shape is not None, 'accepted')
    h.raises(lambda: g.YeeGrid(tuple(n), tuple([1.0] * d), bloch_phase=tuple([0.1] * (d + 1))), AttributeError, 'wrong_number_of_bloch_phases')
