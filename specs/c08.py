"""C08: writing a region of the grid changes exactly that region."""
from engine.runner import spec
from specs.c07 import G, GF, box


def region(h, d, n, sp, far=False, flat=None):
    """a centre and a size; returns (center, size, [(lo, hi) cell range per axis], point flags)"""
    c, z, rng, pt = [], [], [], []
    for k in range(3):
        if k >= d:
            c.append(h.choice(f'cz{k}', [0, 0.5])), z.append(h.choice(f'zz{k}', [0, 1.0])), rng.append((0, 1)), pt.append(True)
            continue
        ck = h.int(f'c{k}', lo=-2 if far else 0, chi=5)
        mk = h.int(f'm{k}', lo=0, chi=5) if flat is None else (0 if k == flat else h.int(f'm{k}', lo=1, chi=5))
        # lattice position plus less than half a cell
        dc, dz = h.real(f'dc{k}', lo=-0.45, hi=0.45, special=(0.0,)), h.real(f'dz{k}', lo=-0.45, hi=0.45, special=(0.0,))
        c.append((ck + dc) * sp[k]), z.append((mk + dz) * sp[k])
        if bool(mk == 0):
            h.assume((ck >= 0) & (ck < n[k]))
            rng.append((ck, ck + 1)), pt.append(True)
        else:
            rng.append((ck - mk // 2, ck - mk // 2 + mk)), pt.append(False)
    return tuple(c), tuple(z), rng, pt


def inside(rng, idx):
    for (lo, hi), i in zip(rng, idx):
        if not bool(lo <= i) or not bool(i < hi): return False
    return True


def n3_of(n, d): return [n[k] if k < d else 1 for k in range(3)]


def check_box(h, new, old, val, d, n, rng, name):
    h.ensure(new.ndim == d, name + '_keeps_dimensions')
    for k in range(d): h.ensure(new.shape[k] == n[k], name + '_keeps_shape')

    def body(*i):
        if inside(rng[:d], i): h.eq(new[i], val, name + '_inside')
        else: h.eq(new[i], old[i], name + '_outside_unchanged')
    h.forall('i', [(0, n[k]) for k in range(d)], body)


@spec('C08', functions=[GF + 'Grid.set_eps', GF + 'Grid.slice'])
def set_region(h):
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d)
    e0 = h.array('e', tuple(n))
    gr = g.Grid(size, arg, e0)
    c, z, rng, pt = region(h, d, n, sp, far=True)
    v = h.real('v')
    r = gr.set_eps(c, z, v)
    h.ensure(r is gr, 'returns_the_grid')
    check_box(h, gr.eps, e0, v, d, n, rng, 'set')


@spec('C08', functions=[GF + 'Grid.mask', GF + 'Grid.slice'])
def mask_region(h):
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d)
    gr = g.Grid(size, arg)
    c, z, rng, pt = region(h, d, n, sp, far=True)
    m = gr.mask(c, z)
    check_box(h, m, h.np.zeros(tuple(n)), 1, d, n, rng, 'mask')


@spec('C08', functions=[GF + 'Grid.mask_fn', GF + 'Grid.mask'])
def mask_function(h):
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d)
    e0, rho = h.array('e', tuple(n)), h.array('rho', tuple(n))
    gr = g.Grid(size, arg, e0)
    if h.flag('default_center'):
        z = tuple(h.int(f'm{k}', lo=1, chi=4) * sp[k] if k < d else 0 for k in range(3))
        f = gr.mask_fn(z)
        if h.symbolic: rng = None
        m = gr.mask(tuple(s / 2 for s in size) + (0,) * (3 - d), z)
        out = f(rho)
        h.forall('i', [(0, n[k]) for k in range(d)], lambda *i: h.eq(out[i], e0[i] + m[i] * (rho[i] - e0[i]), 'masked_about_the_centre', tol=1e-5))
        return
    c, z, rng, pt = region(h, d, n, sp, far=True)
    out = gr.mask_fn(z, c)(rho)

    def body(*i):
        if inside(rng[:d], i): h.eq(out[i], rho[i], 'design_inside', tol=1e-5)
        else: h.eq(out[i], e0[i], 'grid_outside', tol=1e-5)
    h.forall('i', [(0, n[k]) for k in range(d)], body)


@spec('C08', functions=[GF + 'Grid.slice'])
def slice_view(h):
    """the slices read back the region: clipped to the grid, single cells dropped (squeezed) or kept"""
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d)
    e0 = h.array('e', tuple(n))
    gr = g.Grid(size, arg, e0)
    c, z, rng, pt = region(h, d, n, sp, far=True)
    sq = h.flag('squeezed')
    s = gr.slice(c, z, squeezed=sq)
    h.ensure(len(s) == 3, 'three_slices')
    e3 = e0.reshape(tuple(n3_of(n, d)))
    v = e3[s[0], s[1], s[2]]
    n3 = n3_of(n, d)
    lo, ln, keep = [], [], []
    for k in range(3):
        a, b = rng[k]
        a, b = h.max(a, 0), h.min(b, n3[k])
        b = h.max(a, b)
        lo.append(a), ln.append(b - a)
        if not (sq and pt[k]): keep.append(k)
    if len(keep) == 0:
        h.eq(v, e3[lo[0], lo[1], lo[2]], 'single_cell')
        return
    h.ensure(v.ndim == len(keep), 'dimensions')
    for q, k in enumerate(keep): h.ensure(v.shape[q] == ln[k], 'clipped_length')

    def body(*i):
        x = list(lo)
        for q, k in enumerate(keep): x[k] = lo[k] + i[q]
        h.eq(v[i], e3[x[0], x[1], x[2]], 'cells_of_the_region')
    h.forall('i', [(0, ln[k]) for k in keep], body)


@spec('C08', functions=[GF + 'Grid.slice'])
def slice_arguments(h):
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d)
    gr = g.Grid(size, arg)
    h.raises(lambda: gr.slice((0, 0), (0, 0, 0)), ValueError, 'center_needs_three_entries')
    h.raises(lambda: gr.slice((0, 0, 0), (0, 0)), ValueError, 'size_needs_three_entries')
    h.raises(lambda: gr.view_fn((0, 0, 0), (1., 1., 1.)), ValueError, 'views_are_flat')


@spec('C08', functions=[GF + 'Grid.fill'])
def fill_region(h):
    """fill changes exactly the cells below the height along the last axis (every cell for a non-positive height)"""
    g = h.mod(G)
    d = h.choice('dim', [1, 2, 3])
    size, arg, n, sp = box(h, d)
    e0 = h.array('e', tuple(n))
    gr = g.Grid(size, arg, e0)
    v = h.real('v')
    if h.flag('all'):
        r = gr.fill(h.choice('height', [0, 0.0, -1.0]), v)
        lim = n[d - 1]
    else:
        q = h.int('cells', lo=0, chi=6)
        f = h.real('part', lo=0, hi=0.9, special=(0.0,))
        h.assume(q + f > 0)
        r = gr.fill((q + f) * sp[d - 1], v)
        lim = q
    h.ensure(r is gr, 'returns_the_grid')
    rng = [(0, n[k]) for k in range(d - 1)] + [(0, lim)]
    check_box(h, gr.eps, e0, v, d, n, rng, 'fill')


class Stub:
    """a component: bounds, a mask of the cells it covers, and ports"""
    def __init__(self, bounds, mask, port=None):
        self.bounds, self._m, self.port, self.calls = bounds, mask, port or {}, []

    def mask(self, shape, spacing):
        self.calls.append((tuple(shape), spacing))
        return self._m


class PortStub:
    def __init__(self, xya, w): self.xya, self.w = xya, w


@spec('C08', functions=[GF + 'Grid.add'])
def add_component(h):
    """adding a component changes exactly the cells of its mask, between its bottom and top in three dimensions"""
    g = h.mod(G)
    d = h.choice('dim', [2, 3])
    size, arg, n, sp = box(h, d)
    e0 = h.array('e', tuple(n))
    gr = g.Grid(size, arg, e0)
    m = h.array('mask', (n[0], n[1]), kind='i', lo=0, hi=1)
    v = h.real('v')
    b = (0, 0, size[0], size[1])
    x, y, a, w = h.real('px'), h.real('py'), h.choice('pa', [0, 90, 180, -90]), h.real('pw', pos=True)
    st = Stub(b, m, {'a0': PortStub((x, y, a), w)})
    if d == 3:
        q0, qt = h.int('q0', lo=0, chi=3), h.int('qt', lo=0, chi=3)
        zmin, t = q0 * sp[2], qt * sp[2]
    else:
        zmin, t = h.real('zmin'), h.real('t')
    r = gr.add(st, v, zmin, t)
    h.ensure(r is gr, 'returns_the_grid')
    h.ensure(len(gr.components) == 1 and gr.components[0] is st, 'component_recorded')
    p = gr.port['a0']
    h.ensure(len(gr.port) == 1, 'ports')
    for u, w_ in zip((p.x, p.y, p.a, p.w, p.z, p.h), (x, y, a, w, zmin + t / 2, t)): h.eq(u, w_, 'port_placement')

    def body(*i):
        cov = bool(m[i[0], i[1]] == 1)
        if d == 3: cov = cov and bool(q0 <= i[2]) and bool(i[2] < q0 + qt)
        if cov: h.eq(gr.eps[i], v, 'covered')
        else: h.eq(gr.eps[i], e0[i], 'not_covered_unchanged')
    h.forall('i', [(0, n[k]) for k in range(d)], body)


@spec('C08', functions=[GF + 'Grid.add'])
def add_out_of_bounds(h):
    g = h.mod(G)
    size, arg, n, sp = box(h, 2)
    gr = g.Grid(size, arg)
    k = h.choice('side', [0, 1, 2, 3])
    ex = h.real('excess', lo=0.01, hi=2)
    b = [0, 0, size[0], size[1]]
    b[k] = b[k] + (ex if k > 1 else -ex)
    m = h.array('mask', (n[0], n[1]), kind='i', lo=0, hi=1)
    h.raises(lambda: gr.add(Stub(tuple(b), m), 2.0), ValueError, 'rejected')
    h.ensure(len(gr.components) == 0, 'not_recorded')


@spec('C08', functions=[GF + 'Grid.view_fn'])
def view_region(h):
    """the view of a flat region reads exactly its cells, with axes and components turned to the viewing direction"""
    g = h.mod(G)
    d = h.choice('dim', [2, 3])
    size, arg, n, sp = box(h, d)
    gr = g.Grid(size, arg)
    flat = h.choice('flat', list(range(d)))
    c, z, rng, pt = region(h, d, n, sp, flat=flat)
    z = tuple(0 if (k == flat or k >= d) else z[k] for k in range(3))
    n3 = n3_of(n, d)
    lo, ln = [], []
    for k in range(3):
        a, b = rng[k]
        if k < d:
            a, b = h.max(a, 0), h.min(b, n3[k])
            h.assume(b > a)
        lo.append(a), ln.append(b - a)
    jx = h.flag('use_jax')
    f = h.array('f', tuple([3] + n3), jx=jx)
    out = gr.view_fn(c, z, use_jax=jx)(f)
    ax = [(1, 2, 0), (0, 2, 1), (0, 1, 2)][flat]
    h.ensure(out.ndim == 4, 'ndim')
    for q in range(3): h.ensure(out.shape[1 + q] == ln[ax[q]], 'view_shape')

    def body(*i):
        x = list(lo)
        for q in range(3): x[ax[q]] = lo[ax[q]] + i[q]
        for q in range(3): h.eq(out[q, i[0], i[1], i[2]], f[ax[q], x[0], x[1], x[2]], 'oriented_view', tol=1e-5)
    h.forall('i', [(0, ln[ax[q]]) for q in range(3)], body)


@spec('C08', functions=[GF + 'Port.__post_init__', GF + 'Port.size'])
def port_geometry(h):
    g = h.mod(G)
    v = [h.real(x) for x in 'xywzh']
    a = h.choice('a', [0, 90, 180, 270, -90, -180, 360])
    p = g.Port(v[0], v[1], a, v[2], v[3], v[4])
    h.eq(p.center, h.np.array((v[0], v[1], v[3])), 'center')
    s = p.size
    # the port is flat along its direction
    if a % 180 == 0: h.eq(s, h.np.array((0, v[2], v[4])), 'faces_x')
    else: h.eq(s, h.np.array((v[2], 0, v[4])), 'faces_y')
    h.raises(lambda: g.Port(v[0], v[1], 45).size, ValueError, 'oblique_port_has_no_box')
    for t, w in ((p.xy, (v[0], v[1])), (p.xya, (v[0], v[1], a)), (p.xyz, (v[0], v[1], v[3]))):
        h.ensure(len(t) == len(w), 'tuple')
        for q, r in zip(t, w): h.eq(q, r, 'tuples')
