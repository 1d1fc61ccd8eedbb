"""C22: box and waveguide geometry."""
from engine.runner import spec
from specs.c07 import G, GF, U, UF, box
from specs.c08 import region


def dy(h, name, lo=None, hi=None):
    """a length; dyadic when drawn concretely so that no rounding of the quotient occurs"""
    return h.real(name, lo=lo, hi=hi) if h.symbolic else h.rng.randint(int((lo if lo is not None else -3) * 4), int((hi if hi is not None else 4) * 4)) / 4.0


def mkbox(h, name, mat=True, spacing=1):
    u = h.mod(U)
    w, t = dy(h, name + 'w', 0, 4), dy(h, name + 'h', 0, 4)
    x, y = dy(h, name + 'x'), dy(h, name + 'y')
    m = u.Material('m', dy(h, name + 'eps', 1, 5)) if mat else None
    return u.Box((w, t), material=m, spacing=spacing, min=(x, y)), w, t, x, y


def same_size(h, b, w, t):
    h.eq(b.size[0], w, 'width_kept')
    h.eq(b.size[1], t, 'height_kept')
    h.eq(b.max[0] - b.min[0], w, 'width_is_the_distance_of_the_edges')
    h.eq(b.max[1] - b.min[1], t, 'height_is_the_distance_of_the_edges')


@spec('C22', functions=[UF + 'Box.__post_init_post_parse__', UF + 'Box.max', UF + 'Box.center', UF + 'Box.copy', UF + 'Box.translate'])
def box_basics(h):
    u = h.mod(U)
    b, w, t, x, y = mkbox(h, 'b')
    same_size(h, b, w, t)
    h.eq(b.center[0], x + w / 2, 'center_x'), h.eq(b.center[1], y + t / 2, 'center_y')
    h.eq(b.max[0], x + w, 'max_x'), h.eq(b.max[1], y + t, 'max_y')
    h.eq(b.eps, b.material.eps, 'eps_of_the_material')
    h.ensure(u.Box((w, t)).eps is None, 'no_material')
    line = u.Box(h.real('len') if h.symbolic else 1.5)
    h.eq(line.size[1], 0, 'a_length_alone_has_no_height')
    c = b.copy
    dx, dyy = dy(h, 'dx'), dy(h, 'dy')
    r = c.translate(dx, dyy)
    h.ensure(r is c, 'chained')
    h.eq(c.min[0], x + dx, 'moved_x'), h.eq(c.min[1], y + dyy, 'moved_y')
    same_size(h, c, w, t)
    h.eq(b.min[0], x, 'original_x_unchanged'), h.eq(b.min[1], y, 'original_y_unchanged')
    c.translate()
    h.eq(c.min[0], x + dx, 'null_translation')


@spec('C22', functions=[UF + 'Box.align'])
def box_align(h):
    b, w, t, x, y = mkbox(h, 'b')
    o, *_ = mkbox(h, 'o')
    if h.flag('to_box'): r, (cx, cy) = b.align(o), o.center
    else:
        cx, cy = dy(h, 'cx'), dy(h, 'cy')
        r = b.align((cx, cy))
    h.ensure(r is b, 'chained')
    h.eq(b.center[0], cx, 'centred_x'), h.eq(b.center[1], cy, 'centred_y')
    same_size(h, b, w, t)


def flush(h, axis):
    b, w, t, x, y = mkbox(h, 'b')
    o, ow, ot, ox, oy = mkbox(h, 'o')
    first = h.flag('first')         # left edge / bottom edge
    kw = {('left' if axis == 0 else 'bottom'): first}
    f = b.halign if axis == 0 else b.valign
    mode = h.choice('target', ['number', 'opposite', 'same'])
    if mode == 'number':
        p = dy(h, 'p')
        r = f(p, **kw)
        want = p
    elif mode == 'opposite':
        r = f(o, **kw)
        want = (ox + ow, oy + ot)[axis] if first else (ox, oy)[axis]
    else:
        r = f(o, opposite=False, **kw)
        want = (ox, oy)[axis] if first else (ox + ow, oy + ot)[axis]
    h.ensure(r is b, 'chained')
    h.eq(b.min[axis] if first else b.max[axis], want, 'flush_edge')
    h.eq(b.min[1 - axis], (x, y)[1 - axis], 'other_axis_unchanged')
    h.eq(o.min[0], ox, 'target_unchanged_x'), h.eq(o.min[1], oy, 'target_unchanged_y')
    same_size(h, b, w, t)


@spec('C22', functions=[UF + 'Box.halign'])
def box_halign(h): flush(h, 0)


@spec('C22', functions=[UF + 'Box.valign'])
def box_valign(h): flush(h, 1)


@spec('C22', functions=[UF + 'Box.min_i', UF + 'Box.max_i', UF + 'Box.shape', UF + 'Box.slice', UF + 'Box.mask'])
def box_pixels(h):
    """pixels of a box: from the pixel of its lower corner up to (not including) that of its upper corner"""
    u = h.mod(U)
    s = h.real('s', pos=True) if h.symbolic else h.choice('s', [0.25, 0.5, 1.0])
    a, b, c, d = [h.int(q, lo=0, chi=5) for q in 'abcd']
    fx, fy, gx, gy = [h.real('f' + q, lo=0, hi=0.95, special=(0.0,)) if h.symbolic else h.choice('f' + q, [0, 0.25, 0.5]) for q in 'abcd']
    h.assume(c + gx >= a + fx), h.assume(d + gy >= b + fy)
    bx = u.Box(((c + gx - a - fx) * s, (d + gy - b - fy) * s), spacing=s, min=((a + fx) * s, (b + fy) * s))
    h.ensure(bx.min_i[0] == a, 'first_pixel_x'), h.ensure(bx.min_i[1] == b, 'first_pixel_y')
    h.ensure(bx.max_i[0] == c, 'last_pixel_x'), h.ensure(bx.max_i[1] == d, 'last_pixel_y')
    h.ensure(bx.shape[0] == c - a, 'shape_x'), h.ensure(bx.shape[1] == d - b, 'shape_y')
    sl = bx.slice
    h.ensure(sl[0].start == a, 'slice'), h.ensure(sl[0].stop == c, 'slice'), h.ensure(sl[1].start == b, 'slice'), h.ensure(sl[1].stop == d, 'slice')
    n, m = h.int('n', lo=1, chi=6), h.int('m', lo=1, chi=6)
    arr = h.array('arr', (n, m), kind='f')
    a0 = arr.copy()
    mk = bx.mask(arr)
    h.eq(arr, a0, 'array_unchanged')
    h.ensure(mk.shape[0] == n, 'mask_shape'), h.ensure(mk.shape[1] == m, 'mask_shape')

    def body(i, j):
        ins = bool(a <= i) and bool(i < c) and bool(b <= j) and bool(j < d)
        h.eq(mk[i, j], 1 if ins else 0, 'mask')
    h.forall('i', [(0, n), (0, m)], body)


def design(h):
    """arguments of a block design on a two dimensional grid; returns (grid, e0, kwargs, n, spacing, expected boxes [(cx, cy, w, h, eps)], fill limits)"""
    g, u = h.mod(G), h.mod(U)
    size, arg, n, sp = box(h, 2, chi=12, lo=6)
    e0 = h.array('e', (n[0], n[1]))
    gr = g.Grid(size, arg, e0)
    wg, w, t, _, _ = mkbox(h, 'wg')
    sub = h.real('sub', lo=1, hi=3)
    opt = lambda nm: h.flag(nm)
    fq = lambda nm: (h.int(nm, lo=1, chi=5)) * sp[1]
    sub_h = fq('sub_h') if opt('has_sub') else 0
    rib = fq('rib') if opt('has_rib') else 0
    wh = dy(h, 'wg_height', 0.5, 2) if opt('has_height') else None
    gap = dy(h, 'gap', 0.25, 2) if opt('has_gap') else 0
    kind = h.choice('block', ['none', 'side', 'top'])
    kw = dict(waveguide=wg, wg_height=wh, sub_eps=sub, sub_height=sub_h, gap=gap, rib_y=rib)
    cx, cy = size[0] / 2, size[1] / 2
    bottom = wh if wh is not None else cy - t / 2
    off = gap / 2 + w / 2 if gap is not 0 else 0
    exp = [(cx - off, bottom + t / 2, w, t, wg.eps), (cx + off, bottom + t / 2, w, t, wg.eps)]
    if kind != 'none':
        bl, bw, bt, _, _ = mkbox(h, 'bl')
        if opt('one_sep'):
            s0 = dy(h, 'sep', 0, 2)
            kw.update(sep=s0)
            s1 = s0
        else:
            s0, s1 = dy(h, 'sep0', 0, 2), dy(h, 'sep1', 0, 2)
            kw.update(sep=(s0, s1))
        kw.update(block=bl, vertical=kind == 'top')
        if kind == 'top':
            exp += [(cx - off, bottom + t + s0 + bt / 2, bw, bt, bl.eps), (cx + off, bottom + t + s1 + bt / 2, bw, bt, bl.eps)]
        else:
            exp += [(cx - off - w / 2 - s0 - bw / 2, bottom + bt / 2, bw, bt, bl.eps), (cx + off + w / 2 + s1 + bw / 2, bottom + bt / 2, bw, bt, bl.eps)]
    return gr, e0, kw, n, sp, exp, (sub_h, rib, sub, wg.eps)


def filled(h, j, e, sp, f):
    """value of the background layers at row j"""
    sub_h, rib, sub, core = f
    if rib is 0 and sub_h is 0: return sub
    if sub_h is not 0 and bool(j * sp[1] < sub_h): return sub
    if rib is not 0 and bool(j * sp[1] < sub_h + rib): return core
    return e


@spec('C22', functions=[GF + 'Grid.block_design'])
def block_design_regions(h):
    """the layers and the boxes written by the design, the region write replaced by its contract (C08 set_region)"""
    if not h.symbolic: return
    gr, e0, kw, n, sp, exp, f = design(h)
    got = []

    def set_eps(center, size, eps):
        got.append((center, size, eps))
        return gr
    h.override_attr(gr, 'set_eps', set_eps)
    r = gr.block_design(**kw)
    h.ensure(r is gr, 'returns_the_grid')
    h.need(len(got) == len(exp), 'one region per box')
    h.forall('i', [(0, n[0]), (0, n[1])], lambda i, j: h.eq(gr.eps[i, j], filled(h, j, e0[i, j], sp, f), 'layers'))
    for (c, z, e), (cx, cy, w, t, ee) in zip(got, exp):
        h.eq(c[0], cx, 'box_center_x'), h.eq(c[1], cy, 'box_center_y')
        h.eq(z[0], w, 'box_width'), h.eq(z[1], t, 'box_height'), h.eq(e, ee, 'box_eps')


@spec('C22', functions=[GF + 'Grid.block_design', GF + 'Grid.set_eps', GF + 'Grid.fill'], sym=False, trials=150,
      bounded='the composition of up to four overlapping region writes is run on grids of at most 12 x 12 cells (each write and the list of regions are proved separately)')
def block_design_cells(h):
    """every cell of the design holds the last material drawn over it"""
    np = h.np
    gr, e0, kw, n, sp, exp, f = design(h)
    x = [e0[:, j].copy() for j in range(n[1])]
    want = np.array([[filled(h, j, e0[i, j], sp, f) for j in range(n[1])] for i in range(n[0])])
    for cx, cy, w, t, e in exp:
        rng = []
        for k, (c, z) in enumerate(((cx, w), (cy, t))):
            c, z = int(np.around(c / sp[k])), int(np.around(z / sp[k]))
            if z == 0:
                if not 0 <= c < n[k]: h.assume(False)
                rng.append((c, c + 1))
            else: rng.append((max(c - z // 2, 0), max(c - z // 2 + z, 0)))
        want[rng[0][0]:rng[0][1], rng[1][0]:rng[1][1]] = e
    gr.block_design(**kw)
    h.eq(gr.eps, want, 'cells')


@spec('C22', functions=['simphox/fdfd.py:FDFD.from_pattern', 'simphox/fdtd.py:FDTD.from_pattern', GF + 'Grid.fill', GF + 'Grid.add'], budget=200)
def simulation_of_a_pattern(h):
    """a simulation made from a pattern: the pattern and its boundary on all sides, cladding below sub_z, a core rib on it, the pattern on the
    substrate (or at its zmin) in core, background elsewhere; without substrate and rib the pattern lies in cladding"""
    cls = h.choice('class', ['FDFD', 'FDTD'])
    m = h.mod('simphox.' + cls.lower())
    if not hasattr(m, 'DPHOX_INSTALLED'): h.unrecognised('DPHOX_INSTALLED')
    h.override('simphox.' + cls.lower(), 'DPHOX_INSTALLED', True)
    d = h.choice('dim', [2, 3])
    w = h.real('spacing', pos=True) if h.symbolic else h.choice('w', [0.25, 0.5])
    n = [h.int(f'n{k}', lo=2, chi=5) for k in range(d)]
    q = [h.int(f'b{k}', lo=0, chi=2) for k in range(2)]
    mask = h.array('mask', (n[0] + 2 * q[0], n[1] + 2 * q[1]), kind='i', lo=0, hi=1)
    core, clad, bg = (h.real(k, pos=True) for k in ('core', 'clad', 'bg'))

    class Pattern:
        size = (n[0] * w, n[1] * w)
        bounds = (q[0] * w, q[1] * w, (q[0] + n[0]) * w, (q[1] + n[1]) * w)
        port = {}
        def mask(self, shape, spacing): return mask
    kw = dict(wavelength=h.real('lam', lo=1, hi=2)) if cls == 'FDFD' else {}
    zs = zr = zt = z0 = 0
    if d == 3:
        zs, zr = (h.int(k, lo=1, chi=2) if h.flag('has_' + k) else 0 for k in ('sub', 'rib'))
        zt = h.int('thickness', lo=1, chi=3)
        kw.update(sub_z=zs * w, rib_t=zr * w, component_t=zt * w, height=n[2] * w)
        z0 = zs
        if h.flag('own_zmin'):
            z0 = h.int('zmin', lo=0, chi=3)
            kw.update(component_zmin=z0 * w)
    gr = getattr(m, cls).from_pattern(Pattern(), core, clad, w if h.symbolic or h.flag('number') else (w,) * d, (q[0] * w, q[1] * w), None, bg_eps=bg, **kw)
    shape = [n[0] + 2 * q[0], n[1] + 2 * q[1]] + n[2:]
    h.ensure(gr.ndim == d, 'dimensions')
    for k in range(d): h.eq(gr.shape[k], shape[k], 'pattern_and_boundary'), h.eq(gr.spacing[k], w, 'spacing')
    if cls == 'FDFD': h.eq(gr.wavelength, kw['wavelength'], 'wavelength')

    def body(*i):
        k = i[2] if d == 3 else 0
        if bool(mask[i[0], i[1]] == 1) and (d == 2 or (bool(z0 <= k) and bool(k < z0 + zt))): want = core
        elif d == 2 or (not h.symbolic and zs == 0 and zr == 0) or (isinstance(zs, int) and isinstance(zr, int) and zs == zr == 0): want = clad
        else: want = clad if bool(k < zs) else core if bool(k < zs + zr) else bg
        h.eq(gr.eps[i], want, 'material')
    h.forall('i', [(0, x) for x in shape], body)
