"""C19: symmetrisation, masks and smoothing of designs."""
from engine.runner import spec
from specs.c07 import U, UF
from specs.c22 import dy

TR, TF = 'simphox.transform', 'simphox/transform.py:'
SYM = ('ortho_x', 'ortho_y', 'diag_p', 'diag_n')


def reflected(name, i, n):
    """the cell a requested reflection takes cell i to"""
    if name == 'ortho_x': return n[0] - 1 - i[0], i[1]
    if name == 'ortho_y': return i[0], n[1] - 1 - i[1]
    if name == 'diag_p': return i[1], i[0]
    return n[1] - 1 - i[1], n[0] - 1 - i[0]


def flags(h):
    f = {k: h.flag(k) for k in SYM}
    return f, h.flag('avg')


def shape(h, f, chi=7):
    nx = h.int('nx', lo=1, chi=chi)
    return (nx, nx if f['diag_p'] or f['diag_n'] else h.int('ny', lo=1, chi=chi))


def design(h, n, name='rho'): return h.array(name, n, kind='f', jx=True)


@spec('C19', functions=[TF + 'get_symmetry_fn'], trials=60, budget=300)
def invariant(h):
    """the result has the requested reflections; together with a diagonal, both or none of the orthogonal ones"""
    f, avg = flags(h)
    h.assume(f['ortho_x'] == f['ortho_y'] or not (f['diag_p'] or f['diag_n']))
    n = shape(h, f)
    x = design(h, n)
    out = h.mod(TR).get_symmetry_fn(**f, avg=avg)(x)
    h.ensure(out.shape[0] == n[0], 'rows')
    h.ensure(out.shape[1] == n[1], 'columns')
    for k in SYM:
        if f[k]: h.forall('i', [(0, n[0]), (0, n[1])], lambda *i: h.eq(out[i], out[reflected(k, i, n)], f'invariant_under_{k}', tol=1e-5))


@spec('C19', functions=[TF + 'get_symmetry_fn'], trials=40, budget=300)
def diagonal(h):
    """with a diagonal reflection and a single orthogonal one the result has the diagonal one(s)"""
    f, avg = flags(h)
    h.assume(f['diag_p'] or f['diag_n'])
    n = shape(h, f)
    out = h.mod(TR).get_symmetry_fn(**f, avg=avg)(design(h, n))
    for k in SYM[2:]:
        if f[k]: h.forall('i', [(0, n[0]), (0, n[1])], lambda *i: h.eq(out[i], out[reflected(k, i, n)], f'invariant_under_{k}', tol=1e-5))


@spec('C19', functions=[TF + 'get_symmetry_fn'], trials=60, budget=300)
def projection(h):
    """an array which already has the requested reflections is unchanged: every cell combines only cells of its own orbit"""
    f, avg = flags(h)
    n = shape(h, f)
    r = design(h, n, 'r')
    if h.symbolic:
        # an arbitrary symmetric array: a value per orbit, named by a representative chosen by an arbitrary function made symmetric
        x = symmetric(h, f, r, n)
    else:
        x = h.np.array(r)
        for _ in range(40):
            for k in SYM:
                if f[k]: x = (x + {'ortho_x': lambda a: a[::-1], 'ortho_y': lambda a: a[:, ::-1], 'diag_p': lambda a: a.T, 'diag_n': lambda a: a[::-1, ::-1].T}[k](x)) / 2
        x = h.jnp.array(x)
    out = h.mod(TR).get_symmetry_fn(**f, avg=avg)(x)
    h.forall('i', [(0, n[0]), (0, n[1])], lambda *i: h.eq(out[i], x[i], 'symmetric_arrays_are_unchanged', tol=1e-4))


def symmetric(h, f, r, n):
    """every array with the requested reflections is such a sum over the orbit (of itself over the size of the group)"""
    parts = [r]
    ops = {'ortho_x': lambda a: a[::-1], 'ortho_y': lambda a: a[:, ::-1], 'diag_p': lambda a: a.T, 'diag_n': lambda a: a[::-1, ::-1].T}
    names = [k for k in SYM if f[k]]
    if 'diag_p' in names and ('ortho_x' in names or 'ortho_y' in names) or 'diag_n' in names and ('ortho_x' in names or 'ortho_y' in names):
        names = ['ortho_x', 'ortho_y', 'diag_p']      # they generate the full group of the square
    for k in names:
        parts = parts + [ops[k](p) for p in parts]
    t = parts[0]
    for p in parts[1:]: t = t + p
    return h.jnp.array(t)


@spec('C19', functions=[TF + 'get_symmetry_fn'], trials=40)
def idempotent(h):
    """symmetrising twice is symmetrising once; without a flag nothing changes"""
    f, avg = flags(h)
    h.assume(f['ortho_x'] == f['ortho_y'] or not (f['diag_p'] or f['diag_n']))
    n = shape(h, f)
    x = design(h, n)
    s = h.mod(TR).get_symmetry_fn(**f, avg=avg)
    a = s(x)
    b = s(a)
    h.forall('i', [(0, n[0]), (0, n[1])], lambda *i: h.eq(a[i], b[i], 'idempotent', tol=1e-5))
    if not any(f.values()): h.forall('i', [(0, n[0]), (0, n[1])], lambda *i: h.eq(a[i], x[i], 'identity', tol=1e-6))


@spec('C19', functions=[TF + 'get_symmetry_fn'], trials=40)
def combined_cells(h):
    """averaging takes the mean of the cells a reflection exchanges, otherwise the first half of an axis is mirrored"""
    k, avg = h.choice('reflection', SYM), h.flag('avg')
    f = {q: q == k for q in SYM}
    n = shape(h, f)
    x = design(h, n)
    out = h.mod(TR).get_symmetry_fn(**f, avg=avg)(x)

    def body(*i):
        j = reflected(k, i, n)
        if avg or k in SYM[2:]: h.eq(out[i], (x[i] + x[j]) / 2, 'mean_of_both', tol=1e-5)
        else:
            ax = 0 if k == 'ortho_x' else 1
            h.eq(out[i], x[i] if i[ax] <= j[ax] else x[j], 'mirrored_first_half', tol=1e-6)
    h.forall('i', [(0, n[0]), (0, n[1])], body)


@spec('C19', functions=[TF + 'get_mask_fn', UF + 'Box.mask', UF + 'Box.slice'], bounded='up to three boxes; every size and position on the grid, every shape', trials=60, budget=200)
def masks(h):
    """inside of (one of) the boxes the design, outside the initial values"""
    u = h.mod(U)
    n = (h.int('nx', lo=1, chi=9), h.int('ny', lo=1, chi=9))
    count = h.choice('boxes', [0, 1, 2, 3])      # 0: a single box, not in a list
    few = count < 2
    init = h.array('init', n, kind='f', jx=h.flag('jax') if few else True)
    rho = h.real('rho') if few and h.flag('scalar') else design(h, n)
    sp = h.choice('spacing', [1, 0.5]) if few else 0.5
    boxes, rng = [], []
    for k in range(max(count, 1)):
        w, t, x, y = dy(h, f'w{k}', 0, 4), dy(h, f'h{k}', 0, 4), dy(h, f'x{k}', 0, 3), dy(h, f'y{k}', 0, 3)
        boxes.append(u.Box((w, t), spacing=sp, min=(x, y)))
        rng.append((x / sp, y / sp, (x + w) / sp, (y + t) / sp))
    out = h.mod(TR).get_mask_fn(init, boxes if count else boxes[0])(rho)

    def body(*i):
        inside = False
        for a, b, c, d in rng:
            # cell i is in [floor(a), floor(c)): the first cell is the one the edge falls in
            if i[0] + 1 > a and i[0] + 1 <= c and i[1] + 1 > b and i[1] + 1 <= d:
                inside = True
                break
        if inside: h.eq(out[i], rho if not hasattr(rho, 'shape') or rho.shape == () else rho[i], 'design_inside', tol=1e-6)
        else: h.eq(out[i], init[i], 'initial_values_outside', tol=1e-6)
    h.forall('i', [(0, n[0]), (0, n[1])], body)


@spec('C19', functions=[TF + 'get_smooth_fn'], bounded='radius up to three; every design, sharpness and average', trials=40)
def smoothing(h):
    """the thresholded mean over a disk: values between zero and one stay so; zero and full density are kept inside"""
    r = h.choice('radius', [1, 2, 3])
    n = (h.int('nx', lo=2 * r + 1, chi=12), h.int('ny', lo=2 * r + 1, chi=12))
    eta, beta = h.real('eta', lo=0, hi=1), h.real('beta', lo=0.1, hi=20)
    rec = []
    if h.symbolic:
        rho = design(h, n)
        mean = h.array('mean', n, kind='f')

        def conv(x, kernel, mode='full', *a, **k):
            rec.append((x, kernel, mode))
            return mean
        h.override(TR, 'conv', conv)
    else:
        rho = h.jnp.array(h.np.abs(h.np.sin(h.array("rho", n, kind="f"))))
    out = h.mod(TR).get_smooth_fn(beta, r, eta)(rho)
    th = h.np.tanh
    if h.symbolic:
        h.ensure(len(rec) == 1 and rec[0][0] is rho and rec[0][2] == 'same', 'convolution_of_the_design')
        ker = h.np.array(rec[0][1])
        h.ensure(tuple(ker.shape) == (2 * r + 1, 2 * r + 1), 'kernel_shape')
        disk = [(a, b) for a in range(2 * r + 1) for b in range(2 * r + 1) if (a - r) ** 2 + (b - r) ** 2 < (r + 1) ** 2]
        for a in range(2 * r + 1):
            for b in range(2 * r + 1): h.eq(ker[a, b] * len(disk), 1 if (a, b) in disk else 0, 'kernel_is_the_mean_over_a_disk')

        def body(*i):
            m = mean[i]
            h.assume(m >= 0)      # the convolution of values in [0, 1] with a non-negative kernel of unit sum
            h.assume(m <= 1)
            for lo, hi in ((-beta * eta, beta * (m - eta)), (beta * (m - eta), beta * (1 - eta)), (-beta * eta, 0 * beta), (0 * beta, beta * (1 - eta))):
                h.ensure(lo <= hi, 'monotone_arguments')
                h.assume(th(lo) <= th(hi))
            h.assume(th(-beta * eta) < th(beta * (1 - eta)))
            h.eq(th(-beta * eta), -th(beta * eta), 'odd')
            den = th(beta * eta) + th(beta * (1 - eta))
            h.eq(out[i] * den, th(beta * eta) + th(beta * (m - eta)), 'threshold')
            num = th(beta * eta) + th(beta * (m - eta))
            h.ensure(den > 0, 'threshold_defined')
            h.ensure(num >= 0, 'not_below_zero')
            h.ensure(num <= den, 'not_above_one')
        h.forall('i', [(0, n[0]), (0, n[1])], body)
    else:
        import numpy as np
        from scipy.signal import convolve2d
        y, x = np.mgrid[-r:r + 1, -r:r + 1]
        k = (x * x + y * y < (r + 1) ** 2).astype(float)
        m = convolve2d(np.asarray(rho), k / k.sum(), mode='same')
        ref = (np.tanh(beta * eta) + np.tanh(beta * (m - eta))) / (np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))
        h.ensure(out.shape == ref.shape and np.allclose(out, ref, atol=1e-4, rtol=1e-4), 'threshold')
        o = np.asarray(out)
        h.ensure(bool((o >= -1e-5).all() and (o <= 1 + 1e-5).all()), 'in_range')
