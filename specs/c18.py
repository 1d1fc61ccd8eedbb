"""C18: scattering parameters follow the requested ports."""
from engine.runner import spec
from specs.c07 import G, GF, UF, box
from specs.c11 import FD, FDF

SM, PS = 'simphox.sim', 'simphox.parse'
SF, PF = 'simphox/sim.py:', 'simphox/parse.py:'


def index_list(h, name):
    return [h.int(f'{name}{k}', lo=0, chi=3) for k in range(h.choice(name + '_count', [0, 2]))]


@spec('C18', functions=[PF + 'parse_excitation'], bounded='every mode index; specifications of up to three entries')
def excitations(h):
    """a name is its mode 0, a (name, index) pair itself, lists concatenate (also nested, single and empty), a dictionary lists its indices per name"""
    p = h.mod(PS).parse_excitation
    names = ['a', 'b0', 'p_3']

    def atom(k):
        """an entry and its meaning"""
        nm = names[(k * k) % 3]
        form = h.choice(f'form{k}', ['name', 'pair', 'dict'])
        if form == 'name': return nm, [(nm, 0)]
        m = h.int(f'mode{k}', lo=0, chi=4)
        if form == 'pair': return ((nm, m) if h.flag(f'tuple{k}') else [nm, m]), [(nm, m)]
        idx = [h.int(f'i{k}', lo=0, chi=3), 0][:h.choice(f'n{k}', [0, 1, 2])]
        return {nm: idx}, [(nm, i) for i in idx]
    kind = h.choice('kind', ['atom', 'list', 'dict'])
    if kind == 'atom': x, ref = atom(0)
    elif kind == 'dict':
        ks = names[:h.choice('keys', [0, 1, 2, 3])]
        x = {k: index_list(h, k) for k in ks}
        ref = [(k, i) for k in ks for i in x[k]]
    else:
        es = [atom(k) for k in range(h.choice('entries', [0, 1, 2]))]
        x, ref = [e[0] for e in es], [q for e in es for q in e[1]]
        if h.flag('as_tuple'): x = tuple(x)
        if h.flag('nested'): x = [x]
    out = p(x)
    h.ensure(isinstance(out, list) and len(out) == len(ref), 'one_pair_per_entry')
    for (a, i), (b, j) in zip(out, ref):
        h.ensure(a == b, 'port')
        h.ensure(i == j, 'mode')


@spec('C18', functions=[PF + 'parse_source_port'], bounded='every mode index and weight; specifications of up to three entries')
def source_specifications(h):
    """a name or pair has weight one, lists merge, dictionaries map names (mode 0) or pairs to their weights"""
    p = h.mod(PS).parse_source_port
    names = ['a', 'b0', 'p_3']

    def atom(k):
        nm = names[k]
        form = (h.choice(f'form{k}', ['name', 'pair', 'dict', 'dict_pair']))
        w, m = h.complex(f'w{k}'), (4, 0, 1)[k]
        if form == 'name': return nm, {(nm, 0): 1}
        if form == 'pair': return ((nm, m) if h.flag(f'tuple{k}') else [nm, m]), {(nm, m): 1}
        if form == 'dict': return {nm: w}, {(nm, 0): w}
        return {(nm, m): w}, {(nm, m): w}
    kind = h.choice('kind', ['atom', 'list', 'dict'])
    if kind == 'atom': x, ref = atom(0)
    elif kind == 'list':
        es = [atom(k) for k in range(h.choice('entries', [0, 1, 2, 3]))]
        x, ref = [e[0] for e in es], {k: v for e in es for k, v in e[1].items()}
        if h.flag('as_tuple'): x = tuple(x)
    else:
        x, ref = {}, {}
        for k in range(h.choice('entries', [0, 1, 2, 3])):
            w = h.complex(f'w{k}')
            key = names[k] if h.flag(f'plain{k}') else (names[k % 2], k)
            x[key] = w
            ref[(key, 0) if isinstance(key, str) else key] = w
    out = p(x)
    h.ensure(list(out) == list(ref), 'ports_and_modes')
    for k in ref: h.eq(out[k], ref[k], 'weight')


# ---- simulations with given ports
ANG = [0, 90, 180, 270]


def sim(h, count, cls=None, fixed=False, **kw):
    """a simulation with count ports of any orientation, in an arbitrary order of definition"""
    gr = (cls or h.mod(SM).SimGrid)((2., 2.), 0.1, **kw)
    P = h.mod(G).Port
    names = ['b', 'a', 'c'][:count]
    gr.port = {nm: P(0.3 + 0.7 * k, 0.5 + 0.45 * k, 90 * k if fixed else h.choice('angle_' + nm, ANG) + (0 if k else 360 * h.choice('turn', [0, -1])), 0.4) for k, nm in enumerate(names)}
    return gr, names


class IO:
    """contract of a mode library: measurements, constants and placement of its modes are arbitrary"""
    def __init__(self, h, nm, log):
        self.h, self.nm, self.log = h, nm, log
        self.betas = [h.real(f'beta_{nm}{m}') for m in range(3)]

    def measure_fn(self, mode_idx=0, use_jax=False, tm_2d=True):
        self.log.append(('measure', self.nm, mode_idx, use_jax, tm_2d))

        def f(e, m):
            self.log.append(('fields', self.nm, mode_idx, e, m))
            x = [self.h.complex(f'amp_{self.nm}{mode_idx}_{k}') for k in (0, 1)]
            return self.h.np.array(x)
        return f


class Section:
    def __init__(self, h, nm, center, size, log):
        self.io, self.center, self.size, self.nm, self.h = IO(h, nm, log), center, size, nm, h
        self.placed = {}

    @property
    def prop_axis(self): return 0 if self.size[0] == 0 else 1

    def place(self, mode_idx, grid):
        if mode_idx not in self.placed: self.placed[mode_idx] = self.h.array(f'src_{self.nm}{mode_idx}', tuple(grid.shape), kind='c')
        return self.placed[mode_idx].copy()


def with_modes(h, gr, log):
    """contract of SimGrid.modes: a cross section at the requested place, with at least the requested modes"""
    secs, req = {}, []

    def modes(center, size, wavelength=1.55, num_modes=1):
        nm = [k for k in gr.port if all(abs(float(a) - float(b)) < 1e-9 for a, b in zip(gr.pml_safe_placement(gr.port[k].xyz), center))][0]
        req.append((nm, size, wavelength, num_modes))
        if nm not in secs: secs[nm] = Section(h, nm, center, size, log)
        return secs[nm]
    h.override_attr(gr, 'modes', modes)
    return secs, req


def requests(h, names):
    r = [q for q in h.choice('pattern', PATTERNS) if q[0] in names]
    if not r: h.assume(False)
    return r


PATTERNS = [[('b', 0)], [('a', 1)], [('b', 0), ('a', 0)], [('a', 0), ('b', 0)], [('a', 0), ('a', 1)], [('b', 1), ('b', 0), ('a', 2)], [('a', 1), ('b', 2), ('a', 0)]]


class Requests:
    """any list of (port, mode) requests: any length, ports (repeated or not), mode indices, orientations (multiples of 90 degrees)"""
    def __init__(self, h):
        self.h = h
        self.R = h.int('requests', lo=1, chi=4)
        if h.symbolic:
            from engine import terms as T, symnp as N, core
            from engine.importer import SymSeq
            ctx = h.ctx
            ip = lambda name, *a: core.S(T.app(name, a, True, True), 'i')

            class Tok:
                def __init__(t, k): t.p = N.dim(ip('port', N.dim(k)))
            self.tok = Tok
            self.seq = SymSeq(self.R, lambda k: (Tok(k), ip('mode', N.dim(k))))

            def angle(t):
                q = ip('quarter', t.p)
                h.ctx.assume((q >= 0) & (q <= 3))
                return q * 90 + 360 * ip('turn', t.p)
            self.angle = angle
            self.quarter = lambda t: ip('quarter', t.p)
            self.amp = lambda t, m: N.Arr((T.Poly.const(2),), lambda i: T.app('amp', (t.p, N.dim(m), i[0]), False), 'c')
            self.same = lambda a, b: a.p == b.p
        else:
            R = int(self.R)
            names = ['p2', 'p0', 'p1'][:h.choice('ports', [1, 2, 3])]
            self.seq = [(h.choice(f'port{k}', names), h.choice(f'mode{k}', [0, 1, 2])) for k in range(R)]
            ang = {nm: h.choice('angle_' + nm, ANG) + 360 * h.choice('turn_' + nm, [0, -1, 1]) for nm in names}
            amps = {}
            self.angle = lambda t: ang[t]
            self.quarter = lambda t: ang[t] % 360 // 90

            def amp(t, m):
                if (t, m) not in amps: amps[t, m] = h.array(f'amp_{t}{m}', (2,), kind='c')
                return amps[t, m]
            self.amp = amp

    def element(self, i): return self.seq.element(i) if self.h.symbolic else self.seq[i]


class PortMap:
    def __init__(self, f, keys=()): self.f, self.k = f, keys
    def __getitem__(self, t): return self.f(t)
    def keys(self): return list(self.k)
    __iter__ = lambda self: iter(self.k)


@spec('C18', functions=[SF + 'SimGrid.get_measure_fn'], budget=200)
def measurement_order(h):
    """for every list of requests, the i-th column holds the amplitudes of the i-th requested (port, mode), the one leaving the device first
    (along the angle of the port; the view of a port along y is a reflection)"""
    gr = h.mod(SM).SimGrid((2., 2.), 0.1)
    rq = Requests(h)
    jx, tm, lam, fac = h.flag('jax'), h.flag('tm'), h.real('wavelength', lo=0.5, hi=2), h.choice('factor', [3, 2])
    gr.parse_excitation = lambda x: rq.seq       # contract of the parser
    seen, asked = [], []

    class Io:
        def __init__(self, t): self.t = t
        def measure_fn(self, mode_idx=0, use_jax=False, tm_2d=True):
            seen.append((use_jax, tm_2d))

            def f(e, m):
                h.ensure(e == ('view', self.t, 'E') and m == ('view', self.t, 'H'), 'fields_seen_at_the_port')
                return rq.amp(self.t, mode_idx)
            return f

    class Sec:
        def __init__(self, t): self.t, self.io, self.center, self.size = t, Io(t), ('centre', t), ('size', t)
        @property
        def prop_axis(self): return 1 if bool((rq.quarter(self.t) == 1) | (rq.quarter(self.t) == 3)) else 0
    secs = {}
    names = [] if h.symbolic else list(dict.fromkeys(t for t, m in rq.seq))

    def section(t):
        k = t.p.key() if h.symbolic else t
        if k not in secs: secs[k] = Sec(t)
        return secs[k]
    h.standin(gr, 'port_modes', lambda excitation, profile_size_factor, wavelength: asked.append((excitation, profile_size_factor, wavelength)) or PortMap(section, names[::-1]))

    def view(center, size, use_jax=True):
        h.ensure(center[1] is size[1] or center[1] == size[1], 'view_of_one_section')
        return lambda f: ('view', center[1], f)
    h.override_attr(gr, 'view_fn', view)

    class P:
        def __init__(self, t): self.a = rq.angle(t)
    gr.port = PortMap(P, names[::-1])
    f = gr.get_measure_fn('REQ', lam, fac, use_jax=jx, tm_2d=tm) if h.flag('positional') else gr.get_measure_fn(measure_port='REQ', wavelength=lam, profile_size_factor=fac, use_jax=jx, tm_2d=tm)
    out = f(('E', 'H'))
    h.ensure(out.ndim == 2, 'form')
    h.ensure((out.shape[0] == 2) & (out.shape[1] == rq.R), 'one_pair_of_amplitudes_per_request')
    h.ensure(all(x == (jx, tm) for x in seen), 'backend_and_polarisation')
    h.ensure(len(asked) == 1 and asked[0][0] is rq.seq and asked[0][1] == fac, 'modes_of_the_requested_ports')
    h.eq(asked[0][2], lam, 'wavelength')

    def body(i):
        t, m = rq.element(i)
        amp = rq.amp(t, m)
        fwd = bool((rq.quarter(t) == 0) | (rq.quarter(t) == 3))
        for k in (0, 1): h.eq(out[k, i], amp[k if fwd else 1 - k], 'amplitudes_of_the_request', tol=1e-5)
    h.forall('i', [(0, rq.R)], body)


@spec('C18', functions=[SF + 'SimGrid.port_modes', SF + 'SimGrid.parse_excitation'], bounded='every size and wavelength; two ports and the request patterns listed')
def sections_of_ports(h):
    """every requested port gets a section at its (safe) place, of its size times the factor, with enough modes for the highest request"""
    gr, names = sim(h, 2, pml=h.choice('pml', [None, 0.4]))
    secs, req = with_modes(h, gr, [])
    default = h.flag('default')
    want = [(nm, 0) for nm in names] if default else h.choice('pattern', PATTERNS)
    lam, fac = h.real('wavelength', lo=0.5, hi=2), h.choice('factor', [3, 2])
    out = gr.port_modes(None if default else want, fac, lam)
    h.ensure(set(out) == {q[0] for q in want}, 'requested_ports')
    for nm in out: h.ensure(out[nm] is secs[nm], 'section_of_the_port')
    for nm, size, w, k in req:
        h.eq(w, lam, 'wavelength')
        h.ensure(k == 1 + max(m for n2, m in want if n2 == nm), 'enough_modes_solved')
        for q in range(3): h.eq(size[q], gr.port[nm].size[q] * fac, 'profile_size')


@spec('C18', functions=[SF + 'SimGrid.port_source', SF + 'SimGrid.port_modes', PF + 'parse_source_port'], budget=300,
      bounded='every profile, weight and constant; up to three excited (port, mode) pairs of two ports')
def port_sources(h):
    """the sum over excited ports of weight times (profile two cells inward, minus its copy a cell further delayed by the phase of one cell)"""
    gr, names = sim(h, h.choice('ports', [1, 2]))
    log = []
    secs, req = with_modes(h, gr, log)
    lam, fac = h.real('wavelength', lo=0.5, hi=2), h.choice('factor', [3, 2])
    form = h.choice('form', ['pairs', 'names', 'tuple', 'default'])
    if form == 'pairs': given = {q: h.complex(f'w_{q[0]}{q[1]}') for q in requests(h, names)}; ref = given
    elif form == 'names': given = {nm: h.complex(f'w_{nm}') for nm in names[::-1]}; ref = {(k, 0): v for k, v in given.items()}
    elif form == 'tuple': given = tuple(h.complex(f'w_{nm}') for nm in names); ref = {(nm, 0): w for nm, w in zip(names, given)}
    else: given, ref = None, {(names[0], 0): 1}
    uni = h.flag('unidirectional')
    src = gr.port_source(given, fac, wavelength=lam) if uni and h.flag('omitted') else gr.port_source(given, profile_size_factor=fac, unidirectional=uni, wavelength=lam)
    n = [20, 20]
    h.ensure(tuple(src.shape) == (20, 20), 'shape_of_the_grid')

    def value(i):
        t = 0
        for (nm, m), w in ref.items():
            s = secs[nm]
            ax, a = s.prop_axis, int(gr.port[nm].a) % 360
            sg = 1 if a < 180 else -1
            at = lambda k: tuple((x - k * sg) % 20 if q == ax else x for q, x in enumerate(i))
            p = lambda k: s.placed[m][at(k)]
            t = t + w * (p(2) - (p(3) * h.np.exp(-1j * gr.spacing[ax] * s.io.betas[m]) if uni else 0))
        return t
    for i in ((0, 0), (1, 19), (2, 3), (18, 2), (19, 19), (10, 11)): h.eq(src[i], value(i), 'superposition_of_port_profiles')
    if not h.symbolic:
        for a in range(20):
            for b in range(20): h.eq(src[a, b], value((a, b)), 'superposition_of_port_profiles')
    for nm, size, w, k in req:
        h.eq(w, lam, 'wavelength')
        h.ensure(k >= 1 + max([m for n2, m in ref if n2 == nm], default=0), 'enough_modes_solved')
    h.ensure(set(secs) >= {k[0] for k in ref}, 'ports')


@spec('C18', functions=[SF + 'SimGrid.port_modes', SF + 'SimGrid.get_measure_fn'])
def own_wavelength(h):
    """modes are solved at the wavelength given, by default at that of the simulation"""
    lam = h.real('lam', lo=0.5, hi=2)
    fd = h.flag('frequency_domain')
    gr, names = sim(h, 2, h.mod(FD).FDFD, wavelength=lam) if fd else sim(h, 2)
    secs, req = with_modes(h, gr, [])
    w = h.real('w', lo=0.5, hi=2)
    given = h.flag('given')
    kw = dict(wavelength=w) if given else {}
    what = h.choice('what', ['modes', 'source', 'measure'])
    if what == 'modes': gr.port_modes(**kw)
    elif what == 'source': gr.port_source(**kw)
    else: gr.get_measure_fn(**kw)
    h.ensure(len(req) > 0, 'solved')
    for r in req: h.eq(r[2], w if given else (lam if fd else 1.55), 'wavelength')


@spec('C18', functions=[SF + 'SimGrid.get_sim_sparams_fn', SF + 'SimGrid.get_sim_fn', FDF + 'FDFD.sparams'], budget=200,
      bounded='every measured amplitude; two ports and the request patterns listed')
def scattering_parameters(h):
    """amplitudes leaving the requested ports, in their order, over the amplitude entering the source port"""
    which = h.choice('which', ['simulation', 'frequency_domain', 'fields'])
    gr, names = sim(h, 2, h.mod(FD).FDFD, fixed=True) if which == 'frequency_domain' else sim(h, 2, fixed=True)
    log = dict(measure=[], source=[], fields=[])
    default = which == 'fields' or h.flag('default')
    want = [(nm, 0) for nm in gr.port] if default else requests(h, names)
    R = len(want)
    s_out, s_in = ([h.complex(f'{p}{k}') for k in range(R)] for p in ('out', 'in'))
    for x in s_in: h.assume(h.nonzero(x) if h.symbolic else abs(x) > 0.1)

    def gm(**k):
        w = gr.parse_excitation(k['measure_port'])
        log['measure'].append((w, (), k))
        return lambda f: log['fields'].append(f) or (h.np.array([s_out[want.index(q)] for q in w]), h.np.array([s_in[want.index(q)] for q in w]))
    h.standin(gr, 'get_measure_fn', gm)
    h.standin(gr, 'port_source', lambda **k: log['source'].append((k['source'], k)) or ('source', tuple(k['source'])))
    si = h.choice('source_index', list(range(R)))
    rho = h.array('rho', (3,), kind='f')
    tm = h.flag('tm')
    if which == 'fields':
        h.override_attr(gr, 'get_fields_fn', lambda src, transform_fn=None, tm_2d=True: (log['source'].append((src, transform_fn, tm_2d)), lambda r: ('F', src, r))[1])
        m, f = gr.get_sim_fn('SRC', 'T', tm_2d=tm)(rho)
        h.ensure(f == ('F', 'SRC', rho), 'fields_of_the_parameters'), h.ensure(log['source'] == [('SRC', 'T', tm)], 'source_and_transform')
        h.ensure(log['measure'][0][2]['tm_2d'] == tm, 'polarisation')
        for k in range(R): h.eq(m[0][k], s_out[k], 'measurement'), h.eq(m[1][k], s_in[k], 'measurement')
        return
    nm, m = want[si]
    if which == 'frequency_domain':
        h.override_attr(gr, 'solve', lambda src: ('F', src))
        s = gr.sparams(nm, m, None if default else want)
    else:
        h.override_attr(gr, 'get_fields_fn', lambda src, transform_fn=None, tm_2d=True: (lambda r: ('F', src, r, transform_fn, tm_2d)))
        if si == 0 and h.flag('source_omitted'): g = gr.get_sim_sparams_fn(transform_fn='T', measure_info=None if default else want, tm_2d=tm)
        else: g = gr.get_sim_sparams_fn(nm, 'T', m, measure_info=None if default else want, tm_2d=tm)
        s, f = g(rho)
        h.ensure(f[2] is rho and f[3] == 'T' and f[4] == tm, 'fields_of_the_parameters')
        h.ensure(log['measure'][0][2].get('tm_2d') == tm, 'polarisation')
    h.ensure([list(x[0]) for x in log['source']] == [[(nm, m)]], 'only_the_source_port_is_excited')
    h.ensure(list(log['source'][0][0].values()) == [1], 'unit_weight')
    h.ensure(log['fields'][0][1] == ('source', ((nm, m),)), 'fields_of_that_source')
    h.ensure(len(s) == R, 'one_parameter_per_request')
    for k in range(R): h.eq(s[k] * s_in[si], s_out[k], 'leaving_over_entering')


@spec('C18', functions=[SF + 'SimGrid.modes'])
def modes_of_a_section(h):
    """the modes of a section are solved on its permittivity, spacing and wavelength"""
    gr = h.mod(SM).SimGrid((1.2, 0.8), 0.1, eps=h.array('eps', (12, 8), pos=True))
    rec = []
    h.override(SM, 'ModeSolver', lambda **k: rec.append(k) or 'solver', full=True)
    h.override(SM, 'ModeLibrary', lambda s, max_num_modes=6: rec.append((s, max_num_modes)) or ('library', s))
    x = h.flag('along_x')
    a, m = h.choice('lo', [0, 1, 2]), h.choice('cells', [2, 3, 4])
    c = (0.5, (a + m // 2) * 0.1, 0.) if x else ((a + m // 2) * 0.1, 0.5, 0.)
    z = (0., m * 0.1, 0.) if x else (m * 0.1, 0., 0.)
    lam, k = h.real('lam', lo=0.5, hi=2), h.choice('modes', [1, 3])
    s = gr.modes(c, z, lam, k)
    h.ensure(s.io == ('library', 'solver') and rec[1] == ('solver', k), 'library_of_the_solver')
    h.ensure(s.center == c and s.size == z, 'section'), h.eq(s.wavelength, lam, 'wavelength'), h.eq(rec[0]['wavelength'], lam, 'wavelength')
    h.ensure(s.prop_axis == (0 if x else 1), 'normal_axis')
    e = rec[0]['eps']
    h.ensure(tuple(e.shape) == (m,), 'cells')
    for q in range(m): h.eq(e[q], gr.eps[(5, a + q) if x else (a + q, 5)], 'permittivity_of_the_section')
    h.eq(rec[0]['size'][0], m * gr.spacing[0], 'size'), h.eq(rec[0]['spacing'], gr.spacing[0], 'spacing')


@spec('C18', functions=[SF + 'SimGrid.fidelity'], budget=200, bounded='every amplitude; two ports and the request patterns listed', tol=1e-4)
def fidelity(h):
    """minus |<desired, measured>|^2 of the normalised desired parameters in the order of the request, weighted with the transmitted power on request"""
    gr, names = sim(h, 2, fixed=True)
    default = h.flag('default')
    want = [(nm, 0) for nm in gr.port] if default else requests(h, names)
    R = len(want)
    keep = [q for k, q in enumerate(want) if k == 0 or h.flag(f'desired{k}')]
    d = {q: h.complex(f'd{q[0]}{q[1]}') for q in keep[::-1]}
    given = {(k[0] if k[1] == 0 and h.flag(f'plain_{k[0]}') else k): v for k, v in d.items()}
    s = h.array('s', (R,), kind='c', jx=True)
    nd = sum(h.np.abs(v) ** 2 for v in d.values())
    ns = sum(h.np.abs(s[k]) ** 2 for k in range(R))
    for v in d.values(): h.assume(h.nonzero(v) if h.symbolic else abs(v) > 0.05)
    if h.symbolic: h.assume(h.nonzero(s[0]))
    w = 0 if h.flag('plain') else h.real('w', lo=0.1, hi=0.9)
    f = gr.fidelity(given, None if default else want, **({} if h.symbolic is False and w == 0 else dict(insertion_weight=w)))
    F = h.array('F', (2,), kind='c', jx=True)
    cost, aux = f((s, F))
    ov = sum(h.np.conj(d[q]) * s[k] for k, q in enumerate(want) if q in d)
    p = h.np.abs(ov) ** 2
    if isinstance(w, int): h.eq(cost * nd, -p, 'overlap')
    else: h.eq(cost * nd * ns, -p * (1 - w) - ns * ns * nd * w, 'overlap_and_power')
    for k in range(R): h.eq(aux[0][k], s[k], 'parameters_passed_on')
    for k in (0, 1): h.eq(aux[1][k], F[k], 'fields_passed_on')


@spec('C18', sym=False, bounded='random small grids and ports', functions=[SF + 'SimGrid.decorate'], trials=10)
def decoration(h):
    """labelled parameters are those of the ports in order; labelled fields keep values, h half a cell further"""
    import numpy as np
    d = h.choice('dim', [1, 2, 3])
    size = tuple(0.1 * h.int(f'n{k}', lo=2, chi=5) for k in range(d))
    gr = h.mod(SM).SimGrid(size, 0.1)
    names = ['b', 'a', 'c'][:h.choice('ports', [1, 2, 3])]
    gr.port = {k: None for k in names}
    sh = (3,) + tuple(gr.shape3)
    s, e, m = h.array('s', (len(names),), kind='c'), h.array('e', sh, kind='c'), h.array('h', sh, kind='c')
    S, E, H = gr.decorate(s, (e, m))
    for k, nm in enumerate(names): h.eq(complex(S.sel(port=nm)), s[k], 'parameter_of_the_port')
    for q, c in enumerate('xyz'):
        h.eq(E.sel(direction=c).values, e[q], 'component'), h.eq(H.sel(direction=c).values, m[q], 'component')
        if gr.shape3[q] > 1:
            h.eq(E[c].values, np.arange(gr.shape3[q]) * 0.1, 'positions', tol=1e-6)
            h.eq(H[c].values, (np.arange(gr.shape3[q]) + 0.5) * 0.1, 'half_cell', tol=1e-6)


@spec('C18', sym=False, bounded='straight guides along x and y between two ports, random widths and materials', functions=[SF + 'SimGrid.get_measure_fn', SF + 'SimGrid.port_source', FDF + 'FDFD.sparams'], trials=4, cbudget=40, tol=0.05)
def straight_guides_transmit(h):
    """light sent from one end leaves at the other end only, whatever the orientation and the names of the ports"""
    import numpy as np
    P = h.mod(G).Port
    vert, n = h.flag('vertical'), 60
    w = h.choice('width', [10, 8])
    eps = np.ones((n, n)) * 2.1
    lo = n // 2 - w // 2
    if vert: eps[lo:lo + w] = h.choice('index', [12, 9])
    else: eps[:, lo:lo + w] = h.choice('index', [12, 9])
    g = h.mod(FD).FDFD((3., 3.), 0.05, eps=eps, pml=0.5, wavelength=h.choice('wavelength', [1.55, 1.3]))
    ends = [('lo', P(1.5, 0., 270, 0.5) if vert else P(0., 1.5, 180, 0.5)), ('hi', P(1.5, 3., 90, 0.5) if vert else P(3., 1.5, 0, 0.5))]
    if h.flag('swapped'): ends = ends[::-1]
    g.port = dict(ends)
    src = h.choice('source', ['lo', 'hi'])
    s = g.sparams(src)
    for k, nm in enumerate(g.port):
        if nm == src: h.ensure(abs(s[k]) < 0.3, 'little_returns_to_the_source')
        else: h.ensure(abs(abs(s[k]) - 1) < 0.05, 'transmitted')
