"""Meshes used by the circuit contracts: random concrete topologies and an abstract mesh with any number of columns."""
from specs.c01 import FW, CP, node_form, STYLES


def rand_nodes(h, cp, n, ncol, lossy=False, sorted_ids=True, cls=None):
    """every column holds a random non-empty matching of the n modes, as CouplingNodes; ids are a permutation"""
    r = h.rng
    nodes = []
    for c in range(ncol):
        p = list(range(n))
        r.shuffle(p)
        for k in range(r.randint(1, n // 2)):
            nodes.append((c, p[2 * k], p[2 * k + 1]))
    ids = list(range(len(nodes)))
    if not sorted_ids:
        r.shuffle(nodes)
        r.shuffle(ids)
    out = []
    for i, (c, a, b) in zip(ids, nodes):
        out.append(cp.CouplingNode(node_id=i, n=n, top=a, bottom=b, column=c, bs_error=(r.gauss(0, .2), r.gauss(0, .2)) if r.random() < .8 else 0.,
                                   loss=(-r.random(), -r.random()) if lossy else (0., 0.)))
    return out


def rand_mesh(h, n=None, ncol=None, style=None, lossy=False, sorted_ids=True):
    cp, fw = h.mod(CP), h.mod(FW)
    n = n or h.int('n', lo=2, chi=6)
    ncol = ncol or h.int('columns', lo=1, chi=4)
    style = style or h.choice('style', STYLES)
    nodes = rand_nodes(h, cp, n, ncol, lossy, sorted_ids)
    m = fw.ForwardMesh(nodes, phase_style=style)
    if h.rng.random() < .6: m.gammas = h.npr.rand(n) * 6
    m.thetas, m.phis = h.npr.rand(len(nodes)) * 6, h.npr.rand(len(nodes)) * 6
    return m


def ref_matrix(h, m, params=None, upto=None, gammas=True, errors=None, losses=None):
    """ordered product over the columns of the embedded node matrices, then the output phase screen; errors and losses by node id instead of those of the nodes"""
    np = h.np
    th, ph, ga = m.params if params is None else params
    U = np.eye(m.n, dtype=complex)
    ncol = max([nd.column for nd in m.nodes], default=-1) + 1
    for c in range(ncol if upto is None else upto):
        for nd in m.nodes:
            if nd.column != c: continue
            k = nd.node_id
            e, l = nd.bs_error if errors is None else errors[k], nd.loss if losses is None else losses[k]
            aL, aR = 10 ** (l[0] / 20), 10 ** (l[1] / 20)
            N = np.array(node_form(h, m.phase_style, th[k], ph[k], e[0], e[1], aL, aR), dtype=complex)
            E = np.eye(m.n, dtype=complex)
            E[np.ix_([nd.top, nd.bottom], [nd.top, nd.bottom])] = N
            U = E @ U
    return np.diag(np.exp(1j * np.asarray(ga))) @ U if gammas else U


def abstract_mesh(h, fw, n, nc, style, K, jax, back, log):
    """a mesh with `nc` columns (any number) of which only the contract of a column is known: it is a linear map"""
    N, imp, T = h.N, h.imp, h.T
    from engine.importer import SymSeq
    from engine.core import S
    nn = N.dim(n)

    class Tag:
        def __init__(self, k): self.k = k
        def parallel_transform(self, v, el, use_jax=False): return col(v, el, self, use_jax)

    def apply(v, k):
        v = N.asarray(v)
        rd = v.rp()
        kp = k if not hasattr(k, 'p') else k.p
        kp = N.dim(k) if not hasattr(kp, 't') else kp

        def f(i):
            return N.sum_range(N.ZERO, nn, lambda j: T.app('column', (kp, i[0], j), False) * rd((j, i[1])))
        return N.Arr(v.shp, f, 'c', v.jx)

    def col(v, el, idx, use_jax=False):
        log.append((el, use_jax))
        out = apply(v, idx.k)
        if use_jax: return out
        v[...] = out.copy()         # the numpy column works in place
        return v
    h.override(FW, '_parallel_transform', col)
    seq = SymSeq(nc, lambda k: Tag(k))

    class Mesh(fw.ForwardMesh):
        @property
        def columns(self): return seq
        def idx(self, back=False): return seq[::-1] if back else seq
        @property
        def all_errors(self): return self._err
        @property
        def all_losses(self): return self._loss
    m = Mesh.__new__(Mesh)
    return m, apply
