"""Symbolic semantics of the scipy.sparse subset used by the verified code.

A matrix is kept in row form and column form: row(i) is the list of (column, coefficient) of row i and col(j) the list
of (row, coefficient) of column j; sizes, positions and coefficients may all be symbolic."""
import types
from fractions import Fraction
from . import symnp as N, terms as T
from .core import S, Cond, eq_cond, ctx, to_s, c_le, c_lt, c_eq, c_and, c_not, divmod_poly, kmax, ORDER, Poly
from .terms import Unsupported, ZERO, ONE

Arr = N.Arr


def _memo(f):
    cache = {}

    def g(i):
        k = (ctx().gen, i)
        r = cache.get(k)
        if r is None: r = cache[k] = f(i)
        return r
    return g


class Mat:
    __symsparse__ = True
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, shp, row, col, kind='f', fmt='csr'):
        self.shp = tuple(shp)
        self.row_, self.col_ = _memo(row), (None if col is None else _memo(col))
        self.kind, self.fmt = kind, fmt

    # ---- attributes
    @property
    def shape(self): return tuple(N.undim(d) for d in self.shp)
    @property
    def ndim(self): return 2
    @property
    def dtype(self): return N.DT(self.kind)
    @property
    def T(self): return self.transpose()
    @property
    def H(self): return self.transpose().conj()
    def getH(self): return self.H
    @property
    def format(self): return self.fmt
    @property
    def real(self): return self._map(lambda p: p.real(), 'f')
    @property
    def imag(self): return self._map(lambda p: p.imag(), 'f')

    def _map(self, f, kind=None):
        r, c = self.row_, self.col_
        return Mat(self.shp, lambda i: [(j, f(v)) for j, v in r(i)], None if c is None else (lambda j: [(i, f(v)) for i, v in c(j)]), kind or self.kind, self.fmt)

    def cols_of(self, j):
        if self.col_ is None: raise Unsupported('column access of sparse matrix')
        return self.col_(j)

    def transpose(self, axes=None, copy=False):
        if self.col_ is None: raise Unsupported('transpose of sparse matrix')
        return Mat((self.shp[1], self.shp[0]), self.col_, self.row_, self.kind, {'csr': 'csc', 'csc': 'csr'}.get(self.fmt, self.fmt))

    def conj(self, copy=True): return self._map(lambda p: p.conj()) if self.kind == 'c' else self
    conjugate = conj
    def copy(self): return Mat(self.shp, self.row_, self.col_, self.kind, self.fmt)
    def _as(self, fmt): return Mat(self.shp, self.row_, self.col_, self.kind, fmt)
    def tocsr(self, copy=False): return self._as('csr')
    def tocsc(self, copy=False): return self._as('csc')
    def tocoo(self, copy=False): return self._as('coo')
    def todia(self, copy=False): return self._as('dia')
    def tolil(self, copy=False): return self._as('lil')
    def asformat(self, f, copy=False): return self._as(f)
    def sort_indices(self):
        if self.fmt not in ('csr', 'csc', 'bsr'): raise AttributeError(f"'{self.fmt}_matrix' object has no attribute 'sort_indices'")
    def sorted_indices(self): return self.copy()
    def sum_duplicates(self): return None
    def eliminate_zeros(self): return None
    def astype(self, d, **k):
        kk = N.kind_of(d)
        k0 = self.kind
        return Mat(self.shp, lambda i: [(j, N.cast_p(v, k0, kk)) for j, v in self.row_(i)],
                   None if self.col_ is None else (lambda j: [(i, N.cast_p(v, k0, kk)) for i, v in self.col_(j)]), kk, self.fmt)

    # ---- algebra
    def _scale(self, s):
        x = to_s(s)
        return self._map(lambda p: p * x.p, kmax(self.kind, x.k))

    def __neg__(self): return self._map(lambda p: -p)
    def __pos__(self): return self

    def _add(self, o, sgn):
        if not isinstance(o, Mat):
            if isinstance(o, Arr): return self.toarray() + (o if sgn > 0 else -o)
            x = to_s(o)
            if x is not None and x.p.is_zero(): return self
            raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')
        for a, b in zip(self.shp, o.shp):
            if not N.eqdim(a, b): raise ValueError('inconsistent shapes')
        f = (lambda p: p) if sgn > 0 else (lambda p: -p)
        col = None
        if self.col_ is not None and o.col_ is not None:
            col = lambda j: self.col_(j) + [(i, f(v)) for i, v in o.col_(j)]
        return Mat(self.shp, lambda i: self.row_(i) + [(j, f(v)) for j, v in o.row_(i)], col, kmax(self.kind, o.kind), 'csr')

    def __add__(self, o): return self._add(o, 1)
    def __radd__(self, o): return self._add(o, 1)
    def __sub__(self, o): return self._add(o, -1)
    def __rsub__(self, o): return (-self)._add(o, 1)

    def __mul__(self, o):
        if isinstance(o, (Mat, Arr)) and not (isinstance(o, Arr) and o.ndim == 0): return self @ o
        return self._scale(o.item() if isinstance(o, Arr) else o)

    def __rmul__(self, o):
        if isinstance(o, Arr) and o.ndim > 0: return o @ self
        return self._scale(o.item() if isinstance(o, Arr) else o)

    def __truediv__(self, o):
        x = to_s(o.item() if isinstance(o, Arr) else o)
        if x is None: raise Unsupported('sparse division')
        return self._map(lambda p: N.pdiv_(p, x.p), kmax(kmax(self.kind, x.k), 'f'))

    def multiply(self, o):
        if isinstance(o, (S, int, float, complex)): return self._scale(o)
        raise Unsupported('elementwise product of sparse matrices')

    def dot(self, o): return self @ o if not to_s(o) else self._scale(o)

    def __matmul__(self, o):
        if isinstance(o, Mat):
            if not N.eqdim(self.shp[1], o.shp[0]): raise ValueError('dimension mismatch')
            col = None
            if self.col_ is not None and o.col_ is not None:
                col = lambda j: [(i, w * v) for k, v in o.col_(j) for i, w in self.col_(k)]
            return Mat((self.shp[0], o.shp[1]), lambda i: [(j, v * w) for k, v in self.row_(i) for j, w in o.row_(k)], col, kmax(self.kind, o.kind), 'csr')
        if hasattr(o, '__linop__'): raise Unsupported('sparse @ linear operator')
        o = N.asarray(o)
        if o.ndim == 0: raise ValueError('Scalar operands are not allowed, use \'*\' instead')
        if not N.eqdim(self.shp[1], o.shp[0]): raise ValueError('dimension mismatch')
        r, row = o.rp(), self.row_
        k = kmax(self.kind, o.kind)
        if o.ndim == 1: return Arr((self.shp[0],), lambda ix: _dot(row(ix[0]), lambda j: r((j,))), k)
        if o.ndim == 2: return Arr((self.shp[0], o.shp[1]), lambda ix: _dot(row(ix[0]), lambda j: r((j, ix[1]))), k)
        raise ValueError('could not interpret dimensions')

    def __rmatmul__(self, o):
        o = N.asarray(o)
        if not N.eqdim(self.shp[0], o.shp[-1]): raise ValueError('dimension mismatch')
        if self.col_ is None: raise Unsupported('column access of sparse matrix')
        r, col = o.rp(), self.col_
        k = kmax(self.kind, o.kind)
        return Arr(o.shp[:-1] + (self.shp[1],), lambda ix: _dot(col(ix[-1]), lambda i: r(ix[:-1] + (i,))), k)

    # ---- dense views
    def toarray(self):
        row = self.row_
        return Arr(self.shp, lambda ix: _at(row(ix[0]), ix[1]), self.kind)
    todense = toarray
    @property
    def A(self): return self.toarray()

    def diagonal(self, k=0):
        if k: raise Unsupported('off diagonal')
        row = self.row_
        a, b = self.shp
        n = a if N.eqdim(a, b) else (a if ctx().decide(c_le(a, b)) else b)
        return Arr((n,), lambda ix: _at(row(ix[0]), ix[0]), self.kind)

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2:
            i, j = key
            if to_s(i) is not None and to_s(j) is not None:
                return S(_at(self.row_(N.norm_int(N.index_p(i), self.shp[0])), N.norm_int(N.index_p(j), self.shp[1])), self.kind)
        raise Unsupported('sparse indexing')

    # ---- triplets
    @property
    def data(self):
        if self.fmt not in ('coo', 'csr', 'csc', 'bsr'): raise Unsupported('data of ' + self.fmt)
        return Entries([('data', self)])
    @property
    def row(self):
        if self.fmt != 'coo': raise AttributeError('row')
        return Entries([('row', self)])
    @property
    def col(self):
        if self.fmt != 'coo': raise AttributeError('col')
        return Entries([('col', self)])
    @property
    def nnz(self): return self.data.size

    def __bool__(self): raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __repr__(self): return f'Mat{self.shp}:{self.kind}'
    def __hash__(self): return id(self)
    def __str__(self): raise Unsupported('text form of a sparse matrix')


def _dot(entries, f):
    t = ZERO
    for j, v in entries: t = t + v * f(j)
    return t


def _at(entries, j):
    t = ZERO
    for k, v in entries:
        if same(k, j): t = t + v
    return t


def same(a, b): return a == b or ctx().decide(eq_cond(a, b))


def merged(entries):
    """entries of a row with equal columns combined"""
    out = []
    for j, v in entries:
        for q in range(len(out)):
            if same(out[q][0], j):
                out[q] = (out[q][0], out[q][1] + v)
                break
        else: out.append((j, v))
    return out


class Entries:
    """the stored entries (values, rows or columns, in canonical order) of one or several matrices, as a 1-D array of
    symbolic length; parts are ('data'|'row'|'col', Mat), ('arr', Arr)"""
    __symentries__ = True

    def __init__(self, parts): self.parts = parts
    @property
    def size(self): return Size(self.parts)
    @property
    def ndim(self): return 1
    @property
    def shape(self): return (Size(self.parts),)
    def __neg__(self): return Entries([(k, -m) if k in ('data', 'arr') else _no() for k, m in self.parts])
    def _sc(self, o):
        x = to_s(o)
        if x is None: raise Unsupported('arithmetic on sparse entries')
        return Entries([(k, m * o) if k in ('data', 'arr') else _no() for k, m in self.parts])
    __mul__ = __rmul__ = _sc
    def astype(self, *a, **k): return self
    def copy(self): return self
    def conj(self): return Entries([(k, m.conj()) if k in ('data', 'arr') else (k, m) for k, m in self.parts])
    def __getitem__(self, i): raise Unsupported('indexing sparse entries')
    def __len__(self): raise Unsupported('length of sparse entries')


def _no(): raise Unsupported('arithmetic on sparse indices')


class Size:
    """number of stored entries"""
    def __init__(self, parts): self.parts = parts
    def __eq__(self, o):
        return isinstance(o, Size)
    def __hash__(self): return 1


class EntIdx:
    """two rows of indices"""
    __symentries__ = True
    def __init__(self, rows): self.rows = rows
    def __getitem__(self, k):
        if isinstance(k, slice):
            r = self.rows[k]
            return EntIdx(r)
        return self.rows[k]
    def __iter__(self): return iter(self.rows)
    def __len__(self): return len(self.rows)
    @property
    def ndim(self): return 2


def ent_concat(xs):
    """hstack/concatenate involving Entries (1-D) or EntIdx (two rows)"""
    if any(isinstance(x, EntIdx) for x in xs):
        rows = []
        for k in range(2):
            parts = []
            for x in xs:
                r = x[k]
                parts += r.parts if isinstance(r, Entries) else [('arr', r)]
            rows.append(Entries(parts))
        return EntIdx(rows)
    parts = []
    for x in xs: parts += x.parts if isinstance(x, Entries) else [('arr', N.asarray(x).flatten())]
    return Entries(parts)


def same_pattern(a, b, dims=None):
    """obligation: two matrices store entries at the same positions, for every row"""
    if a is b: return True
    c = ctx()
    n = a.shp[0]
    ok = []

    def th():
        i = ZERO
        for k, m in enumerate(dims or [n]):
            m = N.dim(m)
            v = ZERO
            if not N.eqdim(m, N.ONE):
                v = T.var(f'pat_i{k}', real=True, isint=True)
                c.assume(c_le(ZERO, v)); c.assume(c_lt(v, m))
            i = i * m + v
        ca, cb = [j for j, _ in merged(a.row_(i))], [j for j, _ in merged(b.row_(i))]
        for x in ca:
            if not any(same(x, y) for y in cb): return False
        for y in cb:
            if not any(same(x, y) for x in ca): return False
        return True
    return all(c.explore(th))


def from_entries(data, row, col, shp, dims=None):
    """the matrix with the given triplets (duplicates summed)"""
    if isinstance(data, Arr): data = Entries([('arr', data)])
    if isinstance(row, Arr): row = Entries([('arr', row)])
    if isinstance(col, Arr): col = Entries([('arr', col)])
    if not (len(data.parts) == len(row.parts) == len(col.parts)): raise Unsupported('triplets with different parts')
    out = None
    for (kd, d), (kr, r), (kc, c) in zip(data.parts, row.parts, col.parts):
        if kd == 'data' and {kr, kc} == {'row', 'col'} and r is c:
            if not same_pattern(d, r, dims): raise Unsupported('values and positions of different sparsity patterns')
            m = d if kr == 'row' else d.T
        elif kd == 'arr' and kr == 'arr' and kc == 'arr':
            m = _coo(d, r, c, shp)
        elif kd == 'arr' and {kr, kc} == {'row', 'col'} and r is c and isinstance(d, EntVec):
            m = d.mat if kr == 'row' else d.mat.T
        else: raise Unsupported('mixed sparse triplets')
        out = m if out is None else out + m
    return Mat(shp, out.row_, out.col_, out.kind, 'coo')


class EntVec(Arr):
    pass


def _coo(d, r, c, shp):
    d, r, c = N.asarray(d), N.asarray(r), N.asarray(c)
    n = d.shp[0]
    for x in (r, c):
        if not N.eqdim(x.shp[0], n): raise ValueError('row, column, and data array must all be the same length')
    rd, rr, rc = d.rp(), r.rp(), c.rp()
    i = T.var('coo_probe', real=True, isint=True)
    if not n.is_const() or int(n.cval()) > 64:
        # only diagonal placements (index k at (k, k)) are supported for symbolic lengths
        if rr((i,)) == i and rc((i,)) == i:
            f = lambda k: [(k, rd((k,)))] if N.eqdim(n, shp[0]) or ctx().decide(c_lt(k, n)) else []
            return Mat(shp, f, f, d.kind, 'coo')
        raise Unsupported('coo matrix of symbolic length')
    m = int(n.cval())
    K = [Poly.const(k) for k in range(m)]
    row = lambda i: [(rc((k,)), rd((k,))) for k in K if ctx().decide(c_eq(rr((k,)), i))]
    col = lambda j: [(rr((k,)), rd((k,))) for k in K if ctx().decide(c_eq(rc((k,)), j))]
    return Mat(shp, row, col, d.kind, 'coo')


# --------------------------------------------------------------------------- constructors
def _canon(j, n):
    """canonical form of a position known to be the first or last one"""
    if j.is_const(): return j
    c = ctx()
    if c.entailed(c_eq(j, ZERO)) is True: return ZERO
    return j


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, Arr): offsets = list(offsets) if offsets.ndim else offsets.item()
    if to_s(offsets) is not None:
        if isinstance(diagonals, Arr):
            if diagonals.ndim == 2: diagonals = [diagonals[0]] if N.eqdim(diagonals.shp[0], ONE) else _bad()
        elif isinstance(diagonals, Entries): raise Unsupported('diags of sparse entries')
        else:
            if not len(diagonals) or to_s(diagonals[0]) is not None: diagonals = N.asarray(diagonals)
            elif len(diagonals) == 1: diagonals = N.asarray(diagonals[0])
            else: raise ValueError('Different number of diagonals and offsets.')
        diagonals = [diagonals] if isinstance(diagonals, Arr) else diagonals
        offsets = [offsets]
    ds = [N.asarray(d) for d in diagonals]
    ds = [d.reshape(1) if d.ndim == 0 else d for d in ds]
    offs = [N.dim(o) for o in offsets]
    if len(ds) != len(offs): raise ValueError('Different number of diagonals and offsets.')
    if shape is None:
        o = offs[0]
        m = ds[0].shp[0] + (o if ctx().decide(c_le(ZERO, o)) else -o)
        shp = (m, m)
    else: shp = tuple(N.dim(x) for x in shape)
    R, C = shp
    k = 'f'
    for d in ds: k = kmax(k, d.kind)
    if dtype is not None: k = N.kind_of(dtype)
    parts = []
    for d, o in zip(ds, offs):
        up = bool(ctx().decide(c_le(ZERO, o)))
        # length of the diagonal
        a, b = (R, C - o) if up else (R + o, C)
        ln = a if N.eqdim(a, b) else (a if ctx().decide(c_le(a, b)) else b)
        if ctx().decide(c_lt(ln, ZERO)): raise ValueError('Offset out of bounds')
        one = False
        if not N.eqdim(d.shp[0], ln):
            one = N.eqdim(d.shp[0], ONE)
            if not one: raise ValueError(f'Diagonal length does not agree with matrix size')
        elif d.shp[0] == ONE: one = True
        parts.append((d.rp(), o, up, ln, one, d.kind))

    def val(rd, m, one, kd): return N.cast_p(rd((ZERO if one else m,)), kd, k)

    def row(i):
        out = []
        for rd, o, up, ln, one, kd in parts:
            m = i if up else i + o
            if ctx().decide(c_and(c_le(ZERO, m), c_lt(m, ln))):
                m = _canon(m, ln)
                out.append((_canon(m + o if up else m, C), val(rd, m, one, kd)))
        return out

    def col(j):
        out = []
        for rd, o, up, ln, one, kd in parts:
            m = j - o if up else j
            if ctx().decide(c_and(c_le(ZERO, m), c_lt(m, ln))):
                m = _canon(m, ln)
                out.append((_canon(m if up else m - o, R), val(rd, m, one, kd)))
        return out
    return Mat(shp, row, col, k, 'dia' if format is None else format)


def _bad(): raise ValueError('Different number of diagonals and offsets.')


def eye(m, n=None, k=0, dtype=None, format=None):
    if k: raise Unsupported('offset eye')
    m = N.dim(m)
    n = m if n is None else N.dim(n)
    f = lambda i: [(i, ONE)] if m == n or ctx().decide(c_lt(i, n)) else []
    g = lambda i: [(i, ONE)] if m == n or ctx().decide(c_lt(i, m)) else []
    return Mat((m, n), f, g, 'f', format or 'dia')


def identity(n, dtype=None, format=None): return eye(n)


def as_mat(x):
    if isinstance(x, Mat): return x
    if to_s(x) is not None and not (isinstance(x, Arr) and x.ndim): x = N.asarray(x).reshape(1, 1)
    x = N.asarray(x)
    if x.ndim == 1: x = x.reshape(1, -1)
    if x.ndim != 2: raise TypeError('expected dimension <= 2 array or matrix')
    R, C = x.shp
    if not (R.is_const() and C.is_const()): raise Unsupported('sparse matrix from a dense array of symbolic size')
    rd = x.rp()
    def keep(v): return not v.is_zero()
    row = lambda i: [(Poly.const(j), v) for j in range(int(C.cval())) for v in [rd((i, Poly.const(j)))] if keep(v)]
    col = lambda j: [(Poly.const(i), v) for i in range(int(R.cval())) for v in [rd((Poly.const(i), j))] if keep(v)]
    return Mat((R, C), row, col, x.kind, 'coo')


def kron(a, b, format=None):
    A, B = as_mat(a), as_mat(b)
    Br, Bc = B.shp
    shp = (A.shp[0] * Br, A.shp[1] * Bc)

    def row(i):
        q, r = divmod_poly(i, Br)
        return [(ja * Bc + jb, va * vb) for ja, va in A.row_(q) for jb, vb in B.row_(r)]

    def col(j):
        q, r = divmod_poly(j, Bc)
        return [(ia * Br + ib, va * vb) for ia, va in A.col_(q) for ib, vb in B.col_(r)]
    return Mat(shp, row, col, kmax(A.kind, B.kind), 'coo' if format is None else format)


def bmat(blocks, format=None, dtype=None):
    blocks = [[None if b is None else as_mat(b) for b in r] for r in blocks]
    nr, nc = len(blocks), len(blocks[0])
    rs, cs = [None] * nr, [None] * nc
    for i in range(nr):
        if len(blocks[i]) != nc: raise ValueError('blocks must be 2-D')
        for j in range(nc):
            b = blocks[i][j]
            if b is None: continue
            if rs[i] is None: rs[i] = b.shp[0]
            elif not N.eqdim(rs[i], b.shp[0]): raise ValueError('incompatible row dimensions')
            if cs[j] is None: cs[j] = b.shp[1]
            elif not N.eqdim(cs[j], b.shp[1]): raise ValueError('incompatible column dimensions')
    if any(x is None for x in rs + cs): raise ValueError('blocks: all None')
    ro, co = [ZERO], [ZERO]
    for x in rs: ro.append(ro[-1] + x)
    for x in cs: co.append(co[-1] + x)

    def find(i, offs, sizes):
        if all(s == sizes[0] for s in sizes):
            q, r = divmod_poly(i, sizes[0])
            if q.is_const(): return int(q.cval()), r
        for k in range(len(sizes) - 1):
            if ctx().decide(c_lt(i, offs[k + 1])): return k, i - offs[k]
        return len(sizes) - 1, i - offs[len(sizes) - 1]

    def row(i):
        k, r = find(i, ro, rs)
        return [(co[j] + c, v) for j in range(nc) if blocks[k][j] is not None for c, v in blocks[k][j].row_(r)]

    def col(j):
        k, r = find(j, co, cs)
        return [(ro[i] + c, v) for i in range(nr) if blocks[i][k] is not None for c, v in blocks[i][k].col_(r)]
    kind = 'f'
    for r in blocks:
        for b in r:
            if b is not None: kind = kmax(kind, b.kind)
    return Mat((ro[-1], co[-1]), row, col, kind, 'coo' if format is None else format)


def hstack(blocks, format=None, dtype=None): return bmat([list(blocks)], format)
def vstack(blocks, format=None, dtype=None): return bmat([[b] for b in blocks], format)
def block_diag(mats, format=None):
    mats = [as_mat(m) for m in mats]
    n = len(mats)
    blocks = [[mats[i] if i == j else Mat((mats[i].shp[0], mats[j].shp[1]), lambda _: [], lambda _: [], 'f') for j in range(n)] for i in range(n)]
    return bmat(blocks, format)


class _MT(type):
    """spmatrix types: constructors and isinstance"""
    fmt = None
    def __instancecheck__(cls, o): return isinstance(o, Mat) and (cls.fmt is None or o.fmt == cls.fmt)
    def __call__(cls, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, Mat): m = arg._as(cls.fmt)
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)) and len(arg[1]) == 2 and not (to_s(arg[0]) is not None and not isinstance(arg[0], Arr)):
            if shape is None: raise Unsupported('coo matrix without shape')
            d, (r, c) = arg
            conv = lambda x: x if isinstance(x, Entries) else N.asarray(x)
            m = from_entries(conv(d), conv(r), conv(c), tuple(N.dim(x) for x in shape))._as(cls.fmt)
        elif isinstance(arg, tuple) and len(arg) == 2:
            m = Mat(tuple(N.dim(x) for x in arg), lambda i: [], lambda j: [], 'f', cls.fmt)
        else: m = as_mat(arg)._as(cls.fmt)
        return m.astype(dtype) if dtype is not None else m


def install(sp):
    sp.__dict__.update(diags=diags, eye=eye, identity=identity, kron=kron, bmat=bmat, hstack=hstack, vstack=vstack, block_diag=block_diag,
                       issparse=lambda x: isinstance(x, Mat), isspmatrix=lambda x: isinstance(x, Mat))
    sp.__dict__['spmatrix'] = _MT('spmatrix', (), {'fmt': None})
    for f in ('csr', 'csc', 'coo', 'dia', 'lil', 'bsr', 'dok'):
        sp.__dict__[f + '_matrix'] = _MT(f + '_matrix', (), {'fmt': f})
        sp.__dict__[f'isspmatrix_{f}'] = lambda x, f=f: isinstance(x, Mat) and x.fmt == f
