"""C20: a reused direct solver never answers with a stale factorisation."""
import types
from engine.runner import spec

MK, MKF = 'simphox.mkl', 'simphox/mkl.py:'


class Fn:
    def __init__(self, f): self.f = f
    def __call__(self, *a): return self.f(*a)


class CInt:
    def __init__(self, value=0): self.value = value


class Library:
    """contract of the native solver: factorising calls remember the matrix behind the pointers, or fail and leave no factors; a solve answers for the
    remembered factors (and reads the same matrix again, for refinement)"""
    def __init__(self, h):
        self.h, self.factors, self.solves, self.calls, self.failed = h, None, [], 0, False
        self.pivots = False
        no = Fn(lambda *a: None)
        lib = types.SimpleNamespace(pardiso=Fn(self.call), pardisoinit=no, feastinit=no, sfeast_scsrev=Fn(None), dfeast_scsrev=Fn(None), cfeast_hcsrev=Fn(None), zfeast_hcsrev=Fn(None))
        self.ctypes = types.SimpleNamespace(CDLL=lambda name: lib, byref=lambda x: x, c_char=CInt, c_int=CInt, c_int64=CInt, c_float=CInt, c_double=CInt, POINTER=lambda t: t)

    def call(self, pt, maxfct, mnum, mtype, phase, n, a, ia, ja, perm, nrhs, iparm, msglvl, rhs, x, error):
        h = self.h
        self.calls += 1
        self.failed = False
        if phase.value in (0, -1):
            self.factors = None
            return
        h.ensure(phase.value in (12, 13, 33), 'known_phase')
        snap = dict(n=n.value, a=a.arr.copy(), ia=ia.arr.copy(), ja=ja.arr.copy(), mtype=mtype.value, perm=getattr(a.arr, 'perm', None))
        if phase.value == 33:
            h.ensure(self.factors is not None, 'solving_needs_factors')
            if self.factors is None: return
            self.same(snap, self.factors)
        how = h.choice(f'outcome{self.calls}', ['done', 'error', 'pivot'] if self.calls == 1 or self.pivots else ['done', 'error'])
        iparm.arr[13] = 1 if how == 'pivot' else 0
        if how == 'error': error.value = -4
        self.failed = how != 'done'
        if phase.value in (12, 13): self.factors = snap
        if self.failed: self.factors = None
        elif phase.value in (13, 33):
            X = h.array(f'answer{self.calls}', (n.value * nrhs.value,), kind='c')
            x.arr[:] = X
            self.solves.append((self.calls, self.factors, rhs.arr.copy(), nrhs.value, X, n.value))

    def same(self, p, q):
        h = self.h
        h.ensure(p['n'] == q['n'], 'factors_of_the_matrix_behind_the_pointers')

        def body(k, name):
            def f(i):
                h.instances(i)
                h.eq(p[name][i], q[name][i], 'factors_of_the_matrix_behind_the_pointers')
            return f
        for name in ('a', 'ja', 'ia'): h.forall(name, [(0, p[name].shape[0])], body(0, name))


def matrix(h, name, cls, unsorted=('A',)):
    """any compressed sparse matrix, with sorted or unsorted column indices"""
    class CSR(cls):
        def __init__(s, n, indptr, indices, data, is_sorted):
            s.shape, s.indptr, s.indices, s.data, s.has_sorted_indices = (n, n), indptr, indices, data, is_sorted
        dtype = property(lambda s: s.data.dtype)
        ndim, shape, indptr, indices, data = 2, None, None, None, None
        nnz = property(lambda s: s.data.shape[0])
        format = 'csr'
        
        def copy(s):
            c = CSR(s.shape[0], s.indptr.copy(), s.indices.copy(), s.data.copy(), s.has_sorted_indices)
            c.shape = s.shape
            return c

        def tocsr(s, copy=False): return s.copy() if copy else s

        def sort_indices(s):
            from engine import terms as T, symnp as N
            d, j, nz = s.data.copy(), s.indices.copy(), N.dim(s.data.shape[0])

            def perm(i):
                p = N.undim(T.app('sorting_' + name, (N.dim(i),), True, True))
                h.ctx.assume((p >= 0) & (p < s.data.shape[0]))
                return p
            s.data = N.Arr((nz,), lambda i: d.rp()((N.dim(perm(i[0])),)), d.kind)
            s.indices = N.Arr((nz,), lambda i: j.rp()((N.dim(perm(i[0])),)), 'i')
            s.data.perm = s.indices.perm = perm
            s.has_sorted_indices = True
    n, z = h.int('n_' + name, lo=1), h.int('nnz_' + name, lo=1)
    return CSR(n, h.array('indptr_' + name, (n + 1,), kind='i'), h.array('indices_' + name, (z,), kind='i'), h.array('data_' + name, (z,), kind='c'), name not in unsorted or not h.flag('unsorted_' + name))


def represents(h, fac, m):
    """the factors belong to the matrix m as it is now"""
    perm = fac['perm'] or (lambda i: i)
    h.ensure(fac['n'] == m.shape[0], 'answer_for_this_matrix')
    h.ensure(fac['a'].shape[0] == m.data.shape[0], 'answer_for_this_matrix')
    h.ensure(fac['ia'].shape[0] == m.indptr.shape[0], 'answer_for_this_matrix')
    h.ensure(fac['mtype'] == 13, 'matrix_type')

    def entry(i):
        j = perm(i)
        h.instances(j), h.instances(i)
        h.eq(fac['a'][i], m.data[j], 'answer_for_this_matrix')
        h.eq(fac['ja'][i], m.indices[j], 'answer_for_this_matrix')

    def row(i):
        h.instances(i)
        h.eq(fac['ia'][i], m.indptr[i], 'answer_for_this_matrix')
    h.forall('entry', [(0, m.data.shape[0])], entry)
    h.forall('row', [(0, m.indptr.shape[0])], row)


def solve(h, L, f, m, columns=None):
    """solve m with any right hand side(s) and judge the answer"""
    n = m.shape[0]
    k = None if columns is None else h.int('columns', lo=1)
    b = h.array(f'b{L.calls}', (n,) if k is None else (n, k), kind='c')
    b0, c0 = b.copy(), L.calls
    try: x = f(m, b)
    except RuntimeError:
        h.ensure(L.calls == c0 + 1 and L.failed, 'fails_only_if_the_library_does')
        return
    h.ensure(L.calls == c0 + 1 and not L.failed, 'failure_reported')
    h.ensure(len(L.solves) > 0 and L.solves[-1][0] == L.calls, 'answer_of_this_call')
    _, fac, rhs, cols, X, fn = L.solves[-1]
    represents(h, fac, m)
    h.ensure(cols == (1 if k is None else k), 'right_hand_sides')
    h.ensure(rhs.shape[0] == n * cols, 'right_hand_side')
    if k is None:
        h.ensure(x.shape[0] == n and x.ndim == 1, 'form')
        def one(i): h.eq(rhs[i], b0[i], 'right_hand_side'), h.eq(x[i], X[i], 'answer'), h.eq(b[i], b0[i], 'given_right_hand_side_unchanged')
        h.forall('i', [(0, n)], one)
    else:
        if bool(k == 1): x = x.reshape((n, 1))
        h.ensure((x.shape[0] == n) & (x.shape[1] == k), 'form')
        def each(i, j): h.eq(rhs[j * n + i], b0[i, j], 'right_hand_side'), h.eq(x[i, j], X[j * n + i], 'answer')
        h.forall('ij', [(0, n), (0, k)], each)


def solver(h):
    L = Library(h)
    m = h.native(MK, ctypes=L.ctypes)
    base = __import__('engine.symsp', fromlist=['Mat']).Mat
    return L, m, base


@spec('C20', functions=[MKF + 'Pardiso.solve', MKF + 'Pardiso.factor', MKF + 'Pardiso.free', MKF + 'Pardiso.pardiso', MKF + 'Pardiso._set_mat', MKF + 'spsolve_pardiso'], trials=1, budget=300,
      bounded='every matrix, right hand side, outcome of the library and number of unknowns; histories of up to three calls')
def reuse(h):
    """whatever one solver was used for before, an answer belongs to the matrix as it is when passed"""
    if not h.symbolic: return
    L, m, base = solver(h)
    p = m.pardiso if m.pardiso.mtype == 13 else m.Pardiso()
    f = p.solve
    A = matrix(h, 'A', base)
    first = h.choice('first', ['solve', 'factor'])
    if first == 'solve': solve(h, L, f, A)
    else:
        try: p.factor(A)
        except RuntimeError: h.ensure(L.failed, 'fails_only_if_the_library_does')
        else: h.ensure(not L.failed, 'failure_reported')
    then = h.choice('then', ['nothing', 'data', 'entry', 'structure', 'free', 'forget', 'solve_other', 'factor_other', 'wrong_size', 'not_square'])
    if then == 'data': A.data[:] = h.array('changed', (A.data.shape[0],), kind='c')
    elif then == 'entry':
        i = h.int('changed_at', lo=0)
        h.assume(i < A.data.shape[0])
        A.data[i] = h.complex('v')
    elif then == 'structure': A.indices[:] = h.array('moved', (A.data.shape[0],), kind='i')
    elif then in ('free', 'forget'):
        try: p.free(then == 'free')
        except RuntimeError: pass
        h.ensure(L.factors is None, 'freed')
    elif then == 'solve_other': solve(h, L, f, matrix(h, 'B', base))
    elif then == 'factor_other':
        try: p.factor(matrix(h, 'B', base))
        except RuntimeError: h.ensure(L.failed, 'fails_only_if_the_library_does')
    elif then == 'wrong_size':
        k = h.int('wrong', lo=1)
        h.assume(k != A.shape[0])
        h.raises(lambda: f(A, h.array('w', (k,), kind='c')), RuntimeError, 'wrong_size_rejected')
    elif then == 'not_square':
        B = matrix(h, 'B', base)
        B.shape = (B.shape[0], B.shape[0] + 1)
        h.raises(lambda: f(B, h.array('w', (B.shape[0],), kind='c')), ValueError, 'not_square_rejected')
    last = A if h.flag('again') else matrix(h, 'C', base)
    if p is m.pardiso and then in ('nothing', 'entry', 'solve_other'): f = m.spsolve_pardiso
    solve(h, L, f, last)


FIELDS = {'mtype', 'dtype', 'ctypes_dtype', 'pt', 'pt_', 'iparm', 'iparm_', 'phase', '_mat_content', 'mat', 'a', 'a_', 'ia', 'ia_', 'ja', 'ja_', 'n'}


def invariant(h, L, p, used):
    """the state a solver may be in between calls: nothing remembered, or the content of one matrix together with its factors"""
    h.ensure(set(vars(p)) <= FIELDS, 'fields')
    h.ensure(p.mtype == 13, 'matrix_type')
    if p._mat_content is None: return
    h.ensure(L.factors is not None, 'factors_of_the_remembered_matrix')
    if L.factors is None: return
    h.ensure(p.a_.arr is p.a and p.ia_.arr is p.ia and p.ja_.arr is p.ja, 'pointers')
    L.same(dict(n=p.n, a=p.a, ia=p.ia, ja=p.ja), L.factors)
    snaps = [m for m in used if same_content(h, p, m)]
    h.ensure(len(snaps) > 0, 'content_of_a_matrix_that_was_passed')
    if snaps: represents(h, L.factors, snaps[-1])


def same_content(h, p, m):
    return p._mat_content == type(p)._content(m)


@spec('C20', functions=[MKF + 'Pardiso.solve', MKF + 'Pardiso.factor', MKF + 'Pardiso.free', MKF + 'Pardiso.pardiso', MKF + 'Pardiso._set_mat', MKF + 'Pardiso._content', MKF + 'Pardiso.__init__'],
      trials=1, budget=300, internal=True)
def any_history(h):
    """the invariant of the solver holds for a new one, and every call keeps it and answers for the matrix passed, from every state that
    satisfies it: hence for histories of any length"""
    if not h.symbolic: return
    L, m, base = solver(h)
    p = m.Pardiso()
    used = []
    state = h.choice('state', ['new', 'factored', 'forgotten'])
    if state != 'new':       # a matrix and its factors, whatever happened to the given one since
        A = matrix(h, 'A', base)
        used.append(A.copy())
        try: p.solve(A, h.array('b', (A.shape[0],), kind='c'))
        except RuntimeError: return
        A.data[:], A.indices[:], A.indptr[:] = (h.array(f'later{k}', (q.shape[0],), kind=t) for k, (q, t) in enumerate(((A.data, 'c'), (A.indices, 'i'), (A.indptr, 'i'))))
        if state == 'forgotten': p._mat_content, L.factors = None, None
    p.phase = h.int('phase')
    L.failed, L.pivots = False, True
    invariant(h, L, p, used)
    B = matrix(h, 'B', base, unsorted=('B',))
    if state != 'new' and h.flag('equal'):     # the matrix of the factors, once more
        B = used[0].copy()
    used.append(B.copy())
    op = h.choice('call', ['solve', 'factor', 'free', 'forget', 'wrong_size', 'not_square'])
    if op == 'solve': solve(h, L, p.solve, B)
    elif op == 'factor':
        try: p.factor(B)
        except RuntimeError: h.ensure(L.failed, 'fails_only_if_the_library_does')
        else: h.ensure(not L.failed, 'failure_reported')
    elif op in ('free', 'forget'):
        try: p.free(op == 'free')
        except RuntimeError: pass
        h.ensure(L.factors is None, 'freed')
    elif op == 'wrong_size':
        k = h.int('wrong', lo=1)
        h.assume(k != B.shape[0])
        h.raises(lambda: p.solve(B, h.array('w', (k,), kind='c')), RuntimeError, 'wrong_size_rejected')
    else:
        B.shape = (B.shape[0], B.shape[0] + 1)
        used[-1].shape = B.shape
        h.raises(lambda: p.solve(B, h.array('w', (B.shape[0],), kind='c')), ValueError, 'not_square_rejected')
    invariant(h, L, p, used)


@spec('C20', functions=[MKF + 'Pardiso.solve', MKF + 'Pardiso.pardiso', MKF + 'spsolve_pardiso'], trials=1, budget=200)
def columns(h):
    """every right hand side column is passed on and answered in its own column"""
    if not h.symbolic: return
    L, m, base = solver(h)
    solve(h, L, m.spsolve_pardiso, matrix(h, 'A', base), columns=True)


@spec('C20', functions=[MKF + 'Pardiso.pardiso'], trials=3)
def nothing_factorised(h):
    """without a matrix there is no answer, but an error"""
    if h.symbolic:
        L, m, base = solver(h)
        p = m.Pardiso()
    else: p = h.mod(MK).Pardiso()
    b = h.array('b', (3,), kind='c')
    p.n = 3
    h.raises(lambda: p.pardiso(b), RuntimeError, 'refused')


@spec('C20', sym=False, bounded='random histories of up to 12 calls with the real library', functions=[MKF + 'Pardiso.solve', MKF + 'Pardiso.factor', MKF + 'Pardiso.free', MKF + 'spsolve_pardiso'], trials=40, cbudget=60, tol=1e-6)
def histories(h):
    """every answer solves the matrix of its call; matrices that differ in one entry anywhere, or only in their structure, included"""
    import numpy as np, scipy.sparse as sp
    m = h.mod(MK)
    mt = h.choice('type', [13, 13, 13, 11, 2, -2, 4, -4, 6])
    p = m.Pardiso(mt) if mt != 13 or h.flag('own') else m.pardiso
    cplx = mt in (13, 4, -4, 6)
    rng = np.random.default_rng(h.int('seed', lo=0, chi=10 ** 9))
    n = h.choice('n', [3, 6, 40, 700])

    def new(n=n):
        A = sp.random(n, n, density=min(1, 4 / n), random_state=rng.integers(1 << 30), format='csr') + sp.diags(4 + rng.random(n))
        if cplx: A = A + 1j * sp.random(n, n, density=min(1, 2 / n), random_state=rng.integers(1 << 30), format='csr')
        if mt in (2, -2): A = A + A.T
        elif mt in (4, -4): A = A + A.conj().T
        elif mt == 6: A = A + A.T
        return A.tocsr().astype(complex if cplx else float)
    pool = [new()]
    A = pool[0]
    for k in range(h.int('calls', lo=3, chi=12)):
        op = rng.integers(0, 12)
        if op == 0: A = new()
        elif op == 1:     # one diagonal entry, anywhere, of the matrix in use
            A[rng.integers(0, n), :].nnz
            i = rng.integers(0, n)
            for q in range(A.indptr[i], A.indptr[i + 1]):
                if A.indices[q] == i: A.data[q] += 3 + rng.random()
        elif op == 2:
            A = A.copy()
            i = n // 2
            for q in range(A.indptr[i], A.indptr[i + 1]):
                if A.indices[q] == i: A.data[q] += 3
        elif op == 3: A.data *= 2
        elif op == 4: A = pool[rng.integers(0, len(pool))]
        elif op == 5:     # same values, another structure
            perm = rng.permutation(n)
            A = sp.csr_matrix((A.data.copy(), A.indices.copy(), A.indptr.copy()), shape=A.shape)
            if mt in (13, 11): A = sp.csr_matrix((A.data, perm[A.indices].astype(np.int32), A.indptr), shape=A.shape)
        elif op == 6:
            try: p.free(bool(rng.integers(0, 2)))
            except RuntimeError: pass
        elif op == 7:
            try: p.solve(A, np.ones(n + 1))
            except RuntimeError: pass
            else: h.ensure(False, 'wrong_size_rejected')
        elif op == 8:
            S = A.copy() * 0
            for z in (0, 1):
                try: x = p.solve(S, np.ones(n))
                except RuntimeError: pass
                else: h.ensure(False, 'singular_matrix_reported')
        elif op == 9:
            try: p.factor(A)
            except RuntimeError: pass
        pool.append(A)
        cols = rng.integers(0, 4)
        b = rng.standard_normal((n, cols) if cols else n) + (1j * rng.standard_normal((n, cols) if cols else n) if cplx else 0)
        A0, b0 = A.copy(), b.copy()
        public = p is m.pardiso and rng.integers(0, 2)
        g = m.spsolve_pardiso if public else p.solve
        B = A if not public else [A, A.tocsc(), A.tocoo()][rng.integers(0, 3)]
        try: x = g(B, b)
        except RuntimeError: continue
        x = x.reshape(b.shape)
        D = A0.toarray()
        if mt in (2, -2, 6) and op == 5: continue
        h.ensure(np.abs(D @ x - b).max() <= 1e-6 * max(1, np.abs(x).max()) * np.abs(D).max(), 'solves_the_matrix_of_this_call')
        h.ensure((A != A0).nnz == 0 and np.array_equal(b, b0), 'arguments_unchanged')
