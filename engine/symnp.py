"""Symbolic semantics of the numpy / jax.numpy subset used by the verified code.

An Arr has a shape (ints or symbolic sizes) and an element function over index polynomials; views share a
buffer (so in-place writes are seen through every alias), jax arrays are immutable."""
import itertools, math, types
from fractions import Fraction
from . import terms as T
from .terms import Poly, ZERO, ONE, Unsupported
from .core import (imin, imax, S, Cond, TRUE, FALSE, c_and, c_or, c_not, c_le, c_lt, c_eq, as_cond, to_s, ctx, pdiv, ppow,
                   p_sqrt, s_abs, s_min, s_max, divmod_poly, prove, prove_range, kmax, ORDER, real_mod, INF)

_range, _len, _isinstance, _min, _max, _sum, _abs, _int, _float, _any, _all = \
    range, len, isinstance, min, max, sum, abs, int, float, any, all


# --------------------------------------------------------------------------- dtypes
builtins_enumerate = enumerate


class DT:
    def __init__(self, k): self.k = k
    def __eq__(self, o):
        try: return kind_of(o) == self.k
        except Unsupported: return False
    def __hash__(self): return hash(self.k)
    @property
    def kind(self): return self.k
    @property
    def str(self): return self.k
    def __repr__(self): return f'DT({self.k})'


class _NT(type):
    def __instancecheck__(cls, o):
        return False
    def __call__(cls, x=0, *a):
        return cast(x, cls.k)


def _nt(name, k):
    return _NT(name, (), {'k': k})


TYPES = {}
for _n in ('float64', 'float32', 'float_', 'floating', 'longdouble'): TYPES[_n] = _nt(_n, 'f')
for _n in ('complex128', 'complex64', 'complex_', 'cdouble', 'csingle'): TYPES[_n] = _nt(_n, 'c')
for _n in ('int64', 'int32', 'int_', 'intp', 'uint8', 'uint64', 'int8', 'int16', 'integer', 'uint32'): TYPES[_n] = _nt(_n, 'i')
for _n in ('bool_',): TYPES[_n] = _nt(_n, 'b')


def kind_of(d):
    if d is None: return None
    if _isinstance(d, DT): return d.k
    if _isinstance(d, _NT): return d.k
    if d is float or getattr(d, '__symname__', None) == 'float': return 'f'
    if d is int or getattr(d, '__symname__', None) == 'int': return 'i'
    if d is complex or getattr(d, '__symname__', None) == 'complex': return 'c'
    if d is bool or getattr(d, '__symname__', None) == 'bool': return 'b'
    if _isinstance(d, str):
        if d.startswith(('float', 'f')): return 'f'
        if d.startswith('c'): return 'c'
        if d.startswith(('int', 'i', 'u')): return 'i'
        if d.startswith('b'): return 'b'
    if d is object: return 'o'
    raise Unsupported(f'dtype {d!r}')


def cast(x, k):
    """cast a scalar S / Cond to kind k"""
    if _isinstance(x, Arr): return x.astype(DT(k))
    if k == 'b': return as_cond(x)
    if _isinstance(x, Cond): x = x.num()
    s = to_s(x)
    if s is None: raise Unsupported(f'cast of {type(x).__name__}')
    return S(cast_p(s.p, s.k, k), k)


def cast_p(p, k0, k):
    if _isinstance(p, Cond):
        if k == 'b': return p
        p = ONE if ctx().decide(p) else ZERO
        k0 = 'i'
    if k == 'b': return c_not(c_eq(p, ZERO))
    if k == 'c' or k == 'o' or k == k0 or k is None: return p
    if k == 'f': return p.real() if k0 == 'c' else p
    if k == 'i':
        if k0 == 'i' or p.is_int(): return p
        return trunc(p.real() if k0 == 'c' else p)
    raise Unsupported(f'cast to {k}')


def floor_p(p):
    if p.is_int(): return p
    if p.is_const(): return Poly.const(p.cval().numerator // p.cval().denominator)
    ip = Poly({m: c for m, c in p.t.items() if c.denominator == 1 and _all(a.int and e.denominator == 1 and e > 0 for a, e in m)})
    rest = p - ip
    if rest.is_zero(): return p
    if rest.is_const(): return ip + Poly.const(rest.cval().numerator // rest.cval().denominator)
    # quotient of integers
    den = 1
    for c in rest.t.values(): den = den * c.denominator // math.gcd(den, c.denominator)
    num = rest.scale(Fraction(den))
    if den > 1 and num.is_int():
        return ip + divmod_poly(num, Poly.const(den))[0]
    if T_orderable(rest):
        c = ctx()
        for k in (0, -1):
            if c.entailed(c_le(Poly.const(k), rest)) is True and c.entailed(c_lt(rest, Poly.const(k + 1))) is True: return ip + Poly.const(k)
    return ip + T.fn('floor', (rest,), real=True, isint=True)


def ceil_p(p): return -floor_p(-p)


def trunc(p):
    if p.is_int(): return p
    if p.is_const(): return Poly.const(_int(p.cval()))
    return floor_p(p) if ctx().decide(c_le(ZERO, p)) else -floor_p(-p)


def round_p(p):
    if p.is_int(): return p
    if p.is_const(): return Poly.const(round(p.cval()))
    ip = Poly({m: c for m, c in p.t.items() if c.denominator == 1 and _all(a.int and e.denominator == 1 and e > 0 for a, e in m) and m})
    rest = p - ip
    if rest.is_const() and (rest.cval() * 2).denominator != 1 or rest.is_zero():
        return ip + Poly.const(round(rest.cval()))
    c = ctx()
    half = Poly.const(Fraction(1, 2))
    if T_orderable(rest) and c.entailed(c_lt(rest, half)) is True and c.entailed(c_lt(-half, rest)) is True: return ip
    return T.fn('round', (p,), real=True, isint=True)


# --------------------------------------------------------------------------- shapes
def dim(x):
    """-> Poly"""
    if _isinstance(x, Poly): return x
    if _isinstance(x, _int): return Poly.const(_int(x))
    if _isinstance(x, S): return x.p
    if _isinstance(x, Arr) and x.ndim == 0: return x.item().p
    raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")


def undim(p):
    if p.is_const() and p.cval().denominator == 1: return _int(p.cval())
    return S(p, 'i')


def is1(d): return d == ONE


def eqdim(a, b):
    if a == b: return True
    if a.is_const() and b.is_const(): return False
    return ctx().decide(c_eq(a, b))


def norm_shape(sh):
    if _isinstance(sh, Arr): sh = list(sh)
    if not _isinstance(sh, (tuple, list)): sh = (sh,)
    return tuple(dim(x) for x in sh)


def bshape(*shapes):
    nd = _max([_len(s) for s in shapes] + [0])
    out = []
    for k in _range(nd):
        ds = [s[_len(s) - nd + k] for s in shapes if _len(s) - nd + k >= 0]
        cur = ONE
        for d in ds:
            if is1(d) or d == cur: continue
            if is1(cur):
                cur = d
                continue
            if eqdim(cur, d): continue
            if ctx().decide(c_eq(d, ONE)): continue
            if ctx().decide(c_eq(cur, ONE)):
                cur = d
                continue
            raise ValueError('operands could not be broadcast together with shapes')
        out.append(cur)
    return tuple(out)


def bidx(idx, shape, oshape):
    off = _len(oshape) - _len(shape)
    return tuple(ZERO if (is1(shape[k]) and not is1(oshape[off + k])) else idx[off + k] for k in _range(_len(shape)))


def prod_(ds):
    p = ONE
    for d in ds: p = p * d
    return p


def memo(fn):
    cache = {}

    def g(idx):
        k = (ctx().gen, idx)
        r = cache.get(k)
        if r is None:
            r = fn(idx)
            cache[k] = r
        return r
    return g


class Buf:
    __slots__ = ('shape', 'state', 'kind', 'n')
    serial = 0

    def __init__(self, shape, state, kind):
        Buf.serial += 1
        self.n = Buf.serial
        self.shape, self.state, self.kind = shape, memo(state), kind


# --------------------------------------------------------------------------- arrays
class Arr:
    __array_priority__ = 2000
    jx = False

    def __init__(self, shape, fn=None, kind='f', jx=False, buf=None, fwd=None, inv=None):
        self.shp = tuple(shape)
        self.kind = kind
        self.jx = jx
        self.inj = None
        self.const_ = None
        if buf is None:
            buf = Buf(self.shp, fn, kind)
        self.buf, self.fwd, self.inv = buf, fwd, inv

    # ---- reading
    def reader(self):
        st, fwd = self.buf.state, self.fwd
        if fwd is None: return st
        return lambda idx: st(fwd(idx))

    def at_(self, idx):
        return self.reader()(tuple(idx))

    def rp(self):
        """reader returning Poly even for boolean arrays"""
        r = self.reader()
        if self.kind == 'b':
            return lambda idx: cast_p(r(idx), 'b', 'i')
        return r

    @property
    def shape(self): return ShapeT(undim(d) for d in self.shp)
    @shape.setter
    def shape(self, v): raise Unsupported('shape assignment')
    @property
    def ndim(self): return _len(self.shp)
    @property
    def size(self): return undim(prod_(self.shp))
    @property
    def dtype(self): return DT(self.kind)
    @property
    def T(self): return self.transpose()
    @property
    def real(self): return self._map(lambda p: p.real(), 'f') if self.kind == 'c' else self
    @property
    def imag(self): return self._map(lambda p: p.imag(), 'f')
    @property
    def at(self): return _At(self)
    @property
    def flat(self): return self.flatten()
    @flat.setter
    def flat(self, v): self[...] = asarray(v).reshape(self.shape)

    def _new(self, shape, fn, kind):
        return Arr(shape, fn, kind, self.jx)

    def _map(self, f, kind):
        r = self.rp()
        return wrap0(self._new(self.shp, lambda idx: f(r(idx)), kind))

    def conj(self):
        return self._map(lambda p: p.conj(), 'c') if self.kind == 'c' else self.copy()
    conjugate = conj

    def copy(self, order=None):
        a = self._new(self.shp, self.reader(), self.kind)
        a.inj = self.inj
        return a
    __copy__ = copy
    def __deepcopy__(self, m): return self.copy()

    def astype(self, d, copy=True):
        k = kind_of(d)
        r, k0 = self.reader(), self.kind
        return self._new(self.shp, lambda idx: cast_p(r(idx), k0, k), k)

    def item(self, *a):
        if a: return self.flatten()[a[0]]
        return scalar(self.at_((ZERO,) * self.ndim), self.kind)

    def tolist(self):
        if self.ndim == 0: return self.item()
        return [x.tolist() if _isinstance(x, Arr) else x for x in self]

    def __len__(self):
        d = self.shp[0]
        if d.is_const(): return _int(d.cval())
        raise Unsupported('len of symbolic array')

    def sym_len(self):
        if not self.shp: raise TypeError('len() of unsized object')
        return undim(self.shp[0])

    def __iter__(self):
        if not self.shp: raise TypeError('iteration over a 0-d array')
        d = self.shp[0]
        if not d.is_const(): raise Unsupported('iteration over an array of symbolic length')
        return iter([self[i] for i in _range(_int(d.cval()))])

    def __bool__(self):
        n = prod_(self.shp)
        if eqdim(n, ONE):
            v = self.at_((ZERO,) * self.ndim)
            return ctx().decide(v if _isinstance(v, Cond) else c_not(c_eq(v, ZERO)))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __sym_cond__(self):
        v = self.at_((ZERO,) * self.ndim)
        return v if _isinstance(v, Cond) else c_not(c_eq(v, ZERO))

    def __index__(self): return self.item().__index__()
    def __int__(self): return _int(self.item())
    def __float__(self): return _float(self.item())
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")
    def __repr__(self): return f'Arr{self.shp}:{self.kind}'
    def __format__(self, s): return repr(self)

    # ---- views
    def view_(self, shape, f, g):
        """f: new idx -> own idx ; g: own idx -> (Cond, new idx)"""
        fw, iv = self.fwd, self.inv
        nf = f if fw is None else (lambda idx: fw(f(idx)))
        if g is None:
            ni = False
        elif iv is None:
            ni = g
        elif iv is False:
            ni = False
        else:
            def ni(b):
                c1, i1 = iv(b)
                if not ctx().decide(c1): return FALSE, None
                return g(i1)
        return Arr(shape, None, self.kind, self.jx, buf=self.buf, fwd=nf, inv=ni)

    def transpose(self, *axes):
        if _len(axes) == 1 and _isinstance(axes[0], (tuple, list, Arr)) and not (_isinstance(axes[0], Arr) and axes[0].ndim == 0): axes = tuple(axes[0])
        if not axes or axes == (None,): axes = tuple(reversed(_range(self.ndim)))
        axes = tuple(a.__index__() % self.ndim for a in axes)
        pos = {a: k for k, a in enumerate(axes)}
        return self.view_(tuple(self.shp[a] for a in axes),
                          lambda idx: tuple(idx[pos[a]] for a in _range(_len(axes))),
                          lambda b: (TRUE, tuple(b[a] for a in axes)))

    def swapaxes(self, a, b):
        ax = list(_range(self.ndim)); ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def squeeze(self, axis=None):
        keep = []
        axs = None if axis is None else ((axis,) if _isinstance(axis, _int) else tuple(axis))
        if axs is not None: axs = tuple(a % self.ndim for a in axs)
        for k, d in enumerate(self.shp):
            if axs is None:
                if not eqdim(d, ONE): keep.append(k)
            elif k not in axs: keep.append(k)
            elif not eqdim(d, ONE): raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        nd = self.ndim
        def f(idx):
            full = [ZERO] * nd
            for v, k in zip(idx, keep): full[k] = v
            return tuple(full)
        return wrap0(self.view_(tuple(self.shp[k] for k in keep), f, lambda b: (TRUE, tuple(b[k] for k in keep))), keep0=True)

    def reshape(self, *sh, order='C'):
        if _len(sh) == 1: sh = sh[0]
        if order in ('F', 'f'):
            return self.transpose().reshape(tuple(reversed(tuple(sh if _isinstance(sh, (tuple, list)) else (sh,))))).transpose()
        sh = [dim(x) for x in (list(sh) if _isinstance(sh, (tuple, list, Arr)) else [sh])]
        tot = prod_(self.shp)
        neg = [k for k, d in enumerate(sh) if d == Poly.const(-1)]
        if neg:
            rest = prod_([d for k, d in enumerate(sh) if k != neg[0]])
            q, r = divmod_poly(tot, rest)
            if not (r.is_zero() or ctx().decide(c_eq(r, ZERO))):
                raise ValueError('cannot reshape array')
            sh[neg[0]] = q
        if not eqdim(prod_(sh), tot): raise ValueError('cannot reshape array')
        sh = tuple(sh)
        old = self.shp
        if sh == old: return self.view_(sh, lambda i: i, lambda b: (TRUE, b))
        return self.view_(sh, lambda idx: decode(encode(idx, sh), old), lambda b: (TRUE, decode(encode(b, old), sh)))

    def tobytes(self): return BytesKey(self)
    @property
    def ctypes(self): return types.SimpleNamespace(data_as=lambda t: CRef(self))

    def flatten(self, order='C'): return self.copy().reshape(-1, order=order)
    def ravel(self, order='C'): return self.reshape(-1, order=order)

    # ---- indexing
    def _parse(self, key):
        if not _isinstance(key, tuple): key = (key,)
        key = list(key)
        key = [asarray(k) if _isinstance(k, (list,)) or getattr(k, '__symlist__', False) else k for k in key]
        if _len(key) == 1 and _isinstance(key[0], Arr) and key[0].kind == 'b' and key[0].ndim >= 1:
            raise Unsupported('boolean mask indexing')
        n_used = _sum(1 for k in key if k is not None and k is not Ellipsis)
        if _any(k is Ellipsis for k in key):
            e = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:e] + [slice(None)] * (self.ndim - n_used) + [k for k in key[e + 1:]]
        else:
            key = key + [slice(None)] * (self.ndim - n_used)
        if _sum(1 for k in key if k is not None) > self.ndim:
            raise IndexError('too many indices for array')
        return key

    def __getitem__(self, key):
        key = self._parse(key)
        if _any(_isinstance(k, Arr) and k.ndim > 0 for k in key):
            return self._adv_get(key)
        return wrap0(self._basic(key))

    def _basic(self, key):
        ax = 0
        plan = []       # per own axis: ('int', i) or ('sl', start, step, outaxis)
        oshape = []
        for k in key:
            if k is None:
                oshape.append(ONE)
                continue
            n = self.shp[ax]
            if _isinstance(k, slice):
                st, ln, step = norm_slice(k, n)
                plan.append(('sl', st, step, _len(oshape), ln))
                oshape.append(ln)
            else:
                i = index_p(k)
                plan.append(('int', norm_int(i, n, self.jx)))
            ax += 1
        oshape = tuple(oshape)

        def f(idx):
            out = []
            for pl in plan:
                if pl[0] == 'int': out.append(pl[1])
                else:
                    _, st, step, o, ln = pl
                    out.append(st + idx[o].scale(Fraction(step)) if step != 1 else st + idx[o])
            return tuple(out)

        def g(b):
            conds, out = [], [ZERO] * _len(oshape)
            for x, pl in zip(b, plan):
                if pl[0] == 'int':
                    c = c_eq(x, pl[1])
                    if not ctx().decide(c): return FALSE, None
                else:
                    _, st, step, o, ln = pl
                    d = x - st
                    if step == -1: d = -d
                    elif step != 1:
                        d, r = divmod_poly(d if step > 0 else -d, Poly.const(_abs(step)))
                        if not ctx().decide(c_eq(r, ZERO)): return FALSE, None
                    if not ctx().decide(c_le(ZERO, d)): return FALSE, None
                    if not ctx().decide(c_lt(d, ln)): return FALSE, None
                    out[o] = d
            return TRUE, tuple(out)
        return self.view_(oshape, f, g)

    def _adv_plan(self, key):
        """reduce to: list per own axis of ('sl',...)/('int',..)/('adv', arr)"""
        ax, plan = 0, []
        for k in key:
            if k is None:
                plan.append(('new',))
                continue
            n = self.shp[ax]
            if _isinstance(k, slice):
                plan.append(('sl',) + norm_slice(k, n) + (ax,))
            elif _isinstance(k, Arr) and k.ndim > 0:
                if k.kind == 'b': raise Unsupported('boolean mask indexing')
                if k.kind not in ('i',):
                    if prod_(k.shp).is_zero(): k = k.astype(DT('i'))
                    else: raise IndexError('arrays used as indices must be of integer (or boolean) type')
                plan.append(('adv', k, ax))
            else:
                plan.append(('adv', asarray(k), ax))     # ints join the advanced group
            ax += 1
        apos = [i for i, p in enumerate(plan) if p[0] == 'adv']
        contiguous = apos == list(_range(apos[0], apos[-1] + 1))
        ash = bshape(*[plan[i][1].shp for i in apos])
        oshape = []
        lay = []       # output axis layout: ('A',) block or plan index
        start = apos[0] if contiguous else 0
        if not contiguous: lay.append('A')
        for i, p in enumerate(plan):
            if p[0] == 'adv':
                if contiguous and i == apos[0]: lay.append('A')
                continue
            lay.append(i)
        opos = {}
        for l in lay:
            if l == 'A':
                opos['A'] = _len(oshape)
                oshape.extend(ash)
            else:
                opos[l] = _len(oshape)
                oshape.append(ONE if plan[l][0] == 'new' else plan[l][2])
        return plan, ash, tuple(oshape), opos

    def _adv_get(self, key):
        plan, ash, oshape, opos = self._adv_plan(key)
        rd = self.reader()
        shp = self.shp
        readers = {i: p[1].reader() for i, p in enumerate(plan) if p[0] == 'adv'}
        jx = self.jx

        def f(idx):
            out = []
            a = opos['A']
            aidx = idx[a:a + _len(ash)]
            for i, p in enumerate(plan):
                if p[0] == 'new': continue
                if p[0] == 'sl':
                    _, st, ln, step, ax = p
                    out.append(st + idx[opos[i]].scale(Fraction(step)))
                else:
                    v = readers[i](bidx(aidx, p[1].shp, ash))
                    out.append(norm_int(v, shp[p[2]], jx))
            return rd(tuple(out))
        return wrap0(self._new(oshape, f, self.kind))

    def _adv_inv(self, key):
        plan, ash, oshape, opos = self._adv_plan(key)
        advs = [(i, p) for i, p in enumerate(plan) if p[0] == 'adv']
        shp, jx = self.shp, self.jx
        one = [(i, p) for i, p in advs if p[1].ndim > 0]

        def g(b):
            out = [ZERO] * _len(oshape)
            ax = 0
            bs = []
            for i, p in enumerate(plan):
                if p[0] == 'new': continue
                x = b[ax]; ax += 1
                if p[0] == 'sl':
                    _, st, ln, step, _a = p
                    d = x - st
                    if step == -1: d = -d
                    elif step != 1:
                        d, r = divmod_poly(d, Poly.const(step))
                        if not ctx().decide(c_eq(r, ZERO)): return FALSE, None
                    if not ctx().decide(c_and(c_le(ZERO, d), c_lt(d, ln))): return FALSE, None
                    out[opos[i]] = d
                else:
                    bs.append((p, x))
            a = opos['A']
            if _len(one) == 1 and one[0][1][1].inj is not None and _len(ash) == 1:
                for p, x in bs:
                    if p[1].ndim == 0:
                        if not ctx().decide(c_eq(norm_int(p[1].at_(()), shp[p[2]], jx), x)): return FALSE, None
                for p, x in bs:
                    if p[1].ndim > 0:
                        c, k = p[1].inj(x)
                        if not ctx().decide(c): return FALSE, None
                        out[a] = k
                return TRUE, tuple(out)
            if not _all(d.is_const() for d in ash):
                raise Unsupported('scatter through an index array of symbolic length without an inverse')
            for combo in reversed(list(itertools.product(*[_range(_int(d.cval())) for d in ash]))):
                ci = tuple(Poly.const(c) for c in combo)
                cond = TRUE
                for p, x in bs:
                    v = norm_int(p[1].at_(bidx(ci, p[1].shp, ash)), shp[p[2]], jx)
                    cond = c_and(cond, c_eq(v, x))
                if ctx().decide(cond):
                    for k, c in enumerate(ci): out[a + k] = c
                    return TRUE, tuple(out)
            return FALSE, None
        return g, oshape

    def __setitem__(self, key, val):
        if self.jx:
            raise TypeError("JAX arrays are immutable")
        self._store(key, val)

    def _mask_store(self, keys, p, val, op):
        """self[..., mask, ...] = scalar"""
        mask = keys[p]
        val = asarray(val)
        if val.ndim and not prod_(val.shp) == ONE: raise Unsupported('boolean mask store of an array')
        rest = keys[:p] + [slice(None)] * mask.ndim + keys[p + 1:]
        if _any(_isinstance(k, Arr) and k.ndim > 0 or k is Ellipsis for k in rest): raise Unsupported('mixed boolean mask store')
        v = self._basic(self._parse(tuple(rest)))
        pos = _sum(1 for k in rest[:p] if k is None or _isinstance(k, slice))
        for d, e in zip(mask.shp, v.shp[pos:]):
            if not eqdim(d, e): raise IndexError('boolean index did not match indexed array')
        inv, rm, m = v.inv, mask.reader(), mask.ndim
        if inv is False: raise Unsupported('store through a non invertible view')
        rv, kv, k, old = val.reader(), val.kind, self.buf.kind, self.buf.state
        x = rv(tuple(ZERO for _ in val.shp))

        def state(b):
            c, i = (TRUE, b) if inv is None else inv(b)
            if c is not TRUE and not ctx().decide(c): return old(b)
            if not ctx().decide(as_cond(rm(i[pos:pos + m]))): return old(b)
            w = cast_p(x, kv, k)
            return w if op is None else op(old(b), w)
        if ctx().wlog is not None: ctx().wlog.append(self.buf)
        self.buf.state = memo(state)

    def _store(self, key, val, op=None):
        ks = list(key) if _isinstance(key, tuple) else [key]
        bm = [i for i, k in builtins_enumerate(ks) if _isinstance(k, Arr) and k.kind == 'b' and k.ndim > 0]
        if _len(bm) == 1: return self._mask_store(ks, bm[0], val, op)
        key = self._parse(key)
        if _any(_isinstance(k, Arr) and k.ndim > 0 for k in key):
            g, oshape = self._adv_inv(key)
            iv = self.inv
            if iv is None: inv = g
            elif iv is False: raise Unsupported('store through a non invertible view')
            else:
                def inv(b):
                    c1, i1 = iv(b)
                    if not ctx().decide(c1): return FALSE, None
                    return g(i1)
        else:
            v = self._basic(key)
            inv, oshape = v.inv, v.shp
            if inv is False: raise Unsupported('store through a non invertible view')
        val = asarray(val)
        # value must broadcast to the target
        vs = val.shp
        while _len(vs) > _len(oshape):
            if not eqdim(vs[0], ONE): raise ValueError('could not broadcast input array')
            val = val[0] if _isinstance(val[0], Arr) else asarray(val[0])
            vs = val.shp
        for k in _range(_len(vs)):
            d, o = vs[_len(vs) - 1 - k], oshape[_len(oshape) - 1 - k]
            if is1(d) or d == o: continue
            if not eqdim(d, o):
                if not ctx().decide(c_eq(d, ONE)):
                    raise ValueError('could not broadcast input array into shape')
        rv, kv, k = val.reader(), val.kind, self.buf.kind
        old = self.buf.state
        if k == 'f' and kv == 'c' and not self.jx:
            pass        # numpy: ComplexWarning, real part kept (cast_p does it)

        def state(b):
            c, i = (TRUE, b) if inv is None else inv(b)
            if c is not TRUE and not ctx().decide(c): return old(b)
            v = cast_p(rv(bidx(i, vs, oshape)), kv, k)
            if op is not None: return op(old(b), v)
            return v
        if ctx().wlog is not None: ctx().wlog.append(self.buf)
        self.buf.state = memo(state)

    # ---- arithmetic
    def _bin(self, o, f, kind=None, rev=False):
        return binop(self, o, f, kind, rev)

    def __add__(self, o): return arith(self, o, lambda a, b: a + b)
    def __radd__(self, o): return arith(o, self, lambda a, b: a + b)
    def __sub__(self, o): return arith(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return arith(o, self, lambda a, b: a - b)
    def __mul__(self, o): return arith(self, o, lambda a, b: a * b)
    def __rmul__(self, o): return arith(o, self, lambda a, b: a * b)
    def __truediv__(self, o): return arith(self, o, pdiv_, 'f')
    def __rtruediv__(self, o): return arith(o, self, pdiv_, 'f')
    def __floordiv__(self, o): return arith(self, o, lambda a, b: divmod_poly(a, b)[0])
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return self._map(lambda p: -p, self.kind)
    def __pos__(self): return self.copy()
    def __abs__(self): return abs_(self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def _ip(self, o, f, mk=None):
        if self.jx: return f(self, o)
        r = f(self, o)
        if ORDER[asarray(r).kind] > ORDER[self.kind]:
            raise TypeError(f'Cannot cast ufunc output from dtype {r.kind} to dtype {self.kind} with casting rule same_kind')
        self[...] = r
        return self
    def __iadd__(self, o): return self._ip(o, lambda a, b: a + b)
    def __isub__(self, o): return self._ip(o, lambda a, b: a - b)
    def __imul__(self, o): return self._ip(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._ip(o, lambda a, b: a / b)
    def __ipow__(self, o): return self._ip(o, lambda a, b: a ** b)
    def __lt__(self, o): return compare(self, o, c_lt)
    def __le__(self, o): return compare(self, o, c_le)
    def __gt__(self, o): return compare(self, o, lambda a, b: c_lt(b, a))
    def __ge__(self, o): return compare(self, o, lambda a, b: c_le(b, a))
    def __eq__(self, o):
        if o is None or _isinstance(o, str): return False
        return compare(self, o, c_eq)
    def __ne__(self, o):
        if o is None or _isinstance(o, str): return True
        return compare(self, o, lambda a, b: c_not(c_eq(a, b)))
    def __and__(self, o): return boolop(self, o, c_and)
    __rand__ = __and__
    def __or__(self, o): return boolop(self, o, c_or)
    __ror__ = __or__
    def __invert__(self):
        r = self.reader()
        if self.kind != 'b': raise Unsupported('bitwise not')
        return self._new(self.shp, lambda i: c_not(r(i)), 'b')

    # ---- reductions
    def sum(self, axis=None, keepdims=False, dtype=None): return sum_(self, axis, keepdims)
    def mean(self, axis=None): return mean(self, axis)
    def max(self, axis=None): return amax(self, axis)
    def min(self, axis=None): return amin(self, axis)
    def any(self, axis=None): return any_(self)
    def all(self, axis=None): return all_(self)
    def cumsum(self, axis=None): return cumsum(self, axis)
    def dot(self, o): return matmul(self, o)
    def prod(self, axis=None): return prod(self)
    def round(self, d=0): return around(self, d)
    def fill(self, v): self[...] = v
    def block_until_ready(self): return self
    def conj_t(self): return self.T.conj()
    def std(self, axis=None): raise Unsupported('std')
    def argsort(self, axis=-1): return argsort(self)
    def nonzero(self): return nonzero(self)


class ShapeT(tuple):
    """shape tuple (plain tuple semantics)"""


class _At:
    def __init__(self, a): self.a = a
    def __getitem__(self, key): return _AtK(self.a, key)


class _AtK:
    def __init__(self, a, key): self.a, self.key = a, key
    def _do(self, v, op):
        b = self.a.copy(); b.jx = True
        v = asarray(v)
        if ORDER[v.kind] > ORDER[b.kind] and b.kind != 'c' and v.kind == 'c':
            v = v.real
        b._store(self.key, v, op)
        return b
    def set(self, v): return self._do(v, None)
    def add(self, v): return self._do(v, lambda a, b: a + b)
    def multiply(self, v): return self._do(v, lambda a, b: a * b)
    mul = multiply
    def get(self): return self.a[self.key]


class _NdMeta(type):
    def __instancecheck__(cls, o): return _isinstance(o, Arr) and (cls.want is None or o.jx == cls.want)


class ndarray(metaclass=_NdMeta):
    want = False


class jndarray(metaclass=_NdMeta):
    want = True


def wrap0(a, keep0=False):
    if a.ndim == 0 and not keep0 and not a.jx:
        return scalar(a.at_(()), a.kind)
    if a.ndim == 0 and a.jx:
        return scalar(a.at_(()), a.kind)
    return a


def scalar(v, kind):
    if _isinstance(v, Cond): return v
    return S(v, kind)


def index_p(k):
    if _isinstance(k, Cond): raise Unsupported('boolean index')
    if _isinstance(k, bool): raise Unsupported('boolean index')
    if _isinstance(k, _int): return Poly.const(k)
    if _isinstance(k, S):
        if k.k != 'i' and not k.p.is_int():
            raise IndexError('only integers, slices (`:`), ellipsis, numpy.newaxis and integer or boolean arrays are valid indices')
        return k.p
    if _isinstance(k, Arr) and k.ndim == 0: return index_p(k.item())
    if hasattr(k, '__index__'): return Poly.const(k.__index__())
    raise IndexError(f'only integers, slices are valid indices, got {type(k).__name__}')


def norm_int(i, n, jx=False):
    if i.is_const():
        v = i.cval()
        if v < 0: i = n + i
    elif not ctx().decide(c_le(ZERO, i)):
        i = i + n
    if _len(n.t) == 1 and not n.is_const() and _len(i.t) > 1 and prove_range(i, n): return i
    if not ctx().decide(c_and(c_le(ZERO, i), c_lt(i, n))):
        if jx: raise Unsupported('jax out of bounds index')
        raise IndexError('index out of bounds')
    return i


def norm_slice(sl, n):
    step = 1 if sl.step is None else _int(index_p(sl.step).cval()) if index_p(sl.step).is_const() else None
    if step is None: raise Unsupported('symbolic slice step')
    for x in (sl.start, sl.stop):
        if x is not None and not _isinstance(x, (_int, S)) and not (_isinstance(x, Arr) and x.ndim == 0):
            if not hasattr(x, '__index__'):
                raise TypeError('slice indices must be integers or None or have an __index__ method')
    for x in (sl.start, sl.stop):
        if _isinstance(x, S) and x.k != 'i':
            raise TypeError('slice indices must be integers or None or have an __index__ method')
    D = ctx().decide

    def clip(x, lo, hi):
        if D(c_lt(x, ZERO)): return imax(x + n, lo)
        return imin(x, hi)
    if step > 0:
        st = ZERO if sl.start is None else clip(index_p(sl.start), ZERO, n)
        en = n if sl.stop is None else clip(index_p(sl.stop), ZERO, n)
        d = imax(en - st, ZERO)
        if step != 1: d = divmod_poly(d + Poly.const(step - 1), Poly.const(step))[0]
        return st, d, step
    m1 = Poly.const(-1)
    st = n - ONE if sl.start is None else clip(index_p(sl.start), m1, n - ONE)
    en = m1 if sl.stop is None else clip(index_p(sl.stop), m1, n - ONE)
    d = imax(st - en, ZERO)
    if step != -1: d = divmod_poly(d + Poly.const(-step - 1), Poly.const(-step))[0]
    return st, d, step


def encode(idx, shape):
    f = ZERO
    for i, d in zip(idx, shape): f = f * d + i
    return f


def decode(f, shape):
    out = []
    for k in _range(_len(shape) - 1, 0, -1):
        d = shape[k]
        if is1(d):
            out.append(ZERO)
            continue
        f, r = divmod_poly(f, d)
        out.append(r)
    if shape:
        out.append(f)
    return tuple(reversed(out))


# --------------------------------------------------------------------------- construction
def asarray(x, dtype=None, jx=False):
    k = kind_of(dtype)
    if getattr(x, '__symentries__', False): return x
    if _isinstance(x, Arr):
        if k is not None and k != x.kind: return x.astype(DT(k))
        return x
    if getattr(x, '__symlist__', False):
        return asarray(x.as_arr(), dtype)
    if getattr(x, '__symseq__', False):
        x = from_seq(x)
        return asarray(x, dtype)
    if _isinstance(x, Cond):
        a = Arr((), lambda i: x, 'b', jx)
    elif _isinstance(x, (list, tuple)):
        a = from_list(x, jx)
    else:
        s = to_s(x)
        if s is None:
            raise Unsupported(f'np.array of {type(x).__name__}')
        kk = 'b' if _isinstance(x, bool) else s.k
        v = (TRUE if x else FALSE) if kk == 'b' else s.p
        a = Arr((), lambda i: v, kk, jx)
    if k is not None and k != a.kind: a = a.astype(DT(k))
    return a


def from_seq(x):
    """array of an abstract sequence of scalars or equally shaped arrays"""
    n = dim(x.length)
    a = asarray(x.element(0))
    def f(i):
        b = asarray(x.element(undim(i[0])))
        return b.at_(tuple(i[1:]))
    return Arr((n,) + tuple(a.shp), f, a.kind, a.jx)


def from_list(x, jx=False):
    items = [asarray(v) for v in x]
    if not items: return Arr((ZERO,), lambda i: ZERO, 'f', jx)
    sh = items[0].shp
    for it in items[1:]:
        if it.ndim != _len(sh): raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        for a, b in zip(it.shp, sh):
            if not eqdim(a, b): raise ValueError('inhomogeneous shape')
    k = items[0].kind
    for it in items[1:]: k = kmax(k, it.kind)
    rs = [(it.reader(), it.kind) for it in items]

    def f(idx):
        i = idx[0]
        if i.is_const():
            r, k0 = rs[_int(i.cval())]
            return cast_p(r(idx[1:]), k0, k)
        for j in _range(_len(rs) - 1):
            if ctx().decide(c_eq(i, Poly.const(j))):
                return cast_p(rs[j][0](idx[1:]), rs[j][1], k)
        return cast_p(rs[-1][0](idx[1:]), rs[-1][1], k)
    return Arr((Poly.const(_len(items)),) + sh, f, k, jx)


def kres(*ks):
    k = 'b'
    for x in ks: k = kmax(k, x)
    return k


def binop(a, b, f, kind):
    A, B = asarray(a), asarray(b)
    sh = bshape(A.shp, B.shp)
    ra, rb = A.rp(), B.rp()
    sa, sb = A.shp, B.shp
    jx = A.jx or B.jx
    if not sh:
        v = f(ra(()), rb(()))
        return v if _isinstance(v, Cond) else S(v, kind)
    if sa == sh and sb == sh:
        return Arr(sh, lambda i: f(ra(i), rb(i)), kind, jx)
    return Arr(sh, lambda i: f(ra(bidx(i, sa, sh)), rb(bidx(i, sb, sh))), kind, jx)


def _arrayable(x):
    return _isinstance(x, (Arr, S, Cond, _int, _float, complex, list, tuple, Fraction)) or getattr(x, '__symlist__', False)


def arith(a, b, f, mink='i'):
    for x in (a, b):
        if not _arrayable(x): return NotImplemented
    A, B = asarray(a), asarray(b)
    return binop(A, B, f, kmax(kmax(A.kind, B.kind), mink))


def pdiv_(a, b): return pdiv(a, b)


def compare(a, b, f):
    if not _arrayable(b): return NotImplemented
    return binop(a, b, f, 'b')


def boolop(a, b, f):
    A, B = asarray(a), asarray(b)
    sh = bshape(A.shp, B.shp)
    ra, rb, sa, sb = A.reader(), B.reader(), A.shp, B.shp
    return Arr(sh, lambda i: f(as_cond(ra(bidx(i, sa, sh))) if A.kind == 'b' else ra(bidx(i, sa, sh)), rb(bidx(i, sb, sh))), 'b', A.jx or B.jx)


def unary(x, f, kind=None):
    if _isinstance(x, Cond): x = x.num()
    if _isinstance(x, S): return f(x.p, x.k)
    A = asarray(x)
    if A.ndim == 0: 
        return f(A.rp()(()), A.kind)
    k0 = A.kind if A.kind != 'b' else 'i'
    r = A.rp()
    kk = kind(k0) if callable(kind) else (kind or k0)
    return Arr(A.shp, lambda i: f(r(i), k0).p, kk, A.jx)


# --------------------------------------------------------------------------- elementwise functions
def exp(x): return unary(x, lambda p, k: S(T.exp(p), kmax(k, 'f')), lambda k: kmax(k, 'f'))
def cos(x): return unary(x, lambda p, k: S(T.cos(p), kmax(k, 'f')), lambda k: kmax(k, 'f'))
def sin(x): return unary(x, lambda p, k: S(T.sin(p), kmax(k, 'f')), lambda k: kmax(k, 'f'))
def _sqrt1(p, k):
    if k == 'c' and not p.is_real(): return S(T.fn('csqrt', (p,), real=False) if True else None, 'c')
    return S(p_sqrt(p), kmax(k, 'f'))
def sqrt(x): return unary(x, _sqrt1, lambda k: kmax(k, 'f'))
def abs_(x): return unary(x, lambda p, k: s_abs(S(p, k)), lambda k: 'f' if k == 'c' else k)
def conj(x):
    if _isinstance(x, (S,)): return x.conj()
    return asarray(x).conj() if asarray(x).ndim else asarray(x).item().conj()
def real(x): return unary(x, lambda p, k: S(p.real(), 'f'), 'f')
def iscomplexobj(x): return asarray(x).kind == 'c'
def imag(x): return unary(x, lambda p, k: S(p.imag(), 'f'), 'f')


def angle_p(p):
    if p.is_zero(): return ZERO
    if p.is_const() and p.is_real() and all(a.real for a in p.atoms()):
        return ZERO if p.cval() > 0 else T.Poly.atom(T.PI)
    if T_orderable(p):
        if ctx().decide(c_eq(p, ZERO)): return ZERO
        return ZERO if ctx().decide(c_lt(ZERO, p)) else Poly.atom(T.PI)
    if ctx().decide(nonzero_cond(p)) is False: return ZERO
    return T.fn('angle', (p,), real=True)


def nonzero_cond(p):
    """condition p != 0 for a complex value; recorded as an abstract boolean"""
    from .core import Cond as C
    return c_not(zero_cond(p))


def zero_cond(p):
    # normalise by units: common factors which cannot vanish, and the phase of the leading term
    common = None
    for m in p.t:
        d = {a: e for a, e in m if a.pos or a.kind in ('X',) or (a.kind == 'base' and e < 0)}
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    if common: p = p * T.Poly({tuple(sorted(((a, -e) for a, e in common.items()), key=lambda t: t[0].id)): T.F1})
    for _ in (0, 1):
        lead = max(p.t, key=lambda m: T._mono_key(tuple((a, e) for a, e in m if a.kind not in ('E', 'epi'))))
        u = tuple((a, -e) for a, e in lead if a.kind in ('E', 'epi'))
        if u: p = p * T.Poly({u: T.F1})
    if not p.t: return c_eq(ZERO, ZERO)
    if p.is_const(): return c_eq(T.ONE, ZERO)
    if _len(p.t) <= 12:
        try:
            n2 = T.simplify(p * p.conj())
            if n2.t and n2.is_real() and (n2.is_const() or (all(a.real and a.pos for a in n2.atoms()) and all(c > 0 for c in n2.t.values()))):
                return c_eq(T.ONE, ZERO)
        except Unsupported:
            pass
    k = p.t
    lead = max(k, key=T._mono_key)
    q = p.scale(1 / k[lead])
    c = ctx()
    if q not in c.zconds:
        c.zconds[q] = len(c.zconds)
        c.zpolys[('zero', c.zconds[q])] = q
    return Cond('atom', ('zero', c.zconds[q]))


def T_orderable(p): return _all(a.real for a in p.atoms())


def angle(x): return unary(x, lambda p, k: S(angle_p(p), 'f'), 'f')
def arccos(x): return unary(x, lambda p, k: S(arccos_p(p), 'f'), 'f')


def arccos_p(p):
    if p.is_const() and not p.atoms():
        v = p.cval()
        if v == 1: return ZERO
        if v == 0: return Poly.atom(T.PI).scale(Fraction(1, 2))
        if v == -1: return Poly.atom(T.PI)
    return T.fn('arccos', (p,), real=True)


def arctan2(y, x):
    return binop(y, x, lambda a, b: T.fn('arctan2', (a, b), real=True), 'f')


def arcsin(x): return unary(x, lambda p, k: S(Poly.atom(T.PI).scale(Fraction(1, 2)) - arccos_p(p), 'f'), 'f')
def log(x): return unary(x, lambda p, k: S(log_p(p), 'f'), 'f')
def log10(x): return log(x) / S(T.lnconst(10), 'f')
def tanh(x):
    def f(p, k):      # odd
        if p == ZERO: return S(ZERO, 'f')
        q = -p
        if repr(q) < repr(p): return S(-T.fn('tanh', (q,), real=True), 'f')
        return S(T.fn('tanh', (p,), real=True), 'f')
    return unary(x, f, 'f')


def log_p(p):
    if p.is_const() and not p.atoms() and p.cval() > 0: return T.lnconst(p.cval())
    if p == INF: raise Unsupported('log inf')
    return T.fn('log', (p,), real=True)


def floor(x): return unary(x, lambda p, k: S(floor_p(p), 'f'), 'f')
def ceil(x): return unary(x, lambda p, k: S(ceil_p(p), 'f'), 'f')
def around(x, decimals=0):
    if decimals != 0: raise Unsupported('round to decimals')
    return unary(x, lambda p, k: S(round_p(p), k), None)


def mod(a, b):
    A, B = asarray(a), asarray(b)
    if A.kind == 'i' and B.kind == 'i':
        return binop(A, B, lambda x, y: divmod_poly(x, y)[1], 'i')
    return binop(A, B, real_mod, 'f')


def power(a, b):
    A, B = asarray(a), asarray(b)
    k = kmax(A.kind, B.kind)
    return binop(A, B, lambda x, y: ppow(x, y), kmax(k, 'i'))


def minimum(a, b): return binop(a, b, lambda x, y: x if ctx().decide(c_le(x, y)) else y, kres(asarray(a).kind, asarray(b).kind))
def maximum(a, b): return binop(a, b, lambda x, y: x if ctx().decide(c_le(y, x)) else y, kres(asarray(a).kind, asarray(b).kind))
def clip(a, lo, hi): return minimum(maximum(a, lo), hi)
def sign(x): return unary(x, lambda p, k: S(ZERO if ctx().decide(c_eq(p, ZERO)) else (ONE if ctx().decide(c_lt(ZERO, p)) else -ONE), k))


def where(c, a=None, b=None):
    if a is None: return nonzero(c)
    C, A, B = asarray(c), asarray(a), asarray(b)
    if _isinstance(c, (Cond, bool)) and A.ndim == 0 and B.ndim == 0:
        return A.item() if ctx().decide(as_cond(c)) else B.item()
    sh = bshape(C.shp, A.shp, B.shp)
    k = kmax(A.kind, B.kind)
    rc, ra, rb = C.reader(), A.reader(), B.reader()

    def f(i):
        cv = rc(bidx(i, C.shp, sh))
        if not _isinstance(cv, Cond): cv = c_not(c_eq(cv, ZERO))
        return cast_p(ra(bidx(i, A.shp, sh)), A.kind, k) if ctx().decide(cv) else cast_p(rb(bidx(i, B.shp, sh)), B.kind, k)
    return Arr(sh, f, k, C.jx or A.jx or B.jx)


def logical_and(a, b): return boolop(a, b, c_and)
def logical_or(a, b): return boolop(a, b, c_or)
def logical_not(a): return ~asarray(a)


# --------------------------------------------------------------------------- constructors
def _full(shape, v, k, jx=False):
    return Arr(norm_shape(shape), lambda i: v, k, jx)


def mk_np(jx):
    """namespace of array constructors for numpy (jx False) or jax.numpy"""
    ns = {}

    def reg(f):
        ns[f.__name__.rstrip('_')] = f
        return f

    @reg
    def array(x, dtype=None, copy=True, ndmin=0, order=None):
        a = asarray(x, dtype)
        a = a.copy()
        a.jx = jx
        return a

    @reg
    def asarray_(x, dtype=None):
        a = asarray(x, dtype)
        if a.jx != jx or not _isinstance(x, Arr):
            a = a.copy(); a.jx = jx
        return a
    ns['asarray'] = asarray_

    @reg
    def zeros(shape, dtype=None, order=None): return _full(shape, ZERO, kind_of(dtype) or 'f', jx) if kind_of(dtype) != 'b' else _full(shape, FALSE, 'b', jx)
    @reg
    def ones(shape, dtype=None, order=None): return _full(shape, ONE, kind_of(dtype) or 'f', jx) if kind_of(dtype) != 'b' else _full(shape, TRUE, 'b', jx)
    @reg
    def empty(shape, dtype=None): return _full(shape, ZERO, kind_of(dtype) or 'f', jx)
    @reg
    def full(shape, v, dtype=None):
        s = to_s(v)
        if s is None:
            out = zeros(shape, dtype or asarray(v).dtype)
            return broadcast_to(asarray(v), shape)
        k = kind_of(dtype) or s.k
        return _full(shape, cast_p(s.p, s.k, k), k, jx)
    @reg
    def zeros_like(x, dtype=None): return _full(asarray(x).shp, ZERO, kind_of(dtype) or (asarray(x).kind if asarray(x).kind != 'b' else 'b'), jx)
    @reg
    def ones_like(x, dtype=None):
        A = asarray(x)
        return _full(A.shp, ONE, kind_of(dtype) or A.kind, jx)
    @reg
    def full_like(x, v, dtype=None): return full(asarray(x).shape, v, dtype or asarray(x).dtype)
    ns['empty_like'] = zeros_like

    @reg
    def eye(n, m=None, k=0, dtype=None):
        m = n if m is None else m
        kk = kind_of(dtype) or 'f'
        kp = Poly.const(k)
        return Arr(norm_shape((n, m)), lambda i: ONE if ctx().decide(c_eq(i[0] + kp, i[1])) else ZERO, kk, jx)
    ns['identity'] = lambda n, dtype=None: eye(n, dtype=dtype)

    @reg
    def arange(*a, dtype=None):
        a = [to_s(x) if not _isinstance(x, Arr) else x.item() for x in a]
        st, en, step = (to_s(0), a[0], to_s(1)) if _len(a) == 1 else (a[0], a[1], to_s(1)) if _len(a) == 2 else a
        k = kind_of(dtype) or kres(st.k, en.k, step.k)
        span = en.p - st.p
        n = pdiv(span, step.p)
        n = ceil_p(n)
        if not ctx().decide(c_le(ZERO, n)): n = ZERO
        s0, sp = st.p, step.p
        r = Arr((n,), lambda i: s0 + i[0] * sp, k, jx)
        return r

    @reg
    def linspace(a, b, num=50, endpoint=True):
        a, b, n = to_s(a), to_s(b), dim(num)
        d = n - ONE if endpoint else n
        step = pdiv(b.p - a.p, d)
        return Arr((n,), lambda i: a.p + i[0] * step, 'f', jx)
    return ns


def broadcast_to(x, shape):
    A = asarray(x)
    sh = norm_shape(shape)
    r, sa = A.reader(), A.shp
    return Arr(sh, lambda i: r(bidx(i, sa, sh)), A.kind, A.jx)


def concatenate(xs, axis=0):
    xs = list(xs) if not (_isinstance(xs, Arr) and xs.ndim > 0 and not xs.shp[0].is_const()) else xs
    if _isinstance(xs, Arr): raise Unsupported('concatenate over symbolic sequence')
    As = [asarray(x) for x in xs]
    if not As: raise ValueError('need at least one array to concatenate')
    nd = As[0].ndim
    if nd == 0: raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis = axis % nd
    for a in As[1:]:
        if a.ndim != nd: raise ValueError('all the input array dimensions must match')
        for k in _range(nd):
            if k != axis and not eqdim(a.shp[k], As[0].shp[k]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    k = kres(*[a.kind for a in As])
    offs = [ZERO]
    for a in As: offs.append(offs[-1] + a.shp[axis])
    rs = [(a.reader(), a.kind) for a in As]
    sh = list(As[0].shp); sh[axis] = offs[-1]

    def f(idx):
        i = idx[axis]
        for j in _range(_len(rs)):
            if j == _len(rs) - 1 or ctx().decide(c_lt(i, offs[j + 1])):
                return cast_p(rs[j][0](idx[:axis] + (i - offs[j],) + idx[axis + 1:]), rs[j][1], k)
    out = Arr(tuple(sh), f, k, _any(a.jx for a in As))
    if nd == 1 and _all(a.inj is not None for a in As):
        injs = [a.inj for a in As]

        def inj(p):
            for j in reversed(_range(_len(injs))):
                c, kk = injs[j](p)
                if ctx().decide(c): return TRUE, kk + offs[j]
            return FALSE, None
        out.inj = inj
    return out


def stack(xs, axis=0):
    if getattr(xs, '__symseq__', False):
        a = from_seq(xs)
        return a if axis == 0 else moveaxis(a, 0, axis)
    As = [asarray(x) for x in xs]
    a = from_list(As, _any(x.jx for x in As))
    return a if axis == 0 else moveaxis(a, 0, axis)


def moveaxis(a, s, d):
    A = asarray(a)
    s, d = s % A.ndim, d % A.ndim
    ax = [k for k in _range(A.ndim) if k != s]
    ax.insert(d, s)
    return A.transpose(ax)


def atleast_1d(x):
    A = asarray(x)
    return A.reshape((1,)) if A.ndim == 0 else A


def atleast_2d(x):
    A = asarray(x)
    return A.reshape((1, 1)) if A.ndim == 0 else (A[None] if A.ndim == 1 else A)


def _ents(xs): return _isinstance(xs, (list, tuple)) and _any(getattr(x, '__symentries__', False) for x in xs)


def hstack(xs):
    if _ents(xs):
        from .symsp import ent_concat
        return ent_concat(list(xs))
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    if _ents(xs):
        from .symsp import EntIdx
        return EntIdx(list(xs))
    return concatenate([atleast_2d(x) for x in xs], 0)
def dstack(xs): return concatenate([asarray(x)[..., None] if asarray(x).ndim == 2 else asarray(x) for x in xs], 2)


def roll(x, shift, axis=None):
    A = asarray(x)
    if _isinstance(shift, (tuple, list)):
        for s, a in zip(shift, axis): A = roll(A, s, a)
        return A
    if axis is None:
        return roll(A.flatten(), shift, 0).reshape(A.shape)
    if _isinstance(axis, (tuple, list)):
        for a in axis: A = roll(A, shift, a)
        return A
    axis = axis % A.ndim
    n = A.shp[axis]
    s = index_p(shift)
    r = A.reader()

    def f(idx):
        j = idx[axis] - s
        if ctx().decide(c_lt(j, ZERO)):
            j = j + n
            if s == ONE: j = n - ONE
            elif not ctx().decide(c_le(ZERO, j)): j = divmod_poly(j, n)[1]
        elif ctx().decide(c_le(n, j)):
            j = j - n
            if s == -ONE: j = ZERO
            elif not ctx().decide(c_lt(j, n)): j = divmod_poly(j, n)[1]
        return r(idx[:axis] + (j,) + idx[axis + 1:])
    return A._new(A.shp, f, A.kind)


def flip(x, axis=None):
    A = asarray(x)
    axes = _range(A.ndim) if axis is None else ((axis,) if _isinstance(axis, _int) else axis)
    key = [slice(None)] * A.ndim
    for a in axes: key[a] = slice(None, None, -1)
    return A[tuple(key)]


def pad(x, pw, mode='constant', constant_values=0):
    A = asarray(x)
    if not _isinstance(pw, (tuple, list)): pw = ((pw, pw),) * A.ndim
    elif not _isinstance(pw[0], (tuple, list)): pw = (tuple(pw),) * A.ndim
    pw = [(dim(a), dim(b)) for a, b in pw]
    if _len(pw) == 1 and A.ndim > 1: pw = pw * A.ndim
    r = A.reader()
    cv = to_s(constant_values).p
    sh = tuple(d + a + b for d, (a, b) in zip(A.shp, pw))

    def f(idx):
        out = []
        for i, d, (a, b) in zip(idx, A.shp, pw):
            j = i - a
            if ctx().decide(c_lt(j, ZERO)):
                if mode == 'constant': return cv
                if mode == 'edge': j = ZERO
                else: raise Unsupported(f'pad mode {mode}')
            elif ctx().decide(c_le(d, j)):
                if mode == 'constant': return cv
                if mode == 'edge': j = d - ONE
                else: raise Unsupported(f'pad mode {mode}')
            out.append(j)
        return r(tuple(out))
    return A._new(sh, f, A.kind)


def meshgrid(*xs, indexing='xy'):
    As = [asarray(x) for x in xs]
    As = [a.flatten() if a.ndim != 1 else a for a in As]
    n = _len(As)
    order = list(_range(n))
    if indexing == 'xy' and n >= 2: order[0], order[1] = 1, 0
    # output axis position of input k
    posn = {order[p]: p for p in _range(n)} if indexing == 'xy' else {k: k for k in _range(n)}
    sh = [None] * n
    for k in _range(n): sh[posn[k]] = As[k].shp[0]
    outs = []
    for k in _range(n):
        r = As[k].reader()
        outs.append(Arr(tuple(sh), (lambda r, p: lambda i: r((i[p],)))(r, posn[k]), As[k].kind, As[k].jx))
    return outs


def fresh_int(tag='b'):
    from .core import ctx as _c
    c = _c()
    c.nfresh += 1
    return T.Atom.get('var', ('fresh', tag, c.nfresh), True, True, name=f'{tag}{c.nfresh}')


def sum_range(lo, hi, f):
    """sum_{i=lo}^{hi-1} f(i) -> Poly"""
    n = hi - lo
    if n.is_const():
        tot = ZERO
        for k in _range(_max(0, _int(n.cval()))): tot = tot + f(lo + Poly.const(k))
        return tot
    b = fresh_int('s')
    bp = Poly.atom(b)

    def th():
        ctx().assume(c_le(lo, bp)); ctx().assume(c_lt(bp, hi))
        return f(bp), list(ctx().path)
    outs = ctx().explore(th)
    if not outs: return ZERO
    v = outs[0][0]
    for o, _ in outs[1:]:
        if o != v and not T.is_zero(o - v):
            return piecewise_sum(b, bp, lo, hi, outs)
    return T.mk_sum(b, v, lo, hi)


def piecewise_sum(b, bp, lo, hi, outs):
    """value differs on sub-ranges delimited by linear conditions on the bound variable with unit coefficient"""
    base = _len(ctx().path)
    total = ZERO
    for v, path in outs:
        l, h = lo, hi
        for c in path[base:]:
            if c.op == 'const': continue
            if c.op == 'not' and c.a[0].op == 'eq':
                continue        # complement of a single point, handled by subtraction below
            if c.op not in ('le', 'eq'): raise Unsupported('piecewise sum condition')
            co = c.a.t.get(((b, Fraction(1)),))
            if co is None:
                if T.depends_poly(c.a, b): raise Unsupported('piecewise sum condition')
                continue
            rest = c.a - bp.scale(co)
            if T.depends_poly(rest, b) or abs(co) != 1: raise Unsupported('piecewise sum condition')
            if c.op == 'eq':
                x = rest.scale(-1 / co)
                if ctx().decide(c_le(l, x)): l = x
                if ctx().decide(c_le(x + ONE, h)): h = x + ONE
            elif co == 1:       # b + rest <= 0
                x = ONE - rest
                if ctx().decide(c_lt(x, h)): h = x
            else:               # rest - b <= 0
                if ctx().decide(c_lt(l, rest)): l = rest
        if not ctx().decide(c_lt(l, h)): continue
        d = h - l
        if d.is_const():
            s = ZERO
            for k in _range(_int(d.cval())): s = s + v.subs({b: l + Poly.const(k)})
        else:
            s = T.mk_sum(b, v, l, h)
        # remove excluded points
        for c in path[base:]:
            if c.op == 'not' and c.a[0].op == 'eq':
                e = c.a[0].a
                co = e.t.get(((b, Fraction(1)),))
                if co is None: continue
                x = (e - bp.scale(co)).scale(-1 / co)
                if ctx().decide(c_and(c_le(l, x), c_lt(x, h))):
                    s = s - v.subs({b: x})
        total = total + s
    return total


def sum_(x, axis=None, keepdims=False, dtype=None):
    A = asarray(x)
    if A.ndim == 0: return A.item()
    k = A.kind if A.kind != 'b' else 'i'
    r = A.rp()
    if axis is None: axes = tuple(_range(A.ndim))
    elif _isinstance(axis, (tuple, list)): axes = tuple(a % A.ndim for a in axis)
    else: axes = (axis % A.ndim,)
    keep = [q for q in _range(A.ndim) if q not in axes]

    def f(idx):
        full = [None] * A.ndim
        for q, v in zip(keep, idx): full[q] = v

        def rec(axs, full):
            if not axs: return r(tuple(full))
            a = axs[0]

            def g(i):
                fl = list(full); fl[a] = i
                return rec(axs[1:], fl)
            return sum_range(ZERO, A.shp[a], g)
        return rec(axes, full)
    if keepdims:
        sh = tuple(ONE if q in axes else d for q, d in enumerate(A.shp))
        return A._new(sh, lambda idx: f(tuple(idx[q] for q in keep)), k)
    return wrap0(A._new(tuple(A.shp[q] for q in keep), f, k))


def mean(x, axis=None):
    A = asarray(x)
    s = sum_(A, axis)
    if axis is None: n = prod_(A.shp)
    else: n = prod_([A.shp[a] for a in ((axis,) if _isinstance(axis, _int) else axis)])
    return s / undim(n)


def cumsum(x, axis=None):
    A = asarray(x)
    if A.ndim != 1: raise Unsupported('cumsum nd')
    r = A.rp()
    return A._new(A.shp, lambda i: sum_range(ZERO, i[0] + ONE, lambda j: r((j,))), A.kind)


def prod(x, axis=None):
    if _isinstance(x, (list, tuple)):
        p = to_s(1)
        for v in x: p = p * v
        return p if not (_isinstance(p, S) and p.p.is_const() and p.k == 'i') else _int(p.p.cval())
    A = asarray(x)
    if A.ndim == 0: return A.item()
    p = to_s(1)
    for v in A.flatten(): p = p * v
    return p


_EXT = {}


def _extremum(A, name):
    """the max / min of an array of symbolic length: an unknown real number, the same one for the same array"""
    if A.kind == 'c': raise Unsupported('max/min of complex values')
    if (id(A), name) not in _EXT:
        _EXT[(id(A), name)] = (A, T.fn(name, (Poly.const(_len(_EXT)),), True, A.kind == 'i'))
    return S(_EXT[(id(A), name)][1], A.kind)


def _fold(A, f):
    n = prod_(A.shp)
    if not n.is_const():
        if f is s_max or f is s_min: return _extremum(A, 'max' if f is s_max else 'min')
        raise Unsupported('any over symbolic length')
    vals = list(A.flatten())
    if not vals: raise ValueError('zero-size array to reduction operation')
    out = vals[0]
    for v in vals[1:]: out = f(out, v)
    return out


def amax(x, axis=None):
    A = asarray(x)
    if A.ndim == 0: return A.item()
    if axis is not None: raise Unsupported('max along an axis')
    return _fold(A, s_max)


def amin(x, axis=None):
    A = asarray(x)
    if A.ndim == 0: return A.item()
    if axis is not None: raise Unsupported('min along an axis')
    return _fold(A, s_min)


def any_(x, axis=None):
    A = asarray(x)
    if A.ndim == 0: return as_cond(A.item())
    if prod_(A.shp).is_zero(): return FALSE
    return _fold(A, lambda a, b: c_or(as_cond(a), as_cond(b))) if not prod_(A.shp).is_const() or _len(list(A.flatten())) > 1 else as_cond(A.flatten()[0])


def all_(x, axis=None):
    A = asarray(x)
    if A.ndim == 0: return as_cond(A.item())
    if prod_(A.shp).is_zero(): return TRUE
    c = TRUE
    if not prod_(A.shp).is_const(): raise Unsupported('all over symbolic length')
    for v in A.flatten(): c = c_and(c, as_cond(v))
    return c


def _sort_perm(vals):
    """stable insertion sort of a list of scalars by decisions of the path condition"""
    out = []
    for i, v in enumerate(vals):
        q = _len(out)
        while q > 0 and ctx().decide(c_lt(v.p, vals[out[q - 1]].p)): q -= 1
        out.insert(q, i)
    return out


def argsort(x, axis=-1):
    A = asarray(x)
    vals = list(A)
    if not _all(v.p.is_const() for v in vals): return asarray(_sort_perm(vals))
    return asarray([i for i, _ in sorted(enumerate(vals), key=lambda t: t[1].p.cval())])


def sort(x):
    A = asarray(x)
    vals = list(A)
    if not _all(v.p.is_const() for v in vals): return asarray([vals[i] for i in _sort_perm(vals)])
    return asarray(sorted(vals, key=lambda t: t.p.cval()))


def nonzero(x):
    A = asarray(x)
    if A.ndim != 1 or not A.shp[0].is_const(): raise Unsupported('nonzero')
    r, out = A.reader(), []
    for i in _range(_int(A.shp[0].cval())):
        cv = r((Poly.const(i),))
        if not _isinstance(cv, Cond): cv = c_not(c_eq(cv, ZERO))
        if ctx().decide(cv): out.append(i)
    return (asarray(out) if out else Arr((ZERO,), lambda i: ZERO, 'i'),)


def delete(x, obj):
    A = asarray(x)
    vals = list(A)
    o = [v.p for v in asarray(obj)]
    out = []
    for k, v in enumerate(vals):
        if not _any(ctx().decide(c_eq(Poly.const(k), p)) for p in o): out.append(v)
    return asarray(out) if out else Arr((ZERO,), lambda i: ZERO, A.kind)


def matmul(a, b):
    if hasattr(b, '__symsparse__'): return b.__rmatmul__(a)
    if hasattr(a, '__symsparse__'): return a.__matmul__(b)
    A, B = asarray(a), asarray(b)
    k = kmax(A.kind, B.kind)
    ra, rb = A.rp(), B.rp()
    jx = A.jx or B.jx
    if A.ndim == 0 or B.ndim == 0: raise ValueError('matmul: Input operand does not have enough dimensions')
    n = A.shp[-1]
    nb = B.shp[0] if B.ndim == 1 else B.shp[-2]
    if not eqdim(n, nb): raise ValueError('matmul: mismatch in core dimension')
    if A.ndim == 1 and B.ndim == 1:
        return S(sum_range(ZERO, n, lambda j: ra((j,)) * rb((j,))), k)
    if A.ndim == 2 and B.ndim == 1:
        return Arr((A.shp[0],), lambda i: sum_range(ZERO, n, lambda j: ra((i[0], j)) * rb((j,))), k, jx)
    if A.ndim == 1 and B.ndim == 2:
        return Arr((B.shp[1],), lambda i: sum_range(ZERO, n, lambda j: ra((j,)) * rb((j, i[0]))), k, jx)
    if A.ndim == 2 and B.ndim == 2:
        return Arr((A.shp[0], B.shp[1]), lambda i: sum_range(ZERO, n, lambda j: ra((i[0], j)) * rb((j, i[1]))), k, jx)
    raise Unsupported('batched matmul')


def dot(a, b): return matmul(a, b)
def outer(a, b):
    A, B = asarray(a).flatten(), asarray(b).flatten()
    return A[:, None] * B[None, :]
def vdot(a, b): return sum_(asarray(a).flatten().conj() * asarray(b).flatten())


def diag(x, k=0):
    A = asarray(x)
    r = A.rp()
    if k: raise Unsupported('offset diag')
    if A.ndim == 1:
        n = A.shp[0]
        return A._new((n, n), lambda i: r((i[0],)) if ctx().decide(c_eq(i[0], i[1])) else ZERO, A.kind)
    return A._new((A.shp[0],), lambda i: r((i[0], i[0])), A.kind)


def tile(x, reps):
    A = asarray(x)
    reps = norm_shape(reps)
    while A.ndim < _len(reps): A = A[None]
    reps = (ONE,) * (A.ndim - _len(reps)) + reps
    r = A.reader()
    sh = tuple(d * q for d, q in zip(A.shp, reps))
    return A._new(sh, lambda idx: r(tuple(i if is1(q) else divmod_poly(i, d)[1] for i, d, q in zip(idx, A.shp, reps))), A.kind)


def repeat(x, n, axis=None):
    A = asarray(x)
    if axis is None: A, axis = A.flatten(), 0
    n = dim(n)
    r = A.reader()
    sh = list(A.shp); sh[axis] = sh[axis] * n
    return A._new(tuple(sh), lambda i: r(i[:axis] + (divmod_poly(i[axis], n)[0],) + i[axis + 1:]), A.kind)


def expand_dims(x, axis):
    A = asarray(x)
    key = [slice(None)] * A.ndim
    key.insert(axis if axis >= 0 else A.ndim + 1 + axis, None)
    return A[tuple(key)]


def transpose(x, axes=None): return asarray(x).transpose(*(axes or ()))
def reshape(x, sh): return asarray(x).reshape(sh)
def squeeze(x, axis=None): return asarray(x).squeeze(axis) if asarray(x).ndim else x
def ravel(x): return asarray(x).ravel()
def size_(x): return asarray(x).size
def ndim_(x): return asarray(x).ndim
def shape_(x): return asarray(x).shape


def isscalar(x):
    return _isinstance(x, (S, Cond, _int, _float, complex, str)) and not _isinstance(x, Arr)


def linalg_norm(x, axis=None):
    A = asarray(x)
    r = A.rp()
    sq = A._new(A.shp, lambda i: T.abs2(r(i)), 'f')
    return sqrt(sum_(sq, axis))


def hypot(a, b, dtype=None, **kw):
    """sqrt(a^2 + b^2) of real arguments; of |x| and |y|: (sum of squares)^(1/2), so only the squared moduli appear"""
    if kw: raise Unsupported('hypot')
    return binop(a, b, lambda x, y: p_sqrt(T.abs2(x) + T.abs2(y)), 'f')


def spacing(x):
    s = to_s(x)
    if s.p == ONE:
        ctx().note('np.spacing(1) (machine epsilon used to avoid 0/0) is treated as exactly 0')
        return S(ZERO, 'f')
    raise Unsupported('spacing')


def block(rows):
    return vstack([hstack([asarray(b) for b in row]) for row in rows])


def fliplr(x): return flip(x, 1)
def flipud(x): return flip(x, 0)


def block_diag(*xs):
    xs = [atleast_2d(x) for x in xs]
    rows = []
    for i, a in builtins_enumerate(xs):
        rows.append([a if i == j else _full((a.shape[0], b.shape[1]), ZERO, kres(*[x.kind for x in xs])) for j, b in builtins_enumerate(xs)])
    return block(rows)


def triu_indices(n): raise Unsupported('triu_indices')


def array_equal(a, b):
    A, B = asarray(a), asarray(b)
    if A.ndim != B.ndim: return False
    for x, y in zip(A.shp, B.shp):
        if not ctx().decide(c_eq(x, y)): return False
    ra, rb = A.rp(), B.rp()
    if not prod_(A.shp).is_const(): return same_content(A, B)
    return all_(A == B)


def same_content(a, b):
    """whether two arrays of symbolic size are equal: decided nondeterministically unless they are the same expression; where equal,
    the universal fact is recorded and can be instantiated (harness.instances)"""
    A, B = asarray(a), asarray(b)
    if A.ndim != B.ndim: return False
    for x, y in zip(A.shp, B.shp):
        if not ctx().decide(c_eq(x, y)): return False
    c = ctx()
    vs = tuple(T.var(f'same_i{k}', real=True, isint=True) for k in _range(A.ndim))

    def at():
        for v, d in zip(vs, A.shp):
            c.assume(c_le(ZERO, v)); c.assume(c_lt(v, d))
        pa, pb = A.rp()(vs), B.rp()(vs)
        return T.simplify(pa - pb).is_zero(), repr(pa.key()), repr(pb.key())
    outs = c.explore(at)
    if _all(o[0] for o in outs): return True
    key = ('same',) + tuple(sorted((repr([o[1] for o in outs]), repr([o[2] for o in outs]))))
    if key in c.known: return bool(c.known[key])
    c.nfresh += 1
    r = c.decide(c_eq(T.var(f'same_{c.nfresh}', real=True, isint=True), ONE))
    c.known[key] = (A.copy(), B.copy()) if r else False
    return r


class BytesKey:
    """the bytes of an array: equal exactly when the arrays are"""
    def __init__(self, A): self.a = A.copy()
    def __eq__(self, o): return bool(same_content(self.a, o.a)) if _isinstance(o, BytesKey) and o.a.kind == self.a.kind else False
    def __ne__(self, o): return not self == o
    def __hash__(self): return 0


class CRef:
    """a pointer to the buffer of an array"""
    def __init__(self, arr): self.arr = arr


def allclose(a, b, *k, **kw): raise Unsupported('allclose')


def result_type(*xs):
    k = 'b'
    for x in xs:
        if _isinstance(x, Arr): kk = x.kind
        elif _isinstance(x, S): kk = x.k
        elif _isinstance(x, (DT, _NT)) or _isinstance(x, (str, type)) or hasattr(x, '__symname__'): kk = kind_of(x)
        else: kk = asarray(x).kind
        k = kk if k == 'b' else (k if kk == 'b' else kmax(k, kk))
    return DT(k)


def einsum(spec, *ops):
    if not _isinstance(spec, str) or '.' in spec: raise Unsupported('einsum form')
    spec = spec.replace(' ', '')
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        rhs = ''.join(sorted(c for c in set(lhs) - {','} if lhs.count(c) == 1))
    ops = [asarray(o) for o in ops]
    dims = {}
    for t, o in zip(ins, ops):
        if _len(t) != o.ndim: raise ValueError('einsum: operand has wrong number of dimensions')
        for c, d in zip(t, o.shp):
            if c in dims and not eqdim(dims[c], d): raise ValueError('einsum: dimension mismatch')
            dims.setdefault(c, d)
    red = [c for c in dims if c not in rhs]
    rs = [o.rp() for o in ops]
    k = kres(*[o.kind for o in ops])

    def f(idx):
        env = dict(zip(rhs, idx))
        def rec(j, env):
            if j == _len(red):
                v = ONE
                for t, r in zip(ins, rs): v = v * r(tuple(env[c] for c in t))
                return v
            return sum_range(ZERO, dims[red[j]], lambda i: rec(j + 1, {**env, red[j]: i}))
        return rec(0, env)
    if not rhs: return S(f(()), k)
    return Arr(tuple(dims[c] for c in rhs), f, k, _any(o.jx for o in ops))


def cross(a, b, axis=None, axisa=-1, axisb=-1, axisc=-1):
    if axis is not None: axisa = axisb = axisc = axis
    A, B = moveaxis(asarray(a), axisa, 0), moveaxis(asarray(b), axisb, 0)
    c = stack([A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]])
    return moveaxis(c, 0, axisc)


def kron(a, b):
    A, B = asarray(a), asarray(b)
    if A.ndim != B.ndim: raise Unsupported('kron of different ranks')
    ra, rb = A.rp(), B.rp()
    def f(idx):
        q = [divmod_poly(i, d) for i, d in zip(idx, B.shp)]
        return ra(tuple(x[0] for x in q)) * rb(tuple(x[1] for x in q))
    return Arr(tuple(x * y for x, y in zip(A.shp, B.shp)), f, kmax(A.kind, B.kind), A.jx or B.jx)


def count_nonzero(x):
    A = asarray(x)
    if not prod_(A.shp).is_const(): raise Unsupported('count_nonzero over symbolic length')
    n = 0
    for v in (A.flatten() if A.ndim else [A.item()]):
        if (bool(v) if _isinstance(v, Cond) else bool(v != 0)): n += 1
    return n


def trace(x):
    A = asarray(x)
    r = A.rp()
    return S(sum_range(ZERO, A.shp[0], lambda i: r((i, i))), A.kind)


def swapaxes(x, a, b): return asarray(x).swapaxes(a, b)
def append(x, v, axis=None): return concatenate([asarray(x).flatten(), asarray(v).flatten()]) if axis is None else concatenate([x, v], axis)
def square(x): return asarray(x) * asarray(x) if _isinstance(x, (Arr, list, tuple)) else x * x


def diff(x, n=1, axis=-1):
    A = asarray(x)
    if n != 1: raise Unsupported('diff order')
    axis = axis % A.ndim
    k1, k0 = [slice(None)] * A.ndim, [slice(None)] * A.ndim
    k1[axis], k0[axis] = slice(1, None), slice(None, -1)
    return A[tuple(k1)] - A[tuple(k0)]


def split(x, n, axis=0):
    A = asarray(x)
    if not _isinstance(n, _int): raise Unsupported('split at indices')
    q, r = divmod_poly(A.shp[axis], Poly.const(n))
    if not r.is_zero(): raise ValueError('array split does not result in an equal division')
    out = []
    for j in _range(n):
        key = [slice(None)] * A.ndim
        key[axis] = slice(undim(q.scale(j)), undim(q.scale(j + 1)))
        out.append(A[tuple(key)])
    return out


def tri_(x, keep):
    A = asarray(x)
    r = A.rp()
    return A._new(A.shp, lambda i: r(i) if ctx().decide(keep(i)) else ZERO, A.kind)


def triu(x, k=0): return tri_(x, lambda i: c_le(i[-2] + Poly.const(k), i[-1]))
def tril(x, k=0): return tri_(x, lambda i: c_le(i[-1], i[-2] + Poly.const(k)))


def argmax(x, axis=None):
    if axis is not None: raise Unsupported('argmax along an axis')
    vals = list(asarray(x).flatten())
    b = 0
    for k in _range(1, _len(vals)):
        if vals[k] > vals[b]: b = k
    return b


def argmin(x, axis=None):
    if axis is not None: raise Unsupported('argmin along an axis')
    vals = list(asarray(x).flatten())
    b = 0
    for k in _range(1, _len(vals)):
        if vals[k] < vals[b]: b = k
    return b


def unravel_index(i, shape):
    return tuple(undim(p) for p in decode(index_p(i), norm_shape(shape)))


def ufunc2(f):
    def g(a, b):
        A, B = asarray(a), asarray(b)
        return f(A if A.ndim else A.item(), B if B.ndim else B.item())
    return g


class _Mod(types.ModuleType):
    """module shim: unknown attributes raise Unsupported when *called*"""
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Missing(f'{self.__name__}.{n}')


class Missing:
    def __init__(self, name): self.__dict__['_name'] = name
    def __call__(self, *a, **k): raise Unsupported(f'{self._name} is outside the modelled subset')
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Missing(f'{self._name}.{n}')
    def __mro_entries__(self, bases): return (object,)
    def __getitem__(self, k): return self
    def __repr__(self): return f'<missing {self._name}>'
    def __or__(self, o): return self


class RandomShim(_Mod):
    def rand(self, *sh): return _rand(sh, 'rand', lo=0, hi=1)
    def randn(self, *sh): return _rand(sh, 'randn')
    def normal(self, loc=0, scale=1, size=()): return _rand(size if _isinstance(size, tuple) else (size,), 'normal')
    def uniform(self, a=0, b=1, size=()): raise Unsupported('np.random.uniform')
    def seed(self, *a): pass


def _rand(sh, tag, lo=None, hi=None):
    c = ctx()
    c.nfresh += 1
    nm = f'{tag}{c.nfresh}'
    if not sh: return S(T.var(nm), 'f')
    return Arr(norm_shape(sh), lambda i: T.app(nm, i, True), 'f')


def make_module(jx=False):
    m = _Mod('jax.numpy' if jx else 'numpy')
    d = m.__dict__
    d.update(mk_np(jx))
    for nm, f in dict(exp=exp, cos=cos, sin=sin, sqrt=sqrt, abs=abs_, absolute=abs_, conj=conj, conjugate=conj, real=real, imag=imag, iscomplexobj=iscomplexobj,
                      angle=angle, arccos=arccos, arcsin=arcsin, arctan2=arctan2, log=log, log10=log10, tanh=tanh, floor=floor, ceil=ceil, around=around, round=around,
                      mod=mod, power=power, minimum=minimum, maximum=maximum, clip=clip, sign=sign, where=where,
                      logical_and=logical_and, logical_or=logical_or, logical_not=logical_not,
                      concatenate=concatenate, stack=stack, hstack=hstack, vstack=vstack, dstack=dstack, roll=roll, flip=flip, pad=pad,
                      meshgrid=meshgrid, sum=sum_, mean=mean, cumsum=cumsum, prod=prod, max=amax, min=amin, amax=amax, amin=amin, any=any_,
                      all=all_, argsort=argsort, sort=sort, delete=delete, matmul=matmul, dot=dot, outer=outer, vdot=vdot, diag=diag, tile=tile, repeat=repeat,
                      expand_dims=expand_dims, transpose=transpose, reshape=reshape, squeeze=squeeze, ravel=ravel, size=size_, ndim=ndim_, shape=shape_,
                      isscalar=isscalar, spacing=spacing, hypot=hypot, block=block, moveaxis=moveaxis, broadcast_to=broadcast_to, atleast_1d=atleast_1d,
                      atleast_2d=atleast_2d, nonzero=nonzero, copy=lambda x: asarray(x).copy(), fliplr=fliplr, flipud=flipud,
                      result_type=result_type, einsum=einsum, cross=cross, kron=kron, count_nonzero=count_nonzero, trace=trace, swapaxes=swapaxes,
                      append=append, square=square, diff=diff, split=split, triu=triu, tril=tril, argmax=argmax, argmin=argmin, array_equal=array_equal,
                      unravel_index=unravel_index, add=ufunc2(lambda a, b: a + b), subtract=ufunc2(lambda a, b: a - b), multiply=ufunc2(lambda a, b: a * b),
                      divide=ufunc2(lambda a, b: a / b), true_divide=ufunc2(lambda a, b: a / b), negative=lambda a: -asarray(a) if not _isinstance(a, S) else -a,
                      allclose=allclose).items():
        d[nm] = f
    d.update(TYPES)
    d['pi'] = S(Poly.atom(T.PI), 'f')
    d['inf'] = S(INF, 'f')
    d['newaxis'] = None
    d['ndarray'] = jndarray if jx else ndarray
    d['ctypeslib'] = types.SimpleNamespace(ndpointer=lambda *a, **k: None)
    d['nan'] = Missing('nan')
    la = _Mod(m.__name__ + '.linalg')
    la.norm = linalg_norm
    d['linalg'] = la
    d['random'] = RandomShim(m.__name__ + '.random')
    if jx:
        for k, f in list(d.items()):
            if callable(f) and k in JAXRET:
                d[k] = _jaxify(f)
    return m


JAXRET = {'einsum', 'cross', 'kron', 'split', 'square', 'append', 'triu', 'tril', 'add', 'subtract', 'multiply', 'divide', 'negative', 'swapaxes', 'moveaxis', 'exp', 'cos', 'sin', 'sqrt', 'abs', 'conj', 'real', 'imag', 'angle', 'arccos', 'stack', 'hstack', 'vstack', 'roll', 'where',
          'concatenate', 'sum', 'diag', 'pad', 'flip', 'meshgrid', 'tile', 'block', 'mean', 'squeeze', 'reshape', 'broadcast_to', 'minimum', 'maximum', 'clip', 'round', 'around', 'tanh', 'log', 'transpose', 'expand_dims', 'ravel'}


def _jaxify(f):
    def g(*a, **k):
        r = f(*a, **k)
        if _isinstance(r, Arr):
            if not r.jx:
                r = r.copy()
                r.jx = True
        return r
    g.__name__ = getattr(f, '__name__', 'f')
    return g
