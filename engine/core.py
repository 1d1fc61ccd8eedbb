"""Path exploration, conditions, symbolic scalars (S), z3 back end."""
import random
import sys, time, random
from fractions import Fraction
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3
from . import terms as T
from .terms import Poly, ZERO, ONE, Unsupported, Atom

Z3_TIMEOUT = 1500


class PathEnd(Exception):
    """this path is infeasible / finished"""


class SpecFail(Exception):
    pass


# --------------------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('op', 'a', '_k')

    def __init__(self, op, a):
        self.op, self.a, self._k = op, a, None

    def key(self):
        if self._k is None:
            if self.op in ('le', 'lt', 'eq'):
                self._k = (self.op, self.a.key())
            elif self.op == 'const':
                self._k = ('const', self.a)
            elif self.op == 'atom':
                self._k = ('atom', self.a)
            else:
                self._k = (self.op,) + tuple(c.key() for c in self.a)
        return self._k

    def __bool__(self):
        return ctx().decide(self)

    def __and__(self, o): return c_and(self, as_cond(o))
    def __rand__(self, o): return c_and(as_cond(o), self)
    def __or__(self, o): return c_or(self, as_cond(o))
    def __ror__(self, o): return c_or(as_cond(o), self)
    def __invert__(self): return c_not(self)
    def __eq__(self, o):
        if isinstance(o, (bool, Cond)):
            o = as_cond(o)
            return c_or(c_and(self, o), c_and(c_not(self), c_not(o)))
        if isinstance(o, (int, float)):
            return as_cond(self) if o == 1 else (c_not(self) if o == 0 else FALSE)
        return NotImplemented
    def __hash__(self): return hash(self.key())
    # numeric use of booleans
    def num(self): return S(ONE if bool(self) else ZERO, 'i')
    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __gt__(self, o): return self.num() > o
    def astype(self, k): return self.num()
    def __repr__(self):
        return f'{self.op}({self.a})'


TRUE, FALSE = Cond('const', True), Cond('const', False)


def as_cond(x):
    if isinstance(x, Cond): return x
    if isinstance(x, S): return c_not(c_eq(x.p, ZERO))
    if hasattr(x, '__sym_cond__'): return x.__sym_cond__()
    return TRUE if x else FALSE


def c_and(*cs):
    out = []
    for c in cs:
        if c.op == 'const':
            if not c.a: return FALSE
            continue
        out.extend(c.a if c.op == 'and' else (c,))
    if not out: return TRUE
    return out[0] if len(out) == 1 else Cond('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c.op == 'const':
            if c.a: return TRUE
            continue
        out.extend(c.a if c.op == 'or' else (c,))
    if not out: return FALSE
    return out[0] if len(out) == 1 else Cond('or', tuple(out))


def c_not(c):
    if c.op == 'const': return FALSE if c.a else TRUE
    if c.op == 'not': return c.a[0]
    if c.op == 'le': return c_lt(-c.a, ZERO)
    if c.op == 'lt': return c_le(-c.a, ZERO)
    if c.op == 'and': return c_or(*[c_not(x) for x in c.a])
    if c.op == 'or': return c_and(*[c_not(x) for x in c.a])
    return Cond('not', (c,))


def const_sign(p):
    """sign of a number built from constants only (pi, roots of unity, roots); None if it is not such a number or too close to zero"""
    if len(p.t) > 50: return None
    for m in p.t:
        for a, _ in m:
            if a is not T.PI and a is not T.EPI and a.kind != 'base': return None
    at = T.deep_atoms(p)
    if not at: return None
    for a in at:
        if a is not T.PI and a is not T.EPI and a.kind != 'base': return None
    try:
        v = T.Env(random.Random(0)).ev(p)
    except Exception:
        return None
    v = complex(v)
    if abs(v.imag) > 1e-9 * max(1, abs(v.real)) or abs(v.real) < 1e-7: return None
    return 1 if v.real > 0 else -1


def modulus_zero(p):
    """(sign, condition p == 0) if p is a constant times moduli of complex values (or roots of sums of their squares), else None"""
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    d, zs, seen = dict(m), [], set()
    if all(a.real and a.kind != 'base' for a in d): return None
    for a, e in m:
        if a.pos or a in seen: continue
        if e <= 0: return None
        if not a.real:
            if d.get(a.conj_) != e: return None
            seen.add(a.conj_)
            zs.append([Poly.atom(a)])
        elif a.kind == 'base' and e == Fraction(1, 2):
            q = a.args[0]
            parts = []
            for mm, cc in q.t.items():
                if not cc > 0: return None
                dd, done, pr = dict(mm), set(), Poly({(): T.F1})
                for x, k in mm:
                    if x in done: continue
                    if not x.real:
                        if dd.get(x.conj_) != k or k <= 0: return None
                        done.add(x.conj_); pr = pr * Poly.atom(x)
                    elif x.pos: pass
                    elif k > 0 and (k / 2).denominator == 1: pr = pr * Poly.atom(x)
                    else: return None
                parts.append(pr)
            zs.append(parts)
        else: return None
    if not zs: return None
    from .symnp import zero_cond
    return (1 if c > 0 else -1), c_or(*[c_and(*[zero_cond(x) for x in g]) for g in zs])


def c_le(a, b):
    p = a - b
    mz = modulus_zero(p)
    if mz is not None: return TRUE if mz[0] < 0 else mz[1]
    sg = const_sign(p) if not p.is_const() else None
    if sg is not None: return TRUE if sg < 0 else FALSE
    if p.is_const(): return TRUE if p.cval() <= 0 else FALSE
    return Cond('le', p)


def c_lt(a, b):
    p = a - b
    mz = modulus_zero(p)
    if mz is not None: return FALSE if mz[0] > 0 else c_not(mz[1])
    sg = const_sign(p) if not p.is_const() else None
    if sg is not None: return TRUE if sg < 0 else FALSE
    if p.is_const(): return TRUE if p.cval() < 0 else FALSE
    if p.is_int(): return Cond('le', p + ONE)
    return Cond('lt', p)


def c_eq(a, b):
    p = a - b
    if p.is_zero(): return TRUE
    if p.is_const(): return FALSE
    mz = modulus_zero(p)
    if mz is not None: return mz[1]
    # canonical sign
    lead = max(p.t, key=T._mono_key)
    if p.t[lead] < 0: p = -p
    return Cond('eq', p)


# --------------------------------------------------------------------------- symbolic scalar
class S:
    """symbolic scalar standing for a Python / numpy number"""
    __slots__ = ('p', 'k')
    __array_priority__ = 1000

    def __init__(self, p, k='f'):
        self.p, self.k = p, k

    # numpy scalar protocol used by the code under test
    ndim = 0
    shape = ()
    @property
    def size(self): return 1
    @property
    def real(self): return S(self.p.real(), 'f')
    @property
    def imag(self): return S(self.p.imag(), 'f')
    def conj(self): return S(self.p.conj(), self.k)
    conjugate = conj
    @property
    def T(self): return self
    @property
    def dtype(self):
        from .symnp import DT
        return DT(self.k)
    def astype(self, d):
        from .symnp import kind_of, cast
        return cast(self, kind_of(d))
    def item(self): return self
    def squeeze(self): return self
    def copy(self): return self
    def flatten(self):
        from . import symnp
        return symnp.asarray(self).flatten()
    ravel = flatten
    def sum(self, axis=None): return self
    def __getitem__(self, i):
        from . import symnp
        return symnp.asarray(self)[i]

    def _b(self, o):
        if isinstance(o, S): return o
        if isinstance(o, Cond): return o.num()
        r = to_s(o)
        return r

    def __add__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else S(self.p + o.p, kmax(self.k, o.k))
    __radd__ = __add__
    def __sub__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else S(self.p - o.p, kmax(self.k, o.k))
    def __rsub__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else S(o.p - self.p, kmax(self.k, o.k))
    def __mul__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else S(self.p * o.p, kmax(self.k, o.k))
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else S(pdiv(self.p, o.p), kmax(kmax(self.k, o.k), 'f'))
    def __rtruediv__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else o.__truediv__(self)
    def __floordiv__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else S(divmod_poly(self.p, o.p)[0], kmax(self.k, o.k))
    def __rfloordiv__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else o.__floordiv__(self)
    def __mod__(self, o):
        o = self._b(o)
        if o is None: return NotImplemented
        if self.k != 'i' or o.k != 'i':
            return S(real_mod(self.p, o.p), 'f')
        return S(divmod_poly(self.p, o.p)[1], 'i')
    def __rmod__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else o.__mod__(self)
    def __divmod__(self, o):
        return self // o, self % o
    def __pow__(self, o):
        o = self._b(o)
        if o is None: return NotImplemented
        return S(ppow(self.p, o.p), self.k if (self.k != 'i' or (o.p.is_const() and o.p.cval() >= 0)) else 'f')
    def __rpow__(self, o):
        return self._b(o).__pow__(self)
    def __neg__(self): return S(-self.p, self.k)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __lt__(self, o):
        o = self._b(o); return NotImplemented if o is None else c_lt(self.p, o.p)
    def __le__(self, o):
        o = self._b(o); return NotImplemented if o is None else c_le(self.p, o.p)
    def __gt__(self, o):
        o = self._b(o); return NotImplemented if o is None else c_lt(o.p, self.p)
    def __ge__(self, o):
        o = self._b(o); return NotImplemented if o is None else c_le(o.p, self.p)
    def __eq__(self, o):
        o = self._b(o); return FALSE if o is None else c_eq(self.p, o.p)
    def __ne__(self, o):
        o = self._b(o); return TRUE if o is None else c_not(c_eq(self.p, o.p))
    def __hash__(self): return hash(self.p)
    def __bool__(self):
        return ctx().decide(c_not(c_eq(self.p, ZERO)))
    def __index__(self):
        if self.p.is_const() and self.p.cval().denominator == 1: return int(self.p.cval())
        raise Unsupported(f'symbolic value {self.p} used where a concrete index is needed')
    def __int__(self):
        if self.p.is_const(): return int(self.p.cval())
        raise Unsupported(f'int() of symbolic {self.p}')
    def __float__(self):
        if self.p.is_const(): return float(self.p.cval())
        raise Unsupported(f'float() of symbolic {self.p}')
    def __repr__(self): return f'S<{self.p}>'
    def __format__(self, spec): return repr(self)


ORDER = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def kmax(a, b):
    return a if ORDER.get(a, 3) >= ORDER.get(b, 3) else b


def to_s(o):
    """python/numpy concrete scalar -> S (None if not a scalar)"""
    if isinstance(o, S): return o
    if isinstance(o, Cond): return o.num()
    if isinstance(o, bool): return S(Poly.const(int(o)), 'i')
    if isinstance(o, int): return S(Poly.const(o), 'i')
    if isinstance(o, Fraction): return S(Poly.const(o), 'f')
    if isinstance(o, float):
        if o in (float('inf'), float('-inf')):
            return S(INF if o > 0 else -INF, 'f')
        return S(Poly.const(o), 'f')
    if isinstance(o, complex):
        return S(Poly.const(o.real) + T.I * Poly.const(o.imag), 'c')
    if isinstance(o, Poly):
        return S(o, 'f')
    return None


INF = T.var('INF', pos=True)     # 1/INF folds to 0
INF_ATOM = next(iter(INF.atoms()))


def P(x):
    return to_s(x).p


def pdiv(a, b):
    if b == INF: return ZERO
    if b.is_zero():
        raise ZeroDivisionError('division by zero')
    if a == b: return ONE
    if a.is_zero(): return ZERO
    q = a * b ** -1
    if len(b.t) > 1:
        q = T.simplify(q)
    return q


def ppow(b, e):
    if e.is_const():
        ev = e.cval()
        if ev.denominator != 1 and ev.denominator == 2 and len(b.t) == 1:
            (m, c), = b.t.items()
            if not T._mono_pos_ok(m, ev):
                return p_sqrt(b) ** int(ev * 2)
        return b ** ev
    # symbolic exponent
    if b.is_zero():
        if ctx().decide(c_lt(ZERO, e)): return ZERO
        return ONE
    if b == ONE: return ONE
    if e.is_int() and len(b.t) == 1 and b.t.get(()) == -1:
        raise Unsupported('(-1)**n')
    pos = prove(c_lt(ZERO, b))
    return T.fn('pow', (b, e), real=True, pos=bool(pos))


def p_sqrt(b):
    """square root of a non-negative real value"""
    if b.is_zero(): return ZERO
    s = T.simplify(b)
    if len(s.t) == 1:
        (m, c), = s.t.items()
        # split off real atoms with even exponents: sqrt(x^2) = |x|
        out, rest = ONE, []
        ok = True
        if c < 0: ok = False
        d = {a: e for a, e in m}
        for a, e in m:
            if a.real and not a.pos and (e / 2).denominator == 1:
                x = Poly.atom(a)
                sg = ctx().decide(c_le(ZERO, x)) if True else True
                out = out * ((x if sg else -x) ** (e / 2))
            else:
                rest.append((a, e))
        rest = tuple(rest)
        if ok and T._mono_pos_ok(rest, Fraction(1, 2)):
            cc = T.const_pow(c, Fraction(1, 2))
            return out * cc * T._collect([(tuple((a, e / 2) for a, e in rest), Fraction(1))])
        if ok and rest and all(a.real for a, e in rest):
            # sqrt of a positive real monomial: fractional exponents are fine on positive reals
            cc = T.const_pow(c, Fraction(1, 2))
            rp = Poly({rest: Fraction(1)})
            if prove(c_le(ZERO, rp)):
                return out * cc * Poly.atom(T.base_atom(rp), Fraction(1, 2)) if False else out * cc * T._collect(
                    [(tuple((a, e / 2) for a, e in rest), Fraction(1))])
        if not ok:
            raise Unsupported(f'sqrt of {b}')
    return s ** Fraction(1, 2)


def s_abs(x):
    p = x.p
    if x.k == 'c' and not p.is_real():
        return S(p_sqrt(T.abs2(p)), 'f')
    if p.is_zero(): return S(ZERO, 'f' if x.k == 'c' else x.k)
    if x.k == 'c' and not _orderable(p):
        return S(p_sqrt(T.abs2(p)), 'f')
    k = 'f' if x.k == 'c' else x.k
    return S(p if ctx().decide(c_le(ZERO, p)) else -p, k)


def _orderable(p):
    return all(a.real for a in p.atoms())


def imin(a, b):
    """minimum of integers without a case split"""
    c = ctx()
    d = a - b
    if d.is_const(): return a if d.cval() <= 0 else b
    if c.entailed(c_le(a, b)) is True: return a
    if c.entailed(c_le(b, a)) is True: return b
    return T.fn('imin', (a, b), real=True, isint=True)


def imax(a, b):
    d = a - b
    if d.is_const(): return a if d.cval() >= 0 else b
    c = ctx()
    if c.entailed(c_le(a, b)) is True: return b
    if c.entailed(c_le(b, a)) is True: return a
    return T.fn('imax', (a, b), real=True, isint=True)


def s_min(a, b):
    a, b = to_s(a), to_s(b)
    if a.k == 'i' and b.k == 'i': return S(imin(a.p, b.p), 'i')
    return a if c_le(a.p, b.p) else b


def s_max(a, b):
    a, b = to_s(a), to_s(b)
    if a.k == 'i' and b.k == 'i': return S(imax(a.p, b.p), 'i')
    return a if c_le(b.p, a.p) else b


def real_mod(a, b):
    """a - b*k for an (unspecified) integer k, result in [0, b)"""
    k = T.fn('floor', (pdiv(a, b),), real=True, isint=True)
    return a - b * k


# ---- integer division
def divmod_poly(a, b):
    """floor division of integer polynomials (b > 0 assumed/known)"""
    if b.is_const() and a.is_const():
        q = a.cval() // b.cval()
        return Poly.const(q), Poly.const(a.cval() - q * b.cval())
    if b == ONE: return a, ZERO
    c = ctx()
    if len(b.t) == 1:
        (bm, bc), = b.t.items()
        q, r = {}, {}
        bd = {x: e for x, e in bm}
        for m, co in a.t.items():
            d = {x: e for x, e in m}
            if all(d.get(x, 0) >= e for x, e in bm) and (co / bc).denominator == 1:
                nm = tuple(sorted(((x, d[x] - bd.get(x, 0)) for x in d if d[x] != bd.get(x, 0)), key=lambda t: t[0].id))
                q[nm] = co / bc
            else:
                r[m] = co
        qp, rp = Poly(q), Poly(r)
        # rp may be negative / too large by one multiple: try small corrections
        for k in (0, -1, 1):
            rr = rp - b.scale(Fraction(k))
            if prove_range(rr, b):
                return qp + Poly.const(k), rr
    at = T.fn('fdiv', (a, b), real=True, isint=True)
    return at, a - at * b


def prove_range(r, m):
    """0 <= r < m"""
    if r.is_zero():
        return True
    if not prove(c_le(ZERO, r)): return False
    return prove_lt(r, m)


def prove_lt(r, m):
    if prove(c_lt(r, m)): return True
    if len(m.t) == 1:
        (mm, mc), = m.t.items()
        if mm and mc > 1 and mc.denominator == 1:
            k = r.t.get(mm, Fraction(0))
            M = Poly({mm: Fraction(1)})
            if 0 <= k < mc and k.denominator == 1 and prove_range(r - M.scale(k), M): return True
        if len(mm) >= 2 and mc == 1:
            for a, e in mm:
                f = Poly.atom(a)
                q, rest = {}, {}
                for mo, co in r.t.items():
                    d = {x: y for x, y in mo}
                    if d.get(a, 0) >= 1:
                        d[a] -= 1
                        q[tuple(sorted(((x, y) for x, y in d.items() if y), key=lambda t: t[0].id))] = co
                    else:
                        rest[mo] = co
                qp, rp = Poly(q), Poly(rest)
                mq = m * f ** -1
                if q and prove_range(rp, f) and prove_lt(qp, mq):
                    return True
    return False


def eq_cond(a, b):
    """a == b, split digit by digit where both are written in the same mixed radix"""
    d = a - b
    if not d.t or d.is_const(): return c_eq(d, ZERO)
    cand = {}
    for m in d.t:
        if len(m) >= 2 and all(e == 1 for _, e in m):
            for x, _ in m: cand[x] = cand.get(x, 0) + 1
    for x in sorted(cand, key=lambda x: -cand[x]):
        f = Poly.atom(x)
        q, r = {}, {}
        for m, co in d.t.items():
            dd = dict(m)
            if dd.get(x, 0) >= 1 and co.denominator == 1:
                dd[x] -= 1
                q[tuple(sorted(((y, e) for y, e in dd.items() if e), key=lambda t: t[0].id))] = co
            else: r[m] = co
        qp, rp = Poly(q), Poly(r)
        for k in (0, 1, -1):
            rr, qq = rp - f.scale(Fraction(k)), qp + Poly.const(k)
            if prove(c_lt(rr, f)) and prove(c_lt(-f, rr)):
                return c_and(eq_cond(qq, ZERO), c_eq(rr, ZERO))
    return c_eq(d, ZERO)


# --------------------------------------------------------------------------- z3
class Z3T:
    def __init__(self):
        self.consts = {}
        self.axioms = {}

    def atom(self, a, add):
        c = self.consts.get(a)
        if c is None:
            if not a.real: return None
            if a.kind == 'base' and False: return None
            nm = f'{a.name or a.kind}_{a.id}'
            c = None
            if a.kind == 'app' and a.args:      # uninterpreted function: congruence is left to the solver
                za = [self.poly(q, add) if isinstance(q, Poly) else None for q in a.args]
                if all(x is not None for x in za):
                    za = [z3.ToReal(x) if x.is_int() and not q.is_int() else x for x, q in zip(za, a.args)]
                    f = z3.Function(f'{a.name}_{len(za)}' + ''.join('i' if x.is_int() else 'r' for x in za) + ('I' if a.int else 'R'),
                                    *[x.sort() for x in za], z3.IntSort() if a.int else z3.RealSort())
                    c = f(*za)
            if c is None: c = z3.Int(nm) if a.int else z3.Real(nm)
            self.consts[a] = c
            if a.pos:
                self.axioms.setdefault(a, []).append(c > 0)
            if a.kind == 'fn' and a.name == 'fdiv':
                x, y = self.poly(a.args[0], add), self.poly(a.args[1], add)
                if x is not None and y is not None:
                    self.axioms.setdefault(a, []).append(z3.Implies(y > 0, z3.And(c * y <= x, x < c * y + y)))
            if a.kind == 'fn' and a.name in ('imin', 'imax'):
                x, y = self.poly(a.args[0], add), self.poly(a.args[1], add)
                if x is not None and y is not None:
                    self.axioms.setdefault(a, []).append(c == (z3.If(x <= y, x, y) if a.name == 'imin' else z3.If(x <= y, y, x)))
            if a.kind == 'fn' and a.name == 'round':
                x = self.poly(a.args[0], add)
                if x is not None:
                    h = z3.RealVal('1/2')
                    self.axioms.setdefault(a, []).append(z3.And(z3.ToReal(c) - x <= h, x - z3.ToReal(c) <= h))
            if a.kind == 'fn' and a.name == 'floor':
                x = self.poly(a.args[0], add)
                if x is not None:
                    self.axioms.setdefault(a, []).append(z3.And(z3.ToReal(c) <= x, x < z3.ToReal(c) + 1))
            if a is T.PI:
                self.axioms.setdefault(a, []).append(z3.And(c > z3.RealVal('3.1415926'), c < z3.RealVal('3.1415927')))
            if a.kind == 'fn' and a.name == 'pow':
                b, e = self.poly(a.args[0], add), self.poly(a.args[1], add)
                if b is not None and e is not None:
                    self.axioms.setdefault(a, []).append(z3.Implies(b >= 0, c >= 0))
                    self.axioms.setdefault(a, []).append(z3.Implies(z3.And(b >= 0, b <= 1, e >= 0), c <= 1))
            if a.kind == 'base':
                # stands for the base polynomial itself
                x = self.poly(a.args[0], add)
                if x is not None:
                    self.axioms.setdefault(a, []).append(c == x)
            if a.kind == 'X':
                x = self.poly(a.args[0], add)
                if x is not None:
                    self.axioms.setdefault(a, []).append(z3.And(z3.Implies(x >= 0, c >= 1), z3.Implies(x <= 0, c <= 1)))
        axs = self.axioms.get(a, ())
        for n_, ax in enumerate(axs):
            add((a, n_), ax)
        if a.args and axs and a.kind in ('fn', 'X', 'base') and add((a, 'args'), None):
            for q in a.args:      # facts about the atoms of the arguments hold in every solver scope
                if isinstance(q, Poly): self.poly(q, add)
        return c

    def poly(self, p, add):
        tot = None
        for m, c in p.t.items():
            if c.denominator == 1:
                v = z3.IntVal(c.numerator)
            else:
                v = z3.RealVal(str(c))
            v = [v] if (c != 1 or not m) else []
            den = []
            for a, e in m:
                x = self.atom(a, add)
                if x is None: return None
                if e.denominator != 1:
                    # fractional power: fresh nonneg root
                    dn = e.denominator
                    rt = self.consts.get(('root', a, dn))
                    if rt is None:
                        rt = z3.Real(f'root{dn}_{a.id}')
                        self.consts[('root', a, dn)] = rt
                    ax = [z3.Implies(x >= 0, rt >= 0), z3.Implies(x > 0, rt > 0), z3.Implies(z3.And(x >= 0, x <= 1), rt <= 1), z3.Implies(x >= 1, rt >= 1)]
                    if dn <= 3:
                        pw = rt
                        for _ in range(dn - 1): pw = pw * rt
                        ax.append(z3.Implies(x >= 0, pw == x))
                    add(('root', a, dn), z3.And(*ax))
                    n = int(e * dn)
                    if n > 0: v.extend([rt] * n)
                    else: den.extend([rt] * -n)
                    continue
                n = int(e)
                if n > 0: v.extend([x] * n)
                else: den.extend([x] * -n)
            if not v: v = [z3.IntVal(1)]
            if den:
                v = [z3.ToReal(x) if x.is_int() else x for x in v]
            term = v[0]
            for x in v[1:]: term = term * x
            for x in den:
                y = z3.ToReal(x) if x.is_int() else x
                term = term / y
            if tot is None: tot = term
            else:
                if tot.is_int() != term.is_int():
                    tot = z3.ToReal(tot) if tot.is_int() else tot
                    term = z3.ToReal(term) if term.is_int() else term
                tot = tot + term
        return tot if tot is not None else z3.IntVal(0)

    def cond(self, c, add):
        if c.op == 'const': return z3.BoolVal(c.a)
        if c.op in ('le', 'lt', 'eq'):
            pol = c.a
            # clear simple denominators is unsafe for sign: use division
            p = self.poly(pol, add)
            if p is None: return None
            z = 0
            return p <= z if c.op == 'le' else (p < z if c.op == 'lt' else p == z)
        if c.op == 'atom':
            k = ('cond', c.a)
            if k not in self.consts: self.consts[k] = z3.Bool(f'c_{c.a}')
            return self.consts[k]
        sub = [self.cond(x, add) for x in c.a]
        if any(s is None for s in sub): return None
        if c.op == 'and': return z3.And(*sub)
        if c.op == 'or': return z3.Or(*sub)
        return z3.Not(sub[0])


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.z = Z3T()
        self.stats = {'z3_calls': 0, 'z3_time': 0.0, 'decides': 0, 'paths': 0}
        self.gen = 0
        self.gen_serial = 0
        self.nfresh = 0
        self.zconds = {}
        self.zpolys = {}
        self.wlog = None
        self.notes = set()
        self.deadline = None
        self.reset([])

    def reset(self, prefix):
        self.path = []          # list of Cond
        self.known = {}         # cond key -> bool
        self.ub = {}            # linear form key -> smallest known upper bound  (L <= u)
        self.prefix = prefix
        self.pos = 0
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', Z3_TIMEOUT)
        self.added = set()
        self.depth = 0
        self.memo = {}

    def note(self, s):
        self.notes.add(s)

    # ---- nested exploration of a pure thunk: all paths
    def explore(self, thunk, maxpaths=4000):
        saved = (self.prefix, self.pos, self.pending, self.path, self.known, self.ub, self.added, self.memo)
        gen0, nf0 = self.gen, self.nfresh
        wl0 = self.wlog
        stack = [[]]
        n = 0
        out = []
        try:
            while stack:
                pre = stack.pop()
                n += 1
                if n > maxpaths: raise Unsupported('too many paths')
                if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the engine')
                self.prefix, self.pos, self.pending = pre, 0, []
                self.gen_serial += 1
                self.gen = self.gen_serial
                self.nfresh = nf0
                self.wlog = wl0 if wl0 is None else list(wl0)
                self.path = list(saved[3]); self.known = dict(saved[4]); self.ub = dict(saved[5])
                self.added = set(saved[6]); self.memo = {}
                self.solver.push()
                try:
                    out.append(thunk())
                except PathEnd:
                    pass
                finally:
                    self.solver.pop()
                stack.extend(self.pending)
        finally:
            (self.prefix, self.pos, self.pending, self.path, self.known, self.ub, self.added, self.memo) = saved
            self.gen, self.nfresh = gen0, nf0
            self.wlog = wl0
        self.stats['paths'] += n
        return out

    # ---- assumptions
    def _addax(self, key, ax):
        if key not in self.added:
            self.added.add(key)
            if ax is not None: self.solver.add(ax)
            return True
        return False

    def assume(self, c):
        c = as_cond(c)
        if c.op == 'const':
            if not c.a: raise PathEnd()
            return
        self._note(c, True)
        z = self.z.cond(c, self._addax)
        self.path.append(c)
        if z is not None: self.solver.add(z)
        self.memo = {}

    def _note(self, c, val):
        self.known[c.key()] = val
        self.known[c_not(c).key()] = not val
        if not val: c = c_not(c)
        if c.op == 'and':
            for x in c.a: self._note(x, True)
        if c.op in ('le', 'lt', 'eq'):
            self._bound(c.a, c.op)
            if c.op == 'eq': self._bound(-c.a, 'eq')

    def _bound(self, p, op):
        cst = p.t.get((), Fraction(0))
        L = Poly({m: v for m, v in p.t.items() if m != ()})
        k = L.key()
        u = -cst
        if k not in self.ub or u < self.ub[k]:
            self.ub[k] = u

    def upper(self, p):
        """cheap upper bound of p (Fraction or None)"""
        cst = p.t.get((), Fraction(0))
        L = Poly({m: v for m, v in p.t.items() if m != ()})
        if not L.t: return cst
        u = self.ub.get(L.key())
        if u is not None: return u + cst
        if len(L.t) > 8: return None
        tot = cst
        for m, v in L.t.items():
            x = Poly({m: Fraction(1 if v > 0 else -1)})
            u = self.ub.get(x.key())
            if u is None:
                if len(m) == 1 and m[0][0].pos and v < 0 and m[0][1] > 0:
                    u = Fraction(-1) if m[0][0].int else Fraction(0)
                elif v < 0 and all(a.pos for a, e in m):
                    u = Fraction(0)
                else:
                    u = None
            if u is None: break
            tot += u * abs(v)
        else:
            return tot
        # pair up:  L = (known form) + rest
        if len(L.t) <= 5:
            ms = list(L.t)
            for i in range(len(ms)):
                for j in range(i + 1, len(ms)):
                    sub = Poly({ms[i]: L.t[ms[i]], ms[j]: L.t[ms[j]]})
                    u = self.ub.get(sub.key())
                    if u is not None:
                        rest = L - sub
                        r = self.upper(rest) if rest.t else Fraction(0)
                        if r is not None: return u + r + cst
        return None

    def quick(self, c):
        if c.op == 'const': return c.a
        v = self.known.get(c.key())
        if v is not None: return v
        if c.op in ('le', 'lt'):
            u = self.upper(c.a)
            if u is not None and (u <= 0 if c.op == 'le' else u < 0): return True
            l = self.upper(-c.a)
            if l is not None and (-l > 0 if c.op == 'le' else -l >= 0): return False
        elif c.op == 'eq':
            u = self.upper(c.a)
            if u is not None and u < 0: return False
            l = self.upper(-c.a)
            if l is not None and l < 0: return False
        elif c.op == 'and':
            vs = [self.quick(x) for x in c.a]
            if any(v is False for v in vs): return False
            if all(v is True for v in vs): return True
        elif c.op == 'or':
            vs = [self.quick(x) for x in c.a]
            if any(v is True for v in vs): return True
            if all(v is False for v in vs): return False
        elif c.op == 'not':
            v = self.quick(c.a[0])
            return None if v is None else (not v)
        return None

    def _check(self, z):
        t = time.time()
        self.stats['z3_calls'] += 1
        r = self.solver.check(z)
        self.stats['z3_time'] += time.time() - t
        return r

    def entailed(self, c):
        """True / False / None(undetermined)"""
        q = self.quick(c)
        if q is not None: return q
        k = c.key()
        if k in self.memo: return self.memo[k]
        z = self.z.cond(c, self._addax)
        res = None
        if z is not None:
            rn = self._check(z3.Not(z))
            if rn == z3.unsat: res = True
            else:
                rp = self._check(z)
                if rp == z3.unsat: res = False
        self.memo[k] = res
        return res

    def decide(self, c):
        self.stats['decides'] += 1
        r = self.entailed(c)
        if r is not None: return r
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.pending.append(list(self.prefix) + [False])
            self.prefix = list(self.prefix) + [True]
        self.pos += 1
        cc = c if v else c_not(c)
        self._note(cc, True)
        self.path.append(cc)
        z = self.z.cond(cc, self._addax)
        if z is not None: self.solver.add(z)
        self.memo = {}
        return v

    def substs(self):
        """rewriting rules atom -> polynomial given by equations of the path condition"""
        out = {}
        eqs = []

        def col(c):
            if c.op == 'eq': eqs.append(c.a)
            elif c.op == 'and':
                for x in c.a: col(x)
            elif c.op == 'atom' and c.a in self.zpolys: eqs.append(self.zpolys[c.a])
        for c in self.path: col(c)
        for p in eqs:
            if out: p = p.subs(out)
            best = None
            for m, co in p.t.items():
                if len(m) != 1 or m[0][1] != 1: continue
                a = m[0][0]
                if a.kind == 'E' and all(not mm for mm in (p - Poly({m: co})).t):
                    best = ((True, a.id), a, (p - Poly({m: co})).scale(-1 / co))
                    continue
                if a.kind not in ('var', 'app') or a is T.PI or (a.kind == 'var' and a.meta) or a is INF_ATOM: continue
                if a.int and abs(co) != 1: continue
                rest = p - Poly({m: co})
                if any(T.depends(x, a) for x in rest.atoms()): continue
                if not a.real and any(x is a.conj_ for x in rest.atoms()): continue
                rank = (a.kind == 'app', a.id)
                if best is None or rank > best[0]: best = (rank, a, rest.scale(-1 / co))
            if best is None:
                # a vanishing product of one atom with a constant phase
                if len(p.t) == 1:
                    (m, co), = p.t.items()
                    cand = [a for a, e in m if a.kind in ('var', 'app', 'cvar', 'capp')]
                    if len(cand) == 1 and all(a.kind in ('epi', 'E', 'X', 'var', 'app', 'cvar', 'capp') for a, e in m):
                        a = cand[0] if cand[0].kind in ('var', 'app') else cand[0].conj_
                        best = (None, a, ZERO)
                if best is None: continue
            mp = {best[1]: best[2]}
            out = {k: v.subs(mp) for k, v in out.items()}
            out.update(mp)
        return out

    def int_model(self):
        r = self._check(z3.BoolVal(True))
        if r != z3.sat: return None
        m = self.solver.model()
        out = {}
        for a, c in self.z.consts.items():
            if isinstance(a, Atom) and a.int:
                v = m.eval(c, model_completion=False)
                if z3.is_int_value(v): out[a] = v.as_long()
        return out

    def model(self):
        r = self._check(z3.BoolVal(True))
        if r != z3.sat: return None
        m = self.solver.model()
        out = {}
        for a, c in self.z.consts.items():
            if isinstance(a, Atom):
                v = m.eval(c, model_completion=False)
                if z3.is_int_value(v): out[a] = v.as_long()
                elif z3.is_rational_value(v): out[a] = float(v.as_fraction())
                elif z3.is_algebraic_value(v): out[a] = float(v.approx(20).as_fraction())
        return out


_CTX = [None]


def ctx():
    return _CTX[0]


def set_ctx(c):
    _CTX[0] = c


def prove(c):
    return ctx().entailed(as_cond(c)) is True


def _pos_hook(p):
    c = ctx()
    if c is None: return False
    # sum of positive monomials
    if all(v > 0 and all((a.pos or (a.real and (e / 2).denominator == 1)) for a, e in m) for m, v in p.t.items()):
        return True
    if not _orderable(p): return False
    return c.entailed(c_lt(ZERO, p)) is True


T.POSITIVE_HOOK[0] = _pos_hook
