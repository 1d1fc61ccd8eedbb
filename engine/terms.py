"""Symbolic scalars: generalised Laurent polynomials with rational coefficients over interned atoms.

Every value met by the verified code is a Poly.  Atoms:
  EPI            exp(i*pi)^r, exponent r kept in [0,1)  (so i = EPI^(1/2); Q(zeta_{2^k}) arithmetic is exact)
  var            real / complex / int variable
  app            uninterpreted array element  name[idx...]
  E(x)           exp(i*x) for a real monomial x, rational exponents (half angles)
  X(x)           exp(x) for a real monomial x
  base(p)        p^q for a multi-term polynomial p (inverse, square roots)
  fn             other functions (angle, arccos, tanh, fdiv, round ...) with registered facts
  sum            sum over a bound integer variable
Equality of two values is decided by normalising their difference (clearing base denominators).
"""
from fractions import Fraction
import math, cmath, itertools

F0, F1 = Fraction(0), Fraction(1)
DEPTH = [0]


class Unsupported(Exception):
    """the verified code left the subset the engine understands (undecided, never a violation)"""


class Atom:
    __slots__ = ('id', 'kind', 'key', 'real', 'int', 'args', 'name', 'conj_', 'pos', 'meta', 'order')
    table = {}
    serial = itertools.count()

    @classmethod
    def get(cls, kind, key, real, isint=False, args=(), name='', pos=False, meta=None):
        k = (kind, key)
        a = cls.table.get(k)
        if a is None:
            a = object.__new__(cls)
            a.id = next(cls.serial)
            a.kind, a.key, a.real, a.int = kind, key, real, isint
            a.args, a.name, a.pos, a.meta = args, name, pos, meta
            a.conj_ = a if real else None
            cls.table[k] = a
        return a

    def __repr__(self):
        if self.kind == 'var': return self.name
        if DEPTH[0] > 5: return self.name or self.kind
        DEPTH[0] += 1
        try: return self._repr()
        finally: DEPTH[0] -= 1

    def _repr(self):
        if self.kind == 'app': return f"{self.name}[{','.join(map(str, self.args))}]"
        if self.kind == 'cvar': return f"conj({self.meta})"
        if self.kind == 'base': return f"({self.args[0]})"
        if self.kind == 'sum': return f"Sum_{self.name}({self.args[0]})"
        return f"{self.name or self.kind}({','.join(map(str, self.args))})"


EPI = Atom.get('epi', 'epi', False, name='Epi')
EPI.conj_ = EPI
PI = Atom.get('var', ('pi',), True, name='pi', pos=True)
LN = {}


def mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {a.id: [a, e] for a, e in m1}
    for a, e in m2:
        if a.id in d:
            d[a.id][1] = d[a.id][1] + e
        else:
            d[a.id] = [a, e]
    return tuple(sorted(((a, e) for a, e in d.values() if e != 0), key=lambda t: t[0].id))


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    # ---- construction
    @staticmethod
    def const(c):
        c = frac(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a, e=F1):
        if isinstance(e, int): e = Fraction(e)
        return Poly({((a, e),): F1})

    def key(self):
        return frozenset(((tuple((a.id, e) for a, e in m), c) for m, c in self.t.items()))

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), F0)

    def is_zero(self):
        return not self.t

    # ---- ring operations
    def __add__(self, o):
        if not o.t: return self
        if not self.t: return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, F0) + c
            if n: d[m] = n
            else: d.pop(m, None)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.t.items()}) if c else ZERO

    def __mul__(self, o):
        if not self.t or not o.t: return ZERO
        if o.is_const(): return self.scale(o.cval())
        if self.is_const(): return o.scale(self.cval())
        d = {}
        todo = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                todo.append((mono_mul(m1, m2), c1 * c2))
        return _collect(todo)

    def __pow__(self, e):
        e = frac(e)
        if e == 0: return ONE
        if e == 1: return self
        if not self.t:
            if e > 0: return ZERO
            raise ZeroDivisionError('division by a value that is identically zero')
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if e.denominator == 1 or (_mono_pos_ok(m, e) and c > 0):
                cc = const_pow(c, e)
                if cc is not None:
                    return _collect([(tuple((a, x * e) for a, x in m), F1)]) * cc
        if e.denominator == 1 and e > 0:
            r, b, n = ONE, self, int(e)
            while n:
                if n & 1: r = r * b
                b = b * b if n > 1 else b
                n >>= 1
            return r
        # multi-term: content extraction then a base atom
        if e.denominator == 1:
            k, p = _content(self)
            return (k ** e) * Poly.atom(base_atom(p), e) if len(p.t) > 1 else (k * p) ** e
        # fractional power (square roots of positive reals)
        s = simplify(self)
        if s != self: return s ** e
        num, den = numden(self)
        if den != ONE:
            return sqrt_like(num, e) * sqrt_like(den, -e)
        return sqrt_like(self, e)

    def conj(self):
        out = ZERO
        for m, c in self.t.items():
            todo = ONE.scale(c)
            simple = []
            for a, e in m:
                if a.kind in ('epi', 'E'):
                    simple.append((a, -e))
                elif a.conj_ is not None:
                    simple.append((a.conj_, e))
                else:
                    todo = todo * (atom_conj(a) ** e)
            out = out + todo * _collect([(tuple(sorted(simple, key=lambda t: t[0].id)), F1)])
        return out

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def is_real(self):
        for m in self.t:
            for a, e in m:
                if not a.real:
                    return self == self.conj()
        return True

    def is_int(self):
        """syntactically integer valued"""
        for m, c in self.t.items():
            if c.denominator != 1: return False
            for a, e in m:
                if not a.int or e.denominator != 1 or e < 0: return False
        return True

    def real(self):
        return self if self.is_real() else (self + self.conj()).scale(Fraction(1, 2))

    def imag(self):
        return ((self - self.conj()) * MINUS_I).scale(Fraction(1, 2))

    def __repr__(self):
        if not self.t: return '0'
        if DEPTH[0] > 5: return f'<{len(self.t)} terms>'
        out = []
        for m, c in sorted(self.t.items(), key=lambda t: [(a.id, e) for a, e in t[0]])[:30]:
            s = '*'.join(f'{a}' if e == 1 else f'{a}^{e}' for a, e in m)
            out.append((f'{c}' if not s else (s if c == 1 else f'{c}*{s}')))
        r = ' + '.join(out)
        return r if len(r) < 400 else r[:400] + '...'

    def subs(self, mapping):
        """mapping: Atom -> Poly; substitutes inside composite atoms as well"""
        out = ZERO
        for m, c in self.t.items():
            p = ONE.scale(c)
            for a, e in m:
                p = p * (atom_subs(a, mapping) ** e)
            out = out + p
        return out


ZERO = Poly({})
ONE = Poly({(): F1})


def frac(c):
    if isinstance(c, Fraction): return c
    if isinstance(c, bool): return Fraction(int(c))
    if isinstance(c, int): return Fraction(c)
    if isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')):
            raise Unsupported(f'non-finite constant {c}')
        return Fraction(repr(c))
    return Fraction(c)


def _collect(todo):
    """sum of (mono, coeff) with normalisation of special atoms"""
    d = {}
    stack = list(todo)
    extra = None
    while stack:
        m, c = stack.pop()
        if not c: continue
        changed = None
        for k, (a, e) in enumerate(m):
            if a.kind == 'epi':
                if not (0 <= e < 1):
                    r = e % 2
                    if r >= 1: r, s = r - 1, -1
                    else: s = 1
                    nm = m[:k] + (((a, r),) if r else ()) + m[k + 1:]
                    changed = [(nm, c * s)]
                    break
            elif a.kind == 'base':
                if e.denominator == 1 and e > 0 or (e >= 1):
                    ip = e.numerator // e.denominator
                    rest = e - ip
                    nm = m[:k] + (((a, rest),) if rest else ()) + m[k + 1:]
                    p = a.args[0] ** ip
                    changed = [(mono_mul(nm, pm), c * pc) for pm, pc in p.t.items()]
                    break
            elif a.kind == 'E' and a.meta is not None and a.meta[0] == 'arccos':
                fl = e.numerator // e.denominator
                if fl not in (0, 1):
                    x = a.meta[1]            # w + 1/w = 2x
                    rest = e - fl
                    nm = m[:k] + m[k + 1:]
                    w0 = ((a, rest),) if rest else ()
                    w1 = ((a, rest + 1),)
                    if fl >= 2:   # w^fl = 2x w^(fl-1) - w^(fl-2)
                        p = (x.scale(Fraction(2)) * Poly({((a, e - 1),): F1})) - Poly({(((a, e - 2),) if e != 2 else ()): F1})
                    else:         # w^fl = 2x w^(fl+1) - w^(fl+2)
                        p1 = ((a, e + 1),) if e != -1 else ()
                        p2 = ((a, e + 2),) if e != -2 else ()
                        p = (x.scale(Fraction(2)) * Poly({p1: F1})) - Poly({p2: F1})
                    changed = [(mono_mul(nm, pm), c * pc) for pm, pc in p.t.items()]
                    break
            elif a.kind == 'E' and a.meta is not None and a.meta[0] == 'unit':
                ip = e.numerator // e.denominator
                if ip != 0:
                    rest = e - ip
                    nm = m[:k] + (((a, rest),) if rest else ()) + m[k + 1:]
                    p = a.meta[1] ** ip
                    changed = [(mono_mul(nm, pm), c * pc) for pm, pc in p.t.items()]
                    break
            elif a.kind == 'fn' and a.name == 'indicator' and e != 1 and e > 0:
                changed = [(m[:k] + ((a, F1),) + m[k + 1:], c)]
                break
        if changed is not None:
            stack.extend(changed)
            continue
        n = d.get(m, F0) + c
        if n: d[m] = n
        else: d.pop(m, None)
    return Poly(d)


def _mono_pos_ok(m, e):
    """monomial raised to a fractional power: allowed when it is a product of positive atoms and conj pairs"""
    d = {a.id: (a, x) for a, x in m}
    for a, x in m:
        if a.real:
            if not a.pos:
                # even powers of real atoms: sqrt(a^2) = |a|, not handled here
                return False
        elif a.kind in ('var', 'app', 'cvar', 'sum', 'capp', 'base'):
            cj = a.conj_
            if cj is None or cj.id not in d or d[cj.id][1] != x:
                return False
        else:
            return False
    return True


def const_pow(c, e):
    if e.denominator == 1:
        return Poly.const(c ** int(e))
    if c < 0: return None
    if e.denominator == 2:
        n = int(abs(e.numerator))
        v = c ** n
        if e < 0: v = 1 / v
        # integer part
        num, den = v.numerator, v.denominator
        # sqrt(num/den) = sqrt(num*den)/den
        k = num * den
        sq, rest = 1, 1
        x, p = k, 2
        while p * p <= x and p < 10000:
            while x % (p * p) == 0:
                x //= p * p
                sq *= p
            p += 1
        rest = x
        r = math.isqrt(rest)
        if r * r == rest:
            sq *= r
            rest = 1
        out = Poly.const(Fraction(sq, den))
        if rest == 2:
            return out * SQRT2
        if rest != 1:
            a = Atom.get('base', ('const', rest), True, args=(Poly.const(rest),), pos=True)
            return out * Poly.atom(a, Fraction(1, 2))
        return out
    return None


def sqrt_like(p, e):
    if p.is_const():
        r = const_pow(p.cval(), e)
        if r is None: raise Unsupported('root of a negative constant')
        return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        cc = const_pow(c, e) if c > 0 else None
        if cc is not None and m and not _mono_pos_ok(m, e):
            good = tuple((a, x) for a, x in m if a.real and a.pos)
            bad = tuple((a, x) for a, x in m if not (a.real and a.pos))
            return cc * _collect([(tuple((a, x * e) for a, x in good), F1)]) * Poly.atom(base_atom(Poly({bad: F1})), e)
        if cc is None: return Poly.atom(base_atom(p), e)
        return cc * _collect([(tuple((a, x * e) for a, x in m), F1)])
    k, q = _content(p)
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if _mono_pos_ok(m, e) and c > 0:
            return q ** e * k ** e if not (k == ONE) else q ** e
    # content with positive coefficient and even/positive atoms only
    if k != ONE:
        (m, c), = k.t.items()
        if c < 0:
            k, q = -k, -q
            c = -c
        cc = const_pow(c, e)
        if _mono_pos_ok(m, e) and cc is not None:
            return _collect([(tuple((a, x * e) for a, x in m), F1)]) * cc * Poly.atom(base_atom(q), e)
    return Poly.atom(base_atom(p), e)


def _content(p):
    """p = k * q with k a monomial (Laurent content); q has leading coefficient normalised to 1"""
    if len(p.t) == 1:
        return p, ONE
    common = None
    for m in p.t:
        d = {a: e for a, e in m if a.kind not in ('epi', 'E')}
        if common is None:
            common = dict(d)
        else:
            for a in set(common) | set(d):
                v = min(common.get(a, F0), d.get(a, F0))
                if v: common[a] = v
                else: common.pop(a, None)
    ms = sorted(p.t, key=lambda m: [(a.id, e) for a, e in m])
    lead = p.t[ms[-1]]
    mono = tuple(sorted(((a, e) for a, e in (common or {}).items() if e != 0), key=lambda t: t[0].id))
    inv = tuple((a, -e) for a, e in mono)
    q = Poly({mono_mul(m, inv): c / lead for m, c in p.t.items()})
    return Poly({mono: lead}), q


POSITIVE_HOOK = [None]


def base_atom(p):
    real = p.is_real()
    a = Atom.get('base', p.key(), real, args=(p,), pos=False)
    if real and not a.pos and POSITIVE_HOOK[0] is not None:
        a.pos = POSITIVE_HOOK[0](p)
    if not real and a.conj_ is None:
        b = Atom.get('base', p.conj().key(), False, args=(p.conj(),))
        a.conj_, b.conj_ = b, a
    return a


def atom_conj(a):
    if a.kind == 'sum':
        body, lo, hi = a.args
        return mk_sum(a.meta, body.conj(), lo, hi)
    if a.kind == 'base':
        return Poly.atom(base_atom(a.args[0].conj()))
    if a.kind == 'fn':
        raise Unsupported(f'conjugate of {a.name}')
    raise Unsupported(f'conj of {a!r}')


# ---- variables
def var(name, real=True, isint=False, pos=False):
    if real:
        return Poly.atom(Atom.get('var', (name, 'int' if isint else 'real'), True, isint, name=name, pos=pos))
    a = Atom.get('var', (name, 'c'), False, name=name)
    b = Atom.get('cvar', (name, 'c'), False, name='conj_' + name, meta=name)
    a.conj_, b.conj_ = b, a
    return Poly.atom(a)


def app(name, args, real=True, isint=False, pos=False):
    args = tuple(args)
    key = (name, tuple(p.key() if isinstance(p, Poly) else p for p in args))
    if real:
        return Poly.atom(Atom.get('app', key, True, isint, args=args, name=name, pos=pos, meta='r'))
    a = Atom.get('app', key, False, args=args, name=name, meta='c')
    if a.conj_ is None:
        b = Atom.get('capp', key, False, args=args, name='conj_' + name, meta=name)
        a.conj_, b.conj_ = b, a
    return Poly.atom(a)


def fn(name, args, real=True, isint=False, pos=False, meta=None):
    args = tuple(args)
    key = (name, tuple(p.key() if isinstance(p, Poly) else p for p in args))
    return Poly.atom(Atom.get('fn', key, real, isint, args=args, name=name, pos=pos, meta=meta))


I = Poly({((EPI, Fraction(1, 2)),): F1})
MINUS_I = -I
SQRT2 = _collect([(((EPI, Fraction(1, 4)),), F1), (((EPI, Fraction(-1, 4)),), F1)])


def lnconst(k):
    k = frac(k)
    if k == 1: return ZERO
    return Poly.atom(Atom.get('var', ('ln', k), True, name=f'ln({k})', pos=k > 1, meta=('ln', k)))


# ---- exponentials
def expi(p):
    """exp(i p) for real p"""
    out = ONE
    for m, c in p.t.items():
        if m == ((PI, F1),):
            out = out * _collect([(((EPI, c),), F1)])
            continue
        if m == ():
            if c != 0:
                a = Atom.get('E', 'one', False, args=(ONE,), name='E')
                out = out * Poly.atom(a, c)
            continue
        # real monomial
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn':
            a = m[0][0]
            if a.name == 'angle':
                z = a.args[0]
                at = Atom.get('E', ('angle', z.key()), False, args=(Poly({m: F1}),), name='E',
                              meta=('unit', z * ((z * z.conj()) ** Fraction(-1, 2))))
                out = out * _collect([(((at, c),), F1)])
                continue
            if a.name == 'arccos':
                at = Atom.get('E', ('arccos', a.args[0].key()), False, args=(Poly({m: F1}),), name='E',
                              meta=('arccos', a.args[0]))
                out = out * _collect([(((at, c),), F1)])
                continue
            if a.name == 'arctan2':
                yy, xx = a.args
                z = xx + I * yy
                at = Atom.get('E', ('arctan2', z.key()), False, args=(Poly({m: F1}),), name='E',
                              meta=('unit', z * ((xx * xx + yy * yy) ** Fraction(-1, 2))))
                out = out * _collect([(((at, c),), F1)])
                continue
        # integer multiples of 2 pi:  k * pi with an int atom k
        d = dict((a, e) for a, e in m)
        if d.get(PI) == 1 and all(a.int and e.denominator == 1 and e > 0 for a, e in m if a is not PI) \
                and (c / 2).denominator == 1:
            continue
        at = Atom.get('E', tuple((a.id, e) for a, e in m), False, args=(Poly({m: F1}),), name='E')
        out = out * Poly.atom(at, c)
    return out


def expr_(p):
    """exp(p) for real p"""
    out = ONE
    for m, c in p.t.items():
        if m == ():
            at = Atom.get('X', 'one', True, args=(ONE,), name='X', pos=True)
            out = out * Poly.atom(at, c)
            continue
        if len(m) == 1 and m[0][0].kind == 'var' and m[0][0].meta and m[0][0].meta[0] == 'ln' and m[0][1] == 1 and c.denominator == 1:
            out = out * Poly.const(m[0][0].meta[1] ** int(c))
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].name == 'log' and c.denominator == 1:
            out = out * m[0][0].args[0] ** c
            continue
        at = Atom.get('X', tuple((a.id, e) for a, e in m), True, args=(Poly({m: F1}),), name='X', pos=True)
        out = out * Poly.atom(at, c)
    return out


def exp(p):
    if p.is_zero(): return ONE
    re_ = p.real()
    im_ = (p - re_) * MINUS_I
    return expr_(re_) * expi(im_)


def cos(p):
    return (expi(p) + expi(-p)).scale(Fraction(1, 2))


def sin(p):
    return ((expi(p) - expi(-p)) * MINUS_I).scale(Fraction(1, 2))


def abs2(z):
    return z * z.conj()


# ---- sums
def mk_sum(bv, body, lo, hi):
    """sum_{bv=lo}^{hi-1} body ; bv is an int Atom"""
    if body.is_zero(): return ZERO
    out = ZERO
    groups = {}
    for m, c in body.t.items():
        dep, ind = [], []
        for a, e in m:
            (dep if depends(a, bv) else ind).append((a, e))
        groups.setdefault(tuple(dep), []).append((tuple(ind), c))
    for dep, lst in groups.items():
        coef = _collect(lst)
        if not dep:
            out = out + coef * (hi - lo)
            continue
        # canonical bound variable
        depth = max([_sum_depth(a) for a, _ in dep] + [0])
        cv = Atom.get('var', ('bound', depth), True, True, name=f'_b{depth}')
        b = Poly({dep: F1})
        if cv is not bv:
            b = b.subs({bv: Poly.atom(cv)})
        key = (b.key(), lo.key(), hi.key())
        real = b.is_real()
        at = Atom.get('sum', key, real, args=(b, lo, hi), name=cv.name, meta=cv)
        if not real and at.conj_ is None:
            bc = b.conj()
            (mm, cc), = bc.t.items() if len(bc.t) == 1 else ((None, None),)
            if mm is not None and cc == 1:
                a2 = Atom.get('sum', (bc.key(), lo.key(), hi.key()), False, args=(bc, lo, hi), name=cv.name, meta=cv)
                at.conj_, a2.conj_ = a2, at
        out = out + coef * Poly.atom(at)
    return out


def _sum_depth(a):
    if a.kind == 'sum':
        return 1 + max([_sum_depth(x) for x in a.args[0].atoms()] + [0])
    d = 0
    for p in a.args:
        if isinstance(p, Poly):
            for x in p.atoms():
                d = max(d, _sum_depth(x))
    return d


_dep_cache = {}


def depends(a, v):
    if a is v: return True
    if not a.args: return False
    k = (a.id, v.id)
    r = _dep_cache.get(k)
    if r is None:
        if a.kind == 'sum' and a.meta is v:
            r = any(depends(x, v) for p in a.args[1:] for x in p.atoms())
        else:
            r = any(depends(x, v) for p in a.args if isinstance(p, Poly) for x in p.atoms())
        _dep_cache[k] = r
    return r


def depends_poly(p, v):
    return any(depends(a, v) for a in p.atoms())


def deep_atoms(p):
    """all atoms occurring in p, also inside composite atoms (not under a summation sign)"""
    out, todo = set(), list(p.atoms())
    while todo:
        a = todo.pop()
        if a in out: continue
        out.add(a)
        if a.kind in ('cvar', 'capp') and a.conj_ is not None: todo.append(a.conj_)
        for q in (a.args[1:] if a.kind == 'sum' else a.args):
            if isinstance(q, Poly): todo.extend(q.atoms())
    return out


REBUILD = {}   # fn name -> callable(args) used after substitution


def atom_subs(a, mapping):
    if a in mapping: return mapping[a]
    if a.kind == 'capp' and a.conj_ in mapping: return mapping[a.conj_].conj()
    if not a.args and a.kind != 'cvar': return Poly.atom(a)
    if a.kind == 'cvar':
        for k in mapping:
            if k.conj_ is a: return mapping[k].conj()
        return Poly.atom(a)
    if not any(depends(a, k) for k in mapping) and not any(
            k.conj_ is not None and k.conj_ is not k and depends(a, k.conj_) for k in mapping):
        return Poly.atom(a)
    if a.kind == 'sum':
        body, lo, hi = a.args
        return mk_sum(a.meta, body.subs(mapping), lo.subs(mapping), hi.subs(mapping))
    args = tuple(p.subs(mapping) if isinstance(p, Poly) else p for p in a.args)
    if a.kind == 'app':
        return app(a.name, args, a.real, a.int, a.pos)
    if a.kind == 'capp':
        return app(a.meta, args, False).conj()
    if a.kind == 'E':
        return expi(args[0])
    if a.kind == 'X':
        return expr_(args[0])
    if a.kind == 'base':
        # only used with explicit exponents by callers: return as base poly (positive powers expand)
        return args[0]
    if a.kind == 'fn':
        if a.name in REBUILD:
            return REBUILD[a.name](*args)
        return fn(a.name, args, a.real, a.int, a.pos, a.meta)
    raise Unsupported(f'substitution in {a!r}')


# ---- normalisation for equality
def clear_denominators(p, limit=40):
    """multiply p by the base atoms occurring with negative exponents until none is left.
    Returns (poly, list of cleared base polys)"""
    cleared = []
    for _ in range(limit):
        cand = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'base' and e < 0:
                    cand[a] = min(cand.get(a, F0), e)
        if not cand:
            return p, cleared
        # outermost first: a base atom not contained in another candidate
        pick = None
        for a in cand:
            if not any(b is not a and depends(b, a) for b in cand):
                pick = a
                break
        a = pick or next(iter(cand))
        e = -cand[a]
        todo = []
        for m, c in p.t.items():
            todo.append((mono_mul(m, ((a, e),)), c))
        p = _collect(todo)
        cleared.append((a, e))
    raise Unsupported('denominators did not clear')


def numden(p):
    q, cl = clear_denominators(p)
    d = ONE
    for a, e in cl:
        if e.denominator == 1:
            d = d * a.args[0] ** e
        else:
            d = d * Poly.atom(a, e)
    # negative exponents of plain atoms
    neg = {}
    for m in q.t:
        for a, e in m:
            if a.kind not in ('epi', 'E', 'X') and e < 0:
                neg[a] = min(neg.get(a, F0), e)
    if neg:
        mono = tuple(sorted(((a, -e) for a, e in neg.items()), key=lambda t: t[0].id))
        q = _collect([(mono_mul(m, mono), c) for m, c in q.t.items()])
        d = d * Poly({mono: F1})
    return q, d


def _lead(p):
    return max(p.t, key=_mono_key)


def _mono_key(m):
    return tuple(sorted(((a.id, e) for a, e in m), reverse=True))


def _all_atoms_sorted(*ps):
    s = set()
    for p in ps:
        s |= p.atoms()
    return sorted(s, key=lambda a: a.id)


def exact_div(n, d, maxsteps=4000):
    """exact division of Laurent polynomials; None if not exact"""
    if d.is_const(): return n.scale(1 / d.cval())
    if len(d.t) == 1: return n * d ** -1
    order = _all_atoms_sorted(n, d)
    # EPI is not a free atom: divide by treating coefficients in Q(zeta) is complicated -> treat EPI via conj norm trick
    if EPI in d.atoms():
        return None

    def vec(m):
        dd = {a: e for a, e in m}
        return tuple(dd.get(a, F0) for a in order)
    dl = max(d.t, key=vec)
    dlc = d.t[dl]
    dv = vec(dl)
    dmin = [min(vec(m)[k] for m in d.t) for k in range(len(order))]
    nmin = None
    r, q = n, {}
    if not n.t: return ZERO
    nlow = [min(vec(m)[k] for m in n.t) for k in range(len(order))]
    nhigh = [max(vec(m)[k] for m in n.t) for k in range(len(order))]
    dhigh = [max(vec(m)[k] for m in d.t) for k in range(len(order))]
    steps = 0
    while r.t:
        steps += 1
        if steps > maxsteps: return None
        rl = max(r.t, key=vec)
        rv = vec(rl)
        qv = [x - y for x, y in zip(rv, dv)]
        for k in range(len(order)):
            if qv[k] < nlow[k] - dmin[k] or qv[k] > nhigh[k] - dhigh[k]:
                return None
        qm = tuple((a, e) for a, e in zip(order, qv) if e)
        qc = r.t[rl] / dlc
        q[qm] = q.get(qm, F0) + qc
        r = r - Poly({qm: qc}) * d
    return Poly({m: c for m, c in q.items() if c})


def simplify(p):
    """cancel base denominators by exact division when possible"""
    if not any(a.kind == 'base' and e < 0 for m in p.t for a, e in m):
        return p
    num, cl = clear_denominators(p)
    rest = []
    for a, e in cl:
        while e >= 1:
            q = exact_div(num, a.args[0])
            if q is None: break
            num, e = q, e - 1
        if e > 0: rest.append((a, e))
    for a, e in rest:
        num = _collect([(mono_mul(m, ((a, -e),)), c) for m, c in num.t.items()])
    return num


def is_zero(p):
    if not p.t: return True
    q, _ = clear_denominators(p)
    if not q.t: return True
    # collect fractional powers of bases consistently is done by interning
    return False


# ---- numeric evaluation
class Env:
    def __init__(self, rng, ints=None, pinned=None):
        self.rng = rng
        self.val = {}
        self.ints = ints or {}
        self.apps = {}
        self.pinned = pinned or {}

    def rnd(self, a):
        r = self.rng
        if a.real:
            x = r.uniform(0.3, 2.0)
            if not a.pos and r.random() < 0.5: x = -x
            return x
        return complex(r.uniform(-1.5, 1.5), r.uniform(-1.5, 1.5))

    def atom(self, a):
        v = self.val.get(a)
        if v is not None: return v
        v = self._atom(a)
        self.val[a] = v
        return v

    def _atom(self, a):
        k = a.kind
        if a in self.pinned: return self.pinned[a]
        if k == 'epi': return None
        if k == 'var':
            if a is PI: return math.pi
            if a.meta and a.meta[0] == 'ln': return math.log(a.meta[1])
            if a.int: return self.ints.get(a, self.rng.randint(2, 5))
            return self.rnd(a)
        if k == 'cvar':
            return complex(self.atom(a.conj_)).conjugate()
        if k in ('app', 'capp'):
            nm = a.meta if k == 'capp' else a.name
            idx = tuple(self.ev_int(p) if isinstance(p, Poly) else p for p in a.args)
            key = (nm, idx)
            if key not in self.apps:
                if a.int:
                    self.apps[key] = self.ints.get(a, self.rng.randint(0, 5))
                else:
                    self.apps[key] = self.rnd(a)
            v = self.apps[key]
            return complex(v).conjugate() if k == 'capp' else v
        if k == 'E':
            return ('E', self.ev(a.args[0]).real)
        if k == 'X':
            return ('X', self.ev(a.args[0]).real)
        if k == 'base':
            return self.ev(a.args[0])
        if k == 'sum':
            body, lo, hi = a.args
            l, h_ = self.ev_int(lo), self.ev_int(hi)
            tot = 0
            for i in range(l, h_):
                sub = Env(self.rng, dict(self.ints), dict(self.pinned))
                sub.apps = self.apps
                sub.val = {x: y for x, y in self.val.items() if not depends(x, a.meta)}
                sub.val[a.meta] = i
                sub.ints[a.meta] = i
                tot += sub.ev(body)
            return tot
        if k == 'fn':
            args = [self.ev(p) if isinstance(p, Poly) else p for p in a.args]
            return FNEVAL[a.name](*args)
        raise Unsupported(f'eval {a!r}')

    def ev_int(self, p):
        v = self.ev(p)
        v = complex(v).real
        r = round(v)
        return int(r)

    def ev(self, p):
        tot = 0
        for m, c in p.t.items():
            v = complex(float(c))
            for a, e in m:
                if a.kind == 'epi':
                    v *= cmath.exp(1j * math.pi * float(e))
                    continue
                x = self.atom(a)
                if isinstance(x, tuple):
                    v *= cmath.exp(1j * x[1] * float(e)) if x[0] == 'E' else math.exp(x[1] * float(e))
                elif e == 1:
                    v *= x
                elif e.denominator == 1:
                    v *= complex(x) ** int(e)
                else:
                    # conj pairs: z^(1/2) * conj(z)^(1/2)
                    z = complex(x)
                    if a.kind in ('cvar', 'capp') or (a.conj_ is not None and a.conj_ is not a and a.conj_.id < a.id):
                        v *= (z.conjugate() ** float(e)).conjugate()
                    else:
                        v *= z ** float(e)
            tot += v
        return tot


FNEVAL = {
    'angle': lambda z: cmath.phase(z),
    'arccos': lambda x: math.acos(max(-1, min(1, x.real))),
    'arctan2': lambda y, x: math.atan2(y.real, x.real),
    'tanh': lambda x: cmath.tanh(x),
    'log': lambda x: cmath.log(x),
    'absr': lambda x: abs(x),
    'fdiv': lambda a, b: math.floor(round(a.real) / round(b.real)) if True else 0,
    'floor': lambda x: math.floor(x.real + 1e-12),
    'round': lambda x: round(x.real),
    'imin': lambda a, b: min(round(a.real), round(b.real)),
    'imax': lambda a, b: max(round(a.real), round(b.real)),
    'pow': lambda b, e: b ** e,
    'indicator': lambda *a: 1.0,
}
