"""Lists of symbolic length holding mode indices: injective, with an explicit (uninterpreted) inverse."""
from . import terms as T, symnp as N
from .core import S, Cond, ctx, c_le, c_lt, c_eq, c_and, c_not, TRUE, FALSE, Poly
from .terms import Unsupported, ZERO, ONE


class SymList:
    __symlist__ = True

    def __init__(self, parts):
        self.parts = parts          # list of Arr (1d, int)

    def as_arr(self): return N.concatenate(self.parts) if len(self.parts) > 1 else self.parts[0]
    def __add__(self, o):
        if not isinstance(o, SymList): raise TypeError('can only concatenate list')
        return SymList(self.parts + o.parts)
    def __getitem__(self, i): return self.as_arr()[i]
    def __iter__(self): return iter(self.as_arr())
    def copy(self): return SymList(list(self.parts))


class Family:
    """mutually disjoint injective index lists into range(n): name -> length"""
    def __init__(self, tag, n, lens):
        self.tag, self.n, self.lens = tag, N.dim(n), {k: N.dim(v) for k, v in lens.items()}

    def _in(self, nm, p): return c_eq(T.app(f'is_{self.tag}{nm}', (p,), True, True), ONE)

    def fact(self, nm, k):
        """app nm(k) with its range fact"""
        p = T.app(f'{self.tag}{nm}', (k,), True, True)
        c = ctx()
        for q in (c_le(ZERO, p), c_lt(p, self.n)):
            if c.quick(q) is not True: c.assume(q)
        return p

    def member(self, nm, p):
        """(Cond 'p in list', position)"""
        for a in p.atoms():
            if p == Poly.atom(a) and a.kind == 'app' and a.name.startswith(self.tag):
                other = a.name[len(self.tag):]
                if other in self.lens:
                    return (TRUE, a.args[0]) if other == nm else (FALSE, None)
        c = ctx()
        cond = self._in(nm, p)
        if not c.decide(cond): return FALSE, None
        k = T.app(f'inv_{self.tag}{nm}', (p,), True, True)
        for q in (c_le(ZERO, k), c_lt(k, self.lens[nm])):
            if c.quick(q) is not True: c.assume(q)
        f = self.fact(nm, k)
        if c.quick(c_eq(f, p)) is not True: c.assume(c_eq(f, p))
        for o in self.lens:         # disjointness
            if o != nm:
                q = c_not(self._in(o, p))
                if c.quick(q) is not True: c.assume(q)
        return TRUE, k

    def arr(self, nm):
        a = N.Arr((self.lens[nm],), lambda i: self.fact(nm, i[0]), 'i')
        a.inj = lambda p: self.member(nm, p)
        return a

    def lst(self, nm): return SymList([self.arr(nm)])
