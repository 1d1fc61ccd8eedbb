"""Polymorphic harness: the same contract is (a) turned into obligations over symbolic arguments, (b) run on the
real code with concrete arguments (counterexample replay and bounded residual)."""
import math, random, sys, time, traceback
from fractions import Fraction


class CheckFail(Exception):
    pass


class Skip(Exception):
    """concrete draw does not satisfy the precondition"""


def _signature(f):
    import inspect
    try: return inspect.signature(f)
    except Exception: return None


class Stubs:
    """Callees replaced by their contracts. A stand-in accepts every call which the signature of the real callee
    accepts (positional or by keyword). Helpers of the implementation and foreign functions are watched: when the code
    under contract no longer uses one of them, the contract is stated for another decomposition and decides nothing."""
    def unused(self): return [n for n, c in self.__dict__.get('_watch', []) if not c[0]]

    def _stub(self, real, name, val, watch=None, full=False):
        import types, functools
        if not isinstance(val, types.FunctionType) and not isinstance(val, types.MethodType): return val
        count = [0]
        if watch is None:
            watch = name.startswith('_') or not str(getattr(real, '__module__', '') or 'simphox').startswith('simphox')
        if watch: self.__dict__.setdefault('_watch', []).append((name, count))
        rs, vs = _signature(real), _signature(val)

        def bind(sig, a, k):
            try: return sig.bind(*a, **k)
            except TypeError: return None

        @functools.wraps(val)
        def f(*a, **k):
            count[0] += 1
            b = bind(rs, a, k) if rs is not None else None
            if full:
                if b is None: self.unrecognised(f'call of {name}')
                b.apply_defaults()
                d = {}
                for q, v in b.arguments.items():
                    kind = rs.parameters[q].kind
                    if kind is kind.VAR_KEYWORD: d.update(v)
                    elif kind is not kind.VAR_POSITIONAL: d[q] = v
                if not any(x.kind is x.VAR_KEYWORD for x in vs.parameters.values()):
                    miss = [q for q, x in vs.parameters.items() if q not in d and x.default is x.empty]
                    if miss: self.unrecognised(f'{name} has no argument {miss[0]}')
                    d = {q: d[q] for q in vs.parameters if q in d}
                return val(**d)
            if bind(vs, a, k) is not None: return val(*a, **k)
            if b is not None:
                if bind(vs, b.args, b.kwargs) is not None: return val(*b.args, **b.kwargs)
                if bind(vs, (), b.arguments) is not None: return val(**b.arguments)
                b.apply_defaults()
                if bind(vs, b.args, b.kwargs) is not None: return val(*b.args, **b.kwargs)
            self.unrecognised(f'call of {name}')
        return f

    def override(self, mod, name, val, **kw):
        m = self.mod(mod)
        d = m.__dict__
        if name not in d: self.unrecognised(f'no {name} in {mod}')
        self._ov.append((m, name, d[name], True))
        setattr(m, name, self._stub(d[name], name, val, **kw))

    def override_attr(self, obj, name, val, **kw):
        if not hasattr(obj, name): self.unrecognised(f'no {name}')
        self._ov.append((obj, name, obj.__dict__.get(name), name in obj.__dict__))
        setattr(obj, name, self._stub(getattr(obj, name), name, val, **kw))

    def standin(self, obj, name, val, **kw):
        """replaces a method; the stand-in gets the arguments it names, by the names (and defaults) of the real signature"""
        self.override_attr(obj, name, val, full=True, **kw)

    def restore(self):
        for m, n, v, had in reversed(self._ov):
            if had: setattr(m, n, v)
            else:
                try: delattr(m, n)
                except AttributeError: pass
        self._ov = []


# ------------------------------------------------------------------------------------------------ symbolic
class SymH(Stubs):
    symbolic = True

    def __init__(self, imp, ctx):
        from . import symnp as N, terms as T, core as C
        self.N, self.T, self.C = N, T, C
        self.imp, self.ctx = imp, ctx
        self.np, self.jnp = imp.np, imp.jnp
        self.results = []      # (name, status, detail)
        self._ov = []
        self.pi = imp.np.pi
        self.atoms = {}
        self.tag = ''

    def mod(self, name): return self.imp.load(name)
    def native(self, name, **stubs):
        """a fresh load of a module with the given native libraries replaced by their contracts"""
        old = self.imp.mods.pop(name, None)
        full, first = getattr(self.imp, 'full_mkl', False), self.imp.first
        self.imp.full_mkl, self.imp.first = full or name == 'simphox.mkl', dict(first, **stubs)
        try: return self.imp.load(name)
        finally:
            self.imp.full_mkl, self.imp.first = full, first
            self.imp.mods.pop(name, None)
            if old is not None: self.imp.mods[name] = old

    def instances(self, *idx):
        """instantiates the recorded equalities of array contents at an index (where it is in range)"""
        C, N = self.C, self.N
        ps = tuple(N.dim(i) for i in idx)
        for k, v in list(self.ctx.known.items()):
            if not (isinstance(k, tuple) and k and k[0] == 'same' and v): continue
            A, B = v
            if A.ndim != len(ps): continue
            if all(self.ctx.entailed(C.c_and(C.c_le(N.ZERO, p), C.c_lt(p, d))) is True for p, d in zip(ps, A.shp)):
                self.ctx.assume(C.c_eq(A.rp()(ps), B.rp()(ps)))

    def unrecognised(self, what): raise self.T.Unsupported('shape of the code not recognised: ' + what)

    def int(self, name, lo=None, hi=None, chi=None):
        a = self.T.var(name, real=True, isint=True, pos=(lo is not None and lo >= 1))
        v = self.C.S(a, 'i')
        if lo is not None: self.ctx.assume(v >= lo)
        if hi is not None: self.ctx.assume(v <= hi)
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, special=()):
        a = self.T.var(name, real=True, pos=pos or (isinstance(lo, (float, int)) and lo > 0))
        v = self.C.S(a, 'f')
        if pos: self.ctx.assume(v > 0)
        if lo is not None: self.ctx.assume(v >= lo)
        if hi is not None: self.ctx.assume(v <= hi)
        if nonzero: self.ctx.assume(v != 0)
        return v

    def complex(self, name, nonzero=False):
        a = self.T.var(name, real=False)
        if nonzero: self.ctx.assume(self.N.nonzero_cond(a))
        return self.C.S(a, 'c')

    def array(self, name, shape, kind='f', pos=False, jx=False, lo=None, hi=None, fn=None, const=None):
        T = self.T
        sh = self.N.norm_shape(shape)
        if const is not None:
            return self.N.asarray(const)
        def f(idx):
            return T.app(name, idx, kind != 'c', kind == 'i', pos or (isinstance(lo, (float, int)) and lo > 0))
        def g(idx):
            p = f(idx)
            if lo is not None: self._range(p, lo, hi)
            return p
        return self.N.Arr(sh, f if lo is None and hi is None else g, kind, jx)

    def _range(self, p, lo, hi):
        from .core import c_le, Poly
        P = self.C.P
        c1 = c_le(P(lo), p) if lo is not None else None
        for c in ([c1] if c1 is not None else []) + ([c_le(p, P(hi))] if hi is not None else []):
            if self.ctx.quick(c) is not True: self.ctx.assume(c)

    def choice(self, name, opts):
        opts = list(opts)
        n = len(opts)
        if n == 1: return opts[0]
        v = self.C.S(self.T.var('choice_' + name, real=True, isint=True), 'i')
        self.ctx.assume(v >= 0); self.ctx.assume(v <= n - 1)
        for k in range(n - 1):
            if v == k: return opts[k]
        return opts[-1]

    def flag(self, name): return self.choice(name, [False, True])
    def min(self, a, b): return self.C.s_min(a, b)
    def max(self, a, b): return self.C.s_max(a, b)

    def assume(self, c):
        self.ctx.assume(self.C.as_cond(c))

    def note(self, s): self.ctx.note(s)
    def need(self, c, what):
        """the contract is stated for code of this shape; otherwise it is undecided here, not violated"""
        if not c: raise self.T.Unsupported('shape of the code not recognised: ' + what)

    def modulus(self, z):
        """|z| of a value assumed non-zero"""
        p = self.C.P(z)
        q = p * p.conj()
        for x in (q, self.T.simplify(q)):
            if len(x.t) > 1:
                self.T.base_atom(x).pos = True
                k, y = self.T._content(x)
                if len(y.t) > 1: self.T.base_atom(y).pos = True
        return self.C.S(self.T.sqrt_like(q, self.T.Fraction(1, 2)), 'f')

    def nonzero(self, z): return self.N.nonzero_cond(self.C.P(z))

    def opaque(self, name):
        return self.C.S(self.T.var('opaque_' + name, real=True), 'f')

    # ---- obligations
    def ensure(self, cond, name):
        """cond: Cond / bool / thunk"""
        def th():
            c = cond() if callable(cond) else cond
            c = self.C.as_cond(c)
            e = self.ctx.entailed(c)
            if e is True: return ('proved', '')
            return self._numeric_cond(c, e is False)
        self._record(name, th)

    def all_eq(self, a, b, name, where=None, tol=None):
        """elementwise equality of arrays/scalars for all indices"""
        N = self.N
        def th():
            A, B = N.asarray(a), N.asarray(b)
            if A.ndim != B.ndim:
                return ('refuted' if self._feasible() else 'undecided', f'number of dimensions {A.ndim} != {B.ndim}')
            for x, y in zip(A.shp, B.shp):
                c = self.C.c_eq(x, y)
                if self.ctx.entailed(c) is not True:
                    return ('refuted' if self.ctx.entailed(c) is False and self._feasible() else 'undecided', f'shape {A.shp} vs {B.shp}')
            idx = []
            for k, d in enumerate(A.shp):
                if d.is_const():
                    idx.append(None)
                else:
                    v = self.T.var(f'{name}_i{k}', real=True, isint=True)
                    self.ctx.assume(self.C.c_le(N.ZERO, v)); self.ctx.assume(self.C.c_lt(v, d))
                    idx.append(v)
            def rec(k, cur):
                if k == len(idx):
                    if where is not None:
                        w = where(*[N.undim(x) for x in cur])
                        if w is not None and not bool(w): return ('proved', '')
                    return self._eqp(A.rp()(tuple(cur)), B.rp()(tuple(cur)), cur)
                if idx[k] is not None: return rec(k + 1, cur + [idx[k]])
                n = int(A.shp[k].cval())
                for j in range(n):
                    r = rec(k + 1, cur + [N.Poly.const(j)])
                    if r[0] != 'proved': return r
                return ('proved', '')
            return rec(0, [])
        self._record(name, th)

    eq = all_eq

    def _eqp(self, x, y, cur=()):
        d = x - y
        if self.T.is_zero(d): return ('proved', '')
        T = self.T
        s = d
        dens = {a for m in d.t for a, e in m if a.kind == 'base' and e < 0}
        if len(dens) <= 2:
            s = T.simplify(s)
            if T.is_zero(s): return ('proved', '')
        for step in (self.ctx.substs, lambda: self._pins(s), lambda: self._congruent_map(s), self.ctx.substs):
            try:
                mp = step()
                if not mp: continue
                s = s.subs(mp)
                if T.is_zero(s): return ('proved', '')
            except ZeroDivisionError:
                pass
        r = T.simplify(s)
        if T.is_zero(r): return ('proved', '')
        s = r
        if all(a.real for a in s.atoms()) :
            e = self.ctx.entailed(self.C.c_eq(s, T.ZERO))
            if e is True: return ('proved', '')
        return self._numeric(d, cur)

    def _pins(self, s):
        """index variables that the path condition fixes at an end of their range"""
        at = self.T.deep_atoms(s)
        mp = {}
        for v, (lo, hi) in getattr(self, '_qb', {}).items():
            if v not in at: continue
            for e in (self.N.dim(lo), self.N.dim(hi) - self.N.ONE):
                if self.ctx.entailed(self.C.c_eq(self.N.Poly.atom(v), e)) is True:
                    mp[v] = e
                    break
        return mp

    def _congruent_map(self, s):
        """identify array elements whose indices are equal under the path condition"""
        groups = {}
        for a in self.T.deep_atoms(s):
            if a.kind == 'app': groups.setdefault((a.name, len(a.args)), []).append(a)
        mp = {}
        for g in groups.values():
            if len(g) > 40: continue
            g = sorted(g, key=lambda a: a.id)
            for q in range(1, len(g)):
                for p in range(q):
                    if g[p] in mp: continue
                    if all(x == y or (isinstance(x, self.N.Poly) and self.ctx.entailed(self.C.c_eq(x, y)) is True) for x, y in zip(g[p].args, g[q].args)):
                        mp[g[q]] = self.N.Poly.atom(g[p])
                        break
        return mp

    def _pc(self): return str(self.ctx.path[-6:])

    def _envs(self, n):
        """numeric assignments satisfying the path condition"""
        T = self.T
        m = self.ctx.model() or {}
        for s in range(n):
            rng = random.Random(s)
            ints = {a: v for a, v in m.items() if a.int}
            pinned = {}
            if s % 2 == 0:
                pinned = {a: v for a, v in m.items() if a.kind == 'app' or (a.kind == 'var' and not a.meta and a is not T.PI)}
            env = T.Env(rng, ints, pinned)
            ok = True
            try:
                for c in self.ctx.path:
                    v = self._holds(c, env)
                    if v is False:
                        ok = False
                        break
                    if v is None: pass
            except Exception:
                ok = False
            if ok: yield env

    def _holds(self, c, env):
        if c.op == 'const': return c.a
        if c.op in ('le', 'lt', 'eq'):
            v = env.ev(c.a)
            v = v.real if isinstance(v, complex) else v
            return v <= 1e-9 if c.op == 'le' else (v < -1e-12 if c.op == 'lt' else abs(v) < 1e-9)
        if c.op == 'atom':
            z = self.ctx.zpolys.get(c.a)
            return None if z is None else abs(env.ev(z)) < 1e-9
        sub = [self._holds(x, env) for x in c.a]
        if c.op == 'and': return False if any(s is False for s in sub) else (None if any(s is None for s in sub) else True)
        if c.op == 'or': return True if any(s is True for s in sub) else (None if any(s is None for s in sub) else False)
        return None if sub[0] is None else not sub[0]

    def _numeric(self, d, cur):
        try:
            for env in self._envs(8):
                v = abs(env.ev(d))
                sc = max([abs(env.ev(self.T.Poly({m: c}))) for m, c in d.t.items()] + [1e-9])
                if v > 1e-7 * max(sc, 1e-3):
                    return ('refuted', f'at index {tuple(cur)}: difference {d} evaluates to {v:.3g}; path {self._pc()}')
        except Exception as e:
            return ('undecided', f'difference {d} not decided ({type(e).__name__}: {e})')
        return ('undecided', f'difference {d} is not normalised to zero; path {self._pc()}')

    def _feasible(self):
        """some assignment satisfies the path condition (guards against refutations on undetected infeasible paths)"""
        for env in self._envs(8): return True
        return False

    def _numeric_cond(self, c, false=False):
        try:
            for env in self._envs(8):
                if false or self._holds(c, env) is False:
                    return ('refuted', f'{c} fails numerically; path {self._pc()}')
        except Exception as e:
            return ('undecided', f'{c} ({type(e).__name__}: {e})')
        return ('undecided', f'{c} not entailed by {self._pc()}')

    def _record(self, name, th):
        from .terms import Unsupported
        name = self.tag + name
        try:
            outs = self.ctx.explore(th)
        except Unsupported as e:
            self.results.append((name, 'undecided', f'unsupported: {e}'))
            return
        if not outs:
            return      # no feasible sub-path: obligation vacuous here
        for st, det in outs:
            self.results.append((name, st, det))

    def raises(self, f, exc, name):
        def th():
            try:
                f()
            except exc:
                return ('proved', '')
            except Exception as e:
                if type(e).__name__ in ('Unsupported', 'PathEnd'): raise
                return ('refuted', f'raised {type(e).__name__} instead')
            return ('refuted', 'did not raise')
        self._record(name, th)

    def forall(self, name, bounds, body):
        """bounds: list of (lo, hi) for int index variables; body(*idx) performs ensures"""
        N = self.N
        def th():
            vs = []
            for k, (lo, hi) in enumerate(bounds):
                one = self.C.c_eq(N.dim(hi) - N.dim(lo), N.ONE)
                if self.ctx.entailed(one) is True:
                    vs.append(lo)
                    continue
                v = self.T.var(f'{name}_q{k}', real=True, isint=True)
                self.ctx.assume(self.C.c_le(N.dim(lo), v)); self.ctx.assume(self.C.c_lt(v, N.dim(hi)))
                self.__dict__.setdefault('_qb', {})[next(iter(v.atoms()))] = (lo, hi)
                vs.append(N.undim(v))
            body(*vs)
        self.ctx.explore(th)


# ------------------------------------------------------------------------------------------------ concrete
class ConH(Stubs):
    symbolic = False

    def __init__(self, seed, tol=1e-7, pins=None):
        import numpy as np
        self.np = np
        self.rng = random.Random(seed)
        self.npr = np.random.RandomState(seed % (2 ** 31))
        self.seed = seed
        self.log = {}
        self.results = []
        self.tol = tol
        self.pi = math.pi
        self.pins = pins or {}
        self.tag = ''
        self._ov = []

    @property
    def jnp(self):
        import jax.numpy as jnp
        return jnp

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def native(self, name, **stubs): return self.mod(name)
    def instances(self, *idx): pass

    def unrecognised(self, what): raise Skip(what)

    def int(self, name, lo=None, hi=None, chi=None):
        lo_ = 0 if lo is None else lo
        hi_ = chi if chi is not None else (hi if hi is not None else lo_ + 5)
        v = self.pins.get(name, None)
        if v is None or v > hi_: v = self.rng.randint(lo_, hi_)
        self.log[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, special=()):
        r = self.rng
        if special and r.random() < 0.35:
            v = r.choice(list(special))
        else:
            a = lo if lo is not None else (0.1 if pos else -3.0)
            b = hi if hi is not None else (max(a, 0) + 3.0)
            v = r.uniform(a, b)
            if nonzero and abs(v) < 1e-3: v = 0.5
        self.log[name] = v
        return v

    def complex(self, name, nonzero=False):
        r = self.rng
        if not nonzero and r.random() < 0.15: v = 0j
        else: v = complex(r.gauss(0, 1), r.gauss(0, 1))
        self.log[name] = v
        return v

    def array(self, name, shape, kind='f', pos=False, jx=False, lo=None, hi=None, fn=None, const=None):
        np = self.np
        if const is not None: return np.array(const)
        sh = tuple(int(x) for x in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        r = self.npr
        if kind == 'c': a = r.randn(*sh) + 1j * r.randn(*sh)
        elif kind == 'i': a = r.randint(0 if lo is None else lo, 5 if hi is None else hi + 1, sh)
        elif lo is not None or hi is not None:
            a = r.uniform(lo if lo is not None else -2, hi if hi is not None else (max(lo, 0) + 3), sh)
        elif pos: a = r.uniform(0.2, 2.0, sh)
        else: a = r.randn(*sh)
        self.log[name] = f'array{sh}'
        if jx: return self.jnp.array(a)
        # the values, not their layout in memory, are the argument
        lay = 0 if a.ndim < 1 else random.Random(f'{self.seed}{name}').randrange(5)
        if lay == 1: return np.asfortranarray(a)
        if lay == 2:
            b = np.zeros(tuple(2 * x for x in a.shape), a.dtype)[tuple(slice(None, None, 2) for x in a.shape)]
            b[...] = a
            return b
        return np.array(a)

    def choice(self, name, opts):
        opts = list(opts)
        k = self.rng.randrange(len(opts))
        self.log[name] = repr(opts[k])[:60]
        return opts[k]

    def flag(self, name): return self.choice(name, [False, True])
    def min(self, a, b): return min(a, b)
    def max(self, a, b): return max(a, b)

    def assume(self, c):
        if not bool(c): raise Skip()

    def note(self, s): pass
    def need(self, c, what): pass

    def ensure(self, cond, name):
        c = cond() if callable(cond) else cond
        ok = bool(self.np.all(c))
        self.results.append(name)
        if not ok: raise CheckFail(f'{self.tag}{name}: condition is false')

    def all_eq(self, a, b, name, where=None, tol=None):
        np = self.np
        A, B = np.asarray(a), np.asarray(b)
        self.results.append(name)
        if A.shape != B.shape:
            raise CheckFail(f'{self.tag}{name}: shape {A.shape} != {B.shape}')
        if A.dtype == object or B.dtype == object:
            raise CheckFail(f'{self.tag}{name}: object array')
        if A.size == 0: return
        if where is not None:
            m = np.array([bool(where(*i)) for i in np.ndindex(*A.shape)]).reshape(A.shape)
            A, B = A[m], B[m]
            if A.size == 0: return
        d = np.abs(A.astype(complex) - B.astype(complex))
        sc = max(1.0, float(np.max(np.abs(B))), float(np.max(np.abs(A))))
        t = self.tol if tol is None else tol
        if not np.all(np.isfinite(d)):
            if not np.array_equal(np.isfinite(A), np.isfinite(B)) or np.any(np.isnan(d[np.isfinite(A) & np.isfinite(B)])):
                raise CheckFail(f'{self.tag}{name}: non-finite values')
            d = d[np.isfinite(d)]
        if d.size and float(np.max(d)) > t * sc:
            raise CheckFail(f'{self.tag}{name}: max difference {float(np.max(d)):.4g} (scale {sc:.3g})')

    eq = all_eq

    def raises(self, f, exc, name):
        self.results.append(name)
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise CheckFail(f'{self.tag}{name}: raised {type(e).__name__} ({e}) instead of {exc}')
        raise CheckFail(f'{self.tag}{name}: did not raise')

    def forall(self, name, bounds, body):
        import itertools
        for t in itertools.product(*[range(int(lo), int(hi)) for lo, hi in bounds]):
            body(*t)
