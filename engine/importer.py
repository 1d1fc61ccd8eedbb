"""Loads /repo's current source with numpy/jax/scipy replaced by symbolic semantics.

Dropped by this extraction (and stated in the trusted base): type annotations and pydantic's argument coercion,
jit compilation (identity), floating-point rounding (exact arithmetic), plotting and file formats (opaque)."""
import builtins, importlib, os, sys, types, ast, dataclasses, functools
from . import symnp as N, terms as T
from .core import S, Cond, ctx, to_s, as_cond, s_min, s_max, s_abs, TRUE, FALSE, c_le, c_lt, c_and, Poly, prove
from .terms import Unsupported
from .symnp import Arr, Missing, _Mod, DT

REPO = os.environ.get('SIMPHOX_REPO', '/repo')
REAL = {'typing', 'enum', 'dataclasses', 'functools', 'collections', 'copy', 'itertools', 'logging', 'abc', 'warnings',
        'os', 'time', 'string', 're', 'math', 'numbers', 'types', 'contextlib', 'sys', 'ctypes', 'glob', 'hashlib', 'platform', 'collections.abc', '__future__', 'operator', 'inspect', 'weakref'}


class _T(type):
    def __instancecheck__(cls, o):
        return cls.check(o)
    def __call__(cls, *a, **k):
        return cls.conv(*a, **k)
    def __or__(cls, o): return cls
    def __eq__(cls, o): return cls is o or o is cls.real
    def __hash__(cls): return hash(cls.__name__)


def _mkint():
    def conv(x=0, *a):
        if isinstance(x, Cond): return x.num()
        if isinstance(x, Arr): x = x.item()
        if isinstance(x, S):
            p = N.trunc(x.p)
            return N.undim(p)
        return int(x, *a)
    return _T('int', (), {'conv': staticmethod(conv), 'check': staticmethod(lambda o: isinstance(o, int) or (isinstance(o, S) and o.k == 'i')),
                          '__symname__': 'int', 'real': int})


def _mkfloat():
    def conv(x=0.0):
        if isinstance(x, Cond): x = x.num()
        if isinstance(x, Arr): x = x.item()
        if isinstance(x, S): return S(x.p.real() if x.k == 'c' else x.p, 'f')
        return float(x)
    return _T('float', (), {'conv': staticmethod(conv), 'check': staticmethod(lambda o: isinstance(o, float) or (isinstance(o, S) and o.k == 'f')),
                            '__symname__': 'float', 'real': float})


def _mkcomplex():
    def conv(x=0.0, y=0.0):
        if isinstance(x, (S, Arr)): return S(to_s(x.item()).p, 'c')
        return complex(x, y)
    return _T('complex', (), {'conv': staticmethod(conv), 'check': staticmethod(lambda o: isinstance(o, complex) or (isinstance(o, S) and o.k == 'c')),
                              '__symname__': 'complex', 'real': complex})


def _mkbool():
    def conv(x=False): return bool(x)
    return _T('bool', (), {'conv': staticmethod(conv), 'check': staticmethod(lambda o: isinstance(o, (bool, Cond))),
                           '__symname__': 'bool', 'real': bool})


SInt, SFloat, SComplex, SBool = _mkint(), _mkfloat(), _mkcomplex(), _mkbool()
BACK = {int: SInt, float: SFloat, complex: SComplex, bool: SBool}


def s_isinstance(o, t):
    if isinstance(t, tuple): return any(s_isinstance(o, x) for x in t)
    if isinstance(t, Missing): return False
    t = BACK.get(t, t)
    if isinstance(o, S) and getattr(t, '__module__', '') == 'numbers':
        return True
    if isinstance(o, S) and isinstance(t, type) and t not in (S,) and not isinstance(t, _T): return False
    if isinstance(o, SymSeq) and t in (list, tuple): return True
    try:
        return isinstance(o, t)
    except TypeError:
        raise


def s_len(x):
    if isinstance(x, Arr): return x.sym_len()
    if isinstance(x, SymSeq): return x.length
    return len(x)


class SymSeq:
    """abstract sequence of symbolic length; element(i) gives the i-th element"""
    __symseq__ = True
    def __init__(self, length, element, inv=None):
        self.length, self.element = length, element
        self.invariant = inv
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step == -1:
                n = N.dim(self.length)
                return SymSeq(self.length, lambda k: self.element(N.undim(n - N.ONE - N.dim(k))), self.invariant)
            raise Unsupported('slice of abstract sequence')
        n = N.dim(self.length)
        p = N.norm_int(N.index_p(i), n)
        return self.element(N.undim(p))
    def __iter__(self):
        n = N.dim(self.length)
        if n.is_const(): return iter([self.element(k) for k in range(int(n.cval()))])
        raise Unsupported('iteration over a sequence of symbolic length')


def s_range(*a):
    if all(isinstance(x, int) for x in a): return range(*a)
    a = [x if isinstance(x, (int, S)) else N.undim(N.index_p(x)) for x in a]
    for x in a:
        if isinstance(x, S) and x.k != 'i': raise TypeError("'float' object cannot be interpreted as an integer")
    ps = [N.dim(x) for x in a]
    if all(p.is_const() for p in ps): return range(*[int(p.cval()) for p in ps])
    st, en = (N.ZERO, ps[0]) if len(ps) == 1 else ps[:2]
    step = 1
    if len(ps) == 3:
        if not ps[2].is_const(): raise Unsupported('symbolic range step')
        step = int(ps[2].cval())
        if step == 0: raise ValueError('range() arg 3 must not be zero')
    n = en - st
    if step < 0: n = -n
    if abs(step) > 1: n = N.dim((N.undim(n) + (abs(step) - 1)) // abs(step))
    if step != 1:
        if not ctx().decide(c_le(N.ZERO, n)): n = N.ZERO
        return SymSeq(N.undim(n), lambda k: N.undim(st + N.dim(k) * N.dim(step)))
    if not ctx().decide(c_le(N.ZERO, n)): n = N.ZERO
    return SymSeq(N.undim(n), lambda k: N.undim(st + N.dim(k)))


def _red(f, real):
    def g(*a, key=None, default=None):
        if len(a) == 1:
            xs = list(a[0])
            if not xs and default is not None: return default
        else: xs = list(a)
        if key is not None or not any(isinstance(x, (S, Cond, Arr)) for x in xs):
            return real(xs, key=key) if key else real(xs)
        out = xs[0]
        for x in xs[1:]: out = f(out.item() if isinstance(out, Arr) else out, x.item() if isinstance(x, Arr) else x)
        return out
    return g


def s_sum(xs, start=0):
    t = start
    for x in xs: t = t + x
    return t


def s_any(xs):
    for x in xs:
        if x: return True
    return False


def s_all(xs):
    for x in xs:
        if not x: return False
    return True


def s_round(x, nd=None):
    if isinstance(x, S):
        if nd: raise Unsupported('round digits')
        return N.undim(N.round_p(x.p))
    return round(x) if nd is None else round(x, nd)


def s_abs(x):
    from .core import s_abs as sa
    return sa(x) if isinstance(x, S) else abs(x)


def s_hash(x):
    if isinstance(x, N.BytesKey) or (isinstance(x, tuple) and any(isinstance(y, N.BytesKey) for y in x)): raise Unsupported('hash of array content')
    return hash(x)


def s_reversed(x):
    if isinstance(x, SymSeq): return x[::-1]
    return reversed(x)


def s_zip(*a, **k):
    if any(isinstance(x, SymSeq) for x in a):
        xs = [x if isinstance(x, SymSeq) else None for x in a]
        if all(x is not None for x in xs):
            return SymSeq(xs[0].length, lambda i: tuple(x.element(i) for x in xs), xs[0].invariant)
        raise Unsupported('zip of mixed sequences')
    return zip(*a, **k)


def s_enumerate(x, start=0):
    if isinstance(x, SymSeq): return SymSeq(x.length, lambda i: (i + start, x.element(i)), x.invariant)
    return enumerate(x, start)


def dataclass_shim(cls=None, **kw):
    def deco(c):
        if hasattr(c, '__post_init_post_parse__') and '__post_init__' not in c.__dict__:
            c.__post_init__ = lambda self: self.__post_init_post_parse__()
        return dataclasses.dataclass(c)
    return deco(cls) if cls is not None else deco


class custom_vjp:
    def __init__(self, f, nondiff_argnums=()):
        self.f = f
        functools.update_wrapper(self, f)
    def defvjp(self, fwd, bwd, **k): self.fwd, self.bwd = fwd, bwd
    def __call__(self, *a, **k): return self.f(*a, **k)


def jit_shim(f=None, **k):
    if f is None: return lambda g: g
    return f


def scan_shim(f, init, xs, length=None):
    if isinstance(xs, SymSeq):
        from .loops import scan
        return scan(f, init, xs)
    if xs is None: n = int(length)
    else:
        leaves = xs if isinstance(xs, (tuple, list)) else (xs,)
        d = N.asarray(leaves[0]).shp[0]
        if not d.is_const(): raise Unsupported('scan of symbolic length')
        n = int(d.cval())
    carry, ys = init, []
    for i in range(n):
        x = None if xs is None else (type(xs)(N.asarray(l)[i] for l in xs) if isinstance(xs, (tuple, list)) else xs[i])
        carry, y = f(carry, x)
        ys.append(y)
    if ys and ys[0] is None: return carry, None
    if ys and isinstance(ys[0], tuple):
        return carry, tuple(N.stack([y[k] for y in ys]) for k in range(len(ys[0])))
    return carry, N.stack(ys) if ys else None


class Importer:
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.np = N.make_module(False)
        self.jnp = N.make_module(True)
        self.shims = {}
        self.first = {}
        self._mk_shims()
        if overrides: self.shims.update(overrides)
        self.files = []
        b = dict(vars(builtins))
        b.update(__import__=self._import, isinstance=s_isinstance, len=s_len, range=s_range, int=SInt, float=SFloat,
                 complex=SComplex, bool=SBool, min=_red(s_min, min), max=_red(s_max, max), sum=s_sum, any=s_any, all=s_all,
                 round=s_round, abs=s_abs, reversed=s_reversed, hash=s_hash, zip=s_zip, enumerate=s_enumerate, print=lambda *a, **k: None)
        from . import loops
        b.update(_comp_sel_=loops.comp_sel, _loop_sym_=loops.loop_sym, _loop_begin_=loops.loop_begin, _loop_inv_=loops.loop_inv)
        self.builtins = b

    def shim(self, name, **attrs):
        m = _Mod(name)
        m.__dict__.update(attrs)
        m.__dict__['__path__'] = []
        self.shims[name] = m
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            if par not in self.shims: self.shim(par)
            self.shims[par].__dict__[ch] = m
        return m

    def _mk_shims(self):
        from . import symsp
        self.shims['numpy'] = self.np
        self.np.__dict__['__path__'] = []
        self.shims['numpy.linalg'] = self.np.linalg
        self.shims['numpy.random'] = self.np.random
        lax = self.shim('jax.lax', scan=scan_shim, stop_gradient=lambda x: x)
        jax = self.shims['jax']
        jax.__dict__.update(ShapeDtypeStruct=lambda *a, **k: None, jit=jit_shim, custom_vjp=custom_vjp, lax=lax, numpy=self.jnp)
        self.jnp.__dict__['__path__'] = []
        self.shims['jax.numpy'] = self.jnp
        cfg = types.SimpleNamespace(update=lambda *a, **k: None, parse_flags_with_absl=lambda: None)
        jax.__dict__['config'] = cfg
        self.shim('jax.config', config=cfg)
        jax.__dict__['config'] = cfg
        jax.__dict__['value_and_grad'] = Missing('jax.value_and_grad')
        hcb = self.shim('jax.experimental.host_callback', call=lambda f, x, result_shape=None, **k: f(x))
        self.shim('pydantic.dataclasses', dataclass=dataclass_shim)
        self.shims['pydantic'].__dict__['dataclasses'] = self.shims['pydantic.dataclasses']
        self.shim('scipy.special', betaincinv=lambda a, b, x: x)
        la = self.shim('scipy.linalg', block_diag=N.block_diag)
        self.shims['scipy'].__dict__['linalg'] = la
        sp = self.shim('scipy.sparse')
        symsp.install(sp)
        def disk(*a, **k):      # concrete arguments: the library itself
            from skimage.draw import disk as real
            return tuple(N.asarray([int(x) for x in q]) for q in real(*a, **k))
        self.shim('skimage.draw', disk=disk)
        def iterative(A, b, x0=None, *, rtol=1e-5, atol=0., restart=None, maxiter=None, M=None, callback=None): raise Unsupported('iterative solver')
        def operator(*a, **k): raise Unsupported('linear operator')
        spl = self.shim('scipy.sparse.linalg', gmres=iterative, bicgstab=iterative, spilu=operator, LinearOperator=operator)
        self.shims['scipy'].__dict__['sparse'] = sp
        sp.__dict__['linalg'] = spl

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = f'{base}.{name}' if name else base
            m = self.load(name)
            for f in fromlist or ():
                if f != '*' and f not in m.__dict__ and self._exists(f'{name}.{f}'):
                    m.__dict__[f] = self.load(f'{name}.{f}')
            if fromlist: return m
            return self.load(name.split('.')[0])
        top = name.split('.')[0]
        if top == 'simphox':
            m = self.load(name)
            for f in fromlist or ():
                if f != '*' and f not in m.__dict__ and self._exists(f'{name}.{f}'):
                    m.__dict__[f] = self.load(f'{name}.{f}')
            return m if fromlist else self.load(top)
        if name in self.first: return self.first[name]
        if name in REAL: return importlib.__import__(name, None, None, fromlist, 0)
        if name not in self.shims: self.shim(name)
        return self.shims[name] if fromlist else self.shims[top]

    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p): return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def _exists(self, name):
        return os.path.exists(self._path(name)[0])

    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name == 'simphox.mkl' and not getattr(self, 'full_mkl', False):
            # the native solver library is a contracted dependency (C20 verifies the wrapper itself)
            m = _Mod(name)
            m.__dict__.update(spsolve_pardiso=Missing('mkl.spsolve_pardiso'), feast_eigs=Missing('mkl.feast_eigs'))
            self.mods[name] = m
            self.load('simphox').__dict__['mkl'] = m
            return m
        if '.' in name:      # parents first, as Python does
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods: return self.mods[name]
        path, ispkg = self._path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rsplit('.', 1)[0]
        if ispkg: m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if name == 'simphox':     # the package __init__ only re-exports; load members on demand
            m.__dict__['__getattr__'] = lambda n: self.load(f'simphox.{n}')
            return m
        if '.' in name:
            par = self.load(name.rsplit('.', 1)[0])
            par.__dict__[name.rsplit('.', 1)[1]] = m
        try:
            src = open(path).read()
            self.files.append(path)
            tree = ast.parse(src, path)
            from .loops import transform
            tree = transform(tree)
            added = name not in sys.modules      # dataclasses look the module of a class up
            if added: sys.modules[name] = m
            try: exec(compile(tree, path, 'exec'), m.__dict__)
            finally:
                if added: sys.modules.pop(name, None)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m
