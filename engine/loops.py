"""Loops over sequences of symbolic length are cut at their head by an invariant (initialisation, preservation, use).

`transform` rewrites every `for` statement so that an ordinary iterable runs unchanged, while an abstract sequence
(importer.SymSeq) is verified with the invariant registered for the enclosing function."""
import ast, copy
from .terms import Unsupported


class _Names(ast.NodeVisitor):
    def __init__(self): self.names, self.bad = [], False
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names: self.names.append(n.id)
    def visit_FunctionDef(self, n):
        if n.name not in self.names: self.names.append(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_Lambda(self, n): pass
    def visit_ClassDef(self, n): self.bad = True
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_Global(self, n): self.bad = True
    visit_Nonlocal = visit_Global
    def visit_Yield(self, n): self.bad = True
    visit_YieldFrom = visit_Yield


class _Esc(ast.NodeVisitor):
    """break/return that leave the loop"""
    def __init__(self): self.esc = False
    def visit_Break(self, n): self.esc = True
    def visit_Return(self, n): self.esc = True
    def visit_FunctionDef(self, n): pass
    def visit_Lambda(self, n): pass
    def visit_For(self, n):
        for s in n.body + n.orelse:      # a nested break is local, a nested return is not
            for x in ast.walk(s):
                if isinstance(x, ast.Return): self.esc = True


class Tr(ast.NodeTransformer):
    def __init__(self): self.stack, self.n, self.cls = [], 0, False

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        c, self.cls = self.cls, False
        self.generic_visit(node)
        self.cls = c
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        c, self.cls = self.cls, True
        self.generic_visit(node)
        self.cls = c
        self.stack.pop()
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async or not self.stack or self.cls: return node
        for x in ast.walk(node):
            if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)): return node
            if isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals'): return node
        m = ast.parse('_comp_sel_(ITER, lambda _e_: [ELT for TARGET in (_e_,)][0], lambda _e_: [ELT for TARGET in _e_])', mode='eval').body
        m.args[0] = g[0].iter
        for k in (1, 2):
            lc = m.args[k].body.value if k == 1 else m.args[k].body
            lc.elt, lc.generators[0].target = copy.deepcopy(node.elt), copy.deepcopy(g[0].target)
        return ast.copy_location(m, node)

    @staticmethod
    def _appended(node):
        """X if the body of the loop is X.append(element) and nothing else"""
        if len(node.body) != 1 or not isinstance(node.body[0], ast.Expr): return None
        c = node.body[0].value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and len(c.args) == 1 and not c.keywords): return None
        x = c.func.value.id
        for y in list(ast.walk(c.args[0])) + list(ast.walk(node.target)):
            if isinstance(y, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)): return None
            if isinstance(y, ast.Name) and y.id in (x, 'super', '__class__', 'locals'): return None
        return x

    def visit_For(self, node):
        self.generic_visit(node)
        infn = bool(self.stack)
        nm = _Names()
        for s in node.body + [node.target]: nm.visit(s)
        es = _Esc()
        for s in node.body: es.visit(s)
        if nm.bad or node.orelse or es.esc or not infn: return node
        self.n += 1
        it, st = f'_vit{self.n}_', f'_vst{self.n}_'
        names = nm.names
        q = '.'.join(self.stack)
        src = (f'{it} = 0\n'
               f'if _loop_sym_({it}):\n'
               f'    {st} = _loop_begin_({it}, {q!r}, {names!r}, locals())\n' +
               ''.join(f'    {x} = {st}.get({x!r})\n' for x in names) +
               f'    if {st}.body:\n'
               f'        for TARGET in ({st}.element,):\n'
               f'            pass\n'
               f'        {st}.end(locals())\n'
               f'else:\n'
               f'    for TARGET in {it}:\n'
               f'        pass\n')
        ap = self._appended(node)
        if ap is not None:      # a loop which only collects: the abstract list of its elements
            src += (f'if _loop_sym_({it}) and not _loop_inv_({q!r}):\n'
                    f'    {ap}.extend(_comp_sel_({it}, lambda _e_: [ELT for TARGET in (_e_,)][0], None))\n')
            src = src.replace(f'if _loop_sym_({it}):', f'if _loop_sym_({it}) and not _loop_inv_({q!r}):\n    pass\nelif _loop_sym_({it}):', 1)
        m = ast.parse(src)
        a, cond = m.body[:2]
        a.value = node.iter
        if ap is not None:
            lc = m.body[2].body[0].value.args[0].args[1].body.value
            lc.elt, lc.generators[0].target = copy.deepcopy(node.body[0].value.args[0]), copy.deepcopy(node.target)
            cond = cond.orelse[0]       # skip (collected below), or abstract, or concrete
        inner = cond.body[-1].body[0]
        inner.target, inner.body = copy.deepcopy(node.target), copy.deepcopy(node.body)
        outer = cond.orelse[0]
        outer.target, outer.body = node.target, node.body
        ast.fix_missing_locations(m)
        return m.body


def transform(tree):
    t = Tr().visit(tree)
    ast.fix_missing_locations(t)
    return t


class Poison:
    def __init__(self, n): self.__dict__['_n'] = n
    def _bad(self, *a, **k): raise Unsupported(f'{self._n} is modified by a loop of symbolic length and not described by its invariant')
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        self._bad()
    __call__ = __getitem__ = __iter__ = __len__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __bool__ = __index__ = _bad


class Invariant:
    """init(locals) -> dict of ghost states; step(state, element, k) -> dict; abstract(k, names) -> dict"""
    def __init__(self, h, init, step, abstract, name):
        self.h, self.init, self.step, self.abstract, self.name = h, init, step, abstract, name


class LoopState:
    def __init__(self, inv, seq, names, loc):
        from .core import ctx, c_le, c_lt, Cond
        from . import symnp as N, terms as T
        self.inv, self.names, self.seq = inv, names, seq
        h = inv.h
        c = ctx()
        n = N.dim(seq.length)
        init = inv.init(loc)
        self.keys = list(init)
        for k in self.keys:
            h.all_eq(loc[k], init[k], f'{inv.name}:initialisation:{k}')
        self.wlog0 = N.Buf.serial
        empty = c.decide(N.c_eq(n, N.ZERO))
        if empty:
            self.body, self.vals = False, {k: loc[k] for k in self.keys}
            return
        self.body = c.decide(Cond('atom', f'loop_{inv.name}_{c.nfresh}'))
        if self.body:
            v = T.var(f'k_{inv.name}', real=True, isint=True)
            c.assume(c_le(N.ZERO, v)); c.assume(c_lt(v, n))
            self.k = v
            self.vals = inv.abstract(v, init)
            self.pre = {k: (x.copy() if hasattr(x, 'copy') else x) for k, x in self.vals.items()}
            self.element = seq.element(N.undim(v))
            self.wserial = N.Buf.serial
            self.saved_log = c.wlog
            c.wlog = []
        else:
            self.vals = inv.abstract(n, init)

    def get(self, n):
        return self.vals[n] if n in self.vals else Poison(n)

    def end(self, loc):
        from .core import ctx, PathEnd
        c = ctx()
        exp = self.inv.step(self.pre, self.element, self.k)
        own = {id(getattr(v, 'buf', None)) for v in self.vals.values()}
        for b in c.wlog:
            if b.n <= self.wserial and id(b) not in own:
                raise Unsupported('a loop of symbolic length writes to an array its invariant does not describe')
        for k in self.keys:
            self.inv.h.all_eq(loc[k], exp[k], f'{self.inv.name}:preservation:{k}')
        raise PathEnd()


INVS = {}


def comp_sel(it, one, all_):
    """list comprehension: over an abstract sequence the result is the abstract sequence of the (pure) element expression"""
    if getattr(it, 'buf', None) is not None or type(it).__name__ == 'Arr':
        from . import symnp as N
        if it.ndim and not it.shp[0].is_const():
            from .importer import SymSeq
            a = it
            it = SymSeq(N.undim(a.shp[0]), lambda k: a[k])
    if loop_sym(it):
        from .importer import SymSeq
        return SymSeq(it.length, lambda k: one(it.element(k)), it.invariant)
    return all_(it)


def loop_sym(it):
    from .importer import SymSeq
    from . import symnp as N
    return isinstance(it, SymSeq) and not N.dim(it.length).is_const()


def loop_inv(qual): return any(qual == q or qual.endswith('.' + q) for q in INVS)


def loop_begin(it, qual, names, loc):
    for q, inv in INVS.items():
        if qual == q or qual.endswith('.' + q): return LoopState(inv, it, names, loc)
    raise Unsupported(f'no invariant for the loop of symbolic length in {qual}')


def scan(f, init, xs):
    """lax.scan over an abstract sequence: invariant on the carry, `ys` abstracted by the invariant"""
    from . import symnp as N
    inv = INVS.get('scan')
    if inv is None: raise Unsupported('no invariant for a scan of symbolic length')
    st = LoopState(inv, xs, ['carry'], {'carry': init})
    c0 = st.get('carry')
    if st.body:
        c1, y = f(c0, st.element)
        if y is not None and getattr(inv, 'check_y', None): inv.check_y(st.pre, y, st.k, st.element)
        st.end({'carry': c1})
    return c0, (inv.ys() if getattr(inv, 'ys', None) else None)
