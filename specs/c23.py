"""C23: optimisation bookkeeping."""
import types
from engine.runner import spec

OP, OF = 'simphox.opt', 'simphox/opt.py:'


class DataArray:
    """contract of xarray.DataArray: holds its arguments; coordinates must match the data"""
    def __init__(self, data=None, coords=None, dims=None, name=None):
        self.values, self.coords, self.dims, self.name = data, coords, dims, name


class State:
    def __init__(self, params): self.params = params


class Adam:
    """contract of the optimizer: uninterpreted update and state; everything asked of it is recorded"""
    def __init__(self, h, shape):
        self.h, self.shape, self.updates, self.inits, self.grads = h, shape, [], [], []

    def __call__(self, step_size=None, *a, **k):
        self.step_size = step_size
        return self.init, self.update, lambda s: s.params

    def init(self, x):
        s = State(x)
        self.inits.append(s)
        return s

    def update(self, i, g, s):
        n = State(self.h.array(f'p{len(self.updates) + 1}', self.shape, kind='f'))
        self.updates.append((i, g, s, n))
        return n

    def value_and_grad(self, f, argnums=0, has_aux=False, **k):
        def g(x):
            v = f(x)
            t = self.h.array(f'g{len(self.grads)}', self.shape, kind='f')
            self.grads.append((x, v, t))
            return v, t
        return g


class Sim:
    """a simulation: scattering parameters and fields depend on the permittivity only"""
    def __init__(self, h, k, shape, name):
        self.h, self.k, self.shape, self.name, self.eps = h, k, shape, name, None
        self.a, self.b = h.array(f'sa{k}', shape, kind='f'), h.array(f'sb{k}', shape, kind='f')
        self.asked = []

    def get_sim_sparams_fn(self, port_name, transform_fn):
        self.asked.append(port_name)
        return lambda rho: self.solve(transform_fn(rho))

    def solve(self, eps):
        xp = self.h.jnp
        s = [(self.a * eps).sum(), (self.b * eps).sum()]
        f = xp.stack([(self.b + q) * eps for q in range(3)])[..., None]
        return xp.stack([xp.array(q) for q in s]), (f * 2, f)

    def decorate(self, sparams, fields): return {'in': sparams[0], 'out': sparams[1]}, fields[0], fields[1]


class Bar:
    def __init__(self, it): self.it, self.said = it, []
    def __iter__(self): return iter(self.it)
    def set_description(self, s): self.said.append(s)


class Pipe:
    def __init__(self): self.sent = []
    def send(self, x): self.sent.append(x)


class Problem:
    """what one problem means: parameters -> (cost, aux, eps, sparams, fields)"""
    def __init__(self, h, m, k, kind, shape, name='sim', plain=False, first=None, share=None):
        self.h, self.k, self.kind, self.shape = h, k, kind, shape
        self.t, self.u, self.w = h.array(f't{k}', shape, kind='f'), h.array(f'u{k}', shape, kind='f'), h.real(f'w{k}')
        if first is not None and share == 'cost': self.cost = first.cost
        if first is not None and share == 'simulation': self.transform = first.transform
        self.sim = Sim(h, k, shape, name) if kind != 'function' else None
        if self.sim is not None and first is not None and first.sim is not None and share == 'simulation': self.sim = first.sim
        self.source = 'port' if kind in ('simulation', 'metrics') else None
        self.plain = plain
        self.problem = m.OptProblem(None if plain else self.transform, self.cost, self.sim, self.source,
                                    self.metrics if kind == 'metrics' else None)
    def transform(self, rho): return rho if self.plain else self.t * rho * rho + self.u
    def output(self, rho): return self.sim.solve(self.transform(rho)) if self.source else self.transform(rho)
    def cost(self, x):
        if isinstance(x, tuple): return self.w * x[0][0] * x[0][1] - x[0][0], x
        return self.w * (x * self.t).sum() + (x * x).sum(), x
    def metrics(self, s): return {'power': s['out'] * s['out'], 'ratio': s['in'] + 2 * s['out']}


def environment(h, shape):
    """the module under contract and the optimizer it is given"""
    if not h.symbolic: return h.mod(OP), None
    ad = Adam(h, shape)
    h.imp.shim('jax.example_libraries.optimizers', adam=ad)
    h.imp.shims['jax'].__dict__['value_and_grad'] = ad.value_and_grad
    x = types.ModuleType('xarray')
    x.DataArray = DataArray
    return h.native(OP, xarray=x), ad


def reference(h, ps, rho, iters, step):
    """parameters before every update and at the end, by the optimizer itself"""
    import jax
    from jax.example_libraries.optimizers import adam
    init, update, get = adam(step_size=step)
    s = init(rho)
    out = [get(s)]
    for i in iters:
        g = jax.grad(lambda r: sum(p.cost(p.output(r))[0] for p in ps) / len(ps))(get(s))
        s = update(i, g, s)
        out.append(get(s))
    return out


def trajectory(h, ps, ad, rho, iters, step):
    if not h.symbolic: return reference(h, ps, rho, iters, step)
    h.ensure(ad.step_size is not None, 'step_size')
    h.eq(ad.step_size, step, 'step_size')
    h.ensure(len(ad.inits) == 1 and ad.inits[0].params is rho, 'starts_from_the_initial_parameters')
    h.ensure(len(ad.updates) == len(iters), 'number_of_updates')
    out, s = [rho], ad.inits[0]
    for (i, g, old, new), want, (x, v, t) in zip(ad.updates, iters, ad.grads):
        h.eq(i, want, 'update_index')
        h.ensure(old is s, 'updates_follow_each_other')
        h.ensure(x is s.params and g is t, 'gradient_at_the_current_parameters')
        h.eq(v[0], mean(h, ps, x), 'the_objective_is_the_mean_cost')
        s = new
        out.append(new.params)
    return out


def mean(h, ps, rho): return sum(p.cost(p.output(rho))[0] for p in ps) / len(ps)


def same(h, a, b, name):
    a, b = h.np.asarray(a), h.np.asarray(b)
    h.ensure(tuple(a.shape) == tuple(b.shape), name + ':shape')
    h.all_eq(a, b, name)


def records(h, r, ps, P, iters, metric, eps, field):
    """the records against the trajectory of parameters"""
    sims = [p for p in ps if p.source]
    ms = [p for p in ps if p.kind == 'metrics']
    vals = lambda x: h.np.asarray(x.values)
    names = lambda x, k: [str(q) for q in (x.coords[k].values if not h.symbolic else x.coords[k])]
    same(h, r.costs, [mean(h, ps, P[j]) for j in range(len(iters))], 'costs')
    same(h, r.params, P[-1], 'final_parameters')
    for p in ps:
        if p.sim is not None and iters: same(h, p.sim.eps, p.transform(P[-1]), 'simulations_hold_the_final_design')
    if metric and ms:
        its = [j for j, i in enumerate(iters) if i % metric == 0]
        h.ensure(tuple(r.metrics.dims) == ('name', 'metric', 'iteration'), 'metric_dimensions')
        h.ensure(names(r.metrics, 'name') == [p.sim.name for p in ms], 'metric_problem_names')
        same(h, r.metrics.coords['iteration'], [iters[j] for j in its], 'metric_iterations')
        mn = names(r.metrics, 'metric')
        if its:
            h.ensure(sorted(mn) == ['power', 'ratio'], 'metric_names')
            ref = []
            for p in ms:
                ds = [p.metrics(p.sim.decorate(*p.output(P[j]))[0]) for j in its]
                ref.append([[d[q] for d in ds] for q in mn])
            same(h, vals(r.metrics), ref, 'metrics')
    else: h.ensure(isinstance(r.metrics, list) and r.metrics == [], 'no_metrics')
    for rec, iv, nm, f in ((r.eps, eps, 'eps', lambda p, j: p.transform(P[j + 1])), (r.fields, field, 'fields', lambda p, j: p.output(P[j])[1][1][2][..., 0])):
        if not (iv and sims):
            h.ensure(isinstance(rec, list) and rec == [], 'no_' + nm)
            continue
        its = [j for j, i in enumerate(iters) if i % iv == 0]
        h.ensure(tuple(rec.dims) == ('name', 'iteration', 'x', 'y'), nm + '_dimensions')
        h.ensure(names(rec, 'name') == [p.sim.name for p in sims], nm + '_problem_names')
        same(h, rec.coords['iteration'], [iters[j] for j in its], nm + '_iterations')
        same(h, vals(rec), [[f(p, j) for j in its] for p in sims], nm)


SHARED = ['nothing', 'cost', 'simulation', 'problem']


def problems(h, m, kinds, shape, same_names=False, share=None):
    """share: what all problems of the list have in common (a cost function; a simulation with its transform; everything)"""
    ps = []
    for k, kind in enumerate(kinds):
        if k and share == 'problem': ps.append(ps[0])
        else: ps.append(Problem(h, m, k, kind, shape, 'sim' if same_names else f'sim{k}', first=ps[0] if ps else None, share=share))
    return ps


B = 'runs of up to four updates of up to three problems; every cost, transform, parameter and optimizer state'
KINDS = [('simulation',), ('metrics',), ('function',), ('fixed',), ('metrics', 'metrics'), ('metrics', 'function'), ('function', 'metrics', 'simulation'), ('fixed', 'metrics', 'metrics')]


@spec('C23', functions=[OF + 'opt_run', OF + 'OptProblem.__post_init__'], bounded=B, tol=2e-3, trials=25, budget=240, cbudget=45)
def runs(h):
    """without any optional argument: every kind of problem"""
    shape = (2, 3)
    m, ad = environment(h, shape)
    ps = problems(h, m, h.choice('problems', KINDS), shape, share=h.choice('share', SHARED))
    n = h.choice('updates', [0, 1, 2, 4] if h.symbolic else [0, 1, 2, 4, 14])
    rho, step = h.array('rho', shape, kind='f'), h.real('step', lo=0.05, hi=0.5)
    arg = [p.problem for p in ps]
    if len(arg) == 1 and h.flag('alone'): arg = arg[0]
    r = m.opt_run(arg, rho, n, step_size=step)
    iters = list(range(n))
    records(h, r, ps, trajectory(h, ps, ad, rho, iters, step), iters, 0, 0, 0)


@spec('C23', functions=[OF + 'opt_run'], bounded=B, tol=2e-3, trials=25, budget=240, cbudget=45)
def recorded(h):
    """metrics, permittivities and fields at any intervals"""
    shape = (2, 3)
    m, ad = environment(h, shape)
    names = h.choice('names', ['distinct', 'same', 'one_simulation'])
    ps = problems(h, m, h.choice('problems', KINDS[:2] + KINDS[4:]), shape, same_names=names == 'same', share='simulation' if names == 'one_simulation' else None)
    n = h.choice('updates', [1, 4] if h.symbolic else [1, 2, 3, 4, 13])
    iv = [h.choice(f'{k}_interval', [0, 1, 2, 3, 5]) for k in ('metric', 'eps', 'field')] if not h.symbolic else h.choice('intervals', [(1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 3), (1, 3, 2)])
    bar = h.flag('bar')
    rho, step = h.array('rho', shape, kind='f'), h.real('step', lo=0.05, hi=0.5)
    bars = []
    kw = dict(pbar=lambda it: bars.append(Bar(it)) or bars[-1]) if bar else {}
    r = m.opt_run([p.problem for p in ps], rho, n, step_size=step, metric_interval=iv[0], eps_interval=iv[1], field_interval=iv[2], **kw)
    iters = list(range(n))
    records(h, r, ps, trajectory(h, ps, ad, rho, iters, step), iters, *iv)
    if bar: h.ensure(len(bars) == 1 and len(bars[0].said) == n, 'progress')


@spec('C23', functions=[OF + 'OptProblem.__post_init__'], tol=2e-3, trials=4)
def problem_functions(h):
    """without a transform the parameters are the permittivity; the simulation is asked for the given source"""
    shape = (2, 3)
    m, ad = environment(h, shape)
    kind = h.choice('kind', ['simulation', 'function', 'fixed', 'metrics'])
    p = Problem(h, m, 0, kind, shape, plain=h.flag('plain'))
    rho = h.array('rho', shape, kind='f')
    out, ref = p.problem.fn(rho), p.output(rho)
    if p.source:
        h.ensure(p.sim.asked == ['port'], 'source')
        same(h, out[0], ref[0], 'scattering_parameters')
        same(h, out[1][1], ref[1][1], 'fields')
    else: same(h, out, ref, 'transformed_parameters')
    same(h, p.problem.transform_fn(rho), p.transform(rho), 'transform')


@spec('C23', functions=[OF + 'opt_run'], tol=2e-3, trials=10)
def one_update(h):
    """the update of any index, from any parameters"""
    shape = (2, 3)
    m, ad = environment(h, shape)
    ps = problems(h, m, h.choice('problems', [('metrics', 'function'), ('simulation',), ('metrics', 'simulation')]), shape, share=h.choice('share', SHARED))
    n = h.int('updates', lo=1, chi=9)
    i = h.int('index', lo=0, chi=9)
    h.assume(i < n)
    rho, step = h.array('rho', shape, kind='f'), h.real('step', lo=0.05, hi=0.5)
    iv = h.choice('interval', [1, 3])
    h.assume(i % iv == 0)
    given = []
    r = m.opt_run([p.problem for p in ps], rho, n, step_size=step, pbar=lambda it: given.append(it) or Bar([i]), eps_interval=iv, field_interval=iv)
    h.ensure(len(given) == 1, 'one_progress_bar')
    h.eq(len(given[0]) if not h.symbolic else given[0].length, n, 'iterations_shown')
    records(h, r, ps, trajectory(h, ps, ad, rho, [i], step), [i], 0, iv, iv)


@spec('C23', functions=[OF + 'opt_run'], bounded=B, tol=2e-3, trials=12)
def visualized(h):
    """a visualizer receives the costs so far, and with it the same run is made"""
    shape = (2, 2)
    m, ad = environment(h, shape)
    ps = problems(h, m, h.choice('problems', [('metrics',), ('function', 'metrics', 'simulation')]), shape)
    sims = [p for p in ps if p.source]
    n = h.choice('updates', [1, 2, 3])
    iv = h.choice('metric_interval', [0, 1, 2])
    conf = {'a': ['power'], 'b': ['ratio']} if h.flag('two') else {'all': ['ratio', 'power']}
    viz = m.OptViz(cost_dmap=None, simulations_panels={}, costs_pipe=Pipe(), simulations_pipes={p.sim.name: (Pipe(), Pipe(), Pipe()) for p in sims},
                   metric_config=conf, metrics_panels={}, metrics_pipes={p.sim.name: {t: Pipe() for t in conf} for p in sims})
    rho, step = h.array('rho', shape, kind='f'), h.real('step', lo=0.05, hi=0.5)
    r = m.opt_run([p.problem for p in ps], rho, n, step_size=step, metric_interval=iv, viz=viz)
    iters = list(range(n))
    P = trajectory(h, ps, ad, rho, iters, step)
    records(h, r, ps, P, iters, iv, 0, 0)
    h.ensure(len(viz.costs_pipe.sent) == n, 'costs_shown')
    for j, s in enumerate(viz.costs_pipe.sent): same(h, s, [mean(h, ps, P[q]) for q in range(j + 1)], 'costs_shown')
    its = [j for j in iters if iv and j % iv == 0]
    for p in sims:
        for t, ms in conf.items():
            sent = viz.metrics_pipes[p.sim.name][t].sent
            h.ensure(len(sent) == (len(its) if p.kind == 'metrics' else 0), 'metrics_shown')
            for q, s in enumerate(sent):
                ds = [p.metrics(p.sim.decorate(*p.output(P[j]))[0]) for j in its[:q + 1]]
                same(h, s.values, [[d[x] for d in ds] for x in ms], 'metrics_shown')
    bad = m.OptViz(cost_dmap=None, simulations_panels={}, costs_pipe=Pipe(), simulations_pipes={})
    h.raises(lambda: m.opt_run([p.problem for p in ps], rho, n, viz=bad), ValueError, 'a_visualizer_of_other_problems_is_rejected')
