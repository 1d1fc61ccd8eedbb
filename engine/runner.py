"""Runs one property: symbolic obligations (deciding step) + concrete residual/replay; writes evidence."""
import importlib, json, os, re, sys, time, traceback, random, hashlib, tempfile, atexit, shutil, subprocess
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIMPHOX_REPO', '/repo')
REG = {}


class Spec:
    def __init__(self, prop, name, fn, trials, sym, bounded, why, functions, tol, budget, cbudget, thorough, internal):
        self.internal = internal
        self.prop, self.name, self.fn, self.trials = prop, name, fn, trials
        self.sym, self.bounded, self.why, self.functions = sym, bounded, why, functions
        self.tol, self.budget, self.cbudget, self.thorough = tol, budget, cbudget, thorough


def spec(prop, name=None, trials=30, sym=True, bounded='', why='', functions=(), tol=1e-7, budget=100, cbudget=12, thorough=None, internal=False):
    """internal: the contract speaks of the fields of the present implementation (a data structure invariant). Where it fails the
    implementation may just have other fields, so it decides nothing, and the contracts over observable behaviour judge."""
    def deco(fn):
        s = Spec(prop, name or fn.__name__, fn, trials, sym, bounded, why, list(functions), tol, budget, cbudget, thorough, internal)
        REG.setdefault(prop, {})[s.name] = s
        return fn
    return deco


def load_specs(prop):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    importlib.import_module(f'specs.{prop.lower()}')
    return REG[prop]


def setup_env():
    for k in ('MKL_NUM_THREADS', 'OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'): os.environ[k] = '1'
    os.environ['JAX_PLATFORMS'] = 'cpu'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings('ignore')


# ---------------------------------------------------------------------------------------------- symbolic job
def job_sym(prop, name):
    setup_env()
    sys.setrecursionlimit(20000)
    t0 = time.time()
    s = load_specs(prop)[name]
    from . import core, importer
    from .harness import SymH, CheckFail, Skip
    from .terms import Unsupported
    ctx = core.Ctx()
    core.set_ctx(ctx)
    ctx.deadline = time.time() + s.budget
    res, crash, reached = [], [], [0]
    out = dict(name=name, kind='sym', obligations=0, proved=0, refuted=[], undecided=[], crash=[], paths=0, notes=[], z3_calls=0, z3_time=0.0, files=[])
    try:
        imp = importer.Importer(REPO)

        def spare(h):
            """the code no longer uses a helper whose contract was assumed: nothing is refuted here"""
            un = h.unused()
            if un: h.results[:] = [(a, 'undecided', f'{un[0]} is not used; ' + c) if b == 'refuted' else (a, b, c) for a, b, c in h.results]

        def one():
            h = SymH(imp, ctx)
            ctx.nfresh = 0
            try:
                s.fn(h)
                reached[0] += 1
                spare(h)
            except (Unsupported, core.PathEnd, Skip):
                spare(h)
                res.extend(h.results)
                raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-4:]
                spare(h)
                crash.append(f'{type(e).__name__}: {e} at {loc} under {[str(c) for c in ctx.path[-6:]]}')
                res.extend(h.results)
                return
            finally:
                h.restore()
            res.extend(h.results)
        if s.fn.__dict__.get('setup'): s.fn.setup(imp)
        ctx.explore(one, maxpaths=3000)
        out['files'] = sorted(set(os.path.relpath(f, REPO) for f in imp.files))
    except Unsupported as e:
        out['undecided'].append(('engine', str(e)[:400]))
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    except RecursionError as e:
        out['undecided'].append(('engine', 'recursion'))
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    except Exception as e:
        out['undecided'].append(('engine', f'{type(e).__name__}: {e}'))
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    for nm, st, det in res:
        out['obligations'] += 1
        if st == 'proved': out['proved'] += 1
        elif st == 'refuted': out['refuted'].append((nm, det[:1500]))
        else: out['undecided'].append((nm, det[:600]))
    out['crash'] = [c[:800] for c in crash[:10]]
    if s.internal:
        out['undecided'] += [(a, 'invariant: ' + b[:600]) for a, b in out['refuted']] + [('invariant', c) for c in out['crash']]
        out['refuted'], out['crash'] = [], []
    names = {}
    for nm, st, det in res: names[nm] = names.get(nm, 0) + 1
    out['names'] = names
    out['reached'] = reached[0]
    out['paths'] = ctx.stats['paths']
    out['z3_calls'], out['z3_time'] = ctx.stats['z3_calls'], round(ctx.stats['z3_time'], 2)
    out['notes'] = sorted(ctx.notes)
    out['wall'] = round(time.time() - t0, 2)
    return out


# ---------------------------------------------------------------------------------------------- concrete job
def _setup_real():
    setup_env()
    if sys.path[0] != REPO: sys.path.insert(0, REPO)


def _foreign_internals(e, tb):
    """the contract itself refers to an internal name or signature which this code does not have"""
    m = str(e)
    here = tb and os.path.dirname(os.path.abspath(tb[-1].filename)) == os.path.join(VERIF, 'specs')
    if not here: return False
    if isinstance(e, AttributeError): return bool(re.search(r"has no attribute '_[a-z]", m))
    if isinstance(e, TypeError): return bool(re.search(r"(^|\.)_[a-z]\w*\(\) (got|missing|takes)", m))
    return False


def run_concrete(s, seed, pins=None):
    from .harness import ConH, CheckFail, Skip
    import numpy as np
    np.random.seed(seed % (2 ** 31))
    h = ConH(seed, tol=s.tol, pins=pins)
    try:
        s.fn(h)
        return ('pass', '', h)
    except Skip:
        return ('skip', '', h)
    except CheckFail as e:
        if h.unused(): return ('skip', '', h)
        return ('fail', str(e), h)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if h.unused() or _foreign_internals(e, tb): return ('skip', '', h)
        loc = [f'{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else os.path.basename(f.filename)}:{f.lineno}' for f in tb][-5:]
        return ('fail', f'raised {type(e).__name__}: {str(e)[:300]} at {loc}', h)
    finally:
        h.restore()


def job_con(prop, name, base, trials, budget, pins=None, marks=None):
    """marks: a directory in which the run in progress is noted, for the case that it takes its process down or never returns"""
    _setup_real()
    t0 = time.time()
    mark = os.path.join(marks, name) if marks else None
    out = _job_con(prop, name, base, trials, budget, pins, mark, t0)
    if mark and os.path.exists(mark): os.unlink(mark)
    return out


def _job_con(prop, name, base, trials, budget, pins, mark, t0):
    s = load_specs(prop)[name]
    out = dict(name=name, kind='con', runs=0, skips=0, checks=0, fails=[], sample=None)
    seen = set()
    for k in range(trials * 5):
        if out['runs'] >= trials: break
        if out['runs'] >= 2 and time.time() - t0 > budget: break
        seed = (base * 1000003 + k * 7919 + int(hashlib.md5(name.encode()).hexdigest()[:6], 16)) % (2 ** 31 - 1)
        if mark:
            with open(mark + '.tmp', 'w') as f: json.dump(dict(seed=seed, pins=pins, start=time.time(), spent=time.time() - t0, runs=k), f)
            os.replace(mark + '.tmp', mark)
        st, msg, h = run_concrete(s, seed, pins)
        if st == 'skip':
            out['skips'] += 1
            continue
        out['runs'] += 1
        out['checks'] += len(h.results)
        seen.add(json.dumps(h.log, default=str, sort_keys=True))
        if out['sample'] is None: out['sample'] = {k2: str(v)[:80] for k2, v in list(h.log.items())[:14]}
        if st == 'fail':
            out['fails'].append(dict(seed=seed, msg=msg[:800], args={k2: str(v)[:200] for k2, v in h.log.items()}, pins=pins))
            if len(out['fails']) >= 3: break
    out['distinct'] = len(seen)
    out['wall'] = round(time.time() - t0, 2)
    return out


def _die_with_parent():
    try:
        import ctypes, signal
        ctypes.CDLL('libc.so.6').prctl(1, signal.SIGKILL)
    except Exception:
        pass


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c['property'] == prop: return c['level']
    except Exception:
        pass
    return 'proof'


def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d['property'] == prop and d.get('status') == 'known': out.append(d)
    return out


def replay(prop, path):
    d = json.load(open(path))
    _setup_real()
    s = load_specs(prop)[d['spec']]
    st, msg, h = run_concrete(s, d['seed'], d.get('pins'))
    print(st, msg)
    for k, v in h.log.items(): print(' ', k, '=', v)
    return 1 if st == 'fail' else 0


STUCK, AGAIN = 120, 60      # seconds: a single run of a contract that usually takes well below one


def _mark(marks, n):
    try:
        return json.load(open(os.path.join(marks, n)))
    except Exception:
        return None


def _alone(prop, n, m, marks):
    """repeat one run in a process of its own; the message if it dies or never returns there too"""
    path = os.path.join(marks, 'again_' + n)
    json.dump(dict(spec=n, seed=m['seed'], pins=m['pins']), open(path, 'w'))
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), prop, '--replay', path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=AGAIN)
    except subprocess.TimeoutExpired:
        return f'the code under contract does not return (twice: {STUCK} s and {AGAIN} s)'
    if p.returncode < 0: return f'the code under contract takes its process down (signal {-p.returncode})'
    return None


def _failed(m, msg):
    return dict(kind='con', runs=m['runs'] + 1, skips=0, checks=0, sample=None, distinct=m['runs'] + 1, wall=0,
                fails=[dict(seed=m['seed'], pins=m['pins'], msg=msg, args={})])


def main(prop, tier='quick', only=None):
    setup_env()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    limit = float(os.environ.get('VERIF_LIMIT', '600' if tier == 'quick' else '3000'))
    specs = load_specs(prop)
    if only: specs = {k: v for k, v in specs.items() if only in k}
    ctxm = mp.get_context('spawn')
    marks = tempfile.mkdtemp(prefix='verif_')
    atexit.register(shutil.rmtree, marks, ignore_errors=True)
    sym, con, errors = {}, {}, []
    names = sorted(specs, key=lambda n: -specs[n].budget)
    ncpu = min(8, os.cpu_count() or 4)
    con_pool = ProcessPoolExecutor(max(2, min(ncpu // 2, len(specs))), mp_context=ctxm, initializer=_die_with_parent)
    sym_pool = ProcessPoolExecutor(max(1, min(ncpu // 2 + 1, len(specs))), mp_context=ctxm, initializer=_die_with_parent)
    mult = 1 if tier == 'quick' else 12
    futs = {}
    for n in names:
        s = specs[n]
        if s.sym: futs[sym_pool.submit(job_sym, prop, n)] = ('sym', n)
        futs[con_pool.submit(job_con, prop, n, seed, s.trials * mult, s.cbudget * mult, None, marks)] = ('con', n)
    knowns = known(prop)

    def is_known(n, msg):
        for d in knowns:
            if d['spec'] == n and d['match'] in msg: return d
        return None
    pending, end = set(futs), t0 + limit
    broken, again, rebuilt, tried = [], [], {}, set()
    pools = [con_pool, sym_pool]
    while pending and time.time() < end:
        done_, pending = wait(pending, timeout=max(0.1, min(end - time.time(), 5)), return_when=FIRST_COMPLETED)
        for f in done_:
            k, n = futs[f]
            try:
                r = f.result()
                (sym if k == 'sym' else con)[n] = r
            except BrokenProcessPool:
                broken.append((k, n))
            except Exception as e:
                errors.append(f'{k} {n}: {type(e).__name__} {e}')
        for f in list(pending):      # a run that does not return
            k, n = futs[f]
            m = _mark(marks, n) if k == 'con' else None
            if m and time.time() - m['start'] > STUCK and (n, m['seed']) not in tried and m['spent'] < STUCK / 10 * max(1, m['runs']):
                tried.add((n, m['seed']))
                msg = _alone(prop, n, m, marks)
                if msg:
                    con[n] = _failed(m, msg)
                    pending.discard(f)
        if broken:      # a run that took its process down with it, and the pool with the process
            for k, n in broken:
                m = _mark(marks, n) if k == 'con' else None
                msg = m and _alone(prop, n, m, marks)
                if msg: con[n] = _failed(m, msg)
                else: again.append((k, n))
            broken.clear()
            for q, jobs in (('con', [n for k, n in again if k == 'con']), ('sym', [n for k, n in again if k == 'sym'])):
                if not jobs: continue
                if rebuilt.get(q): errors += [f'{q} {n}: lost its process' for n in jobs]
                else:
                    rebuilt[q] = 1
                    pool = ProcessPoolExecutor(max(2, ncpu // 2), mp_context=ctxm, initializer=_die_with_parent)
                    pools.append(pool)
                    if q == 'con': con_pool = pool
                    else: sym_pool = pool
                    for n in jobs:
                        f = pool.submit(job_con, prop, n, seed, specs[n].trials * mult, specs[n].cbudget * mult, None, marks) if q == 'con' else pool.submit(job_sym, prop, n)
                        futs[f] = (q, n)
                        pending.add(f)
            again.clear()
        # a replayed violation decides the check: the obligations still open get a short while, not their whole budget
        if tier == 'quick' and any(not is_known(n, x['msg']) for n, c in con.items() for x in c['fails']):
            end = min(end, max(time.time() + 2, t0 + max(60, 1.5 * (time.time() - t0) + 20)))
            if not any(futs[f][0] == 'con' for f in pending): end = min(end, time.time() + 40)
    if pending: errors.append('time limit of the check, left open: ' + ', '.join(sorted(f'{futs[f][0]} {futs[f][1]}' for f in pending)))
    # ---- counterexample search for refuted obligations not confirmed concretely
    viol, unrep, kn = [], [], []
    extra = {}
    for n, r in sym.items():
        bad = r['refuted'] or r['crash']
        if bad and not (n in con and con[n]['fails']):
            try:
                extra[n] = con_pool.submit(job_con, prop, n, seed + 77, specs[n].trials * 10, 60)
            except Exception as e:
                errors.append(f'replay {n}: {e}')
    until = time.time() + 150
    for n, f in extra.items():
        try:
            r2 = f.result(timeout=max(5, until - time.time()))
            if n in con:
                con[n]['runs'] += r2['runs']; con[n]['fails'] += r2['fails']
        except Exception as e:
            errors.append(f'replay {n}: {type(e).__name__} {e}')
    for p in pools:
        procs = list((p._processes or {}).values())
        p.shutdown(wait=False, cancel_futures=True)
        for q in procs:
            try: q.kill()
            except Exception: pass
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for fn_ in os.listdir(rdir):
        if fn_.startswith(prop + '_'): os.unlink(os.path.join(rdir, fn_))
    for n in names:
        fails = con.get(n, {}).get('fails', [])
        unk = []
        for f in fails:
            d = is_known(n, f['msg'])
            if d: kn.append(d)
            else: unk.append(f)
        if unk:
            path = os.path.join(rdir, f'{prop}_{n}.json')
            json.dump(dict(property=prop, spec=n, seed=unk[0]['seed'], pins=unk[0].get('pins'), message=unk[0]['msg'], args=unk[0]['args'],
                           failed_obligations=sym.get(n, {}).get('refuted', [])[:5],
                           how=f'python3 /verif/check.py {prop} --replay {path}'), open(path, 'w'), indent=1)
            viol.append((n, path, unk[0]['msg'], ''))
        elif n in sym and sym[n]['refuted'] and not fails:
            r = sym[n]['refuted']
            if all(is_known(n, a + ' ' + b) for a, b in r):
                kn.extend(is_known(n, a + ' ' + b) for a, b in r)
                continue
            path = os.path.join(rdir, f'{prop}_{n}.json')
            json.dump(dict(property=prop, spec=n, failed_obligations=r[:10], verifier_output=sym[n],
                           note='obligation refuted by the verifier; no failing concrete input was found'), open(path, 'w'), indent=1)
            viol.append((n, path, f'{r[0][0]}: {r[0][1][:300]}', ' no-failing-input-found'))
    # ---- evidence
    within = {n: r for n, r in sym.items() if specs[n].bounded}   # discharged for all values, within a stated bound on a size
    tot = sum(r['obligations'] for n, r in sym.items() if n not in within)
    dis = sum(r['proved'] for n, r in sym.items() if n not in within)
    proved_specs = [n for n, r in sym.items() if n not in within and r['obligations'] and r['proved'] == r['obligations'] and not r['crash'] and not r['undecided']]
    bounded = [n for n in names if n not in proved_specs]
    ev = dict(property=prop, tier=tier, seed=seed, level=level_of(prop), wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(obligations=tot, discharged=dis,
                            checker_cmd=f'python3 /verif/check.py {prop}' + (' --thorough' if tier != 'quick' else ''),
                            trusted_base=TRUSTED,
                            obligations_within_bounds=sum(r['obligations'] for r in within.values()),
                            discharged_within_bounds=sum(r['proved'] for r in within.values()),
                            contracts_proved=proved_specs,
                            contracts_bounded=[dict(contract=n, why=(specs[n].bounded or specs[n].why or '; '.join(f'{a}: {b}' for a, b in (sym.get(n, {}).get('undecided') or [])[:2]) or '; '.join(sym.get(n, {}).get('crash', [])[:1])),
                                                    label='bounded (never counted as proved)') for n in bounded],
                            functions_under_contract=sorted(set(f for s in specs.values() for f in s.functions)),
                            per_contract={n: dict(obligations=sym[n]['obligations'], discharged=sym[n]['proved'], paths=sym[n]['paths'],
                                                  backends='polynomial normal form + z3', z3_calls=sym[n]['z3_calls'], z3_time_s=sym[n]['z3_time'], wall_s=sym[n]['wall']) for n in sym},
                            solver_time_s=round(sum(r['z3_time'] for r in sym.values()), 2),
                            evaluations=sum(r['runs'] for r in con.values()), distinct_nontrivial=sum(r['distinct'] for r in con.values()),
                            rule='concrete residual: contract arguments drawn from the seed; a case counts when its preconditions hold, and is distinct when its drawn arguments differ',
                            concrete_checks=sum(r['checks'] for r in con.values()),
                            samples=[dict(contract=n, args=con[n]['sample']) for n in list(con)[:3]]),
              assumptions=sorted(set(x for r in sym.values() for x in r['notes'])) + ASSUME)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if errors: ev['coverage']['errors'] = errors
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1)
    # ---- report
    for n in names:
        r, c = sym.get(n), con.get(n)
        print(f"[{prop}] {n}: " + (f"obligations {r['proved']}/{r['obligations']} paths {r['paths']} z3 {r['z3_calls']} {r['wall']}s" if r else 'no symbolic contract') +
              (f" | concrete runs {c['runs']} skips {c['skips']} fails {len(c['fails'])} {c['wall']}s" if c else ' | concrete MISSING'))
        if r and (os.environ.get('VERIF_VERBOSE') or r['undecided'] or r['refuted'] or r['crash']):
            for a, b in r['refuted'][:3]: print('     refuted', a, b[:400])
            for a, b in r['undecided'][:3]: print('     undecided', a, b[:400])
            for a in r['crash'][:2]: print('     crash', a[:400])
        if c and c['fails']: print('     concrete', c['fails'][0]['msg'][:400], c['fails'][0]['args'])
    for e in errors: print('  note:', e)
    done = {}
    for d in kn:
        if d['id'] not in done:
            done[d['id']] = 1
            print(f"KNOWN-FINDING: property={prop} {d['what']}")
    for n, path, msg, suf in viol:
        print(f'  contract {n}: {msg}')
    if viol:
        v = sorted(viol, key=lambda t: t[3] != '')[0]
        print(f'VIOLATION property={prop} replay={v[1]}{v[3]}')
        return 1
    missing = [n for n in names if n not in con or con[n]['runs'] == 0]
    open_ = [n for n in missing if n not in proved_specs]
    if open_:
        print('contracts without any decision:', open_, file=sys.stderr)
        if len(open_) == len(names): return 3
    if tot == 0 and any(s.sym for s in specs.values()) and not any(c['checks'] for c in con.values()):
        print('no obligations were generated', file=sys.stderr)
        return 3
    return 0


TRUSTED = ['engine/*.py: the verification-condition generator and polynomial normal form of /verif',
           'z3 (nonlinear integer/real arithmetic side conditions)',
           'symbolic semantics of the numpy/jax/scipy.sparse operations used (engine/symnp.py, engine/symsp.py), cross-checked by the concrete runs',
           'CPython semantics of the executed statements (the real source is executed, not translated)']
ASSUME = ['floating point arithmetic is treated as exact real/complex arithmetic (concrete residual uses tolerances)',
          'jax.jit is treated as identity; pydantic argument coercion and type annotations are dropped']
