"""Checks one property: generates the obligations from the current source of /repo, discharges them, replays
refutations on the real code and writes the evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

import numpy as np

from . import explore, solve, shim
from . import terms as T
from .kit import RunKit, SymKit, Skip, Failure
from .terms import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
MARGIN = 1e-6


# ------------------------------------------------------------------ real run
def run_real(mod, cfg, env=None, seed=0, trace=None, tol=1.):
    """Evaluate the contract on the real code.  Returns (kit, status) with status ok / fail / skip"""
    K = RunKit(env, seed, tol=getattr(mod, 'TOL', 1.) * tol)
    K.cfg = cfg
    np.random.seed(seed % (2**31))
    old = None
    if trace is not None:
        def prof(frame, event, arg):
            if event == 'call':
                c = frame.f_code
                if '/moirae/' in c.co_filename:
                    trace.add(c.co_filename.split('/moirae/', 1)[1] + ':' + c.co_qualname)
        sys.setprofile(prof)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            mod.contract(K, cfg)
    except Skip:
        return K, 'skip'
    except Exception as e:      # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:]]
        K.failures.append(Failure('no exception', f'{type(e).__name__}: {e} at {" < ".join(reversed(where))}'))
        K.exc = e
    finally:
        if trace is not None:
            sys.setprofile(old)
    return K, ('fail' if K.failures else 'ok')


# ------------------------------------------------------------------ counterexample search
def _interp(tag, *v):
    from scipy.interpolate import interp1d
    n = (len(v) - 1) // 2
    kind, fill = tag.split('/')[:2]
    return float(interp1d(v[:n], v[n:2 * n], kind=kind, bounds_error=False,
                          fill_value='extrapolate')(v[-1]))


FUNS = {'interp': _interp}


def box_conds(decl, scale=1.):
    out = []
    for n, d in decl.items():
        v = T.var(n)
        lo, hi = d['box'] if d['box'] else (0.1 if d['pos'] else -3., 3.)
        if d['lo'] is not None:
            lo = max(lo, d['lo'])
        if d['hi'] is not None:
            hi = min(hi, d['hi'])
        mid, half = (lo + hi) / 2, (hi - lo) / 2 * scale
        lo2 = mid - half if not (d['pos'] or d['nonneg']) else lo / scale
        out += [v >= lo2, v <= mid + half]
    return out


def wide_conds(decl):
    """at most 16 in size, whatever is usual for the quantity (what the contract assumes is in the path condition)"""
    out = []
    for n, d in decl.items():
        v, top = T.var(n), max([16.] + [abs(x) for x in d['box'] or ()])
        out += [v >= -top, v <= top]
    return out


def models(conds, decl, extra=()):
    """candidate environments satisfying conds, most moderate first"""
    for scale in (1., 30.):
        for ex in list(extra) + [[]]:
            r = solve.check(conds + box_conds(decl, scale) + ex, 3000, want_model=True)
            if r[0] == 'sat' and r[1] is not None:
                yield r[1]
    r = solve.check(conds, 3000, want_model=True)
    if r[0] == 'sat' and r[1] is not None:
        yield r[1]


def num_ok(pc, env):
    try:
        return all(T.evaluate(c, env, FUNS) for c in pc)
    except Exception:    # noqa: BLE001
        return False


def search(mod, cfg, pc, neg, diff, decl, rng_seed, names, budget_s=25.):
    """Look for an input on which the real code fails.  Returns ('replay', env, K) / ('terms', env, why) / None"""
    t_end = time.time() + budget_s
    seen_terms = None
    extra = []
    if diff is not None:
        try:
            extra = [[T.or_(diff >= 1e-2, diff <= -1e-2)], [T.or_(diff >= 1e-4, diff <= -1e-4)]]
        except Unsupported:
            pass
    tried = 0

    def attempt(env, seed):
        nonlocal tried, seen_terms
        tried += 1
        K, st = run_real(mod, cfg, env, seed)
        # values made up by a solver can be ill conditioned: the deviation must be far beyond rounding
        if st == 'fail' and (not env or run_real(mod, cfg, env, seed, tol=1000.)[1] == 'fail'):
            full = dict(K.used)
            # a failure must not be a rounding artefact of extreme inputs
            if all(abs(v) < 1e9 for v in full.values()):
                return ('replay', full, K, seed)
        if diff is not None and st != 'skip' and seen_terms is None:
            full = {n: K.used.get(n, env.get(n, 0.)) for n in decl}
            try:
                a, b = diff_parts
                va, vb = T.evaluate(a, full, FUNS), T.evaluate(b, full, FUNS)
                if num_ok(pc, full) and abs(va - vb) > MARGIN * (1 + abs(va) + abs(vb)):
                    seen_terms = (full, f'code gives {va!r}, contract requires {vb!r}')
            except Exception:   # noqa: BLE001
                pass
        return None

    diff_parts = names.get('parts') or (diff, T.ZERO)
    solve_conds = [c for c in pc] + ([neg] if neg is not None else [])
    relevant = {a.args[0] for c in solve_conds for a in T.atoms_of(c).values() if a.kind == 'var'}
    k = 0
    for m in models(solve_conds, decl, extra):
        for j in range(4):
            # keep the model on the variables of the query, vary the others
            env = {n: v for n, v in m.items() if j == 0 or n in relevant}
            r = attempt(env, rng_seed + j)
            if r:
                return r
        k += 1
        if time.time() > t_end:
            break
    for j in range(400):
        if time.time() > t_end:
            break
        r = attempt({}, rng_seed + 100 + j)
        if r:
            return r
    if seen_terms:
        return ('terms', seen_terms[0], seen_terms[1], None)
    return None


# ------------------------------------------------------------------ one configuration
def label(cfg):
    return ','.join(f'{k}={v}' for k, v in cfg.items() if not k.startswith('_'))


def job(args):
    modname, cfg, idx, tier = args
    mod = importlib.import_module(modname)
    t0 = time.time()
    out = dict(cfg=cfg, obligations=0, discharged={}, undischarged=[], unproved=[], violations=[], paths=0, unsupported=None,
               runs=0, run_checks=0, functions=[], side=[], side_ok=0, skip=0, samples=[], known={})
    budget = cfg.get('_budget', getattr(mod, 'BUDGET', 60.)) * (4 if tier == 'thorough' else 1)
    shim.INTERP_EXACT = cfg.get('_interp', getattr(mod, 'INTERP', 'uf')) == 'exact'
    for k in solve.STATS:
        solve.STATS[k] = 0
    try:
        if not cfg.get('_concrete'):
            symbolic(mod, cfg, out, t0 + budget, idx)
    except explore.Budget as e:
        out['unsupported'] = f'budget: {e}'
    except Unsupported as e:
        out['unsupported'] = f'unsupported: {e}'
    except Exception as e:     # noqa: BLE001 - an engine failure is not a verdict
        out['unsupported'] = f'engine: {type(e).__name__}: {e} ' + ' < '.join(
            f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))
    out['t_sym'] = time.time() - t0
    if not out['violations']:
        concrete(mod, cfg, out, idx, tier)
    out['stats'] = dict(solve.STATS)
    out['wall'] = time.time() - t0
    return out


def concrete(mod, cfg, out, idx, tier):
    n = cfg.get('_runs', getattr(mod, 'RUNS', 6)) * (10 if tier == 'thorough' else 1)
    fns = set()
    t_end = time.time() + (20 if tier == 'quick' else 120)
    for j in range(n):
        if time.time() > t_end and j >= 2:
            break
        seed = SEED * 1000003 + idx * 1009 + j
        K, st = run_real(mod, cfg, None, seed, fns if j == 0 else None)
        if st == 'skip':
            out['skip'] += 1
            continue
        out['runs'] += 1
        for cls, name in K.found.items():
            out['known'].setdefault(cls, violation(cfg, Failure(name, 'does not hold'), K.used, seed, 'contract evaluated on the real code', True))
        out['run_checks'] += K.checked
        if st == 'fail':
            # confirm that it reproduces
            K2, st2 = run_real(mod, cfg, dict(K.used), seed)
            if st2 == 'fail':
                out['violations'].append(violation(cfg, K2.failures[0], K.used, seed, 'contract evaluated on the real code', True))
                break
    out['functions'] = sorted(fns)


def violation(cfg, fail, env, seed, how, replayed, extra=None):
    return dict(cfg=cfg, obligation=fail.name, detail=fail.detail, env={k: float(v) for k, v in (env or {}).items()},
                seed=seed, how=how, replayed=replayed, extra=extra, cls=getattr(fail, 'cls', None))


def goal_text(kind, payload):
    if kind == 'eq':
        return f'{T.show(payload[0], 1400)}  ==  {T.show(payload[1], 1400)}'
    return str(payload)


def symbolic(mod, cfg, out, deadline, idx):
    kits = []

    def fn():
        K = SymKit(cfg)
        K.cfg = cfg
        kits.append(K)
        shim.eigen_registry.clear()
        mod.contract(K, cfg)

    bad = []
    with shim.patched():
        paths = []
        for c, exc in explore.explore(fn, cfg.get('_paths', 600), deadline):
            K = kits[-1]
            if isinstance(exc, Unsupported):
                raise exc
            paths.append((c, exc, K))
    for c, exc, K in paths:
        out['paths'] += 1
        if exc is not None:
            bad.append(('exception', c.pc, None, None, K, exc, 'no exception'))
            continue
        for name, kind, payload, npc in K.goals:
            pc = c.pc[:npc]
            out['obligations'] += 1
            if time.time() > deadline:
                out['undischarged'].append((name, 'time budget'))
                continue
            if kind == 'const':
                ok, detail = payload
                if ok:
                    out['discharged']['evaluation'] = out['discharged'].get('evaluation', 0) + 1
                else:
                    bad.append(('const', pc, None, None, K, detail, name))
                continue
            if kind == 'eq':
                a, b = payload
                solve.BOX = lambda: wide_conds(K.decl)    # noqa: B023
                r = solve.prove_zero(a - b, pc)
            else:
                r = solve.prove_bool(payload, pc)
            if r.ok:
                out['discharged'][r.backend] = out['discharged'].get(r.backend, 0) + 1
                if len(out['samples']) < 2 and kind == 'eq' and r.backend != 'evaluation' and not a.is_const():
                    out['samples'].append(f'{name}: {T.show(a, 120)}  ==  {T.show(b, 120)}  under {len(pc)} conditions [{r.backend}]')
            else:
                bad.append((kind, r.pc or pc, payload, r, K, None, name))
        # definedness of the divisions of this path
        for p in c.divs.values():
            if p.is_const():
                continue
            r = solve.check(c.pc + [T.cmp_('=', p)], 1500)
            if r == 'unsat':
                out['side_ok'] += 1
            else:
                out['side'].append((p, c.pc, K))
    if not out['paths'] or not out['obligations']:
        if not bad:
            out['unsupported'] = out['unsupported'] or 'vacuous: no obligation was generated'
    # judge what did not go through
    groups = {}
    for b in bad:
        groups.setdefault((b[0], b[6].split('[')[0]), []).append(b)
    t_stop = time.time() + 100
    for key, items in groups.items():
        done = False
        for kind, pc, payload, r, K, exc, name in items[:1 if key[0] == 'exception' else 4]:
            if time.time() > t_stop:
                break
            diff = neg = None
            parts = {}
            if kind == 'eq':
                a, b = payload
                diff = r.diff if r.diff is not None else a - b
                neg = T.not_(T.cmp_('=', diff))
                parts = {'parts': (a, b)}
            elif kind == 'bool':
                neg = T.not_(payload)
            res = search(mod, cfg, pc, neg, diff, K.decl, SEED * 7919 + idx, parts, 8. if out['violations'] or kind == 'exception' else 25.)
            if res and res[0] == 'replay':
                _, env, K2, seed = res
                out['violations'].append(violation(cfg, K2.failures[0], env, seed,
                                                   f'obligation "{name}" refuted, counterexample replayed on the real code', True))
                done = True
                break
            if res and res[0] == 'terms':
                out['violations'].append(violation(cfg, Failure(name, res[2]), res[1], 0,
                                                   'obligation refuted at the level of terms; replay did not reproduce it', False))
                done = True
                break
        if not done:
            for kind, pc, payload, r, K, exc, name in items:
                if kind == 'exception':
                    out['unsupported'] = out['unsupported'] or (
                        f'symbolic run raised {type(exc).__name__}: {str(exc)[:200]} ' + ' < '.join(
                            f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(traceback.extract_tb(exc.__traceback__)[-4:])))
                else:
                    why = (r.why if r else str(exc)) or ''
                    out['undischarged'].append((name, why))
                    if why != 'wall clock':
                        out['unproved'].append(violation(cfg, Failure(name, f'not proved ({why})'), None, SEED, 'obligation not discharged', False, dict(
                            answer=str(why), goal=goal_text(kind, payload)[:3000], path_condition=[str(c)[:500] for c in pc][:40])))
    side = []
    seen = set()
    for p, pc, K in out['side']:
        if p.key in seen:
            continue
        seen.add(p.key)
        if not out['violations'] and time.time() < t_stop:
            for m in models(pc + [T.cmp_('=', p)], K.decl):
                K2, st = run_real(mod, cfg, m, SEED)
                if st == 'fail' and all(abs(v) < 1e9 for v in K2.used.values()):
                    out['violations'].append(violation(cfg, K2.failures[0], K2.used, SEED,
                                                       f'division by a quantity that can be zero: {T.show(p, 150)}', True))
                break
        side.append(T.show(p, 150))
    out['side'] = side


# ------------------------------------------------------------------ property
def main(pid, argv):
    t0 = time.time()
    mod = importlib.import_module(f'props.{pid.lower()}')
    if argv and argv[0] == '--replay':
        rep = json.load(open(argv[1]))
        K, st = run_real(mod, rep['cfg'], rep['env'], rep['seed'])
        for f in K.failures:
            print(f'{f.name}: {f.detail}')
        for c, name in K.found.items():
            print(f'{name}: does not hold ({c})')
        print(st)
        return 1 if st == 'fail' or rep['obligation'] in K.found.values() else 0
    tier = TIER
    cfgs = mod.configs(tier)
    jobs = [(mod.__name__, c, i, tier) for i, c in enumerate(cfgs)]
    nproc = min(8, os.cpu_count() or 1, len(jobs))
    results = []
    if nproc > 1 and not os.environ.get('VC_SERIAL'):
        # the verdict does not change once a failing input is found: what is still running gets a little more time
        limit, after = (600, 40) if tier == 'quick' else (3000, 300)
        ctx = mp.get_context('fork')
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            pend = {i: pool.apply_async(job, (j,)) for i, j in enumerate(jobs)}
            got, found = {}, None
            while pend:
                for i in [i for i, p in pend.items() if p.ready()]:
                    got[i] = pend.pop(i).get()
                    if found is None and any(v['replayed'] for v in got[i]['violations']):
                        found = time.time()
                if time.time() - t0 > limit or found is not None and time.time() - found > after:
                    break
                time.sleep(.02)
            pool.terminate()
        for i, j in enumerate(jobs):
            results.append(got.get(i) or dict(cfg=j[1], unsupported='time limit' if found is None else 'not run: a failing input was found', obligations=0,
                                              discharged={}, undischarged=[], unproved=[], violations=[], paths=0, runs=0, run_checks=0, functions=[],
                                              side=[], side_ok=0, skip=0, stats={}, samples=[], wall=0, t_sym=0))
    else:
        for j in jobs:
            results.append(job(j))
            if os.environ.get('VC_SERIAL') == 'stop' and results[-1]['violations']:
                break
    return report(pid, mod, results, tier, t0)


def load_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p) if os.path.exists(p) else ():
        line = line.strip()
        if line.startswith('finding:'):
            out.append(dict(x.split('=', 1) for x in line[len('finding:'):].split('#')[0].split()))
    return out


def report(pid, mod, results, tier, t0):
    import platform
    viol, known = [], {}
    findings = [f for f in load_findings() if f.get('property') == pid]
    for r in results:
        for v in r['violations']:
            viol.append(v)
    if not viol:
        viol += [v for r in results for v in r['unproved']]
    for r in results:
        for k, v in r.get('known', {}).items():
            if any(f.get('class') == k for f in findings):
                known.setdefault(k, v)
            else:
                viol.append(v)
    by = {}
    for r in results:
        for k, n in r['discharged'].items():
            by[k] = by.get(k, 0) + n
    ob = sum(r['obligations'] for r in results)
    dis = sum(by.values())
    fns = sorted({f for r in results for f in r['functions']})
    stats = {}
    for r in results:
        for k, n in r.get('stats', {}).items():
            stats[k] = round(stats.get(k, 0) + n, 3)
    und = [dict(config=label(r['cfg']), obligation=n, why=str(w)[:200]) for r in results for n, w in r['undischarged']]
    uns = [dict(config=label(r['cfg']), reason=r['unsupported']) for r in results if r['unsupported']]
    bounded = [label(r['cfg']) for r in results if r['cfg'].get('_concrete')]
    full = not und and not uns and ob == dis and not viol
    level = getattr(mod, 'LEVEL', 'other')
    cov = dict(
        explanation=getattr(mod, 'EXPLANATION', '') or mod.__doc__ or '',
        obligations=ob, discharged=dis,
        checker_cmd=f'/verif/check.sh {pid}',
        trusted_base=TRUST + list(getattr(mod, 'TRUST', [])),
        discharged_by_backend=by,
        paths=sum(r['paths'] for r in results),
        configurations=len(results),
        configuration_samples=[label(r['cfg']) for r in results][:12],
        definedness_conditions_proved=sum(r['side_ok'] for r in results),
        definedness_conditions_assumed=sorted({s for r in results for s in r['side']})[:20],
        undischarged=und[:30], undischarged_count=len(und),
        outside_reach=uns[:30], outside_reach_count=len(uns),
        bounded_only_configurations=bounded[:30], bounded_only_count=len(bounded),
        functions_under_contract=fns,
        solver=stats,
        samples=[s for r in results for s in r['samples']][:6],
        evaluations=sum(r['runs'] for r in results),
        contract_evaluations_on_real_code=sum(r['run_checks'] for r in results),
        rejected_by_precondition=sum(r['skip'] for r in results),
        all_obligations_discharged=full,
        slowest=sorted([(round(r['wall'], 2), label(r['cfg'])) for r in results], reverse=True)[:3],
        python=platform.python_version(),
    )
    if level != 'proof' or not full:
        if level == 'proof':
            level = 'other'
            cov['explanation'] = 'NOT ALL OBLIGATIONS DISCHARGED on this tree. ' + cov['explanation']
    ev = dict(property=pid, tier=tier, seed=SEED, level=level, coverage=cov,
              assumptions=TRUST + list(getattr(mod, 'TRUST', [])),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {ob} obligations, {dis} discharged {by}; {len(und)} undischarged; {len(uns)} configurations out of reach;'
          f' {cov["evaluations"]} runs of the real code; {ev["wall_s"]} s')
    for u in und[:8]:
        print('  undischarged:', u)
    for u in uns[:8]:
        print('  out of reach:', u)
    for f in findings:
        if f['class'] in known:
            print(f'KNOWN-FINDING: property={pid} {f["class"]} {f.get("what", "").replace("_", " ")}')
    if ob == 0 and not cov['evaluations'] and not viol:
        print(f'{pid}: nothing was checked')
        return 2
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        viol.sort(key=lambda v: not v['replayed'])
        v = viol[0]
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:8]
        path = os.path.join(VERIF, 'replays', f'{pid}-{h}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, replay_cmd=f'/verif/check.sh {pid} --replay {path}', **v,
                           others=[(x['obligation'], label(x['cfg'])) for x in viol[1:20]]), f, indent=1, default=str)
        print(f'  config {label(v["cfg"])}: obligation "{v["obligation"]}": {v["detail"]}  ({v["how"]})')
        tail = '' if v['replayed'] else ' no-failing-input-found'
        print(f'VIOLATION property={pid} replay={path}{tail}')
        return 1
    return 0


TRUST = [
    'machine floating point is treated as exact real arithmetic in the proofs (the real code is also evaluated in floats on every run)',
    'numpy object-array indexing, broadcasting, views, reshaping, concatenation and reductions behave as for floats',
    'CPython, pydantic and the term normaliser /verif/vc/terms.py; z3 and cvc5 where named as back end',
]
