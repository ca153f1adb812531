"""
Driver: runs the cases of a property in parallel, replays counterexamples on the real code, writes evidence.

A harness is a function h(c, *params), c being a symex context. The same function runs symbolically (SymCtx, marcel
instrumented) and concretely (ConcreteCtx, marcel exactly as in /repo): the latter is the replay of a counterexample.
"""
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.process
import importlib
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Case(object):
    def __init__(self, name, harness, params, reach=(), setup='api', **opts):
        self.name = name
        self.harness = harness
        self.params = params
        self.reach = reach        # labels that must be reached, otherwise the case is vacuous
        self.opts = opts


def case(name, harness, *params, **opts):
    return Case(name, harness, params, **opts)


class Property(object):
    def __init__(self, pid, cases, functions, bounds, assumptions, strings):
        self.pid = pid
        self.cases = cases
        self.functions = functions
        self.bounds = bounds
        self.assumptions = assumptions
        self.strings = strings    # Strings are symbolic


PROPERTIES = {}


def prop(pid, functions, bounds, assumptions=(), strings=False):
    def decorate(f):
        PROPERTIES[pid] = Property(pid, f, functions, bounds, list(assumptions), strings)
        return f
    return decorate


def load(pid):
    index = json.load(open(os.path.join(VERIF, 'harness', 'index.json')))
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    importlib.import_module(index[pid])
    return PROPERTIES[pid]


# -- Execution in a worker process

_worker_state = {}


def _init_worker(pid, tier):
    sys.dont_write_bytecode = True
    if not os.environ.get('VERIF_VERBOSE'):
        # The real code may print stack traces to the original stderr
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    p = load(pid)
    _worker_state['cases'] = p.cases(tier)
    _worker_state['pid'] = pid
    _worker_state['tier'] = tier
    import marceldrv
    marceldrv.start(True, p.strings)


def _replay_subprocess(pid, tier, name, values_list):
    """Replays values on the real code, in a process without any instrumentation. Returns list of messages/None."""
    request = json.dumps({'property': pid, 'tier': tier, 'case': name, 'values': values_list})
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'vrun.py'), 'replay-stdin'], input=request,
                       capture_output=True, text=True, timeout=600)
    for line in r.stdout.splitlines():
        if line.startswith('REPLAY-RESULT '):
            return json.loads(line[len('REPLAY-RESULT '):])
    raise Exception(f'replay process failed: {r.stdout[-1000:]} {r.stderr[-2000:]}')


def _run_case(i, deadline):
    import symex
    case = _worker_state['cases'][i]
    pid, tier = _worker_state['pid'], _worker_state['tier']
    t = time.time()

    def confirm(values):
        return _replay_subprocess(pid, tier, case.name, [values])[0]

    opts = dict(case.opts)
    limit = opts.pop('time', None)
    d = deadline
    if limit is not None:
        d = min(d, t + limit)
    out = symex.explore(case.harness, case.params, deadline=d, confirm=confirm, **opts)
    return {'case': case.name, 'status': out.status, 'message': out.message, 'values': out.values,
            'stats': out.stats, 'labels': sorted(out.labels), 'detail': out.detail, 'undecided': out.undecided[:5],
            'models': out.models[:8], 'wall': time.time() - t}


def replay_case(request):
    """In the replay process."""
    p = load(request['property'])
    cases = {c.name: c for c in p.cases(request['tier'])}
    case = cases[request['case']]
    import marceldrv
    import symex
    marceldrv.start(False)
    return [symex.replay(case.harness, case.params, values) for values in request['values']]


# -- Main

def known_findings(pid):
    findings = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                findings.append((m.group(2), m.group(3)))
    return findings


def check(pid, tier):
    t0 = time.time()
    p = load(pid)
    import marceldrv
    marceldrv.scratch_root()
    cases = p.cases(tier)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), sorted(n for n in names if names.count(n) > 1)
    only = os.environ.get('VERIF_CASE')
    limit = float(os.environ.get('VERIF_TIME', '240' if tier == 'quick' else '3000'))
    deadline = t0 + limit
    results = []
    errors = []
    ctx = multiprocessing.get_context('fork')
    indexes = [i for i in range(len(cases)) if only is None or re.fullmatch(only, cases[i].name)]
    todo, attempt = indexes, 0
    while todo:
        attempt += 1
        again = []
        with concurrent.futures.ProcessPoolExecutor(min(WORKERS, max(1, len(todo))), mp_context=ctx,
                                                    initializer=_init_worker, initargs=(pid, tier)) as pool:
            futures = {pool.submit(_run_case, i, deadline): i for i in todo}
            for f in concurrent.futures.as_completed(futures):
                i = futures[f]
                try:
                    r = f.result()
                    results.append((i, r))
                    if os.environ.get('VERIF_VERBOSE'):
                        s = r['stats']
                        print(f'{r["case"]}: {r["status"]} {r["message"] or ""} paths={s["paths"]} q={s["queries"]} '
                              f'und={s["undecided"]} {r["wall"]:.1f}s labels={r["labels"]}', flush=True)
                        for u in r['undecided']:
                            print('    undecided:', u)
                        if r['undecided'] or r['status'] == 'violated':
                            print(r['detail'])
                except concurrent.futures.CancelledError:
                    pass
                except concurrent.futures.process.BrokenProcessPool as e:
                    # A process died (e.g., out of memory): the others are not to blame.
                    if attempt < 3:
                        again.append(i)
                    else:
                        errors.append(f'{names[i]}: {type(e).__name__}: {e}')
                except BaseException as e:
                    errors.append(f'{names[i]}: {type(e).__name__}: {e}')
                if any(r['status'] == 'violated' for _, r in results):
                    for g in futures:
                        g.cancel()
        todo = again
    results.sort(key=lambda x: x[0])
    results = [r for _, r in results]
    # Differential validation: models of explored paths, run on the un-instrumented code, must agree.
    validated = 0
    samples = []
    violations = [r for r in results if r['status'] == 'violated']
    if not violations:
        def validate(r):
            return r, _replay_subprocess(pid, tier, r['case'], r['models'])
        todo = [r for r in results if r['models']]
        # One process per case; cases sampled evenly, to bound the time.
        n = 16 if tier == 'quick' else 64
        if len(todo) > n:
            step = len(todo) / n
            todo = [todo[int(k * step)] for k in range(n)]
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
            for f in [pool.submit(validate, r) for r in todo]:
                try:
                    r, messages = f.result()
                except BaseException as e:
                    errors.append(f'validation: {type(e).__name__}: {e}')
                    continue
                for values, message in zip(r['models'], messages):
                    if message is None:
                        validated += 1
                        if len(samples) < 6:
                            samples.append({'case': r['case'], 'inputs': values})
                    else:
                        v = dict(r)
                        v['values'], v['message'], v['status'] = values, message, 'violated'
                        violations.append(v)
                        break
    # Vacuity
    for r in results:
        if r['status'] == 'held' and r['stats']['undecided'] == 0:
            c = cases[names.index(r['case'])]
            missing = set(c.reach) - set(r['labels'])
            if missing:
                errors.append(f'{r["case"]}: vacuous: never reached {sorted(missing)}')
            if r['stats']['paths'] + r['stats']['undecided'] == 0:
                errors.append(f'{r["case"]}: vacuous: no path')
            if r['stats']['assertions'] == 0 and r['stats']['undecided'] == 0:
                errors.append(f'{r["case"]}: vacuous: no assertion')
    known = known_findings(pid)
    status = 0
    n_violations = 0
    for r in violations:
        match = [k for k in known if k[0] == r['case'] and k[1].split(' :: ')[0] in (r['message'] or '')]
        if match:
            print(f'KNOWN-FINDING: property={pid} {r["case"]}: {match[0][1]}')
            continue
        n_violations += 1
        path = os.path.join(VERIF, 'evidence', 'replay', f'{pid}-{r["case"]}.json'.replace('/', '_'))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'case': r['case'], 'values': [r['values']],
                       'message': r['message'], 'detail': r['detail']}, f, indent=1)
        print(f'{r["case"]}: {r["message"]}\n  inputs: {r["values"]}')
        print(f'VIOLATION property={pid} replay={path}')
        status = 1
    total = {}
    for r in results:
        for k, v in r['stats'].items():
            total[k] = total.get(k, 0) + v
    inconclusive = [f'{r["case"]}: {r["message"]}' for r in results if r['status'] == 'inconclusive']
    complete = not inconclusive and not errors and total.get('undecided', 0) == 0 and len(results) == len(cases)
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'coverage': {
            'states': total.get('paths', 0),
            'transitions': total.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'explanation': 'states: feasible path conditions explored of the real code executed symbolically; '
                           'transitions: branch decisions taken on them (each decided by the solver); '
                           'traces_validated_against_impl: models of paths replayed on the un-instrumented code.',
            'functions_encoded': p.functions,
            'bounds': p.bounds[tier] if isinstance(p.bounds, dict) else p.bounds,
            'cases': len(results),
            'queries_discharged': total.get('queries', 0),
            'assertions_decided': total.get('assertions', 0),
            'solver_s': round(total.get('solver_s', 0), 2),
            'infeasible_paths': total.get('infeasible', 0),
            'undecided_paths_replayed_concretely': total.get('undecided', 0),
            'undecided_reasons': [u for r in results for u in r['undecided']][:10],
            'incomplete_cases': inconclusive[:20],
            'exhaustive': complete,
        },
        'assumptions': p.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': n_violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print(f'{pid} {tier}: {len(results)} cases, {total.get("paths", 0)} paths, {total.get("queries", 0)} queries, '
          f'{total.get("solver_s", 0):.1f}s solver, {validated} validated, {total.get("undecided", 0)} undecided, '
          f'{len(inconclusive)} incomplete, {n_violations} violations, {time.time() - t0:.1f}s')
    for e in errors + inconclusive[:5]:
        print(f'  note: {e}')
    if status == 0 and errors:
        status = 2
    return status
