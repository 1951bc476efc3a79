"""Runs every harness case of a property over a process pool and reports."""
import json
import os
import random
import resource
import subprocess
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
import multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_state = {}


def _init():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(6000)
    from symx import loader, replay
    loader.install()
    _state['replayer'] = replay.Replayer()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _load(prop):
    if _state.get('prop') != prop:
        from symx import registry
        _state['hs'] = dict((h.name, h) for h in registry.load(prop))
        _state['prop'] = prop
    return _state['hs']


def _task(prop, hname, case, tier, deadline, work):
    t0 = time.time()
    from symx import engine, api
    h = _load(prop)[hname]
    o = dict(h.opts)
    eng = engine.Engine(lambda e: h.fn(api.SymCtx(e, tier), case), deadline=deadline,
                        query_ms=o.get('query_ms', 4000), max_violations=o.get('max_violations', 4),
                        hard_ms=o.get('hard_ms', 15000))
    if 'ceil_bound' in o:
        eng.ceil_bound = o['ceil_bound']
    eng.sample_limit = o.get('samples', 4 if tier == 'quick' else 12)
    if work is not None:
        eng.sample_limit = 1
    eng.explore(work, SLICE[tier])
    rp = _state['replayer']
    viol, incon, validated, mismatches = [], [], 0, []
    for c in eng.candidates:
        r = (rp.run if c['soft'] else rp.run_any)(prop, hname, case, c['inputs'], tier)
        if r['status'] == 'violation':
            viol.append({'harness': hname, 'case': case, 'inputs': c['inputs'], 'label': r['label'],
                         'info': r.get('info', ''), 'symbolic_label': c['label'], 'symbolic_info': c['info']})
        elif not c['soft']:
            incon.append('candidate not reproduced: %s %s (%s) -> %s' % (hname, c['label'], c['info'][:200], r['status']))
        if r['status'] == 'error':
            incon.append('replay error: ' + r.get('info', '')[-300:])
    n_samples = 0
    for s in eng.samples:
        r = rp.run(prop, hname, case, s, tier)
        n_samples += 1
        if r['status'] == 'ok':
            validated += 1
        elif r['status'] == 'violation':
            viol.append({'harness': hname, 'case': case, 'inputs': s, 'label': r['label'], 'info': r.get('info', ''),
                         'symbolic_label': '(path sample)', 'symbolic_info': ''})
        elif r['status'] == 'error':
            incon.append('replay error: ' + r.get('info', '')[-300:])
    st = eng.stats
    return {
        'harness': hname, 'case': case, 'complete': eng.complete, 'paths': st.paths, 'infeasible': st.infeasible,
        'forks': st.forks, 'queries': st.queries, 'obligations': st.obligations, 'discharged': st.discharged,
        'unknown': st.unknown, 'solver_s': st.solver_s, 'cut': st.cut, 'functions': sorted(st.functions),
        'labels': st.labels, 'inconclusive': st.inconclusive[:5] + incon, 'concretised': st.concretised,
        'violations': viol, 'validated': validated, 'samples': n_samples, 'seconds': time.time() - t0,
        'sample_inputs': eng.samples[:1], 'left': eng.work, 'first': work is None,
    }


def _safe_task(*a):
    try:
        return _task(*a)
    except BaseException as e:
        return {'harness': a[1], 'case': a[2], 'error': traceback.format_exc()[-1500:]}


def load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def matches(finding, prop, v):
    if finding.get('property') != prop or finding.get('harness') != v['harness']:
        return False
    if finding.get('label') not in (None, v['label']):
        return False
    if 'case' in finding and finding['case'] != v['case']:
        return False
    for k, val in (finding.get('inputs') or {}).items():
        if v['inputs'].get(k) != val:
            return False
    return True


GRACE = 20
SLICE = {'quick': 6.0, 'thorough': 15.0}  # a case is explored for this long, and what is left of it is then divided among the workers


def run(prop, tier, jobs=8, only=None, verbose=False, budget=None):
    t0 = time.time()
    random.seed(int(os.environ.get('VERIF_SEED', '1')))
    if budget is None:
        budget = float(os.environ.get('SYMX_BUDGET', '240' if tier == 'quick' else '780'))
    deadline = t0 + budget
    results = []
    ctx = multiprocessing.get_context('fork')
    _init()
    from symx import registry
    hs = registry.load(prop)
    _state['hs'] = dict((h.name, h) for h in hs)
    _state['prop'] = prop
    _state['replayer'] = None
    tasks = []
    for h in hs:
        if only and h.name not in only:
            continue
        for case in registry.cases_of(h, tier):
            tasks.append((h.name, case))
    from symx import engine
    engine.STOP = ctx.RawValue('d', 0.0)
    findings = load_findings()
    with ProcessPoolExecutor(max_workers=jobs, mp_context=ctx, initializer=_worker_init) as ex:
        todo = dict((ex.submit(_safe_task, prop, n, c, tier, deadline, None), (n, c)) for n, c in tasks)
        while todo:
            done, _ = wait(todo, return_when=FIRST_COMPLETED)
            for f in done:
                name, case = todo.pop(f)
                try:
                    r = f.result()
                except BaseException as e:
                    r = {'harness': name, 'case': case, 'error': 'worker ended: %r' % (e,)}
                results.append(r)
                if not engine.STOP.value and any(not any(matches(k, prop, v) for k in findings) for v in r.get('violations', [])):
                    engine.STOP.value = time.time() + GRACE  # the verdict is known: look for a little more, then report
                left = r.pop('left', None)
                if left:
                    if time.time() > min(deadline, engine.STOP.value or deadline):
                        r['complete'] = False
                    else:  # the parts go to the end of the queue: no case keeps the others waiting
                        k = max(1, min(len(left), jobs - len(todo)))
                        for i in range(k):
                            todo[ex.submit(_safe_task, prop, name, case, tier, deadline, left[i::k])] = (name, case)
                if verbose:
                    show(r, left)
                    sys.stdout.flush()
    return report(prop, tier, hs, results, time.time() - t0)


def show(r, left):
    if 'error' in r:
        print('  ERROR', r['harness'], r['case'], r['error'])
        return
    print('  %-28s %-40s paths=%d inf=%d q=%d obl=%d/%d unk=%d t=%.1fs (solver %.1f) %s%s%s' % (
        r['harness'], json.dumps(r['case'])[:40], r['paths'], r['infeasible'], r['queries'], r['discharged'],
        r['obligations'], r['unknown'], r['seconds'], r['solver_s'], '' if r['complete'] else 'INCOMPLETE ',
        'VIOL %d ' % len(r['violations']) if r['violations'] else '', 'left %d' % len(left) if left else ''))
    for i in r['inconclusive'][:3]:
        print('      inconclusive:', i[:400])
    if r['concretised']:
        print('      concretised:', r['concretised'])


def _worker_init():
    from symx import replay
    _state['replayer'] = replay.Replayer()


def report(prop, tier, hs, results, wall):
    good = [r for r in results if 'error' not in r]
    errors = [r for r in results if 'error' in r]
    viol = [v for r in good for v in r['violations']]
    findings = load_findings()
    reported, known = [], {}
    for v in viol:
        hit = None
        for i, f in enumerate(findings):
            if matches(f, prop, v):
                hit = i
                break
        if hit is None:
            reported.append(v)
        else:
            known[hit] = v
    tot = lambda k: sum(r[k] for r in good)
    inconclusive = [i for r in good for i in r['inconclusive']]
    functions = sorted(set(f for r in good for f in r['functions']))
    labels = {}
    for r in good:
        for k, n in r['labels'].items():
            labels[k] = labels.get(k, 0) + n
    conc = {}
    for r in good:
        for k, n in r['concretised'].items():
            conc[k] = conc.get(k, 0) + n
    complete = all(r['complete'] for r in good) and not errors and not inconclusive and not tot('unknown') and not conc
    bounds = dict((h.name, h.bounds) for h in hs)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'explanation': 'symbolic execution of the current source of /repo: states are explored paths, transitions are '
                           'forks taken at symbolic branches; every assertion on a path is decided by z3 for all values of '
                           'the symbolic inputs on that path; path models are re-run on the unmodified code',
            'verdict': 'violation' if reported else ('holds within bounds' if complete else 'no violation found; exploration incomplete'),
            'exhaustive': bool(complete),
            'states': tot('paths'), 'transitions': tot('forks'),
            'traces_validated_against_impl': tot('validated'),
            'functions_encoded': functions, 'bounds': bounds,
            'obligations': tot('obligations'), 'discharged': tot('discharged'),
            'queries': tot('queries'), 'solver_s': round(tot('solver_s'), 2),
            'paths_infeasible': tot('infeasible'), 'paths_cut': tot('cut'), 'solver_unknown': tot('unknown'),
            'cases': sum(1 for r in results if r.get('first', True)),
            'assertions_reached': labels, 'inconclusive': inconclusive[:20], 'concretised': conc,
            'errors': [e['error'][-400:] for e in errors][:5],
            'samples': [{'harness': r['harness'], 'case': r['case'], 'inputs': s} for r in good if r['first'] for s in r.get('sample_inputs', [])][:5],
            'known_findings': [findings[i].get('what', '') for i in sorted(known)],
            'violations': reported[:5],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 1),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for i in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop, findings[i].get('what', '')))
    for e in errors[:3]:
        print('ERROR in %s %s: %s' % (e['harness'], e['case'], e['error'][-600:]))
    for i in inconclusive[:5]:
        print('INCONCLUSIVE: %s' % i[:300])
    print('%s %s: %d paths, %d/%d obligations discharged, %d queries, solver %.1fs, wall %.1fs, %s' % (
        prop, tier, tot('paths'), tot('discharged'), tot('obligations'), tot('queries'), tot('solver_s'), wall,
        'exhaustive within bounds' if complete else 'NOT exhaustive'))
    if reported:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        reported.sort(key=lambda v: (v['harness'], json.dumps(v['case'], sort_keys=True), json.dumps(v['inputs'], sort_keys=True)))
        for n, v in enumerate(reported[:5]):
            p = os.path.join(d, '%s-%d.json' % (prop, n))
            with open(p, 'w') as f:
                json.dump(dict(v, prop=prop, tier=tier), f, indent=1, sort_keys=True)
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('   %s: %s %s' % (v['harness'], v['label'], v['info'][:300]))
        return 1
    if results and not good or not tot('obligations'):
        print('ERROR: nothing was decided')
        return 2
    return 0


ASSUMPTIONS = [
    'numbers are exact reals (floats entering the code are read as the decimal they print as); binary rounding is outside the claim',
    'input text is ASCII',
    'counterexamples and sampled path models are replayed on the unmodified code with /opt/venv/bin/python',
]
