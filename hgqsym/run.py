"""Check driver:  python -m hgqsym.run <property> [quick|thorough]      (parent: schedules harnesses over worker processes)
                  python -m hgqsym.run --worker <property> <tier>        (worker: executes harnesses, one JSON line per result)
                  python -m hgqsym.run --replay <file>                   (replays a counterexample on the unmodified code)
"""
import json
import os
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEADLINE = [None]


def child_env(base=None):
    e = dict(os.environ if base is None else base)
    e.update(TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='-1', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='2', TF_NUM_INTRAOP_THREADS='2',
             TF_NUM_INTEROP_THREADS='2', PYTHONHASHSEED='0')
    e['PYTHONPATH'] = ROOT
    e.setdefault('VERIF_SEED', '1')
    if DEADLINE[0]:
        e['HGQSYM_DEADLINE'] = str(DEADLINE[0])
    return e


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def main(pid, tier):
    t0 = time.time()
    DEADLINE[0] = t0 + (540 if tier == 'quick' else 3600)
    n = int(os.environ.get('HGQSYM_JOBS', '6'))
    procs = []
    results = {}
    state = {'names': None, 'next': 0, 'errors': []}
    lock = threading.Lock()
    ready = threading.Event()

    def serve(k):
        p = subprocess.Popen([PY, '-B', '-m', 'hgqsym.run', '--worker', pid, tier], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, env=child_env(), cwd=ROOT)
        procs.append(p)
        errbuf = []
        th = threading.Thread(target=lambda: errbuf.extend(p.stderr.readlines()), daemon=True)
        th.start()

        def readline():
            while True:
                l = p.stdout.readline()
                if not l:
                    return None
                if l.startswith('@@'):
                    return json.loads(l[2:])
        hello = readline()
        if hello is None:
            th.join(2)
            with lock:
                state['errors'].append('worker failed to start: ' + ''.join(errbuf[-15:]))
            ready.set()
            return
        with lock:
            if state['names'] is None:
                state['names'] = hello['names']
        ready.set()
        cur = None
        while True:
            with lock:
                i = state['next']
                if i >= len(state['names']) or state.get('stop'):
                    break
                state['next'] += 1
            cur = state['names'][i]
            try:
                p.stdin.write(cur + '\n')
                p.stdin.flush()
            except BrokenPipeError:
                pass
            r = readline()
            if r is None:
                th.join(2)
                with lock:
                    state['errors'].append(f'worker died on {cur}: ' + ''.join(errbuf[-15:]))
                return
            with lock:
                results[cur] = r
                if r.get('violations') and os.environ.get('HGQSYM_FAILFAST'):     # for mutation campaigns
                    state['stop'] = True
        p.stdin.close()
        p.wait()

    # two workers first: the number of harnesses is not known yet
    ths = [threading.Thread(target=serve, args=(k,)) for k in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    names = state['names'] or []
    return finish(pid, tier, names, results, state['errors'], t0)


def finish(pid, tier, names, results, errors, t0):
    violations, known, inconclusive = [], [], []
    kf = known_findings(pid)
    agg = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, paths=0, forks=0, obligations=0, discharged=0, trivial=0, truncated=0, inexact=0)
    ops = {}
    validated = 0
    samples = []
    functions = []
    bounds = []
    assumptions = []
    harness_rows = []
    undecided = []
    for nm in names:
        r = results.get(nm)
        if r is None:
            errors.append(f'harness {nm} gave no result')
            continue
        for k in agg:
            agg[k] += r['stats'].get(k, 0)
        for k, v in r['stats'].get('ops', {}).items():
            ops[k] = ops.get(k, 0) + v
        validated += r.get('validated', 0)
        for f in r.get('functions', []):
            if f not in functions:
                functions.append(f)
        for f in r.get('assumptions', []):
            if f not in assumptions:
                assumptions.append(f)
        if r.get('bounds') and r['bounds'] not in bounds:
            bounds.append(r['bounds'])
        harness_rows.append(dict(harness=nm, paths=r['stats'].get('paths', 0), obligations=r['stats'].get('obligations', 0), discharged=r['stats'].get('discharged', 0), queries=r['stats'].get('queries', 0),
                                 solver_s=round(r['stats'].get('solver_s', 0), 2), wall_s=r.get('wall_s'), float_mode=r.get('float_mode'), validated=r.get('validated', 0), status=r['status']))
        if r.get('sample') and len(samples) < 6:
            samples.append(dict(harness=nm, **r['sample']))
        if r['status'] == 'error':
            errors.append(f'{nm}: {r["message"]}')
        for v in r.get('violations', []):
            k = next((k for k in kf if k['harness'] == nm and k['label'] == v['label']), None)
            if k is not None:
                known.append((k, v))
            else:
                violations.append((nm, v))
        for u in r.get('inconclusive', []):
            inconclusive.append(f'{nm}: {u}')
        if r.get('inconclusive') or r['stats'].get('truncated'):
            undecided.append(nm)
    for k in kf:
        if not any(k is kk for kk, _ in known):
            # a listed finding that no longer fails is not an error
            pass
    level = 'model_checking'
    cov = dict(harnesses_undecided=undecided, states=agg['paths'], transitions=sum(ops.values()), traces_validated_against_impl=validated, samples=samples or [dict(note='no sample')],
               harnesses=len(names), obligations=agg['obligations'], discharged=agg['discharged'], trivially_true_after_simplification=agg['trivial'],
               solver_queries=agg['queries'], solver_unsat=agg['unsat'], solver_sat=agg['sat'], solver_unknown=agg['unknown'], solver_s=round(agg['solver_s'], 2),
               forks=agg['forks'], truncated=agg['truncated'], functions_encoded=functions, bounds=bounds, operations_interpreted=ops, per_harness=harness_rows,
               explanation='Bounded symbolic execution of the real functions (TensorFlow graphs traced from /repo on this run, NumPy code executed on symbolic arrays); '
                           'states = symbolic path end states, transitions = graph operations interpreted, obligations = assertions sent to the simplifier/SMT solver, '
                           'traces_validated_against_impl = solver models of paths replayed on the unmodified code with identical outputs.',
               exhaustive=not (agg['truncated'] or inconclusive or errors))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w'), indent=1)
    for k, v in known:
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    for nm, v in violations[:20]:
        print(f'  {nm}: {v["label"]}: {v.get("detail", "")}'[:600])
    seen = set()
    for nm, v in violations:
        print(f'VIOLATION property={pid} replay={v["replay"]}')
        break
    for e in errors:
        print('ERROR ' + e[:1500])
    for e in inconclusive:
        print('INCONCLUSIVE ' + e[:600])
    print(f'{pid} {tier}: harnesses={len(names)} paths={agg["paths"]} obligations={agg["obligations"]} discharged={agg["discharged"]} queries={agg["queries"]} '
          f'solver={agg["solver_s"]:.1f}s validated={validated} violations={len(violations)} known={len(known)} wall={time.time() - t0:.1f}s')
    if violations:
        return 1
    if errors or not names or 2 * len(undecided) > len(names):
        return 2
    if undecided:
        print(f'NOT-EXPLORED {len(undecided)} of {len(names)} harnesses could not be decided (listed in the evidence file); the property held on the others')
        return 3 if os.environ.get('HGQSYM_STRICT') else 0
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        from hgqsym import worker
        worker.main(sys.argv[2], sys.argv[3])
    elif sys.argv[1] == '--replay':
        from hgqsym import worker
        sys.exit(worker.replay_file(sys.argv[2]))
    else:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
