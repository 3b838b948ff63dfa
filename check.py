#!/usr/bin/env python3
"""Decide one property:  check.py <property id> [quick|thorough]

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: nothing could be decided.
"""
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(v, '1')


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                out.append(line[len('known: property=%s ' % pid):])
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('SYMK_ONLY')
    t0 = time.time()
    modname = pid.lower()
    mod = importlib.import_module('scenarios.' + modname)
    total = float(os.environ.get('SYMK_TOTAL', 420 if tier == 'quick' else 2400))
    dflt = 150.0 if tier == 'quick' else 900.0
    jobs = []
    for nm, f, v, budget, wits, mpaths in mod.R.jobs(tier):
        if only and only not in nm:
            continue
        jobs.append((modname, nm, tier, seed, float(budget or dflt), mpaths or (6000 if tier == 'quick' else 60000),
                     wits if wits is not None else (4 if tier == 'quick' else 10)))
    # the largest sizes of the sweeps come last
    jobs.sort(key=lambda j: max([0] + [int(x) for x in re.findall(r'\d+', j[1]) if 110 < int(x) < 10**6]))
    from symk.runner import run_job
    results = []
    nproc = int(os.environ.get('SYMK_PROCS', '8'))
    timed_out = []
    if nproc == 1:
        for j in jobs:
            results.append(run_job(j))
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(nproc, maxtasksperchild=None)
        pend = [(j, pool.apply_async(run_job, (j,))) for j in jobs]
        end = t0 + total
        viol = False
        while pend and time.time() < end and not viol:
            rest = []
            for j, h in pend:
                if h.ready():
                    try:
                        r = h.get()
                    except Exception as e:
                        r = {'scenario': j[1], 'error': str(e), 'stats': {}, 'violation': None, 'reached': 0}
                    results.append(r)
                    if r.get('violation'):
                        viol = True
                else:
                    rest.append((j, h))
            pend = rest
            time.sleep(0.05)
        timed_out = [j[1] for j, _ in pend] if not viol else []
        pool.terminate()
        pool.join()
    return finish(pid, tier, seed, results, timed_out, t0, len(jobs))


def finish(pid, tier, seed, results, timed_out, t0, njobs):
    evd = os.environ.get('SYMK_EVID') or os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(evd, 'replays'), exist_ok=True)
    S = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            S[k] = round(S.get(k, 0) + v, 3)
    viols = [r for r in results if r.get('violation')]
    inconc = []
    for r in results:
        if r.get('error'):
            inconc.append('%s: error %s' % (r['scenario'], r['error'][-700:]))
        if not r.get('violation'):
            for l in sorted(set(r.get('unreproduced', []))):
                inconc.append('%s: counterexample not reproduced on the real code: %s' % (r['scenario'], l))
            for l in sorted(set(r.get('undecided', []))):
                inconc.append('%s: solver undecided: %s' % (r['scenario'], l))
            for l in sorted(set(r.get('abandoned', []))):
                inconc.append('%s: unmodelled: %s' % (r['scenario'], l))
            if not r.get('exhausted', True):
                inconc.append('%s: path budget exhausted before all paths were explored' % r['scenario'])
            if not r.get('reached'):
                inconc.append('%s: no path reached the end' % r['scenario'])
        for e in r.get('replay_errors', []):
            inconc.append('%s: replay error %s' % (r['scenario'], e))
    inconc += ['%s: not finished within the total budget' % s for s in timed_out]
    samples = [s for r in results for s in r.get('samples', [])][:6]
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
    anch = next((p.get('anchors', {}) for p in props if p['id'] == pid), {})
    cov = {
        'states': int(S.get('paths', 0)),
        'transitions': int(S.get('branches', 0) + S.get('forks', 0)),
        'traces_validated_against_impl': int(sum(r.get('replays_ok', 0) for r in results)),
        'samples': samples or [{'note': 'no witness was replayed'}],
        'solver': {'obligations': S.get('obligations', 0), 'discharged': S.get('discharged', 0),
                   'of_which_equalities_confirmed_in_one_query_per_path': S.get('batched', 0),
                   'batch_queries': S.get('batch_queries', 0),
                   'discharged_without_a_free_symbol_or_batched': S.get('discharged_syntactic', 0),
                   'obligation_queries': S.get('queries', 0), 'feasibility_queries': S.get('feas_queries', 0),
                   'unknown': S.get('unknown', 0), 'solver_seconds': S.get('solver_s', 0)},
        'functions_encoded': sorted({f for r in results for f in r.get('functions', ())}),
        'anchors': anch,
        'scenarios': [{'name': r['scenario'], 'doc': r.get('doc'), 'bounds': r.get('params'),
                       'paths': r.get('stats', {}).get('paths'), 'reached_end': r.get('reached'),
                       'all_paths_explored': r.get('exhausted'), 'replays_ok': r.get('replays_ok'),
                       'wall_s': r.get('wall_s')} for r in results],
        'inconclusive': inconc[:60],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2)}
    code = 0
    for l in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, l))
    if viols:
        v = viols[0]['violation']
        path = os.path.join(evd, 'replays', '%s.json' % pid)
        with open(path, 'w') as fh:
            json.dump(dict(v['request'], violation={'label': v['label'], 'found_by': v['found_by'],
                                                    'replay': v['replay']}), fh, indent=1, default=str)
        ev['violation'] = {'scenario': viols[0]['scenario'], 'label': v['label'], 'found_by': v['found_by'],
                           'inputs': v['inputs'], 'observed': v['replay'].get('detail'),
                           'observed_label': v['replay'].get('label')}
        print('scenario %s: %s' % (viols[0]['scenario'], v['replay'].get('label')))
        print('  %s; observed: %s' % (v['found_by'], v['replay'].get('detail')))
        print('  inputs: %s' % json.dumps(v['inputs'])[:1500])
        print('  run again: /opt/venv/bin/python /verif/symk/replay_server.py %s' % path)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    else:
        for l in inconc[:40]:
            print('INCONCLUSIVE %s' % l)
        if not any(r.get('reached') for r in results) or not S.get('discharged'):
            print('nothing could be decided')
            code = 2
    with open(os.path.join(evd, '%s.json' % pid), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s %s: %d scenarios, %d paths, %d/%d obligations discharged (%d by the solver), %d queries, '
          '%.1fs solver, %d replays agree, %.1fs' %
          (pid, tier, len(results), cov['states'], S.get('discharged', 0), S.get('obligations', 0),
           S.get('discharged', 0) - S.get('discharged_syntactic', 0) + S.get('batched', 0),
           S.get('queries', 0) + S.get('feas_queries', 0), S.get('solver_s', 0),
           cov['traces_validated_against_impl'], time.time() - t0))
    return code


if __name__ == '__main__':
    sys.exit(main())
