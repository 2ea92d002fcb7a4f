#!/opt/venv/bin/python
"""run_check.py Cnn [--tier quick|thorough] [--case NAME] [--replay FILE]

Decides one property by symbolic execution of /repo's current source and z3. Exit 0: held on everything explored;
exit 1: violated (VIOLATION line, replayed on the real code); exit 2: the check could not decide.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           LC_ALL='C.UTF-8')

if any(os.environ.get(k) != v for k, v in ENV.items()):
    e = dict(os.environ)
    e.update(ENV)
    e.pop('PYTHONPATH', None)
    import tempfile
    e['MPLCONFIGDIR'] = os.path.join(tempfile.gettempdir(), 'verif-mpl')
    os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

TIERS = {
    'quick': dict(query_timeout=20.0, branch_timeout=6.0, max_paths=400, case_budget=240.0, real_runs=3, real_timeout=120, fallback_runs=3),
    'thorough': dict(query_timeout=120.0, branch_timeout=20.0, max_paths=4000, case_budget=2400.0, real_runs=12, real_timeout=300,
                     fallback_runs=6, retry=True),
}


def load_known():
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    t0 = time.time()
    check = importlib.import_module('checks.' + a.prop.lower())
    from engine import harness
    opts = dict(TIERS[a.tier])
    opts.update(getattr(check, 'OPTS', {}).get(a.tier, {}))
    cases = [(n, f, p) for n, f, p in check.cases(a.tier)]
    if a.replay:
        rec = json.load(open(a.replay))
        n, f, p = next(c for c in cases + check.cases('thorough') if c[0] == rec['case'])
        rr = harness.real_run(check, n, f, p, a.tier, rec['values'])
        if rr.get('crash'):
            print('replay failed:', rr)
            return 2
        bad = [x for x in rr['results'] if not x['ok']]
        print('inputs:', json.dumps(rec['values'])[:4000])
        for x in bad:
            print('FAILS on the real code: %s: %s' % (x['label'], x['info']))
        if bad:
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        else:
            print('the real code satisfies the property on these inputs (%s)' % rr['status'])
        return 1 if bad else 0
    if a.case:
        cases = [c for c in cases if a.case in c[0]]
    for m in ('pandas', 'tqdm', 'scipy.sparse.linalg') + tuple(getattr(check, 'PREIMPORT', ())):
        importlib.import_module(m)
    results = {}
    todo = list(enumerate(cases))
    running = {}
    import select
    bufs = {}
    order = sorted(todo, key=lambda t: -float(t[1][2].get('_w', 1)) if '_w' in t[1][2] else 0)
    queue = list(order)
    while queue or running:
        while queue and len(running) < a.j:
            i, (n, f, p) = queue.pop(0)
            p = {k: v for k, v in p.items() if k != '_w'}
            pid, r = harness.in_child(lambda: harness.run_case(check, n, f, p, a.tier, opts))
            running[r] = (pid, i, time.time())
            bufs[r] = b''
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 16)
            if d:
                bufs[r] += d
                continue
            pid, i, st = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                results[i] = json.loads(bufs.pop(r).decode())
            except ValueError:
                results[i] = {'crash': 'no result (killed)'}
            if a.v:
                x = results[i]
                print('%-40s %s' % (cases[i][0], {k: x.get(k) for k in ('crash', 'trace', 'paths', 'obligations', 'proved', 'witnesses',
                      'validated', 'wall', 'mismatches')} if not x.get('crash') else x), flush=True)
                for y in x.get('inconclusive', []):
                    print('    inconclusive:', y.get('label'), y.get('why'), y.get('msg'), y.get('values', ''))
                    if y.get('trace'):
                        print(y['trace'])
                for y in x.get('violations', []):
                    print('    violation:', y)
        for r, (pid, i, st) in list(running.items()):
            if time.time() - st > opts['case_budget'] * 1.5 + 120:
                os.kill(pid, 9)
    return finish(check, a, cases, results, opts, time.time() - t0)


def finish(check, a, cases, results, opts, wall):
    prop = a.prop
    known = [k for k in load_known() if k['property'] == prop]
    tot = dict(paths=0, infeasible=0, obligations=0, elements=0, folded=0, folded_distinct=0, folded_unsat=0, proved=0, witnesses=0, validated=0, val_elems=0)
    st = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, max_time=0.0, max_terms=0)
    enc, samples, viol, inc, mism, crashed = {}, [], [], [], [], []
    for i, (n, f, p) in enumerate(cases):
        r = results.get(i, {'crash': 'not run'})
        if r.get('crash'):
            crashed.append('%s: %s %s' % (n, r['crash'], r.get('trace', '')[-700:]))
            continue
        for k in tot:
            tot[k] += r[k]
        for k in st:
            st[k] = max(st[k], r['stats'][k]) if k.startswith('max') else st[k] + r['stats'][k]
        for k, v in r['encoded'].items():
            enc[k] = enc.get(k, 0) + v
        samples += r['samples'][:1]
        viol += r['violations']
        inc += [dict(x, case=n) for x in r['inconclusive']]
        mism += ['%s: %s' % (n, m) for m in r['mismatches']]
        if not r['violations'] and not r['witnesses'] and not r['inconclusive']:
            inc.append(dict(case=n, label='*', why='no feasible path reaches the end: the scenario is vacuous'))
    kf_seen, new = {}, []
    for v in viol:
        k = next((k for k in known if v['finding'] and k['key'] == v['finding']), None)
        if k:
            kf_seen.setdefault(k['key'], (k, v))
        else:
            new.append(v)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    lines = []
    for n, v in enumerate(new[:10]):
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, n))
        json.dump(v, open(path, 'w'), indent=1)
        print('  case %s, obligation "%s" (%s): %s' % (v['case'], v['label'], v['how'], v['info']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    for k, (kf, v) in sorted(kf_seen.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    missing = [k for k in known if k['key'] not in kf_seen and not a.case]
    for k in missing:
        print('note: the known finding %s did not show up in this run' % k['key'])
    for x in inc[:12]:
        print('INCONCLUSIVE: case %s, %s: %s' % (x['case'], x['label'], x['why']))
    for x in mism[:12]:
        print('ENCODING-MISMATCH: %s' % x)
    for x in crashed:
        print('CRASH: %s' % x)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(
        property=prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0),
        level='other',
        coverage=dict(
            explanation='The functions listed under functions_encoded were re-read from /repo, and executed with symbolic inputs over '
                        'exact reals, every feasible path up to the stated bounds. Each obligation holds for all inputs of its path: z3 '
                        'answers unsat to its negation under the path condition (equalities whose sides the encoding already normalises to '
                        'one term are sent in batches). One concrete '
                        'witness per path (first paths of a case) was run on the real code: it shows the path is reachable, and compares '
                        'the encoding with the real libraries value by value.',
            witness_samples=samples[:6] or [{'note': 'none'}],
            exhaustive=not inc and not crashed,
            functions_encoded=sorted(enc), cases=len(cases), case_names=[c[0] for c in cases],
            paths=tot['paths'], infeasible_paths=tot['infeasible'], obligations=tot['obligations'], obligations_proved=tot['proved'],
            scalar_equalities=tot['elements'], scalar_equalities_folded_by_hash_consing=tot['folded'],
            distinct_folded_equalities=tot['folded_distinct'], distinct_folded_equalities_unsat=tot['folded_unsat'],
            solver_queries=st['queries'], solver_unsat=st['unsat'], solver_sat=st['sat'], solver_unknown=st['unknown'],
            solver_time_s=round(st['time'], 2), solver_max_query_s=round(st['max_time'], 2),
            witnesses=tot['witnesses'], witness_replays_on_real_code=tot['validated'], values_compared_encoding_vs_real=tot['val_elems'],
            bounds=getattr(check, 'BOUNDS', ''), outside=getattr(check, 'OUTSIDE', ''),
            inconclusive=inc[:20], encoding_mismatches=mism[:20], known_findings_seen=sorted(kf_seen)),
        assumptions=list(getattr(check, 'ASSUMPTIONS', ())) + COMMON,
        wall_s=round(wall, 2),
        violations=[dict(case=v['case'], label=v['label'], how=v['how'], info=v['info']) for v in new])
    if not a.case:
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d paths, %d/%d obligations decided, %d queries (%.1fs), %d replays, %.1fs, %d inconclusive, %d mismatches'
          % (prop, a.tier, len(cases), tot['paths'], tot['proved'], tot['obligations'], st['queries'], st['time'], tot['validated'],
             wall, len(inc), len(mism)))
    for l in lines:
        print(l)
    if new:
        return 1
    if crashed or (tot['proved'] == 0 and not kf_seen):
        return 2
    return 0


COMMON = ['floats are exact reals: rounding, overflow and NaN are outside the claim',
          'numpy/scipy/pandas/pandapower are trusted; numpy and scipy are modelled by the facades in engine/, compared with the real '
          'libraries on every witness point',
          'the contents of shape and dtype objects are modelled at the level of float/complex/int/bool kinds']

if __name__ == '__main__':
    sys.exit(main())
