#!/opt/venv/bin/python
"""Decides one property of pymultifracs on the current tree of /repo.

    check.py C01 [--tier quick|thorough] [--case SUBSTRING] [--jobs N]
    check.py --replay FILE

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it does not.
Cases that could not be decided are listed; exit 2: no case was decided.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import sys
import time

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)

from symnp import harness, loader  # noqa: E402

LEVEL = 'model_checking'
ASSUME = [
    'exact real arithmetic stands for binary64: agreement is decided up to 1e-10 relative '
    'perturbation of the float constants in the code; overflow and accumulated rounding are outside',
    'generic position where stated per case: an input combination that makes a logarithm argument, '
    'divisor or power base exactly zero is outside the bound unless a case forks on it',
    'numpy, scipy.signal/linalg/fft, sklearn LinearRegression are represented by their documented '
    'exact semantics (validated against the real libraries on every run by concrete replay)',
    'pywt filter banks are taken as the float constants pywt returns',
]


def child(conn, prop, idx, tier, deadline, seed):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        m = importlib.import_module(f'props.{prop.lower()}')
        case = m.cases(tier)[idx]
        conn.send(harness.run_case(case, deadline, seed))
    except BaseException as e:
        import traceback
        conn.send({'name': f'case {idx}', 'crash': f'{type(e).__name__}: {e}',
                   'trace': traceback.format_exc()})
    finally:
        conn.close()
        os._exit(0)


def run_all(prop, tier, idxs, names, jobs, deadline, seed):
    todo = list(idxs)
    live, out = {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=child,
                                               args=(b, prop, i, tier, deadline, seed))
            p.start()
            b.close()
            live[a] = (p, i)
        for c in multiprocessing.connection.wait(list(live), timeout=1.0):
            p, i = live.pop(c)
            try:
                out[i] = c.recv()
            except EOFError:
                out[i] = {'name': names[i], 'crash': 'the worker was ended'}
            c.close()
            p.join()
        if time.time() > deadline + 60:
            for c, (p, i) in live.items():
                p.kill()
                out[i] = {'name': names[i], 'crash': 'time budget exhausted'}
            live = {}
            for i in todo:
                out[i] = {'name': names[i], 'crash': 'not started: time budget exhausted'}
            todo = []
    return [out[i] for i in idxs]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def prepare():
    import warnings
    warnings.simplefilter('ignore')
    warnings.showwarning = lambda *a, **k: None
    import pymultifracs  # noqa: F401  (imported once, before forking)
    loader.make_libs()
    harness._patch_plot()
    import pymultifracs.signal, pymultifracs.bivariate, pymultifracs.simul  # noqa: F401,E401


def replay(path):
    prepare()
    d = json.load(open(path))
    m = importlib.import_module(f'props.{d["property"].lower()}')
    for tier in ('quick', 'thorough'):
        for case in m.cases(tier):
            if case.name == d['case']:
                status, msg, E = harness.run_concrete(case, d['values'], d['seed'])
                print(f'{status}: {msg}')
                for k, v in list(E.used.items())[:40]:
                    print(f'  {k} = {v!r}')
                return 1 if status == 'fail' else 0
    print('no such case')
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default='')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    prop = a.prop.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    m = importlib.import_module(f'props.{prop.lower()}')
    budget = 420 if tier == 'quick' else 780
    deadline = t0 + budget
    try:
        cs = m.cases(tier)
    except Exception as e:
        print(f'ERROR property={prop} cannot build cases: {type(e).__name__}: {e}')
        sys.exit(2)
    prepare()
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), 'duplicate case names'
    idxs = [i for i, n in enumerate(names) if a.case in n]
    rs = run_all(prop, tier, idxs, names, a.jobs, deadline, seed)
    known = known_findings(prop)
    viol, kn, und, dec = [], {}, [], 0
    tot = {}
    for r in rs:
        if 'crash' in r:
            und.append((r['name'], r['crash']))
            if a.v:
                print(r.get('trace', ''))
            continue
        for k, v in (r['stats'] or {}).items():
            tot[k] = max(tot.get(k, 0), v) if k == 'maxtime' else tot.get(k, 0) + v
        fresh = []
        for v in r['violations']:
            hit = [d for d in known if d['case'] == v['case'] and d['match'] in v['msg']]
            if hit:
                kn[hit[0]['what']] = True
            else:
                fresh.append(v)
        if fresh:
            viol.append(fresh[0])
        elif r['violations']:
            dec += 1
        elif r['unsupported'] or r['undecided']:
            und.append((r['name'], r['unsupported'] or '; '.join(r['undecided'][:3])))
        else:
            dec += 1
        if a.v:
            s = r['stats']
            print(f"{r['name']:60s} {r['wall_s']:6.1f}s paths={r['paths']} obl={s['obligations']} "
                  f"scal={s['scalars']} ident={s['identical']} q={s['queries']} "
                  f"z3={s['time']:.1f}s gen={s['generic']} conc={r['concrete']} val={r['validated']}")
    for what in kn:
        print(f'KNOWN-FINDING: property={prop} {what}')
    for n, why in und:
        print(f'UNDECIDED property={prop} case={n}: {why}')
    rc = 0
    files = []
    for k, v in enumerate(viol):
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f'{prop}_{k}.json')
        json.dump({'property': prop, **v}, open(f, 'w'), indent=1)
        files.append(f)
    if viol:
        for v, f in zip(viol[:5], files):
            print(f"  case {v['case']}: {v['msg']}  [{v.get('by', '')}]")
        print(f'VIOLATION property={prop} replay={files[0]}')
        rc = 1
    elif not dec:
        rc = 2
    ok = [r for r in rs if 'crash' not in r]
    fns = sorted({f for r in ok for f in r['functions']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'states': max(1, sum(r['paths'] for r in ok)),
            'transitions': int(tot.get('branches', 0)) + int(tot.get('obligations', 0)),
            'traces_validated_against_impl': sum(r['validated'] for r in ok),
            'samples': [{'case': r['name'], 'witness': r['sample']} for r in ok if r['sample']][:20],
            'cases': [{'case': r['name'], 'bound': r['bound'], 'paths': r['paths'],
                       'obligations': r['stats']['obligations'], 'wall_s': round(r['wall_s'], 2),
                       'decided': not (r['unsupported'] or r['undecided'] or r['violations'])}
                      for r in ok],
            'functions_encoded': fns,
            'obligations': int(tot.get('obligations', 0)),
            'scalar_equalities': int(tot.get('scalars', 0)),
            'closed_by_normal_form': int(tot.get('identical', 0)),
            'solver_queries': int(tot.get('queries', 0)),
            'solver_unsat': int(tot.get('unsat', 0)),
            'solver_sat': int(tot.get('sat', 0)),
            'solver_unknown': int(tot.get('unknown', 0)),
            'solver_time_s': round(tot.get('time', 0.0), 3),
            'feasibility_queries': int(tot.get('branch_queries', 0)),
            'generic_position_assumptions': int(tot.get('generic', 0)),
            'concrete_replays': sum(r['concrete'] for r in ok),
            'undecided': [{'case': n, 'why': w} for n, w in und],
        },
        'assumptions': ASSUME + list(getattr(m, 'ASSUME', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {dec}/{len(rs)} cases decided, {ev['coverage']['states']} paths, "
          f"{ev['coverage']['obligations']} obligations, {ev['coverage']['solver_queries']} queries, "
          f"{ev['coverage']['solver_time_s']} s in z3, {len(viol)} violations, {ev['wall_s']} s")
    sys.exit(rc)


if __name__ == '__main__':
    main()
