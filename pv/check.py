"""Driver of the checks: python3 pv/check.py PROPERTY [--tier quick|thorough] [--unit U] | --replay FILE"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
EVID = os.environ.get('PV_EVIDENCE', os.path.join(HERE, 'evidence'))
VT = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(VT):
    VT = 'python3-vt'
REAL = '/opt/venv/bin/python'
sys.path.insert(0, HERE)

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

TRUSTED = [
    'CPython executes the transformed source as it executes the original: pv/transform.py rewrites calls, loops, '
    'comprehensions, displays, subscripts, membership and attribute stores into calls of the models in pv/shims.py, '
    'pv/seq.py, pv/values.py and pv/loops.py, and evaluates generator functions eagerly; nothing else is changed or dropped',
    'the models of the Python built-ins and of struct, itertools, math, bisect, fractions and codecs in pv/shims.py',
    'the SMT solvers z3 5.3.2, cvc5 1.1.2 and z3 4.8.12 (an obligation counts as discharged when one of them answers unsat)',
]


def unit_list():
    """Ids and options of the units, by loading them with the real code."""
    code = ('import sys, json; sys.path.insert(0, {!r})\n'
            'from pv.conc import load_units\n'
            'us = load_units()\n'
            'print("@@" + json.dumps([dict(id=u.id, prop=u.prop, prove=u.prove and not u.bounded, search=u.search, bounded=u.bounded, '
            'budget=u.budget, thorough=u.thorough, about=u.about, weight=u.weight, runs=u.runs, also=u.also, '
            'contracts=u.contracts) for u in us.values()]))').format(HERE)
    r = subprocess.run([REAL, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=real_env(), cwd=HERE)
    out = parse(r.stdout)
    if out is None:
        return None, r.stderr.decode(errors='replace')[-3000:]
    return out, None


def real_env():
    e = dict(ENV)
    e['PYTHONPATH'] = os.pathsep.join([REPO, os.path.join(REPO, 'segpy-ext/segpy_numpy'), HERE])
    return e


def parse(out):
    txt = out.decode(errors='replace')
    i = txt.rfind('@@')
    if i < 0:
        return None
    try:
        return json.loads(txt[i + 2:].strip().splitlines()[0])
    except Exception:
        return None


def run_prove(u, tier, budget, extra=None):
    e = dict(ENV)
    if extra:
        e.update(extra)
    t0 = time.time()
    try:
        r = subprocess.run([VT, os.path.join(HERE, 'pv', 'prove.py'), u['id'], tier, str(budget)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=e, cwd=HERE, timeout=budget + 60)
    except subprocess.TimeoutExpired:
        return dict(unit=u['id'], status='unsupported', detail='time budget of the unit exhausted', obligations=0, discharged=0,
                    wall=time.time() - t0)
    out = parse(r.stdout)
    if out is None:
        return dict(unit=u['id'], status='unsupported', detail='engine crashed: ' + r.stderr.decode(errors='replace')[-600:],
                    obligations=0, discharged=0, wall=time.time() - t0)
    return out


def run_conc(u, job, timeout):
    job = dict(job, unit=u['id'])
    try:
        r = subprocess.run([REAL, os.path.join(HERE, 'pv', 'conc.py')], input=json.dumps(job).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=real_env(), cwd=HERE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(status='fail', name='the harness terminates', detail='no answer within {} s'.format(timeout), inputs={}, hang=True)
    out = parse(r.stdout)
    if out is None:
        return dict(status='error', detail=r.stderr.decode(errors='replace')[-1500:])
    return out


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'open':
                    out.append(d)
    return out


def write_replay(prop, u, kind, data):
    d = os.path.join(EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '{}-{}.json'.format(u['id'], kind))
    data = dict(data, property=prop, unit=u['id'], kind=kind,
                how='python3 pv/check.py --replay {}'.format(os.path.relpath(p, HERE)))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return os.path.relpath(p, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--no-search', action='store_true')
    ap.add_argument('--no-prove', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    units, err = unit_list()
    if units is None:
        # the code cannot even be imported
        prop = a.property
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        rp = write_replay(prop, dict(id=prop + '.import'), 'import', dict(detail=err))
        print(err)
        print('VIOLATION property={} replay={}'.format(prop, rp))
        return 1
    if a.replay:
        d = json.load(open(a.replay))
        u = [x for x in units if x['id'] == d['unit']][0]
        if d.get('inputs') is None:
            print(json.dumps(d, indent=1))
            return 1
        r = run_conc(u, dict(mode='replay', inputs=d['inputs'], tier=a.tier), 120)
        print(json.dumps(r, indent=1))
        return 1 if r['status'] == 'fail' else 0
    prop, tier = a.property, a.tier
    mine = [u for u in units if (u['prop'] == prop or prop in u['also']) and (tier == 'thorough' or not u['thorough'])
            and (not a.unit or re.search(a.unit, u['id']))]
    t0 = time.time()
    if not mine:
        print('no units for', prop)
        return 2
    secs = a.seconds or (5 if tier == 'quick' else 60)
    scale = 1 if tier == 'quick' else 3
    results, searches = {}, {}
    replays = {}
    with cf.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        futs = {}
        for u in sorted(mine, key=lambda u: -u['weight']):
            if u['prove'] and not a.no_prove:
                futs[ex.submit(run_prove, u, tier, min(u['budget'] * scale, 700))] = ('p', u)
        for u in mine:
            if u['search'] and not a.no_search:
                s = secs * (3 if u['bounded'] else 1)
                futs[ex.submit(run_conc, u, dict(mode='search', seed=a.seed, seconds=s, runs=u['runs'] or 10 ** 6, tier=tier),
                               s * 4 + 120)] = ('s', u)
        for f in cf.as_completed(futs):
            k, u = futs[f]
            r = f.result()
            (results if k == 'p' else searches)[u['id']] = r
            if a.v:
                print('  ', k, u['id'], r.get('status'), r.get('obligation', ''), r.get('detail', '')[:300], r.get('wall', ''),
                      r.get('name', ''), flush=True)
    violations = []
    undecided = []
    byid = {u['id']: u for u in mine}
    for uid, r in searches.items():
        if r['status'] == 'fail':
            rp = write_replay(prop, byid[uid], 'input', dict(obligation=r['name'], inputs=r.get('inputs'), detail=r.get('detail'),
                                                             origin='bounded search on the real code'))
            violations.append((uid, rp, r['name'], True))
        elif r['status'] == 'error':
            undecided.append((uid, 'search: ' + r['detail']))
    for uid, r in results.items():
        # reachability which the solvers could not settle: an input of the bounded search which got there
        open_covers = [c for c, v in r.get('covers', {}).items() if v == 'unknown']
        if r['status'] == 'proved' and open_covers:
            reached = searches.get(uid, {}).get('covered', [])
            for c in open_covers:
                if c in reached:
                    r['covers'][c] = 'reached by the bounded search'
                else:
                    undecided.append((uid, 'not known to be reachable: ' + c))
    seen = {v[0] for v in violations}
    pending = []
    for uid, r in sorted(results.items()):
        u = byid[uid]
        if r['status'] == 'proved' or uid in seen:
            continue
        if r['status'] in ('failed', 'vacuous'):
            if r.get('verdict') == 'unknown' and time.time() - t0 < 400:
                r2 = run_prove(u, tier, min(u['budget'] * scale, 150), dict(PV_PROVE_MS='40000', PV_EXT_S='60'))
                if r2['status'] == 'proved':
                    results[uid] = r2
                    continue
                if r2['status'] == 'failed':
                    r = results[uid] = r2
            base = dict(obligation=r.get('obligation') or r.get('detail'), solver=r.get('solver'), verdict=r.get('verdict'),
                        goal=r.get('goal'), detail=r.get('detail'), verifier=r)
            rr = None
            if r.get('inputs') is not None:
                rr = run_conc(u, dict(mode='replay', inputs=r['inputs'], tier=tier, tries=20), 120)
                if rr['status'] == 'fail':
                    rp = write_replay(prop, u, 'input', dict(base, inputs=rr['inputs'], failed=rr['name'],
                                                             origin='counterexample of the verifier, replayed on the real code'))
                    violations.append((uid, rp, r.get('obligation'), True))
                    continue
            pending.append((uid, u, r, base))
            continue
        else:
            undecided.append((uid, r.get('detail', '')))
            pending.append((uid, u, r, None))
    # a longer search for the units whose proof did not go through
    found = {}
    jobs = [(u, k) for uid, u, r, base in pending if u['search'] for k in range(6)]
    if jobs and not a.no_search:
        each = min(15.0, 8 * 200.0 / len(jobs))
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            for (u, k), q in zip(jobs, ex.map(lambda j: run_conc(j[0], dict(mode='search', seed=1000 * a.seed + j[1], seconds=each, runs=10 ** 6,
                                                                          tier=tier), each * 4 + 120), jobs)):
                if q['status'] == 'fail':
                    found[u['id']] = q
    for uid, u, r, base in pending:
        if uid in found:
            q = found[uid]
            rp = write_replay(prop, u, 'input', dict(base or {}, obligation=q['name'], inputs=q['inputs'], failed=q['name'],
                                                     origin='search after a proof which did not go through'))
            violations.append((uid, rp, q['name'], True))
            continue
        if base is not None:
            if (r.get('obligation') or '').startswith('no unexpected'):
                undecided.append((uid, 'the proof ran into {} which does not occur on the real code: {}'.format(
                    r.get('obligation'), r.get('detail', '')[-400:])))
                continue
            rp = write_replay(prop, u, 'obligation', base)
            violations.append((uid, rp, r.get('obligation') or r.get('detail'), False))
    finds = known_findings(prop)
    kf = []
    for d in finds:
        u = [x for x in units if x['id'] == d['unit']]
        if not u:
            continue
        e0 = ENV.get('PV_NO_KNOWN')
        ENV['PV_NO_KNOWN'] = '1'
        r = run_conc(u[0], dict(mode='replay', inputs=d['inputs'], tier=tier), 120)
        del ENV['PV_NO_KNOWN']
        if r['status'] == 'fail':
            kf.append(d)
            print('KNOWN-FINDING: property={} {}'.format(prop, d['what']))
    wall = time.time() - t0
    evidence(prop, tier, a.seed, mine, results, searches, violations, undecided, kf, wall)
    for uid, why in undecided:
        print('undecided: {}: {} (bounded search stands in)'.format(uid, why.strip().replace('\n', ' | ')[-400:]))
    proved = [u for u, r in results.items() if r['status'] == 'proved']
    print('{}: {} units, {} proved, {} obligations, {} discharged, {} runs of the bounded search, {:.1f} s'.format(
        prop, len(mine), len(proved), sum(r.get('obligations', 0) for r in results.values()),
        sum(r.get('discharged', 0) for r in results.values()), sum(r.get('runs', 0) for r in searches.values()), wall))
    for uid, rp, name, concrete in violations:
        print('violated: {}: {}'.format(uid, name))
        print('VIOLATION property={} replay={}{}'.format(prop, rp, '' if concrete else ' no-failing-input-found'))
    return 1 if violations else 0


def evidence(prop, tier, seed, mine, results, searches, violations, undecided, kf, wall):
    os.makedirs(EVID, exist_ok=True)
    bounded = {u['id']: u['bounded'] for u in mine if u['bounded']}
    und = {uid: why for uid, why in undecided}
    obl = sum(r.get('obligations', 0) for r in results.values())
    dis = sum(r.get('discharged', 0) for r in results.values())
    by = {}
    for r in results.values():
        for k, v in r.get('by_solver', {}).items():
            by[k] = by.get(k, 0) + v
    functions = sorted({f for r in results.values() if r['status'] == 'proved' for f in r.get('functions', [])})
    assumptions = sorted({x for r in results.values() for x in r.get('assumed', [])})
    assumptions += ['{}: bounded search only, not proved: {}'.format(k, v) for k, v in bounded.items()]
    assumptions += ['{}: undecided by the verifier in this run: {}'.format(k, v.strip()[-300:]) for k, v in und.items()]
    for r in results.values():
        for n in r.get('bounded_notes', []):
            assumptions.append('{}: bounded: {}'.format(r['unit'], n))
        for n in r.get('contracts_used', []):
            assumptions.append('{}: callee {} represented by its contract'.format(r['unit'], n))
    proof = dis > 0
    cov = dict(
        obligations=obl, discharged=dis, checker_cmd='python3 pv/check.py {} --tier {}'.format(prop, tier),
        trusted_base=TRUSTED,
        discharged_by=by,
        units={u['id']: dict(
            about=u['about'], result=('bounded' if u['bounded'] else results.get(u['id'], {}).get('status', 'not run')),
            obligations=results.get(u['id'], {}).get('obligations', 0), discharged=results.get(u['id'], {}).get('discharged', 0),
            paths=results.get(u['id'], {}).get('paths', 0), loops=results.get(u['id'], {}).get('loops', 0),
            named=results.get(u['id'], {}).get('names', {}),
            reachable=results.get(u['id'], {}).get('covers', {}),
            solver_s=results.get(u['id'], {}).get('solver_s', 0), queries=results.get(u['id'], {}).get('queries', 0),
            search_runs=searches.get(u['id'], {}).get('runs', 0), search_completed=searches.get(u['id'], {}).get('completed', 0))
            for u in mine},
        functions_under_contract=functions,
        solver_s=round(sum(r.get('solver_s', 0) for r in results.values()), 1),
        bounded_runs=sum(r.get('runs', 0) for r in searches.values()),
        known_findings=[d['id'] for d in kf],
        undecided=sorted(und))
    if not proof:
        cov['evaluations'] = cov['bounded_runs']
        cov['explanation'] = 'bounded search only'
        cov['distinct_nontrivial'] = sum(r.get('completed', 0) for r in searches.values())
        cov['rule'] = 'random and edge-biased inputs, runs which satisfy the assumptions of the unit'
        cov['samples'] = []
    d = dict(property=prop, tier=tier, seed=seed, level='proof' if proof else 'exploration', coverage=cov,
             assumptions=assumptions, wall_s=round(wall, 2), violations=len(violations))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
