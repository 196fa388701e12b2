"""Decide one property on the current tree of /repo.

usage: /opt/venv/bin/python check.py PROPERTY      (tier: VERIF_TIER)

1. the programs of jobs.py: real functions, contracts, all obligations
2. a concrete layer: replay of counterexamples, bounded cases
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import numpy as np  # noqa: E402

PID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()
WORKERS = max(1, min(8, os.cpu_count() or 1))
LIMIT = {'quick': 420., 'thorough': 3000.}[TIER]
REPLAY = os.path.join(HERE, 'evidence', 'replay')

from infotext import BACKENDS, EXPLORE, RULE, TRUSTED, PER, FUNCTIONS  # noqa: E402
from jobs import jobs  # noqa: E402


def definite(row):
    """a failed obligation that refutes the property (the rest is undecided)"""
    b = row['backend'] or ''
    words = row['name'].split()
    if len(words) > 1 and words[1] == 'soft:':
        return False
    if not row['name'].startswith(PID + ' '):
        return False
    if b.startswith('undecided') or b.startswith('z3') or b in ('sign', 'canary', 'path', ''):
        return False
    if b.startswith('normal form'):
        return row.get('cex') is not None or 'witness' in b
    return True


def known_entries():
    try:
        return [k for k in json.load(open(os.path.join(HERE, 'known_findings.json'))) if k['status'] == 'known' and k['property'] == PID]
    except FileNotFoundError:
        return []


def main():
    from dv import runner
    from conc import run as crun, meshes
    J = jobs(PID, TIER == 'thorough')
    res = None
    undecided = []
    bad = []
    if J:
        res = runner.run(J, PID, T0 + LIMIT, WORKERS, definite=definite)
        bad = [r for r in res.failed if definite(r)]
        undecided = [r for r in res.failed if not definite(r)]
        if not bad and not res.complete:
            undecided.append(dict(name='exploration', backend='limit', detail=res.why, job=''))
        for j, e in res.errs:
            undecided.append(dict(name='path', backend='limit', detail=e, job=j))
        nobl = sum(v[0] for v in res.rows.values())
        if not bad and (nobl == 0 or any(not v['paths'] or not v['obligations'] for v in res.jobs.values())) and not undecided:
            undecided.append(dict(name='vacuity', backend='limit', detail='a program generated no obligations', job=str([k for k, v in res.jobs.items() if not v['obligations']])))
    # -- concrete layer
    fn, gen = crun.suites()[PID]
    cases = []
    rng = np.random.default_rng([SEED, int(PID[1:])])
    for r in bad[:6] + undecided[:6]:
        if r.get('cex') and PID >= 'C06' and PID <= 'C17':
            try:
                cases += meshes.from_cex(r['cex'], rng)
            except Exception:
                pass
        if r.get('cex') and r['cex'].get('case'):
            cases.append(('countermodel: ' + r['name'], r['cex']['case']))
        if r.get('cex') and r['cex'].get('cases'):
            cases += [('options of: ' + r['name'], x) for x in r['cex']['cases']]
    ncex = len(cases)
    deep = TIER == 'thorough' or (bool(undecided) and not bad)
    cases += list(gen(rng, False))
    budget = 240. if TIER == 'quick' else 900.
    out = crun.run(PID, cases, budget, WORKERS)
    outs = [out]
    if deep and not out['fails']:
        more = list(gen(np.random.default_rng([SEED, int(PID[1:]), 77]), True))
        outs.append(crun.run(PID, more, min(200., max(20., T0 + 840 - time.time())) if TIER == 'quick' else 2400., WORKERS))
        cases = cases + more
    fails = [f for o in outs for f in o['fails']]
    evals = sum(o['done'] for o in outs)
    # -- verdict
    viol = []
    if fails:
        name, case, msgs = min(fails, key=lambda f: len(json.dumps(f[1], default=str)))
        path = os.path.join(REPLAY, '%s.json' % PID)
        crun.save(path, PID, name, case, msgs, dict(obligations=[brief(r) for r in bad[:8]]))
        viol.append('VIOLATION property=%s replay=%s' % (PID, path))
        for r in bad[:4]:
            print('failed obligation: %s [%s] in %s: %s' % (r['name'], r['backend'], r['job'], (r['detail'] or '')[:300]))
        for r in [r for r in undecided if r['name'].startswith(PID + ' ')][:4] if not bad else []:
            print('obligation not discharged: %s [%s] in %s: %s' % (r['name'], r['backend'], r.get('job', ''), str(r['detail'] or '')[:300]))
        print('failing input (%s): %s' % (name, '; '.join(msgs)[:900]))
    elif bad:
        path = os.path.join(REPLAY, '%s.json' % PID)
        crun.save(path, PID, bad[0]['name'], None, [], dict(obligations=[brief(r) for r in bad[:20]]))
        for r in bad[:4]:
            print('failed obligation: %s [%s] in %s: %s' % (r['name'], r['backend'], r['job'], (r['detail'] or '')[:600]))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (PID, path))
    known = known_entries()
    if known and ((res is not None and res.notes) or any(o['known'] for o in outs)):
        for k in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (PID, k['where'], k['what']))
    if undecided and not viol:
        seen = {}
        for r in undecided:
            seen.setdefault((r['name'], str(r['detail'])[:200]), r)
        for r in list(seen.values())[:5]:
            print('undecided by the verifier, decided by the bounded layer: %s [%s] %s %s' % (r['name'], r['backend'], r.get('job', ''), str(r['detail'])[:300]))
    evidence(res, bad, undecided, outs, cases, evals, ncex, viol)
    if viol:
        print(viol[0])
        return 1
    print('%s: held on everything explored (%s)' % (PID, summary(res, undecided, evals)))
    return 0


def brief(r):
    return {k: r.get(k) for k in ('name', 'backend', 'detail', 'cex', 'job', 'path')}


def summary(res, undecided, evals):
    if res is None:
        return '%d bounded cases' % evals
    n = sum(v[0] for v in res.rows.values())
    d = sum(v[1] for v in res.rows.values())
    return '%d of %d obligations discharged on %d paths%s, %d concrete cases' % (d, n, res.paths, ', %d undecided' % len(undecided) if undecided else '', evals)


def evidence(res, bad, undecided, outs, cases, evals, ncex, viol):
    cov = dict(evaluations=evals, distinct_nontrivial=len({json.dumps(c, sort_keys=True, default=str) for _, c in cases}),
               rule=RULE[PID], samples=[dict(name=n, case=json.loads(json.dumps(c, default=str))) for n, c in cases[:2]],
               concrete_layer=[dict(cases=o['total'], run=o['done'], complete=o['complete'], wall_s=round(o['wall'], 1)) for o in outs],
               counterexample_cases=ncex)
    if res is not None:
        n = sum(v[0] for v in res.rows.values())
        d = sum(v[1] for v in res.rows.values())
        be = {}
        for v in res.rows.values():
            for k, q in v[2].items():
                be[k] = be.get(k, 0) + q
        cov.update(obligations=n, discharged=d, distinct_obligations=len(res.rows),
                   checker_cmd='/opt/venv/bin/python /verif/check.py %s' % PID,
                   trusted_base=PER.get(PID, TRUSTED), functions_under_contract=FUNCTIONS[PID], backends=be, backend_meaning=BACKENDS,
                   programs={k: dict(v, cpu_s=round(v['cpu_s'], 2)) for k, v in res.jobs.items()},
                   paths=res.paths, infeasible_paths=res.infeasible, solver_s=round(res.solver, 2), cpu_s=round(res.cpu, 1), solver_queries=res.queries,
                   explored_completely=res.complete,
                   failed=[brief(r) for r in bad[:20]], undecided=[str(r.get('name')) + ': ' + str(r.get('detail'))[:200] for r in undecided[:20]],
                   undecided_count=len(undecided))
        if undecided:
            cov['bounded'] = 'undecided obligations are not counted as discharged; the bounded concrete layer was run deeper in their place'
    else:
        cov['explanation'] = EXPLORE.get(PID, '')
    ev = dict(property=PID, tier=TIER, seed=SEED, level=LEVEL(PID), coverage=cov, assumptions=PER.get(PID, TRUSTED) if res is not None else [],
              wall_s=round(time.time() - T0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', PID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def LEVEL(pid):
    return 'proof' if jobs(pid) else 'exploration'


if __name__ == '__main__':
    sys.exit(main())
