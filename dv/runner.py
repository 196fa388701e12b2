"""Parallel exploration of the programs of progs.py: every combination of
choices of every program is executed by a pool of worker processes.

A task is (job, prefix): one path.  The log of the path tells which other
paths exist, and these become tasks.
"""
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


def one_path(name, args, prefix, limit):
    """run one path; returns a picklable dict"""
    from . import alg, progs, shim
    from .ctx import Ctx, Infeasible, PathLimit
    sys.setrecursionlimit(20000)
    alg.reset()
    args = dict(args)
    shim.ALIAS[0] = args.pop('alias', False)
    restart = False
    ctx = Ctx(prefix)
    alg.set_ctx(ctx)
    t0 = time.time()
    err = None
    drop = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5.)
    try:
        try:
            progs.PROGRAMS[name](ctx, **args)
        except Infeasible:
            drop = True
        except shim.IdentityObserved:
            restart = drop = True
        except PathLimit as e:
            err = 'limit: %s' % e
        except alg.Breach as e:
            err = 'breach: %s' % e
            for t in e.tags or ('C00',):
                ctx.oblig('%s %s' % (t, str(e).partition(':')[0]), False, 'symbolic execution', str(e))
        except alg.Unsupported as e:
            err = 'unsupported: %s' % e
        except RecursionError as e:
            err = 'limit: recursion'
        except PathTimeout:
            err = 'limit: path took more than %d s' % limit
        except Exception as e:
            err = 'exception %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4)[-900:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except PathTimeout:
        err = err or 'limit: path took more than %d s' % limit
    return dict(log=[(c, n) for c, n, _ in ctx.log], labels=[l for _, _, l in ctx.log],
                rows=[o.row() for o in ctx.obls], err=err, drop=drop, restart=restart, wall=time.time() - t0,
                solver=ctx.solver_s, queries=dict(ctx.queries), notes=list(ctx.notes))


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import progs  # noqa: F401


class Result:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.rows = {}          # name -> [n, ok, {backend: n}]
        self.failed = []        # rows with job
        self.errs = []          # (job, error)
        self.jobs = {}          # job label -> dict(paths, wall, obligations)
        self.solver = 0.
        self.cpu = 0.
        self.queries = {}
        self.notes = 0
        self.complete = True
        self.why = ''


def label(name, args):
    return '%s(%s)' % (name, ', '.join('%s=%s' % (k, v) for k, v in sorted(args.items()) if k != 'want'))


def run(jobs, pid, deadline, workers=8, path_limit=150, stop_after=6, definite=None):
    """jobs: [(name, args)].  Rows of other properties are dropped."""
    jobs = [(a, b) for a, b in jobs]
    res = Result()
    todo = [(j, []) for j in range(len(jobs))]
    for name, args in jobs:
        res.jobs[label(name, args)] = dict(paths=0, obligations=0, discharged=0, cpu_s=0.)
    ctxm = mp.get_context('fork')
    ex = ProcessPoolExecutor(workers, mp_context=ctxm, initializer=_init)
    running = {}
    nbad = 0
    nerr = 0
    try:
        while todo or running:
            while todo and len(running) < workers*2:
                j, pre = todo.pop(0)
                running[ex.submit(one_path, jobs[j][0], jobs[j][1], pre, path_limit)] = (j, pre)
            done, _ = wait(list(running), timeout=max(0.1, min(5., deadline - time.time())), return_when=FIRST_COMPLETED)
            for f in done:
                j, pre = running.pop(f)
                lab = label(*jobs[j])
                try:
                    r = f.result()
                except BrokenProcessPool:
                    raise
                except BaseException as e:
                    res.errs.append((lab, 'worker: %r' % e))
                    continue
                log = r['log']
                if [c for c, _ in log[:len(pre)]] != list(pre[:len(log)]) or len(log) < len(pre):
                    res.errs.append((lab, 'path was not reproduced'))
                    continue
                choices = [c for c, _ in log]
                for i in range(len(pre), len(log)):
                    for c in range(1, log[i][1]):
                        todo.append((j, choices[:i] + [c]))
                J = res.jobs[lab]
                J['cpu_s'] += r['wall']
                res.cpu += r['wall']
                res.solver += r['solver']
                for k, v in r['queries'].items():
                    res.queries[k] = res.queries.get(k, 0) + v
                if r['restart'] and (jobs[j][0], dict(jobs[j][1], alias=True)) not in jobs:
                    # identity of the laminates matters: every way of sharing them
                    jobs.append((jobs[j][0], dict(jobs[j][1], alias=True)))
                    res.jobs[label(*jobs[-1])] = dict(paths=0, obligations=0, discharged=0, cpu_s=0.)
                    todo.insert(0, (len(jobs) - 1, []))
                if r['drop']:
                    res.infeasible += 1
                    continue
                res.paths += 1
                J['paths'] += 1
                res.notes += bool(r['notes'])
                if r['err'] and not r['err'].startswith('breach'):
                    res.errs.append((lab, r['err']))
                    nerr += 1
                for row in r['rows']:
                    if not row['name'].startswith(pid + ' ') and not row['name'].startswith('C00 '):
                        continue
                    q = res.rows.setdefault(row['name'], [0, 0, {}])
                    q[0] += 1
                    J['obligations'] += 1
                    if row['ok']:
                        q[1] += 1
                        q[2][row['backend']] = q[2].get(row['backend'], 0) + 1
                        J['discharged'] += 1
                    else:
                        row['job'] = lab
                        row['path'] = [l for l in zip(r['labels'], choices)]
                        res.failed.append(row)
                        if definite and definite(row):
                            nbad += 1
            if time.time() > deadline:
                res.complete = False
                res.why = 'time limit'
                break
            if nbad >= stop_after:
                res.complete = False
                res.why = 'stopped after the first failed obligations'
                break
            if nerr >= 12:
                res.complete = False
                res.why = 'stopped after %d paths the verifier could not handle' % nerr
                break
    except BrokenProcessPool:
        res.complete = False
        res.why = 'a worker process died'
        res.errs.append(('', 'a worker process died'))
    finally:
        procs = list((ex._processes or {}).values())
        if todo or running or not res.complete:
            for p in procs:
                try:
                    p.kill()
                except Exception:
                    pass
        ex.shutdown(wait=True, cancel_futures=True)
    for name, args in jobs:
        # replaced by the program with laminates shared in every way
        if (name, dict(args, alias=True)) in jobs and not res.jobs[label(name, args)]['obligations']:
            del res.jobs[label(name, args)]
    return res
