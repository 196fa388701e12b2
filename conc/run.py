"""Parallel execution of concrete cases, replay files."""
import json
import os
import signal
import sys
import time
import traceback
import zlib
import multiprocessing as mp


def suites():
    from . import mechchecks, seqchecks, readchecks, symchecks
    return {**mechchecks.SUITE, **seqchecks.SUITE, **readchecks.SUITE, **symchecks.SUITE}


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


class Skipped(CaseTimeout):
    """the machine is too busy to run the case"""


def _real(*a):
    raise Skipped()


def one(pid, case, limit=180):
    """failures of one case; every exception of the code under test is one"""
    import numpy as np
    fn = suites()[pid][0]
    from . import mechchecks
    mechchecks.PARITY[0] = zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode()) % 2
    # processor time decides, however busy the machine is
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _real)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 2*limit)
    known = False
    try:
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = fn(case)
        known = bool(getattr(r, 'known', False))
        r = list(r)
    except Skipped:
        r = []
    except CaseTimeout:
        r = ['did not finish in %d s of processor time' % limit]
    except Exception as e:
        r = ['%s: %s (%s)' % (type(e).__name__, e, traceback.format_exc(limit=-3).replace('\n', ' | ')[-600:])]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r, known


def _task(a):
    i, pid, name, case = a
    r, known = one(pid, case)
    return i, r, known


def run(pid, cases, budget, workers=8, stop=3):
    """cases: list of (name, case); returns dict"""
    t0 = time.time()
    fails, known, done = [], 0, 0
    complete = True
    ctx = mp.get_context('fork')
    pool = ctx.Pool(workers)
    try:
        it = pool.imap_unordered(_task, [(i, pid, n, c) for i, (n, c) in enumerate(cases)])
        for _ in range(len(cases)):
            left = budget - (time.time() - t0)
            try:
                i, r, k = it.next(timeout=max(left, 0.1))
            except mp.TimeoutError:
                complete = False
                break
            done += 1
            known += k
            if r:
                fails.append((cases[i][0], cases[i][1], r))
                if len(fails) >= stop:
                    complete = False
                    break
    finally:
        pool.terminate()
        pool.join()
    return dict(done=done, fails=fails, known=known, complete=complete, wall=time.time() - t0, total=len(cases))


def save(path, pid, name, case, fails, extra=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(dict(property=pid, name=name, case=case, failures=fails, replay='/opt/venv/bin/python /verif/replay.py %s' % path, **(extra or {})), f, indent=1, default=str)
