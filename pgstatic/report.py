"""Result of one rule run: findings keyed by rule and construct, counts of what was analysed."""
import json
import os
import time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp


class Res:
    """Accumulator used by the rules (picklable)."""
    def __init__(self):
        self.findings = {}     # key -> dict
        self.counts = {}
        self.funcs = set()
        self.sites = set()
        self.entries = []
        self.undecided = {}
        self.errors = []
        self.failed = []       # jobs without an answer
        self.cover = {}        # coverage items -> True (set union across jobs)

    def find(self, rule, construct, msg, loc=None, stack=None):
        key = f'{rule}|{construct}'
        if key not in self.findings:
            self.findings[key] = dict(rule=rule, construct=construct, message=msg,
                                      location=f'{loc[0]}:{loc[1]}' if loc else None,
                                      path=[q for q in (stack or ()) if q != '<entry>'])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def undec(self, rule, construct, why=''):
        self.undecided.setdefault(f'{rule}|{construct}', why)

    def seen(self, e):
        self.funcs |= set(e.analysed)
        self.sites |= e.sites
        self.errors += [x for x in e.errors if x not in self.errors]

    def entry(self, label):
        self.entries.append(label)

    def merge(self, o):
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.funcs |= o.funcs
        self.sites |= o.sites
        self.entries += o.entries
        for k, v in o.undecided.items():
            self.undecided.setdefault(k, v)
        self.errors += [x for x in o.errors if x not in self.errors]
        self.cover.update(o.cover)
        self.failed += o.failed


JOB_LIMIT = float(os.environ.get('PGSTATIC_JOB_LIMIT', '300'))      # seconds for one job
ALL_LIMIT = float(os.environ.get('PGSTATIC_LIMIT', '780'))          # seconds for one check


class OutOfTime(BaseException):
    pass


def _call(a):
    mod, job, root, end = a
    import ctypes
    import importlib
    import sys
    import threading
    out = {}

    def go():
        try:
            m = importlib.import_module(f'pgstatic.rules.{mod}')
            out['r'] = m.run(job, root)
        except BaseException as ex:
            import traceback
            out['x'] = f'{type(ex).__name__}: {ex}\n' + '\n'.join(traceback.format_exc().splitlines()[-12:])
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(100000)
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(max(1., min(JOB_LIMIT if end[0] is None else end[0], end[1] - time.time())))
    while t.is_alive():
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))
        t.join(1.)
    if 'r' not in out:
        # the job could not be decided: reported in the evidence, never as a pass of the obligations it holds
        r = Res()
        r.failed.append(f'{job}: {out.get("x")}')
        r.undec('job', str(job), (out.get('x') or '').splitlines()[0] if out.get('x') else 'no result')
        return r
    return out['r']


def run_jobs(mod, jobs, root, workers=None, limits=None):
    limits = limits or (None, time.time() + ALL_LIMIT)
    workers = workers or int(os.environ.get('PGSTATIC_JOBS', '0')) or min(8, os.cpu_count() or 1)
    res = Res()
    if workers == 1 or len(jobs) == 1:
        for j in jobs:
            res.merge(_call((mod, j, root, limits)))
        return res
    with ProcessPoolExecutor(workers, mp_context=mp.get_context('fork')) as ex:
        for r in ex.map(_call, [(mod, j, root, limits) for j in jobs]):
            res.merge(r)
    return res
