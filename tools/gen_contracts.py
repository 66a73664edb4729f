"""Writes contracts/c05/*.json from the current tree (to be reviewed before committing)."""
import json, os, sys, threading
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
from pgstatic import report
from pgstatic.rules import c05

def one(job):
    out = {}
    def go():
        for en in c05.entries(job, None):
            inf = c05.influences(en, value=True)
            out[en.label] = {lab: {p: sorted(ns) for p, ns in paths.items() if ns} for lab, paths in inf.items()}
    threading.stack_size(512 * 1024 * 1024); sys.setrecursionlimit(100000)
    t = threading.Thread(target=go); t.start(); t.join()
    return job, out

if __name__ == '__main__':
    d = os.path.join(HERE, 'contracts', 'c05'); os.makedirs(d, exist_ok=True)
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for job, out in ex.map(one, c05.jobs('thorough')):
            json.dump(out, open(os.path.join(d, job.replace(',', '_').replace(':', '_') + '.json'), 'w'), indent=0, sort_keys=True)
            print(job, len(out))
