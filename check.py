#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of /repo statically.

exit 0: property holds on everything analysed (known findings are printed), 1: violation, 2: analysis error."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pgstatic import report, scen  # noqa: E402


def known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith(f'known: property={prop} '):
                rest = ln.split(' ', 2)[2]
                key, _, txt = rest.partition(' -- ')
                out[key.strip()] = txt
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default=scen.ROOT)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    mod = a.prop.lower()
    m = importlib.import_module(f'pgstatic.rules.{mod}')
    # the rule has to fire on its own examples of every kind of violation
    missing = [x for x in m.EXPECT if x not in {f['rule'] for f in m.selftest().findings.values()}]
    if missing:
        print(f'ANALYSIS-ERROR property={a.prop}: rules do not fire on their own examples: {missing}')
        return 2
    jobs = m.jobs(a.tier)
    res = report.run_jobs(mod, jobs, a.root, limits=None if a.tier == 'quick' else (6 * 3600., t0 + 12 * 3600.))
    short = {k: (res.counts.get(k, 0), v) for k, v in m.MIN.items() if res.counts.get(k, 0) < v}
    kn = known(a.prop)
    viol = {k: f for k, f in res.findings.items() if k not in kn}
    hits = [k for k in res.findings if k in kn]
    wall = time.time() - t0
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {
        'explanation': m.EXPLAIN,
        'entry_points': len(res.entries), 'functions_analysed': len(res.funcs), 'call_sites_resolved': len(res.sites),
        'obligations': res.counts, 'undecided': len(res.undecided), 'undecided_list': sorted(res.undecided)[:60],
        'functions': sorted(res.funcs), 'unmodelled_constructs': res.errors[:40],
        'jobs': len(jobs), 'jobs_without_answer': [x.splitlines()[0] for x in res.failed],
        'self_examples': list(m.EXPECT),
    }
    if res.cover:
        cov['covered'] = sorted(res.cover)[:400]
    doc = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level=m.LEVEL, coverage=cov,
               wall_s=round(wall, 2), violations=len(viol), assumptions=m.ASSUME)
    with open(os.path.join(ev, f'{a.prop}.json'), 'w') as fh:
        json.dump(doc, fh, indent=1)
    print(f'{a.prop}: {len(res.entries)} entry points, {len(res.funcs)} functions, {len(res.sites)} call sites, '
          f'obligations {res.counts}, undecided {len(res.undecided)}, {wall:.1f} s')
    for x in res.failed[:20]:
        print(f'ANALYSIS-INCOMPLETE property={a.prop} ' + (x if a.v else ' '.join(x.splitlines()[:1]) + ' ' + x.splitlines()[-1]))
    if a.v:
        for k in sorted(res.undecided):
            print('  undecided', k, res.undecided[k])
    for k in hits:
        print(f'KNOWN-FINDING: property={a.prop} {k}: {kn[k]}')
    if viol:
        rp = os.path.join(ev, f'{a.prop}.violation.json')
        with open(rp, 'w') as fh:
            json.dump(list(viol.values()), fh, indent=1)
        for f in viol.values():
            print(f"  [{f['rule']}] {f['location']} {f['construct']}: {f['message']}"
                  + (f"\n      path: {' > '.join(f['path'])}" if f['path'] else ''))
        print(f'VIOLATION property={a.prop} replay={rp}')
        return 1
    if 2 * len(res.failed) > len(jobs):
        print(f'ANALYSIS-ERROR property={a.prop}: {len(res.failed)} of {len(jobs)} jobs without an answer')
        return 2
    if short:
        print(f'ANALYSIS-ERROR property={a.prop}: fewer rule instances than confirmed by hand (found, minimum): {short}')
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as ex:      # analysis broken: neither a pass nor a violation
        import traceback
        traceback.print_exc()
        print(f'ANALYSIS-ERROR {ex}')
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
