"""python3 checker/run.py ID [--task SUBSTR] [-v]: decide one property."""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checker.frame import run_check                     # noqa: E402
from checker.project import AnalysisBroken, Project     # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(argv):
    pid = argv[0]
    verbose = '-v' in argv
    only = None
    if '--task' in argv:
        only = argv[argv.index('--task') + 1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('checker.checks.' + pid.lower())
    evfile = os.path.join(EVID, pid + '.json')
    repfile = os.path.join(EVID, pid + '.violations.json')
    os.makedirs(os.path.dirname(evfile), exist_ok=True)
    for f in (evfile, repfile):
        if os.path.exists(f):
            os.unlink(f)
    root = os.environ.get('VERIF_REPO', '/repo')
    try:
        proj = Project(root)
        check = mod.check(proj, tier)
        sel = None
        if only:
            class Sel:
                def __contains__(self, x):
                    return only in (x if isinstance(x, str) else '/'.join(map(str, x)))
            sel = Sel()
        results = run_check(check, sel, verbose=verbose)
        reports, cov = ([], {}) if only else check.finish(results)
    except AnalysisBroken as e:
        sys.stderr.write(f'ANALYSIS-BROKEN property={pid} {e}\n')
        return 2
    reports = list(reports)
    seen = set()
    for r in results:
        for x in r.reports:
            k = (x['rule'], x.get('construct') or x['function'], x['message'])
            if k not in seen:
                seen.add(k)
                reports.append(x)
    known = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'known']
    listed, fresh, used = [], [], set()
    for x in reports:
        for i, k in enumerate(known):
            if k['rule'] == x['rule'] and k['function'] == x['function'] and k.get('contains', '') in x['message'] \
                    and (not k.get('entry') or k['entry'] == x.get('entry')):
                listed.append((k, x))
                used.add(i)
                break
        else:
            fresh.append(x)
    for i in sorted(used):
        print(f'KNOWN-FINDING: property={pid} {known[i]["what"]}')
    for x in fresh[:25]:
        print(f'[{x["rule"]}] {x["where"]} in {x["function"]}: {x["message"]}'
              + (f' (entry {x["entry"]})' if x.get('entry') else ''))
        if x.get('path'):
            for p in x['path'][-10:]:
                print('      via', p)
    cov = dict(cov)
    cov.setdefault('explanation', check.explanation)
    cov['rules'] = list(check.rules)
    cov['slowest_tasks'] = [[str(r.task), round(r.wall, 1)] for r in sorted(results, key=lambda r: -r.wall)[:3]]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': list(getattr(check, 'assumptions', ())),
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    with open(evfile, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print(f'{pid}: ' + ', '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, int)) +
          f', known={len(listed)}, violations={len(fresh)}, wall={ev["wall_s"]}s')
    if fresh:
        with open(repfile, 'w') as f:
            json.dump(fresh, f, indent=1, default=str)
        print(f'VIOLATION property={pid} replay={repfile}')
        return 1
    bad = [r for r in results if r.error]
    if bad:
        sys.stderr.write(f'ANALYSIS-BROKEN property={pid} {len(bad)} task(s) failed, first: {bad[0].error}\n')
        return 2
    return 0


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
