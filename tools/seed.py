"""python3 tools/seed.py SPEC.py...: make /verif/seeded/<id> from a spec and confirm it.

A spec defines id, property, edits [(file, old, new)], needs, breaks, demo (python text).
Confirmed: the demo passes on /repo, fails with the change, all stable tests pass with the change.
Prints whether the property's check reports it."""
import json
import os
import runpy
import subprocess
import sys

R = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(spec):
    s = runpy.run_path(spec)
    d = f'/verif/seeded/{s["id"]}'
    os.makedirs(d, exist_ok=True)
    assert not sh('git status --porcelain', cwd=R).stdout.strip(), 'repo not clean'
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    ok = True
    try:
        r0 = sh(f'bash {d}/demo.sh', cwd=R)
        for f, old, new in s['edits']:
            p = f'{R}/src/toron/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'BAD EDIT', f, t.count(old), repr(old[:60]))
                return False
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=R).stdout)
        r1 = sh(f'bash {d}/demo.sh', cwd=R)
        sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        out = json.load(open('/tmp/seed_out.json'))
        bp = set(base['stable'])
        op = set(out.get('passed') or [])
        missing = sorted(bp - op)
        c = sh(f'python3 checker/run.py {s["property"]}', cwd='/verif', env={**os.environ, 'VERIF_EVIDENCE': '/tmp/seed_ev'})
        ok = r0.returncode == 0 and r1.returncode != 0 and not missing
        print(s['id'], 'OK' if ok else 'NOT CONFIRMED', 'demo', r0.returncode, r1.returncode, 'tests missing',
              len(missing), missing[:3], '| check rc', c.returncode)
        for x in (c.stdout or '').splitlines():
            if x.startswith('['):
                print('    ', x[:260])
        if r0.returncode:
            print(r0.stderr[-800:])
        if r1.returncode:
            print('    demo:', (r1.stderr or r1.stdout).strip().splitlines()[-1][:200])
    finally:
        sh('git checkout -- .', cwd=R)
    return ok


if __name__ == '__main__':
    for x in sys.argv[1:]:
        main(x)
