"""python3 tools/refac.py SPEC.py [name...]: run checks on behaviour-preserving edits; they must stay quiet.

A spec defines edits = {name: (ids, [(file, old, new), ...])}.  'rc' 0 is expected for all."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor


def one(item):
    name, (ids, edits) = item
    d = tempfile.mkdtemp(prefix='ref', dir='/tmp')
    out = []
    try:
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = f'{d}/src/toron/{f}'
            s = open(p).read()
            if old not in s:
                return f'{name}: PATTERN NOT FOUND in {f}: {old[:60]!r}'
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
            compile(s, p, 'exec')
        for i in ids.split(','):
            r = subprocess.run([sys.executable, '/verif/checker/run.py', i], capture_output=True, text=True,
                               env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/ev'})
            out.append(f'{name} {i} rc {r.returncode}')
            for x in (r.stdout + r.stderr).splitlines():
                if x.startswith('[') or (r.returncode not in (0, 1)):
                    out.append('     ' + x[:300])
    finally:
        shutil.rmtree(d)
    return '\n'.join(out)


spec = runpy.run_path(sys.argv[1])['edits']
names = sys.argv[2:] or list(spec)
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, [(n, spec[n]) for n in names]):
        print(r, flush=True)
