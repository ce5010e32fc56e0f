"""python3 tools/mut.py IDS FILE OLD NEW [extra run args]: try checks on a changed copy of /repo."""
import os
import shutil
import subprocess
import sys
import tempfile

ids, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
try:
    shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
    p = f'{d}/src/toron/{file}'
    s = open(p).read()
    old = old.encode().decode('unicode_escape')
    new = new.encode().decode('unicode_escape')
    if s.count(old) < 1:
        sys.exit(f'pattern not found in {file}')
    n = 0
    if old.startswith('@'):
        pass
    s = s.replace(old, new, 1)
    open(p, 'w').write(s)
    compile(s, p, 'exec')
    for i in ids.split(','):
        r = subprocess.run([sys.executable, '/verif/checker/run.py', i] + sys.argv[5:], capture_output=True, text=True,
                           env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/ev'})
        out = (r.stdout + r.stderr).strip().splitlines()
        print(i, 'rc', r.returncode)
        for x in out:
            if x.startswith('['):
                print('   ', x[:300])
        if r.returncode not in (0, 1):
            print('\n'.join(out[-12:]))
finally:
    shutil.rmtree(d)
